import importlib

IDS = [f"C{i:02d}" for i in range(1, 20)]


def load(prop_id):
    return importlib.import_module(f"checks.{prop_id.lower()}").PROP
