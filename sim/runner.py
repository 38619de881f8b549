"""Command line: run a batch of simulated runs for one property, minimise and confirm failures,
write evidence."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time
from collections import Counter

from . import core
from .env import VERIF, LibraryBroken, library

BUDGET = {"quick": 60.0, "thorough": 780.0}   # wall-clock caps of the search, seconds


def replay_path(prop_id, case):
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop_id}-{h}.json")


def write_replay(prop_id, case, violation, original=None):
    path = replay_path(prop_id, case)
    with open(path, "w") as f:
        json.dump(dict(property=prop_id, kind=violation.kind, message=violation.message, case=case, original=original), f, indent=1)
    return path


def do_replay(path):
    from checks import load

    with open(path) as f:
        rec = json.load(f)
    prop = load(rec["property"])
    if rec["kind"] == "died" and not os.environ.get("VERIF_REPLAY_CHILD"):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPLAY_CHILD": "1"})
        if r.returncode < 0:
            print(f"VIOLATION property={rec['property']} replay={path}\n  kind=died: the process died with signal {-r.returncode}")
            return 1
        print(r.stdout, end="")
        return r.returncode
    try:
        library()
        v, log = core.run_case(prop, rec["case"])
    except LibraryBroken as e:
        v, log = core.Violation("import", str(e)), core.Log()
    if v is None:
        print(f"replay of {path}: no violation")
        return 0
    print(f"VIOLATION property={rec['property']} replay={path}")
    print(f"  kind={v.kind}: {v.message}")
    print(f"  digest={log.digest()}")
    return 1


def confirm(path, kind):
    """Replay in a fresh interpreter (with another hash seed): it must fail in the same way."""
    env = {**os.environ, "PYTHONHASHSEED": "12345"}
    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True, env=env,
                       timeout=300)
    return r.returncode == 1 and f"kind={kind}:" in r.stdout, r.stdout + r.stderr[-2000:]


def report(prop, case, v, seconds=90):
    """Minimise, write the replay file, confirm it, print the violation."""
    if v.kind == "died":
        small, sv = case, v
    else:
        small = core.minimise(prop, case, v.kind, seconds)
        sv, _ = core.run_case(prop, small)
    if sv is None or sv.kind != v.kind:
        small, sv = case, v
    path = write_replay(prop.ID, small, sv, None if small is case else case)
    ok, out = confirm(path, sv.kind)
    if not ok:
        path = write_replay(prop.ID, case, v)
        ok, out = confirm(path, v.kind)
        sv = v
    print(f"VIOLATION property={prop.ID} replay={path}")
    print(f"  kind={sv.kind}: {sv.message}")
    print(f"  seed={case.get('seed')} run={case.get('index')} ops={len(small.get('ops', []))} (from {len(case.get('ops', []))}) "
          f"reproduced_in_fresh_process={ok}")
    if not ok:
        print(out)
    sys.stdout.flush()


def known_findings(prop_id):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop_id and k["status"] == "open"]


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="execute a single run by index and print it")
    ap.add_argument("--digests", help="write the event-log digest of every run to this file")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)

    from checks import load

    prop = load(a.property)
    t0 = time.monotonic()
    try:
        library()
    except LibraryBroken as e:
        case = dict(import_only=True, seed=a.seed, index=-1, ops=[])
        path = write_replay(prop.ID, case, core.Violation("import", str(e)))
        print(f"VIOLATION property={prop.ID} replay={path}\n  kind=import: {e}")
        return 1

    if a.case is not None:
        case = core.gen_case(prop, a.seed, a.case, a.tier)
        print(json.dumps(case))
        v, log = core.run_case(prop, case)
        print(v, dict(log.c), log.digest())
        return 1 if v else 0

    # known findings: each one is probed; a listed failure is announced, never hidden
    findings = known_findings(prop.ID)
    for k in findings:
        from . import probes

        still = probes.PROBES[k["probe"]]()
        print(f"KNOWN-FINDING: property={prop.ID} {k['what']}" if still else f"note: known finding no longer reproduces: {k['id']}")

    n = a.runs or prop.RUNS[a.tier]
    cap = BUDGET[a.tier] * getattr(prop, "CAP", 1.0)
    results = core.run_batch(prop.ID, a.seed, a.tier, n, a.workers, cap)
    errors = [r for r in results if "error" in r]
    bad = [r for r in results if "violation" in r]

    if a.digests:
        with open(a.digests, "w") as f:
            for r in results:
                if "digest" in r:
                    f.write(f"{r['index']} {r['digest']}\n")

    counters, states, sigs = Counter(), set(), set()
    for r in results:
        counters.update(r.get("counters", {}))
        states |= r.get("states", set())
        if r.get("nontrivial"):
            sigs.add(r["sig"])
    wall_search = time.monotonic() - t0
    done = [r for r in results if "digest" in r]
    if not a.no_evidence:
        write_evidence(prop, a, done, counters, states, sigs, wall_search, len(bad), findings, n)

    if bad:
        for r in bad[:2]:
            report(prop, r["case"], core.Violation(r["violation"]["kind"], r["violation"]["message"]), 45 if len(bad) > 1 else 80)
        print(f"  {len(bad)} of {len(results)} simulated runs violate the property")
        return 1
    discarded = len([r for r in errors if r["invalid"]])
    if len(errors) > discarded or discarded > 2 + n // 500:
        worst = next((r for r in errors if not r["invalid"]), errors[0])
        print("HARNESS-ERROR in run", worst["index"], f"({len(errors)} errors, {discarded} of them discards)", "\n", worst["error"])
        print(json.dumps(worst["case"]))
        return 2
    for p in getattr(prop, "PROBES", []):
        if n >= 100 and len(done) >= 0.95 * n and not counters.get(p):
            print(f"HARNESS-ERROR: probe '{p}' was never hit in {n} runs")
            return 2
    print(f"{prop.ID}: held on {len(done)} simulated runs ({sum(r['steps'] for r in done)} stream steps, "
          f"{len(states)} distinct states, {len(sigs)} distinct non-trivial runs) in {wall_search:.1f}s, seed {a.seed}")
    return 0


def write_evidence(prop, a, done, counters, states, sigs, wall, n_bad, findings, planned):
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault_")}
    runs = len(done)
    log_digest = hashlib.sha256("".join(r["digest"] for r in done).encode()).hexdigest()
    ev = dict(
        property=prop.ID, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(sigs),
            rule=getattr(prop, "RULE", "runs are drawn from the seed: a random network configuration, a random history of operations and "
                         "faults; a run is non-trivial if at least one produced output (or fired fault) was judged, and distinct if its "
                         "network description and operation history differ from those of all other runs"),
            samples=[r["sample"] for r in done if "sample" in r][:2],
            runs_planned=planned,
            runs_per_hour=round(runs / wall * 3600) if wall else 0,
            seeds_per_hour=round(runs / wall * 3600) if wall else 0,
            simulated_steps=sum(r["steps"] for r in done),
            simulated_time="the library has no clock; simulated time is counted in stream steps (frames)",
            events=sum(r["events"] for r in done),
            faults_fired=faults,
            operations={k: v for k, v in sorted(counters.items()) if not k.startswith("fault_")},
            distinct_states=len(states),
            state_measure=getattr(prop, "STATE_MEASURE", "hash of (network class, operation, invocation form, position of the stream up to "
                                  "saturation, chunk size, whether the stream awaits recovery, active stream)"),
            event_log_digest=log_digest,
            real_components=getattr(prop, "REAL", ["all code of continual/ under /repo used by the property", "torch (CPU)"]),
            stubbed_components=getattr(prop, "STUBS", ["process crash: the instance is dropped and rebuilt; only bytes written by "
                                                       "torch.save survive", "durable storage: in-memory byte buffers"]),
        ),
        assumptions=getattr(prop, "ASSUMPTIONS", []) + [
            "sampling, not enumeration: a clean batch is evidence, not proof",
            "CPU, one torch thread; comparison tolerance 1e-8 (float64) and 4e-4 (float32) relative to the largest value",
        ] + [f"excluded as known finding: {k['what']}" for k in findings],
        wall_s=round(wall, 2), violations=n_bad,
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{prop.ID}.json"))
