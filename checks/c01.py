"""C01: convolution, pooling, delay and skip modules, any configuration, any chunking."""
from sim import specs
from sim.stream import OpGen, StreamProp, base_case, marathon


class Prop(StreamProp):
    ID = "C01"
    RUNS = {"quick": 8000, "thorough": 42000}
    PROBES = ["outputs", "marathons"]

    def generate(self, rng, tier, index):
        nd = specs.pick(rng, 1, 1, 2, 2, 3)
        sp = specs.spatial(rng, nd, 3, 5)
        spec = specs.leaf_temporal(rng, nd, sp)
        C = specs.in_channels(spec, rng.randint(1, 3))
        case = base_case(rng, spec, [specs.batch(rng), C, *sp])
        styles = specs.pick(rng, (0,), (0, 0, 1, 2, 3, 4)) if case["dtype"] == "f64" else (0,)
        g = OpGen(rng, spec, case["shape"], styles)
        total = rng.randint(4, (10 if tier == "thorough" else 6) * g.rf + 8)
        mode = rng.choice(["step", "chunk", "mixed", "mixed", "mixed"])
        ops, n = [], 0
        while n < total:
            op = g.step() if mode == "step" or (mode == "mixed" and rng.random() < 0.5) else g.chunk()
            ops.append(op)
            n += op.get("n", 1)
        marathon(rng, tier, g, ops, 0.05, ultra=0.0006)
        return {**case, "ops": ops}


PROP = Prop()
