"""C02: compositions stream what they define on the whole stream."""
from sim import specs
from sim.stream import OpGen, StreamProp, base_case, marathon


class Prop(StreamProp):
    ID = "C02"
    RUNS = {"quick": 4000, "thorough": 21000}
    PROBES = ["outputs", "marathons"]

    def generate(self, rng, tier, index):
        spec, shape = specs.net(rng, attn=0.1, rpe=0.3)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        total = rng.randint(4, 3 * g.rf + (40 if tier == "thorough" else 16))
        mode = rng.choice(["step", "chunk", "mixed", "mixed", "mixed"])
        ops, n = [], 0
        while n < total:
            op = g.step() if mode == "step" or (mode == "mixed" and rng.random() < 0.5) else g.chunk()
            ops.append(op)
            n += op.get("n", 1)
            if rng.random() < 0.02:
                ops.append({"o": "clean"})
        marathon(rng, tier, g, ops, 0.03)
        return {**case, "ops": ops}


PROP = Prop()
