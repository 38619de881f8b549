"""C07: many streams over one network, by swapping states and by explicit-state steps."""
from sim.stream import OpGen, StreamProp, base_case, mixed_spec


class Prop(StreamProp):
    ID = "C07"
    RUNS = {"quick": 4000, "thorough": 18000}
    PROBES = ["swaps", "functional_steps"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.4)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        n = rng.randint(2, 4)
        shapes = {i: [rng.randint(1, 3), *shape[1:]] for i in range(n)}
        shapes[0] = shape
        cur, ops = 0, []
        style = rng.choice(["swap", "func", "both", "both"])
        for _ in range(rng.randint(8, 3 * g.rf + 16)):
            r = rng.random()
            if r < 0.25 and style != "func":
                to = rng.randrange(n)
                if to != cur:
                    ops.append({"o": "swap", "to": to, "shape": shapes[to], **({"copy": True} if rng.random() < 0.3 else {})})
                    cur = to
            elif r < 0.65 and style != "swap":
                k = rng.randrange(2)
                op = g.step()
                op.update(o="fstep", k=k, shape=shapes[k + 1] if k + 1 in shapes else shape)
                op.pop("via", None)
                ops.append(op)
            elif r < 0.67 and style != "swap":
                ops.append({"o": "reset", "k": rng.randrange(2)})
            elif r < 0.72:
                ops.append(g.peek())
            elif r < 0.74:
                ops.append({"o": "clean"})
            else:
                ops.append(g.feed())
        return {**case, "ops": ops}


PROP = Prop()
