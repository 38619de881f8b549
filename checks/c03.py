"""C03: whole-clip forward is plain computation and does not touch the stream in flight."""
from sim.nets import clip_exact, uncounted_padding, walk
from sim.stream import OpGen, StreamProp, base_case, mixed_spec


class Prop(StreamProp):
    ID = "C03"
    RUNS = {"quick": 3600, "thorough": 20000}
    PROBES = ["clips_in_flight", "previews"]

    def generate(self, rng, tier, index):
        while True:
            spec, shape = mixed_spec(rng, ceil=False)
            if clip_exact(spec):
                break
        if rng.random() < 0.25:
            for m in walk(spec):
                if m["t"] == "pool" and m["kind"] == "avg" and m["p"][0] and not m.get("div"):
                    m["cip"] = False
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        ops = []
        for _ in range(rng.randint(4, 2 * g.rf + 12)):
            r = rng.random()
            if r < 0.5:
                ops.append(g.feed())
            elif r < 0.9:
                ops.append(g.clip())
            elif r < 0.95:
                ops.append(g.peek())
            else:
                ops.append(g.fault(kinds=("clip",)))
        ops += [g.feed() for _ in range(3)]
        if uncounted_padding(spec):
            ops = [op if op["o"] == "clip" else g.clip() for op in ops]
        return {**case, "ops": ops}


PROP = Prop()
