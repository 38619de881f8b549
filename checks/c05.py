"""C05: a cleaned module is indistinguishable from a fresh one."""
from sim.nets import clip_exact
from sim.stream import OpGen, StreamProp, base_case, mixed_spec


class Prop(StreamProp):
    ID = "C05"
    RUNS = {"quick": 3600, "thorough": 14000}
    PROBES = ["op_clean", "fault_in_step", "fault_in_chunk", "fault_corrupted_frame", "rewinds"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.4, fail=True)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        ops = []
        for life in range(rng.randint(2, 4)):
            for _ in range(rng.randint(0, g.rf + 6)):
                r = rng.random()
                if r < 0.55:
                    ops.append(g.feed())
                elif r < 0.65:
                    ops.append(g.peek())
                elif r < 0.72:
                    ops.append(clip_if_ok(g, spec))
                elif r < 0.80:
                    ops.append(g.fault(kinds=("step", "chunk")))
                elif r < 0.85:
                    op = g.step()
                    op["y"] = rng.choice([5, 6, 7])
                    ops.append({"o": "blind", "op": op})
                elif r < 0.9:
                    ops.append({"o": "snap", "k": 0})
                elif r < 0.95:
                    ops.append({"o": "restore", "k": 0})
                else:
                    ops.append({"o": "blind", "op": g.chunk(pe=True)})
            sh = list(g.shape)
            if rng.random() < 0.5:
                sh[0] = rng.randint(1, 3)
            g.shape = sh
            ops.append({"o": "clean", "shape": sh})
        for _ in range(g.rf + 4):
            ops.append(g.feed())
        return {**case, "ops": [o for o in ops if o is not None]}


def clip_if_ok(g, spec):
    return None if not clip_exact(spec) else g.clip()


PROP = Prop()
