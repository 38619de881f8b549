"""C06: crash at any point, rebuild, load weights and last snapshot, re-feed: exact continuation."""
from sim.stream import OpGen, StreamProp, base_case, mixed_spec


class Prop(StreamProp):
    ID = "C06"
    RUNS = {"quick": 3000, "thorough": 18000}
    PROBES = ["fault_crash_restart", "rewinds", "fault_in_step", "op_snap"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.4, fail=True)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        ops, since = [], {}
        for _ in range(rng.randint(5, 2 * g.rf + 14)):
            r = rng.random()
            if r < 0.5:
                op = g.feed()
                ops.append(op)
                for k in since:
                    since[k].append(op)
            elif r < 0.56:
                ops.append(g.peek())
            elif r < 0.72:
                k = rng.randint(0, 1)
                ops.append({"o": "snap", "k": k})
                since[k] = []
            elif r < 0.92:
                # a crash: between operations or in the middle of one; then recovery and redelivery
                if rng.random() < 0.4:
                    ops.append(g.fault(kinds=("step", "chunk")))
                if since:
                    k = rng.choice(sorted(since))
                    ops.append({"o": "restore", "k": k, "crash": rng.random() < 0.65})
                    redo = list(since[k])
                    if rng.random() < 0.3:
                        redo = redo[: rng.randint(0, len(redo))]
                    ops += redo
                    since = {k: list(redo)}
                    # snapshots of the abandoned future stay on disk, but are not used again
                else:
                    ops.append({"o": "crash"})
            elif r < 0.96:
                ops.append({"o": "clean"})
                since = {}
            else:
                ops.append(g.feed())
                for k in since:
                    since[k].append(ops[-1])
        return {**case, "ops": ops + [g.feed() for _ in range(g.rf + 2)]}


PROP = Prop()
