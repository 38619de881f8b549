"""C04: previews (update_state=False) return the right thing and change nothing, also when aborted."""
from sim.stream import OpGen, StreamProp, base_case, mixed_spec


class Prop(StreamProp):
    ID = "C04"
    RUNS = {"quick": 4000, "thorough": 18000}
    PROBES = ["previews", "fault_in_peek", "fault_oom_before", "fault_kbd_after", "fault_boom"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.4, fail=True)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        ops = []
        for _ in range(rng.randint(4, 2 * g.rf + 10)):
            r = rng.random()
            if r < 0.42:
                ops.append(g.step() if rng.random() < 0.7 else g.chunk())
            elif r < 0.85:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ops.append(g.peek())
            elif r < 0.97:
                ops.append(g.fault(kinds=("peek",)))
            else:
                ops.append({"o": "clean"})
        return {**case, "ops": ops}


PROP = Prop()
