"""C17: the caller's buffers and outputs are the caller's: overwritten frames, modified outputs, kept outputs."""
import copy

import torch

from sim.nets import clip_exact
from sim.stream import OpGen, StreamProp, base_case, mixed_spec
from sim.world import World


class OwnerWorld(World):
    def op_init(self, op):
        """The caller starts a recurrent stream from an initial hidden state which it keeps (all zeros: the default)."""
        n = self.net
        h = torch.zeros(n.num_layers, self.shape[0], getattr(n, "proj_size", 0) or n.hidden_size, dtype=self.dtype)
        state = (h, torch.zeros(n.num_layers, self.shape[0], n.hidden_size, dtype=self.dtype)) if self.spec["kind"] == "lstm" else h
        if op.get("tuple") and not isinstance(state, tuple):
            state = (h,)
        self.legal("set_state", lambda: n.set_state(state))
        for t in state if isinstance(state, tuple) else (state,):
            self.kept.append((t, t.clone(), self.op_index))
        self.items = []
        self.dirty = False
        self.record(op)
        self.log.hit("initial_states")


class Prop(StreamProp):
    ID = "C17"
    RUNS = {"quick": 4000, "thorough": 24000}
    PROBES = ["fault_buffer_overwritten", "fault_output_overwritten", "kept_outputs", "clips_in_flight", "previews", "functional_steps", "initial_states"]
    RULE = ("runs are drawn from the seed: a random network and a random schedule of steps, chunks, clips, previews, snapshots and explicit-state "
            "steps after each of which the caller overwrites its frames, modifies or keeps the output; non-trivial if an output was judged")

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.4)
        case = base_case(rng, spec, shape)
        profile = rng.choice(["all", "reuse", "inplace", "keep"])

        def own():
            nan = 4 if rng.random() < 0.5 else 0
            if profile == "reuse":
                return 1 | nan
            if profile == "inplace":
                return 2 | nan
            if profile == "keep":
                return 8 | (1 if rng.random() < 0.5 else 0)
            return rng.choice([0, 1, 2, 3, 8, 9]) | nan

        g = OpGen(rng, spec, shape, layouts=0.3, own=own, styles=(0, 0, 0, 2, 3))
        ops, clips, snap = [], clip_exact(spec), False
        for _ in range(rng.randint(5, 3 * g.rf + 12)):
            r = rng.random()
            if r < 0.66:
                ops.append(g.feed())
            elif r < 0.72:
                ops.append(g.peek())
            elif r < 0.78 and clips:
                ops.append(g.clip())
            elif r < 0.86:
                op = g.step()
                op.update(o="fstep", k=rng.randrange(2), shape=shape)
                op.pop("via", None)
                ops.append(op)
            elif r < 0.90:
                ops.append({"o": "kept"})
            elif r < 0.93:
                ops.append({"o": "snap", "k": 0})
                snap = True
            elif r < 0.96 and snap:
                ops.append({"o": "restore", "k": 0})
            elif r < 0.98:
                ops.append({"o": "clean"})
                if spec["t"] == "rnn":
                    ops.append({"o": "init", "tuple": rng.random() < 0.5})
            else:
                ops.append(g.step())
        if spec["t"] == "rnn" and rng.random() < 0.6:
            ops.insert(0, {"o": "init", "tuple": rng.random() < 0.5})
        ops.append({"o": "kept"})
        return {**case, "ops": ops}

    def execute(self, case, log):
        OwnerWorld(case, log).run()

    def shrink(self, case):
        yield from super().shrink(case)
        for i, op in enumerate(case["ops"]):
            own = op.get("own", 0)
            for bit in (1, 2, 4, 8):
                if own & bit:
                    c = copy.deepcopy(case)
                    c["ops"][i]["own"] = own & ~bit
                    yield c


PROP = Prop()
