"""C18: failures inside calls: delivered, contained, and completely recoverable."""
import copy

from sim.nets import clip_exact
from sim.stream import OpGen, StreamProp, base_case, mixed_spec, new_seed, simpler_specs
from sim.world import World


class Prop(StreamProp):
    ID = "C18"
    RUNS = {"quick": 3000, "thorough": 24000}
    PROBES = ["fault_oom_before", "fault_oom_after", "fault_kbd_before", "fault_kbd_after", "fault_io_before", "fault_boom",
              "fault_malformed_frame", "fault_in_step", "fault_in_chunk", "fault_in_peek", "fault_in_clip", "fault_in_fstep",
              "fault_crash_restart", "clips", "op_restore", "bystander_ops"]
    RULE = ("runs are drawn from the seed: a random network, a bystander network and a random history of operations in which calls fail at a "
            "random tensor operation, in a user's function or because of a malformed frame, followed by clips, work of the bystander and a "
            "recovery; non-trivial if a fault fired or an output was judged")

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.2, fail=True)
        case = base_case(rng, spec, shape)
        ospec, oshape = mixed_spec(rng)
        case["bystander"] = dict(spec=ospec, shape=oshape, ws=new_seed(rng), dtype="f64")
        g, og = OpGen(rng, spec, shape), OpGen(rng, ospec, oshape)
        ops, clips, snaps = [], clip_exact(spec), set()

        def other(n):
            for _ in range(n):
                r = rng.random()
                op = og.feed() if r < 0.6 else (og.peek() if r < 0.8 or not clip_exact(ospec) else og.clip())
                ops.append({"o": "other", "op": op})

        for _ in range(rng.randint(1, 4)):
            for _ in range(rng.randint(0, g.rf + 3)):
                r = rng.random()
                if r < 0.75:
                    ops.append(g.feed())
                elif r < 0.85:
                    ops.append({"o": "snap", "k": 0})
                    snaps.add(0)
                elif r < 0.92:
                    other(1)
                else:
                    op = {**g.step(), "o": "fstep", "k": rng.randrange(2), "shape": shape}
                    op.pop("via", None)
                    ops.append(op)
            for _ in range(rng.choice([1, 1, 2])):
                bad = g.bad() if rng.random() < 0.25 else None
                if bad and not (bad["mode"] == "clip" and not clips):
                    ops.append(bad)
                else:
                    kinds = ["step", "step", "chunk", "chunk", "peek", "fstep", "clean"] + (["clip"] * 2 if clips else [])
                    ops.append(g.fault(kinds=kinds))
                other(rng.randint(0, 2))
                if clips and rng.random() < 0.7:
                    op = g.clip()
                    op["via"] = rng.choice([0, 1, 2, 3, 3])
                    ops.append(op)
            r = rng.random()
            if r < 0.4:
                ops.append({"o": "clean"})
            elif snaps:
                ops.append({"o": "restore", "k": 0, "crash": rng.random() < 0.4})
            else:
                ops.append({"o": "crash"})
        for _ in range(g.rf + 2):
            ops.append(g.feed())
        other(2)
        return {**case, "ops": ops}

    def execute(self, case, log):
        by = World(case["bystander"], log)
        w = World(case, log)
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            if op["o"] == "other":
                by.op_index = i
                by.run_one(op["op"])
                log.hit("bystander_ops")
            else:
                w.run_one(op)

    def shrink(self, case):
        yield from super().shrink(case)
        if case["bystander"]["spec"]["t"] != "ident":
            c = copy.deepcopy(case)
            c["bystander"].update(spec=dict(t="ident"))
            c["ops"] = [o for o in c["ops"] if o["o"] != "other"]
            yield c
        for s in simpler_specs(case["bystander"]["spec"]):
            c = copy.deepcopy(case)
            c["bystander"]["spec"] = s
            yield c


PROP = Prop()
