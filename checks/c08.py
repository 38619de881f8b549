"""C08: end padding completes the clip; single modules continue after it as if it had not happened."""
from sim import specs
from sim.nets import flush_exact
from sim.stream import OpGen, StreamProp, base_case


class Prop(StreamProp):
    ID = "C08"
    RUNS = {"quick": 4000, "thorough": 24000}
    PROBES = ["flushes", "whole_clip_comparisons"]

    def generate(self, rng, tier, index):
        leaf = rng.random() < 0.5
        if leaf:
            nd = specs.pick(rng, 1, 1, 2, 3)
            sp = specs.spatial(rng, nd, 3, 4)
            spec = specs.leaf_temporal(rng, nd, sp, kinds=("conv", "conv", "pool", "pool", "delay", "apool"))
            shape = [rng.randint(1, 3), specs.in_channels(spec, rng.randint(1, 3)), *sp]
        else:
            spec, shape = specs.net(rng, attn=0.08, neutral=rng.random() < 0.7)
        case = base_case(rng, spec, shape)
        g = OpGen(rng, spec, shape)
        ops = []
        for life in range(rng.randint(1, 3)):
            for _ in range(rng.randint(0, g.rf + 4)):
                r = rng.random()
                if r < 0.7 or not leaf:
                    ops.append(g.feed())
                elif r < 0.9:
                    ops.append(g.chunk(pe=True))
                else:
                    op = g.peek()
                    ops.append(op)
            op = g.chunk(pe=True)
            op["whole"] = True
            ops.append(op)
            if not leaf or rng.random() < 0.4:
                ops.append({"o": "clean"})
        return {**case, "ops": ops}

    def execute(self, case, log):
        import torch

        from sim.world import World

        w = World(case, log)
        exact = flush_exact(w.spec)
        outs, pure = [], True  # outputs of the stream so far; pure: no flush before
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            before = log.c["excluded_starved_flush"]
            w.run_one(op)
            if log.c["excluded_starved_flush"] > before:
                return
            if op["o"] == "clean":
                outs, pure = [], True
                continue
            if op["o"] == "step" and w.last_out is not None:
                outs.append(w.last_out.unsqueeze(2))
            elif op["o"] == "chunk":
                last = w.last_out
                if op.get("whole") and exact and pure and not any(
                    m["t"] == "cond" for m in specs.walk(w.spec)
                ) and len(w.items) >= self.need(w.spec):
                    # everything received equals the ordinary computation on the clip
                    got = outs + ([last] if last is not None else [])
                    clip = torch.stack([x for x, _ in w.items], 2)
                    exp = w.refrun(lambda: w.ref.clip(clip, {}))
                    w.check(torch.cat(got, 2) if got else None, exp if exp.shape[2] else None,
                            f"stream of {len(w.items)} frames flushed at its end, against the whole-clip computation", "whole-clip")
                    log.hit("whole_clip_comparisons")
                if op.get("pe"):
                    pure = False
                if last is not None:
                    outs.append(last)

    @staticmethod
    def need(spec):
        from sim.nets import clip_need

        return clip_need(spec)


PROP = Prop()
