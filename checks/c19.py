"""C19: rows of a batch are independent: corrupted, replaced, permuted rows; every row against its own stream."""
import copy

import torch

from sim import specs
from sim.core import InvalidCase, derive, mismatch
from sim.nets import build, clip_exact
from sim.stream import OpGen, StreamProp, base_case, mixed_spec
from sim.world import CONTAINERS, World, make_frame, through_disk


class Prop(StreamProp):
    ID = "C19"
    RUNS = {"quick": 2400, "thorough": 20000}
    PROBES = ["fault_corrupted_row", "rows_judged", "mirror_judged", "alone_judged", "previews", "clips"]
    RULE = ("runs are drawn from the seed: a random network, a batch of 2-9 rows, a random schedule of steps, chunks, previews and clips in "
            "which random rows are corrupted (NaN, inf, huge), a mirror network fed the rows in permuted order with unrelated contents in the "
            "unhealthy rows, and one fed a single row alone; non-trivial if a healthy row's output was judged")

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.3)
        B = specs.upto(rng, 2, 5, 9)
        shape = [B, *shape[1:]]
        case = base_case(rng, spec, shape, f32=0.2)
        perm = list(range(B))
        rng.shuffle(perm)
        case.update(perm=perm, alone=rng.randrange(B), weak=sorted(rng.sample(range(B), rng.randint(0, B - 1))))
        g = OpGen(rng, spec, shape, layouts=0.15)
        ops, clips, weak = [], clip_exact(spec), case["weak"]
        p = rng.choice([0.1, 0.3, 0.6])
        for _ in range(rng.randint(4, 2 * g.rf + 10)):
            r = rng.random()
            if r < 0.78:
                op = g.feed()
            elif r < 0.86:
                op = g.peek()
            elif r < 0.94 and clips:
                op = g.clip(shape=False)
            elif r < 0.97:
                op = {"o": "clean"}
            else:
                op = g.chunk(pe=True)
            if weak and op["o"] != "clean" and rng.random() < p:
                op["rows"] = sorted(rng.sample(weak, rng.randint(1, len(weak))))
                op["ry"] = rng.choice([5, 6, 7, 1])
            ops.append(op)
        return {**case, "ops": ops}

    def shrink(self, case):
        for c in super().shrink(case):
            if c["shape"] == case["shape"]:
                yield c
        if case["perm"] != sorted(case["perm"]):
            yield {**case, "perm": sorted(case["perm"])}
        for i, op in enumerate(case["ops"]):
            if op.get("rows"):
                c = copy.deepcopy(case)
                del c["ops"][i]["rows"]
                yield c

    def execute(self, case, log):
        w = World(case, log)
        B, perm, r0 = case["shape"][0], case["perm"], case["alone"]
        nets = [w.net]
        for _ in range(2):
            n = w.legal("build", lambda: build(w.spec, ws=1))
            w.legal("load_state_dict", lambda: n.load_state_dict(through_disk(w.net.state_dict())))
            nets.append(n)
        weak = set(case["weak"])
        healthy = [r for r in range(B) if r not in weak]
        ok = set(range(B))  # rows of the first network whose stream was never corrupted
        items, flushed = [], False
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            if op["o"] == "clean" or flushed:
                flushed = False
                for n in nets:
                    w.legal("clean_state", n.clean_state)
                items, ok = [], set(range(B))
                log.ev("clean")
                if op["o"] == "clean":
                    continue
            flushed = bool(op.get("pe")) and op["o"] == "chunk" and w.spec["t"] in CONTAINERS
            tag = w.set_flags(op)
            mode = {"step": "forward_step", "chunk": "forward_steps", "clip": "forward", "peek": "forward_steps" if op.get("n") else "forward_step"}[op["o"]]
            kw = {}
            if op["o"] == "peek":
                kw["update_state"] = False
            if op.get("pe"):
                kw["pad_end"] = True
            single = mode == "forward_step"
            x = w.frame(op) if single else w.clip_of(op)
            if op["o"] == "clip" and self.expected(w, op, [(x[:, :, t], tag) for t in range(x.shape[2])], x.shape[2], list(range(B)), False) == "excluded":
                log.hit("excluded_clip_too_short")
                continue
            now = ok - set(op.get("rows") or []) if op.get("rows") and op.get("ry", 0) >= 5 else set(ok)
            if op.get("rows") and op.get("ry", 0) >= 5:
                log.hit("fault_corrupted_row", len(op["rows"]))
            # rows which are weak carry unrelated contents in the mirror
            y = x.clone()
            for r in weak:
                y[r] = make_frame(derive(op["s"], "mirror", r), list(x[r].shape), w.dtype, 0)
            y = y[perm]
            z = x[r0: r0 + 1].clone()
            outs = []
            for n, inp in zip(nets, (x, y, z)):
                w.net = n
                buf = w.layout(inp.clone(), op.get("ly", 0))
                o = w.legal(mode, lambda: w.invoke(mode, buf, op.get("via", 0), **kw))
                if isinstance(o, tuple) and w.spec["t"] == "rnn" and mode == "forward":
                    o = o[0]
                outs.append(w.empty_is_none(o))
            w.net = nets[0]
            log.ev(op["o"], outs[2], outs[1])
            log.hit("op_" + op["o"])
            log.sim_steps += op.get("n", 1)
            if op["o"] == "peek":
                log.hit("previews")
            if op["o"] == "clip":
                log.hit("clips")
            new = [(x, tag)] if single else [(x[:, :, t], tag) for t in range(x.shape[2])]
            if op["o"] in ("step", "chunk"):
                items += new
                hist, ok = items, now
            else:
                hist = items + new
            rows = sorted(now)
            exp = self.expected(w, op, hist, len(new), rows, single)
            what = f"{mode}{'(update_state=False)' if kw.get('update_state') is False else ''} output row"
            log.states.add(derive(repr((w.spec["t"], op["o"], min(len(items), w.rf + 3), tuple(rows), op.get("ry"), tuple(op.get("rows") or [])))))
            if exp == "excluded":  # the networks have flushed alike; only their agreement is judged
                pass
            else:
                for j, r in enumerate(rows):
                    self.cmp(w, outs[0], exp, r, j, f"{what} {r}", "row")
                    log.hit("rows_judged")
            for r in healthy:
                self.cmp(w, outs[1], outs[0], perm.index(r), r, f"{what} {r} among permuted and replaced other rows", "mirror")
                log.hit("mirror_judged")
                log.hit("nontrivial")
            if r0 in now:
                self.cmp(w, outs[0], outs[2], r0, 0, f"{what} {r0} against the same row alone", "alone")
                log.hit("alone_judged")
        w.op_index = -1

    @staticmethod
    def expected(w, op, hist, n, rows, single):
        if not rows:
            return None
        sub = [(v[rows], g) for v, g in hist]
        if op["o"] == "clip":
            try:
                return w.refrun(lambda: w.ref.clip(torch.stack([v for v, _ in sub[-n:]], 2), w.table[-1]))
            except InvalidCase:
                return "excluded"
        last, outs = w.expect(sub, n, bool(op.get("pe")))
        if w.starved:
            return "excluded"
        return last if single else w.stacked(outs)

    @staticmethod
    def cmp(w, got, exp, i, j, what, kind):
        if got is None or exp is None:
            if not (got is None and exp is None):
                w.fail(kind, f"{what}: available in one case only")
            return
        if not (got.shape[0] > i and exp.shape[0] > j):
            w.fail(kind, f"{what}: outputs have {got.shape[0]} and {exp.shape[0]} rows")
        m = mismatch(got[i], exp[j], 1.0, w.tolerance())
        if m:
            w.fail(kind, f"{what}: {m}")


PROP = Prop()
