"""C20: gradients through any call are those of the ordinary computation on the whole history."""
import torch

from sim import nets, specs
from sim.core import Excluded, InvalidCase, mismatch
from sim.faults import INJECTED, FaultMode
from sim.nets import FLAGS, gen, walk
from sim.stream import OpGen, StreamProp, base_case, derive, mixed_spec, new_seed
from sim.world import CONTAINERS, World, is_blank


def with_graph(state):
    """A copy of a state which remains part of the computation graph."""
    if isinstance(state, torch.Tensor):
        return state.clone()
    if isinstance(state, (list, tuple)):
        return type(state)(with_graph(s) for s in state)
    return state


class GWorld(World):
    """Frames are leaves of two graphs: the library's and the reference's."""

    def __init__(self, case, log):
        self.leaves, self.outs = [], []  # (library's leaf, reference's leaf, born); (library's output, reference's output, op)
        super().__init__(case, log)
        self.fresh()

    def fresh(self):
        """The graph of an iteration of training is dropped."""
        self.leaves, self.outs = [], []

    def make_ref(self, net):
        self.params = [(n, p) for n, p in net.named_parameters()]
        return nets.reference(self.spec, net, self.table)

    def refrun(self, fn):
        try:
            return fn()
        except InvalidCase:
            raise
        except Exception as e:  # noqa: BLE001
            raise InvalidCase(f"reference cannot compute this: {type(e).__name__}: {e}") from e

    def leaf(self, x, op):
        grad = not op.get("const")  # some frames are data without gradient
        a, b = x.clone().requires_grad_(grad), x.clone().requires_grad_(grad)
        if grad:
            self.leaves.append((a, b, self.op_index))
        return a, b

    def keep(self, got, exp, what):
        self.check(got, exp, what)
        if isinstance(got, torch.Tensor) and isinstance(exp, torch.Tensor):
            self.outs.append((got, exp, self.op_index))
            self.log.hit("outputs")

    # -- operations

    def run_one(self, op):
        if self.dirty and op["o"] not in ("clean", "restore", "crash", "clip", "fstep", "grad", "update"):
            return
        getattr(self, "op_" + op["o"])(op)

    def handed(self, x, op):
        """The form in which the frames are handed over: a leaf or the result of other computations."""
        if op.get("ly") == 1:
            return (x * 2)[...] * 0.5
        if op.get("ly") == 2:
            return x.transpose(0, 1).contiguous().transpose(0, 1)
        return x

    def op_step(self, op):
        tag = self.set_flags(op)
        a, b = self.leaf(self.frame(op), op)
        new = self.items + [(b, tag)]
        exp, _ = self.expect(new, 1)
        got = self.legal("forward_step", lambda: self.invoke("forward_step", self.handed(a, op), op.get("via", 0)))
        self.items = new
        self.log.sim_steps += 1
        self.keep(got, exp, f"forward_step output (step {len(new) - 1} of the stream)")
        self.record(op, got)

    def op_chunk(self, op):
        tag = self.set_flags(op)
        a, b = self.leaf(self.clip_of(op), op)
        n, flush = op["n"], bool(op.get("pe"))
        new = self.items + [(b[:, :, i], tag) for i in range(n)]
        _, outs = self.expect(new, n, flush)
        if self.starved:
            self.leaves = [z for z in self.leaves if z[0] is not a]
            return self.exclude()
        kw = {"pad_end": True} if flush else {}
        got = self.legal("forward_steps", lambda: self.invoke("forward_steps", self.handed(a, op), op.get("via", 0), **kw))
        self.items = new
        self.log.sim_steps += n
        self.keep(self.empty_is_none(got), self.stacked(outs), f"forward_steps({n} frames, pad_end={flush}) output")
        self.record(op, got)
        if flush:
            self.log.hit("flushes")
            if self.spec["t"] in CONTAINERS:
                self.dirty = True

    def op_peek(self, op):
        tag = self.set_flags(op)
        n = op.get("n")
        x = self.clip_of(op) if n else self.frame(op)
        a, b = self.leaf(x, op)
        if n:
            _, outs = self.expect(self.items + [(b[:, :, i], tag) for i in range(n)], n, bool(op.get("pe")))
            exp = self.stacked(outs)
            if self.starved:
                self.leaves = [z for z in self.leaves if z[0] is not a]
                return self.exclude()
        else:
            exp, _ = self.expect(self.items + [(b, tag)], 1)
        kw = {"pad_end": True} if n and op.get("pe") else {}
        got = self.legal("preview", lambda: self.invoke("forward_steps" if n else "forward_step", self.handed(a, op), op.get("via", 0),
                                                        update_state=False, **kw))
        self.log.sim_steps += n or 1
        self.keep(self.empty_is_none(got), exp, "preview output")
        self.record(op, got)
        self.log.hit("previews")

    def op_clip(self, op):
        self.set_flags(op)
        a, b = self.leaf(self.clip_of(op, op.get("shape") or self.shape), op)
        try:
            exp = self.refrun(lambda: self.ref.clip(b, self.table[-1]))
        except InvalidCase:
            self.leaves = [z for z in self.leaves if z[0] is not a]
            return self.log.hit("excluded_clip_too_short")
        got = self.legal("forward", lambda: self.invoke("forward", self.handed(a, op), op.get("via", 0)))
        if isinstance(got, tuple) and self.spec["t"] == "rnn":
            got = got[0]
        self.keep(got, exp, "forward of a clip")
        self.record(op, got)
        self.log.hit("clips")

    def op_fstep(self, op):
        tag = self.set_flags(op)
        key = "F%d" % op["k"]
        state, items, shape = self.streams.get(key, (None, [], list(op.get("shape") or self.shape)))
        a, b = self.leaf(self.frame(op, shape=shape), op)
        items = items + [(b, tag)]
        exp, _ = self.expect(items, 1)
        got, nstate = self.legal("_forward_step", lambda: self.net._forward_step(self.handed(a, op), prev_state=state))
        self.log.sim_steps += 1
        self.keep(got, exp, f"explicit-state step {len(items) - 1} of stream {key}")
        self.streams[key] = (nstate, items, shape)
        self.record(op, got)
        self.log.hit("functional_steps")

    def op_snap(self, op):
        state = self.legal("get_state", self.net.get_state)
        self.snaps[op.get("k", 0)] = (with_graph(state), list(self.items), list(self.shape))
        self.record(op)

    def op_restore(self, op):
        if op.get("k", 0) not in self.snaps:
            return
        state, items, shape = self.snaps[op.get("k", 0)]
        if is_blank(state):
            self.legal("clean_state", self.net.clean_state)
        else:
            self.legal("set_state", lambda: self.net.set_state(with_graph(state)))
        self.items, self.shape, self.dirty = list(items), list(shape), False
        self.record(op)
        self.log.hit("rewinds")

    def op_fault(self, op):
        """A failing call: the outputs handed out before keep their gradients."""
        inner = op["op"]
        self.set_flags(inner)
        kind = inner["o"]
        x = self.frame(inner) if kind == "step" or kind == "peek" and not inner.get("n") else self.clip_of(inner, inner.get("shape"))
        cm = {"step": "forward_step", "chunk": "forward_steps", "clip": "forward",
              "peek": "forward_steps" if inner.get("n") else "forward_step"}[kind]
        kw = {"update_state": False} if kind == "peek" else {}
        if kind == "clip":
            try:
                self.refrun(lambda: self.ref.clip(x, self.table[-1]))
            except InvalidCase:
                return self.log.hit("excluded_clip_too_short")
        a = x.clone().requires_grad_()
        mode = FaultMode(op["n"], op["when"], op["exc"])
        try:
            with mode:
                self.legal(kind, lambda: self.invoke(cm, a, inner.get("via", 0), **kw))
        except INJECTED:
            self.log.hit("fault_" + op["exc"] + "_" + op["when"])
            self.log.hit("fault_in_" + kind)
        if kind in ("step", "chunk"):
            self.dirty = True
        self.record(op, mode.fired)

    # -- gradients

    def op_grad(self, op):
        """Differentiate a function of a random choice of all outputs handed out so far."""
        g = gen(derive("grad", op["s"]))
        pick = [(y, e) for y, e, _ in self.outs if float(torch.rand(1, generator=g)) < op.get("p", 0.7)] or [o[:2] for o in self.outs[-1:]]
        pick = [(y, e) for y, e in pick if e.requires_grad]
        ws = [torch.randn(e.shape, generator=g, dtype=e.dtype) for _, e in pick]
        if not pick:
            return
        square = op.get("sq")  # of second degree: weights of the outputs depend on their values
        loss = [sum((w * (z * z if square else z)).sum() for w, z in zip(ws, side)) for side in zip(*pick)]
        ps = [p for _, p in self.params]
        wrt = [a for a, _, _ in self.leaves] + ps
        # (outputs of frames without gradient need not have any)
        got = [None] * len(wrt) if not loss[0].requires_grad else self.legal(
            "backward", lambda: torch.autograd.grad(loss[0], wrt, retain_graph=True, allow_unused=True))
        exp = self.refrun(lambda: torch.autograd.grad(loss[1], [b for _, b, _ in self.leaves] + ps, retain_graph=True, allow_unused=True))
        names = [f"the frames of op {i}" for _, _, i in self.leaves] + [n for n, _ in self.params]
        big = max([1.0] + [float(e.abs().max()) for e in exp if e is not None and e.numel()])
        if not big < 1e6:
            raise Excluded("ill_conditioned")
        n = 0
        for name, q, e in zip(names, got, exp):
            if e is None and q is None:
                continue
            e = torch.zeros_like(q) if e is None else e
            q = torch.zeros_like(e) if q is None else q
            m = mismatch(q, e, big, 10 * self.tolerance())
            if m:
                self.fail("gradient", f"gradient of {len(pick)} outputs with respect to {name}: {m}")
            n += int(bool((e != 0).any()))
        self.record(op, *got)
        self.log.hit("gradients", n)
        self.log.hit("backward_passes")
        if n:
            self.log.hit("nontrivial")

    def op_update(self, op):
        """A step of an optimiser ends the iteration; the next one starts from a clean state."""
        with torch.no_grad():
            for i, (_, p) in enumerate(self.params):
                p.add_(torch.randn(p.shape, generator=gen(derive("upd", op["s"], i)), dtype=p.dtype) * 0.05)
        self.legal("clean_state", self.net.clean_state)
        self.items, self.dirty, self.snaps, self.streams = [], False, {}, {}
        self.fresh()
        self.ref = self.make_ref(self.net)
        self.record(op)
        self.log.hit("updates")


class Prop(StreamProp):
    ID = "C20"
    RUNS = {"quick": 3000, "thorough": 20000}
    PROBES = ["gradients", "backward_passes", "updates", "previews", "clips", "functional_steps", "rewinds", "fault_in_step", "flushes"]

    def generate(self, rng, tier, index):
        while True:
            spec, shape = mixed_spec(rng, rpe=0.3)
            # torch's own backward of max pooling writes out of bounds for dilated windows without any element of the input
            if not any(m["t"] == "pool" and m["kind"] == "max" and any(p and d > 1 for p, d in zip(m["p"], m["d"])) for m in walk(spec)):
                break
        for m in walk(spec):  # torch's own backward of batch_norm is wrong in some memory layouts with a dimension of one
            if m["t"] in ("bn", "inorm"):
                m.clear()
                m.update(t="act", name="tanh")
        case = {**base_case(rng, spec, shape, f32=0.0, inf=0.0), "grad": True}
        g = OpGen(rng, spec, shape)
        ops, snapped = [], False
        for it in range(rng.choice([1, 1, 2])):
            for _ in range(rng.randint(2, min(g.rf, 8) + 9)):
                r = rng.random()
                if r < 0.52:
                    op = g.feed()
                elif r < 0.6:
                    op = g.peek()
                elif r < 0.68:
                    op = g.clip()
                elif r < 0.74:
                    op = {**g.step(), "o": "fstep", "k": rng.randrange(2)}
                elif r < 0.78:
                    op, snapped = {"o": "snap"}, True
                elif r < 0.82 and snapped:
                    op = {"o": "restore"}
                elif r < 0.86:
                    ops.append(g.fault(("step", "chunk", "peek", "clip")))
                    op = {"o": "restore"} if snapped and rng.random() < 0.6 else {"o": "clean"}
                    if ops[-1]["op"]["o"] in ("peek", "clip") and rng.random() < 0.6:
                        op = g.feed()
                elif r < 0.94:
                    op = {"o": "grad", "s": new_seed(rng), "p": rng.random()}
                elif r < 0.97:
                    op = g.chunk(pe=True)
                else:
                    op = {"o": "clean"}
                op.pop("y", None)
                if rng.random() < 0.15:
                    op["const"] = 1
                ops.append(op)
            ops.append({"o": "grad", "s": new_seed(rng), "p": 1.0, "sq": int(rng.random() < 0.3)})
            ops.append({"o": "update", "s": new_seed(rng)})
            snapped = False
        ops.pop()
        return {**case, "ops": ops}

    def execute(self, case, log):
        nets.TRACK[0] = True
        try:
            GWorld(case, log).run()
        finally:
            nets.TRACK[0] = False

    def shrink(self, case):
        for c in super().shrink(case):
            if c.get("grad"):
                yield c


PROP = Prop()
