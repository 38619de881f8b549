"""One simulated deployment: a network serving streams, driven by a recorded list of operations
and faults, every observable result being compared with the reference model's."""
import hashlib
import io
import json
import math

import torch

from .core import Excluded, InvalidCase, Violation, derive, mismatch, tol_for
from .env import library
from .faults import INJECTED, FaultMode
from .nets import FLAGS, SPREAD, Boom, RefSeq, build, gen, init_weights, ref_tree, reference, spec_timing, walk


def deep_clone(state):
    if isinstance(state, torch.Tensor):
        return state.detach().clone()
    if isinstance(state, (list, tuple)):
        return type(state)(deep_clone(s) for s in state)
    return state


def through_disk(obj):
    """Durable storage: only what torch.save writes survives."""
    b = io.BytesIO()
    torch.save(obj, b)
    return torch.load(io.BytesIO(b.getvalue()), weights_only=False)


def same_values(a, b):
    """Exact equality of two states (NaNs are equal to themselves)."""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        eq = a == b
        if a.is_floating_point():
            eq = eq | (torch.isnan(a) & torch.isnan(b))
        return bool(eq.all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_values(x, y) for x, y in zip(a, b))
    return a is None and b is None


def is_blank(state):
    """No stream in flight: nothing retrievable."""
    return state is None or (isinstance(state, (list, tuple)) and all(is_blank(s) for s in state))


def make_frame(seed, shape, dtype, style=0):
    g = gen(derive("f", seed))
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if style == 1:
        x = x * 12.0
    elif style == 2:
        x = torch.zeros_like(x)
    elif style == 3:
        x = torch.full_like(x, 0.75)
    elif style == 4:
        x = torch.round(x * 2)
    x = x.to(dtype)
    if style in (5, 6, 7):
        bad = {5: float("nan"), 6: float("inf"), 7: float("-inf")}[style]
        m = torch.rand(shape, generator=g) < 0.4
        m.reshape(-1)[int(torch.randint(0, m.numel(), (1,), generator=g))] = True
        x = x.masked_fill(m, bad)
    return x


CONTAINERS = ("seq", "br", "bpr", "res", "cond")


class Frame(torch.Tensor):
    """A user's kind of tensor, as e.g. the videos of torchvision."""

    def new_empty(self, *args, **kw):  # torch asks for this when a tensor is deep-copied
        return super().new_empty(*args, **kw).as_subclass(Frame)

    def clone(self, *args, **kw):
        return super().clone(*args, **kw).as_subclass(Frame)


class World:
    """A network, its reference, the history of the current stream, and durable storage."""

    def __init__(self, case, log):
        self.case, self.log = case, log
        self.co = library()
        self.spec = {**case["spec"], "dtype": case.get("dtype", "f64"), "train": case.get("train", False), "ws": case.get("ws", 0)}
        self.dtype = torch.float64 if self.spec["dtype"] == "f64" else torch.float32
        self.shape = list(case["shape"])
        self.tol = case.get("tol") or tol_for(self.dtype)
        self.table = []
        self.items = []
        self.snaps = {}
        self.streams = {}   # suspended streams: id -> (state, items, shape)
        self.cur = 0
        self.kept = []      # outputs handed out: (tensor, copy)
        self.dirty = False  # a failed operation left the stream undefined
        self.op_index = -1
        FLAGS.clear()
        SPREAD[0] = 0.0
        self.net = self.legal("build", self.make_net)
        self.ref = self.make_ref(self.net)
        self.hooks = []
        self.rf = spec_timing(self.spec)[0]

    inference = False

    def make_net(self, ws=None):
        return build(self.spec, ws)

    def make_ref(self, net):
        with torch.no_grad():
            return reference(self.spec, net, self.table)

    # -- calling the library -------------------------------------------------------------

    def legal(self, what, fn):
        """Run a legal operation of the library: it must not raise."""
        try:
            if self.case.get("grad"):
                return fn()
            inf = self.case.get("inf")  # from this op on, the user runs under torch.inference_mode()
            self.inference = self.inference or bool(inf) and what != "build" and self.op_index + 1 >= inf
            with torch.inference_mode() if self.inference else torch.no_grad():
                return fn()
        except (Violation, InvalidCase, Boom) + INJECTED:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("raised-build" if what == "build" else "raised",
                            f"{self.where()}{what} raised {type(e).__name__}: {e}") from e

    def where(self):
        return f"op {self.op_index}: " if self.op_index >= 0 else ""

    def fail(self, kind, msg):
        raise Violation(kind, self.where() + msg)

    def check(self, got, exp, what, kind="mismatch", scale=1.0):
        m = mismatch(got, exp, scale, self.tolerance())
        if m:
            self.fail(kind, f"{what}: {m}")

    def tolerance(self):
        """Retroactive attention adds and subtracts exponentials of its logits; with a wide range of
        logits its rounding errors are amplified accordingly."""
        if SPREAD[0] > (16 if self.dtype == torch.float64 else 5):
            raise Excluded("ill_conditioned")
        if SPREAD[0] > 4:
            return self.tol * math.exp(SPREAD[0] - (2 if self.dtype == torch.float64 else 4))
        return self.tol

    def refrun(self, fn):
        try:
            with torch.no_grad():
                return fn()
        except InvalidCase:
            raise
        except Exception as e:  # noqa: BLE001
            raise InvalidCase(f"reference cannot compute this: {type(e).__name__}: {e}") from e

    # -- frames ---------------------------------------------------------------------------

    def frame(self, op, i=0, shape=None):
        style = op.get("y", 0)
        if isinstance(style, list):
            style = style[i]
        x = make_frame(derive(op["s"], i), shape or self.shape, self.dtype, style)
        if op.get("rows") is not None and op.get("ry"):
            bad = make_frame(derive(op["s"], i, "bad"), shape or self.shape, self.dtype, op["ry"])
            for r in op["rows"]:
                if r < x.shape[0]:
                    x[r] = bad[r]
        return x

    def clip_of(self, op, shape=None):
        return torch.stack([self.frame(op, i, shape) for i in range(op["n"])], 2)

    def layout(self, x, how):
        """Hand the frame over in different memory layouts, or as another kind of tensor."""
        if how == 1:  # non-contiguous
            big = torch.empty(*x.shape[:-1], x.shape[-1] * 2, dtype=x.dtype)
            v = big[..., ::2]
            v.copy_(x)
            return v
        if how == 2 and x.dim() >= 2:
            return x.transpose(0, 1).contiguous().transpose(0, 1)
        if how == 3 and x.numel() and bool((x == x.reshape(-1)[0]).all()):  # one number seen as a whole frame
            return x.reshape(-1)[0].clone().reshape([1] * x.dim()).expand(x.shape)
        if how == 4:
            return torch.nn.Parameter(x, requires_grad=False)
        if how == 5:
            return x.as_subclass(Frame)
        return x

    @staticmethod
    def overwrite(t, value):
        with torch.inference_mode() if t.is_inference() else torch.no_grad():
            if 0 in t.stride() and t.numel() > 1:  # expanded: all elements share one number
                torch.as_strided(t.detach(), (1,), (1,), t.storage_offset()).fill_(value)
            else:
                t.detach().fill_(value)

    def set_flags(self, op):
        FLAGS.clear()
        flags = dict(op.get("f") or {})
        FLAGS.update(flags)
        self.table.append(flags)
        return len(self.table) - 1

    # -- expectations -----------------------------------------------------------------------

    def expect(self, items, n, flush=False):
        """Expected outputs of the last n inputs, in order (and of end padding)."""
        outs, extra = self.refrun(lambda: self.ref.ext(items))
        self.starved = flush and any(r.starved for r in ref_tree(self.ref) if isinstance(r, RefSeq))
        new = outs[len(items) - n:]
        res = [o[0] for o in new if o is not None] + ([o[0] for o in extra] if flush else [])
        return (new[-1][0] if n and new[-1] is not None else None), res

    def exclude(self):
        """Known finding C08-starved: a flush during which an inner layer yields nothing."""
        self.log.hit("excluded_starved_flush")

    def stacked(self, outs):
        return torch.stack(outs, 2) if outs else None

    @staticmethod
    def empty_is_none(out):
        return None if isinstance(out, torch.Tensor) and out.dim() > 2 and out.shape[2] == 0 else out

    def record(self, op, *objs):
        self.log.ev(op["o"], *objs)
        self.log.hit("op_" + op["o"])
        n = len(self.items)
        key = (json.dumps(self.spec.get("t")), self.case.get("_sig", ""), op["o"], op.get("via", 0), op.get("pe", False),
               min(n, 3 * self.rf + 3), min(op.get("n", 1), self.rf + 2), self.dirty, self.cur)
        self.log.states.add(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big") >> 1)

    # -- operations -----------------------------------------------------------------------

    def position(self):
        return len(self.items)

    def invoke(self, mode, x, via, **kw):
        """Invoke one of the three computations by name, through a context, or by call mode."""
        net, co = self.net, self.co
        if via == 1:
            with co.call_mode(mode):
                return net(x, **kw)
        if via == 2:
            old = net.call_mode
            net.call_mode = mode
            try:
                return net(x, **kw)
            finally:
                net.call_mode = old
        if via == 3 and mode == "forward":  # a plain call of a network whose mode was never touched
            return net(x, **kw)
        if mode != "forward" and self.position() % 4 == 1 and self.spec["t"] not in ("somha", "rmha", "user"):  # all options, by position
            flags = [kw["pad_end"]] if "pad_end" in kw else [False]
            return getattr(net, mode)(x, *(flags if mode == "forward_steps" else []), kw.get("update_state", True))
        return getattr(net, mode)(x, **kw)

    def op_step(self, op):
        tag = self.set_flags(op)
        x = self.frame(op)
        exp, _ = self.expect(self.items + [(x, tag)], 1)
        buf = self.layout(x.clone(), op.get("ly", 0))
        got = self.legal("forward_step", lambda: self.invoke("forward_step", buf, op.get("via", 0)))
        self.items.append((x, tag))
        self.log.sim_steps += 1
        self.check(got, exp, f"forward_step output (step {len(self.items) - 1} of the stream)")
        self.after_call(op, buf, x, got, exp)
        self.record(op, got)
        if exp is not None:
            self.log.hit("outputs")
            self.log.hit("nontrivial")

    def op_chunk(self, op):
        tag = self.set_flags(op)
        x = self.clip_of(op)
        n, flush = op["n"], bool(op.get("pe"))
        new = [(x[:, :, i].clone(), tag) for i in range(n)]
        _, outs = self.expect(self.items + new, n, flush)
        exp = self.stacked(outs)
        if self.starved:
            return self.exclude()
        buf = self.layout(x.clone(), op.get("ly", 0))
        kw = {"pad_end": True} if flush else {}
        got = self.legal("forward_steps", lambda: self.invoke("forward_steps", buf, op.get("via", 0), **kw))
        got = self.empty_is_none(got)
        self.items += new
        self.log.sim_steps += n
        self.check(got, exp, f"forward_steps({n} frames, pad_end={flush}) output after {len(self.items) - n} frames")
        self.after_call(op, buf, x, got, exp)
        self.record(op, got)
        if n > 128:
            self.log.hit("marathons")
        if flush:
            self.log.hit("flushes")
            if self.spec["t"] in CONTAINERS:
                self.dirty = True  # known finding: the layers of a container absorb the padding
        if exp is not None:
            self.log.hit("outputs", len(outs))
            self.log.hit("nontrivial")

    def op_peek(self, op):
        """A preview: same result as with update, nothing changes."""
        tag = self.set_flags(op)
        before = deep_clone(self.net.get_state())
        if op.get("n"):
            x = self.clip_of(op)
            new = [(x[:, :, i].clone(), tag) for i in range(op["n"])]
            _, outs = self.expect(self.items + new, op["n"], bool(op.get("pe")))
            exp = self.stacked(outs)
            if self.starved:
                return self.exclude()
            kw = {"pad_end": True} if op.get("pe") else {}
            buf = self.layout(x.clone(), op.get("ly", 0))
            got = self.legal("forward_steps(update_state=False)",
                             lambda: self.invoke("forward_steps", buf, op.get("via", 0), update_state=False, **kw))
            got = self.empty_is_none(got)
        else:
            x = self.frame(op)
            exp, _ = self.expect(self.items + [(x, tag)], 1)
            buf = self.layout(x.clone(), op.get("ly", 0))
            got = self.legal("forward_step(update_state=False)",
                             lambda: self.invoke("forward_step", buf, op.get("via", 0), update_state=False))
        self.log.sim_steps += op.get("n", 1)
        self.check(got, exp, f"preview output after {len(self.items)} frames")
        if not same_values(before, self.net.get_state()):
            self.fail("preview-state", f"a preview after {len(self.items)} frames changed the state")
        self.after_call(op, buf, x, got, exp)
        self.record(op, got)
        self.log.hit("previews")
        if exp is not None:
            self.log.hit("nontrivial")

    def op_clip(self, op):
        """Whole-clip evaluation next to the stream."""
        self.set_flags(op)
        shape = op.get("shape") or self.shape
        x = self.clip_of(op, shape)
        try:
            exp = self.refrun(lambda: self.ref.clip(x, self.table[-1]))
        except InvalidCase:  # the ordinary layers refuse a clip this short
            return self.log.hit("excluded_clip_too_short")
        buf = self.layout(x.clone(), op.get("ly", 0))
        got = self.legal("forward", lambda: self.invoke("forward", buf, op.get("via", 0)))
        if isinstance(got, tuple) and self.spec["t"] == "rnn":
            got = got[0]
        self.check(got, exp, f"forward of a clip with {len(self.items)} frames of a stream in flight", "clip")
        self.after_call(op, buf, x, got, exp)
        self.record(op, got)
        self.log.hit("clips")
        if self.items:
            self.log.hit("clips_in_flight")

    def op_clean(self, op):
        self.legal("clean_state", self.net.clean_state)
        self.items = []
        self.dirty = False
        if op.get("shape"):
            self.shape = list(op["shape"])
        self.record(op)

    def op_snap(self, op):
        """Write state and weights to durable storage."""
        state = self.legal("get_state", self.net.get_state)
        self.snaps[op.get("k", 0)] = (through_disk(deep_clone(state)), list(self.items), list(self.shape))
        self.record(op)

    def load_state(self, state):
        if is_blank(state):
            self.legal("clean_state", self.net.clean_state)
        else:
            self.legal("set_state", lambda: self.net.set_state(deep_clone(state)))

    def op_restore(self, op):
        """Roll back to a snapshot, in the running instance or (crash) in a rebuilt one."""
        if op.get("k", 0) not in self.snaps:
            return
        state, items, shape = self.snaps[op.get("k", 0)]
        if op.get("crash"):
            self.rebuild(op)
        self.load_state(state)
        self.items, self.shape = list(items), list(shape)
        self.dirty = False
        self.record(op)
        self.log.hit("fault_crash_restart" if op.get("crash") else "rewinds")

    def rebuild(self, op):
        """The process dies. Only durable data (weights, snapshots) survives."""
        sd = through_disk(self.save_checkpoint())
        net = self.legal("build", lambda: self.make_net(derive("other", self.spec["ws"])))
        for b in net.buffers():
            if b.is_floating_point() and b.numel():
                b.data.mul_(1.37)
        self.legal("load_state_dict", lambda: self.load_checkpoint(net, sd))
        net.train(bool(self.spec.get("train")))
        self.net = net

    def save_checkpoint(self):
        return self.net.state_dict()

    def load_checkpoint(self, net, sd):
        net.load_state_dict(sd, strict=True)

    def op_crash(self, op):
        """Crash without a snapshot: the stream starts over."""
        self.rebuild(op)
        self.items, self.dirty = [], False
        self.record(op)
        self.log.hit("fault_crash_restart")

    def op_swap(self, op):
        """Suspend the current stream, resume (or start) another."""
        if op["to"] == self.cur:
            return
        state = self.legal("get_state", self.net.get_state)
        if op.get("copy"):
            state = deep_clone(state)
        self.streams[self.cur] = (state, self.items, self.shape)
        state, self.items, self.shape = self.streams.pop(op["to"], (None, [], list(op.get("shape") or self.shape)))
        self.cur = op["to"]
        if is_blank(state):
            self.legal("clean_state", self.net.clean_state)
        else:
            self.legal("set_state", lambda: self.net.set_state(state))
        self.record(op)
        self.log.hit("swaps")

    def op_fstep(self, op):
        """A step of an independent stream with explicit state."""
        tag = self.set_flags(op)
        key = "F%d" % op["k"]
        state, items, shape = self.streams.get(key, (None, [], list(op.get("shape") or self.shape)))
        x = self.frame(op, shape=shape)
        items = items + [(x, tag)]
        exp, _ = self.expect(items, 1)
        before = deep_clone(self.net.get_state())
        buf = x.clone()
        got, nstate = self.legal("_forward_step", lambda: self.net._forward_step(buf, prev_state=state))
        self.log.sim_steps += 1
        self.check(got, exp, f"explicit-state step {len(items) - 1} of stream {key}")
        if not same_values(before, self.net.get_state()):
            self.fail("module-state", "an explicit-state step changed the state held by the module")
        self.streams[key] = (nstate, items, shape)
        self.after_call(op, buf, x, got, exp)
        self.record(op, got)
        self.log.hit("functional_steps")
        if exp is not None:
            self.log.hit("nontrivial")

    def op_reset(self, op):
        """An independent stream ends; its id starts over."""
        self.streams.pop("F%d" % op["k"], None)
        self.record(op)

    def op_train(self, op):
        self.net.train(bool(op["v"]))
        self.spec["train"] = bool(op["v"])
        self.record(op)

    def op_blind(self, op):
        """Part of the history whose outputs are not judged here; the stream is abandoned after it."""
        inner = op["op"]
        self.set_flags(inner)
        if inner["o"] == "step":
            x = self.frame(inner)
            self.legal("forward_step", lambda: self.invoke("forward_step", x, inner.get("via", 0)))
        else:
            x = self.clip_of(inner)
            kw = {"pad_end": True} if inner.get("pe") else {}
            self.legal("forward_steps", lambda: self.invoke("forward_steps", x, inner.get("via", 0), **kw))
        self.dirty = True
        self.record(op)
        self.log.hit("fault_corrupted_frame" if inner.get("y", 0) else "blind")

    # -- faults -----------------------------------------------------------------------------

    def op_fault(self, op):
        """A call in which the n-th tensor operation fails."""
        inner = op["op"]
        kind = inner["o"]
        self.set_flags(inner)
        before = deep_clone(self.net.get_state())
        if kind == "step":
            x = self.frame(inner)
            fn = lambda: self.invoke("forward_step", x, inner.get("via", 0))  # noqa: E731
        elif kind == "chunk":
            x = self.clip_of(inner)
            kw = {"pad_end": True} if inner.get("pe") else {}
            fn = lambda: self.invoke("forward_steps", x, inner.get("via", 0), **kw)  # noqa: E731
        elif kind == "peek":
            x = self.clip_of(inner) if inner.get("n") else self.frame(inner)
            cm = "forward_steps" if inner.get("n") else "forward_step"
            kw = {"pad_end": True} if inner.get("pe") and inner.get("n") else {}
            fn = lambda: self.invoke(cm, x, inner.get("via", 0), update_state=False, **kw)  # noqa: E731
        elif kind == "clip":
            x = self.clip_of(inner, inner.get("shape"))
            fn = lambda: self.invoke("forward", x, inner.get("via", 0))  # noqa: E731
        elif kind == "fstep":
            x = self.frame(inner)
            st = deep_clone(self.streams.get("F%d" % inner["k"], (None,))[0])
            fn = lambda: self.net._forward_step(x, prev_state=st)  # noqa: E731
        elif kind == "clean":
            x = torch.zeros(1)
            fn = self.net.clean_state
        else:
            raise InvalidCase(kind)
        config = self.settings()
        keep = x.clone()
        if op.get("boom"):
            FLAGS.update({op["boom"]: True, "boomexc": op.get("bexc", "runtime"), "boomed": False})
            name, caught = "boom", None
            try:
                self.legal(kind, fn)
            except Boom as e:
                caught = e
            except Violation:
                if not FLAGS.get("boomed"):
                    raise
                self.fail("masked", f"a {op.get('bexc', 'runtime')} error raised by a user's function surfaced as another error")
            fired = bool(FLAGS.get("boomed"))
            for k in (op["boom"], "boomexc", "boomed"):
                FLAGS.pop(k, None)
            if fired and caught is None:
                self.fail("swallowed", f"a {op.get('bexc', 'runtime')} error raised by a user's function inside {kind} did not reach the caller")
            if fired:
                self.log.hit("fault_boom_" + op.get("bexc", "runtime"))
        else:
            name = op["exc"] + "_" + op["when"]
            mode, caught = FaultMode(op["n"], op["when"], op["exc"]), None
            try:
                with mode:
                    self.legal(kind, fn)
            except INJECTED as e:
                caught = e
            except Violation:
                if not mode.fired:
                    raise
                self.fail("masked", f"injected {op['exc']} surfaced as another error")
            fired = mode.fired
            if fired and caught is None:
                self.fail("swallowed", f"an injected {op['exc']} inside {kind} did not reach the caller")
        self.record(op, fired)
        if not same_values(keep, x):
            self.fail("input-modified", f"failing {kind} modified the passed frames")
        if fired:
            self.log.hit("fault_" + name)
            self.log.hit("fault_in_" + kind)
            self.log.hit("nontrivial")
        else:
            self.log.hit("fault_not_reached")
        if self.settings() != config:
            self.fail("settings", f"a failed {kind} left other modes or settings behind: "
                      f"{[(a, b) for a, b in zip(config, self.settings()) if a != b][:3]}")
        if kind in ("peek", "clip", "fstep"):
            if not same_values(before, self.net.get_state()):
                self.fail("preview-state", f"a failed {kind} changed the state")
        elif fired:
            self.dirty = True
        elif kind == "clean":
            self.items = []
        else:  # the call completed: its frames are part of the stream
            tag = len(self.table) - 1
            self.items += [(x[:, :, i], tag) for i in range(x.shape[2])] if kind == "chunk" else [(x, tag)]

    def settings(self):
        """Modes and weights of every module."""
        return [(n, m.training, int(getattr(m, "call_mode", -1))) for n, m in self.net.named_modules()] + [
            (n, p.requires_grad, float(p.detach().double().sum())) for n, p in self.net.named_parameters()]

    def op_bad(self, op):
        """A malformed frame must be refused."""
        self.set_flags(op)
        config = self.settings()
        shape = list(op["bshape"])
        x = make_frame(op["s"], shape, self.dtype)
        mode = {"step": "forward_step", "chunk": "forward_steps", "clip": "forward"}[op["mode"]]
        before = deep_clone(self.net.get_state())
        try:
            with torch.no_grad():
                got = getattr(self.net, mode)(x)
        except Exception as e:  # noqa: BLE001
            self.record(op, type(e).__name__)
            self.log.hit("fault_malformed_frame")
            self.log.hit("nontrivial")
        else:
            self.fail("accepted", f"{mode} silently accepted a malformed input of shape {shape} (frames are {self.shape}): "
                                  f"returned {None if got is None else tuple(getattr(got, 'shape', ()))}")
        if self.settings() != config:
            self.fail("settings", "a refused input left other modes or settings behind")
        if mode == "forward":
            if not same_values(before, self.net.get_state()):
                self.fail("preview-state", "a refused clip changed the state")
        else:
            self.dirty = True

    # -- ownership ----------------------------------------------------------------------------

    def after_call(self, op, buf, x, got, exp):
        if not same_values(buf, x):
            self.fail("input-modified", "the passed frames were modified by the call")
        how = op.get("own", 0)
        passthrough = isinstance(got, torch.Tensor) and got.numel() and buf.numel() and \
            got.untyped_storage().data_ptr() == buf.untyped_storage().data_ptr()
        if how & 1 and not passthrough or how & 1 and how & 2:
            self.overwrite(buf, float("nan") if how & 4 else -77.0)  # the caller reuses its buffer
            self.log.hit("fault_buffer_overwritten")
        self.last_out = got.detach().clone() if isinstance(got, torch.Tensor) else got
        if isinstance(got, torch.Tensor) and not (passthrough and how & 1):
            if how & 2:
                self.overwrite(got, float("nan") if how & 4 else 55.0)  # the caller works in place on its output
                self.log.hit("fault_output_overwritten")
            elif how & 8:
                self.kept.append((got, got.detach().clone(), self.op_index))

    def op_kept(self, op):
        """Outputs handed out earlier still have their values."""
        for got, copy, i in self.kept:
            if not same_values(got.detach(), copy):
                self.fail("output-changed", f"the output returned by op {i} was changed afterwards by the library")
        self.record(op)
        self.log.hit("kept_outputs", len(self.kept))

    # -- the run ------------------------------------------------------------------------------

    def run(self, ops=None):
        for i, op in enumerate(self.case["ops"] if ops is None else ops):
            self.op_index = i
            self.run_one(op)
        self.op_index = -1

    def run_one(self, op):
        self.last_out = None
        if self.dirty and op["o"] not in ("clean", "restore", "crash", "clip", "fstep", "kept"):
            return  # the stream is undefined until it is recovered
        getattr(self, "op_" + op["o"])(op)


__all__ = ["World", "make_frame", "deep_clone", "through_disk", "same_values", "is_blank", "init_weights", "walk"]
