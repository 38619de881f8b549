"""Networks under test and their reference models.

`build(spec)` turns a JSON description into a network made of the real library's modules.
`reference(spec, net)` turns the same description into a small stateless model: every output
of a stream is defined as a function of the complete history, computed with plain torch
functions on the explicitly padded clip. The reference shares no code with the library and
holds copies of the weights.

Stream items in the reference are (value, tag) where the tag says which call the item
belongs to (conditionals look up their branch by it)."""
import math
import threading
from collections import OrderedDict

import torch
import torch.nn.functional as F
from torch import nn

from .core import InvalidCase, derive
from .env import library

CONV_F = {1: F.conv1d, 2: F.conv2d, 3: F.conv3d}


def gen(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) % (2**63))
    return g


def init_weights(module, seed, scale=0.6):
    g = gen(derive("w", seed))
    with torch.no_grad():
        for n, p in module.named_parameters():
            fan = max(1, p[0].numel() if p.dim() > 1 else 1)
            p.copy_((torch.randn(p.shape, generator=g, dtype=torch.float64) * scale / math.sqrt(fan) * 1.3).to(p.dtype))
        for n, b in module.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g, dtype=torch.float64).to(b.dtype) * 0.3)
            elif n.endswith("running_var"):
                b.copy_((torch.rand(b.shape, generator=g, dtype=torch.float64) + 0.5).to(b.dtype))


# ---------------------------------------------------------------------------------------
# function tables (module level so that they can be referenced from specs)

class Boom(BaseException):
    """A failure inside a user's function: an exception of any common type, recognisable by this base."""


BOOMS = {k: (type("Boom" + t.__name__, (Boom, t), {}), msg) for k, t, msg in [
    ("runtime", RuntimeError, "injected failure"), ("value", ValueError, "invalid value"), ("type", TypeError, "unexpected type"),
    ("key", KeyError, "missing"), ("index", IndexError, "index out of range"), ("attr", AttributeError, "no such attribute"),
    ("assert", AssertionError, "assumption violated"), ("notimpl", NotImplementedError, "not implemented"),
    ("memory", MemoryError, "out of memory"), ("oom", torch.OutOfMemoryError, "CUDA out of memory. Tried to allocate 2.00 GiB"),
    ("os", OSError, "input/output error"), ("timeout", TimeoutError, "timed out"), ("arith", ZeroDivisionError, "division by zero"),
    ("kbd", KeyboardInterrupt, "interrupted"), ("eof", EOFError, "end of file"), ("lookup", LookupError, "not found")]}


def boom(what):
    FLAGS["boomed"] = True
    exc, msg = BOOMS[FLAGS.get("boomexc", "runtime")]
    raise exc(f"{msg} (injected in {what})")




class _LocalDict(threading.local):
    """A dictionary per simulated thread."""

    def __init__(self):
        self.d = {}

    def clear(self):
        self.d.clear()

    def update(self, other):
        self.d.update(other)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def pop(self, k, default=None):
        return self.d.pop(k, default)

    def __setitem__(self, k, v):
        self.d[k] = v

    def __getitem__(self, k):
        return self.d.get(k, 0.0)


FLAGS = _LocalDict()  # flag name -> bool, set by the world before each call


def _sq(x):
    return x * x * 0.5


def _halfabs(x):
    return x.abs() * 0.5 - 0.1


def _shift(x):
    return x + 0.25


def _flat(x):
    return x.flatten(1)


FUNCS = {"flat": _flat, "sq": _sq, "halfabs": _halfabs, "shift": _shift}
ACTS = {
    "relu": lambda: nn.ReLU(),
    "sigmoid": lambda: nn.Sigmoid(),
    "tanh": lambda: nn.Tanh(),
    "gelu": lambda: nn.GELU(),
    "elu": lambda: nn.ELU(),
    "hardtanh": lambda: nn.Hardtanh(),
    "softplus": lambda: nn.Softplus(),
    "silu": lambda: nn.SiLU(),
    "leaky": lambda: nn.LeakyReLU(0.2),
    "softmax": lambda: nn.Softmax(dim=1),
    "logsoftmax": lambda: nn.LogSoftmax(dim=1),
    "softsign": lambda: nn.Softsign(),
    "dropout": lambda: nn.Dropout(0.5),
    "prelu": lambda: nn.PReLU(),
    "threshold": lambda: nn.Threshold(0.1, -0.3),
    "rrelu": lambda: nn.RReLU(),
    "relu6": lambda: nn.ReLU6(),
    "hardsigmoid": lambda: nn.Hardsigmoid(),
    "hardswish": lambda: nn.Hardswish(),
    "celu": lambda: nn.CELU(),
    "selu": lambda: nn.SELU(),
    "hardshrink": lambda: nn.Hardshrink(),
    "logsigmoid": lambda: nn.LogSigmoid(),
    "softshrink": lambda: nn.Softshrink(),
    "tanhshrink": lambda: nn.Tanhshrink(),
    "softmin": lambda: nn.Softmin(dim=1),
    "adropout": lambda: nn.AlphaDropout(0.4),
}
REDUCE = {
    "sum": lambda xs: sum(xs[1:], xs[0]),
    "mul": lambda xs: math.prod(xs[1:], start=xs[0]),
    "max": lambda xs: torch.stack(list(xs)).amax(0),
    "concat": lambda xs: torch.cat(list(xs), 1),
    "mean": lambda xs: sum(xs[1:], xs[0]) / len(xs),
}


def user_mean(inputs):
    if FLAGS.get("redboom"):
        boom("a user's reduce function")
    tot = inputs[0]
    for i in inputs[1:]:
        tot = tot + i
    return tot / len(inputs)


def predicate(name):
    if FLAGS.get("predboom"):
        boom("a user's predicate")
    return bool(FLAGS.get(name, True))


def reduce_arg(name):
    return user_mean if name == "mean" else name


# ---------------------------------------------------------------------------------------
# building the real network


def build(spec, ws=None):
    """Build the real network. `ws` overrides the weight seed (for replicas)."""
    co = library()
    net = _build(spec, co)
    if not co.CoModule.is_valid(net):
        net = co.continual(net)
    net = net.to(torch.float64 if spec.get("dtype", "f64") == "f64" else torch.float32)
    init_weights(net, spec.get("ws", 0) if ws is None else ws)
    net.train(bool(spec.get("train", False)))
    return net


def _named(mods, named):
    return (OrderedDict((f"m{i}" if i % 2 == 0 else f"sub{i}", m) for i, m in enumerate(mods)),) if named else tuple(mods)


class PlainEma(nn.Module):
    """A user's ordinary layer: exponential moving average over time."""

    def __init__(self, a):
        super().__init__()
        self.a = a

    def forward(self, x):
        ys, h = [], None
        for t in range(x.shape[2]):
            h = x[:, :, t] if h is None else h * self.a + x[:, :, t] * (1 - self.a)
            ys.append(h)
        return torch.stack(ys, 2)


USER = {}


def fan(x, n):
    return tuple(x * (1 + i / 8) for i in range(n))


def user_classes(co):
    """A user's own continual modules, derived from the library's base class."""
    if USER:
        return USER

    class Base(co.CoModule, nn.Module):
        def __init__(self):
            nn.Module.__init__(self)
            self.memory = None

        def get_state(self):
            return self.memory

        def set_state(self, state):
            self.memory = state

        def clean_state(self):
            self.memory = None

    class Ema(Base):
        _state_shape = 1
        _dynamic_state_inds = [True]

        def __init__(self, a):
            super().__init__()
            self.a = a

        def forward(self, x):
            return PlainEma.forward(self, x)

        def _forward_step(self, x, prev_state=None):
            h = x.clone() if prev_state is None else prev_state[0] * self.a + x * (1 - self.a)
            return h.clone(), (h,)

        @staticmethod
        def build_from(module):
            return Ema(module.a)

    class Diff(Base):
        """Difference to the frame n steps ago."""

        def __init__(self, n):
            super().__init__()
            self.n, self.receptive_field = n, n + 1
            self._state_shape, self._dynamic_state_inds = n, [True] * n

        def forward(self, x):
            return x[:, :, self.n:] - x[:, :, : x.shape[2] - self.n]

        def _forward_step(self, x, prev_state=None):
            past = (*(prev_state or ()), x.clone())
            if len(past) <= self.n:
                return None, past
            return x - past[0], past[1:]

    class Fan(co.CoModule, nn.Module):
        """Derives several streams from one, handed over as a tuple."""

        _state_shape = 0
        _dynamic_state_inds = []

        def __init__(self, n):
            nn.Module.__init__(self)
            self.num = n

        def forward(self, x):
            return fan(x, self.num)

        def forward_steps(self, x, pad_end=False, update_state=True):
            return fan(x, self.num)

        def forward_step(self, x, update_state=True):
            return fan(x, self.num)

        def _forward_step(self, x, prev_state=None):
            return fan(x, self.num), prev_state

    USER.update(ema=Ema, diff=Diff, fan=Fan)
    return USER


PLAIN = dict(ws=0, dtype=torch.float64, leaves=[])  # how ordinary layers are initialised, and those built


def plain_layer(s):
    """The ordinary torch.nn counterpart of a layer, initialised."""
    t, nd = s["t"], s.get("nd")
    if t == "conv":
        m = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}[nd](
            s["ci"], s["co"], tuple(s["k"]), tuple(s["s"]), tuple(s["p"]), tuple(s["d"]), s.get("g", 1), s.get("bias", True),
            s.get("pm", "zeros"))
    elif t == "pool":
        cls = getattr(nn, f"{'Avg' if s['kind'] == 'avg' else 'Max'}Pool{nd}d")
        kw = dict(stride=tuple(s["s"]), padding=tuple(s["p"]), ceil_mode=s.get("ceil", False))
        if s.get("ints"):
            kw = dict(stride=s["s"][0], padding=s["p"][0], ceil_mode=s.get("ceil", False))
        if s["kind"] == "avg":
            kw["count_include_pad"] = s.get("cip", True)
            if s.get("div") and nd > 1:
                kw["divisor_override"] = s["div"]
        else:
            kw["dilation"] = tuple(s["d"])
        m = cls(s["k"][0] if s.get("ints") else tuple(s["k"]), **kw)
    elif t == "lin":
        m = nn.Linear(s["ci"], s["co"], bias=s.get("bias", True))
    elif t == "act":
        m = ACTS[s["name"]]()
    elif t == "bn":
        m = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[nd](s["c"])
    elif t == "inorm":
        m = {1: nn.InstanceNorm1d, 2: nn.InstanceNorm2d, 3: nn.InstanceNorm3d}[nd](s["c"], affine=True, track_running_stats=True)
    elif t == "ln":
        m = nn.LayerNorm(s["shape"])
    elif t == "rnn":
        kw = dict(num_layers=s.get("layers", 1), bias=s.get("bias", True), batch_first=bool(s.get("bf", True)), dropout=s.get("do", 0))
        if s["kind"] == "rnn":
            kw["nonlinearity"] = s.get("nonlin", "tanh")
        if s["kind"] == "lstm" and s.get("proj"):
            kw["proj_size"] = s["proj"]
        m = {"rnn": nn.RNN, "gru": nn.GRU, "lstm": nn.LSTM}[s["kind"]](s["ci"], s["h"], **kw)
    elif t in ("somha", "rmha"):
        m = nn.MultiheadAttention(s["e"], s["h"], dropout=s.get("do", 0), bias=s.get("bias", True), batch_first=True)
    elif t == "tenc":
        act = {"relu": F.relu, "gelu": F.gelu, "relu_s": "relu", "gelu_s": "gelu"}[s.get("act", "relu")]
        m = nn.TransformerEncoder(
            nn.TransformerEncoderLayer(s["e"], s["h"], s["ff"], s.get("do", 0.1), act, layer_norm_eps=s.get("eps", 1e-5), batch_first=True),
            s["n"], norm=nn.LayerNorm(s["e"], eps=s.get("eps", 1e-5) / 2) if s.get("norm") else None)
    elif t == "apool":
        m = getattr(nn, f"Adaptive{'Avg' if s['kind'] == 'avg' else 'Max'}Pool{nd}d")(1 if s.get("ints") else (1, *s["out"]))
    elif t == "user":
        m = PlainEma(s["a"])
    else:
        raise InvalidCase(f"no ordinary layer for {t}")
    m = m.to(PLAIN["dtype"]).eval()
    init_weights(m, derive(PLAIN["ws"], len(PLAIN["leaves"])))
    PLAIN["leaves"].append((s, m))
    return m


def _build(s, co):  # noqa: C901
    t = s["t"]
    if s.get("plain"):
        if t != "seq":
            return plain_layer(s)
        mods, seen = [], {}
        for m in s["m"]:
            q = seen.get(m.get("dup")) or _build(m, co)
            if m.get("dup"):
                seen[m["dup"]] = q  # the same layer at several places
            mods.append(q)
        return nn.Sequential(*_named(mods, s.get("named")))
    if t == "conv":
        cls = {1: co.Conv1d, 2: co.Conv2d, 3: co.Conv3d}[s["nd"]]
        return cls(
            s["ci"], s["co"], tuple(s["k"]), stride=tuple(s["s"]), padding=tuple(s["p"]), dilation=tuple(s["d"]),
            groups=s.get("g", 1), bias=s.get("bias", True), padding_mode=s.get("pm", "zeros"),
            **({"temporal_fill": s["tf"]} if s.get("tf") else {}),
        )
    if t == "pool":
        nd = s["nd"]
        cls = getattr(co, f"{'Avg' if s['kind'] == 'avg' else 'Max'}Pool{nd}d")
        kw = dict(stride=tuple(s["s"]), padding=tuple(s["p"]), dilation=tuple(s["d"]), ceil_mode=s.get("ceil", False),
                  **({"temporal_fill": s["tf"]} if s.get("tf") else {}))
        if s["kind"] == "avg":
            kw["count_include_pad"] = s.get("cip", True)
            if s.get("div") and nd > 1:
                kw["divisor_override"] = s["div"]
        if s.get("defstride"):
            kw.pop("stride")
        return cls(tuple(s["k"]), **kw)
    if t == "apool":
        cls = getattr(co, f"Adaptive{'Avg' if s['kind'] == 'avg' else 'Max'}Pool{s['nd']}d")
        kw = dict(stride=s["s"], padding=s["p"], dilation=s["d"]) if "s" in s else {}
        if s.get("tf"):
            kw["temporal_fill"] = s["tf"]
        return cls(1 if s.get("ints") else (1, *s["out"]), s["k"], **kw)
    if t == "delay":
        return co.Delay(s["n"], temporal_fill=s.get("tf", "zeros"), auto_shrink=s.get("shrink", False))
    if t == "skip":
        return co.Skip(s["n"])
    if t == "lin":
        return co.Linear(s["ci"], s["co"], bias=s.get("bias", True), channel_dim=s.get("cd", 1))
    if t == "act":
        m = ACTS[s["name"]]()
        return co.forward_stepping(m) if s.get("wrap") == "fs" else (co.continual(m) if s.get("wrap") == "co" else m)
    if t == "bn":
        return {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}[s["nd"]](s["c"])
    if t == "ln":
        return nn.LayerNorm(s["shape"])
    if t == "lam":
        return co.Lambda(FUNCS[s["fn"]], takes_time=s.get("time", False))
    if t == "lam3":
        f = FUNCS[s["fn"]]
        return co.Lambda(
            forward_only_fn=lambda x: f(x), forward_step_only_fn=lambda x: f(x), forward_steps_only_fn=lambda x: f(x)
        )
    if t == "pyfn":
        return FUNCS[s["fn"]]
    if t == "user":
        return user_classes(co)[s["kind"]](s["a"] if s["kind"] == "ema" else s["n"])
    if t == "add":
        return co.Add(s["v"])
    if t == "mulc":
        return co.Multiply(s["v"])
    if t == "ident":
        return co.Identity()
    if t == "const":
        return {"c": lambda: co.Constant(s.get("v", 2.0)), "0": co.Zero, "1": co.One}[s["which"]]()
    if t == "reshape":
        return co.Reshape(-1, *s["shape"], contiguous=bool(s.get("contig")))
    if t == "seq":
        mods = [_build(m, co) for m in s["m"]]
        if s.get("nn"):
            return co.continual(nn.Sequential(*_named(mods, s.get("named"))))
        net = co.Sequential(*_named(mods[: len(mods) - s.get("append", 0)], s.get("named")))
        for m in mods[len(mods) - s.get("append", 0):]:
            net = net.append(m)  # returns the container, as torch.nn.Sequential's does
        return net
    if t == "br":
        mods = [_build(m, co) for m in s["m"]]
        return co.BroadcastReduce(*_named(mods, s.get("named")), reduce=reduce_arg(s["red"]))
    if t == "bpr":
        mods = [_build(m, co) for m in s["m"]]
        head = user_classes(co)["fan"](len(mods)) if s.get("fan") else co.Broadcast(None if s.get("infer", True) else len(mods))
        parts = [head, co.Parallel(*_named(mods, s.get("named")))]
        if s.get("disp") is not None:
            parts.append(co.ParallelDispatch(s["disp"]))
            parts.append(co.Parallel(*[_build(m, co) for m in s["post"]]))
        parts.append(co.Reduce(reduce_arg(s["red"])))
        return co.Sequential(*parts)
    if t == "reduce":
        return co.Reduce(reduce_arg(s["red"]))
    if t == "res":
        kw = {}
        if s.get("tf"):
            kw["temporal_fill"] = s["tf"]
        return co.Residual(_build(s["m"], co), reduce=reduce_arg(s.get("red", "sum")), residual_shrink=s.get("shrink", False), **kw)
    if t == "cond":
        name = s["flag"]
        return co.Conditional(
            lambda mod, x, name=name: predicate(name), _build(s["a"], co),
            None if s.get("b") is None else _build(s["b"], co),
        )
    if t == "rnn":
        cls = {"rnn": co.RNN, "gru": co.GRU, "lstm": co.LSTM}[s["kind"]]
        kw = dict(num_layers=s.get("layers", 1), bias=s.get("bias", True))
        if s["kind"] == "rnn":
            kw["nonlinearity"] = s.get("nonlin", "tanh")
        if s["kind"] == "lstm" and s.get("proj"):
            kw["proj_size"] = s["proj"]
        return cls(s["ci"], s["h"], **kw)
    if t == "somha":
        return co.SingleOutputMultiheadAttention(
            s["e"], s["h"], bias=s.get("bias", True), batch_first=True, sequence_len=s["L"], query_index=s.get("q", -1),
            forward_returns_attn_mask=False, embed_dim_second=True, single_output_forward=s.get("sof", True),
        )
    if t == "rmha":
        return co.RetroactiveMultiheadAttention(
            s["e"], s["h"], bias=s.get("bias", True), batch_first=True, sequence_len=s["L"],
            forward_returns_attn_mask=False, embed_dim_second=True,
        )
    if t == "tenc":
        return co.TransformerEncoder(
            co.TransformerEncoderLayerFactory(
                d_model=s["e"], nhead=s["h"], dim_feedforward=s["ff"], dropout=0.0 if s.get("train") else 0.1,
                activation={"relu": F.relu, "gelu": F.gelu, "relu_s": "relu", "gelu_s": "gelu"}[s.get("act", "relu")],
                sequence_len=s["L"], layer_norm_eps=s.get("eps", 1e-5),
            ),
            num_layers=s["n"], norm=nn.LayerNorm(s["e"], eps=s.get("eps", 1e-5) / 2) if s.get("norm") else None,
        )
    if t == "rpe":
        return co.RecyclingPositionalEncoding(s["e"], s["n"], learned=s.get("learned", True),
                                              forward_update_index_steps=s.get("fu", 1))
    if t == "fail":
        return FailPoint(s.get("flag", "boom"))
    raise InvalidCase(t)


def FailPoint(flag):
    """A wrapped user function which raises when the simulator tells it to."""
    co = library()

    def fn(x):
        if FLAGS.get(flag):
            boom("a user's function")
        return x * 1.0

    return co.Lambda(fn, takes_time=True)


# ---------------------------------------------------------------------------------------
# reference models


def stack(items):
    return torch.stack([v for v, _ in items], 2)


class Ref:
    """ext(items) -> (outs, extra): outs[t] is the (value, tag) emitted at input t or None,
    extra are the outputs which end padding adds."""

    def run(self, items):
        return self.ext(items)[0]

    def children(self):
        return []


class RefWindow(Ref):
    def __init__(self, rf, p, s, fill, fn):
        self.rf, self.p, self.s, self.fill, self.fn = rf, p, s, fill, fn

    def pad(self, frame):
        if self.fill == "zeros":
            return torch.zeros_like(frame)
        if self.fill == "neg_inf":
            return torch.full_like(frame, float("-inf"))
        return frame

    def ext(self, items):
        T = len(items)
        if T == 0:
            return [], []
        fr = [v for v, _ in items]
        first = self.rf - 1 - self.p
        if T + self.p <= first:
            return [None] * T, []
        y = self.fn(torch.stack([self.pad(fr[0])] * self.p + fr + [self.pad(fr[-1])] * self.p, 2))
        outs, extra = [None] * T, []
        for j in range(0, y.shape[2], self.s):
            t = j + first
            if t < T:
                outs[t] = (y[:, :, j], items[t][1])
            else:
                extra.append((y[:, :, j], items[-1][1]))
        return outs, extra


class RefFrame(Ref):
    """Stateless per-frame function; `clip` is how the plain layer treats a clip."""

    def __init__(self, fn, clip=None):
        self.fn, self.clip_fn = fn, clip

    def ext(self, items):
        return [(self.fn(v), g) for v, g in items], []

    def clip(self, x, flags):
        return torch.stack([self.fn(x[:, :, t]) for t in range(x.shape[2])], 2) if self.clip_fn is None else self.clip_fn(x)


class RefDelay(Ref):
    def __init__(self, n, shrink):
        self.n, self.shrink = n, shrink

    def ext(self, items):
        T, n = len(items), self.n
        first = 2 * n if self.shrink in (True, "centered") else n
        outs = [(items[t - n][0], items[t][1]) if t >= first else None for t in range(T)]
        extra = [] if self.shrink or T == 0 else [(items[t][0], items[-1][1]) for t in range(max(0, T - n), T)]
        return outs, extra

    def clip(self, x, flags):
        if not self.shrink or self.n == 0:
            return x
        return x[:, :, : -self.n] if self.shrink == "lagging" else x[:, :, self.n: -self.n]


class RefSkip(Ref):
    def __init__(self, n):
        self.n = n

    def ext(self, items):
        return [None if t < self.n else items[t] for t in range(len(items))], []

    def clip(self, x, flags):
        return x[:, :, self.n:]


def ref_tree(r):
    yield r
    for m in getattr(r, "mods", None) or [q for q in (getattr(r, "a", None), getattr(r, "b", None)) if isinstance(q, Ref)]:
        yield from ref_tree(m)


class RefSeq(Ref):
    starved = False

    def __init__(self, mods):
        self.mods = mods

    def ext(self, items):
        T = len(items)
        pos, cur = list(range(T)), items  # pos: input position of each current item (T: extra)
        self.starved = False
        for i, m in enumerate(self.mods):
            if i and T and not any(g == items[-1][1] for _, g in cur):
                self.starved = True  # the last call does not reach this layer
            outs, extra = m.ext(cur)
            npos = [p for p, o in zip(pos, outs) if o is not None] + [T] * len(extra)
            cur = [o for o in outs if o is not None] + extra
            pos = npos
        outs, ex = [None] * T, []
        for p, o in zip(pos, cur):
            if p < T:
                outs[p] = o
            else:
                ex.append(o)
        return outs, ex

    def clip(self, x, flags):
        for m in self.mods:
            if isinstance(x, torch.Tensor) and x.dim() > 2 and x.shape[2] == 0:
                raise InvalidCase("no frame is left for a layer")
            x = m.clip(x, flags)
        return x


def merge(T, seqs, combine):
    """Combine the j-th outputs of all branches; available when the slowest is."""
    lists = []
    for outs, extra in seqs:
        lists.append([(t, o) for t, o in enumerate(outs) if o is not None] + [(T, o) for o in extra])
    outs, ex = [None] * T, []
    for tup in zip(*lists):
        p = max(q for q, _ in tup)
        tag = max((o[1] for _, o in tup), key=lambda z: z if isinstance(z, int) else -1)
        val = (combine([o[0] for _, o in tup]), tag)
        if p < T:
            outs[p] = val
        else:
            ex.append(val)
    return outs, ex


class RefBR(Ref):
    def __init__(self, mods, red, offset=0):
        self.mods, self.red = mods, red

    def ext(self, items):
        return merge(len(items), [m.ext(items) for m in self.mods], REDUCE[self.red])

    def clip(self, x, flags):
        return REDUCE[self.red]([m.clip(x, flags) for m in self.mods])


class RefSlice(Ref):
    """Identity branch of a residual: drop the first `a` (and on clips the last `b`) frames."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def ext(self, items):
        return [None if t < self.a else items[t] for t in range(len(items))], []

    def clip(self, x, flags):
        return x[:, :, self.a: x.shape[2] - self.b]


class RefPar(Ref):
    """Items are lists of values, one per stream."""

    def __init__(self, mods):
        self.mods = mods

    def ext(self, items):
        seqs = [m.ext([(v[i], g) for v, g in items]) for i, m in enumerate(self.mods)]
        return merge(len(items), seqs, list)

    def clip(self, xs, flags):
        return [m.clip(xs[i], flags) for i, m in enumerate(self.mods)]


class RefMap(Ref):
    def __init__(self, fn):
        self.fn = fn

    def ext(self, items):
        return [(self.fn(v), g) for v, g in items], []

    def clip(self, x, flags):
        return self.fn(x)


class RefCond(Ref):
    def __init__(self, flag, a, b, table):
        self.flag, self.a, self.b, self.table = flag, a, b, table

    def on(self, tag):
        return bool(self.table[tag].get(self.flag, True))

    def ext(self, items):
        T = len(items)
        outs, extra = [None] * T, []
        for want, m in ((True, self.a), (False, self.b)):
            idx = [t for t in range(T) if self.on(items[t][1]) == want]
            if m is None:
                for t in idx:
                    outs[t] = items[t]
                continue
            sub, ex = m.ext([items[t] for t in idx])
            for t, o in zip(idx, sub):
                outs[t] = o
            if T and self.on(items[-1][1]) == want:
                extra = ex
        return outs, extra

    def clip(self, x, flags):
        m = self.a if bool(flags.get(self.flag, True)) else self.b
        return x if m is None else m.clip(x, flags)


class RefWindowed(Ref):
    """Outputs fn(window) for every complete window of L frames."""

    def __init__(self, L, fn, clip):
        self.L, self.fn, self.clip_fn = L, fn, clip

    def ext(self, items):
        T = len(items)
        if T < self.L:
            return [None] * T, []
        x = stack(items)  # B E T
        w = x.unfold(2, self.L, 1).permute(2, 0, 3, 1)  # nW B L E
        n, B = w.shape[:2]
        y = self.fn(w.reshape(n * B, *w.shape[2:]))
        y = y.reshape(n, B, *y.shape[1:])
        return [None] * (self.L - 1) + [(y[i], items[i + self.L - 1][1]) for i in range(n)], []

    def clip(self, x, flags):
        return self.clip_fn(x)


class RefRnn(Ref):
    def __init__(self, m):
        self.m = m

    def ext(self, items):
        if not items:
            return [], []
        y = self.m(torch.stack([v for v, _ in items], 1))[0]
        return [(y[:, t], items[t][1]) for t in range(len(items))], []

    def state(self, items, h0=None):
        return self.m(torch.stack([v for v, _ in items], 1), h0)[1]

    def clip(self, x, flags):
        return self.m(x.transpose(1, 2))[0].transpose(1, 2)


class RefEma(Ref):
    def __init__(self, a):
        self.a = a

    def ext(self, items):
        outs, h = [], None
        for v, g in items:
            h = v if h is None else h * self.a + v * (1 - self.a)
            outs.append((h, g))
        return outs, []

    def clip(self, x, flags):
        return torch.stack([v for v, _ in self.ext([(x[:, :, t], None) for t in range(x.shape[2])])[0]], 2)


class RefRpe(Ref):
    def __init__(self, table):
        self.table = table

    def ext(self, items):
        return [(v + self.table[t % len(self.table)], g) for t, (v, g) in enumerate(items)], []

    def clip(self, x, flags):
        raise InvalidCase("positional encodings are not part of clip comparisons")


SPREAD = _LocalDict()  # largest range of attention logits in any retroactive attention of the run


def attend(w, wi, bi, wo, bo, h, k=None, v=None, track=False):
    """Plain softmax attention over w: (B, L, E), all query positions."""
    k = w if k is None else k
    v = w if v is None else v
    B, L, E = w.shape
    Wq, Wk, Wv = wi.split(E) if isinstance(wi, torch.Tensor) else wi
    bq, bk, bv = (None, None, None) if bi is None else bi.split(E)
    q, k, v = F.linear(w, Wq, bq), F.linear(k, Wk, bk), F.linear(v, Wv, bv)
    q, k, v = [z.reshape(B, L, h, E // h).transpose(1, 2) for z in (q, k, v)]
    z = q @ k.transpose(-1, -2) / math.sqrt(E // h)
    if track and z.numel():
        fin = z[torch.isfinite(z)]
        if fin.numel():
            # retroactive attention keeps running sums of exponentials: their rounding errors grow with this range
            SPREAD[0] = max(SPREAD[0], float(max(fin.max(), 0.0) - min(fin.min(), 0.0)))
    a = torch.softmax(z, -1) @ v
    return F.linear(a.transpose(1, 2).reshape(B, L, E), wo, bo)


def default_fill(s):
    """What the documentation says padding in time consists of."""
    return "neg_inf" if s["t"] == "pool" and s["kind"] == "max" else "zeros"


TRACK = [False]  # the reference is part of the graph of the network's parameters (C20)


def copy_of(t):
    if t is None:
        return None
    return t.clone() if TRACK[0] else t.detach().clone()


def pool_frames(x, s, nd):
    """Spatial pooling of every frame of x (B, C, T, *) with plain torch functions."""
    if nd == 1:
        return x
    B, C, T = x.shape[:3]
    fr = x.transpose(1, 2).reshape(B * T, C, *x.shape[3:])
    k, st, p = s["k"][1:], s["s"][1:], s["p"][1:]
    if s["kind"] == "max":
        y = {2: F.max_pool1d, 3: F.max_pool2d}[nd](fr, k, st, p, s["d"][1:], s.get("ceil", False))
    else:
        y = {2: F.avg_pool1d, 3: F.avg_pool2d}[nd](fr, k, st, p, s.get("ceil", False), s.get("cip", True))
    return y.reshape(B, T, C, *y.shape[2:]).transpose(1, 2)


def pool_clip(x, s, pad_t, stride_t, ceil=None):
    """The ordinary n-d pooling layer on a clip (temporal dilation must be 1 for average pooling)."""
    nd, ceil = s["nd"], s.get("ceil", False) if ceil is None else ceil
    k, st, p = s["k"], [stride_t, *s["s"][1:]], [pad_t, *s["p"][1:]]
    if s["kind"] == "max":
        return {1: F.max_pool1d, 2: F.max_pool2d, 3: F.max_pool3d}[nd](x, k, st, p, s["d"], ceil)
    if s.get("div") and nd > 1:
        f = {2: F.avg_pool2d, 3: F.avg_pool3d}[nd]
        return f(x, k, st, p, ceil, s.get("cip", True), s["div"])
    return {1: F.avg_pool1d, 2: F.avg_pool2d, 3: F.avg_pool3d}[nd](x, k, st, p, ceil, s.get("cip", True))


def reference(s, net, table):  # noqa: C901
    """Build the reference for spec `s`, copying weights out of the real module `net`.
    `table` is the list of per-call flag settings, indexed by tags."""
    t = s["t"]
    if t == "conv":
        nd, w, b = s["nd"], copy_of(net.weight), copy_of(net.bias)
        k, st, p, d, g = s["k"], s["s"], s["p"], s["d"], s.get("g", 1)
        pm = s.get("pm", "zeros")

        def spatial(x, pt):
            """pad all but time (time only if pt > 0)"""
            if pm == "zeros":
                return x, [pt, *p[1:]]
            pads = []
            for q in reversed([pt, *p[1:]]):
                pads += [q, q]
            return (F.pad(x, pads, mode=pm) if any(pads) else x), [0] * nd

        def fn(x):
            x, pp = spatial(x, 0)
            return CONV_F[nd](x, w, b, [1, *st[1:]], pp, d, g)

        def clip(x, flags):
            x, pp = spatial(x, p[0])
            return CONV_F[nd](x, w, b, st, pp, d, g)

        r = RefWindow(k[0], p[0], st[0], s.get("tf") or "zeros", fn)
        r.clip = clip
        return r
    if t == "pool":
        nd, k, dt = s["nd"], s["k"][0], s["d"][0]
        rf = dt * (k - 1) + 1

        def fn(x):
            if dt == 1:
                return pool_clip(x, s, 0, 1)
            y = pool_frames(x, s, nd)
            n = y.shape[2] - rf + 1
            sel = torch.stack([y[:, :, i * dt: i * dt + n] for i in range(k)])
            return sel.mean(0) if s["kind"] == "avg" else sel.amax(0)

        r = RefWindow(rf, s["p"][0], s["s"][0], s.get("tf") or default_fill(s), fn)
        r.clip = lambda x, flags: pool_clip(x, s, s["p"][0], s["s"][0])
        return r
    if t == "apool":
        nd, dt = s["nd"], s.get("d", 1)
        rf = dt * (s["k"] - 1) + 1

        def frames(x):
            if nd == 1:
                return x
            B, C, T = x.shape[:3]
            fr = x.transpose(1, 2).reshape(B * T, C, *x.shape[3:])
            f = {("avg", 2): F.adaptive_avg_pool1d, ("avg", 3): F.adaptive_avg_pool2d,
                 ("max", 2): F.adaptive_max_pool1d, ("max", 3): F.adaptive_max_pool2d}[(s["kind"], nd)]
            out = [w if o is None else o for o, w in zip(s["out"], x.shape[3:])]
            y = f(fr, out[0] if nd == 2 else tuple(out))
            return y.reshape(B, T, C, *y.shape[2:]).transpose(1, 2)

        def fn(x):
            y = frames(x).unfold(2, rf, 1)[..., ::dt]
            return y.mean(-1) if s["kind"] == "avg" else y.amax(-1)

        def clip(x, flags):
            f = {("avg", 2): F.adaptive_avg_pool2d, ("avg", 3): F.adaptive_avg_pool3d,
                 ("max", 2): F.adaptive_max_pool2d, ("max", 3): F.adaptive_max_pool3d}[(s["kind"], nd)]
            return f(x, (1, *[w if o is None else o for o, w in zip(s["out"], x.shape[3:])]))

        r = RefWindow(rf, s.get("p", 0), s.get("s", 1), s.get("tf") or "zeros", fn)
        r.clip = clip
        return r
    if t == "delay":
        return RefDelay(s["n"], s.get("shrink", False))
    if t == "skip":
        return RefSkip(s["n"])
    if t == "lin":
        w, b, cd = copy_of(net.weight), copy_of(net.bias), s.get("cd", 1)

        def fn(x):
            return F.linear(x, w, b) if cd == -1 else F.linear(x.movedim(1, -1), w, b).movedim(-1, 1)

        return RefFrame(fn, fn)
    if t == "act":
        if s["name"] in ("dropout", "adropout"):
            return RefFrame(lambda x: x, lambda x: x)
        if s["name"] == "prelu":
            w = copy_of(net.weight)
            return RefFrame(lambda x: F.prelu(x, w), lambda x: F.prelu(x, w))
        if s["name"] == "rrelu":  # evaluation mode: the mean slope
            f = lambda x: F.leaky_relu(x, (1 / 8 + 1 / 3) / 2)  # noqa: E731
            return RefFrame(f, f)
        f = ACTS[s["name"]]()
        return RefFrame(f, f)
    if t in ("bn", "inorm"):
        rm, rv, w, b = [copy_of(z) for z in (net.running_mean, net.running_var, net.weight, net.bias)]
        f = lambda x: F.batch_norm(x, rm, rv, w, b, False)  # noqa: E731
        return RefFrame(f, f)
    if t == "ln":
        w, b = copy_of(net.weight), copy_of(net.bias)
        f = lambda x: F.layer_norm(x, s["shape"], w, b)  # noqa: E731
        return RefFrame(f, f)
    if t in ("lam", "lam3", "pyfn"):
        return RefFrame(FUNCS[s["fn"]], None if s["fn"] == "flat" else FUNCS[s["fn"]])
    if t == "user":
        if s["kind"] == "ema":
            return RefEma(s["a"])
        r = RefWindow(s["n"] + 1, 0, 1, "zeros", lambda x: x[:, :, s["n"]:] - x[:, :, : -s["n"]])
        r.clip = lambda x, flags: r.fn(x)
        return r
    if t == "add":
        f = lambda x: x + s["v"]  # noqa: E731
        return RefFrame(f, f)
    if t == "mulc":
        f = lambda x: x * s["v"]  # noqa: E731
        return RefFrame(f, f)
    if t in ("ident",):
        return RefFrame(lambda x: x, lambda x: x)
    if t == "const":
        v = {"c": s.get("v", 2.0), "0": 0.0, "1": 1.0}[s["which"]]
        f = lambda x: torch.full_like(x, v)  # noqa: E731
        return RefFrame(f, f)
    if t == "reshape":
        return RefFrame(lambda x: x.reshape(-1, *s["shape"]), lambda x: x.movedim(2, 1).reshape(*x.shape[:1], x.shape[2], *s["shape"]).movedim(1, 2))
    if t == "fail":
        return RefFrame(lambda x: x, lambda x: x)
    if t == "seq":
        return RefSeq([reference(m, c, table) for m, c in zip(s["m"], inner(net))])
    if t == "br":
        return RefBR([reference(m, undelayed(c, m), table) for m, c in zip(s["m"], inner(net))], s["red"])
    if t == "bpr":
        parts = inner(net)
        n = len(s["m"])
        mods = [RefMap((lambda x: list(fan(x, n))) if s.get("fan") else (lambda x: [x] * n)), RefPar([reference(m, undelayed(c, m), table) for m, c in zip(s["m"], inner(parts[1]))])]
        if s.get("disp") is not None:
            def disp(xs, mp=s["disp"]):
                return [disp(xs, q) if isinstance(q, (list, tuple)) else xs[q] for q in mp]

            mods.append(RefMap(disp))
            mods.append(RefPar([reference(m, undelayed(c, m), table) for m, c in zip(s["post"], inner(parts[3]))]))
        mods.append(RefMap(REDUCE[s["red"]]))
        return RefSeq(mods)
    if t == "reduce":
        return RefMap(REDUCE[s["red"]])
    if t == "res":
        m = reference(s["m"], inner(net)[1], table)
        r = spec_reduction(s["m"])
        sh = s.get("shrink", False)
        if not r:
            res = RefSlice(0, 0)
        else:
            res = {False: RefSlice(0, 0), True: RefSlice(r // 2, r // 2), "centered": RefSlice(r // 2, r // 2),
                   "lagging": RefSlice(0, r), "leading": RefSlice(r, 0)}[sh]
        return RefBR([res, m], s.get("red", "sum"))
    if t == "cond":
        ch = inner(net)
        dl = [r - 1 - p for r, _, p in (spec_timing(b) for b in (s["a"], s.get("b")) if b is not None)] + [0]

        def aligned(i, b):
            r = reference(b, undelayed(ch[i], b), table)
            return r if max(dl) == dl[i] else RefSeq([RefDelay(max(dl) - dl[i], False), r])

        return RefCond(s["flag"], aligned(0, s["a"]), None if s.get("b") is None else aligned(1, s["b"]), table)
    if t == "rnn":
        kw = dict(num_layers=s.get("layers", 1), bias=s.get("bias", True), batch_first=True)
        if s["kind"] == "rnn":
            kw["nonlinearity"] = s.get("nonlin", "tanh")
        if s["kind"] == "lstm" and s.get("proj"):
            kw["proj_size"] = s["proj"]
        m = {"rnn": nn.RNN, "gru": nn.GRU, "lstm": nn.LSTM}[s["kind"]](s["ci"], s["h"], **kw)
        m = m.to(next(net.parameters()).dtype)
        sd = dict(net.named_parameters())
        with torch.no_grad():
            for n, p in m.named_parameters():
                p.copy_(sd[n])
        return RefRnn(functional(m.eval(), sd) if TRACK[0] else m.eval())
    if t in ("somha", "rmha"):
        wi, bi = copy_of(net.in_proj_weight), copy_of(net.in_proj_bias)
        wo, bo = copy_of(net.out_proj.weight), copy_of(net.out_proj.bias)
        h, q = s["h"], s.get("q", -1)
        if t == "rmha":
            return RefWindowed(s["L"], lambda w: attend(w, wi, bi, wo, bo, h, track=True).transpose(1, 2),
                               lambda x: attend(x.transpose(1, 2), wi, bi, wo, bo, h).transpose(1, 2))

        def clip(x):
            y = attend(x.transpose(1, 2), wi, bi, wo, bo, h)
            return (y[:, q].unsqueeze(1) if s.get("sof", True) else y).transpose(1, 2)

        return RefWindowed(s["L"], lambda w: attend(w, wi, bi, wo, bo, h)[:, q], clip)
    if t == "tenc":
        enc = plain_encoder(s, net)

        def clip(x):
            y = enc(x.transpose(1, 2)).transpose(1, 2)
            return y if s["n"] == 1 else y[:, :, -1:]

        return RefWindowed(s["L"], lambda w: enc(w)[:, -1], clip)
    if t == "rpe":
        pe = net.pe
        tab = copy_of(pe.weight if hasattr(pe, "weight") else pe.pattern)
        return RefRpe(tab)
    raise InvalidCase(t)


def functional(m, params):
    """Module m with the given parameters in its place."""
    params = {k: v for k, v in params.items() if k in dict(m.named_parameters())}
    return lambda *a: torch.func.functional_call(m, params, a)


def plain_encoder(s, net):
    """An ordinary transformer encoder computed by hand with the weights found, by name, in the
    continual network (names follow torch.nn.TransformerEncoderLayer)."""
    act = {"relu": F.relu, "gelu": F.gelu, "relu_s": F.relu, "gelu_s": F.gelu}[s.get("act", "relu")]
    sd = OrderedDict((k, copy_of(v)) for k, v in (net.named_parameters() if TRACK[0] else net.state_dict().items()))
    layers = [OrderedDict() for _ in range(s["n"])]
    final = {}
    order = []
    for k, v in sd.items():
        parts = k.split(".")
        if "self_attn" in parts or "linear1" in parts or "linear2" in parts or "norm1" in parts or "norm2" in parts:
            i = next(i for i, q in enumerate(parts) if q in ("self_attn", "linear1", "linear2", "norm1", "norm2"))
            li = int(parts[parts.index("layers") + 1])
            if li not in order:
                order.append(li)
            layers[order.index(li)][".".join(q for q in parts[i:] if q != "fn")] = v
        else:
            final[parts[-1]] = v
    for ly in layers:
        if len(ly) != 12:
            raise InvalidCase(f"unexpected transformer parameters {list(sd)}")
    e, h, eps = s["e"], s["h"], s.get("eps", 1e-5)

    def run(x):
        for i, ly in enumerate(layers):
            a = attend(x, ly["self_attn.in_proj_weight"], ly["self_attn.in_proj_bias"],
                       ly["self_attn.out_proj.weight"], ly["self_attn.out_proj.bias"], h, track=i < len(layers) - 1)
            x = F.layer_norm(x + a, (e,), ly["norm1.weight"], ly["norm1.bias"], eps)
            f = F.linear(act(F.linear(x, ly["linear1.weight"], ly["linear1.bias"])), ly["linear2.weight"], ly["linear2.bias"])
            x = F.layer_norm(x + f, (e,), ly["norm2.weight"], ly["norm2.bias"], eps)
        if s.get("norm"):
            x = F.layer_norm(x, (e,), final["weight"], final["bias"], eps / 2)
        return x

    return run


def inner(net):
    """The direct submodules of a container."""
    return list(net._modules.values())


def weightful(spec):
    return spec["t"] in ("conv", "lin", "bn", "ln", "inorm", "rnn", "somha", "rmha", "tenc", "rpe")


def undelayed(child, spec):
    """The module built from `spec` inside `child`, which a container may have put into a
    Sequential together with a delay line."""
    co = library()
    if matches(child, spec, co) or not isinstance(child, nn.Sequential):
        return child
    cands = [m for m in inner(child) if matches(m, spec, co)]
    return cands[0] if len(inner(child)) == 2 and len(cands) == 1 else child


def matches(m, s, co):
    """Does module `m` have the structure described by `s`?"""
    t = s["t"]
    cls = {"conv": nn.modules.conv._ConvNd, "lin": nn.Linear, "bn": nn.modules.batchnorm._BatchNorm,
           "inorm": nn.modules.instancenorm._InstanceNorm, "ln": nn.LayerNorm,
           "rnn": nn.RNNBase, "somha": nn.MultiheadAttention, "rmha": nn.MultiheadAttention, "tenc": nn.Module,
           "rpe": co.RecyclingPositionalEncoding, "skip": co.Skip}.get(t)
    if cls is not None:
        return isinstance(m, cls) and (t != "tenc" or not isinstance(m, co.Delay))
    subs = inner(m)
    if t == "delay":
        return isinstance(m, co.Delay) and m.receptive_field == s["n"] + 1
    if t == "seq":
        return isinstance(m, nn.Sequential) and not isinstance(m, co.BroadcastReduce) and len(subs) == len(s["m"]) and all(
            matches(c, q, co) for c, q in zip(subs, s["m"]))
    if t == "bpr":
        return isinstance(m, nn.Sequential) and bool(subs) and isinstance(subs[0], user_classes(co)["fan"] if s.get("fan") else co.Broadcast)
    if t in ("br", "res"):
        return isinstance(m, co.BroadcastReduce)
    if t == "cond":
        return isinstance(m, co.Conditional)
    return not isinstance(m, (co.Delay, nn.Sequential))


# ---------------------------------------------------------------------------------------
# static facts about specs (independent of the library)


def spec_timing(s):
    """(receptive field, stride, padding) by the textbook formulas."""
    t = s["t"]
    if t == "conv":
        return s["k"][0], s["s"][0], s["p"][0]
    if t == "pool":
        return s["d"][0] * (s["k"][0] - 1) + 1, s["s"][0], s["p"][0]
    if t == "apool":
        return s.get("d", 1) * (s["k"] - 1) + 1, s.get("s", 1), s.get("p", 0)
    if t == "delay" or t == "user" and s["kind"] == "diff":
        return s["n"] + 1, 1, 0
    if t in ("somha", "rmha", "tenc"):
        return s["L"], 1, 0
    if t == "seq":
        rf, st, p = 1, 1, 0
        for m in s["m"]:
            r, q, pp = spec_timing(m)
            rf, p, st = rf + (r - 1) * st, p + pp * st, st * q
        return rf, st, p
    if t == "br":
        tm = [spec_timing(m) for m in s["m"]]
        d = max(r - 1 - p for r, _, p in tm)
        return max(r + (d - (r - 1 - p)) for r, _, p in tm), tm[0][1], max(p for _, _, p in tm)
    if t == "bpr":
        rf, st, p = spec_timing({"t": "br", "m": s["m"]})
        if s.get("disp") is not None:
            r2, s2, p2 = spec_timing({"t": "br", "m": s["post"]})
            rf, p, st = rf + (r2 - 1) * st, p + p2 * st, st * s2
        return rf, st, p
    if t == "res":
        return spec_timing(s["m"])
    if t == "cond":
        return spec_timing({"t": "br", "m": [m for m in (s["a"], s.get("b")) if m is not None]})
    return 1, 1, 0


def spec_reduction(s):
    """Number of frames by which a (stride one) module shortens a clip."""
    t = s["t"]
    if t in ("conv", "pool", "apool", "user"):
        rf, _, p = spec_timing(s)
        return rf - 1 - 2 * p
    if t == "seq":
        return sum(spec_reduction(m) for m in s["m"])
    if t == "br":
        return spec_reduction(s["m"][0])
    if t == "bpr":
        return spec_reduction(s["m"][0]) + (spec_reduction(s["post"][0]) if s.get("disp") is not None else 0)
    if t == "res":
        return spec_reduction(s["m"])
    if t == "cond":
        return spec_reduction(s["a"])
    return 0


def walk(s):
    yield s
    for key in ("m", "post"):
        v = s.get(key)
        if isinstance(v, list):
            for m in v:
                yield from walk(m)
        elif isinstance(v, dict):
            yield from walk(v)
    for key in ("a", "b"):
        if isinstance(s.get(key), dict):
            yield from walk(s[key])


def clip_need(s, need=1):
    """How many frames a clip needs for `need` output frames."""
    t = s["t"]
    if t in ("conv", "pool", "apool", "user"):
        rf, st, p = spec_timing(s)
        if t == "apool":
            return 1
        return max(rf if t == "pool" else 1, (need - 1) * st + rf - 2 * p)
    if t == "delay":
        return need + {False: 0, "lagging": s["n"]}.get(s.get("shrink", False), 2 * s["n"])
    if t == "skip":
        return need + s["n"]
    if t in ("somha", "rmha", "tenc"):
        return max(need, s["L"])
    if t == "seq":
        for m in reversed(s["m"]):
            need = clip_need(m, need)
        return need
    if t == "br":
        return max(clip_need(m, need) for m in s["m"])
    if t == "bpr":
        if s.get("disp") is not None:
            need = max(clip_need(m, need) for m in s["post"])
        return max(clip_need(m, need) for m in s["m"])
    if t == "res":
        return clip_need(s["m"], need)
    if t == "cond":
        return max(need if m is None else clip_need(m, need) for m in (s["a"], s.get("b")))
    return need


def clip_exact(spec):
    """Does the whole-clip oracle apply to every module of this network?"""
    for m in walk(spec):
        if m["t"] == "rpe":
            return False
        if m["t"] == "pool" and m["kind"] == "avg" and m["d"][0] > 1:
            return False  # known finding: forward ignores temporal dilation
        if m["t"] == "pool" and m.get("ceil") and m["s"][0] > 1:
            return False
        if m["t"] == "seq":
            # attention reduces a clip to a single frame: nothing temporal can follow
            i = next((i for i, q in enumerate(m["m"]) if q["t"] in ("somha", "tenc", "rmha", "apool")), None)
            if i is not None and any(spec_timing(q) != (1, 1, 0) or q["t"] == "skip" for r in m["m"][i + 1:] for q in walk(r)):
                return False
    return True


def flush_exact(spec):
    """Is a flushed stream of this network the same function as its whole-clip computation?
    Requires that the streaming start and end fills are what the clip computation pads with."""
    if not clip_exact(spec):
        return False
    for m in walk(spec):
        t = m["t"]
        if t in ("skip", "somha", "rmha", "tenc", "apool") or (t == "delay" and m.get("shrink")):
            return False
        if t == "conv" and m["p"][0] and ((m.get("tf") or "zeros") != "zeros" or m.get("pm", "zeros") != "zeros"):
            return False
        if t == "pool" and m["p"][0]:
            if (m.get("tf") or default_fill(m)) != default_fill(m):
                return False  # the user asked for another fill than the clip computation uses
            if m["kind"] == "avg" and not m.get("cip", True):
                return False
        if t == "res" and m.get("shrink"):
            return False
    return True


def uncounted_padding(spec):
    """Average pools which shall not count temporal padding: only their whole-clip computation does so (known finding)."""
    return [m for m in walk(spec) if m["t"] == "pool" and m["kind"] == "avg" and m["p"][0] and not m.get("cip", True)]
