"""C14: conversion of ordinary networks; checkpoints, plain and flattened, between instances; replicas continue streams."""
import contextlib
import copy

import torch
from torch import nn

from sim import nets, specs
from sim.core import InvalidCase, derive, rng_for
from sim.faults import INJECTED, FaultMode
from sim.nets import PLAIN, clip_exact, clip_need, reference, spec_timing, uncounted_padding, walk
from sim.stream import OpGen, StreamProp, base_case, new_seed
from sim.world import World, deep_clone, make_frame, same_values, through_disk

ACT = ("relu", "sigmoid", "tanh", "gelu", "elu", "hardtanh", "softplus", "silu", "leaky", "softmax", "logsoftmax", "softsign", "dropout",
       "prelu", "threshold", "rrelu", "relu6", "hardsigmoid", "hardswish", "celu", "selu", "hardshrink", "logsigmoid", "softshrink",
       "tanhshrink", "softmin", "adropout")
LIBRARY = ("conv", "lin", "rnn", "somha", "rmha", "tenc", "pool")


UNSUPPORTED = {
    "bidirectional RNN": lambda: nn.RNN(2, 3, bidirectional=True),
    "bidirectional GRU": lambda: nn.GRU(2, 3, bidirectional=True),
    "bidirectional LSTM": lambda: nn.LSTM(2, 3, bidirectional=True),
    "norm_first transformer": lambda: nn.TransformerEncoder(nn.TransformerEncoderLayer(4, 2, 3, norm_first=True), 1),
    "temporal dilation": lambda: nn.Conv1d(2, 2, 2, dilation=2),
    "instance norm of the clip's statistics": lambda: nn.InstanceNorm1d(2, affine=True),
    "instance norm without weights": lambda: nn.InstanceNorm2d(2, track_running_stats=True),
    "transposed convolution": lambda: nn.ConvTranspose1d(2, 2, 3),
    "upsampling in time": lambda: nn.Upsample(scale_factor=2),
    "unknown module": lambda: nn.Unflatten(1, (1, 2)),
    "circular padding": lambda: nn.Conv1d(2, 2, 3, padding=1, padding_mode="circular"),
}


class Stop(Exception):
    """Leaves contexts."""


def plainly(s):
    """Mark the leaves of a composed network which can be given as ordinary layers."""
    s = copy.deepcopy(s)
    # parallel containers and residuals ask their modules for a delay and take continual modules only
    inseq = [m for q in walk(s) if q["t"] == "seq" for m in q["m"]]
    for m in inseq:
        t = m["t"]
        if t == "conv":
            m["plain"], m["tf"] = True, m.get("pm", "zeros")
        elif t == "pool" and m["d"][0] == 1 and m.get("tf") in (None, nets.default_fill(m)):
            m["plain"], m["tf"] = True, None
        elif t == "act":
            m["plain"], m["wrap"] = True, None
        elif t in ("bn", "ln", "rnn"):
            m["plain"] = True
    return s


def plain_unit(env):
    rng, C, nd, sp = env.rng, env.C, env.nd, env.sp
    k = specs.pick(rng, "conv", "conv", "conv1", "pool", "act", "act", "bn", "ln", "lin", "inorm", "user")
    if k == "user":
        return dict(t="user", kind="ema", a=round(rng.uniform(0.1, 0.9), 2), plain=True) if rng.random() < 0.5 else dict(t="act", name="tanh", plain=True)
    if k == "conv":
        m = specs.conv_same(env, s=specs.pick(rng, 1, 1, 1, 2))
        m["tf"] = m["pm"]
        return {**m, "plain": True}
    if k == "conv1":
        return dict(t="conv", nd=nd, ci=C, co=C, k=[1] * nd, s=[1] * nd, p=[0] * nd, d=[1] * nd, g=1, bias=rng.random() < 0.6,
                    pm="zeros", tf="zeros", plain=True)
    if k == "pool":
        m = specs.pool_same(env, s=specs.pick(rng, 1, 1, 2), d=1)
        m["tf"] = None
        if nd > 1 and m["kind"] == "avg" and rng.random() < 0.3:
            m["div"] = rng.randint(1, 5)
        if m["kind"] == "avg" and rng.random() < (0.25 if m["p"][0] else 0.5):
            m["cip"] = False
        if nd == 1 and rng.random() < 0.3:
            m["ints"] = True
        return {**m, "plain": True}
    if k == "act":
        return dict(t="act", name=rng.choice(ACT), plain=True)
    if k == "bn":
        return dict(t="bn", nd=nd, c=C, plain=True)
    if k == "inorm":
        return dict(t="inorm", nd=nd, c=C, plain=True)
    if nd == 1:
        return dict(t="bn", nd=nd, c=C, plain=True)
    if k == "ln":
        return dict(t="ln", shape=list(sp), plain=True)
    return dict(t="lin", ci=sp[-1], co=sp[-1], bias=rng.random() < 0.7, cd=-1, plain=True)


def plain_net(rng):
    """An ordinary torch.nn network."""
    r = rng.random()
    if r < 0.14:
        C = rng.randint(1, 4)
        s = dict(t="rnn", kind=specs.pick(rng, "rnn", "gru", "lstm"), ci=C, h=rng.randint(1, 4), layers=rng.randint(1, 3),
                 bias=rng.random() < 0.7, bf=rng.random() < 0.6, nonlin=specs.pick(rng, "tanh", "relu"), plain=True)
        if s["kind"] == "lstm" and s["h"] > 1 and rng.random() < 0.4:
            s["proj"] = rng.randint(1, s["h"] - 1)
        s["do"] = specs.pick(rng, 0, 0, 1, 0.3) if s["layers"] > 1 else 0
        return s, [rng.randint(1, 3), C]
    if r < 0.30:
        C = rng.choice([2, 4])
        s = specs.attn_unit(specs.Env(rng, 1, C, []), True)
        s["do"] = specs.pick(rng, 0, 1)  # a probability with which the training mode is deterministic
        return {**s, "plain": True}, [rng.randint(1, 3), C]
    nd = specs.pick(rng, 1, 1, 2, 2, 3)
    C = rng.randint(1, 4)
    sp = specs.spatial(rng, nd, 3, 4)
    env = specs.Env(rng, nd, C, sp)
    if r < 0.38:
        return plain_unit(env), [rng.randint(1, 3), C, *sp]
    if r < 0.48:  # any configuration of a single layer, converted with explicit options or without
        x, bf = rng.random(), rng.random() < 0.5
        if x < 0.35:
            m = specs.leaf_conv(rng, nd, sp, ci=C)
            if not bf or not m.get("tf"):
                m["tf"] = m["pm"]  # the default of a conversion
        elif x < 0.55 and nd > 1:
            m, bf = specs.leaf_apool(rng, nd, sp), True
        elif x < 0.65 and nd == 1:
            m, bf = dict(t="lin", ci=C, co=rng.randint(1, 4), bias=rng.random() < 0.7, cd=1), True
        else:
            m = specs.leaf_pool(rng, nd, sp)
            if not bf:
                m["tf"] = None
            if m["kind"] == "avg" and not bf:
                m["d"] = [1] * nd
            if m["kind"] == "avg" and rng.random() < 0.2:
                m["cip"] = False
            m.pop("defstride", None)
        if bf:
            m["bf"] = rng.randint(1, 2)
        return {**m, "plain": True}, [rng.randint(1, 3), C, *sp]

    def seq(n, depth):
        ms = []
        for _ in range(n):
            ms.append(seq(rng.randint(1, 3), depth - 1) if depth and rng.random() < 0.2 else plain_unit(env))
        once = [m for m in ms if spec_timing(m)[1] == 1]
        if once and rng.random() < 0.3:
            m = rng.choice(once)
            m["dup"] = 1
            ms.insert(rng.randint(0, len(ms)), copy.deepcopy(m))
        strided = [m for m in ms if spec_timing(m)[1] > 1]
        for m in strided[1:]:
            ms.remove(m)
        return dict(t="seq", m=ms, named=rng.random() < 0.3, plain=True)

    return seq(rng.randint(1, 5), 2), [rng.randint(1, 3), C, *sp]


def flat_keys(keys):
    flat = [".".join(p for p in k.split(".") if not p.isdigit()) for k in keys]
    return flat if len(set(flat)) == len(keys) else list(keys)


class CWorld(World):
    tweaked = False  # the original has been modified

    """Builds the ordinary network and converts it; keeps an untouched copy of the original as the oracle."""

    def make_net(self, ws=None):
        co = self.co
        PLAIN.update(ws=self.spec["ws"] if ws is None else ws, dtype=self.dtype, leaves=[])
        p = nets._build(self.spec, co)
        leaves = PLAIN["leaves"]
        pure = bool(self.spec.get("plain"))
        oracle = copy.deepcopy(p) if pure else None
        if pure:
            q = self.converted(p)
        else:
            q = p if co.CoModule.is_valid(p) else self.convert(p)
            q = q.to(self.dtype)
        q.train(bool(self.spec.get("train")))
        if ws is None:
            self.plain, self.oracle, self.leaves = (p if pure else None), oracle, leaves
            self.base = {k: v.detach().clone() for k, v in nn.Module.state_dict(q).items()}
        return q

    def converted(self, p):
        """The continual network of an ordinary one."""
        co = self.co
        t = self.spec["t"]
        if t == "tenc":
            return co.TransformerEncoder.build_from(p, self.spec["L"])
        elif t == "somha":
            return co.SingleOutputMultiheadAttention.build_from(
                p, self.spec["L"], query_index=self.spec.get("q", -1), forward_returns_attn_mask=False, embed_dim_second=True)
        elif t == "rmha":
            return co.RetroactiveMultiheadAttention.build_from(p, self.spec["L"], forward_returns_attn_mask=False, embed_dim_second=True)
        elif self.spec.get("bf"):
            return getattr(co, type(p).__name__).build_from(p, **self.build_options())
        else:
            return self.convert(p)

    def convert(self, p):
        """Convert, with the user's own layers registered for the time being."""
        register, mapping = self.co.convert.register, self.co.convert.MODULE_MAPPING
        try:
            if any(m["t"] == "user" for m in walk(self.spec)):
                register(nets.PlainEma, nets.user_classes(self.co)["ema"])
            return self.co.continual(p)
        finally:
            mapping.pop(nets.PlainEma, None)

    def build_options(self):
        """Options which are given to build_from; the second form gives more of them than necessary."""
        s, full = self.spec, self.spec["bf"] == 2
        kw = {"temporal_fill": s["tf"]} if s.get("tf") and (full or s["tf"] != s.get("pm")) else {}
        if s["t"] == "lin":
            return {"channel_dim": s["cd"]}
        if s["t"] == "apool":
            kw["kernel_size"] = s["k"]
            if "s" in s:
                kw.update(stride=s["s"], padding=s["p"], dilation=s["d"])
            if full:
                kw["output_size"] = (1, *s["out"])
        elif s["t"] == "pool" and s["kind"] == "avg" and (s["d"][0] > 1 or full):
            kw["dilation"] = tuple(s["d"])
        elif full:
            kw["kernel_size"] = tuple(s["k"])
        return kw

    def make_ref(self, net):
        with torch.no_grad():
            return reference(self.spec, net if self.oracle is None else self.oracle, self.table)

    def original(self, m, x):
        t = self.spec["t"]
        if t == "rnn":
            bf = self.spec.get("bf", True)
            y = m(x.transpose(1, 2) if bf else x.permute(2, 0, 1))[0]
            return y.transpose(1, 2) if bf else y.permute(1, 2, 0)
        if t == "tenc":
            y = m(x.transpose(1, 2)).transpose(1, 2)
            return y if self.spec["n"] == 1 else y[:, :, -1:]
        if t in ("somha", "rmha"):
            w = x.transpose(1, 2)
            y = m(w, w, w, need_weights=False)[0]
            return y.transpose(1, 2) if t == "rmha" else y[:, self.spec.get("q", -1)].unsqueeze(2)
        if t == "lin" and self.spec["cd"] == 1:
            return m(x.movedim(1, -1)).movedim(-1, 1)
        return m(x)

    # -- comparison with the original ---------------------------------------------------------

    def op_orig(self, op):
        """Original, copy of the original, and converted network compute the same clip."""
        if self.oracle is None:
            return self.op_weights(op)
        if not clip_exact(self.spec):
            return
        x = self.clip_of(op)
        try:
            with torch.no_grad():
                exp = self.original(self.oracle, x)
        except Exception:  # noqa: BLE001  (too short a clip)
            return
        got = self.legal("original", lambda: self.original(self.plain, x.clone()))
        self.check(got, exp, "the original network after its conversion", "original")
        if not self.tweaked:
            got = self.legal("forward", lambda: self.net.forward(x.clone()))
            got = got[0] if isinstance(got, tuple) else got
            self.check(got, exp, "forward of the converted network against the original", "conversion")
        self.record(op, got)
        self.log.hit("originals")
        self.log.hit("nontrivial")

    def op_train(self, op):
        """The conversion of a network in training mode computes the same function, dropout and running statistics included."""
        if self.oracle is None or not clip_exact(self.spec):
            return
        x = self.clip_of(op)
        a, b = copy.deepcopy(self.oracle).train(), copy.deepcopy(self.oracle).train()
        q = self.legal("conversion", lambda: self.converted(b)).train()
        for m in a.modules():
            if isinstance(m, nn.TransformerEncoderLayer):
                m.dropout1.p = 0.0  # known finding: the continual layer does without it
        with torch.random.fork_rng(devices=[]), torch.no_grad():
            torch.manual_seed(op["s"] % 2**31)
            try:
                exp = self.original(a, x)
            except Exception:  # noqa: BLE001  (too short a clip; too few values for statistics)
                return
            torch.manual_seed(op["s"] % 2**31)
            got = self.legal("forward", lambda: q.forward(x.clone()))
        self.check(got[0] if isinstance(got, tuple) else got, exp, "forward of a network converted in training mode", "conversion")
        if self.spec["t"] != "tenc":
            for (k, u), v in zip(a.state_dict().items(), q.state_dict().values()):
                if u.is_floating_point():
                    self.check(v, u, f"{k} after a clip in training mode", "conversion")
        self.record(op, got)
        self.log.hit("training_mode")

    def op_weights(self, op):
        """Composed network: every tensor of a converted layer is found, bit for bit."""
        have = list(nn.Module.state_dict(self.net).values())
        for s, m in self.leaves:
            if s["t"] not in LIBRARY or s.get("_tweaked"):
                continue
            for k, v in m.state_dict().items():
                if not any(same_values(v, h) for h in have):
                    self.fail("conversion", f"{k} of an original {s['t']} layer is not found in the converted network")
        self.record(op)
        self.log.hit("originals")

    def lib_params(self, m):
        """Parameters of layers which the library replaces."""
        skip = set()
        for q in m.modules():
            if isinstance(q, (nn.modules.batchnorm._NormBase, nn.PReLU)) or (isinstance(q, nn.LayerNorm) and self.spec["t"] != "tenc"):
                skip |= {id(p) for p in q.parameters()}
        if self.spec["t"] == "tenc" and getattr(m, "norm", None) is not None:
            skip |= {id(p) for p in m.norm.parameters()}
        return [(n, p) for n, p in m.named_parameters() if id(p) not in skip]

    def op_tweak_orig(self, op):
        """The original is trained on: the converted network does not notice."""
        before = deep_clone(list(nn.Module.state_dict(self.net).values()))
        n = 0
        if self.oracle is None:
            raise InvalidCase("pure networks only")
        with torch.inference_mode(self.inference), torch.no_grad():
            for m in (self.plain, self.oracle):
                for _, p in self.lib_params(m):
                    p.mul_(1.25).add_(0.01)
                    n += 1
        if not same_values(before, list(nn.Module.state_dict(self.net).values())):
            self.fail("shared", "changing the weights of the original changed the converted network")
        self.tweaked = True
        self.record(op)
        if n:
            self.log.hit("fault_original_modified")

    def op_tweak_conv(self, op):
        """The converted network is trained on (and rolled back): the original does not notice."""
        if self.oracle is None:
            raise InvalidCase("pure networks only")
        before = deep_clone(list(self.plain.state_dict().values()))
        names = {n for n, _ in self.lib_params(self.plain)}
        if self.spec["t"] == "tenc":
            ps = [p for n, p in self.net.named_parameters() if not n.startswith("norm.")]
        else:
            ps = [p for n, p in self.net.named_parameters() if n in names]
        saved = [p.detach().clone() for p in ps]
        with torch.inference_mode(self.inference), torch.no_grad():
            for p in ps:
                p.mul_(1.5).add_(0.02)
            changed = not same_values(before, list(self.plain.state_dict().values()))
            for p, q in zip(ps, saved):
                p.copy_(q)
        if changed:
            self.fail("shared", "changing the weights of the converted network changed the original")
        self.record(op)
        if ps:
            self.log.hit("fault_converted_modified")

    def op_retrain(self, op):
        """The original architecture is trained further elsewhere; its new checkpoint is loaded."""
        if self.oracle is None or self.tweaked or self.spec["t"] == "tenc":
            return
        better = copy.deepcopy(self.oracle)
        x = self.clip_of(op)
        with torch.no_grad():
            for p in better.parameters():
                p.mul_(1.3)
            try:
                exp = self.original(better, x)
            except Exception:  # noqa: BLE001  (too short a clip)
                return
        how = self.usable(op["how"])
        old = through_disk(dict(self.save_as(self.net, how)))
        keys = list(old)
        new = dict(zip(keys, better.state_dict().values()))
        self.legal("load_state_dict", lambda: self.load_as(self.net, through_disk(new), how))
        got = self.legal("forward", lambda: self.net.forward(x.clone()))
        got = got[0] if isinstance(got, tuple) else got
        self.check(got, exp, "forward after loading a checkpoint of the original architecture", "exchange")
        self.legal("load_state_dict", lambda: self.load_as(self.net, old, how))
        self.content("loading another checkpoint and the former one again")
        self.record(op, got)
        self.log.hit("weight_updates")

    def op_refuse(self, op):
        """What cannot be converted faithfully is refused, alone and inside of a network."""
        co, m = self.co, UNSUPPORTED[op["what"]]()
        try:
            if isinstance(m, nn.TransformerEncoder):
                co.TransformerEncoder.build_from(m, 4)
            else:
                co.continual(nn.Sequential(m) if op["n"] else m)
        except Exception:  # noqa: BLE001
            self.log.hit("refusals")
            self.record(op)
            return
        self.fail("accepted", f"{op['what']}, which has no continual counterpart, was converted")

    def op_odd(self, op):
        """Single layers of unusual configuration beside the network: pooling of incomplete windows at the end of a clip, attention
        whose keys and values have other dimensions."""
        co, rng = self.co, rng_for(derive(op["s"], "odd"))
        if op["what"] == "naive":
            nd = rng.randint(1, 3)
            m = rng.choice([lambda: nn.GLU(1), lambda: nn.Dropout2d(0.5), lambda: nn.Dropout3d(0.5), lambda: nn.FeatureAlphaDropout(0.5),
                            lambda: nn.Softmax2d() if nd == 2 else nn.Softmax(1)])()
            q = self.legal("conversion", lambda: co.continual(copy.deepcopy(m))).eval()
            m.eval()
            x = make_frame(derive(op["s"], "x"), [2, 4, rng.randint(1, 6), *[rng.randint(1, 4) for _ in range(nd - 1)]], self.dtype)
            exp = m(x)
            self.check(self.legal("forward", lambda: q.forward(x.clone())), exp, f"forward of a converted {m}", "conversion")
            self.check(self.legal("forward_steps", lambda: q.forward_steps(x.clone())), exp, f"forward_steps of a converted {m}", "conversion")
            for t in range(x.shape[2]):
                self.check(self.legal("forward_step", lambda: q.forward_step(x[:, :, t].clone())), exp[:, :, t], f"forward_step of a converted {m}",
                           "conversion")
        elif op["what"] == "ceil":
            nd, kind = rng.randint(1, 3), rng.choice(["Max", "Avg"])
            k, st = [rng.randint(2, 4) for _ in range(nd)], [rng.randint(1, 3) for _ in range(nd)]
            p = [rng.randint(0, q // 2) for q in k]
            args = (k[0], st[0], p[0]) if nd == 1 and rng.random() < 0.5 else (tuple(k), tuple(st), tuple(p))
            m = getattr(nn, f"{kind}Pool{nd}d")(*args, ceil_mode=True)
            q = self.legal("conversion", lambda: co.continual(copy.deepcopy(m)) if rng.random() < 0.5 else type(self).built(co, m))
            x = make_frame(derive(op["s"], "x"), [2, 2, rng.randint(6, 12), *[rng.randint(4, 7) for _ in range(nd - 1)]], self.dtype)
            got = self.legal("forward", lambda: q.forward(x.clone()))
            self.check(got, m(x), f"forward of a converted {m}", "conversion")
        else:
            H = rng.randint(1, 2)
            E, kd, vd, L = H * rng.randint(1, 2), rng.randint(1, 5), rng.randint(1, 5), rng.randint(2, 4)
            m = nn.MultiheadAttention(E, H, kdim=kd, vdim=vd if rng.random() < 0.8 else None, bias=rng.random() < 0.7,
                                      batch_first=rng.random() < 0.5).to(self.dtype).eval()
            nets.init_weights(m, derive(op["s"], "w"))
            vd = m.vdim
            single = op["what"] == "somha"
            cls = co.SingleOutputMultiheadAttention if single else co.RetroactiveMultiheadAttention
            q = self.legal("conversion", lambda: cls.build_from(copy.deepcopy(m), L, embed_dim_second=False).eval())
            frames = [make_frame(derive(op["s"], "x", i), [2, L, d], self.dtype) for i, d in enumerate((E, kd, vd))]
            bf = m.batch_first
            with torch.no_grad():
                exp = m(*[f if bf else f.transpose(0, 1) for f in frames], need_weights=False)[0]
                exp = exp if bf else exp.transpose(0, 1)
                for t in range(L):
                    y = self.legal("forward_step", lambda: q.forward_step(*[f[:, t].clone() for f in frames]))
            y = y[0] if isinstance(y, tuple) else y
            if not isinstance(y, torch.Tensor):
                self.fail("presence", f"a full window of converted attention (key and value dimensions {kd}, {vd}) gave no output")
            if not single and not bf:
                y = y.transpose(0, 1)
            self.check(y, exp[:, -1] if single else exp, f"step of converted attention with key and value dimensions {kd} and {vd}", "conversion")
        self.record(op)
        self.log.hit("odd_layers")

    @staticmethod
    def built(co, m):
        return getattr(co, type(m).__name__).build_from(m)

    # -- checkpoints --------------------------------------------------------------------------

    def same(self, a, b):
        """Equal tensors, in order (torch's instance norm itself rounds its running statistics anew in every call)."""
        a, b = list(a.values()), list(b.values())
        if any(m["t"] == "inorm" for m in walk(self.spec)) and len(a) == len(b):
            return all(x.shape == y.shape and x.dtype == y.dtype and bool(torch.allclose(x.double(), y.double(), rtol=1e-5)) for x, y in zip(a, b))
        return same_values(a, b)

    def content(self, what):
        now = nn.Module.state_dict(self.net)
        if list(now) != list(self.base) or not self.same(now, self.base):
            self.fail("checkpoint", f"{what} changed what a checkpoint contains")

    @contextlib.contextmanager
    def contexts(self, depth):
        with contextlib.ExitStack() as st:
            for _ in range(depth):
                st.enter_context(self.co.flat_state_dict)
            yield

    def save_as(self, net, how):
        kind, depth = how[0], how[1]
        if kind == "ctx":
            with self.contexts(depth):
                if len(how) > 2 and how[2] == "raise":
                    with contextlib.suppress(Stop), self.contexts(2):
                        raise Stop  # an inner block fails
                return net.state_dict()
        if kind == "param":
            return net.state_dict(flatten=True)
        if kind == "func":
            return self.co.state_dict(net, flatten=True)
        if kind == "attr":
            net.flatten_state_dict = True
            try:
                return net.state_dict()
            finally:
                del net.flatten_state_dict
        return self.co.state_dict(net) if kind == "plainfunc" else net.state_dict()

    def load_as(self, net, sd, how):
        kind, depth = how[0], how[1]
        if kind == "ctx":
            with self.contexts(depth):
                return net.load_state_dict(sd)
        if kind == "param":
            return net.load_state_dict(sd, flatten=True)
        if kind == "func":
            return self.co.load_state_dict(net, sd, flatten=True)
        if kind == "attr":
            net.flatten_state_dict = True
            try:
                return net.load_state_dict(sd)
            finally:
                del net.flatten_state_dict
        return self.co.load_state_dict(net, sd) if kind == "plainfunc" else net.load_state_dict(sd, strict=True)

    def usable(self, how):
        """Forms which the module offers."""
        return how if isinstance(self.net, self.co.container.FlattenableStateDict) or how[0] in ("func", "plainfunc", "plain", "ctx") else ["plain", 0]

    def is_flat(self, how):
        # a single layer has an ordinary state dict, which has no numeric parts either
        return how[0] in ("param", "func", "attr") or how[0] == "ctx" and isinstance(self.net, self.co.container.FlattenableStateDict)

    def op_ckpt(self, op):
        how = self.usable(op["how"])
        sd = self.legal("state_dict", lambda: self.save_as(self.net, how))
        exp = flat_keys(list(self.base)) if self.is_flat(how) else list(self.base)
        if list(sd) != exp:
            self.fail("keys", f"checkpoint saved as {how} has keys {list(sd)}, expected {exp}")
        if not self.same(sd, self.base):
            self.fail("checkpoint", f"checkpoint saved as {how} does not contain the network's tensors")
        if any(t.requires_grad for t in sd.values()):
            self.fail("checkpoint", f"checkpoint saved as {how} holds tensors that require gradients")
        self.content("the history of the stream")
        self.disk = (through_disk(dict(sd)), how)
        after = list(self.net.state_dict())
        if after != list(self.base):
            self.fail("keys", f"saving as {how} left flattened keys behind: {after}")
        self.record(op, list(sd))
        self.log.hit("checkpoints_" + how[0])

    def save_checkpoint(self):
        self.how = self.usable(self.current_op.get("how") or ["plain", 0])
        return dict(self.save_as(self.net, self.how))

    def load_checkpoint(self, net, sd):
        self.load_as(net, sd, self.how)
        if list(net.state_dict()) != list(self.base):
            self.fail("keys", f"loading as {self.how} left flattened keys behind")
        now = nn.Module.state_dict(net)
        if not self.same(now, self.base):
            self.fail("checkpoint", f"a replica loaded from a checkpoint saved as {self.how} has other weights")
        self.log.hit("replicas_" + self.how[0])

    def op_partial(self, op):
        """A checkpoint of a network some of whose tensors have other names, loaded with strict=False: what fits is loaded, the rest stays."""
        how = self.usable(op["how"])
        rng = rng_for(derive(op["s"], "partial"))
        if how[0] in ("plain", "attr", "func", "plainfunc"):
            how = ["plain", 0] if how[0] in ("plain", "plainfunc") else ["param", 0]
        how = self.usable(how)
        sd = self.legal("state_dict", lambda: self.save_as(self.net, how))
        if not sd or list(sd) != (flat_keys(list(self.base)) if self.is_flat(how) else list(self.base)):
            return
        if self.is_flat(how) and list(sd) == list(self.base) and any(p.isdigit() for k in self.base for p in k.split(".")):
            return  # ambiguous keys: nothing is flattened
        # torch itself never misses num_batches_tracked; a layer used twice has two names
        gone = {i for i, k in enumerate(sd) if rng.random() < 0.4 and not k.endswith("num_batches_tracked")}
        new = {("other." + k if i in gone else k): v for i, (k, v) in enumerate(through_disk(dict(sd)).items())}
        q = self.legal("build", lambda: self.make_net(derive("partial", self.spec["ws"])))
        if len({id(t) for t in nn.Module.state_dict(q, keep_vars=True).values()}) < len(sd):
            return
        had = [v.clone() for v in nn.Module.state_dict(q).values()]
        long = list(self.base)

        def load(strict=False):
            if how[0] == "ctx":
                with self.contexts(how[1]):
                    return q.load_state_dict(new, strict=strict)
            if how[0] == "param":
                return q.load_state_dict(new, strict=strict, flatten=True)
            return q.load_state_dict(new, strict=strict)

        r = self.legal("load_state_dict(strict=False)", load)
        now = list(nn.Module.state_dict(q).values())
        for i, k in enumerate(long):
            if not self.same({k: now[i]}, {k: had[i] if i in gone else self.base[k]}):
                self.fail("checkpoint", f"{k} after loading a checkpoint (saved as {how}) {'without' if i in gone else 'with'} it, with strict=False")
        if {long[i] for i in gone} != set(r.missing_keys):
            self.fail("keys", f"{r.missing_keys} reported as missing, expected {[long[i] for i in sorted(gone)]}")
        if gone:
            try:
                load(True)
            except Exception:  # noqa: BLE001
                pass
            else:
                self.fail("swallowed", f"a checkpoint (saved as {how}) without {[long[i] for i in sorted(gone)]} was loaded with strict=True")
        self.record(op)
        self.log.hit("partial_loads")

    def op_rewrap(self, op):
        """A flattened checkpoint fits the same network inside further unnamed containers, and back."""
        if list(flat_keys(list(self.base))) == list(self.base) and any(p.isdigit() for k in self.base for p in k.split(".")):
            return  # the keys are ambiguous: nothing is flattened
        co = self.co
        how = op["how"]
        inner = self.legal("build", lambda: self.make_net(derive("wrap", self.spec["ws"])))
        wrap = self.legal("wrap", lambda: co.Sequential(co.Sequential(inner)) if op["n"] % 2 else co.Sequential(inner))
        wrap.train(bool(self.spec.get("train")))
        outer = self.legal("wrap", lambda: co.Sequential(self.net))
        sd = self.legal("state_dict", lambda: self.save_as(outer, how))
        self.legal("load_state_dict", lambda: self.load_as(wrap, through_disk(dict(sd)), how))
        back = self.legal("state_dict", lambda: self.save_as(wrap, how))
        if not self.same(back, self.base) or list(back) != list(sd):
            self.fail("checkpoint", f"a checkpoint flattened as {how} does not survive another nesting")
        self.legal("load_state_dict", lambda: self.load_as(outer, through_disk(dict(back)), how))
        self.content("loading a checkpoint of a more deeply nested network")
        self.record(op, list(back))
        self.log.hit("nestings")

    def op_exchange(self, op):
        """Checkpoints between the original architecture and the converted one."""
        if self.oracle is None or self.spec["t"] == "tenc" or self.tweaked:
            return
        fresh = copy.deepcopy(self.oracle)
        nets.init_weights(fresh, derive("fresh", self.spec["ws"]))
        sd = self.legal("state_dict", self.net.state_dict)
        self.legal("load_state_dict into the original", lambda: fresh.load_state_dict(through_disk(dict(sd)), strict=True))
        if not self.same(fresh.state_dict(), self.oracle.state_dict()):
            self.fail("checkpoint", "the original cannot be restored from a checkpoint of the converted network")
        q = self.legal("build", lambda: self.make_net(derive("fresh2", self.spec["ws"])))
        self.legal("load_state_dict of the original", lambda: q.load_state_dict(through_disk(dict(self.oracle.state_dict())), strict=True))
        if not self.same(q.state_dict(), self.base):
            self.fail("checkpoint", "a converted network cannot be loaded from a checkpoint of the original")
        self.record(op)
        self.log.hit("exchanges")

    def op_badload(self, op):
        """Loading or saving fails inside contexts; afterwards everything is as before."""
        how = self.usable(op["how"])
        good = through_disk(dict(self.save_as(self.net, how)))
        raised = None
        if op["kind"] == "missing" and good:
            bad = dict(good)
            bad["no such key"] = torch.zeros(2)
            fn = lambda: self.load_as(self.net, bad, how)  # noqa: E731
        elif op["kind"] == "shape" and good:
            bad = dict(good)
            ks = sorted(k for k in bad if bad[k].dim())  # torch accepts one-element vectors for scalars
            k = ks[op["n"] % len(ks)]
            bad[k] = torch.zeros(*bad[k].shape, 3)
            fn = lambda: self.load_as(self.net, bad, how)  # noqa: E731
        elif op["kind"] == "oom_load":
            def fn():
                with FaultMode(op["n"] % 12 + 1, "before", "oom") as m:
                    self.load_as(self.net, good, how)
                if not m.fired:
                    raise Stop
        else:
            def fn():
                with FaultMode(op["n"] % 12 + 1, "before", "kbd") as m:
                    self.save_as(self.net, how)
                if not m.fired:
                    raise Stop
        try:
            with torch.no_grad():
                fn()
        except (Exception,) + INJECTED as e:  # noqa: BLE001
            raised = e
        if raised is None and good:
            self.fail("swallowed", f"a failing load ({op['kind']}) of a checkpoint was not reported")
        if raised is not None and not isinstance(raised, Stop):
            self.log.hit("fault_" + ("checkpoint_" + op["kind"]))
        if list(self.net.state_dict()) != list(self.base):
            self.fail("keys", f"a failed load or save as {how} left flattened keys behind")
        self.legal("load_state_dict", lambda: self.load_as(self.net, good, how))
        self.content("a failed load followed by a good one")
        self.record(op)

    def run_one(self, op):
        self.current_op = op
        super().run_one(op)


class Prop(StreamProp):
    ID = "C14"
    RUNS = {"quick": 3000, "thorough": 24000}
    PROBES = ["originals", "fault_original_modified", "fault_converted_modified", "weight_updates", "checkpoints_plain", "checkpoints_ctx",
              "checkpoints_param", "checkpoints_attr", "checkpoints_func", "replicas_plain", "replicas_ctx", "replicas_param", "nestings",
              "exchanges", "fault_checkpoint_missing", "fault_checkpoint_shape", "fault_crash_restart", "clips", "refusals", "odd_layers",
              "partial_loads", "training_mode"]
    RULE = ("runs are drawn from the seed: a random ordinary or composed network is converted; a random history of streaming, clips, weight "
            "updates of either side, checkpoints in every form, failed loads, crashes and replicas follows; non-trivial if an output was judged")

    def generate(self, rng, tier, index):
        if rng.random() < 0.68:
            spec, shape = plain_net(rng)
        else:
            spec, shape = specs.net(rng, attn=0.1, append=False)
            spec = plainly(spec)
        case = base_case(rng, spec, shape, f32=0.3, train=0.0, grad=0.1)
        g = OpGen(rng, spec, shape)
        pure, clips = bool(spec.get("plain")), clip_exact(spec)

        def how():
            k = rng.choice(["plain", "plain", "plainfunc", "ctx", "ctx", "param", "func", "attr"])
            h = [k, rng.randint(1, 3)]
            if k == "ctx" and rng.random() < 0.3:
                h.append("raise")
            return h

        def flat():
            return [rng.choice(["ctx", "param", "func", "attr"]), rng.randint(1, 2)]

        def clip(name):
            return {"o": name, "n": clip_need(spec) + rng.randint(0, 4), "s": new_seed(rng)}

        ops, snap = [], False
        for _ in range(rng.randint(4, g.rf + 14)):
            r = rng.random()
            if r < 0.42:
                ops.append(g.feed())
            elif r < 0.48 and clips:
                ops.append(g.clip())
            elif r < 0.56:
                ops.append(clip("orig"))
            elif r < 0.60 and pure:
                ops.append({"o": rng.choice(["tweak_conv", "tweak_conv", "tweak_orig"])})
            elif r < 0.64 and pure:
                ops.append({**clip("retrain"), "how": how()})
            elif r < 0.74:
                ops.append({"o": "ckpt", "how": how()})
            elif r < 0.78:
                ops.append({"o": "rewrap", "how": flat(), "n": rng.randint(0, 1)})
            elif r < 0.82 and pure:
                ops.append({"o": "exchange"} if rng.random() < 0.7 else clip("train"))
            elif r < 0.87:
                ops.append({"o": "badload", "how": how(), "kind": rng.choice(["missing", "shape", "oom_load", "kbd_save"]),
                            "n": rng.randrange(1000)})
            elif r < 0.92:
                ops.append({"o": "snap", "k": 0})
                snap = True
            elif snap:
                ops.append({"o": "restore", "k": 0, "crash": rng.random() < 0.8, "how": how()})
            else:
                ops.append({"o": "crash", "how": how()})
        if rng.random() < 0.15:
            ops.insert(rng.randint(0, len(ops)), {"o": "refuse", "what": rng.choice(sorted(UNSUPPORTED)), "n": rng.randint(0, 1)})
        if rng.random() < 0.15:
            ops.insert(rng.randint(0, len(ops)), {"o": "partial", "how": how(), "s": new_seed(rng)})
        if rng.random() < 0.1:
            ops.insert(rng.randint(0, len(ops)), {"o": "odd", "what": rng.choice(["ceil", "ceil", "somha", "rmha", "naive", "naive"]), "s": new_seed(rng)})
        ops.append(clip("orig"))
        ops += [g.feed() for _ in range(g.rf + 1)]
        if uncounted_padding(spec):
            ops = [clip("orig") if op["o"] in ("step", "chunk") else op for op in ops]
        return {**case, "ops": ops}

    def execute(self, case, log):
        CWorld(case, log).run()

    def shrink(self, case):
        yield from super().shrink(case)
        for i, op in enumerate(case["ops"]):
            if op.get("how") and op["how"] != ["plain", 0]:
                for h in (["plain", 0], ["ctx", 1], ["param", 1]):
                    if op["how"] != h:
                        c = copy.deepcopy(case)
                        c["ops"][i]["how"] = h
                        yield c


PROP = Prop()
