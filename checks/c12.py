"""C12: streaming attention and transformer encoders against attention over the last window."""
import copy

import torch
import torch.nn.functional as F
from torch import nn

from sim.core import InvalidCase, derive
from sim.env import library
from sim.faults import EXC, INJECTED, FaultMode
from sim.nets import SPREAD, attend, init_weights
from sim.specs import batch, upto
from sim.stream import StreamProp, new_seed
from sim.world import World, deep_clone, make_frame, same_values, through_disk

ACT = {"relu": (F.relu, F.relu), "gelu": (F.gelu, F.gelu), "relu_s": ("relu", F.relu), "gelu_s": ("gelu", F.gelu)}


class Prop(StreamProp):
    ID = "C12"
    RUNS = {"quick": 3600, "thorough": 30000}
    PROBES = ["somha", "rmha", "solayer", "rlayer", "enc1", "enc2", "enc3", "separate_qkv", "other_dims", "previews", "clips", "functional_steps", "fault_fired",
              "fault_crash_restart", "layout_tne", "layout_nte", "layout_net", "converted", "full_windows", "attn_weights"]
    RULE = ("runs are drawn from the seed: module kind, embedding, heads, window, query position, layout, bias, activation, norm, separate or "
            "shared query/key/value, and a random history of steps, chunks, previews, clips, aborted calls, cleans, crashes with snapshots and "
            "explicit-state steps over several windows; non-trivial if an output for a full window was judged")
    STATE_MEASURE = "hash of (kind, layout, window, query position, operation, chunk length, frames since the start up to two windows)"

    def generate(self, rng, tier, index):
        kind = rng.choice(["somha", "somha", "rmha", "rmha", "solayer", "rlayer", "enc1", rng.choice(["enc2", "enc3"])])
        h = rng.choice([1, 1, 2, 3]) if rng.random() > 0.05 else rng.randint(4, 6)
        e = h * upto(rng, 1, 3, 7)
        L = rng.choice([2, 2, 3, 3, 4, 5, 6, 8]) if rng.random() > 0.05 else rng.randint(9, 20)
        case = dict(kind=kind, h=h, e=e, L=L, B=batch(rng), bias=rng.random() < 0.75, ws=new_seed(rng),
                    dtype="f32" if rng.random() < 0.12 else "f64", drop=rng.choice([0.0, 0.1]), train=False, grad=rng.random() < 0.1)
        if case["drop"] == 0.0 and rng.random() < 0.3:
            case["train"] = True
        if kind in ("somha", "rmha"):
            case["ly"] = rng.choice(["tne", "nte", "net"])
            case["ret"] = rng.random() < 0.5
            case["qkv"] = rng.choice([0, 0, 1, 1, 2])
            if case["qkv"] and rng.random() < 0.35:
                case["kd"] = rng.randint(1, 5)
                if case["qkv"] == 1:
                    case["vd"] = rng.choice([case["kd"], rng.randint(1, 5)])
        if kind in ("somha", "solayer"):
            case["q"] = rng.choice([-1, -1, 0, L - 1, rng.randrange(L), -rng.randint(1, L)])
            case["sof"] = rng.random() < 0.5
        if kind not in ("somha", "rmha"):
            case.update(ff=rng.randint(1, 6), act=rng.choice(sorted(ACT)), norm=kind.startswith("enc") and rng.random() < 0.4,
                        eps=rng.choice([1e-5, 1e-5, 1e-3]), conv=kind.startswith("enc") and rng.random() < 0.3)
            if kind in ("solayer", "rlayer") and case["act"].endswith("_s"):
                case["act"] = case["act"][:-2]
        retro = kind in ("rmha", "rlayer", "enc2", "enc3")  # running sums of exponentials: keep the logits in a sane range
        ops, snap, total, goal = [], False, 0, rng.randint(L, (5 if tier == "quick" else 12) * L + 4)
        while total < goal:
            r = rng.random()
            op = {"s": new_seed(rng), "y": rng.choice([0] * 9 + [2, 3] + ([0, 0] if retro else [4, 1]))}
            if r < 0.36:
                op.update(o="step")
                total += 1
            elif r < 0.62:
                op.update(o="chunk", n=rng.choice([1, L - 1, L, L + 1, rng.randint(1, 2 * L)]))
                total += op["n"]
            elif r < 0.70:
                op.update(o="peek", n=rng.choice([0, 0, 1, L]))
            elif r < 0.78:
                op.update(o="clip", n=rng.choice([L, L, L, rng.randint(1, 2 * L)]), B=rng.randint(1, 3))
                if case["kind"] not in ("somha", "rmha"):
                    op["n"] = max(L, op["n"])
            elif r < 0.84:
                op.update(o="fstep", k=rng.randrange(2))
            elif r < 0.87:
                op.update(o="fault", mode=rng.choice(["step", "chunk", "peek"]), at=rng.randint(1, 60), n=rng.randint(1, 3),
                          when=rng.choice(["before", "after"]), exc=rng.choice(sorted(EXC)))
            elif r < 0.90:
                op.update(o="clean", B=rng.randint(1, 3))
                total += 1
            elif r < 0.95:
                op.update(o="snap")
                snap = True
                total += 1
            elif snap:
                op.update(o="restore", crash=rng.random() < 0.5)
                total += 1
            else:
                op.update(o="step")
                total += 1
            if op["o"] in ("step", "chunk", "peek") and rng.random() < 0.1:
                op["via"] = rng.randint(1, 2)
            if op["o"] in ("step", "chunk") and rng.random() < 0.15:
                op["ly"] = rng.choice((1, 2, 4, 5))
            ops.append(op)
        if rng.random() < 0.03:  # longer than any counter of a few bits can count
            ops.insert(rng.randint(0, len(ops)), {"o": "chunk", "n": rng.randint(130, 280), "s": new_seed(rng), "y": 0})
        if not case.get("grad") and rng.random() < 0.12:
            case["inf"] = rng.choice([1, 1, rng.randint(2, 9)])
        return {**case, "ops": ops}

    def signature(self, case):
        return [{k: v for k, v in case.items() if k not in ("ops", "ws", "seed", "index")},
                [[o["o"], o.get("n"), o.get("via"), o.get("k"), o.get("mode"), o.get("at")] for o in case["ops"]]]

    def shrink(self, case):
        for key, v in (("kd", 0), ("vd", 0), ("qkv", 0), ("B", 1), ("dtype", "f64"), ("conv", False), ("drop", 0.0), ("train", False), ("grad", False), ("inf", 0), ("norm", False),
                       ("ly", "net"), ("q", -1), ("ret", False), ("bias", True)):
            if case.get(key, v) != v:
                yield {**case, key: v}
        if case["h"] > 1:
            yield {**case, "e": case["e"] // case["h"], "h": 1}
        if case["e"] > case["h"]:
            yield {**case, "e": case["h"]}
        if case["L"] > 2 and case.get("q", -1) == -1:
            yield {**case, "L": case["L"] - 1}
        for i, op in enumerate(case["ops"]):
            for key in ("via", "ly", "y"):
                if op.get(key):
                    c = copy.deepcopy(case)
                    del c["ops"][i][key]
                    yield c
            if op.get("n", 0) > 1 and op["o"] != "clip":
                c = copy.deepcopy(case)
                c["ops"][i]["n"] = op["n"] // 2 if op["n"] > 16 else op["n"] - 1
                yield c

    def execute(self, case, log):
        w = _W(case, log)
        log.hit(case["kind"])
        if case.get("ly"):
            log.hit("layout_" + case["ly"])
        if case.get("qkv"):
            log.hit("separate_qkv")
        if case.get("kd", case["e"]) != case["e"] or case.get("vd", case["e"]) != case["e"]:
            log.hit("other_dims")
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            w.one(op)
        w.op_index = -1


class _W(World):
    def __init__(self, case, log):
        self.case, self.log = case, log
        self.co = library()
        self.spec = {"t": case["kind"]}
        self.dtype = torch.float64 if case["dtype"] == "f64" else torch.float32
        self.tol = 1e-8 if case["dtype"] == "f64" else 2e-4
        self.op_index = -1
        SPREAD[0] = 0.0
        self.kind, self.L, self.E = case["kind"], case["L"], case["e"]
        self.scale = 0.5 if case["kind"] in ("rmha", "rlayer", "enc2", "enc3") else 0.8
        self.net = self.build(case["ws"])
        self.weights()
        self.items, self.B, self.snapshot, self.f, self.kept = [], case["B"], None, {}, []

    # -- building ---------------------------------------------------------------------------

    def build(self, ws):
        c, co = self.case, self.co

        def make():
            if self.kind in ("somha", "rmha"):
                kw = dict(dropout=c["drop"], bias=c["bias"], batch_first=c["ly"] != "tne", embed_dim_second=c["ly"] == "net", sequence_len=self.L,
                          forward_returns_attn_mask=c["ret"], kdim=c.get("kd") or None, vdim=c.get("vd") or None)
                if self.kind == "somha":
                    net = co.SingleOutputMultiheadAttention(self.E, c["h"], query_index=c["q"], single_output_forward=c["sof"], **kw)
                else:
                    net = co.RetroactiveMultiheadAttention(self.E, c["h"], **kw)
            else:
                kw = dict(d_model=self.E, nhead=c["h"], dim_feedforward=c["ff"], dropout=c["drop"], layer_norm_eps=c["eps"],
                          activation=ACT[c["act"]][0])
                if self.kind == "solayer":
                    net = co.SingleOutputTransformerEncoderLayer(sequence_len=self.L, query_index=c["q"], single_output_forward=c["sof"], **kw)
                elif self.kind == "rlayer":
                    net = co.RetroactiveTransformerEncoderLayer(sequence_len=self.L, **kw)
                else:
                    n = int(self.kind[-1])
                    norm = nn.LayerNorm(self.E) if c["norm"] else None
                    if c["conv"]:
                        plain = nn.TransformerEncoder(nn.TransformerEncoderLayer(batch_first=True, **kw), n, norm, enable_nested_tensor=False)
                        init_weights(plain, ws, self.scale)
                        net = co.TransformerEncoder.build_from(plain, self.L)
                        self.log.hit("converted")
                    else:
                        net = co.TransformerEncoder(co.TransformerEncoderLayerFactory(sequence_len=self.L, **kw), n, norm)
            net = net.to(self.dtype)
            if not c.get("conv"):
                init_weights(net, ws, self.scale)
            return net.train(bool(c["train"]))

        return self.legal("build", make)

    def weights(self):
        sd = {k: v.detach().clone() for k, v in self.net.state_dict().items()}
        if self.kind in ("somha", "rmha"):
            self.lay = [{"self_attn." + k: v for k, v in sd.items()}]
            self.mha = nn.MultiheadAttention(self.E, self.case["h"], bias=self.case["bias"], batch_first=True,
                                             kdim=self.case.get("kd") or None, vdim=self.case.get("vd") or None).to(self.dtype).eval()
            self.mha.load_state_dict(sd)
            return
        n = int(self.kind[-1]) if self.kind.startswith("enc") else 1
        self.lay, order, self.final = [{} for _ in range(n)], [], {}
        for k, v in sd.items():
            parts = k.split(".")
            i = next((i for i, q in enumerate(parts) if q in ("self_attn", "linear1", "linear2", "norm1", "norm2")), None)
            if i is None:
                self.final[parts[-1]] = v
                continue
            li = parts[parts.index("layers") + 1] if "layers" in parts else "0"
            if li not in order:
                order.append(li)
            self.lay[order.index(li)][".".join(q for q in parts[i:] if q != "fn")] = v
        if any(len(ly) != 12 for ly in self.lay):
            raise InvalidCase(f"unexpected parameters {list(sd)}")

    # -- the reference ------------------------------------------------------------------------

    def attention(self, ly, q, k, v, track):
        if "self_attn.in_proj_weight" not in ly:
            w = [ly[f"self_attn.{j}_proj_weight"] for j in "qkv"]
        else:
            w = ly["self_attn.in_proj_weight"]
        return attend(q, w, ly.get("self_attn.in_proj_bias"), ly["self_attn.out_proj.weight"],
                      ly.get("self_attn.out_proj.bias"), self.case["h"], k=k, v=v, track=track)

    def window(self, items):
        """All output positions of ordinary attention / encoder over these frames: (B, T, E)."""
        with torch.no_grad():
            q, k, v = [torch.stack([it[j] for it in items], 1) for j in range(3)]
            if self.kind in ("somha", "rmha"):
                return self.attention(self.lay[0], q, k, v, self.kind == "rmha")
            x, c = q, self.case
            for i, ly in enumerate(self.lay):
                retro = self.kind == "rlayer" or (self.kind in ("enc2", "enc3") and i == 0)
                x = F.layer_norm(x + self.attention(ly, x, x, x, retro), (self.E,), ly["norm1.weight"], ly["norm1.bias"], c["eps"])
                f = F.linear(ACT[c["act"]][1](F.linear(x, ly["linear1.weight"], ly["linear1.bias"])), ly["linear2.weight"], ly["linear2.bias"])
                x = F.layer_norm(x + f, (self.E,), ly["norm2.weight"], ly["norm2.bias"], c["eps"])
            if c["norm"]:
                x = F.layer_norm(x, (self.E,), self.final["weight"], self.final["bias"])
            return x

    def out(self, items):
        """What a step has to output, in the layout of the module; None before the window is full."""
        if len(items) < self.L:
            return None
        y = self.window(items[-self.L:])
        self.log.hit("full_windows")
        self.log.hit("nontrivial")
        if self.kind in ("somha", "solayer"):
            return y[:, self.case["q"]]
        if self.kind.startswith("enc"):
            return y[:, -1]
        if self.kind == "rlayer":
            return y.transpose(1, 2)
        return {"tne": lambda: y.transpose(0, 1), "nte": lambda: y, "net": lambda: y.transpose(1, 2)}[self.case["ly"]]()

    def outs(self, items, n):
        ys = [self.out(items[: len(items) - n + 1 + i]) for i in range(n)]
        ys = [y for y in ys if y is not None]
        if not ys:
            return None
        return torch.stack(ys, {"tne": 0, "nte": 1, "net": 2}[self.case.get("ly", "net")])

    def frames(self, op, n, B):
        c = self.case
        res = []
        for i in range(n):
            q = make_frame(derive(op["s"], i), [B, self.E], self.dtype, op.get("y", 0))
            k = make_frame(derive(op["s"], i, "k"), [B, c.get("kd") or self.E], self.dtype, op.get("y", 0)) if c.get("qkv") else q
            v = make_frame(derive(op["s"], i, "v"), [B, c.get("vd") or self.E], self.dtype) if c.get("qkv") == 1 else q
            res.append((q, k, v))
        return res

    def args(self, items, chunk, ly=0):
        dim = {"tne": 0, "nte": 1, "net": 2}[self.case.get("ly", "net")]
        n = {0: 1, 1: 3, 2: 2}[self.case.get("qkv", 0)]
        if chunk:
            return [self.layout(torch.stack([it[j] for it in items], dim), ly) for j in range(n)]
        return [self.layout(items[0][j].clone(), ly) for j in range(n)]

    def call(self, mode, args, via=0, **kw):
        if via == 1:
            with self.co.call_mode(mode):
                return self.net(*args, **kw)
        if via == 2:
            old = self.net.call_mode
            self.net.call_mode = mode
            try:
                return self.net(*args, **kw)
            finally:
                self.net.call_mode = old
        return getattr(self.net, mode)(*args, **kw)

    # -- operations ----------------------------------------------------------------------------

    def one(self, op):
        o, log, c = op["o"], self.log, self.case
        log.hit("op_" + o)
        log.states.add(derive(repr((self.kind, c.get("ly"), self.L, c.get("q"), o, op.get("n"), min(len(self.items), 2 * self.L)))))
        before = deep_clone(self.net.get_state())
        if o in ("step", "chunk", "peek"):
            n = op.get("n", 0) or 1
            xs = self.frames(op, n, self.B)
            chunk = o == "chunk" or (o == "peek" and op["n"])
            exp = self.outs(self.items + xs, n) if chunk else self.out(self.items + xs)
            args = self.args(xs, chunk, op.get("ly", 0))
            keep = deep_clone(args)
            mode = "forward_steps" if chunk else "forward_step"
            kw = {"update_state": False} if o == "peek" else {}
            got = self.legal(mode, lambda: self.call(mode, args, op.get("via", 0), **kw))
            got = None if isinstance(got, torch.Tensor) and got.numel() == 0 else got
            self.check(got, exp, f"{mode}({n}) after {len(self.items)} frames", "preview" if o == "peek" else "mismatch")
            if not same_values(args, keep):
                self.fail("input-modified", "the passed frames were modified")
            if o == "peek":
                if not same_values(before, self.net.get_state()):
                    self.fail("preview-state", "a preview changed the state")
                log.hit("previews")
            else:
                self.items += xs
                log.sim_steps += n
            if isinstance(got, torch.Tensor):
                self.kept.append((got.detach(), got.detach().clone()))
            log.ev(o, got)
        elif o == "clip":
            self.clip(op, before)
        elif o == "fstep":
            st, items = self.f.get(op["k"], (None, []))
            x = self.frames(op, 1, c["B"])
            items = items + x
            exp = self.out(items)
            args = self.args(x, False)
            if self.kind in ("somha", "rmha"):
                got, st = self.legal("_forward_step", lambda: self.net._forward_step(*args, prev_state=st))
            else:
                got, st = self.legal("_forward_step", lambda: self.net._forward_step(args[0], prev_state=st))
            self.check(got, exp, f"explicit-state step {len(items) - 1}")
            self.f[op["k"]] = (st, items)
            if not same_values(before, self.net.get_state()):
                self.fail("module-state", "an explicit-state step changed the state held by the module")
            log.hit("functional_steps")
            log.ev(o, got)
        elif o == "fault":
            self.fault(op, before)
        elif o == "clean":
            self.legal("clean_state", self.net.clean_state)
            self.items, self.B = [], op["B"]
        elif o == "snap":
            self.snapshot = (through_disk(deep_clone(self.net.get_state())), list(self.items), self.B)
        elif o == "restore":
            if self.snapshot is None:
                return
            if op.get("crash"):
                sd = through_disk(self.net.state_dict())
                self.net = self.build(derive(c["ws"], "other"))
                self.legal("load_state_dict", lambda: self.net.load_state_dict(sd))
                log.hit("fault_crash_restart")
            self.load_state(self.snapshot[0])
            self.items, self.B = list(self.snapshot[1]), self.snapshot[2]
        for got, keep in self.kept[-4:]:
            if not same_values(got, keep):
                self.fail("output-changed", "an output returned earlier was changed by the library")

    def clip(self, op, before):
        c, log = self.case, self.log
        xs = self.frames(op, op["n"], op["B"])
        y = self.window(xs)
        q = c.get("q", -1)
        if op["n"] < self.L and self.kind == "somha":
            if not (-op["n"] <= q < op["n"]):
                return
        if self.kind == "solayer" and op["n"] != self.L and c["sof"] and q >= 0:
            return  # the residual counts the query position from the end, the attention from the start
        if (self.kind in ("somha", "solayer") and c["sof"]) or self.kind in ("enc2", "enc3"):
            y = y[:, q].unsqueeze(1)
        got = self.legal("forward", lambda: self.call("forward", self.args(xs, True), op.get("via", 0)))
        if c.get("ret"):
            if not (isinstance(got, tuple) and len(got) == 2):
                self.fail("clip", "forward did not return (output, attention weights)")
            got, wts = got
            with torch.no_grad():
                a, b, v = [torch.stack([it[j] for it in xs], 1) for j in range(3)]
                a = a[:, q].unsqueeze(1) if self.kind == "somha" and c["sof"] else a
                self.check(wts, self.mha(a, b, v)[1], "attention weights of a clip", "clip")
            log.hit("attn_weights")
        exp = {"tne": lambda: y.transpose(0, 1), "nte": lambda: y, "net": lambda: y.transpose(1, 2)}[c.get("ly", "net")]()
        self.check(got, exp, f"forward of a clip of {op['n']} frames", "clip")
        if not same_values(before, self.net.get_state()):
            self.fail("clip-state", "evaluating a clip changed the state of the stream in flight")
        log.hit("clips")
        log.ev("clip", got)

    def fault(self, op, before):
        mode = "forward_step" if op["mode"] == "step" else "forward_steps"
        xs = self.frames(op, 1 if op["mode"] == "step" else op["n"], self.B)
        kw = {"update_state": False} if op["mode"] == "peek" else {}
        args = self.args(xs, op["mode"] != "step")
        m = FaultMode(op["at"], op["when"], op["exc"])
        try:
            with m:
                self.legal(mode, lambda: self.call(mode, args, **kw))
        except INJECTED:
            pass
        if m.fired:
            self.log.hit("fault_fired")
            if kw and not same_values(before, self.net.get_state()):
                self.fail("preview-state", "an aborted preview changed the state")
            if not kw:
                self.load_state(before)
        elif not kw:
            self.items += xs


PROP = Prop()
