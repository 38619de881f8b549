"""C13: recurrent modules against the ordinary recurrent network on the uninterrupted sequence."""
import copy

import torch
from torch import nn

from sim.core import derive
from sim.env import library
from sim.faults import EXC, INJECTED, FaultMode
from sim.nets import init_weights
from sim.specs import batch, upto
from sim.stream import StreamProp, new_seed
from sim.world import World, deep_clone, make_frame, same_values, through_disk

PLAIN = {"rnn": nn.RNN, "gru": nn.GRU, "lstm": nn.LSTM}


class Prop(StreamProp):
    ID = "C13"
    RUNS = {"quick": 4000, "thorough": 40000}
    PROBES = ["initial_states", "reported_states", "previews", "clips", "clips_with_state", "swaps", "functional_steps", "fault_crash_restart",
              "fault_fired", "converted"]
    RULE = ("runs are drawn from the seed: kind, layers, sizes, bias, nonlinearity, projection, and a random history of user-set initial "
            "states, steps, chunks, previews, clips with and without initial state, aborted calls, stream swaps, crashes with snapshots; "
            "non-trivial if an output of a stream with at least two calls was judged")
    STATE_MEASURE = "hash of (kind, layers, projection, operation, chunk length, frames since the start up to 12, initial state set or not)"

    def generate(self, rng, tier, index):
        kind = rng.choice(["rnn", "gru", "lstm"])
        h = upto(rng, 1, 5, 12)
        case = dict(kind=kind, ci=upto(rng, 1, 4, 9), h=h, layers=upto(rng, 1, 3, 5) if rng.random() < 0.6 else 1, bias=rng.random() < 0.75, B=batch(rng),
                    nonlin=rng.choice(["tanh", "relu"]), proj=rng.randint(1, h - 1) if kind == "lstm" and h > 1 and rng.random() < 0.4 else 0,
                    drop=0.3 if rng.random() < 0.15 else 0.0, conv=rng.random() < 0.3, wrap=rng.choice([None, None, None, "seq"]),
                    train=rng.random() < 0.2, grad=rng.random() < 0.15, ws=new_seed(rng), dtype="f32" if rng.random() < 0.15 else "f64")
        if case["drop"]:
            case["train"] = False
        ops, snap = [], False
        for _ in range(rng.randint(4, 24 if tier == "quick" else 60)):
            r = rng.random()
            op = {"s": new_seed(rng)}
            if r < 0.26:
                op.update(o="step")
            elif r < 0.46:
                op.update(o="chunk", n=rng.randint(1, 8), pe=rng.random() < 0.1)
            elif r < 0.56:
                op.update(o="init", how=rng.randint(0, 1), B=rng.randint(1, 3), y=rng.choice([0, 0, 0, 2]))
            elif r < 0.64:
                op.update(o="peek", n=rng.choice([0, 0, 1, 3]))
            elif r < 0.71:
                op.update(o="clip", n=rng.randint(1, 6), h0=rng.random() < 0.6, B=rng.randint(1, 3))
            elif r < 0.78:
                op.update(o="swap", to=rng.randrange(3), B=rng.randint(1, 3))
            elif r < 0.84:
                op.update(o="fstep", k=rng.randrange(2))
            elif r < 0.88:
                op.update(o="fault", mode=rng.choice(["step", "chunk", "peek", "clip"]), at=rng.randint(1, 10), n=rng.randint(1, 3),
                          when=rng.choice(["before", "after"]), exc=rng.choice(sorted(EXC)))
            elif r < 0.91:
                op.update(o="clean", B=rng.randint(1, 3))
            elif r < 0.95:
                op.update(o="snap")
                snap = True
            elif snap:
                op.update(o="restore", crash=rng.random() < 0.5)
            else:
                op.update(o="step")
            if op["o"] in ("step", "chunk", "peek") and rng.random() < 0.12:
                op["via"] = rng.randint(1, 2)
            if op["o"] in ("step", "chunk") and rng.random() < 0.2:
                op["ly"] = rng.choice((1, 2, 4, 5))
            ops.append(op)
        if rng.random() < 0.03:  # longer than any counter of a few bits can count
            ops.insert(rng.randint(0, len(ops)), {"o": "chunk", "n": rng.randint(130, 280), "s": new_seed(rng)})
        if not case.get("grad") and rng.random() < 0.12:
            case["inf"] = rng.choice([1, 1, rng.randint(2, 9)])
        return {**case, "ops": ops}

    def signature(self, case):
        return [[case[k] for k in ("kind", "ci", "h", "layers", "bias", "nonlin", "proj", "drop", "conv", "wrap", "B", "dtype")],
                [[o["o"], o.get("n"), o.get("how"), o.get("h0"), o.get("to"), o.get("via"), o.get("mode"), o.get("at")] for o in case["ops"]]]

    def shrink(self, case):
        for key, v in (("wrap", None), ("B", 1), ("dtype", "f64"), ("conv", False), ("drop", 0.0), ("train", False), ("grad", False), ("inf", 0),
                       ("layers", 1), ("proj", 0), ("ci", 1), ("bias", True)):
            if case.get(key, v) != v:
                yield {**case, key: v}
        for i, op in enumerate(case["ops"]):
            for key in ("via", "ly", "pe"):
                if op.get(key):
                    c = copy.deepcopy(case)
                    del c["ops"][i][key]
                    yield c
            if op.get("n", 0) > 1:
                c = copy.deepcopy(case)
                c["ops"][i]["n"] = 1
                yield c

    def execute(self, case, log):
        w = _W(case, log)
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            w.one(op)
        w.op_index = -1
        for h, keep in w.given:
            if not same_values(h, keep):
                w.fail("input-modified", "an initial state set by the user was modified")


class _W(World):
    def __init__(self, case, log):
        self.case, self.log = case, log
        self.co = library()
        self.spec = {"t": "rnn"}
        self.dtype = torch.float64 if case["dtype"] == "f64" else torch.float32
        self.tol = 1e-8 if case["dtype"] == "f64" else 5e-5
        self.op_index = -1
        kw = dict(num_layers=case["layers"], bias=case["bias"], dropout=case["drop"])
        if case["kind"] == "rnn":
            kw["nonlinearity"] = case["nonlin"]
        if case["kind"] == "lstm" and case["proj"]:
            kw["proj_size"] = case["proj"]
        self.plain = PLAIN[case["kind"]](case["ci"], case["h"], batch_first=True, **kw).to(self.dtype)
        init_weights(self.plain, case["ws"], 1.0)
        self.kw = kw
        self.net = self.build()
        self.plain.eval()
        self.items, self.h0, self.B, self.snapshot = [], None, case["B"], None
        self.parked, self.cur, self.f, self.given, self.calls = {}, 0, {}, [], 0
        self.kept = []

    def build(self):
        case, co = self.case, self.co

        def make():
            if case["conv"]:
                net = co.continual(self.plain)
                self.log.hit("converted")
            else:
                net = {"rnn": co.RNN, "gru": co.GRU, "lstm": co.LSTM}[case["kind"]](case["ci"], case["h"], **self.kw).to(self.dtype)
                net.load_state_dict(self.plain.state_dict())
            self.rnn = net
            if case["wrap"] == "seq":
                net = co.Sequential(net, co.Add(0.5))
            return net.train(bool(case["train"]))

        return self.legal("build", make)

    def tolerance(self):
        return self.tol

    def post(self, y):
        return y + 0.5 if self.case["wrap"] == "seq" else y

    def reference(self, xs, h0):
        """The ordinary network on the uninterrupted sequence: outputs (B, C, T) and final state."""
        with torch.no_grad():
            y, h = self.plain(torch.stack(xs, 1), h0)
        return self.post(y.transpose(1, 2)), h

    def frames(self, op, n, B):
        return [make_frame(derive(op["s"], i), [B, self.case["ci"]], self.dtype) for i in range(n)]

    def hidden(self, seed, B, y=0):
        c = self.case
        h = make_frame(derive(seed, "h"), [c["layers"], B, c["proj"] or c["h"]], self.dtype, y)
        return h if c["kind"] != "lstm" else (h, make_frame(derive(seed, "c"), [c["layers"], B, c["h"]], self.dtype, y))

    def as_state(self, h):
        return h if isinstance(h, tuple) else (h,)

    def state(self):
        return self.rnn.get_state()

    def judge_state(self):
        st = self.state()
        if not self.items and self.h0 is None:
            if st is not None:
                self.fail("state", "a state is reported although no frame was fed")
            return
        exp = self.reference(self.items, self.h0)[1] if self.items else self.h0
        self.check(tuple(st) if st is not None else None, self.as_state(exp), f"reported state after {len(self.items)} frames", "state")
        self.log.hit("reported_states")

    def one(self, op):  # noqa: C901
        o, log, c = op["o"], self.log, self.case
        log.hit("op_" + o)
        log.states.add(derive(repr((c["kind"], c["layers"], bool(c["proj"]), o, op.get("n"), min(len(self.items), 12), self.h0 is None))))
        before = deep_clone(self.state())
        if o in ("step", "chunk", "peek"):
            n = op.get("n", 0) or 1
            xs = self.frames(op, n, self.B)
            y, _ = self.reference(self.items + xs, self.h0)
            chunk = o == "chunk" or (o == "peek" and op["n"])
            exp = y[:, :, -n:] if chunk else y[:, :, -1]
            inp = torch.stack(xs, 2) if chunk else xs[0].clone()
            keep = inp.clone()
            buf = self.layout(inp, op.get("ly", 0))
            kw = {"pad_end": True} if op.get("pe") else {}
            if o == "peek":
                kw["update_state"] = False
            mode = "forward_steps" if chunk else "forward_step"
            got = self.legal(mode, lambda: self.invoke(mode, buf, op.get("via", 0), **kw))
            self.check(got, exp, f"{mode}({n}) after {len(self.items)} frames", "preview" if o == "peek" else "mismatch")
            if not same_values(buf, keep):
                self.fail("input-modified", "the passed frames were modified")
            self.kept.append((got.detach(), got.detach().clone()))
            if o == "peek":
                if not same_values(before, self.state()):
                    self.fail("preview-state", "a preview changed the state")
                log.hit("previews")
            else:
                if self.items:
                    log.hit("nontrivial")
                self.items += xs
                log.sim_steps += n
            log.ev(o, got)
        elif o == "init":
            B = op["B"]
            self.h0 = self.hidden(op["s"], B, op["y"])
            arg = deep_clone(self.h0)
            self.given.append((arg, deep_clone(self.h0)))
            give = arg if isinstance(arg, tuple) or op["how"] else (arg,)
            self.legal("set_state", lambda: self.rnn.set_state(give))
            self.items, self.B = [], B
            log.hit("initial_states")
        elif o == "clip":
            B = op["B"]
            xs = self.frames(op, op["n"], B)
            h0 = self.hidden(op["s"], B) if op["h0"] else None
            y, h = self.reference(xs, h0)
            x = torch.stack(xs, 2)
            keep = x.clone()
            if self.case["wrap"] == "seq":
                if h0 is not None:
                    return  # containers do not take an initial state
                got = self.legal("forward", lambda: self.net.forward(x))
                self.check(got, y, "forward of a clip", "clip")
            else:
                arg = deep_clone(h0)
                r = self.legal("forward", lambda: self.net.forward(x, arg) if h0 is not None else self.net.forward(x))
                if not (isinstance(r, tuple) and len(r) == 2):
                    self.fail("clip", "forward did not return (output, state)")
                got, hn = r
                self.check(got, y, "forward of a clip" + (" with initial state" if op["h0"] else ""), "clip")
                self.check(hn, h, "final state of a clip", "clip")
                if not same_values(arg, h0):
                    self.fail("input-modified", "the passed initial state was modified")
                if op["h0"]:
                    log.hit("clips_with_state")
            if not same_values(x, keep):
                self.fail("input-modified", "the passed clip was modified")
            if not same_values(before, self.state()):
                self.fail("clip-state", "evaluating a clip changed the state of the stream in flight")
            log.hit("clips")
            log.ev(o, got)
        elif o == "swap":
            if op["to"] == self.cur:
                return
            self.parked[self.cur] = (self.state(), self.items, self.h0, self.B)
            st, self.items, self.h0, self.B = self.parked.pop(op["to"], (None, [], None, op["B"]))
            self.cur = op["to"]
            self.legal("set_state", lambda: self.rnn.clean_state() if st is None else self.rnn.set_state(st))
            log.hit("swaps")
        elif o == "fstep":
            st, xs = self.f.get(op["k"], (None, []))
            x = self.frames(op, 1, c["B"])[0]
            y, h = self.reference(xs + [x], None)
            got, st = self.legal("_forward_step", lambda: self.net._forward_step(x.clone(), prev_state=st))
            self.check(got, y[:, :, -1], f"explicit-state step {len(xs)}")
            self.f[op["k"]] = (st, xs + [x])
            if not same_values(before, self.state()):
                self.fail("module-state", "an explicit-state step changed the state held by the module")
            log.hit("functional_steps")
        elif o == "fault":
            self.fault(op, before)
        elif o == "clean":
            self.legal("clean_state", self.net.clean_state)
            self.items, self.h0, self.B = [], None, op["B"]
        elif o == "snap":
            self.snapshot = (through_disk(deep_clone(self.state())), list(self.items), self.h0, self.B)
        elif o == "restore":
            if self.snapshot is None:
                return
            if op.get("crash"):
                sd = through_disk(self.net.state_dict())
                plain, self.plain = self.plain, copy.deepcopy(self.plain)
                init_weights(self.plain, derive(c["ws"], "other"))
                self.net = self.build()
                self.plain = plain
                self.legal("load_state_dict", lambda: self.net.load_state_dict(sd))
                log.hit("fault_crash_restart")
            st, items, self.h0, self.B = self.snapshot
            self.items = list(items)
            self.legal("set_state", lambda: self.rnn.clean_state() if st is None else self.rnn.set_state(deep_clone(st)))
        self.judge_state()
        for got, keep in self.kept[-8:]:
            if not same_values(got, keep):
                self.fail("output-changed", "an output returned earlier was changed by the library")

    def fault(self, op, before):
        mode = {"step": "forward_step", "chunk": "forward_steps", "peek": "forward_steps", "clip": "forward"}[op["mode"]]
        n = 1 if op["mode"] == "step" else op["n"]
        xs = self.frames(op, n, self.B)
        x = xs[0].clone() if op["mode"] == "step" else torch.stack(xs, 2)
        kw = {"update_state": False} if op["mode"] == "peek" else {}
        m = FaultMode(op["at"], op["when"], op["exc"])
        try:
            with m:
                self.legal(mode, lambda: getattr(self.net, mode)(x, **kw))
        except INJECTED:
            pass
        if m.fired:
            self.log.hit("fault_fired")
            if op["mode"] in ("peek", "clip"):
                if not same_values(before, self.state()):
                    self.fail("preview-state", f"an aborted {op['mode']} changed the state")
            elif before is None:
                self.legal("clean_state", self.net.clean_state)
            else:
                self.legal("set_state", lambda: self.rnn.set_state(before))
        elif op["mode"] in ("step", "chunk"):
            self.items += xs


PROP = Prop()
