"""C16: recycling positional encodings stay at frame index modulo table size through any history."""
import copy

import torch

from sim.core import InvalidCase, derive
from sim.env import library
from sim.faults import EXC, INJECTED, FaultMode
from sim.nets import init_weights
from sim.stream import StreamProp, new_seed
from sim.world import World, deep_clone, make_frame, same_values, through_disk


class Prop(StreamProp):
    ID = "C16"
    RUNS = {"quick": 5000, "thorough": 60000}
    PROBES = ["wraps", "wraps_in_chunk", "clips", "previews", "fault_crash_restart", "op_clean", "functional_steps", "fault_fired", "passed_steps",
              "kept_position"]
    RULE = ("runs are drawn from the seed: table size, dimensions, learned or static table, alone or inside a network, and a random history of "
            "steps, chunks, previews, clips, aborted calls, cleans, snapshots, crashes and explicit-state steps; non-trivial if the position "
            "wrapped around")
    STATE_MEASURE = "hash of (table size, position, operation, chunk length, wrapped or not)"

    def generate(self, rng, tier, index):
        n = rng.choice([2, 3, 4, 5, 7, 8, 12, 16, 31]) if rng.random() > 0.04 else rng.randint(32, 140)
        e = rng.choice([1, 2, 3, 4, 6]) if rng.random() > 0.06 else rng.randint(7, 12)
        learned = e % 2 == 1 or rng.random() < 0.6
        case = dict(n=n, e=e, learned=learned, fu=rng.choice([0, 1, 1, 2, n - 1, n, n + 3]), B=rng.randint(1, 3), ws=new_seed(rng),
                    wrap=rng.choice([None, None, "seq", "br"]), dtype="f32" if rng.random() < 0.15 else "f64")
        ops, snaps = [], False
        for _ in range(rng.randint(6, 60 if tier == "quick" else 150)):
            r = rng.random()
            op = {"s": new_seed(rng)}
            if r < 0.3:
                op.update(o="step")
            elif r < 0.52:
                op.update(o="chunk", n=rng.choice([1, n, n - 1, rng.randint(1, n)]), pe=rng.random() < 0.1)
            elif r < 0.62:
                op.update(o="clip", n=rng.randint(1, n))
                if case["wrap"] is None and rng.random() < 0.5:
                    op["u"] = rng.choice([0, 0, 1, 2, n, n + 1, 3 * n + 2])
            elif r < 0.72:
                op.update(o="peek", n=rng.choice([0, 0, rng.randint(1, n)]))
            elif r < 0.80:
                op.update(o="fstep", k=rng.randrange(2))
            elif r < 0.85:
                op.update(o="fault", mode=rng.choice(["forward", "forward_step", "forward_steps", "peek_step", "peek_steps"]),
                          n=rng.randint(1, n), at=rng.randint(1, 12), when=rng.choice(["before", "after"]),
                          exc=rng.choice(sorted(EXC)), rec=rng.choice(["clean", "set"]))
            elif r < 0.89:
                op.update(o="clean")
            elif r < 0.93:
                op.update(o="snap")
                snaps = True
            elif r < 0.97 and snaps:
                op.update(o="restore", crash=rng.random() < 0.5)
            else:
                op.update(o="swap", k=rng.randrange(2))
            if op["o"] in ("step", "chunk", "clip", "peek") and rng.random() < 0.15:
                op["via"] = rng.randint(1, 2)
            if op["o"] in ("step", "chunk", "clip", "peek") and rng.random() < 0.15:
                op["B"] = rng.randint(1, 4)
            ops.append(op)
        return {**case, "ops": ops}

    def signature(self, case):
        return [[case[k] for k in ("n", "e", "learned", "fu", "wrap", "dtype")],
                [[o["o"], o.get("n"), o.get("u"), o.get("via"), o.get("k"), o.get("mode"), o.get("at")] for o in case["ops"]]]

    def shrink(self, case):
        for key, v in (("wrap", None), ("B", 1), ("dtype", "f64"), ("fu", 1)):
            if case[key] != v:
                yield {**case, key: v}
        for i, op in enumerate(case["ops"]):
            for key in ("via", "B", "pe"):
                if op.get(key):
                    c = copy.deepcopy(case)
                    del c["ops"][i][key]
                    yield c
            if op.get("n", 0) > 1 and op["o"] == "chunk":
                c = copy.deepcopy(case)
                c["ops"][i]["n"] = op["n"] - 1
                yield c

    # ---------------------------------------------------------------------------------

    def make(self, case, ws):
        co = library()
        rpe = co.RecyclingPositionalEncoding(case["e"], case["n"], learned=case["learned"], forward_update_index_steps=case["fu"])
        if case["wrap"] == "seq":
            net = co.Sequential(co.Lambda(lambda x: x * 0.5), rpe, co.Add(1.0))
        elif case["wrap"] == "br":
            net = co.BroadcastReduce(co.Identity(), rpe, reduce="sum")
        else:
            net = rpe
        net = net.double() if case["dtype"] == "f64" else net
        init_weights(net, ws)
        return net.eval(), rpe

    def execute(self, case, log):
        w = _W(case, log, self)
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            w.one(op)
        w.op_index = -1


class _W(World):
    def __init__(self, case, log, prop):
        self.case, self.log, self.prop = case, log, prop
        self.co = library()
        self.spec = {"t": "rpe"}
        self.dtype = torch.float64 if case["dtype"] == "f64" else torch.float32
        self.tol = 1e-8 if case["dtype"] == "f64" else 2e-5
        self.op_index = -1
        self.net, rpe = self.legal("build", lambda: prop.make(case, case["ws"]))
        self.table = (rpe.pe.weight if case["learned"] else rpe.pe.pattern).detach().clone()
        if tuple(self.table.shape) != (case["n"], case["e"]):
            raise InvalidCase("table")
        self.pos, self.snap, self.f, self.parked = 0, None, {}, {}

    def tolerance(self):
        return self.tol

    def enc(self, x, pos):
        """The reference: one embedding per frame, looked up by its position."""
        fr = [self.table[(pos + t) % self.case["n"]].unsqueeze(0) for t in range(x.shape[2])]
        p = torch.stack(fr, 2)
        return {None: lambda: x + p, "seq": lambda: x * 0.5 + p + 1.0, "br": lambda: x + (x + p)}[self.case["wrap"]]()

    def x(self, op, n):
        return torch.stack([make_frame(derive(op["s"], i), [op.get("B", self.case["B"]), self.case["e"]], self.dtype) for i in range(n)], 2)

    def advance(self, k):
        n = self.case["n"]
        if self.pos % n + k >= n:
            self.log.hit("wraps")
            self.log.hit("nontrivial")
            if k > 1 and self.pos % n + k > n:
                self.log.hit("wraps_in_chunk")
        self.pos += k
        self.log.sim_steps += k

    def position(self):
        return self.pos

    def one(self, op):
        o, log = op["o"], self.log
        k = op.get("n", 0) or 1
        before = deep_clone(self.net.get_state())
        log.hit("op_" + o)
        log.states.add(derive(repr((self.case["n"], self.case["wrap"], self.pos % self.case["n"], self.pos >= self.case["n"], o, op.get("n"), op.get("u")))))
        if o == "step":
            x = self.x(op, 1)
            got = self.legal("forward_step", lambda: self.invoke("forward_step", x[:, :, 0].clone(), op.get("via", 0)))
            self.check(got, self.enc(x, self.pos)[:, :, 0], f"forward_step at frame {self.pos}")
            self.advance(1)
        elif o == "chunk":
            x = self.x(op, k)
            kw = {"pad_end": True} if op.get("pe") else {}
            got = self.legal("forward_steps", lambda: self.invoke("forward_steps", x.clone(), op.get("via", 0), **kw))
            self.check(got, self.enc(x, self.pos), f"forward_steps of {k} frames from frame {self.pos}")
            self.advance(k)
        elif o == "clip":
            x = self.x(op, k)
            kw = {} if op.get("u") is None else {"update_index_steps": op["u"]}
            got = self.legal("forward", lambda: self.invoke("forward", x.clone(), op.get("via", 0), **kw))
            self.check(got, self.enc(x, self.pos), f"forward of {k} frames at position {self.pos}", "clip")
            u = op.get("u")
            if u is not None:
                log.hit("passed_steps")
            if (self.case["fu"] if u is None else u) == 0:
                log.hit("kept_position")
            self.advance(self.case["fu"] if u is None else u)
            log.hit("clips")
        elif o == "peek":
            x = self.x(op, k)
            if op["n"]:
                got = self.legal("preview", lambda: self.invoke("forward_steps", x.clone(), op.get("via", 0), update_state=False))
                self.check(got, self.enc(x, self.pos), f"preview of {k} frames at frame {self.pos}", "preview")
            else:
                got = self.legal("preview", lambda: self.invoke("forward_step", x[:, :, 0].clone(), op.get("via", 0), update_state=False))
                self.check(got, self.enc(x, self.pos)[:, :, 0], f"preview at frame {self.pos}", "preview")
            if not same_values(before, self.net.get_state()):
                self.fail("preview-state", "a preview moved the position")
            log.hit("previews")
        elif o == "fstep":
            x = self.x(op, 1)
            st, pos = self.f.get(op["k"], (None, 0))
            got, st = self.legal("_forward_step", lambda: self.net._forward_step(x[:, :, 0].clone(), prev_state=st))
            self.check(got, self.enc(x, pos)[:, :, 0], f"explicit-state step {pos}")
            self.f[op["k"]] = (st, pos + 1)
            if not same_values(before, self.net.get_state()):
                self.fail("module-state", "an explicit-state step changed the state held by the module")
            log.hit("functional_steps")
        elif o == "fault":
            self.fault(op, before)
        elif o == "clean":
            self.legal("clean_state", self.net.clean_state)
            self.pos = 0
        elif o == "snap":
            self.snap = (through_disk(deep_clone(self.net.get_state())), self.pos)
        elif o == "restore":
            if self.snap is None:
                return
            if op.get("crash"):
                sd = through_disk(self.net.state_dict())
                self.net, _ = self.prop.make(self.case, derive(self.case["ws"], "other"))
                self.legal("load_state_dict", lambda: self.net.load_state_dict(sd))
                log.hit("fault_crash_restart")
            self.load_state(self.snap[0])
            self.pos = self.snap[1]
        elif o == "swap":
            mine = (deep_clone(before), self.pos)
            st, self.pos = self.parked.get(op["k"], (None, 0))
            self.parked[op["k"]] = mine
            self.load_state(st)
        log.ev(o, self.pos % self.case["n"])

    def fault(self, op, before):
        x = self.x(op, op["n"])
        mode = {"peek_step": "forward_step", "peek_steps": "forward_steps"}.get(op["mode"], op["mode"])
        kw = {"update_state": False} if op["mode"].startswith("peek") else {}
        inp = x[:, :, 0].clone() if mode == "forward_step" else x
        m = FaultMode(op["at"], op["when"], op["exc"])
        try:
            with m:
                self.legal(mode, lambda: getattr(self.net, mode)(inp, **kw))
        except INJECTED:
            pass
        if m.fired:
            self.log.hit("fault_fired")
            if kw:
                if not same_values(before, self.net.get_state()):
                    self.fail("preview-state", "an aborted preview moved the position")
            elif op["rec"] == "clean":
                self.legal("clean_state", self.net.clean_state)
                self.pos = 0
            else:
                self.load_state(before)
        elif not kw:
            self.advance({"forward": self.case["fu"], "forward_step": 1, "forward_steps": op["n"]}[mode])


PROP = Prop()
