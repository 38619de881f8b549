"""Shared behaviour of the stream-based properties: operation generators and shrinking."""
import copy

from . import specs
from .core import derive
from .nets import BOOMS, clip_need, spec_timing, walk
from .world import World


def flags_of(spec):
    return sorted({m["flag"] for m in walk(spec) if m["t"] == "cond"})


def fails_of(spec):
    r = {m["flag"] for m in walk(spec) if m["t"] == "fail"}
    r |= {"predboom" for m in walk(spec) if m["t"] == "cond"}
    r |= {"redboom" for m in walk(spec) if m.get("red") == "mean"}
    return sorted(r)


PLAIN = ("act", "lam", "lam3", "pyfn", "add", "mulc", "ident", "fail")


def refuses(spec, kind):
    """Does a malformed frame reach, in the same call, a layer that declares its channels?"""
    t = spec["t"]
    if t in ("conv", "rnn", "somha", "rmha", "tenc"):
        return True
    if t == "lin":
        return kind == "channels"
    if t == "seq":
        for m in spec["m"]:
            if m["t"] not in PLAIN or m.get("name") in ("softmax", "logsoftmax"):
                return refuses(m, kind)
        return False
    if t in ("br", "bpr"):
        tm = [spec_timing(m) for m in spec["m"]]
        d = max(r - 1 - p for r, _, p in tm)
        return any(refuses(m, kind) for m, (r, _, p) in zip(spec["m"], tm) if r - 1 - p == d)
    if t == "res":
        return refuses(spec["m"], kind)
    return False


def new_seed(rng):
    return rng.randrange(1 << 30)


def marathon(rng, tier, g, ops, p, ultra=0.0):
    """Now and then a stream runs much longer than any counter of a few bits can count."""
    r = rng.random()
    if r >= p or any(m["t"] == "rpe" for m in walk(g.spec)):
        return
    n = 33000 if tier == "thorough" and r < ultra else rng.randint(130, 280)
    ops.append(g.chunk(n=n))
    ops.extend(g.feed() for _ in range(3))


class OpGen:
    def __init__(self, rng, spec, shape, styles=(0,), via=0.1, max_chunk=None, layouts=0.1, own=0, flips=0.25):
        self.rng, self.spec, self.shape = rng, spec, shape
        self.flags = flags_of(spec)
        self.styles, self.via, self.layouts, self.own, self.flips = styles, via, layouts, own, flips
        self.rf = min(spec_timing(spec)[0], 14)
        self.max_chunk = max_chunk or self.rf + 4
        # positional encodings refuse chunks longer than their table
        self.max_chunk = min([self.max_chunk] + [m["n"] for m in walk(spec) if m["t"] == "rpe"])
        # a flush makes chunks longer than the caller can see, also for inner positional encodings
        self.no_flush = spec["t"] != "rpe" and any(m["t"] == "rpe" for m in walk(spec))
        self.cur = {f: rng.random() < 0.5 for f in self.flags}

    def _common(self, op):
        rng = self.rng
        op["s"] = new_seed(rng)
        if len(self.styles) > 1:
            y = rng.choice(self.styles)
            if y:
                op["y"] = y
        elif self.styles[0]:
            op["y"] = self.styles[0]
        if self.flags:
            for f in self.flags:
                if rng.random() < self.flips:
                    self.cur[f] = not self.cur[f]
            op["f"] = dict(self.cur)
        if rng.random() < self.via:
            op["via"] = rng.randint(1, 2)
        if rng.random() < self.layouts:
            op["ly"] = 3 if op.get("y") in (2, 3) and rng.random() < 0.6 else rng.choice((1, 2, 4, 5))
        if self.own:
            op["own"] = self.own() if callable(self.own) else self.own
        return op

    def step(self):
        return self._common({"o": "step"})

    def chunk(self, pe=False, n=None):
        op = self._common({"o": "chunk", "n": n or self.size()})
        if pe and not self.no_flush:
            op["pe"] = True
        return op

    def size(self):
        r = self.rng.random()
        if r < 0.3:
            return self.rng.randint(1, 2)
        return self.rng.randint(1, self.max_chunk)

    def feed(self):
        return self.step() if self.rng.random() < 0.5 else self.chunk()

    def peek(self):
        op = {"o": "peek"}
        if self.rng.random() < 0.5:
            op["n"] = self.size()
            if self.rng.random() < 0.3 and not self.no_flush:
                op["pe"] = True
        return self._common(op)

    def clip(self, shape=True):
        op = self._common({"o": "clip", "n": clip_need(self.spec) + self.rng.randint(0, 5)})
        if shape and self.rng.random() < 0.4:
            sh = list(self.shape)
            sh[0] = self.rng.randint(1, 3)
            op["shape"] = sh
        return op

    def fault(self, kinds=("step", "chunk", "peek", "clip")):
        rng = self.rng
        kind = rng.choice(kinds)
        if kind == "clean":
            inner = {"o": "clean"}
        elif kind == "fstep":
            inner = {**self.step(), "o": "fstep", "k": rng.randrange(2)}
        else:
            inner = {"step": self.step, "chunk": self.chunk, "peek": self.peek, "clip": self.clip}[kind]()
        inner.pop("own", None)
        op = {"o": "fault", "op": inner, "n": rng.randint(1, 4) if rng.random() < 0.4 else rng.randint(1, 40),
              "when": rng.choice(["before", "after"]), "exc": rng.choice(["oom", "oom", "kbd", "io", "val", "idx", "ker"])}
        booms = fails_of(self.spec)
        if booms and rng.random() < 0.5:
            op["boom"], op["bexc"] = rng.choice(booms), rng.choice(sorted(BOOMS))
        return op

    def bad(self, modes=("step", "chunk", "clip")):
        """A malformed input: wrong number of channels or wrong rank. None if the network has no opinion."""
        rng = self.rng
        mode = rng.choice(modes)
        full = list(self.shape) if mode == "step" else [*self.shape[:2], clip_need(self.spec) + rng.randint(0, 2), *self.shape[2:]]
        kind = rng.choice(["channels", "channels", "rank+", "rank-"])
        if not refuses(self.spec, kind):
            return None
        if kind == "channels":
            full[1] = 1 if full[1] > 1 and rng.random() < 0.3 else full[1] + rng.randint(1, 2)
        elif kind == "rank+":
            full = [*full, rng.randint(1, 2)]
        else:
            full = full[:-1]
        return {"o": "bad", "mode": mode, "bshape": full, "s": new_seed(rng)}


def simpler_specs(s):
    """Candidate simplifications of a spec."""
    t = s["t"]
    if t in ("seq",) and not s.get("lock"):
        if len(s["m"]) > 1:
            for i in range(len(s["m"])):
                c = copy.deepcopy(s)
                del c["m"][i]
                c.pop("append", None)
                yield c
        elif len(s["m"]) == 1:
            yield copy.deepcopy(s["m"][0])
        for key in ("append", "named"):
            if s.get(key):
                c = copy.deepcopy(s)
                c[key] = 0
                yield c
    if t == "br" or t == "bpr":
        if len(s["m"]) > 2 and s.get("disp") is None and s.get("red") != "concat":
            for i in range(len(s["m"])):
                c = copy.deepcopy(s)
                del c["m"][i]
                yield c
        for m in s["m"]:
            yield copy.deepcopy(m)
        if s.get("disp") is not None:
            c = copy.deepcopy(s)
            c["disp"] = c["post"] = None
            yield c
        for i, m in enumerate(s["m"]):
            for q in simpler_specs(m):
                if spec_timing(q) == spec_timing(m):
                    c = copy.deepcopy(s)
                    c["m"][i] = q
                    yield c
    if t == "res":
        yield copy.deepcopy(s["m"])
        for q in simpler_specs(s["m"]):
            if spec_timing(q) == spec_timing(s["m"]):
                yield {**copy.deepcopy(s), "m": q}
    if t == "cond":
        yield copy.deepcopy(s["a"])
        if s.get("b") is not None:
            yield copy.deepcopy(s["b"])
    if t == "seq" and s.get("lock") in (None, False, "shape"):
        for i, m in enumerate(s["m"]):
            if s.get("lock") and m["t"] != "seq":
                continue
            for q in simpler_specs(m):
                c = copy.deepcopy(s)
                c["m"][i] = q
                yield c


def shrink_ops(case):
    ops = case["ops"]
    for i, op in enumerate(ops):
        for key in ("via", "ly", "y", "pe", "copy", "shape"):
            if op.get(key):
                c = copy.deepcopy(case)
                del c["ops"][i][key]
                yield c
        if op.get("n", 0) > 1 and op["o"] == "chunk":
            for n in (1, op["n"] // 2, op["n"] - 1):
                if 0 < n < op["n"]:
                    c = copy.deepcopy(case)
                    c["ops"][i]["n"] = n
                    yield c
        if op["o"] == "fault" and op["n"] > 1:
            for n in (1, op["n"] // 2, op["n"] - 1):
                if 0 < n < op["n"]:
                    c = copy.deepcopy(case)
                    c["ops"][i]["n"] = n
                    yield c


def mixed_spec(rng, leaf=0.35, special=0.2, ceil=True, **opt):
    """A single temporal module, an attention/recurrent/positional module, or a composed network."""
    r = rng.random()
    rpe = opt.pop("rpe", 0.0)
    if r < leaf:
        nd = specs.pick(rng, 1, 1, 2, 3)
        sp = specs.spatial(rng, nd, 3, 4)
        spec = specs.leaf_temporal(rng, nd, sp)
        return spec, [specs.batch(rng), specs.in_channels(spec, rng.randint(1, 3)), *sp]
    if r < leaf + special:
        C = rng.choice([2, 4]) if rng.random() > 0.05 else rng.choice([6, 8])
        env = specs.Env(rng, 1, C, [])
        cands = [specs.attn_unit(env, True), specs.rnn_unit(env)]
        if rpe:
            cands.append(dict(t="rpe", e=C, n=specs.upto(rng, 2, 6, 20), learned=rng.random() < 0.6))
        return rng.choice(cands), [specs.batch(rng), C]
    return specs.net(rng, attn=0.2, rpe=rpe, **opt)


class StreamProp:
    """A property decided by driving a World with generated operations."""

    ID = "?"
    OP_FIELDS = ["ops"]

    def generate(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, case, log):
        World(case, log).run()

    def signature(self, case):
        """What makes a run distinct: the network and the shape of the history."""
        return [case.get("spec"), case.get("dtype"), case.get("train"),
                [[o["o"], o.get("n"), o.get("pe"), o.get("via"), o.get("f"), o.get("k"), o.get("to"),
                  (o.get("op") or {}).get("o")] for o in case.get("ops", [])]]

    def shrink(self, case):
        if case["shape"][0] > 1 and not any(o.get("shape") or o.get("rows") is not None for o in case["ops"]):
            c = copy.deepcopy(case)
            c["shape"][0] = 1
            yield c
        for s in simpler_specs(case["spec"]):
            yield {**copy.deepcopy(case), "spec": s}
        for key in ("train", "grad", "inf"):
            if case.get(key):
                yield {**copy.deepcopy(case), key: False}
        yield from shrink_ops(case)


def base_case(rng, spec, shape, f32=0.12, train=0.25, grad=0.15, inf=0.12):
    c = dict(spec=spec, shape=shape, ws=new_seed(rng), dtype="f32" if rng.random() < f32 else "f64")
    trainable = all(m["t"] not in ("bn", "tenc", "somha", "rmha") and not (m["t"] == "act" and m["name"] == "dropout") for m in walk(spec))
    if trainable and rng.random() < train:
        c["train"] = True
    if rng.random() < grad:
        c["grad"] = True
    elif rng.random() < inf:
        c["inf"] = rng.choice([1, 1, rng.randint(2, 9)])
    return c


__all__ = ["StreamProp", "OpGen", "base_case", "marathon", "new_seed", "derive"]
