"""C10: call modes, nested call-mode contexts, exceptions through them, explicit invocations and hooks."""
import copy

import torch

from sim import specs
from sim.core import Violation, rng_for
from sim.env import library
from sim.faults import EXC, INJECTED, FaultMode
from sim.nets import FLAGS, clip_exact, walk
from sim.stream import OpGen, StreamProp, new_seed, simpler_specs
from sim.world import World

MODES = ["forward", "forward_steps", "forward_step"]
HOOKS = ["count", "precount", "post", "pre", "pre1", "both", "global", "preglobal", "back", "backpre", "backboth", "backold",
         "globalback", "globalbackpre", "kwargs"]
BACK = ("back", "backpre", "backboth", "backold", "globalback", "globalbackpre")


class UserError(Exception):
    pass


class ModeWorld(World):
    """A network invoked by calling it; the library decides which computation runs."""

    calls = 0
    hooks_on = None

    def invoke(self, mode, x, via, **kw):
        if via != 9:
            return getattr(self.net, mode)(x, **kw)
        before, pre = self.fired, self.pre_fired
        if self.hooks_on in ("pre", "pre1", "both"):
            x = x * 0.5
        if self.hooks_on in BACK and (mode == "forward" or kw.get("update_state") is False):
            y = self.backward(x, kw, mode)
        else:
            y = self.net(x, **kw)
        if self.hooks_on in ("count", "post", "both", "kwargs") and self.fired != before + 1:
            self.fail("hook", f"a forward hook fired {self.fired - before} times for one call")
        if self.hooks_on in ("precount", "pre", "pre1", "both", "preglobal", "kwargs") and self.pre_fired != pre + 1:
            self.fail("hook", f"a forward pre-hook fired {self.pre_fired - pre} times for one call")
        if self.hooks_on == "kwargs" and self.keys != sorted(kw):
            self.fail("hook", f"a hook with keyword arguments was given {self.keys} instead of {sorted(kw)}")
        if self.hooks_on in ("post", "both") and isinstance(y, torch.Tensor):
            y = y - 1.0
        return y

    fired = 0
    pre_fired = 0
    child_fired = 0

    def backward(self, x, kw, mode):
        """Hooks on the backward pass see it once, and scale the gradients which they return."""
        self.back_fired = self.back_pre_fired = 0
        with torch.enable_grad():
            plain, hooked = x.clone().requires_grad_(), x.clone().requires_grad_()
            want = getattr(self.net, mode)(plain, **kw)
            y = self.net(hooked, **kw)
            if not isinstance(y, torch.Tensor) or not y.requires_grad:
                return y
            want, = torch.autograd.grad(want.sum(), plain)
            y.sum().backward()
        self.net.zero_grad()
        kind = self.hooks_on
        full, pre, old = kind in ("back", "backboth", "globalback"), kind in ("backpre", "backboth", "globalbackpre"), kind == "backold"
        if self.back_fired != int(full or old) or self.back_pre_fired != int(pre):
            self.fail("hook", f"backward hooks fired {self.back_fired} times and backward pre-hooks {self.back_pre_fired} times for one call")
        self.check(hooked.grad, want * (3.0 if full else 1.0) * (2.0 if pre else 1.0), f"gradient of the input of a call ({mode}) with backward hooks",
                   "hook-gradient", 10.0)
        self.log.hit("backward_hooks")
        return y.detach()

    back_fired = back_pre_fired = 0

    def hook_up(self, kind):
        """count/precount: hooks which only look on; pre/post/both: hooks which replace inputs and outputs;
        global/preglobal: hooks on all modules."""
        self.hooks_on = kind

        def post(m, inp, out):
            if m is self.net:
                self.fired += 1
                if kind in ("post", "both") and isinstance(out, torch.Tensor):
                    return out + 1.0

        def pre(m, inp):
            if m is self.net:
                self.pre_fired += 1
                if kind in ("pre", "both"):
                    return (inp[0] * 2.0,) + tuple(inp[1:])
                if kind == "pre1":
                    return inp[0] * 2.0

        self.handles = []
        if kind in ("count", "post", "both"):
            self.handles.append(self.net.register_forward_hook(post))
        if kind in ("precount", "pre", "pre1", "both"):
            self.handles.append(self.net.register_forward_pre_hook(pre))
        if kind in BACK and self.spec["t"] == "conv":
            def back(m, gi, go):
                if m is not self.net:
                    return None
                self.back_fired += 1
                return None if kind == "backold" else tuple(None if g is None else g * 3.0 for g in gi)

            def backpre(m, go):
                if m is not self.net:
                    return None
                self.back_pre_fired += 1
                return tuple(g * 2.0 for g in go)

            if kind in ("back", "backboth"):
                self.handles.append(self.net.register_full_backward_hook(back))
            if kind in ("backpre", "backboth"):
                self.handles.append(self.net.register_full_backward_pre_hook(backpre))
            if kind == "backold":
                self.handles.append(self.net.register_backward_hook(back))
            if kind == "globalback":
                self.handles.append(torch.nn.modules.module.register_module_full_backward_hook(back))
            if kind == "globalbackpre":
                self.handles.append(torch.nn.modules.module.register_module_full_backward_pre_hook(backpre))
        elif kind in BACK:
            self.hooks_on = None
        if kind == "kwargs":
            def kpost(m, inp, kw, out):
                self.keys = sorted(kw)
                return post(m, inp, out)

            self.handles.append(self.net.register_forward_hook(kpost, with_kwargs=True))
            self.handles.append(self.net.register_forward_pre_hook(lambda m, inp, kw: pre(m, inp), with_kwargs=True))
        if kind == "preglobal":
            self.handles.append(torch.nn.modules.module.register_module_forward_pre_hook(pre))
        if kind == "global":
            self.handles.append(torch.nn.modules.module.register_module_forward_hook(post))
            self.hooks_on = "count"
        if self.spec["t"] in ("seq", "br") and len(list(self.net)):
            def child(m, inp, out):
                self.child_fired += 1

            first = next(iter(self.net))
            if hasattr(first, "register_forward_hook") and isinstance(first, library().CoModule) and not isinstance(first, torch.nn.RNNBase):
                self.handles.append(first.register_forward_hook(child))
                self.child_hook = True

    child_hook = False

    def one(self, op):
        before, done = self.child_fired, self.log.c["op_" + op["o"]]
        self.run_one(op)
        if self.child_hook and self.log.c["op_" + op["o"]] > done and not self.dirty and op["o"] in ("step", "chunk", "clip", "peek"):
            if self.child_fired != before + 1:
                self.fail("child-hook", f"a hook on a container's first child fired {self.child_fired - before} times during one {op['o']}")

    def all_modes(self):
        return [int(m.call_mode) for m in self.net.modules() if isinstance(m, library().CoModule)]


def spelled(mode, how):
    i = MODES.index(mode)
    return [mode, mode.upper(), i, torch.tensor(i), mode][how]


class Prop(StreamProp):
    ID = "C10"
    RUNS = {"quick": 3000, "thorough": 24000}
    PROBES = ["calls_in_context", "calls_by_own_mode", "fault_raised_through_context", "explicit_in_context", "mode_switches", "nested", "backward_hooks"]
    RULE = ("runs are drawn from the seed: two or three networks and a random tree of contexts, calls, explicit invocations, mode switches, "
            "exceptions and catch points; a run is non-trivial if a call was judged inside a context or after an exception")

    # -- generation -----------------------------------------------------------------------

    def generate(self, rng, tier, index):
        nets = []
        for _ in range(rng.randint(1, 3)):
            while True:
                r = rng.random()
                if r < 0.3:
                    nd = specs.pick(rng, 1, 1, 2)
                    sp = specs.spatial(rng, nd, 3, 4)
                    spec = specs.leaf_temporal(rng, nd, sp)
                    shape = [rng.randint(1, 2), specs.in_channels(spec, rng.randint(1, 3)), *sp]
                elif r < 0.4:
                    spec, shape = specs.attn_unit(specs.Env(rng, 1, 2, []), True), [rng.randint(1, 2), 2]
                else:
                    spec, shape = specs.net(rng, attn=0.1)
                if clip_exact(spec):
                    break
            nets.append(dict(spec=spec, shape=shape, ws=new_seed(rng), dtype="f64",
                             hook=rng.choice([None, None, None, *HOOKS])))
        gens = [OpGen(rng, n["spec"], n["shape"], via=0, layouts=0) for n in nets]
        budget = [rng.randint(6, 40 if tier == "thorough" else 24)]

        def node(depth):
            budget[0] -= 1
            r = rng.random()
            i = rng.randrange(len(nets))
            if r < 0.26 and depth < 5:
                return dict(k="ctx", m=rng.choice(MODES), sp=rng.randrange(4), deco=rng.random() < 0.1, body=body(depth + 1))
            if r < 0.34 and depth < 5:
                return dict(k="try", body=body(depth + 1))
            if r < 0.66:
                return dict(k="call", i=i, alt={m: self.op_for(gens[i], m) for m in MODES})
            if r < 0.80:
                m = rng.choice(MODES)
                return dict(k="named", i=i, op=self.op_for(gens[i], m))
            if r < 0.88:
                return dict(k="set", i=i, m=rng.choice(MODES), sp=rng.randrange(4))
            if r < 0.91:
                return dict(k="raise")
            if r < 0.96:
                return dict(k="fault", i=i, n=rng.randint(1, 12), exc=rng.choice(sorted(EXC)),
                            alt={m: self.op_for(gens[i], m) for m in MODES})
            if r < 0.98:
                return dict(k="copy", i=i)
            return dict(k="clean", i=i)

        def body(depth):
            out = []
            for _ in range(rng.randint(1, 5)):
                if budget[0] <= 0:
                    break
                out.append(node(depth))
            return out

        ops = []
        while budget[0] > 0:
            ops.append(node(0))
        # at the end every network is called by its own mode and by name
        for i in range(len(nets)):
            ops.append(dict(k="call", i=i, alt={m: self.op_for(gens[i], m) for m in MODES}))
            ops.append(dict(k="named", i=i, op=self.op_for(gens[i], rng.choice(MODES))))
        return dict(nets=nets, ops=ops)

    @staticmethod
    def op_for(g, mode):
        op = {"forward": lambda: g.clip(False), "forward_steps": lambda: g.peek() if g.rng.random() < 0.2 else g.chunk(),
              "forward_step": lambda: g.peek() if g.rng.random() < 0.2 else g.step()}[mode]()
        if op["o"] == "peek":
            op.pop("pe", None)
            if mode == "forward_steps":
                op["n"] = op.get("n") or 2
            else:
                op.pop("n", None)
        return op

    # -- execution ------------------------------------------------------------------------

    def execute(self, case, log):
        self.case_, self.log = case, log
        library()
        FLAGS.clear()
        self.worlds = []
        for n in case["nets"]:
            w = ModeWorld({**n, "_sig": ""}, log)
            if n.get("hook"):
                w.hook_up(n["hook"])
            self.worlds.append(w)
        self.own = ["forward" for _ in self.worlds]
        self.modes = [w.all_modes() for w in self.worlds]
        self.count = 0
        self.stack = []
        self.after_exception = False
        try:
            self.block(case["ops"])
        except (UserError,) + INJECTED:
            self.recover()
        finally:  # global hooks must not outlive the run
            for w in self.worlds:
                for h in getattr(w, "handles", ()):
                    h.remove()

    def recover(self):
        self.after_exception = True
        self.log.hit("fault_caught")
        for w in self.worlds:
            if w.dirty:
                w.op_clean({"o": "clean"})
        self.same_modes()

    def same_modes(self):
        for i, w in enumerate(self.worlds):
            if w.all_modes() != self.modes[i]:
                w.fail("own-mode", f"call modes of network {i} and its modules changed from {self.modes[i]} to {w.all_modes()}")

    def block(self, nodes):
        for nd in nodes:
            self.node(nd)

    def node(self, nd):
        self.count += 1
        k = nd["k"]
        self.log.states.add(rng_for(k, tuple(self.stack), nd.get("m"), self.after_exception).getrandbits(60))
        if k == "ctx":
            ctx = library().call_mode(spelled(nd["m"], nd["sp"]))
            outer = list(self.stack)
            try:
                if nd.get("deco"):
                    def run():
                        self.stack = outer + [nd["m"]]
                        self.block(nd["body"])

                    ctx(run)()
                else:
                    with ctx:
                        self.stack = outer + [nd["m"]]
                        self.block(nd["body"])
                self.log.hit("nested" if outer else "contexts")
            except (UserError,) + INJECTED:
                self.log.hit("fault_raised_through_context")
                raise
            except Violation:
                raise
            finally:
                self.stack = outer
            self.same_modes()
            return
        if k == "try":
            outer = list(self.stack)
            try:
                self.block(nd["body"])
            except (UserError,) + INJECTED:
                self.stack = outer
                self.recover()
            return
        if k == "raise":
            raise UserError()
        w = self.worlds[nd["i"]]
        w.op_index = self.count
        if k == "set":
            w.net.call_mode = spelled(nd["m"], nd["sp"])
            self.own[nd["i"]] = nd["m"]
            self.modes[nd["i"]] = w.all_modes()
            if self.modes[nd["i"]][0] != MODES.index(nd["m"]):
                w.fail("own-mode", f"call_mode reads {self.modes[nd['i']][0]} after it was set to {nd['m']}")
            self.log.hit("mode_switches")
        elif k == "clean":
            w.op_clean({"o": "clean"})
        elif k == "copy":
            if all(m["t"] in ("conv", "pool", "delay", "seq", "br", "res", "rnn") for m in walk(w.spec)):
                if w.hooks_on is None:
                    w.net = w.legal("deepcopy", lambda: copy.deepcopy(w.net))
                    self.log.hit("copies")
        elif k == "named":
            w.one(nd["op"])
            self.log.hit("explicit_in_context" if self.stack else "explicit")
        elif k == "call":
            mode = self.stack[-1] if self.stack else self.own[nd["i"]]
            w.one({**nd["alt"][mode], "via": 9})
            self.log.hit("calls_in_context" if self.stack else "calls_by_own_mode")
            if self.stack or self.after_exception:
                self.log.hit("nontrivial")
        elif k == "fault":
            mode = self.stack[-1] if self.stack else self.own[nd["i"]]
            op = {**nd["alt"][mode], "via": 9}
            if op["o"] == "peek":
                return
            x = w.clip_of(op) if op.get("n") else w.frame(op)
            w.set_flags(op)
            fm = FaultMode(nd["n"], "before", nd["exc"])
            w.dirty = True  # an aborted stream is undefined until recovered
            with fm:
                w.legal("call", lambda: w.net(x))
            # not reached: the call completed; the stream is abandoned all the same
            w.op_clean({"o": "clean"})
        self.same_modes()

    # -- shrinking --------------------------------------------------------------------------

    def signature(self, case):
        def sk(nodes):
            return [[n["k"], n.get("m"), n.get("i"), sk(n.get("body", []))] for n in nodes]

        return [[n["spec"] for n in case["nets"]], sk(case["ops"])]

    def shrink(self, case):
        def variants(nodes):
            for i, n in enumerate(nodes):
                if n.get("body") is not None:
                    yield nodes[:i] + n["body"] + nodes[i + 1:]
                    for b in variants(n["body"]):
                        yield nodes[:i] + [{**n, "body": b}] + nodes[i + 1:]
                yield nodes[:i] + nodes[i + 1:]

        for v in variants(case["ops"]):
            yield {**case, "ops": v}
        for i, n in enumerate(case["nets"]):
            if n.get("hook"):
                c = copy.deepcopy(case)
                c["nets"][i]["hook"] = None
                yield c
            for s in simpler_specs(n["spec"]):
                c = copy.deepcopy(case)
                c["nets"][i]["spec"] = s
                yield c


PROP = Prop()
