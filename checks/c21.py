"""C21: copies of a network in the middle of a stream are independent networks which continue it; inspection changes nothing."""
import copy
import io
import pickle

import torch

from sim.core import derive
from sim.nets import gen, walk
from sim.stream import OpGen, StreamProp, base_case, mixed_spec, new_seed
from sim.world import World, same_values

# ordinary modules which co.continual enhances in place hold functions that Python cannot copy (loudly refused)
ENHANCED = ("act", "bn", "inorm", "ln", "tenc")


def look_repr(net, co):
    repr(net), str(net)


def look_timing(net, co):
    return [(m.receptive_field, m.delay, m.stride, m.padding) for m in net.modules() if co.CoModule.is_valid(m)]


def look_weights(net, co):
    for _, p in net.named_parameters():
        p.numel()
    return [(n, tuple(b.shape)) for n, b in net.named_buffers()]


def look_state_dict(net, co):
    net.state_dict()
    with co.utils.flat_state_dict:
        return list(net.state_dict())


def look_children(net, co):
    n = [type(m).__name__ for m in net.modules()]
    if isinstance(net, torch.nn.Sequential):
        n += [len(net), [type(m).__name__ for m in net], type(net[0]).__name__, type(net[-1]).__name__]
        if type(net) is co.Sequential:
            net[:1]
    return n


def look_state(net, co):
    net.get_state()
    [m.get_state() for m in net.modules() if co.CoModule.is_valid(m)]


def look_dir(net, co):
    [getattr(net, a, None) for a in dir(net)]
    vars(net).keys()


def look_modes(net, co):
    was = net.training
    net.eval()
    net.train(was)
    net.requires_grad_(True)
    net.zero_grad()
    return net.call_mode


def look_move(net, co):
    net.to("cpu")
    net.cpu()
    net.apply(lambda m: None)
    return co.CoModule.is_valid(net)


LOOKS = [look_repr, look_timing, look_weights, look_state_dict, look_children, look_state, look_dir, look_modes, look_move]


class Twins(World):
    def __init__(self, case, log):
        super().__init__(case, log)
        self.twins = {0: None}
        self.me = 0

    def op_fork(self, op):
        """Copy the network (stream and all); the copy becomes one of several networks that are fed from now on."""
        how = op.get("how", 0)
        before = copy.deepcopy(self.settings())

        def make():
            if how == 0:
                return copy.deepcopy(self.net)
            b = io.BytesIO()
            torch.save(self.net, b)
            return torch.load(io.BytesIO(b.getvalue()), weights_only=False)

        try:
            with torch.no_grad():
                twin = make()
        except (TypeError, AttributeError, pickle.PicklingError) as e:
            text = str(e)
            if "pickle" not in text or (how == 0 and not any(m["t"] in ENHANCED for m in walk(self.spec))):
                self.fail("copy-failed", f"the network cannot be copied: {type(e).__name__}: {text[:200]}")
            if self.settings() != before:
                self.fail("settings", "a refused copy changed modes or settings")
            return self.log.hit("refused")
        if self.settings() != before:
            self.fail("settings", "copying changed modes or settings of the network")
        self.stash()
        here = (self.items, self.shape, self.dirty)
        self.net = twin
        if self.settings() != before:
            self.fail("settings", "the copy has other modes, settings or weights")
        if op.get("swap"):  # the copy takes the place of the original, which lives on under the new name
            self.twins[op["to"]] = self.twins[self.me]
            self.ref = self.make_ref(twin)
            self.items, self.shape, self.dirty = list(here[0]), list(here[1]), here[2]
            if how and op.get("drop"):
                self.twins.pop(op["to"])
                self.log.hit("fault_crash_restart")
        else:
            keep = self.twins[self.me]
            self.ref = self.make_ref(twin)
            self.items, self.shape, self.dirty = list(here[0]), list(here[1]), here[2]
            self.stash(op["to"])
            self.twins[self.me] = keep
            self.take(self.me)
        self.log.hit("pickled" if how else "copied")
        if here[0]:
            self.log.hit("forks_in_flight")
        self.record(op)

    def stash(self, to=None):
        self.twins[self.me if to is None else to] = (self.net, self.ref, self.items, self.shape, self.dirty)

    def take(self, k):
        self.net, self.ref, self.items, self.shape, self.dirty = self.twins[k]
        self.me = k

    def op_other(self, op):
        if op["to"] in self.twins and op["to"] != self.me:
            self.stash()
            self.take(op["to"])
            self.log.hit("changes_of_network")
            self.record(op)

    def op_upd(self, op):
        """The weights of this network change in place; it starts a new stream."""
        with torch.no_grad():
            for i, p in enumerate(self.net.parameters()):
                p.add_(torch.randn(p.shape, generator=gen(derive("upd", op["s"], i)), dtype=torch.float64).to(p.dtype) * 0.1)
        self.op_clean({"o": "clean"})
        self.ref = self.make_ref(self.net)
        self.log.hit("updates")

    def op_look(self, op):
        before, state = self.settings(), copy.deepcopy(self.net.get_state())
        mode = self.net.call_mode
        for i in op["w"]:
            self.legal(LOOKS[i].__name__, lambda: LOOKS[i](self.net, self.co))
        if self.settings() != before or self.net.call_mode != mode:
            self.fail("settings", "inspection changed modes or settings")
        if not same_values(state, self.net.get_state()):
            self.fail("look-state", "inspection changed the state")
        self.record(op)
        self.log.hit("looks")

    def run_one(self, op):
        self.last_out = None
        if self.dirty and op["o"] not in ("clean", "other", "upd", "clip", "fork", "look"):
            return
        if self.dirty and op["o"] in ("fork", "look"):
            return
        getattr(self, "op_" + op["o"])(op)


class Prop(StreamProp):
    ID = "C21"
    RUNS = {"quick": 3000, "thorough": 20000}
    PROBES = ["copied", "pickled", "forks_in_flight", "changes_of_network", "updates", "looks", "fault_in_step"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.3)
        if rng.random() < 0.85:
            while any(m["t"] == "tenc" for m in walk(spec)):
                spec, shape = mixed_spec(rng, rpe=0.3)
            for m in walk(spec):
                if m["t"] in ENHANCED:
                    new = dict(t="lam", fn=rng.choice(["halfabs", "shift", "sq"])) if rng.random() < 0.5 else dict(t="ident")
                    m.clear()
                    m.update(new)
        case = base_case(rng, spec, shape, grad=0.0, inf=0.0)
        g = OpGen(rng, spec, shape)
        ops, n = [], 0
        for _ in range(rng.randint(6, 2 * g.rf + 16)):
            r = rng.random()
            if r < 0.45:
                ops.append(g.feed())
            elif r < 0.58 and n < 3:
                n += 1
                ops.append({"o": "fork", "to": n, "how": int(rng.random() < 0.3), "swap": rng.random() < 0.4, "drop": rng.random() < 0.5})
            elif r < 0.74 and n:
                ops.append({"o": "other", "to": rng.randint(0, n)})
            elif r < 0.82:
                ops.append({"o": "look", "w": [rng.randrange(len(LOOKS)) for _ in range(rng.randint(1, 4))]})
            elif r < 0.86:
                ops.append(g.peek())
            elif r < 0.89:
                ops.append(g.clip())
            elif r < 0.92:
                ops.append({"o": "upd", "s": new_seed(rng)})
            elif r < 0.95:
                ops.append(g.fault(("step", "chunk", "peek")))
                if ops[-1]["op"]["o"] != "peek" and rng.random() < 0.5:
                    ops.append({"o": "clean"})
            else:
                ops.append({"o": "clean"})
        for k in range(n + 1):
            ops += [{"o": "other", "to": k}, g.feed(), g.feed()]
        return {**case, "ops": ops}

    def execute(self, case, log):
        Twins(case, log).run()


PROP = Prop()
