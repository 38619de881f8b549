"""C22: what a network keeps, and what a step costs, does not grow with the length of its history."""
import array
import copy
import gc
import hashlib
import sys
import types
import weakref

import torch
from torch.overrides import TorchFunctionMode

from sim.core import derive
from sim.faults import INJECTED, FaultMode
from sim.nets import FLAGS, walk
from sim.stream import OpGen, StreamProp, base_case, mixed_spec, new_seed
from sim.world import World, deep_clone, through_disk

WINDOWS, PER_WINDOW = 5, 6
KEPT = ["tensors", "bytes of tensors", "objects", "entries of lists, dicts and sets", "bytes reachable from the network"]
COST = ["tensor operations", "elements computed", "Python calls"]


class Work(TorchFunctionMode):
    """Counts tensor operations and the size of their results."""

    def __init__(self):
        super().__init__()
        self.ops = self.numel = 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        if isinstance(out, torch.Tensor):
            self.numel += out.numel()
        return out


class Meter(World):
    def __init__(self, case, log):
        super().__init__(case, log)
        self.turn = 0
        self.saved = None
        self.profiled = 0

    def make_ref(self, net):
        return None

    def set_flags(self, op):
        FLAGS.clear()
        FLAGS.update(op.get("f") or {})
        return 0

    # -- operations of one cycle; their results are not judged here ------------------------------

    def call(self, fn):
        """The cost of the calls of the library is added up; what they raise is judged by other properties."""
        count = [0]

        def event(frame, what, arg):
            if what in ("call", "c_call"):
                count[0] += 1

        work = Work()
        try:
            with torch.no_grad(), work:
                sys.setprofile(event)
                try:
                    return fn()
                finally:
                    sys.setprofile(None)
        except INJECTED:
            raise
        except Exception:  # noqa: BLE001
            self.raised += 1
            return None
        finally:
            self.cost[0] += work.ops
            self.cost[1] += work.numel
            self.cost[2] += count[0]

    def again(self, op):
        return {**op, "s": derive("again", op["s"], self.turn)} if "s" in op else op

    def op_step(self, op):
        self.set_flags(op)
        buf = self.layout(self.frame(op), op.get("ly", 0))
        self.call(lambda: self.invoke("forward_step", buf, op.get("via", 0)))
        self.frames += 1

    def op_chunk(self, op):
        self.set_flags(op)
        buf = self.layout(self.clip_of(op), op.get("ly", 0))
        kw = {"pad_end": True} if op.get("pe") else {}
        self.call(lambda: self.invoke("forward_steps", buf, op.get("via", 0), **kw))
        self.frames += op["n"]
        if op.get("pe"):
            self.net.clean_state()

    def op_peek(self, op):
        self.set_flags(op)
        x = self.clip_of(op) if op.get("n") else self.frame(op)
        mode = "forward_steps" if op.get("n") else "forward_step"
        kw = {"pad_end": True} if op.get("pe") and op.get("n") else {}
        self.call(lambda: self.invoke(mode, x, op.get("via", 0), update_state=False, **kw))

    def op_clip(self, op):
        self.set_flags(op)
        x = self.clip_of(op, op.get("shape"))
        self.call(lambda: self.invoke("forward", x, op.get("via", 0)))

    def op_fstep(self, op):
        self.set_flags(op)
        x = self.frame(op)
        out = self.call(lambda: self.net._forward_step(x, prev_state=self.side))
        if isinstance(out, tuple) and len(out) == 2:
            self.side = out[1]

    def op_fault(self, op):
        inner = self.again(op["op"])
        try:
            with FaultMode(op["n"], op["when"], op["exc"]):
                getattr(self, "op_" + inner["o"])(inner)
        except INJECTED:
            self.fired += 1
        if inner["o"] in ("step", "chunk"):
            self.net.clean_state()

    def op_clean(self, op):
        self.net.clean_state()
        self.side = None

    def op_save(self, op):
        with torch.no_grad():
            state = self.net.get_state()
            self.saved = through_disk(state) if op.get("disk") else deep_clone(state)

    def op_back(self, op):
        if self.saved is not None and self.frames:
            self.net.set_state(deep_clone(self.saved))

    def op_weights(self, op):
        sd = self.net.state_dict()
        if op.get("flat"):
            with self.co.utils.flat_state_dict:
                sd = self.net.state_dict()
                self.net.load_state_dict(sd)
        else:
            self.net.load_state_dict(sd)

    def op_look(self, op):
        repr(self.net)
        [(m.receptive_field, m.delay, m.stride, m.padding) for m in self.net.modules() if self.co.CoModule.is_valid(m)]
        self.net.eval()
        self.net.train(self.was_training)

    def op_twin(self, op):
        """Another network lives and dies."""
        mine = self.net
        try:
            if op.get("copy"):
                with torch.no_grad():
                    self.net = copy.deepcopy(mine)
            else:
                self.net = self.make_net(3)
            for i in range(op["k"]):
                x = self.frame({**op, "s": derive(op["s"], i)})
                self.call(lambda x=x: self.net.forward_step(x))
        except (TypeError, AttributeError):
            pass  # networks with converted modules cannot be copied
        finally:
            self.net = mine

    # -- measurement ------------------------------------------------------------------------------

    def kept_now(self):
        gc.collect()
        tensors = total = objects = entries = 0
        seen = set()
        for o in gc.get_objects():
            kind = type(o)
            if kind in (types.FrameType, types.TracebackType, array.array):
                continue
            objects += 1
            if kind in (list, dict, set, tuple):
                entries += len(o)
            elif issubclass(kind, torch.Tensor):
                tensors += 1
                try:
                    s = o.untyped_storage()
                except (RuntimeError, NotImplementedError):
                    continue
                if s.data_ptr() not in seen:
                    seen.add(s.data_ptr())
                    total += s.nbytes()
            elif hasattr(kind, "__len__") and kind.__module__ == "collections":
                entries += len(o)
        return tensors, total, objects, entries, self.held(self.net)

    @staticmethod
    def held(net):
        """Bytes of all tensors which the network refers to."""
        seen = {}

        def visit(x):
            if isinstance(x, torch.Tensor):
                s = x.untyped_storage()
                seen[s.data_ptr()] = s.nbytes()
            elif isinstance(x, (list, tuple, set)):
                for i in x:
                    visit(i)
            elif isinstance(x, dict):
                for i in x.values():
                    visit(i)

        visit(net.get_state())
        for m in net.modules():
            visit(vars(m))
        return sum(seen.values())

    def run(self):
        self.raised = self.fired = self.frames = 0
        self.side = None
        self.was_training = self.net.training
        ops = self.case["ops"]
        need = 2 * self.rf + 4
        self.cost = array.array("q", [0] * 3)
        for i in range(need):
            self.op_step({"o": "step", "s": derive("pre", self.case["ws"], i), "f": self.case.get("flags")})
        n = WINDOWS * PER_WINDOW
        table = array.array("q", [0] * (n * 8))
        gc.collect()
        gc.freeze()
        enabled = gc.isenabled()
        gc.disable()
        try:
            for c in range(n):
                self.turn = c
                for k in range(3):
                    self.cost[k] = 0
                for op in ops:
                    getattr(self, "op_" + op["o"])(self.again(op))
                op = None
                now = self.kept_now()
                for k in range(5):
                    table[c * 8 + k] = now[k]
                for k in range(3):
                    table[c * 8 + 5 + k] = self.cost[k]
                now = None
        finally:
            gc.unfreeze()
            if enabled:
                gc.enable()
        for k, name in enumerate(KEPT + COST):
            rows = [[table[c * 8 + k] for c in range(w * PER_WINDOW, (w + 1) * PER_WINDOW)] for w in range(WINDOWS)]
            if all(max(a) < min(b) for a, b in zip(rows, rows[1:])):
                self.fail("grows", f"{name} grow with the history: {[r[-1] for r in rows]} after {PER_WINDOW} to {n} rounds of the same "
                                   f"{len(ops)} operations, {'cost of a round' if k >= len(KEPT) else 'kept between rounds'}")
        self.log.sim_steps += self.frames
        self.log.hit("nontrivial")
        self.log.hit("rounds", n)
        self.log.hit("fault_fired", self.fired)
        if self.raised:
            self.log.hit("excluded_raised", self.raised)
        for i, op in enumerate(ops):
            self.log.hit("op_" + op["o"], n)
            key = repr((self.spec, [(o["o"], o.get("n"), o.get("via"), o.get("pe")) for o in ops[:i + 1]]))
            self.log.states.add(int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big") >> 1)
        self.log.ev("kept", [table[(n - 1) * 8 + k] for k in (4,)])
        self.chunks()
        self.gone()

    def chunks(self):
        """A long chunk leaves no more behind than a short one."""
        if any(m["t"] == "rpe" for m in walk(self.spec)):
            return
        size = []
        for n in (self.rf + 20, self.rf + 120):
            self.net.clean_state()
            x = self.clip_of({"s": derive("long", self.case["ws"]), "n": n})
            self.set_flags({"f": self.case.get("flags")})
            if self.call(lambda x=x: (self.net.forward_steps(x), 1)[1]) is None:
                return
            self.log.sim_steps += n
            size.append(self.held(self.net))
        if size[1] > size[0]:
            self.fail("chunk-kept", f"after a chunk of {self.rf + 120} frames the network holds {size[1]} bytes, after {self.rf + 20} frames {size[0]}")
        self.log.hit("long_chunks", 2)
        self.log.ev("held", size)

    def gone(self):
        """Nothing is left of a network which is no longer used, nor of its frames and its state."""
        mine, self.net, self.side = self.net, self.legal("build", self.make_net), None
        refs = []

        def note(what, x):
            if isinstance(x, (list, tuple)):
                for i in x:
                    note(what, i)
            elif isinstance(x, torch.Tensor):
                refs.append((what, weakref.ref(x)))

        seed = derive("gone", self.case["ws"])
        self.set_flags({"f": self.case.get("flags")})
        for i in range(2):
            x = self.clip_of({"s": derive(seed, i), "n": self.rf + 2})
            f = x[:, :, 0].clone()
            for name, fn in (("forward_step", lambda: self.net.forward_step(f)),
                             ("forward_steps", lambda: self.net.forward_steps(x)),
                             ("preview", lambda: self.net.forward_step(f, update_state=False)),
                             ("forward", lambda: self.net.forward(x)),
                             ("restore", lambda: self.net.set_state(self.net.get_state())),
                             ("checkpoint", lambda: self.net.load_state_dict(self.net.state_dict())),
                             ("explicit", lambda: self.net._forward_step(f, prev_state=None)),
                             ("clean", lambda: self.net.clean_state()),
                             ("after", lambda: self.net.forward_steps(x))):
                note("output of " + name, self.call(fn))
                note("state after " + name, self.net.get_state())
            note("frames", [x, f])
        name = fn = x = f = None
        refs += [("module " + type(m).__name__, weakref.ref(m)) for m in self.net.modules()]
        self.net = mine
        gc.collect()
        left = sorted({what for what, r in refs if r() is not None})
        if left:
            self.fail("not-released", f"left of a network that is no longer used: {left}")
        self.log.hit("released", len(refs))


class Prop(StreamProp):
    ID = "C22"
    RUNS = {"quick": 800, "thorough": 12000}
    PROBES = ["rounds", "fault_fired", "long_chunks", "op_twin", "op_clip", "op_peek", "released"]

    def generate(self, rng, tier, index):
        spec, shape = mixed_spec(rng, rpe=0.2)
        case = base_case(rng, spec, shape, grad=0.0, inf=0.0)
        g = OpGen(rng, spec, shape)
        if g.flags:
            case["flags"] = dict(g.cur)
        ops = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < 0.45:
                ops.append(g.feed())
            elif r < 0.53:
                ops.append(g.peek())
            elif r < 0.61:
                ops.append(g.clip())
            elif r < 0.68:
                ops.append(g.fault(("step", "chunk", "peek", "clip")))
            elif r < 0.73:
                ops.append({"o": "clean"})
            elif r < 0.77:
                ops.append({**g.step(), "o": "fstep"})
            elif r < 0.82:
                ops.append({"o": rng.choice(["save", "back"]), "disk": rng.random() < 0.3})
            elif r < 0.86:
                ops.append({"o": "weights", "flat": rng.random() < 0.5})
            elif r < 0.90:
                ops.append({"o": "look"})
            elif r < 0.94:
                ops.append({"o": "twin", "s": new_seed(rng), "k": rng.randint(1, 4), "copy": rng.random() < 0.5})
            else:
                ops.append(g.chunk(pe=True))
        if not any(o["o"] in ("step", "chunk") for o in ops):
            ops.append(g.feed())
        return {**case, "ops": ops}

    def execute(self, case, log):
        Meter(case, log).run()


PROP = Prop()
