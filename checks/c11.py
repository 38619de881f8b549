"""C11: real threads under a seeded scheduler that decides every context switch; each thread against its run alone."""
import copy
import hashlib

import torch

from sim.core import Excluded, Log, Violation, digest_update, rng_for
from sim.env import library
from sim.nets import build, walk
from sim.stream import OpGen, StreamProp, base_case, mixed_spec, new_seed
from sim.threads import Scheduler, list_policy, priority_policy, random_policy
from sim.world import World, through_disk

MODES = ["forward", "forward_steps", "forward_step"]
MAXT = 4


class Prop(StreamProp):
    ID = "C11"
    RUNS = {"quick": 2600, "thorough": 16000}
    OP_FIELDS = ["switches", "ops0", "ops1", "ops2", "ops3"]
    PROBES = ["switches", "switch_in_library", "contexts", "contexts_interrupted", "flat_contexts", "flat_interrupted", "shared_steps", "shared_clips", "main_context",
              "conversions", "builds", "fault_in_thread", "fault_crash_restart", "opcode_runs", "threads_4"]
    RULE = ("runs are drawn from the seed: two to four threads, each with its own network and history (or explicit-state steps of one shared "
            "network), call-mode and flattened-state contexts held across operations, conversions, checkpoint loads and faults, and a schedule: "
            "either a switch probability per line or bytecode of library code or a few preemptions with priorities; non-trivial if the baton "
            "moved inside library code")
    STATE_MEASURE = "hash of (network class, operation, invocation form, position of the stream) per thread, plus distinct schedules (switch lists)"
    STUBS = ["the operating system's thread scheduler: replaced by the baton of sim/threads.py (threads are real, only one runs at a time)"]
    ASSUMPTIONS = ["switches happen at lines or bytecodes of continual/, not inside torch's compiled operations (which hold no library state)"]

    # -- generation

    def generate(self, rng, tier, index):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        case = dict(shape=[1, 1], ops=[], threads=[], main=rng.choice([None, None, "forward", "forward_steps", "forward_step"]),
                    main_flat=rng.random() < 0.2, opcodes=rng.random() < 0.3)
        shared = rng.random() < 0.4
        spec, shape = self.network(rng)
        burst = shared and rng.random() < 0.6
        if burst and rng.random() < 0.7:  # one temporal module: most of a step is the module's own code
            while not any(m["t"] in ("conv", "pool", "delay", "somha", "rmha", "rpe") for m in [spec]):
                spec, shape = mixed_spec(rng, rpe=0.2, leaf=0.8, special=0.15)
        if shared:
            case["shared"] = {**base_case(rng, spec, shape, f32=0.1, train=0, grad=0), "mode": rng.choice([None, *MODES])}
        for t in range(n):
            own = shared and (burst or rng.random() < 0.75)
            if not own:
                if rng.random() < 0.6:
                    spec, shape = self.network(rng)
                th = base_case(rng, spec, shape, f32=0.1, train=0.15, grad=0.1)
            else:
                th = {"use_shared": True, "shape": [rng.randint(1, 3), *case["shared"]["shape"][1:]]}
            sp = case["shared"]["spec"] if own else th["spec"]
            case["threads"].append(th)
            case[f"ops{t}"] = self.bursts(rng, sp, th["shape"]) if burst else self.script(rng, sp, th["shape"], own)
        kind = rng.choice(["random", "random", "few", "few", "turns"])
        case["sched"] = dict(kind=kind, seed=new_seed(rng))
        if kind == "random":
            case["sched"]["p"] = rng.choice([0.003, 0.02, 0.1, 0.4])
        elif kind == "few":
            case["sched"]["d"] = rng.randint(1, 8)
        else:
            case["sched"]["p"] = 1.0
        return case

    @staticmethod
    def network(rng):
        spec, shape = mixed_spec(rng, rpe=0.3, leaf=0.5, special=0.25)
        if sum(1 for _ in walk(spec)) > 9:
            return Prop.network(rng)
        return spec, shape

    def script(self, rng, spec, shape, shared):
        g = OpGen(rng, spec, shape, via=0.5, layouts=0.05)
        ops = []
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if shared:
                if r < 0.5:
                    op = {**g.step(), "o": "fstep", "k": rng.randrange(2)}
                    op.pop("via", None)
                elif r < 0.75:
                    op = {**g.clip(shape=False), "via": rng.choice([0, 0, 1, 3])}
                elif r < 0.85:
                    op = {"o": "hold", "mode": rng.choice(MODES), "ops": [{**g.step(), "o": "fstep", "k": 0, "via": 0}, {**g.clip(shape=False), "via": rng.choice([0, 4])}][rng.randrange(2):]}
                elif r < 0.93:
                    op = {"o": "plain"}
                else:
                    op = {"o": "flat", "ops": []}
            elif r < 0.42:
                op = g.feed()
            elif r < 0.5:
                op = g.peek()
            elif r < 0.56:
                op = g.clip(shape=False)
            elif r < 0.70:
                op = {"o": "hold", "mode": rng.choice(MODES), "ops": [self.within(g, rng) for _ in range(rng.randint(1, 3))],
                      "leave": rng.choice(["", "", "raise"])}
            elif r < 0.78:
                op = {"o": "flat", "ops": [g.feed()] if rng.random() < 0.4 else [], "leave": rng.choice(["", "", "raise"]), "load": rng.random() < 0.4}
            elif r < 0.83:
                op = {"o": "plain", "load": rng.random() < 0.5}
            elif r < 0.88:
                op = {"o": "convert", "s": new_seed(rng), "n": rng.randint(4, 6)}
            elif r < 0.92:
                op = {"o": "crash"}
            elif r < 0.96:
                op = {"o": "clean"}
            else:
                op = g.fault(("step", "chunk", "clip"))
                ops.append(op)
                op = {"o": "clean"}
            ops.append(op)
        return ops

    @staticmethod
    def bursts(rng, spec, shape):
        """One stream of a shared network is carried well past its warm-up, with a clip or a plain call in between."""
        g = OpGen(rng, spec, shape, via=0, layouts=0)
        ops = []
        clips = rng.choice([0.06, 0.06, 0.7])
        for _ in range(min(g.rf, 7) + rng.randint(1, 5)):
            op = {**g.step(), "o": "fstep", "k": 0}
            op.pop("via", None)
            ops.append(op)
            if rng.random() < clips:
                ops.append({**g.clip(shape=False), "via": rng.choice([0, 0, 1])})
        return ops

    @staticmethod
    def within(g, rng):
        r = rng.random()
        op = g.step() if r < 0.4 else g.chunk() if r < 0.7 else g.clip(shape=False) if r < 0.85 else g.peek()
        op["via"] = rng.choice([4, 4, 0, 1])  # as the ambient context says, by name, or under an inner context
        return op

    # -- execution

    def play(self, case, concurrent, log):
        """Returns the event lists of the threads."""
        co = library()
        n = len(case["threads"])
        logs = [EventLog() for _ in range(n)]
        shared = None
        if case.get("shared"):
            c = case["shared"]
            with torch.no_grad():
                shared = build({**c["spec"], "dtype": c["dtype"], "ws": c["ws"], "train": False})
            shared.eval()
            if c.get("mode"):
                shared.call_mode = c["mode"]
        sched = None

        def body(t):
            th = case["threads"][t]

            def run(me):
                lg = logs[t]
                try:
                    if th.get("use_shared"):
                        w = SharedWorld({**case["shared"], "shape": th["shape"], "ops": []}, lg, shared)
                    else:
                        w = ThreadWorld({**th, "ops": []}, lg)
                    w.pause = (lambda: sched.yield_point(me)) if concurrent else (lambda: None)
                    w.switches = (lambda: len(sched.taken)) if concurrent else (lambda: 0)
                    w.stats = stats
                    w.run(case[f"ops{t}"])
                except Excluded as e:
                    lg.ev("excluded:" + str(e))
                except Violation as v:
                    lg.ev(f"violation:{v.kind}: {v.message}")
                    lg.error = v
            return run

        stats = log if concurrent else Log()
        fns = [body(t) for t in range(n)]
        if not concurrent:
            import threading

            for f in fns:
                box = []

                def go(f=f):
                    try:
                        f(0)
                    except BaseException as e:  # noqa: BLE001
                        box.append(e)
                th = threading.Thread(target=go)
                th.start()
                th.join()
                if box:
                    raise box[0]
            return logs, None
        s = case["sched"]
        rng = rng_for(s.get("seed", 0), "sched")
        if case.get("switches") is not None:
            policy = list_policy(case["switches"])
        elif s["kind"] == "few":
            total = max(1, self.length)
            policy = priority_policy(rng, n, {rng.randrange(1, total + 1) for _ in range(s["d"])})
        else:
            policy = random_policy(rng, s["p"])
        sched = Scheduler(fns, policy, case.get("opcodes", False))
        if case["main"]:
            log.hit("main_context")
        with co.call_mode(case["main"]) if case["main"] else none(), co.utils.flat_state_dict if case["main_flat"] else none():
            sched.run()
            probe = library().Delay(1)
            if case["main"]:
                got = probe.forward_step(torch.ones(1, 1)) if case["main"] == "forward_step" else None
                probe.clean_state()
                got = probe(torch.ones(1, 1)) if case["main"] == "forward_step" else probe(torch.ones(1, 1, 3))
                exp = None if case["main"] == "forward_step" else (1, 1, 2) if case["main"] == "forward_steps" else (1, 1, 3)
                if (None if got is None else tuple(got.shape)) != exp:
                    raise Violation("main-context", f"the main thread's context {case['main']} was changed by the threads")
        for e in sched.errors:
            if e is not None:
                raise e
        return logs, sched

    length = 4000

    def execute(self, case, log):
        with torch.no_grad():
            alone, _ = self.play(case, False, log)
            self.length = 400 * sum(len(case[f"ops{t}"]) for t in range(len(case["threads"]))) // 4
            together, sched = self.play(case, True, log)
        self.last = (sched.taken, sched.point)
        log.ev("schedule", sched.taken, sched.point)
        log.hit("switches", len(sched.taken))
        log.hit("switch_in_library", max(0, len(sched.taken) - len(alone)))
        log.hit("points", sched.point)
        log.hit(f"threads_{len(alone)}")
        if case.get("opcodes"):
            log.hit("opcode_runs")
        log.states.add(int.from_bytes(hashlib.sha256(repr(sched.taken).encode()).digest()[:8], "big") >> 1)
        for t, (a, b) in enumerate(zip(alone, together)):
            log.states |= b.states
            log.sim_steps += b.sim_steps
            for k, v in b.c.items():
                log.hit(k, v)
            if a.error is not None:  # broken even alone: not a matter of threads
                log.hit("excluded_broken_alone")
                return
        if len(sched.taken) > len(alone) + 1:
            log.hit("nontrivial")
        for t, (a, b) in enumerate(zip(alone, together)):
            for ev in b.list:
                log.ev(ev[0], ev[1])
            if b.error is not None:
                raise Violation("interference", f"thread {t} (never alone): {b.error.kind}: {b.error.message}")
            if a.list != b.list:
                i = next((i for i, (x, y) in enumerate(zip(a.list, b.list)) if x != y), min(len(a.list), len(b.list)))
                raise Violation("interference", f"thread {t}: event {i} differs from the run alone: "
                                f"{b.list[i] if i < len(b.list) else 'missing'} instead of {a.list[i] if i < len(a.list) else 'nothing'}")

    # -- minimisation

    def signature(self, case):
        return [case["threads"], case.get("shared"), case["sched"], [[o["o"] for o in case[f"ops{t}"]] for t in range(len(case["threads"]))]]

    def shrink(self, case):
        if case.get("switches") is None:
            try:
                self.execute(case, Log())
            except Violation:
                pass
            yield {**copy.deepcopy(case), "switches": self.last[0]}
            return
        for key in ("main", "main_flat", "opcodes"):
            if case.get(key):
                yield {**copy.deepcopy(case), key: None if key == "main" else False}
        for t, th in enumerate(case["threads"]):
            ops = case[f"ops{t}"]
            for i, op in enumerate(ops):
                if op.get("ops"):
                    for j in range(len(op["ops"])):
                        c = copy.deepcopy(case)
                        del c[f"ops{t}"][i]["ops"][j]
                        yield c
        if len(case["threads"]) > 2:
            for t in range(len(case["threads"])):
                if not case[f"ops{t}"] and t == len(case["threads"]) - 1:
                    c = copy.deepcopy(case)
                    del c["threads"][t]
                    del c[f"ops{t}"]
                    yield c


class none:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class EventLog(Log):
    """Keeps every event, so that two runs can be compared."""

    def __init__(self):
        super().__init__()
        self.list = []
        self.error = None

    def ev(self, name, *objs):
        h = hashlib.sha256()
        for o in objs:
            digest_update(h, o)
        self.list.append((name, h.hexdigest()[:12]))
        super().ev(name, *objs)


class ThreadWorld(World):
    ambient = None

    def run_one(self, op):
        self.pause()
        super().run_one(op)

    def invoke(self, mode, x, via, **kw):
        if via == 4:
            if mode == self.ambient:
                return self.net(x, **kw)
            via = 0
        elif via == 2 and self.ambient:
            via = 0
        return super().invoke(mode, x, via, **kw)

    def op_hold(self, op):
        """A context held across operations; other threads run meanwhile."""
        outer, before = self.ambient, self.switches()
        try:
            with self.co.call_mode(op["mode"]):
                self.ambient = op["mode"]
                for o in op["ops"]:
                    self.run_one(o)
                self.pause()
                if op.get("leave") == "raise":
                    raise KeyError("left by an exception")
        except KeyError:
            pass
        finally:
            self.ambient = outer
        self.pause()
        self.record({"o": "hold"})
        self.stats.hit("contexts")
        if self.switches() > before:
            self.stats.hit("contexts_interrupted")

    def keys(self):
        return sorted(self.net.state_dict().keys())

    def op_flat(self, op):
        before = self.switches()
        try:
            with self.co.utils.flat_state_dict:
                self.pause()
                sd = self.legal("state_dict", self.net.state_dict)
                self.log.ev("flat-keys", sorted(sd))
                for o in op["ops"]:
                    self.run_one(o)
                if op.get("load"):
                    sd = through_disk(sd)
                    self.pause()
                    self.legal("load_state_dict", lambda: self.net.load_state_dict(sd))
                self.pause()
                if op.get("leave") == "raise":
                    raise KeyError("left by an exception")
        except KeyError:
            pass
        self.pause()
        self.log.ev("plain-keys", self.keys())
        self.stats.hit("flat_contexts")
        if self.switches() > before:
            self.stats.hit("flat_interrupted")

    def op_plain(self, op):
        self.pause()
        sd = self.legal("state_dict", self.net.state_dict)
        self.log.ev("plain-keys", sorted(sd))
        if op.get("load"):
            sd = through_disk(sd)
            self.pause()
            self.legal("load_state_dict", lambda: self.net.load_state_dict(sd))

    def op_convert(self, op):
        """Conversion of an ordinary network, and its use."""
        from torch import nn

        from sim.nets import init_weights

        net = nn.Sequential(nn.Conv1d(2, 3, 2), nn.ReLU(), nn.Sequential(nn.Conv1d(3, 2, 3), nn.BatchNorm1d(2)), nn.AvgPool1d(2, stride=1)).double()
        net.eval()
        init_weights(net, op["s"])
        c = self.legal("convert", lambda: self.co.continual(net))
        c.eval()
        x = torch.sin(torch.arange(2 * op["n"] * 2, dtype=torch.float64) + op["s"] % 7).reshape(2, 2, op["n"])
        self.pause()
        outs = [self.legal("forward_step", lambda i=i: c.forward_step(x[:, :, i])) for i in range(op["n"])]
        self.log.ev("converted", outs, c.receptive_field, sorted(c.state_dict()))
        if op["n"] >= 5:
            self.check(self.legal("forward", lambda: c.forward(x)), net(x), "forward of the converted network")
        self.stats.hit("conversions")

    def rebuild(self, op):
        super().rebuild(op)
        self.stats.hit("builds")

    def op_fault(self, op):
        super().op_fault(op)
        self.stats.hit("fault_in_thread")


class SharedWorld(ThreadWorld):
    def __init__(self, case, log, net):
        self.shared = net
        super().__init__(case, log)

    def make_net(self, ws=None):
        return self.shared

    def op_fstep(self, op):
        super().op_fstep({k: v for k, v in op.items() if k != "via"})
        self.stats.hit("shared_steps")

    def op_clip(self, op):
        if op.get("via") == 3 and self.case.get("mode") not in (None, "forward"):
            op = {**op, "via": 0}
        super().op_clip(op)
        self.stats.hit("shared_clips")


PROP = Prop()
