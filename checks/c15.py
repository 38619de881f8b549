"""C15: the exported ONNX step network, executed by onnxruntime, against the live network and the reference model."""
import copy
import io
import os
import sys
from contextlib import contextmanager

import numpy as np
import torch

from sim.core import Excluded
from sim.env import library
from sim.nets import spec_timing, walk
from sim.stream import OpGen, StreamProp, mixed_spec, new_seed
from sim.world import World, deep_clone, same_values, through_disk

# nets whose whole state carries the batch in the axis that the export declares as dynamic
ANY_BATCH = ("somha", "rmha", "tenc", "rpe", "skip", "lin", "act", "lam", "lam3", "pyfn", "add", "mulc", "ident", "seq", "bn", "ln")


def exportable(spec):
    for m in walk(spec):
        if m["t"] in ("conv", "pool") and m["s"][0] > 1:
            return False  # a strided step has no output at some steps, which a graph cannot express
        if m["t"] in ("fail", "user") or m["t"] == "tenc" and m["n"] > 1:
            return False  # the two-layer encoder bakes a buffer; a user's own modules
        if m["t"] == "apool" or m.get("div") or m.get("ceil"):  # torch's exporter: adaptive (loud), divisor and ceil (ignored or mis-sized)
            return False
    return True


class Prop(StreamProp):
    ID = "C15"
    RUNS = {"quick": 700, "thorough": 9000}
    PROBES = ["graph_steps", "live_steps", "module_steps", "exports", "handovers", "fault_crash_restart", "fault_suspend", "other_batch", "forks",
              "fault_export"]
    REAL = ["all code of continual/ under /repo used by the property, including continual/onnx.py", "torch (CPU) and its ONNX exporter",
            "onnxruntime (CPU, one thread)"]
    RULE = ("runs are drawn from the seed: a random network, several warmed-up streams, exports at random positions of random streams with random "
            "opset and folding, then an interleaving of graph steps, live explicit-state steps and module-held steps per stream with suspension to "
            "storage, forks, crashes and failed exports; non-trivial if a graph output was judged")
    STATE_MEASURE = "hash of (network, operation, who executed the previous step of the stream, position saturating at three receptive fields)"

    def generate(self, rng, tier, index):
        while True:
            spec, shape = mixed_spec(rng, rpe=0.4, stride=False)
            if spec["t"] in ("somha", "rmha"):  # bare attention takes query, key and value; only wrapped can it be exported
                spec = dict(t="seq", m=[spec])
            for m in walk(spec):
                if m["t"] in ("conv", "pool"):
                    m["s"][0] = 1
                    m.pop("defstride", None)
            if exportable(spec):
                break
        case = dict(spec=spec, shape=shape, ws=new_seed(rng), dtype="f32", pre=rng.random() < 0.3)
        case["anyb"] = all(m["t"] in ANY_BATCH for m in walk(spec))
        g = OpGen(rng, spec, shape, via=0, layouts=0.1, flips=0)
        for f in g.flags:  # the branch taken is part of the exported graph; prefer the one with state
            if not complete(spec, g.cur):
                g.cur[f] = not g.cur[f]
        n = rng.randint(1, 3)

        def sh(k):
            return [rng.randint(1, 3), *shape[1:]] if case["anyb"] and k and rng.random() < 0.5 else shape

        shapes = [sh(k) for k in range(n)]

        def on(k, o):
            return {**g.step(), "o": o, "k": k, "shape": shapes[k]}

        ops = [{**on(k, "warm"), "n": rng.randint(0, g.rf + 2)} for k in range(n)]
        ops += [on(rng.randrange(n), "lstep") for _ in range(rng.randint(0, 3))]
        ops.append(self.export(rng, dict(g.cur)))
        for _ in range(rng.randint(6, 2 * g.rf + 14)):
            r, k = rng.random(), rng.randrange(n)
            if r < 0.55:
                ops.append(on(k, "gstep"))
            elif r < 0.68:
                ops.append(on(k, "lstep"))
            elif r < 0.77:
                ops.append(on(k, "mstep"))
            elif r < 0.81:
                ops.append({"o": "suspend", "k": k})
            elif r < 0.86:
                ops.append({"o": "fork", "k": k, "to": rng.randrange(n)})
            elif r < 0.88:
                ops.append({**on(k, "warm"), "n": rng.randint(0, g.rf + 2)})
            elif r < 0.91:
                ops.append({"o": "gcrash"})
            elif r < 0.94:
                ops.append({"o": "badexport", "n": rng.randint(1, 30), "k": k, "opset": 13, "f": dict(g.cur)})
            elif r < 0.96:
                ops.append(self.export(rng, dict(g.cur), k))
            else:
                ops.append(g.feed() if rng.random() < 0.8 else g.clip(shape=False))
        return {**case, "ops": ops}

    @staticmethod
    def export(rng, f, k=0):
        return {"o": "export", "k": k, "opset": rng.choice([11, 13, 14, 17]), "fold": rng.random() < 0.5, "how": rng.choice(["co", "co", "wrap"]),
                "s": new_seed(rng), **({"f": f} if f else {})}

    def shrink(self, case):
        for c in super().shrink(case):
            if c["shape"] == case["shape"] and exportable(c["spec"]):
                yield c
        for i, op in enumerate(case["ops"]):
            if op["o"] == "warm" and op["n"]:
                c = copy.deepcopy(case)
                c["ops"][i]["n"] = 0
                yield c

    def execute(self, case, log):
        if any(not complete(case["spec"], op["f"]) for op in case["ops"] if "f" in op):
            raise Excluded("inactive_branch_without_state")
        w = OnnxWorld(case, log)
        w.net.eval()
        w.run()


@contextmanager
def quiet():
    """torch's exporter dumps the graph of a failed export to the standard output."""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def flat(state):
    if isinstance(state, torch.Tensor):
        return [state]
    if isinstance(state, (list, tuple)):
        return [t for s in state for t in flat(s)]
    return []


def stateful(spec):
    return any(m["t"] in ("pool", "skip", "rnn", "user", "somha", "rmha", "tenc", "rpe", "res", "br", "bpr") or m["t"] == "conv" and m["k"][0] > 1
               or m["t"] == "delay" and m["n"] > 0 for m in walk(spec))


def delay(spec):
    r, _, p = spec_timing(spec)
    return r - 1 - p


def complete(spec, flags):
    """A conditional's branch that was never taken has no state yet: such a network is not warmed up."""
    for m in walk(spec):
        if m["t"] == "cond":
            idle = m["b"] if flags[m["flag"]] else m["a"]
            if idle is not None and (stateful(idle) or delay(idle) != delay(m["a"] if idle is m["b"] else m["b"] or idle)):
                return False
    return True


def unflat(template, tensors):
    if isinstance(template, torch.Tensor):
        return tensors.pop(0)
    if isinstance(template, (list, tuple)):
        return type(template)(unflat(t, tensors) for t in template)
    return None


class OnnxWorld(World):
    def __init__(self, case, log):
        super().__init__(case, log)
        self.bytes = self.session = None
        self.lanes = {}  # stream -> dict(state, items, shape, by)

    # -- the graph

    def op_export(self, op, broken=False):
        lane = self.lanes.get(op["k"])
        if lane is None or lane["shape"] != self.shape:
            lane = next((x for x in self.lanes.values() if x["shape"] == self.shape), None)
        if lane is None:
            return
        self.set_flags(op)
        co = library()
        before = deep_clone(self.net.get_state())
        args = (self.frame(op), *[s.clone() for s in flat(lane["state"])])
        f = io.BytesIO()
        kw = dict(do_constant_folding=bool(op.get("fold")), opset_version=op["opset"])

        def go():
            if op.get("how") == "wrap":
                o = co.onnx.OnnxWrapper(self.net)
                torch.onnx.export(o, args, f, input_names=["input", *o.state_input_names], output_names=["output", *o.state_output_names],
                                  dynamic_axes={"input": {0: "batch"}, "output": {0: "batch"}, **o.state_dynamic_axes}, **kw)
            else:
                co.onnx.export(self.net, args, f, input_names=["input"], output_names=["output"], **kw)

        try:
            with quiet():
                self.legal("onnx export", go)
        except Exception as e:  # noqa: BLE001
            if "UnsupportedOperator" in str(e):
                raise Excluded("torch_exporter_lacks_operator")
            raise
        if not same_values(before, self.net.get_state()):
            self.fail("module-state", "exporting changed the state held by the module")
        if self.net.training:
            self.fail("settings", "exporting switched the network to training mode")
        self.bytes = f.getvalue()
        self.open()
        self.struct = deep_clone(lane["state"])
        self.record(op, len(flat(lane["state"])))
        self.log.hit("exports")

    def open(self):
        import onnxruntime as ort

        o = ort.SessionOptions()
        o.intra_op_num_threads = o.inter_op_num_threads = 1
        o.log_severity_level = 4
        self.session = ort.InferenceSession(self.bytes, o, providers=["CPUExecutionProvider"])
        self.names = {i.name for i in self.session.get_inputs()}

    def op_badexport(self, op):
        """An export which fails half way (a user function or an operation raises while tracing) leaves the live network unharmed."""
        from sim.faults import INJECTED, FaultMode

        lane = self.lanes.get(op["k"])
        if lane is None or lane["shape"] != self.shape:
            return
        self.set_flags(op)
        before = deep_clone(self.net.get_state())
        config = self.settings()
        args = (torch.zeros(self.shape, dtype=self.dtype), *[s.clone() for s in flat(lane["state"])])
        mode = FaultMode(op["n"], "before", "io")
        try:
            with quiet(), torch.no_grad(), mode:
                library().onnx.export(self.net, args, io.BytesIO(), input_names=["input"], output_names=["output"], opset_version=op["opset"])
        except INJECTED:
            pass
        except Exception:  # noqa: BLE001  (the exporter wraps errors)
            if not mode.fired:
                raise
        if not same_values(before, self.net.get_state()):
            self.fail("module-state", "a failed export changed the state held by the module")
        if self.settings() != config:
            self.fail("settings", "a failed export left other modes or settings behind")
        self.record(op, mode.fired)
        if mode.fired:
            self.log.hit("fault_export")

    def op_gcrash(self, op):
        """Both processes die: graph file, weights and the streams' states survive."""
        if self.bytes is None:
            return
        self.op_crash({"o": "crash"})
        self.net.eval()
        for lane in self.lanes.values():
            lane["state"] = through_disk(lane["state"])
        self.open()

    # -- streams

    def op_warm(self, op):
        """Start a stream over on the live network and run it until it yields outputs."""
        shape = op["shape"]
        state, items, got, exp = None, [], None, None
        i = 0
        while (got is None or i < op["n"]) and i < 4 * self.rf + 40:
            tag = self.set_flags(op)
            x = self.frame(op, i, shape)
            items = items + [(x, tag)]
            exp, _ = self.expect(items, 1)
            got, state = self.legal("_forward_step", lambda: self.net._forward_step(x.clone(), prev_state=state))
            self.check(got, exp, f"explicit-state step {i} of stream {op['k']}")
            i += 1
        self.log.sim_steps += i
        if got is None:
            raise Excluded("never_warm")
        self.lanes[op["k"]] = dict(state=deep_clone(state), items=items, shape=shape, by="live")
        self.record(op, got)

    def begin(self, op, who):
        lane = self.lanes.get(op["k"])
        if lane is None:
            return None
        tag = self.set_flags(op)
        x = self.frame(op, shape=lane["shape"])
        lane["items"] = lane["items"] + [(x, tag)]
        exp, _ = self.expect(lane["items"], 1)
        if lane["by"] != who:
            self.log.hit("handovers")
        self._sig(lane, who)
        lane["by"] = who
        self.log.sim_steps += 1
        return lane, x, exp

    def _sig(self, lane, who):
        self.case["_sig"] = f"{lane['by']}>{who}/{min(len(lane['items']), 3 * self.rf)}"

    def op_gstep(self, op):
        if self.session is None or op["k"] not in self.lanes:
            return
        lane, x, exp = self.begin(op, "graph")
        feed = {"input": np.ascontiguousarray(x.numpy())}
        for i, s in enumerate(flat(lane["state"])):
            feed[f"s{i}"] = s.numpy()
        keep = {k: v.copy() for k, v in feed.items()}
        feed = {k: v for k, v in feed.items() if k in self.names}  # inputs without any influence are not part of a graph
        try:
            got, *nxt = self.session.run(None, feed)
        except Exception as e:  # noqa: BLE001
            self.fail("graph-raised", f"the exported graph refused a step: {type(e).__name__}: {str(e)[:300]}")
        for k, v in feed.items():
            if not np.array_equal(v, keep[k], equal_nan=True):
                self.fail("input-modified", f"the graph changed its input {k}")
        what = f"graph output at step {len(lane['items']) - 1} of stream {op['k']}"
        self.check(torch.from_numpy(np.asarray(got)), exp, what)
        old = flat(lane["state"])
        if len(nxt) != len(old):
            self.fail("graph-state", f"the graph returns {len(nxt)} state tensors, the live network has {len(old)}")
        new = [torch.from_numpy(np.array(a)) for a in nxt]
        for i, (a, b) in enumerate(zip(new, old)):
            if a.shape != b.shape or a.dtype != b.dtype:
                self.fail("graph-state", f"state {i} returned by the graph is {tuple(a.shape)} {a.dtype}, the live one {tuple(b.shape)} {b.dtype}")
        lane["state"] = unflat(self.struct, list(new))
        self.record(op, torch.from_numpy(np.asarray(got)))
        self.log.hit("graph_steps")
        self.log.hit("nontrivial")
        if lane["shape"] != self.shape:
            self.log.hit("other_batch")

    def op_lstep(self, op):
        if op["k"] not in self.lanes:
            return
        lane, x, exp = self.begin(op, "live")
        got, state = self.legal("_forward_step", lambda: self.net._forward_step(x.clone(), prev_state=lane["state"]))
        self.check(got, exp, f"live explicit-state step {len(lane['items']) - 1} of stream {op['k']}")
        lane["state"] = deep_clone(state)
        self.record(op, got)
        self.log.hit("live_steps")

    def op_mstep(self, op):
        """The state moves into the module for one step, replacing the module's own stream meanwhile."""
        if op["k"] not in self.lanes:
            return
        lane, x, exp = self.begin(op, "module")
        if not flat(lane["state"]):
            return self.lanes.pop(op["k"])
        own = deep_clone(self.legal("get_state", self.net.get_state))
        self.legal("set_state", lambda: self.net.set_state(deep_clone(lane["state"])))
        got = self.legal("forward_step", lambda: self.net.forward_step(x.clone()))
        self.check(got, exp, f"live step {len(lane['items']) - 1} of stream {op['k']}")
        lane["state"] = deep_clone(self.legal("get_state", self.net.get_state))
        self.load_state(own)
        self.record(op, got)
        self.log.hit("module_steps")

    def op_suspend(self, op):
        if op["k"] in self.lanes:
            self.lanes[op["k"]]["state"] = through_disk(self.lanes[op["k"]]["state"])
            self.record(op)
            self.log.hit("fault_suspend")

    def op_fork(self, op):
        if op["k"] in self.lanes and op["k"] != op["to"]:
            self.lanes[op["to"]] = {**self.lanes[op["k"]], "state": deep_clone(self.lanes[op["k"]]["state"])}
            self.record(op)
            self.log.hit("forks")


PROP = Prop()
