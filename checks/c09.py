"""C09: declared delay, stride and receptive field against the observed stream and its recovery from corruption."""
import torch

from sim import specs
from sim.nets import spec_timing, walk
from sim.stream import OpGen, StreamProp, base_case
from sim.world import World, make_frame
from sim.core import derive


class Prop(StreamProp):
    ID = "C09"
    RUNS = {"quick": 4000, "thorough": 24000}
    PROBES = ["recoveries", "fault_corrupted_frame", "warm_ups", "reach_checks", "positions"]
    RULE = ("runs are drawn from the seed: a random network, a random schedule of steps and chunks, random corrupted (NaN, inf) frames and "
            "an optional warm-up; a run is non-trivial if at least one output's position and value were judged")

    def generate(self, rng, tier, index):
        r = rng.random()
        if r < 0.4:
            nd = specs.pick(rng, 1, 1, 2, 3)
            sp = specs.spatial(rng, nd, 3, 4)
            spec = specs.leaf_temporal(rng, nd, sp, shrink=False, kinds=("conv", "conv", "pool", "pool", "delay", "apool"))
            shape = [rng.randint(1, 3), specs.in_channels(spec, rng.randint(1, 3)), *sp]
        elif r < 0.5:
            C = rng.choice([2, 4])
            while True:
                spec = specs.attn_unit(specs.Env(rng, 1, C, []), False)
                if retro_free(spec):
                    break
            shape = [rng.randint(1, 3), C]
        else:
            while True:
                spec, shape = specs.net(rng, attn=0.12, rnn=False, skipmod=False)
                if retro_free(spec) and not undelayed_skip(spec):
                    break
        case = base_case(rng, spec, shape, grad=0)
        g = OpGen(rng, spec, shape, flips=0, via=0.05)
        if rng.random() < 0.25 and not attention(spec):
            case["warm"], case["dtype"] = True, "f32"
        if rng.random() < 0.1:
            case["peek_first"] = True
        ops, n, total = [], 0, rng.randint(6, 4 * g.rf + 10)
        p = rng.choice([0.0, 0.05, 0.1, 0.25])
        while n < total:
            op = g.feed()
            k = op.get("n", 1)
            ys = [rng.choice([5, 6, 7, 8, 8]) if rng.random() < p else 0 for _ in range(k)]
            op["y"] = ys
            ops.append(op)
            n += k
        return {**case, "ops": ops}

    def shrink(self, case):
        for c in super().shrink(case):
            yield c
        for key in ("warm", "peek_first"):
            if case.get(key):
                yield {**case, key: False}

    def execute(self, case, log):
        w = World(case, log)
        net, spec = w.net, w.spec
        rf, delay, stride = int(net.receptive_field), int(net.delay), int(net.stride[0] if isinstance(net.stride, tuple) else net.stride)
        log.ev("declared", rf, delay, stride)
        if not (rf >= 1 and stride >= 1 and 0 <= delay):
            w.fail("declared", f"declared receptive field {rf}, delay {delay}, stride {stride}")
        attn = attention(spec)
        # with dispatched streams, the maximum over all pairings is declared, which need not be attained
        tight = all(m["t"] not in ("const", "cond") and m.get("disp") is None for m in walk(spec))
        blind = can_be_blind(spec)
        items, kinds = [], []  # kinds: 0 fine, 1 corrupted/unknown, 8 entirely NaN
        if case.get("warm"):
            tag = w.set_flags(case["ops"][0] if case["ops"] else {})
            w.legal("warm_up", lambda: net.warm_up(tuple(w.shape)))
            items += [(torch.zeros(w.shape, dtype=w.dtype), tag)] * delay
            kinds += [1] * delay
            log.hit("warm_ups")
            log.hit("nontrivial")
        for i, op in enumerate(case["ops"]):
            w.op_index = i
            tag = w.set_flags(op)
            k = op.get("n", 1)
            ys = op.get("y") or [0] * k
            ys = (list(ys) + [0] * k)[:k] if isinstance(ys, list) else [ys] * k
            fed = []
            for j, y in enumerate(ys):
                clean = make_frame(derive(op["s"], j), w.shape, w.dtype, 0)
                dirty = clean if not y else (torch.full_like(clean, float("nan")) if y == 8
                                             else make_frame(derive(op["s"], j), w.shape, w.dtype, y))
                fed.append(dirty)
                items.append((clean, tag))
                kinds.append(0 if not y else (8 if y == 8 else 1))
                if y:
                    log.hit("fault_corrupted_frame")
            if case.get("peek_first"):
                w.legal("preview", lambda: w.invoke("forward_step", fed[0], op.get("via", 0), update_state=False))
            if op["o"] == "step":
                got = w.legal("forward_step", lambda: w.invoke("forward_step", fed[0].clone(), op.get("via", 0)))
                got = [] if got is None else [got]
            else:
                x = torch.stack(fed, 2)
                got = w.empty_is_none(w.legal("forward_steps", lambda: w.invoke("forward_steps", x, op.get("via", 0))))
                got = [] if got is None else list(got.unbind(2))
            log.sim_steps += k
            T0 = len(items) - k
            outs = w.refrun(lambda: w.ref.run(items))
            if attn:  # known finding: the declared delay is the query's distance, not the first output's
                due = [t for t in range(T0, len(items)) if outs[t] is not None]
            else:
                due = [t for t in range(T0, len(items)) if t >= delay and (t - delay) % stride == 0]
            log.ev(op["o"], got)
            log.hit("positions")
            if len(got) != len(due):
                w.fail("position", f"{op['o']} of frames {T0}..{len(items) - 1} gave {len(got)} outputs, but with the declared delay {delay} "
                                   f"and stride {stride} outputs are due at {due}")
            outs = w.refrun(lambda: w.ref.run(items))
            if SHOW_STATE:
                key = (case["spec"].get("t"), rf, delay, stride, min(T0, rf + 2), tuple(kinds[-min(rf, 6):]))
                log.states.add(derive(repr(key)))
            for t, y in zip(due, got):
                win = kinds[max(0, t - rf + 1): t + 1]
                if not any(win):
                    exp = None if outs[t] is None else outs[t][0]
                    w.check(y, exp, f"output at frame {t}, all corrupted frames being at least a receptive field ({rf}) away",
                            "recovery")
                    log.hit("nontrivial")
                    if any(kinds[:t]):
                        log.hit("recoveries")
                elif tight and t - rf + 1 >= 0 and kinds[t - rf + 1] == 8:
                    if blind:  # a strided window over little but padding may sample no element of the frame
                        nan = [(torch.full_like(f, float("nan")) if i == t - rf + 1 else f, g) for i, (f, g) in enumerate(items)]
                        seen = w.refrun(lambda: w.ref.run(nan))[t]
                        if seen is not None and bool(torch.isfinite(seen[0]).all()):
                            continue
                    log.hit("reach_checks")
                    if bool(torch.isfinite(y).all()):
                        w.fail("reach", f"the NaN frame {t - rf + 1} does not reach the output at frame {t}, "
                                        f"although the declared receptive field is {rf}")
        w.op_index = -1


SHOW_STATE = True


def can_be_blind(spec):
    """Spatial padding together with spatial strides or dilation: whole frames may go unseen."""
    def some(keys, ok):
        return any(isinstance(m.get(key), list) and any(isinstance(v, int) and ok(v) for v in m[key][1:])
                   for m in walk(spec) for key in keys)

    return some("p", lambda v: v > 0) and some("sd", lambda v: v > 1)


def undelayed_skip(spec):
    """A conditional without else-branch passes frames on undelayed (known finding)."""
    for m in walk(spec):
        if m["t"] == "cond" and m.get("b") is None:
            rf, _, p = spec_timing(m["a"])
            if rf - 1 - p:
                return True
    return False


def attention(spec):
    return any(m["t"] in ("somha", "tenc", "rmha") for m in walk(spec))


def retro_free(spec):
    """Retroactive attention recovers only after two windows (known finding)."""
    return all(m["t"] != "rmha" and not (m["t"] == "tenc" and m["n"] > 1) for m in walk(spec))


PROP = Prop()
