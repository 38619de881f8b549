"""Seeds, violations, comparison, minimisation, parallel deterministic execution, evidence."""
import hashlib
import json
import random
import signal
import threading
import time
import traceback
from collections import Counter

import torch



class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message, op=None):
        super().__init__(f"[{kind}] {message}")
        self.kind = kind
        self.message = message
        self.op = op


class InvalidCase(Exception):
    """A (minimised) case which is not a legal workload; never a violation."""


class Excluded(Exception):
    """The rest of this run is outside of what the property claims (counted, not judged)."""


def derive(*parts) -> int:
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng_for(*parts) -> random.Random:
    return random.Random(derive(*parts))


# ---------------------------------------------------------------------------------------
# Comparison


def tol_for(dtype):
    return 1e-8 if dtype == torch.float64 else 4e-4


def describe(x):
    if x is None:
        return "None"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(describe(i) for i in x) + "]"
    if isinstance(x, torch.Tensor):
        flat = x.detach().reshape(-1)[:4].tolist()
        return f"tensor{tuple(x.shape)}{['%.6g' % v for v in flat]}"
    return repr(x)


def mismatch(got, exp, scale=1.0, tol=1e-8):
    """Return None if equal, else a short text. NaNs and infinities have to coincide."""
    if exp is None or got is None:
        return None if (exp is None and got is None) else f"got {describe(got)}, expected {describe(exp)}"
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            return f"got {describe(got)}, expected {describe(exp)}"
        for i, (g, e) in enumerate(zip(got, exp)):
            m = mismatch(g, e, scale, tol)
            if m:
                return f"item {i}: {m}"
        return None
    if not isinstance(got, torch.Tensor):
        return f"got {describe(got)}, expected {describe(exp)}"
    if tuple(got.shape) != tuple(exp.shape):
        return f"got shape {tuple(got.shape)}, expected {tuple(exp.shape)}"
    if got.dtype != exp.dtype:
        return f"got dtype {got.dtype}, expected {exp.dtype}"
    got, exp = got.detach(), exp.detach()
    if exp.numel() == 0:
        return None
    fin_e, fin_g = torch.isfinite(exp), torch.isfinite(got)
    if not torch.equal(fin_e, fin_g):
        n = int((fin_e != fin_g).sum())
        return f"{n}/{exp.numel()} elements differ in finiteness: got {describe(got)}, expected {describe(exp)}"
    z = torch.zeros_like(exp)
    e0, g0 = torch.where(fin_e, exp, z), torch.where(fin_e, got, z)
    lim = tol * (scale + float(e0.abs().max()))
    err = float((e0 - g0).abs().max())
    if not err <= lim:
        i = int((e0 - g0).abs().reshape(-1).argmax())
        return (
            f"max error {err:.3e} (limit {lim:.1e}) at flat index {i}: "
            f"got {float(got.reshape(-1)[i]):.9g}, expected {float(exp.reshape(-1)[i]):.9g}"
        )
    if not bool(fin_e.all()):
        # the kind of non-finite value must agree up to nan/inf being both 'poisoned'
        pass
    return None


def digest_update(h, x):
    if x is None:
        h.update(b"N")
    elif isinstance(x, torch.Tensor):
        h.update(str((tuple(x.shape), str(x.dtype))).encode())
        h.update(x.detach().contiguous().numpy().tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for i in x:
            digest_update(h, i)
        h.update(b"]")
    else:
        h.update(repr(x).encode())


class Log:
    """Event log of one run: counters, probes, and a digest over everything observable."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.c = Counter()
        self.states = set()
        self.events = 0
        self.sim_steps = 0

    def ev(self, name, *objs):
        self.events += 1
        self.h.update(name.encode())
        for o in objs:
            digest_update(self.h, o)

    def hit(self, name, n=1):
        self.c[name] += n

    def digest(self):
        return self.h.hexdigest()


# ---------------------------------------------------------------------------------------
# Execution of a case (pure function of the case and of the library)


HANG_SECONDS = 120  # a run takes milliseconds; one that does not end makes no progress


def _hang(signum, frame):
    raise Violation("hang", f"the run made no progress for {HANG_SECONDS} s")


def run_case(prop, case):
    """Execute a case. Returns (violation or None, log)."""
    log = Log()
    torch.manual_seed(0)
    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.signal(signal.SIGALRM, _hang)
        signal.alarm(HANG_SECONDS)
    try:
        prop.execute(case, log)
        return None, log
    except Excluded as e:
        log.hit("excluded_" + str(e))
        return None, log
    except Violation as v:
        log.ev("violation:" + v.kind)
        return v, log
    finally:
        if main:
            signal.alarm(0)


def gen_case(prop, seed, index, tier):
    rng = rng_for(seed, prop.ID, index)
    case = prop.generate(rng, tier, index)
    case["seed"] = seed
    case["index"] = index
    return case


# ---------------------------------------------------------------------------------------
# Minimisation


def ddmin(items, test, budget):
    """Greedy chunk removal."""
    n = max(1, len(items) // 2)
    while n >= 1 and budget[0] > 0:
        i, removed = 0, False
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + n:]
            budget[0] -= 1
            if test(cand):
                items, removed = cand, True
            else:
                i += n
        if not removed or n == 1:
            if n == 1 and not removed:
                break
            n = n if removed and n == 1 else n // 2
        else:
            n = max(1, n // 2) if n > 1 else 1
    return items


def _candidates(prop, case):
    """What the property offers as simpler cases; a defect there must not hide the violation."""
    try:
        yield from prop.shrink(case)
    except Exception:  # noqa: BLE001
        traceback.print_exc()


def minimise(prop, case, kind, wall=60.0):
    """Shrink the case while the same kind of violation persists."""
    deadline = time.monotonic() + wall
    budget = [600]

    def fails(c):
        if time.monotonic() > deadline:
            return False
        try:
            v, _ = run_case(prop, c)
        except Exception:  # noqa: BLE001  (illegal shrink, harness refuses it)
            return False
        return v is not None and v.kind == kind

    best = json.loads(json.dumps(case))

    def try_ops(field):
        nonlocal best

        def t(items):
            return fails({**best, field: items})

        best = {**best, field: ddmin(list(best[field]), t, budget)}

    for _ in range(3):
        before = json.dumps(best, sort_keys=True)
        for field in prop.OP_FIELDS:
            if field in best:
                try_ops(field)
        progress = True
        while progress and budget[0] > 0 and time.monotonic() < deadline:
            progress = False
            for cand in _candidates(prop, best):
                budget[0] -= 1
                if budget[0] <= 0:
                    break
                if fails(cand):
                    best = json.loads(json.dumps(cand))
                    progress = True
                    break
        if json.dumps(best, sort_keys=True) == before:
            break
    return best


# ---------------------------------------------------------------------------------------
# Workers


def _worker_run(args, begin=lambda index: None):
    prop_id, seed, tier, indices, deadline = args
    from checks import load

    prop = load(prop_id)
    out = []
    for i in indices:
        if time.monotonic() > deadline:
            break
        t0 = time.monotonic()
        case = None
        begin(i)
        try:
            case = gen_case(prop, seed, i, tier)
            v, log = run_case(prop, case)
        except Exception as e:  # noqa: BLE001
            invalid = isinstance(e, InvalidCase)
            out.append(dict(index=i, error=f"{type(e).__name__}: {e}\n{traceback.format_exc()}", case=case, invalid=invalid))
            if invalid:
                continue
            break
        rec = dict(
            index=i,
            digest=log.digest(),
            counters=dict(log.c),
            events=log.events,
            steps=log.sim_steps,
            states=log.states,
            nontrivial=log.c.get("nontrivial", 0) > 0,
            sig=hashlib.sha256(json.dumps(prop.signature(case), sort_keys=True).encode()).hexdigest()[:16],
            t=time.monotonic() - t0,
        )
        if v is not None:
            rec["violation"] = dict(kind=v.kind, message=v.message)
            rec["case"] = case
        if i < 2:
            rec["sample"] = case
        out.append(rec)
        if v is not None and len([1 for r in out if "violation" in r]) >= 3:
            break
    return out


def _worker_loop(conn, others):
    for c in others:
        c.close()
    try:
        while True:
            job = conn.recv()
            conn.send(("done", _worker_run(job, lambda i: conn.send(("begin", i)))))
    except (EOFError, OSError, KeyboardInterrupt):
        pass


def died(prop_id, seed, tier, index, code):
    """A run which ended its process."""
    from checks import load

    case = gen_case(load(prop_id), seed, index, tier)
    return dict(index=index, case=case, violation=dict(kind="died", message=f"the process died in the middle of the run (exit code {code})"))


def run_batch(prop_id, seed, tier, n_runs, workers, wall_cap):
    """Run n_runs simulated runs; results are merged by run index (independent of workers)."""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    chunk = max(1, min(25, n_runs // (workers * 4) or 1))
    deadline = time.monotonic() + wall_cap
    jobs = [
        (prop_id, seed, tier, list(range(a, min(a + chunk, n_runs))), deadline)
        for a in range(0, n_runs, chunk)
    ]
    todo, done, crew = list(enumerate(jobs))[::-1], {}, {}

    def hire():
        ours, theirs = ctx.Pipe()
        w = ctx.Process(target=_worker_loop, args=(theirs, [c for c in crew] + [ours]), daemon=True)
        w.start()
        theirs.close()
        crew[ours] = dict(process=w, job=None, at=None, served=0)
        give(ours)

    def give(conn):
        w = crew[conn]
        if todo and w["served"] < 200:
            w["job"], w["at"], w["served"] = todo.pop(), None, w["served"] + 1
            conn.send(w["job"][1])
        else:
            dismiss(conn)
            if todo:
                hire()

    def dismiss(conn):
        w = crew.pop(conn)
        conn.close()
        w["process"].terminate()
        w["process"].join()

    def enough():
        """Results are used up to the first chunk with a violation, so that they do not depend on timing."""
        errors = 0
        for k in range(len(jobs)):
            if k not in done:
                return False
            errors += len([1 for x in done[k] if "error" in x])
            if any("violation" in x for x in done[k]) or errors > max(20, n_runs // 100):
                del jobs[k + 1:]
                return True
        return True

    for _ in range(min(workers, len(jobs))):
        hire()
    while crew and not enough():
        for conn in wait(list(crew)):
            w = crew[conn]
            try:
                kind, what = conn.recv()
            except (EOFError, OSError):  # the process has died in the middle of a run
                k, job = w["job"]
                i = job[3][0] if w["at"] is None else w["at"]
                w["process"].join(5)
                done[k] = [died(prop_id, seed, tier, i, w["process"].exitcode)]
                dismiss(conn)
                if todo:
                    hire()
                continue
            if kind == "begin":
                w["at"] = what
            else:
                done[w["job"][0]] = what
                give(conn)
    for conn in list(crew):
        dismiss(conn)
    results = [r for k in range(len(jobs)) for r in done.get(k, [])]
    return results
