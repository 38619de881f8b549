"""Random network descriptions. Everything is drawn from the run's seeded generator.

Chains keep the number of channels and the spatial shape constant, so that any layer of a
chain can be dropped while a failure is being minimised; "lock" marks the exceptions."""
import math

from .nets import spec_reduction, spec_timing, walk


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def upto(rng, lo, hi, big, p=0.06):
    """Usually a small size, now and then a larger one."""
    return rng.randint(hi + 1, big) if rng.random() < p else rng.randint(lo, hi)


def batch(rng):
    return upto(rng, 1, 3, 9)


def spatial(rng, nd, lo=3, hi=5):
    if nd > 1 and rng.random() < 0.05:
        lo, hi = (1, 3) if rng.random() < 0.4 else (5, 8)
    return [rng.randint(lo, hi) for _ in range(nd - 1)]


# ---------------------------------------------------------------------------------------
# single modules with arbitrary configurations (C01 and friends)


def leaf_conv(rng, nd, sp, ci=None, co=None, stride=True):
    g = pick(rng, 1, 1, 1, 2) if rng.random() > 0.05 else rng.randint(3, 4)
    ci = ci or g * upto(rng, 1, 2, 5)
    co = co or g * upto(rng, 1, 2, 5)
    if ci % g or co % g:
        g = 1
    k = [upto(rng, 1, 5, 12)]
    p = [rng.randint(0, k[0] - 1)]
    s = [(pick(rng, 1, 1, 1, 2, 2, 3) if rng.random() > 0.04 else rng.randint(4, 7)) if stride else 1]
    d = [1]
    pm = pick(rng, "zeros", "zeros", "zeros", "replicate")
    for w in sp:
        kk = min(w, upto(rng, 1, 3, 5))
        dd = rng.randint(2, (w - 1) // (kk - 1)) if kk > 1 and w > 2 * (kk - 1) and rng.random() < 0.3 else 1
        pp = rng.randint(0, min(kk - 1, 1) if pm != "zeros" else kk)
        k.append(kk), d.append(dd), p.append(pp), s.append(upto(rng, 1, 2, 3))
    if pm != "zeros" and p[0] > 0:
        # the clip computation would pad time in another way than the stream does
        pass
    return dict(t="conv", nd=nd, ci=ci, co=co, k=k, s=s, p=p, d=d, g=g, bias=rng.random() < 0.7, pm=pm if nd > 1 else "zeros",
                tf=pick(rng, None, "zeros", "replicate"))


def leaf_pool(rng, nd, sp, stride=True):
    kind = pick(rng, "avg", "max")
    k = [upto(rng, 1, 4, 9)]
    dt = (pick(rng, 1, 1, 1, 2, 3) if rng.random() > 0.03 else rng.randint(4, 6)) if k[0] > 1 else 1
    p = [rng.randint(0, k[0] // 2)]
    s = [(pick(rng, 1, 1, 2, 3) if rng.random() > 0.04 else rng.randint(4, 7)) if stride else 1]
    d = [dt]
    for w in sp:
        kk = min(w, upto(rng, 1, 3, 5))
        k.append(kk), p.append(rng.randint(0, kk // 2)), s.append(rng.randint(1, 2))
        d.append(2 if kind == "max" and kk == 2 and w >= 4 and rng.random() < 0.25 else 1)
    spec = dict(t="pool", nd=nd, kind=kind, k=k, s=s, p=p, d=d, tf=pick(rng, None, "zeros", "replicate"))
    if kind == "max" and rng.random() < 0.3:
        spec["tf"] = "neg_inf"
    if nd > 1 and s[0] == 1 and rng.random() < 0.2:
        spec["ceil"] = True
    if kind == "avg":
        spec["cip"] = True if p[0] else rng.random() < 0.7
        if nd > 1 and dt == 1 and rng.random() < 0.2:
            spec["div"] = rng.randint(1, 9)
    if stride and nd == 1 and rng.random() < 0.1:
        spec["s"], spec["defstride"] = list(k), True
    return spec


def leaf_apool(rng, nd, sp, stride=True):
    k = upto(rng, 1, 4, 9)
    out = [None if rng.random() < 0.15 else rng.randint(1, min(2, w)) for w in sp]
    spec = dict(t="apool", nd=nd, kind=pick(rng, "avg", "max"), k=k, out=out)
    if all(o == 1 for o in out) and rng.random() < 0.4:
        spec["ints"] = True
    if rng.random() < 0.5:
        spec.update(s=pick(rng, 1, 1, 2, 3) if stride else 1, p=rng.randint(0, k - 1), d=pick(rng, 1, 1, 2, 3),
                    tf=pick(rng, None, "zeros", "replicate"))
        if spec["kind"] == "max" and rng.random() < 0.3:
            spec["tf"] = "neg_inf"
    return spec


def leaf_delay(rng):
    return dict(t="delay", n=upto(rng, 0, 6, 20), tf=pick(rng, "zeros", "replicate"),
                shrink=pick(rng, False, False, False, True, "centered", "lagging"))


def leaf_temporal(rng, nd, sp, C=None, stride=True, shrink=True, kinds=("conv", "conv", "conv", "pool", "pool", "delay", "skip", "apool")):
    kind = pick(rng, *kinds)
    if kind == "apool" and nd == 1:
        kind = "pool"
    if kind == "conv":
        return leaf_conv(rng, nd, sp, ci=C, stride=stride)
    if kind == "pool":
        return leaf_pool(rng, nd, sp, stride=stride)
    if kind == "apool":
        return leaf_apool(rng, nd, sp, stride)
    if kind == "delay":
        s = leaf_delay(rng)
        if not shrink:
            s["shrink"] = False
        return s
    return dict(t="skip", n=upto(rng, 1, 4, 15))


def in_channels(s, default):
    for m in walk(s):
        if m["t"] in ("conv", "lin", "rnn"):
            return m["ci"]
        if m["t"] in ("somha", "rmha", "tenc", "rpe"):
            return m["e"]
        if m["t"] == "bn":
            return m["c"]
    return default


# ---------------------------------------------------------------------------------------
# shape-preserving units for compositions


class Env:
    """What the chain carries: number of spatial dims, channels, spatial shape, and options."""

    def __init__(self, rng, nd, C, sp, **opt):
        self.rng, self.nd, self.C, self.sp = rng, nd, C, sp
        self.stride = opt.get("stride", True)          # allow temporal strides
        self.neutral = opt.get("neutral", False)       # only modules whose clip equals the flushed stream
        self.flags = opt.get("flags", [])              # names of conditional flags
        self.fail = opt.get("fail", False)
        self.attn = opt.get("attn", False)
        self.rnn = opt.get("rnn", True)
        self.cond = opt.get("cond", True)
        self.padding = opt.get("padding", True)
        self.skipmod = opt.get("skipmod", True)


def conv_same(env, k=None, p=None, s=1):
    rng, C = env.rng, env.C
    k = k or upto(rng, 1, 4, 8, 0.03)
    p = (rng.randint(0, k - 1) if env.padding else 0) if p is None else p
    sk = [pick(rng, 1, 3) for _ in env.sp]
    pm = pick(rng, "zeros", "zeros", "zeros", "replicate") if env.nd > 1 and not (env.neutral and p) else "zeros"
    return dict(t="conv", nd=env.nd, ci=C, co=C, k=[k, *sk], s=[s] + [1] * len(sk), p=[p, *[(q - 1) // 2 for q in sk]],
                d=[1] * env.nd, g=pick(rng, 1, C) if C <= 4 else 1, bias=rng.random() < 0.7, pm=pm,
                tf=None if env.neutral else pick(rng, None, "zeros", "replicate"))


def pool_same(env, k=None, p=None, s=1, d=None):
    rng = env.rng
    kind = pick(rng, "avg", "max")
    k = k or rng.randint(1, 3)
    d = d or (pick(rng, 1, 1, 2) if k > 1 and not (env.neutral and kind == "avg") else 1)
    p = (rng.randint(0, k // 2) if env.padding else 0) if p is None else p
    sk = [pick(rng, 1, 3) if w > 1 else 1 for w in env.sp]
    tf = None if env.neutral else pick(rng, None, None, "zeros", "replicate")
    return dict(t="pool", nd=env.nd, kind=kind, k=[k, *sk], s=[s] + [1] * len(sk), p=[p, *[(q - 1) // 2 for q in sk]],
                d=[d] + [1] * len(sk), tf=tf)


def pointwise(env):
    rng, C, nd = env.rng, env.C, env.nd
    kinds = ["act", "act", "lin", "bn", "lam", "lam3", "pyfn", "add", "mulc", "ident", "ln", "const"]
    if env.fail and rng.random() < 0.3:
        return dict(t="fail", flag=f"boom{rng.randint(0, 1)}")
    k = pick(rng, *kinds)
    if k == "act":
        return dict(t="act", name=pick(rng, "relu", "sigmoid", "tanh", "gelu", "elu", "hardtanh", "softplus", "silu", "leaky",
                                       "softmax", "logsoftmax", "softsign", "dropout"), wrap=pick(rng, None, "fs", "co"))
    if k == "lin":
        return dict(t="lin", ci=C, co=C, bias=rng.random() < 0.8, cd=1)
    if k == "bn":
        return dict(t="bn", nd=nd, c=C)
    if k == "ln":
        # over the trailing spatial dims (channels-first frames)
        return dict(t="ln", shape=list(env.sp)) if nd > 1 else dict(t="ident")
    if k in ("lam", "lam3", "pyfn"):
        return dict(t=k, fn=pick(rng, "sq", "halfabs", "shift"), time=rng.random() < 0.5)
    if k == "add":
        return dict(t="add", v=round(rng.uniform(-1, 1), 2))
    if k == "mulc":
        return dict(t="mulc", v=round(rng.uniform(0.5, 1.5), 2))
    if k == "const":
        return dict(t="ident") if rng.random() < 0.8 else dict(t="const", which=pick(rng, "c", "0", "1"), v=1.5)
    return dict(t="ident")


def conv_timed(env, r, p, s):
    """A module with given clip reduction r = rf-1-2p, padding p and stride s, or None."""
    rng = env.rng
    k = r + 2 * p + 1
    if rng.random() < 0.3 and p <= k // 2 and not (env.neutral and r < 0):
        if k <= 4 or rng.random() < 0.5:
            return pool_same(env, k=k, p=p, s=s, d=1)
    return conv_same(env, k=k, p=p, s=s)


def branch(env, r, s, depth):
    """A branch with reduction r and stride s."""
    rng = env.rng
    if r == 0 and s == 1 and rng.random() < 0.25:
        return pick(rng, dict(t="ident"), dict(t="delay", n=upto(rng, 0, 4, 9), tf="zeros"),
                    dict(t="lam", fn="halfabs"), dict(t="lin", ci=env.C, co=env.C, bias=True, cd=1))
    if r == 0 and s == 1 and env.flags and env.cond and rng.random() < 0.05:
        return cond(env, 0, False)
    if r == 0 and s == 1 and env.rnn and rng.random() < 0.05:
        return rnn_unit(env) if env.nd == 1 else dict(t="user", kind="ema", a=round(rng.uniform(0.1, 0.9), 2))
    p = rng.randint(0, 2) if env.padding else 0
    main = conv_timed(env, r, p, s)
    x = rng.random()
    if x < 0.5:
        return main
    parts = [main]
    if x < 0.8 or depth <= 0:
        if rng.random() < 0.5 and env.padding:
            parts.append(conv_same(env, k=3, p=1, s=1))
        parts.insert(rng.randint(0, len(parts)), pointwise_light(env))
        return dict(t="seq", m=parts, named=rng.random() < 0.3)
    if s == 1 and env.padding:
        parts.append(res(env, depth - 1, same=True) if rng.random() < 0.7 else br0(env))
    return dict(t="seq", m=parts) if len(parts) > 1 else main


def pointwise_light(env):
    return pick(env.rng, dict(t="act", name="tanh"), dict(t="act", name="relu"), dict(t="lam", fn="shift"), dict(t="ident"),
                dict(t="bn", nd=env.nd, c=env.C), dict(t="add", v=0.3))


def width(rng):
    """Number of parallel branches: now and then many, also more than ten (whose names are not in alphabetical order)."""
    x = rng.random()
    return rng.randint(2, 3) if x < 0.92 else rng.randint(4, 5) if x < 0.98 else rng.randint(11, 12)


def br(env, depth, s=None):
    rng = env.rng
    s = s if s is not None else (pick(rng, 1, 1, 1, 2, 3) if env.stride else 1)
    r = pick(rng, 0, 0, 0, 1, 2)
    n = width(rng)
    red = pick(rng, "sum", "sum", "mul" if n < 9 else "max", "max", "mean", "concat")
    unit = dict(t="br", m=[branch(env, r, s, depth if n < 4 else 0) for _ in range(n)], red=red, named=rng.random() < 0.3)
    if red == "concat":
        unit = dict(t="seq", m=[unit, dict(t="lin", ci=n * env.C, co=env.C, bias=True, cd=1)], lock=True)
    return unit


def bpr(env, depth):
    rng = env.rng
    s = pick(rng, 1, 1, 1, 2) if env.stride else 1
    r = pick(rng, 0, 0, 1)
    n = width(rng)
    unit = dict(t="bpr", m=[branch(env, r, s, depth if n < 4 else 0) for _ in range(n)], red=pick(rng, "sum", "max", "mean", "mul" if n < 9 else "sum"),
                infer=rng.random() < 0.6, named=rng.random() < 0.2)
    if env.rnn and rng.random() < 0.15:
        unit["fan"] = True  # a user's module derives the streams
    if rng.random() < 0.6:
        m = rng.randint(2, 3)
        disp, post = [], []
        r2 = pick(rng, 0, 0, 1)
        for _ in range(m):
            if rng.random() < 0.25:
                disp.append([rng.randrange(n) for _ in range(2)])
                post.append(dict(t="seq", m=[dict(t="reduce", red=pick(rng, "sum", "max")), branch(env, r2, 1, 0)], lock=True))
            else:
                disp.append(rng.randrange(n))
                post.append(branch(env, r2, 1, 0))
        unit["disp"], unit["post"] = disp, post
    return unit


def res(env, depth, same=False):
    rng = env.rng
    sub = Env(rng, env.nd, env.C, env.sp, stride=False, neutral=env.neutral, padding=env.padding, skipmod=env.skipmod, rnn=env.rnn)
    r = 0 if same or rng.random() < 0.5 else pick(rng, 1, 2, 2, 4) if rng.random() < 0.9 else rng.randint(5, 9)
    p = rng.randint(0, 2) if env.padding else 0
    m = conv_timed(sub, r, p, 1)
    if rng.random() < 0.4:
        parts = [m, pointwise_light(env)]
        if depth > 0 and rng.random() < 0.4 and env.padding:
            parts.append(pick(rng, res(env, depth - 1, same=True), br0(env)))
        rng.shuffle(parts)
        m = dict(t="seq", m=parts)
    rf, _, pp = spec_timing(m)
    shrink = False
    if spec_reduction(m):
        # without padding only; the residual's alignment is otherwise not defined
        if pp or any(q["t"] == "delay" and q["n"] for q in walk(m)):
            return res(env, depth, same=True)
        shrink = pick(rng, "lagging", "leading", *(([True, "centered"]) if (rf - 1) % 2 == 0 else []))
    elif rng.random() < 0.1 and not any(q["t"] == "delay" and q["n"] for q in walk(m)):
        shrink = pick(rng, True, "centered", "lagging", "leading")  # nothing to shrink
    return dict(t="res", m=m, red=pick(rng, "sum", "sum", "mul", "max", "mean"), shrink=shrink,
                tf=pick(rng, None, None, "zeros", "replicate"))


def br0(env):
    sub = Env(env.rng, env.nd, env.C, env.sp, stride=False, neutral=env.neutral, padding=env.padding, skipmod=env.skipmod, rnn=env.rnn,
              flags=env.flags, cond=env.cond)
    return dict(t="br", m=[branch(sub, 0, 1, 0) for _ in range(2)], red="sum")


def cond(env, depth, top):
    rng = env.rng
    flag = pick(rng, *env.flags)
    if top:
        a = chain(Env(rng, env.nd, env.C, env.sp, stride=False, neutral=env.neutral, padding=env.padding, cond=False,
                      rnn=env.rnn, skipmod=env.skipmod), rng.randint(1, 2), depth - 1)
        b = None if rng.random() < 0.35 else chain(
            Env(rng, env.nd, env.C, env.sp, stride=False, neutral=env.neutral, padding=env.padding, cond=False, rnn=env.rnn,
                skipmod=env.skipmod),
            rng.randint(1, 2), depth - 1)
    else:
        a, b = pointwise_light(env), pick(rng, None, pointwise_light(env))
    return dict(t="cond", flag=flag, a=a, b=b)


def user_unit(env):
    rng = env.rng
    if env.rnn and rng.random() < 0.5:
        return dict(t="user", kind="ema", a=round(rng.uniform(0.1, 0.9), 2))
    return dict(t="user", kind="diff", n=rng.randint(1, 3))


def rnn_unit(env):
    rng = env.rng
    return dict(t="rnn", kind=pick(rng, "rnn", "gru", "lstm"), ci=env.C, h=env.C, layers=rng.randint(1, 2), bias=rng.random() < 0.8)


def attn_unit(env, last=False):
    rng = env.rng
    h = pick(rng, 1, 2) if env.C % 2 == 0 else 1
    kind = pick(rng, "somha", "somha", "tenc", "tenc", "rmha" if last else "somha")
    if env.C % 4 == 0 and rng.random() < 0.2:
        h = 4
    L = upto(rng, 2, 5, 11)
    if kind == "tenc":
        t = dict(t="tenc", e=env.C, h=h, ff=rng.randint(2, 6), L=L, n=pick(rng, 1, 1, 1, 1, 2, 2, 3), act=pick(rng, "relu", "gelu", "gelu_s"),
                 norm=rng.random() < 0.4)
        if rng.random() < 0.3:
            t["eps"] = pick(rng, 0.5, 0.01)
        return t
    s = dict(t=kind, e=env.C, h=h, L=L, bias=rng.random() < 0.7)
    if kind == "somha":
        s["q"] = pick(rng, -1, -1, 0, L - 1, rng.randrange(L))
    return s


def unit(env, depth, top=True):
    rng = env.rng
    x = rng.random()
    if x < 0.26:
        return conv_same(env, s=pick(rng, 1, 1, 1, 2, 3) if env.stride else 1)
    if x < 0.36:
        return pool_same(env, s=pick(rng, 1, 1, 2) if env.stride else 1)
    if x < 0.40:
        return dict(t="delay", n=upto(rng, 0, 4, 9), tf=pick(rng, "zeros", "replicate"))
    if x < 0.42 and env.skipmod:
        return dict(t="skip", n=upto(rng, 1, 3, 7))
    if x < 0.62:
        return pointwise(env)
    if x < 0.73 and depth > 0:
        return res(env, depth - 1)
    if x < 0.83 and depth > 0:
        return br(env, depth - 1)
    if x < 0.88 and depth > 0:
        return bpr(env, depth - 1)
    if x < 0.94 and env.cond and env.flags:
        return cond(env, depth, top)
    if x < 0.97 and depth > 0:
        return chain(env, rng.randint(1, 3), depth - 1, top=False)
    if env.nd == 1 and env.rnn and rng.random() < 0.6:
        return rnn_unit(env)
    if rng.random() < 0.6:
        return user_unit(env)
    return pointwise(env)


def chain(env, n, depth, top=True):
    rng = env.rng
    ms = [unit(env, depth, top) for _ in range(n)]
    strided = [m for m in ms if spec_timing(m)[1] > 1]
    for m in strided[2 if rng.random() < 0.2 else 1:]:  # few stages with stride keep the streams productive
        ms[ms.index(m)] = conv_same(env, s=1)
    if top and rng.random() < 0.02:  # a long chain
        for _ in range(rng.randint(9, 12)):
            ms.insert(rng.randint(0, len(ms)), pointwise_light(env) if rng.random() < 0.8 else dict(t="delay", n=1, tf="zeros"))
    s = dict(t="seq", m=ms, named=rng.random() < 0.3)
    if rng.random() < 0.15:
        s["append"] = rng.randint(1, len(ms))
        s["named"] = False
    return s


def morph(s, env):
    """Append a change of the frames' shape, as between a backbone and its head, and what follows it."""
    rng, C, sp = env.rng, env.C, list(env.sp)
    if rng.random() < 0.5:
        s["m"] = [{**s}]
    s.pop("append", None)
    ms = s["m"]
    if env.nd > 1 and not env.neutral and rng.random() < 0.4:
        a = leaf_apool(rng, env.nd, sp, stride=not any(spec_timing(m)[1] > 1 for m in ms))
        ms.append(a)
        sp = [w if o is None else o for o, w in zip(a["out"], sp)]
    contig = rng.random() < 0.5
    if env.nd == 1:
        g = pick(rng, *[g for g in range(1, C + 1) if C % g == 0])
        C, sp = g, [C // g]
        ms.append(dict(t="reshape", shape=[C, *sp], contig=contig))
    elif env.nd == 3 and rng.random() < 0.4:
        sp = [sp[0] * sp[1]]
        ms.append(dict(t="reshape", shape=[C, *sp], contig=contig))
    else:
        C, sp = C * math.prod(sp), []
        if rng.random() < 0.5:
            ms.append(dict(t="reshape", shape=[C], contig=contig))
        else:
            ms.append(dict(t="lam", fn="flat", time=False))
        if C > 4:
            o = rng.randint(1, 4)
            ms.append(dict(t="lin", ci=C, co=o, bias=True, cd=1))
            C = o
    env = Env(rng, 1 + len(sp), C, sp, stride=env.stride and not any(spec_timing(m)[1] > 1 for m in ms), neutral=env.neutral,
              flags=env.flags, rnn=env.rnn, cond=env.cond, padding=env.padding, skipmod=env.skipmod)
    n = rng.randint(0, 2)
    s["lock"] = "shape"
    if n:
        tail = chain(env, n, 1)
        ms += [tail] if rng.random() < 0.5 else tail["m"]
    return env


FLAG_NAMES = ["fa", "fb"]


def net(rng, **opt):
    """A random composed network. Returns (spec, shape of a frame (B, C, *spatial))."""
    nd = opt.pop("nd", None) or pick(rng, 1, 1, 1, 2, 2, 3)
    C = opt.pop("C", None) or rng.randint(1, 4)
    attn = opt.pop("attn", 0.15)
    rpe = opt.pop("rpe", 0.0)
    flags = FLAG_NAMES if opt.get("cond", True) else []
    use_attn = nd == 1 and rng.random() < attn
    if use_attn and C % 2 and rng.random() < 0.7:
        C = pick(rng, 2, 4)
    sp = spatial(rng, nd, 3, 4) if nd > 1 else []
    env = Env(rng, nd, C, sp, flags=flags, **opt)
    s = chain(env, rng.randint(1, 4), 2)
    if rng.random() < 0.15:  # a container which is not inside of a sequential network
        bare = [m for m in s["m"] if m["t"] in ("br", "bpr", "res", "cond")] or [res(env, 1)]
        if not (env.stride is False and any(spec_timing(m)[1] > 1 for m in bare)):
            return rng.choice(bare), [batch(rng), C, *sp]
    if not use_attn and rng.random() < (0.2 if nd > 1 else 0.06):
        env = morph(s, env)
    if use_attn:
        ms, i = s["m"], rng.randint(0, len(s["m"]))
        last = i == len(ms)
        u = attn_unit(env, last)
        ms.insert(i, u)
        s.pop("append", None)
        if rpe and rng.random() < rpe:
            ms.insert(i, dict(t="rpe", e=C, n=rng.randint(max(2, u["L"]), 2 * u["L"] + 2), learned=rng.random() < 0.7 or C % 2 == 1))
    return s, [batch(rng), C, *sp]


def memoryless(s):
    return all(m["t"] not in ("rnn", "user", "rmha", "tenc", "somha") for m in walk(s))
