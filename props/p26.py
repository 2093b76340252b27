"""P26 noise models"""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torchimage.random import add_gauss_noise, add_poisson_gauss_noise

from lib import cmp, gen
from lib.core import Test, Violation, call

ID = "P26"
RULE = ("one case = one seeded noise call on a small tensor with its reruns, or one sample of about 20000 elements tested for its distribution, or one of up to 260000 for repeats; "
        "non-trivial = positive noise parameters on a tensor of two or more elements")
ASSUMPTIONS = ["floating tensors; nonnegative x and positive k for the Poisson model; scalar k and sigma",
               "distribution tests have a false-alarm probability below 1e-12 each (DKW bound, normal tails for moments)"]

SIG = st.one_of(st.sampled_from([0, 0.0, 1, 2, 0.5, -1.5, 25.0, 0.001]), st.floats(0.01, 10))
FAR = st.sampled_from([1e-12, -1e-25, 1e-35, 1e10, -1e18, 1e30, 1e-170, -1e-200, 1e-290, 1e160, 1e200, -1e290])
KK = st.one_of(st.sampled_from([1, 2, 0.5, 4, 0.25, 0.1, 3.0]), st.floats(0.05, 20))


@st.composite
def r_call(draw):
    dts = ("f64", "f64", "f32")
    kinds = draw(st.sampled_from((("normal",), ("int",), ("unit",), ("big",))))
    shape = draw(gen.shapes(0, 4, 1, 6, 200)) if draw(st.integers(0, 11)) else draw(st.sampled_from([[0], [2, 0]]))
    x = draw(gen.tensors(shape, dtypes=dts, kinds=kinds))
    return {"x": x, "x2": draw(gen.fills(("normal", "int", "unit", "const"))), "k": draw(KK), "sigma": draw(SIG) if draw(st.integers(0, 7)) else draw(FAR), "m": draw(st.sampled_from([2, 0.5, 4, 3, 10])),
            "seed": draw(st.integers(0, 2 ** 45)), "gen": draw(st.booleans()), "poisson": draw(st.booleans()), "bright": draw(st.sampled_from((0, 0, 0, 0, 0, 4, 6, 7, 9)))}


def run_call(c):
    x, a = gen.make(c["x"])
    a2 = gen.values(c["x"]["shape"], c["x"]["dtype"], c["x2"])
    if not 1e-3 <= abs(c["sigma"]) <= 1e3 and c["sigma"]:  # only a black image lets such noise be seen
        a, a2 = np.zeros_like(a), np.zeros_like(a2)
        if x.dtype != torch.float64 and not 1e-30 <= abs(c["sigma"]) <= 1e30:
            return False, ["noise outside the range of float32"]
        x = gen.tensor_of(a)
    if c["poisson"]:
        a, a2 = np.abs(a), np.abs(a2)
        if c["bright"] and x.dtype == torch.float64:
            a = a * 10.0 ** c["bright"] * c["k"]
        x = gen.tensor_of(a, c["x"].get("layout", "c") if a.size else "c", c["x"].get("grad", False))
    x2 = gen.tensor_of(a2)
    k, s, m = c["k"], c["sigma"], c["m"]
    name = "add_poisson_gauss_noise" if c["poisson"] else "add_gauss_noise"
    what = f"{name}(shape {a.shape}, {'k=%r, ' % k if c['poisson'] else ''}sigma={s!r})"
    eps = cmp.EPS[x.dtype]

    def go(t, sigma, other=0):
        g = torch.Generator().manual_seed(c["seed"] + other) if c["gen"] else None
        if g is None:
            torch.manual_seed(c["seed"] + other)
        state = torch.get_rng_state()
        before = t.detach().clone()
        if c["poisson"]:
            y = call(add_poisson_gauss_noise, t, k, sigma, generator=g)
        else:
            y = call(add_gauss_noise, t, sigma, generator=g)
        if g is not None:
            cmp.is_true(torch.equal(state, torch.get_rng_state()), what + ": the global random state changed although a generator was given")
        cmp.equal(t, before.numpy(), what + ": x afterwards")
        cmp.shape_is(y, a.shape, what)
        cmp.same_dtype(y, t.dtype, what)
        if not torch.isfinite(y).all():
            raise Violation(what + ": result is not finite")
        cmp.is_true(y.data_ptr() != t.data_ptr() or y.numel() == 0, what + ": the result shares memory with x")
        return y.detach().numpy().astype(np.float64)
    y = go(x, s)
    torch.manual_seed(5)
    z = go(x, s)
    if not np.array_equal(y, z):
        raise Violation(what + ": two calls with the same seed differ")
    v = a.astype(np.float64)
    zero = go(x, 0)
    if not c["poisson"]:
        if not np.array_equal(zero, v):
            raise Violation(what + ": with sigma 0 the result is not x")
        y2 = go(x2, s)
        mag = np.abs(v) + np.abs(a2.astype(np.float64)) + np.abs(y) + np.abs(y2)
        if np.any(np.abs((y - v) - (y2 - a2)) > 8 * eps * mag):
            raise Violation(what + ": the noise depends on the value of x")
    else:
        cnt = zero / k
        if np.any(cnt < 0) or np.any(np.abs(cnt - np.round(cnt)) > 4 * eps * np.maximum(cnt, 1)):
            raise Violation(what + f": with sigma 0 a value is not a nonnegative multiple of k: {zero.ravel()[:8]}")
        if np.any(zero[v == 0] != 0):
            raise Violation(what + ": Poisson noise on zeros")
    base = zero if c["poisson"] else v
    ym = go(x, s * m)
    mag = np.abs(base) + np.abs(y) + np.abs(ym)
    if np.any(np.abs((ym - base) - (y - base) * m) > 16 * eps * (1 + m) * mag):
        raise Violation(what + f": noise at {m} times sigma is not {m} times the noise")
    if s and a.size > 1 and not c["bright"] and (x.dtype == torch.float64 or abs(s) > 1e-2 or not a.any()):
        n = y - base
        if a.size >= 4 and len(np.unique(n)) == 1:
            raise Violation(what + ": the same noise on every element")
        if a.size >= 4 and np.array_equal(go(x, s, 1), y):
            raise Violation(what + ": another seed gives the same noise")
    if s and x.dtype == torch.float64 and a.size > 1 and not c["poisson"]:
        # on a zero image the noise itself is visible: a continuous distribution never repeats a value
        n = go(torch.zeros_like(x), s)
        if len(np.unique(n)) < a.size:
            raise Violation(what + ": different elements receive the same noise")
    return a.size > 1 and s != 0, ["poisson" if c["poisson"] else "gauss", c["x"]["dtype"], "nd=%d" % a.ndim, "gen" if c["gen"] else "global",
                                 "sigma<0" if s < 0 else "sigma=0" if s == 0 else "sigma>0", "empty" if not a.size else "full"]


# ---------------------------------------------------------------- distribution
@st.composite
def r_dist(draw):
    shape = draw(st.sampled_from([[20000], [100, 200], [2, 3, 60, 60], [20, 10, 100], [5000, 4]]))
    return {"shape": shape, "dtype": draw(st.sampled_from(("f64", "f32"))), "k": draw(KK), "sigma": draw(SIG), "lam": draw(st.sampled_from([0.3, 1, 4.5, 20, 80, 300, 5000])),
            "poisson": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 45)), "ramp": draw(st.booleans()), "layout": draw(st.sampled_from(("c", "perm:3", "expand:0")))}


def ncdf(z):
    t = np.linspace(-9, 9, 20001)
    v = np.array([0.5 * math.erfc(-q / math.sqrt(2)) for q in t[::10]])
    return np.interp(z, t[::10], v)


def dkw(sample, cdf_left, cdf):
    """largest distance between the empirical and the true distribution function, atoms included"""
    s = np.sort(sample)
    n = len(s)
    up = np.searchsorted(s, s, side="right") / n
    lo = np.searchsorted(s, s, side="left") / n
    return max(np.max(np.abs(up - cdf(s))), np.max(np.abs(lo - cdf_left(s))))


def pcdf(lam):
    top = int(lam + 40 * math.sqrt(lam) + 60)
    p = np.array([math.exp(-lam + i * math.log(lam) - math.lgamma(i + 1)) for i in range(top)])
    F = np.concatenate([[0.0], np.cumsum(p)])

    def cdf(z):
        return F[np.clip(np.floor(z).astype(int) + 1, 0, top)]

    def left(z):
        return F[np.clip(np.ceil(z).astype(int), 0, top)]
    return left, cdf


def run_dist(c):
    shape = tuple(c["shape"])
    N = int(np.prod(shape))
    k, s, lam = float(c["k"]), float(c["sigma"]), c["lam"]
    lev = np.full(shape, k * lam)
    if c["ramp"] and not c["layout"].startswith("expand"):
        lev[:, ...] *= np.where(np.arange(N).reshape(shape) % 2 == 0, 1.0, 3.0)
    a = lev.astype(gen.nd(c["dtype"]))
    x = gen.tensor_of(a, c["layout"])
    g = torch.Generator().manual_seed(c["seed"])
    name = "add_poisson_gauss_noise" if c["poisson"] else "add_gauss_noise"
    what = f"{name}(shape {shape} {c['dtype']}, {'k=%r, x/k=%r, ' % (k, lam) if c['poisson'] else ''}sigma={s!r})"
    y = call(add_poisson_gauss_noise, x, c["k"], c["sigma"], generator=g) if c["poisson"] else call(add_gauss_noise, x, c["sigma"], generator=g)
    cmp.shape_is(y, shape, what)
    y = y.numpy().astype(np.float64)
    n = (y - a.astype(np.float64))
    L = math.log(2e13)
    tol_d = math.sqrt(L / (2 * N))
    kap = 3.0
    if c["poisson"]:
        var = k * a.astype(np.float64) + s * s
        kap = 3.0 + float(np.max(k ** 3 * a.astype(np.float64) / var ** 2))
    else:
        var = np.full(shape, s * s)
    if s == 0 and not c["poisson"]:
        return False, ["no noise"]
    coarse = cmp.EPS[torch.float32] if c["dtype"] == "f32" else 0.0
    if coarse * np.max(a) > 1e-3 * math.sqrt(np.min(var)):
        return False, ["noise below the resolution"]
    z = (n / np.sqrt(var)).ravel()
    zmax = 8.0
    heavy = zmax * math.sqrt(kap / N) * (1 + 3 * kap / math.sqrt(N))
    if abs(z.mean()) > zmax / math.sqrt(N) * (1 + kap / math.sqrt(N)) + 1e-3:
        raise Violation(f"{what}: standardised noise has mean {z.mean():.4f}")
    if abs(z.var() - 1) > heavy + 2e-3:
        raise Violation(f"{what}: noise variance is {z.var():.4f} times the stated one")
    arr = z.reshape(shape)
    for ax in range(len(shape)):
        for lag in (1, 2):
            if shape[ax] > lag:
                u, v = np.take(arr, np.arange(shape[ax] - lag), ax).ravel(), np.take(arr, np.arange(lag, shape[ax]), ax).ravel()
                if u.size > 2000 and abs(np.mean(u * v)) > zmax * kap / math.sqrt(u.size):
                    raise Violation(f"{what}: noise at distance {lag} along axis {ax} is correlated: {np.mean(u * v):.4f}")
    if not c["poisson"]:
        d = dkw(z, ncdf, ncdf)
        if d > tol_d + 2e-3:
            raise Violation(f"{what}: distance {d:.4f} from the normal distribution")
    elif s == 0:
        for lv in np.unique(a):
            q = np.round(y[a == lv] / k)
            left, cdf = pcdf(float(lv) / k)
            d = dkw(q, left, cdf)
            if d > math.sqrt(L / (2 * q.size)) + 1e-4:
                raise Violation(f"{what}: distance {d:.4f} from the Poisson distribution")
    else:
        # remove the signal's own part: with a common seed the zero-sigma run shares the Poisson draw
        g.manual_seed(c["seed"])
        p = call(add_poisson_gauss_noise, x, c["k"], 0, generator=g).numpy().astype(np.float64)
        r = (y - p) / abs(s)
        if coarse * max(np.max(p), 1) < 1e-4 * abs(s):
            d = dkw(r.ravel(), ncdf, ncdf)
            if d > tol_d + 2e-3:
                raise Violation(f"{what}: distance {d:.4f} of the additive part from the normal distribution")
    return True, ["poisson" if c["poisson"] else "gauss", c["dtype"], "lam=%s" % lam if c["poisson"] else "-", "sigma=0" if s == 0 else "sigma", c["layout"][:4]]


# ---------------------------------------------------------------- large tensors: no part of the noise repeats, fades or is missing
@st.composite
def r_big(draw):
    shape = draw(st.sampled_from([[70001], [140000], [262145], [300, 400], [2, 3, 170, 131], [1030, 70], [3, 65600], [9, 130, 130], [66000, 2], [1, 1, 512, 400], [1100000], [3, 700, 800], [1024, 1025]]))
    return {"shape": shape, "dtype": draw(st.sampled_from(("f64", "f32"))), "k": draw(st.sampled_from([1, 0.5, 2.0])), "sigma": draw(st.sampled_from([1.0, 0.5, 2, -1.5])),
            "lam": draw(st.sampled_from([0.3, 4.5, 20, 1e7])), "poisson": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 45)), "quiet": draw(st.booleans())}


def run_big(c):
    shape = tuple(c["shape"])
    if c["lam"] > 1e6:  # float32 does not resolve noise on such levels
        c = dict(c, dtype="f64")
    N = int(np.prod(shape))
    k, s = float(c["k"]), float(c["sigma"])
    a = np.full(shape, k * c["lam"], dtype=gen.nd(c["dtype"]))
    x = torch.from_numpy(a)
    g = torch.Generator().manual_seed(c["seed"])
    what = f"{'add_poisson_gauss_noise' if c['poisson'] else 'add_gauss_noise'}(shape {shape} {c['dtype']}, sigma={s!r})"
    if c["poisson"]:
        if c["quiet"]:
            s = 0.0
        y = call(add_poisson_gauss_noise, x, c["k"], s, generator=g)
        var, kap = k * float(a.flat[0]) + s * s, 3.0 + 1.0 / c["lam"]
    else:
        y = call(add_gauss_noise, x if not c["quiet"] else torch.zeros_like(x), c["sigma"], generator=g)
        a = a if not c["quiet"] else np.zeros_like(a)
        var, kap = s * s, 3.0
    cmp.shape_is(y, shape, what)
    n = (y.numpy().astype(np.float64) - a.astype(np.float64)).ravel()
    z = n / math.sqrt(var)
    if not c["poisson"] and c["quiet"]:
        distinct = len(np.unique(n))
        if distinct < N * (1.0 if c["dtype"] == "f64" else 0.9):
            raise Violation(f"{what}: only {distinct} distinct noise values on {N} elements")
    # every stretch has the stated mean and variance
    for size in (2000, max(2000, N // 7)):
        for lo in list(range(0, N - size + 1, size)) + [N - size]:
            q = z[lo:lo + size]
            if abs(q.mean()) > 9 / math.sqrt(size) * (1 + kap / math.sqrt(size)) + 1e-3:
                raise Violation(f"{what}: noise on elements {lo}..{lo + size} has mean {q.mean():.4f}")
            if abs(q.var() - 1) > 9 * math.sqrt(kap / size) * (1 + 3 * kap / math.sqrt(size)) + 2e-3:
                raise Violation(f"{what}: noise variance on elements {lo}..{lo + size} is {q.var():.4f} times the stated one")
    # no lag at which the noise resembles itself
    f = np.fft.rfft(z - z.mean(), 2 * N)
    r = np.fft.irfft(np.abs(f) ** 2, 2 * N)[1:N] / N
    worst = int(np.argmax(np.abs(r)))
    if abs(r[worst]) > 9 / math.sqrt(N) * (1 + kap / math.sqrt(N)):
        raise Violation(f"{what}: noise at a distance of {worst + 1} elements is correlated: {r[worst]:.4f}")
    return True, ["poisson" if c["poisson"] else "gauss", c["dtype"], "quiet" if c["quiet"] else "-"]


TESTS = [Test("call", run_call, strategy=r_call(), quick=5000), Test("dist", run_dist, strategy=r_dist(), quick=400),
         Test("big", run_big, strategy=r_big(), quick=60)]
