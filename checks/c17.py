"""C17: white and pink noise are additive, unbiased and of the configured strength."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, layout, layouts, seeds


def make(kind, sigma, fmin, seed):
    from simcats.distortions import SensorPotentialPinkNoise, SensorResponseWhiteNoise

    rng = np.random.default_rng(seed)
    return SensorResponseWhiteNoise(sigma=sigma, rng=rng) if kind == "white" else SensorPotentialPinkNoise(sigma=sigma, fmin=fmin, rng=rng)


def apply(kind, x, data, r1=(0.0, 1.0), r2=(0.0, 1.0)):
    key = "sensor_response" if kind == "white" else "mu_sens"
    return quiet(x.noise_function, **{key: data}, volt_limits_g1=np.array(r1), volt_limits_g2=np.array(r2))


def signal(c, shape):
    rng = np.random.default_rng(c["data"])
    a = rng.normal(c["mean"], c["spread"], shape)
    if c["kind_s"] == "const":
        a[...] = c["mean"]
    if c["kind_s"] == "steps":
        a = np.round(a * 3) / 3
    return a


@st.composite
def cases(draw):
    shape = draw(st.one_of(st.tuples(ints(1, 30), ints(2, 30)), st.tuples(ints(2, 200)))) if draw(ints(0, 9)) else (draw(ints(2, 5)),)
    if draw(ints(0, 29)) == 0:  # large scans
        shape = draw(st.one_of(st.tuples(ints(30, 150), ints(30, 150)), st.tuples(ints(200, 20000))))
    return {"lay": draw(layouts), "kind": draw(st.sampled_from(["white", "pink"])), "shape": list(shape), "sigma": draw(st.one_of(LOG(1e-4, 10), dist.sampler(0.01, 2.0), st.just(0.0))), "fmin": draw(st.sampled_from([0, 0, 0.05, 0.2, 0.5])),
            "seed": draw(seeds), "data": draw(seeds), "mean": draw(U(-5, 5)), "spread": draw(LOG(1e-3, 10)), "kind_s": draw(st.sampled_from(["any", "const", "steps"])), "n": draw(ints(1, 4)), "factor": draw(st.one_of(LOG(0.1, 10), LOG(1e-15, 1e9))),
            "w": draw(dist.toy_windows(one="2d"))}


def check(c):
    k, shape = c["kind"], tuple(c["shape"])
    size = int(np.prod(shape))
    fmin = min(0.5, max(c["fmin"], 0))
    obj = make(k, dist.build_param(c["sigma"]), fmin, c["seed"])
    unit = make(k, 1.0, fmin, c["seed"])
    flat = make(k, 1.0, fmin, c["seed"])
    scaled = make(k, c["factor"], fmin, c["seed"])
    expect(obj.latest_sigma is None, "strength reported before the first use")
    for j in range(c["n"]):
        x = layout(signal(c, shape) + j, c["lay"])
        keep = x.copy()
        y = apply(k, obj, x, c["w"]["r1"], c["w"]["r2"])
        expect_equal(x, keep, f"call {j}: input modified")
        expect(y is not x and not np.shares_memory(x, y), f"call {j}: output shares memory with the input")
        s = obj.latest_sigma
        if not isinstance(c["sigma"], dict):
            expect(s == c["sigma"], f"call {j}: latest strength", got=s, want=c["sigma"])
        else:
            expect(s == obj.sigma.last_sample(), f"call {j}: latest strength is not the last sample", got=s, want=obj.sigma.last_sample())
        n = apply(k, unit, np.zeros(shape))
        tol = 1e-12 * (np.max(np.abs(x)) + 10 * s + 1)
        expect_close(y, x + s * n, f"call {j}: noise depends on the signal, the window, or is not proportional to the strength", atol=tol)
        if s == 0:
            expect_equal(y, keep, f"call {j}: zero strength changes the signal")
        expect_close(apply(k, scaled, layout(np.zeros(shape), c["lay"])), c["factor"] * n, f"call {j}: noise not proportional to the strength", atol=1e-12 * c["factor"])
        expect_close(apply(k, flat, np.zeros(size)), n.ravel(), f"call {j}: noise does not run through the scan row by row", atol=1e-12)
        expect(np.all(np.isfinite(n)), "noise not finite")
        if size > 2 and k == "white":
            expect(np.unique(n).size == size, f"call {j}: repeated white noise samples")
    obj.sigma = 0.0  # a changed parameter takes effect
    expect_equal(apply(k, obj, x), keep, "strength set to zero later")
    expect(obj.latest_sigma == 0.0 and obj.sigma == 0.0, "changed strength not reported")
    return True, [k, f"{len(shape)}d", c["lay"], "large" if size > 2000 else "small", "sampler" if isinstance(c["sigma"], dict) else "fixed"]


# ---------------------------------------------------------------- statistics
Z = 7.0


@st.composite
def stat_cases(draw):
    return {"kind": draw(st.sampled_from(["white", "pink"])), "shape": [draw(ints(40, 90)), draw(ints(40, 90))], "sigma": draw(LOG(1e-3, 10)), "fmin": draw(st.sampled_from([0, 0, 0.01, 0.1, 0.5])), "seed": draw(seeds), "calls": draw(ints(4, 10)), "level": draw(U(-3, 3))}


def corr(a, b, msg):
    a, b = a.ravel() - a.mean(), b.ravel() - b.mean()
    r = float(a @ b / math.sqrt((a @ a) * (b @ b)))
    expect(abs(r) < Z / math.sqrt(a.size), msg, correlation=r, samples=a.size)


def check_stat(c):
    k, shape = c["kind"], tuple(c["shape"])
    obj = make(k, c["sigma"], c["fmin"], c["seed"])
    runs = np.array([(apply(k, obj, np.full(shape, c["level"])) - c["level"]) / c["sigma"] for _ in range(c["calls"])])
    N = runs.size
    if k == "white":
        expect(abs(runs.mean()) < Z / math.sqrt(N), "white noise is biased", mean=runs.mean())
        expect(abs(runs.var() - 1) < Z * math.sqrt(2 / N), "white noise has not the configured standard deviation", variance=runs.var())
        p = stats.kstest(runs.ravel(), "norm").pvalue
        expect(p > 1e-10, "white noise is not normally distributed", p=p)
        corr(runs[:, :, 1:], runs[:, :, :-1], "white noise is correlated along the rows")
        corr(runs[:, 1:], runs[:, :-1], "white noise is correlated along the columns")
        corr(runs[1:], runs[:-1], "white noise is correlated between measurements")
        return True, [k]
    # spectrum over the time order; weights of the power-law process with a flat part below fmin
    x = runs.reshape(len(runs), -1)
    n = x.shape[1]
    P = np.abs(np.fft.rfft(x, axis=1)) ** 2
    P = P[:, 1:(n // 2 if n % 2 == 0 else P.shape[1])]
    f = np.arange(1, P.shape[1] + 1) / n
    w = 1 / np.maximum(f, max(c["fmin"], 1 / n))
    want = w / (2 * w.sum()) * n * n  # unit total power
    ratio = P / want
    lo = 1
    while lo < len(f):
        hi = min(2 * lo, len(f))
        if hi - lo >= 8 and (hi - lo) * len(x) >= 100:
            m = ratio[:, lo:hi].mean()
            expect(abs(m - 1) < Z / math.sqrt((hi - lo) * len(x)) + 0.02, "spectrum of pink noise deviates from 1/f", band=[f[lo], f[hi - 1]], ratio=m)
        lo *= 2
    tot = (P / want * (w / w.sum())).sum(1)  # total power of each run
    sd = math.sqrt(float((w ** 2).sum())) / w.sum() / math.sqrt(len(x))
    expect(abs(tot.mean() - 1) < 9 * sd + 0.02, "pink noise has not the configured strength", power=tot.mean(), tolerance=9 * sd + 0.02)
    expect(abs(x.mean()) < 1e-6 + Z * math.sqrt(w[0] / w.sum() / len(x)), "pink noise is biased", mean=x.mean())
    corr(np.diff(x[1:]), np.diff(x[:-1]), "pink noise is correlated between measurements") if c["fmin"] < 0.5 else None
    return True, [k]


PARTS = [
    Part("algebra", cases, check, quick=4000, thorough=100000, rule="random signals, shapes (1D and 2D), strengths (fixed, sampled, zero), seeds; 1-4 calls each compared with the unit noise of the same seed"),
    Part("statistics", stat_cases, check_stat, quick=400, thorough=8000, rule="4-10 scans of 1600-8100 pixels: mean, variance, normality and correlations of white noise, spectrum per octave and power of pink noise; limits at 7 or more standard deviations"),
]
