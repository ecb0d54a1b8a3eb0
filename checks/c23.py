"""C23: parameter samplers draw from their stated distribution and range."""
import copy
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib.core import Part, expect
from vlib.gens import LOG, U, ints, seeds

KS = 1e-9


def build(c, seed=None, rng=True):
    from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange

    r = {0: tuple, 1: list, 2: np.array}[c["as"]](c["range"])
    kw = {"total_range": r, "rng": np.random.default_rng(c["seed"] if seed is None else seed) if rng else None}
    if c["narrow"] is not None:
        kw["sampling_range"] = c["narrow"]
    if c["s"] == "U":
        return UniformSamplingRange(**kw)
    if c["s"] == "N":
        return NormalSamplingRange(std=c["std"], mean=c["mean"], **kw)
    if c["s"] == "L":
        return LogNormalSamplingRange(mean=c["mean"], sigma=c["std"], **kw) if not c["def"] else LogNormalSamplingRange(**kw)
    return ExponentialSamplingRange(scale=c["std"], **kw)


def base_cdf(c, lo, hi):
    """Cumulative distribution of the samples restricted to [lo, hi] (up to an affine map)."""
    w = (c["range"][1] - c["range"][0]) if c["narrow"] is None else math.copysign(c["narrow"], c["range"][1] - c["range"][0])
    if c["s"] == "U":
        f = lambda x: np.asarray(x)  # noqa: E731
    elif c["s"] == "N":
        m = c["mean"] if c["mean"] is not None else 0.5 * (c["range"][0] + c["range"][1])
        f = lambda x: stats.norm.cdf(x, m, c["std"])  # noqa: E731
    elif c["s"] == "L":
        m, s = (0, 1) if c["def"] else (c["mean"], c["std"])
        f = lambda x: stats.norm.cdf(np.log(np.maximum(x, 1e-300)), m, s)  # noqa: E731
    elif w > 0:  # memoryless: the start of the range does not matter
        f = lambda x: -np.exp(-(np.asarray(x) - lo) / (w * c["std"]))  # noqa: E731
    else:
        f = lambda x: np.exp(-(hi - np.asarray(x)) / (-w * c["std"]))  # noqa: E731
    a, b = f(lo), f(hi)
    return lambda x: (f(x) - a) / (b - a)


@st.composite
def cases(draw, narrow=None):
    s = draw(st.sampled_from(["U", "N", "L", "E"]))
    if s == "L":
        lo = draw(LOG(0.05, 2))
        hi = lo * draw(LOG(1.5, 20))
    else:
        lo = draw(U(-5, 5))
        hi = lo + draw(LOG(1e-3, 20))
    w = hi - lo
    d = {"s": s, "range": [lo, hi], "seed": draw(seeds), "as": draw(ints(0, 2)), "narrow": draw(st.one_of(st.none(), U(0.04, 0.98).map(lambda f: f * w))), "mean": None, "std": None, "def": False}
    # rejection sampling has to reach a narrowed range wherever it lies: parameters keep about 1 % of the mass in it
    f = 1.0 if d["narrow"] is None else d["narrow"] / w
    if s == "N":
        k = draw(st.booleans())
        if k and d["narrow"] is None:
            d["mean"] = lo + w * draw(U(-0.1, 1.1))
            d["std"] = w * draw(LOG(0.15, 3))
        elif k:
            d["mean"] = lo + w * draw(U(0.1, 0.9))
            d["std"] = w * draw(LOG(0.4, 1.0))
        else:
            d["std"] = f * w * draw(LOG(0.05, 3))
    if s == "L":
        d["def"] = draw(st.booleans()) and 0.1 < lo and hi < 8
        d["mean"], d["std"] = math.log(math.sqrt(lo * hi)), max(0.4, math.log(hi / lo) * draw(U(0.5, 1.0)))
    if s == "E":
        d["std"] = draw(LOG(0.05, 2.0))
        if draw(st.booleans()):
            d["range"] = [hi, lo]
    return d


def check(c):
    lo, hi = min(c["range"]), max(c["range"])
    w = hi - lo
    a, b = build(c), build(c)
    expect(a.last_sample() is None, "a sample is reported before the first draw", got=a.last_sample())
    n = 400
    v = []
    for i in range(n):
        x = a.sample_parameter()
        expect(np.ndim(x) == 0 and np.isreal(x) and math.isfinite(x), "sample is not a number", got=x)
        expect(a.last_sample() == x, "last sample is not the one just drawn", got=a.last_sample(), want=x)
        expect(a.last_sample() == x, "reading the last sample draws again")
        v.append(float(x))
        if i < 60:
            expect(b.sample_parameter() == x, f"draw {i}: equally seeded samplers differ")
            if i == 30:
                b = copy.deepcopy(b)
    v = np.array(v)
    tol = 1e-12 * max(abs(lo), abs(hi))
    expect(v.min() >= lo - tol and v.max() <= hi + tol, "sample outside the range", got=[v.min(), v.max()], want=[lo, hi])
    expect(np.unique(v).size == n, "samples repeat")
    if c["narrow"] is not None:
        expect(v.max() - v.min() <= c["narrow"] * (1 + 1e-9), "samples spread wider than the narrowed range", got=v.max() - v.min(), want=c["narrow"])
    if c["s"] == "N" and c["mean"] is None and c["narrow"] is not None:
        # centre unknown but symmetric: the part around the middle of the samples
        p = None
    else:
        L, H = (v.min(), v.max()) if c["narrow"] is not None else (lo, hi)
        inner = v[(v > L) & (v < H)]
        f = base_cdf(c, L, H)
        p = stats.kstest(f(inner), "uniform").pvalue
        expect(p > KS, "samples do not follow the stated distribution", p=p, range=[L, H])
    if c["s"] == "U":
        full = c["narrow"] if c["narrow"] is not None else w
        expect(v.max() - v.min() > full * (1 - 60.0 / n), "uniform samples do not reach the whole range", got=v.max() - v.min(), want=full)
    if c["s"] == "N" and c["mean"] is None and c["narrow"] is not None and c["std"] < 0.5 * c["narrow"]:
        # mean at the centre of the narrowed range, hence at least half of it away from the ends of the total range
        se = c["std"] / math.sqrt(n)
        expect(lo + 0.5 * c["narrow"] - 7 * se <= v.mean() <= hi - 0.5 * c["narrow"] + 7 * se, "mean not at the centre of a narrowed range inside the total range", got=v.mean())
        if c["std"] < 0.12 * c["narrow"]:  # practically untruncated
            p = stats.kstest((v - v.mean()) / c["std"], "norm").pvalue
            expect(p > KS, "samples are not normal with the configured deviation", p=p, std=v.std(), want=c["std"])
    r = np.corrcoef(v[1:], v[:-1])[0, 1]
    expect(abs(r) < 7 / math.sqrt(n), "successive samples are correlated", r=r)
    u = build(c, rng=False)  # without generator
    z = [u.sample_parameter() for _ in range(20)]
    expect(min(z) >= lo - tol and max(z) <= hi + tol, "sample outside the range without generator", got=[min(z), max(z)])
    expect(not np.array_equal(z, [build(c, rng=False).sample_parameter() for _ in range(20)]), "unseeded samplers repeat themselves")
    return True, [c["s"], "narrowed" if c["narrow"] is not None else "total", "descending" if c["range"][0] > c["range"][1] else "ascending"]


# ---------------------------------------------------------------- where the narrowed range lies
@st.composite
def place_cases(draw):
    c = draw(cases())
    w = abs(c["range"][1] - c["range"][0])
    f = draw(st.sampled_from([1e-5, 1e-4, 0.3, 0.6] if c["s"] != "L" else [0.02, 0.3, 0.6]))
    c = {**c, "narrow": w * f}
    if c["s"] == "N":
        c.update(std=0.3 * f * w, mean=None)
    return c


def check_place(c):
    """The narrowed range is placed uniformly inside the total range; each sampler keeps its own."""
    lo, hi = min(c["range"]), max(c["range"])
    v = []
    for i in range(150):
        s = build(c, seed=c["seed"] ^ (7919 * i + 1))
        x = [s.sample_parameter() for _ in range(4)]
        expect(max(x) - min(x) <= c["narrow"] * (1 + 1e-6) + 1e-14, "samples of one sampler spread wider than its narrowed range", got=max(x) - min(x), want=c["narrow"])
        expect(min(x) >= lo - 1e-9 * (hi - lo) and max(x) <= hi + 1e-9 * (hi - lo), "samples outside the total range", got=[min(x), max(x)])
        v.append(x[0])
    if c["narrow"] < 1e-3 * (hi - lo):  # any sample tells where the narrowed range lies
        p = stats.kstest((np.array(v) - lo) / (hi - lo), "uniform").pvalue
        expect(p > KS, "narrowed ranges are not spread uniformly over the total range", p=p)
    return True, [c["s"]]


# ---------------------------------------------------------------- narrowing that is none
@st.composite
def wide_cases(draw):
    c = draw(cases())
    w = abs(c["range"][1] - c["range"][0])
    c = {**c, "narrow": None}
    if c["s"] == "N":
        c["std"] = max(c["std"], 0.15 * w)
    return {"c": c, "f": draw(st.one_of(U(1.001, 5)))}


def check_wide(d):
    c = d["c"]
    lo, hi = min(c["range"]), max(c["range"])
    wide = {**c, "narrow": d["f"] * (hi - lo)}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        a = build(wide)
    expect(len(rec) == 1, "narrowing to more than the total range without a warning", warnings=[str(x.message)[:80] for x in rec])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        b = build(c)
    expect(not rec, "warning without reason")
    x, y = [a.sample_parameter() for _ in range(300)], [b.sample_parameter() for _ in range(300)]
    expect(min(x) >= lo and max(x) <= hi, "samples outside the total range", got=[min(x), max(x)], want=[lo, hi])
    p = stats.ks_2samp(x, [b.sample_parameter() for _ in range(300)]).pvalue
    expect(p > KS, "a too wide narrowing does not fall back to the total range", p=p)
    return True, [c["s"]]


PARTS = [
    Part("draws", cases, check, quick=1600, thorough=30000, rule="all four samplers, random ranges (ascending, for the exponential also descending), parameters, narrowed or not, 400 draws each: range, memory, reproducibility, Kolmogorov-Smirnov against the truncated distribution (p > 1e-9)"),
    Part("placement", place_cases, check_place, quick=320, thorough=6000, rule="150 samplers with different seeds: narrowed ranges stay inside and are placed uniformly"),
    Part("too wide", wide_cases, check_wide, quick=480, thorough=8000, rule="sampling range beyond the total range: warning and total range"),
]
ASSUMPTIONS = ["statistical limits are set such that a correct sampler fails about once in 10^9 cases"]
