"""C18: random telegraph noise is a two-level burst process along the scan."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, layout, layouts, seeds

Z = 7.0


def make(kind, c, seed=None):
    from simcats.distortions import SensorPotentialRTN, SensorResponseRTN

    cls = SensorPotentialRTN if kind == "pot" else SensorResponseRTN
    return cls(scale=dist.build_param(c["scale"]), std=dist.build_param(c["std"]), height=dist.build_param(c["height"]), rng=np.random.default_rng(c["seed"] if seed is None else seed))


def apply(kind, x, data, w):
    key = "mu_sens" if kind == "pot" else "sensor_response"
    return quiet(x.noise_function, **{key: data}, volt_limits_g1=np.array(w["r1"]), volt_limits_g2=np.array(w["r2"]))


def density(w):
    """Pixels per volt that turn a length in volts into pixels."""
    e1, e2 = abs(w["r1"][1] - w["r1"][0]), abs(w["r2"][1] - w["r2"][0])
    if isinstance(w["res"], list):
        return max([n / e for n, e in zip(w["res"], (e1, e2)) if e > 0])
    return w["res"] / max(e1, e2)


def shape_of(w):
    return tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)


def segments(noise):
    """Stretches of equal values: list of (value, length)."""
    edge = np.flatnonzero(np.diff(noise)) + 1
    b = np.concatenate(([0], edge, [noise.size]))
    return [(float(noise[i]), int(j - i)) for i, j in zip(b[:-1], b[1:])]


@st.composite
def cases(draw):
    big = draw(ints(0, 29)) == 0
    w = draw(dist.toy_windows(lo=2, hi=150 if big else 25, hi1=10000 if big else 150))
    if isinstance(w["res"], list) and draw(ints(0, 5)) == 0:  # a two-dimensional array over time: one gate fixed
        if draw(st.booleans()):
            w["r1"] = [w["r1"][0]] * 2
        else:
            w["r2"] = [w["r2"][0]] * 2
    px = draw(st.one_of(st.just(0.0), LOG(0.01, 1.0), LOG(1.0, 5.0), LOG(1.0, 100.0)))
    v = px / density(w)
    scale = v if px == 0 or draw(st.booleans()) else draw(dist.sampler(0.7 * v, 1.5 * v))
    height = draw(st.one_of(U(-2, 2), st.just(0.0), dist.sampler(0.01, 0.3)))
    return {"lay": draw(layouts), "kind": draw(st.sampled_from(["pot", "resp"])), "w": w, "scale": scale, "px": px, "std": draw(st.one_of(LOG(1e-3, 1), dist.sampler(0.01, 0.5))), "height": height,
            "seed": draw(seeds), "data": draw(seeds), "n": draw(ints(1, 3)), "form": draw(st.sampled_from(["any", "const", "nan"]))}


def check(c):
    w, shape = c["w"], shape_of(c["w"])
    obj, twin = make(c["kind"], c), make(c["kind"], c)
    expect(obj.activated is None, "activation reported before the first use")
    rng = np.random.default_rng(c["data"])
    bursts = 0
    for j in range(c["n"]):
        x = np.full(shape, 1.25) if c["form"] == "const" else rng.normal(0, 2, shape)
        if c["form"] == "nan":
            x.flat[:: 3] = np.nan
        keep, x = x, layout(x, c["lay"])
        y = apply(c["kind"], obj, x, w)
        n = apply(c["kind"], twin, np.zeros(shape), w)
        expect(np.array_equal(x, keep, equal_nan=True), f"call {j}: input modified")
        expect(y.shape == shape and n.shape == shape, f"call {j}: shape of the result", got=y.shape, want=shape)
        expect_close(y, keep + n, f"call {j}: noise depends on the signal", atol=1e-13)
        expect(obj.activated is True, f"call {j}: activation not reported")
        if c["px"] == 0:
            expect_equal(n, np.zeros(shape), f"call {j}: noise of zero length")
            continue
        seg = segments(n.ravel())
        expect(all((v == 0) == (i % 2 == 0) for i, (v, _) in enumerate(seg)), f"call {j}: not alternating stretches of zero and of constant height, starting with a quiet one", first=seg[:6])
        vals = [v for v, _ in seg if v != 0]
        expect(len(set(vals)) == len(vals), f"call {j}: burst heights repeat", heights=vals[:6])
        bursts += len(vals)
        if not isinstance(c["scale"], dict) and c["px"] <= 1:
            expect(all(k == 1 for _, k in seg), f"call {j}: stretches longer than a pixel although the configured length is below one pixel", first=seg[:6])
    return bursts > 0, [c["kind"], w["kind"], c["lay"], "sub-pixel" if 0 < c["px"] < 1 else "zero" if c["px"] == 0 else "pixels"]


# ---------------------------------------------------------------- statistics
@st.composite
def stat_cases(draw):
    kind = draw(st.sampled_from(["2d", "2d", "2d", "g1", "g2", "both", "time1", "time2"]))
    w = draw(dist.toy_windows(one="2d" if kind[0] in "2t" else kind, lo=30, hi=60, hi1=30))
    if kind[0] not in "2t":
        w["res"] = draw(ints(600, 2500))
    if kind == "time1":
        w["r1"] = [w["r1"][0]] * 2
    if kind == "time2":
        w["r2"] = [w["r2"][0]] * 2
    return {"kind": draw(st.sampled_from(["pot", "resp"])), "w": {**w, "kind": kind}, "px": draw(LOG(1.2, 25.0)), "std": draw(LOG(1e-3, 1)), "height": draw(U(-2, 2)), "seed": draw(seeds), "calls": draw(ints(4, 8))}


def check_stat(c):
    w, shape = c["w"], shape_of(c["w"])
    c = {**c, "scale": c["px"] / density(w)}
    obj = make(c["kind"], c)
    N, px = int(np.prod(shape)), c["px"]
    k = int(N / (3 * px) / 2) * 2  # stretches that fit into a scan for sure, hence not biased by its end
    if k < 4:
        k = 2
    quiet_len, burst_len, heights = [], [], []
    for _ in range(c["calls"]):
        seg = segments(apply(c["kind"], obj, np.zeros(shape), w).ravel())
        if len(seg) <= k:  # practically impossible for the configured length
            quiet_len += [n for _, n in seg[::2]]
            burst_len += [n for _, n in seg[1::2]]
        else:
            quiet_len += [n for _, n in seg[:k:2]]
            burst_len += [n for _, n in seg[1:k:2]]
        heights += [v for v, _ in seg if v != 0]
    for name, a in (("quiet stretches", quiet_len), ("bursts", burst_len)):
        a = np.array(a, float)
        if not a.size:
            continue
        sd = px * math.sqrt(1 - 1 / px) if px > 1 else 0
        expect(abs(a.mean() - px) < (Z + 3 / math.sqrt(a.size)) * sd / math.sqrt(a.size) + 1e-9, f"mean length of {name}", pixels=a.mean(), want=px, count=a.size)
        p1, q = 1 / px, np.mean(a == 1)
        expect(abs(q - p1) < Z * math.sqrt(p1 * (1 - p1) / a.size) + 12 / a.size, f"{name} are not geometrically distributed", fraction_of_one=q, want=p1)
    h = np.array(heights)
    expect(h.size > 0, "no bursts at all")
    z = (h - c["height"]) / c["std"]
    expect(abs(z.mean()) < Z / math.sqrt(z.size), "mean burst height", got=h.mean(), want=c["height"], count=z.size)
    if z.size >= 30:
        p = stats.kstest(z, "norm").pvalue
        expect(p > 1e-10, "burst heights are not normal with the configured mean and deviation", p=p)
    return True, [c["w"]["kind"]]


@st.composite
def large_cases(draw):
    w = draw(dist.toy_windows(lo=100, hi=200, hi1=200))
    if not isinstance(w["res"], list):
        w["res"] = draw(ints(10000, 40000))
    px = draw(st.one_of(LOG(0.01, 1.0), LOG(1.05, 30.0)))
    return {"kind": draw(st.sampled_from(["pot", "resp"])), "w": w, "px": px, "std": draw(LOG(1e-3, 1)), "height": draw(U(-2, 2)), "seed": draw(seeds)}


def check_large(c):
    w, shape, px = c["w"], shape_of(c["w"]), c["px"]
    obj = make(c["kind"], {**c, "scale": px / density(w)})
    n = apply(c["kind"], obj, np.zeros(shape), w).ravel()
    expect(n.size == np.prod(shape), "shape of the result")
    edge = np.diff(n) != 0
    if px <= 1:
        expect(n[0] == 0 and bool(edge.all()), "stretches longer than a pixel although the configured length is below one pixel", first=np.flatnonzero(~edge)[:3])
        return True, [w["kind"], "sub-pixel"]
    for i, e in enumerate(np.array_split(edge, 5)):  # a stretch ends at any pixel with the same probability
        want, sd = e.size / px, math.sqrt(e.size / px * (1 - 1 / px))
        expect(abs(e.sum() - want) < Z * sd + 5, f"number of stretches in fifth {i} of the scan", got=int(e.sum()), want=want)
    vals = n[np.concatenate(([True], edge))]
    vals = (vals[vals != 0] - c["height"]) / c["std"]
    for i, v in enumerate(np.array_split(vals, 3)):
        expect(abs(v.mean()) * math.sqrt(v.size) < Z, f"mean burst height in third {i} of the scan", got=v.mean())
        expect(len(set(v)) == v.size, "burst heights repeat")
    return True, [w["kind"], "pixels"]


PARTS = [
    Part("structure", cases, check, quick=4000, thorough=100000, rule="random scans (1D, 2D, over time with a fixed gate), burst lengths from zero and far below a pixel to longer than the scan, fixed and sampled parameters, 1-3 calls against an equally seeded twin on zeros; non-trivial = at least one burst"),
    Part("statistics", stat_cases, check_stat, quick=480, thorough=8000, rule="4-8 scans of 600-3600 pixels: mean and distribution of the stretch lengths in volts, distribution of the heights; limits at 7 or more standard deviations"),
    Part("large", large_cases, check_large, quick=160, thorough=4000, rule="scans of 10000 to 40000 pixels: number of stretches in every fifth and heights in every third of the scan (7 standard deviations), exactly alternating pixels for sub-pixel lengths"),
]
ASSUMPTIONS = ["lengths in volts are converted with the finer pixel density of the swept gates (number of pixels divided by the range)"]
