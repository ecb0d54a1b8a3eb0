"""C22: distortion parameters given in volts act on the same voltage scale whatever the pixel grid."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c18 import segments
from checks.c20 import Plane, along, blocks, read
from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds

Z = 7.0
KINDS = ("gauss", "fermi", "jumps", "rtn pot", "rtn resp")


def shape_of(w):
    return tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)


def ext(w):
    return abs(w["r1"][1] - w["r1"][0]), abs(w["r2"][1] - w["r2"][0])


def make(k, p, seed, axis=1, f=1.0):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialRTN, SensorResponseRTN

    rng = np.random.default_rng(seed)
    if k in ("gauss", "fermi"):
        return (OccupationTransitionBlurringGaussian if k == "gauss" else OccupationTransitionBlurringFermiDirac)(p["a"] * f)
    if k == "jumps":
        return OccupationDotJumps(p["a"] * f, p["b"] * f, axis, rng=rng)
    return (SensorPotentialRTN if k == "rtn pot" else SensorResponseRTN)(p["a"] * f, 0.1, 1.0, rng=rng)


def effect(k, x, w, axis, data_seed=0):
    """What the distortion does, as an array of pixels independent of the voltages."""
    r1, r2, sh = np.array(w["r1"]), np.array(w["r2"]), shape_of(w)
    if k in ("gauss", "fermi"):
        o = np.random.default_rng(data_seed).normal(0, 1, sh + (2,))
        return quiet(x.noise_function, o, np.zeros(sh), r1, r2, None)[0]
    if k == "jumps":
        p = Plane()
        o, l = p.get_csd_data(r1, r2, w["res"])
        o, l = quiet(x.noise_function, o, l, r1, r2, p.get_csd_data)
        return along(w, read(w, o, l, "dot jumps")[1 - axis], axis, "dot jumps")
    key = "mu_sens" if k == "rtn pot" else "sensor_response"
    return quiet(x.noise_function, **{key: np.zeros(sh)}, volt_limits_g1=r1, volt_limits_g2=r2)


def scale_w(w, f1, f2):
    return {**w, "r1": [v * f1 for v in w["r1"]], "r2": [v * f2 for v in w["r2"]]}


@st.composite
def cases(draw):
    k = draw(st.sampled_from(KINDS))
    w = draw(dist.toy_windows(lo=3, hi=14, hi1=40))
    axis = draw(ints(0, 1))
    e = ext(w)[0] if axis else ext(w)[1]
    n = shape_of(w)[-1] if axis else shape_of(w)[0]
    if k in ("gauss", "fermi"):
        e, n = (ext(w)[0], w["res"][0]) if isinstance(w["res"], list) else (max(ext(w)), w["res"])
    px = (e or max(ext(w))) / n
    return {"k": k, "w": w, "axis": axis, "a": draw(LOG(0.3, 8.0)) * px, "b": draw(LOG(0.5, 6.0)) * px, "seed": draw(seeds), "f": draw(LOG(0.05, 20)), "other": [draw(ints(2, 20)), draw(LOG(0.05, 20))], "n": draw(ints(1, 2))}


def check(c):
    w, k, axis = c["w"], c["k"], c["axis"]
    f = c["f"]
    x, y = make(k, c, c["seed"], axis), make(k, c, c["seed"], axis, f)
    labels = [k, w["kind"]]
    base = []
    for j in range(c["n"]):
        a, b = effect(k, x, w, axis, j), effect(k, y, scale_w(w, f, f), axis, j)
        expect_close(a, b, f"call {j}: window and parameters stretched together act differently", rtol=1e-6, atol=1e-9)
        base.append(a)
    # a 2D scan: the other gate's range and resolution do not matter
    if isinstance(w["res"], list) and k in ("gauss", "fermi", "jumps"):
        ax = 1 if k != "jumps" else axis
        w2 = scale_w(w, 1, c["other"][1]) if ax else scale_w(w, c["other"][1], 1)
        w2 = {**w2, "res": [w["res"][0], c["other"][0]] if ax else [c["other"][0], w["res"][1]]}
        z = make(k, c, c["seed"], axis)
        if k == "jumps":
            for j in range(c["n"]):
                expect_equal(effect(k, z, w2, axis), base[j], f"call {j}: dot jumps depend on the other gate")
        else:
            o = np.random.default_rng(0).normal(0, 1, (1, w["res"][0], 2))
            sh, sh2 = shape_of(w), shape_of(w2)
            r = [quiet(make(k, c, 0).noise_function, np.repeat(o, s[0], 0), np.zeros(s), np.array(v["r1"]), np.array(v["r2"]), None)[0] for s, v in ((sh, w), (sh2, w2))]
            expect_close(r[1], np.repeat(r[0][:1], sh2[0], 0), "blurring depends on the other gate", rtol=1e-9, atol=1e-12)
    # a 1D scan of one gate: the fixed voltage does not matter
    if w["kind"] in ("g1", "g2"):
        w3 = {**w, ("r2" if w["kind"] == "g1" else "r1"): [c["other"][1]] * 2}
        z = make(k, c, c["seed"], axis)
        for j in range(c["n"]):
            expect_close(effect(k, z, w3, axis, j), base[j], f"call {j}: the voltage of the fixed gate matters", rtol=1e-6, atol=1e-9)
    still = all(np.array_equal(v, v * 0) for v in base)
    return not still, labels


# ---------------------------------------------------------------- the scale in volts at two resolutions
@st.composite
def res_cases(draw):
    k = draw(st.sampled_from(KINDS))
    kind = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"]))
    w = draw(dist.toy_windows(one=kind, lo=2, hi=4, hi1=10))
    axis = draw(ints(0, 1))
    if kind in ("g1", "g2"):
        axis = 1 if kind == "g1" else 0
    m = draw(st.sampled_from([2, 2, 3, 4]))
    n = draw(ints(25, 40)) if k == "jumps" else draw(ints(60, 120)) if k in ("gauss", "fermi") else draw(ints(300, 500))
    return {"k": k, "w": w, "axis": axis, "n": n, "m": m if k != "jumps" else 2, "px": draw(LOG(2.0, 4.0)) if k != "jumps" else draw(LOG(1.5, 4.0)), "lam": draw(U(5, 8)), "seed": draw(seeds), "other": draw(ints(2, 4))}


def spread(k, s, w):
    """Width in volts of the response to a single occupied pixel in the middle, along the direction of the measurement."""
    sh = shape_of(w)
    n = sh[-1]
    o = np.zeros(sh + (2,))
    o[..., n // 2, 0] = 1.0
    o[..., n // 2, 1] = 2.0
    got = quiet(make(k, {"a": s}, 0).noise_function, o, np.zeros(sh), np.array(w["r1"]), np.array(w["r2"]), None)[0]
    e = ext(w)[0] if len(sh) == 2 else max(ext(w)) if w["kind"] != "both" else min(ext(w))
    out = []
    for d in (0, 1):
        p = got[..., d].reshape(-1, n)
        for row in p:
            row = row / row.sum()
            i = np.arange(n)
            mu = row @ i
            out.append(math.sqrt(row @ (i - mu) ** 2) * e / n)
    return np.array(out)


def check_res(c):
    k, w, axis = c["k"], c["w"], c["axis"]
    got = []
    for m in (1, c["m"]):
        n = c["n"] * m
        if isinstance(w["res"], list):
            fast = k in ("gauss", "fermi") or (k == "jumps" and axis == 1)
            if k == "jumps" or fast:
                res = [n, c["other"] + m] if fast or axis == 1 else [c["other"] + m, n]
            else:
                # telegraph noise: the gate with the finer grid sets the scale
                few = 3
                e1, e2 = ext(w)
                res = [n, few] if n / e1 > few / e2 else [few, n]
                if max(n / e1, few / e2) == few / e2 and res == [n, few]:
                    return False, []
        else:
            res = n
        v = {**w, "res": res}
        if k in ("gauss", "fermi"):
            e = ext(w)[0] if isinstance(res, list) else max(ext(w)) if w["kind"] != "both" else min(ext(w))
            s = c["px"] * e / c["n"]
            a = spread(k, s, v)
            want = s * (1.0 if k == "gauss" else math.pi / math.sqrt(12))
            expect(np.all(np.abs(a / want - 1) < 0.03), f"width of the blurring in volts at {n} pixels", got=a[:3], want=want)
            got.append(a.mean())
            continue
        if k == "jumps":
            e = ext(w)[0] if axis else ext(w)[1]
            px = e / c["n"]
            p = {"a": c["px"] * px, "b": c["lam"] * px}
            x = make(k, p, c["seed"] + m, axis)
            h, first = [], []
            for _ in range(6):
                b = blocks(effect(k, x, v, axis))
                h += [q for q, _ in b if q > 0]
                first.append(b[0][1] if len(b) > 1 else None)
            step = e / n
            h = np.array(h, float) * step
            lam = c["lam"] * m
            if h.size:
                expect(abs(h.mean() - p["b"]) < (Z * math.sqrt(lam / h.size) + 0.1 + lam * 1e-2) * step, f"jump height in volts at {n} pixels", got=h.mean(), want=p["b"], count=h.size)
            f = np.array([q for q in first if q is not None], float) * step
            if f.size >= 4:
                expect(abs(f.mean() - p["a"]) < (Z + 6) * p["a"] / math.sqrt(f.size), f"length of undisturbed stretches in volts at {n} pixels", got=f.mean(), want=p["a"])
            got.append(h.size)
            continue
        e1, e2 = ext(w)
        dens = max(q / z for q, z in zip(res, (e1, e2)) if z > 0) if isinstance(res, list) else n / max(e1, e2)
        base = dens / m  # the density at the first resolution
        a = c["px"] / base
        x = make(k, {"a": a}, c["seed"] + m)
        lens = []
        for _ in range(10):
            seg = segments(effect(k, x, v, axis).ravel())
            size = int(np.prod(shape_of(v)))
            q = max(2, int(size / (3 * c["px"] * m)))
            lens += [z for _, z in seg[:q]] if len(seg) > q else [z for _, z in seg]
        lens = np.array(lens, float) / dens
        expect(abs(lens.mean() - a) < Z * a / math.sqrt(lens.size) + 0.01 * a, f"mean stretch in volts at {n} pixels", got=lens.mean(), want=a, count=lens.size)
        got.append(lens.mean())
    return True, [k, w["kind"]]


PARTS = [
    Part("stretch", cases, check, quick=3200, thorough=60000, rule="window and parameters scaled together, other gate's range and resolution changed, fixed gate moved: pixel effect of equally seeded distortions must be the same; 1D and 2D, all directions; non-trivial = the distortion had an effect"),
    Part("resolution", res_cases, check_res, quick=400, thorough=8000, rule="the same parameters in volts at a resolution and its 2-4-fold: blur width from the impulse response (3 percent), jump heights and lengths, telegraph stretches (7 standard deviations)"),
]
ASSUMPTIONS = ["telegraph noise of a 2D scan is scaled with the finer of the two pixel grids, blurring and dot jumps with the grid of their own direction"]
