"""C20: dot jumps only displace the diagram towards rising voltage of their gate."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, layout, layouts, seeds
from vlib.models import grid

Z = 7.0


def shape_of(w):
    return tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)


class Plane(dist.Toy):
    """The data of every pixel tells its voltage point."""

    def __init__(self):
        super().__init__([0] * 5)
        self.calls = 0

    def at(self, g):
        return g + 50.0, 3 * g[..., 0] + 7 * g[..., 1] + 100.0

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        self.calls += 1
        return super().get_csd_data(volt_limits_g1, volt_limits_g2, resolution)


def steps(w):
    n = shape_of(w)
    n1, n2 = n[-1], n[0]
    return abs(w["r1"][1] - w["r1"][0]) / max(n1 - 1, 1), abs(w["r2"][1] - w["r2"][0]) / max(n2 - 1, 1)


def read(w, occ, lead, msg):
    """Displacements along both gates in pixels (per pixel of the result), after checking that the data was only displaced."""
    g = grid(w["r1"], w["r2"], w["res"])
    d = g - (occ - 50.0)
    expect(occ.shape == g.shape and lead.shape == g.shape[:-1], f"{msg}: shape changed")
    expect(np.all(np.isfinite(occ)) and np.all(np.isfinite(lead)), f"{msg}: data not finite")
    expect_close(lead, 3 * (occ[..., 0] - 50.0) + 7 * (occ[..., 1] - 50.0) + 100.0, f"{msg}: transition mask not displaced together with the occupations", atol=1e-7)
    out = []
    for i, s in enumerate(steps(w)):
        if s == 0:
            expect(np.all(np.abs(d[..., i]) < 1e-9), f"{msg}: displaced along a gate that is not swept")
            out.append(np.zeros(g.shape[:-1], int))
            continue
        k = d[..., i] / s
        expect(np.all(np.abs(k - np.round(k)) < 1e-4), f"{msg}: not displaced by a whole number of pixels along gate {i + 1}", first=k[np.abs(k - np.round(k)) >= 1e-4][:3])
        expect(np.all(np.round(k) >= 0), f"{msg}: displaced towards lower voltages of gate {i + 1}", worst=k.min())
        out.append(np.round(k).astype(int))
    return out


def along(w, k, axis, msg):
    """Displacement as a function of the position along its own gate, in the order of rising voltage."""
    if k.ndim == 2:
        line = k[0] if axis == 1 else k[:, 0]
        expect(np.all(k == (line[None, :] if axis == 1 else line[:, None])), f"{msg}: displacement differs between the lines of the scan")
    else:
        line = k
    r = w["r1"] if axis == 1 else w["r2"]
    return line[::-1] if r[0] > r[1] else line


def blocks(line):
    edge = np.flatnonzero(np.diff(line)) + 1
    b = np.concatenate(([0], edge, [line.size]))
    return [(int(line[i]), int(j - i)) for i, j in zip(b[:-1], b[1:])]


def structure(line, msg, single=True):
    b = blocks(line)
    expect(b[0][0] == 0, f"{msg}: jumps already at the first pixel", blocks=b[:6])
    if single:
        expect(all(x[0] == 0 or y[0] == 0 for x, y in zip(b, b[1:])), f"{msg}: jumps not separated by undisturbed stretches", blocks=b[:8])
    return b


@st.composite
def jump(draw, w, axis=None):
    axis = draw(ints(0, 1)) if axis is None else axis
    n = shape_of(w)[-1] if axis == 1 else shape_of(w)[0]
    r = w["r1"] if axis == 1 else w["r2"]
    px = (abs(r[1] - r[0]) or 0.1) / n
    s, l = draw(st.one_of(LOG(0.05, 1.0), LOG(1.0, n + 1.0))) * px, draw(LOG(0.3, 8.0)) * px
    if draw(ints(0, 3)) == 0:
        s, l = draw(dist.sampler(0.5 * s, 1.5 * s)), draw(dist.sampler(0.5 * l, 1.5 * l))
    return {"k": "jumps", "scale": s, "lam": l, "axis": axis, "ratio": 1, "seed": draw(seeds)}


def swept(w, axis):
    r = w["r1"] if axis == 1 else w["r2"]
    return r[0] != r[1]


# ---------------------------------------------------------------- the distortion itself
@st.composite
def cases(draw):
    big = draw(ints(0, 29)) == 0
    w = draw(dist.toy_windows(lo=2, hi=45 if big else 14, hi1=90 if big else 30))
    return {"lay": draw(layouts), "w": w, "d": draw(jump(w)), "gen": draw(st.booleans()) if isinstance(w["res"], list) else True, "n": draw(ints(1, 3)), "other": draw(ints(2, 9)), "shift": draw(U(-1, 1)), "lead": draw(ints(0, 5)) > 0}


def check(c):
    w, x, axis = c["w"], dist.build_occ(c["d"]), c["d"]["axis"]
    moved = 0
    r1, r2 = np.array(w["r1"]), np.array(w["r2"])
    for j in range(c["n"]):
        p = Plane()
        occ, lead = p.get_csd_data(r1, r2, w["res"])
        occ, lead = layout(occ, c["lay"]), layout(lead, c["lay"])
        if not c["gen"] or not c["lead"]:
            o, l = quiet(x.noise_function, occ, lead if c["lead"] else None, r1, r2, p.get_csd_data if c["gen"] else None)
            expect((l is None) == (not c["lead"]), "transition mask appeared from nowhere")
            l = lead if l is None else l
            if not c["lead"]:
                l = 3 * (o[..., 0] - 50.0) + 7 * (o[..., 1] - 50.0) + 100.0
        else:
            o, l = quiet(x.noise_function, occupations=occ, lead_transitions=lead, volt_limits_g1=r1, volt_limits_g2=r2, generate_csd=p.get_csd_data)
        expect(np.array_equal(r1, w["r1"]) and np.array_equal(r2, w["r2"]), "sweep ranges modified")
        msg = f"call {j}"
        k = read(w, o, l, msg)
        expect(np.all(k[axis] == 0), f"{msg}: displaced along the other gate")
        line = along(w, k[1 - axis], axis, msg)
        if not swept(w, axis):
            expect(x.activated is False, f"{msg}: reported as active although its gate is not swept")
            continue
        expect(x.activated is True, f"{msg}: not reported as active")
        structure(line, msg, single=c["gen"])
        if not c["gen"]:
            expect(np.all(line <= np.arange(line.size)), f"{msg}: data from outside the window without a generator")
        moved += int(line.any())
        # frozen: same displacement on other data with another resolution and range of the other gate
        w2 = {**w, "r1": list(w["r1"]), "r2": list(w["r2"])}
        if isinstance(w["res"], list):
            w2["res"] = [w["res"][0], c["other"]] if axis == 1 else [c["other"], w["res"][1]]
            o_r = "r2" if axis == 1 else "r1"
            w2[o_r] = [v + c["shift"] for v in w[o_r]]
        occ2, lead2 = p.get_csd_data(np.array(w2["r1"]), np.array(w2["r2"]), w2["res"])
        o2, l2 = quiet(x.noise_function, occ2, lead2, np.array(w2["r1"]), np.array(w2["r2"]), p.get_csd_data if c["gen"] else None, freeze=True)
        k2 = read(w2, o2, l2, f"{msg} frozen")
        expect_equal(along(w2, k2[1 - axis], axis, f"{msg} frozen"), line, f"{msg}: frozen displacement differs")
        expect(np.all(k2[axis] == 0), f"{msg} frozen: displaced along the other gate")
    return moved > 0, [w["kind"], c["lay"], f"axis {axis}", "generator" if c["gen"] else "edge", "sampler" if isinstance(c["d"]["scale"], dict) else "fixed"]


@st.composite
def large_cases(draw):
    """Few lines of many pixels, jumps by hundreds of pixels."""
    w = draw(dist.toy_windows(one="2d", lo=2, hi=3))
    axis, n = draw(ints(0, 1)), draw(ints(300, 900))
    w["res"] = [n, 2] if axis == 1 else [2, n]
    r = w["r1"] if axis == 1 else w["r2"]
    px = abs(r[1] - r[0]) / n
    return {"lay": draw(layouts), "w": w, "d": {"k": "jumps", "scale": draw(LOG(0.1, 0.4)) * n * px, "lam": draw(LOG(20, 900)) * px, "axis": axis, "ratio": 1, "seed": draw(seeds)}, "gen": draw(ints(0, 3)) > 0, "n": 1, "other": 2, "shift": draw(U(-1, 1)), "lead": draw(ints(0, 5)) > 0}


def check_large(c):
    done = check(c)
    w, axis = c["w"], c["d"]["axis"]
    x, p, r1, r2 = dist.build_occ(c["d"]), Plane(), np.array(w["r1"]), np.array(w["r2"])
    if not c["gen"]:
        return done
    o, l = quiet(x.noise_function, *p.get_csd_data(r1, r2, w["res"]), r1, r2, p.get_csd_data)
    b = structure(along(w, read(w, o, l, "heights")[1 - axis], axis, "heights"), "heights")
    r = w["r1"] if axis == 1 else w["r2"]
    lam = c["d"]["lam"] / (abs(r[1] - r[0]) / (w["res"][0] if axis == 1 else w["res"][1]))
    h = np.array([v for v, _ in b if v > 0], float)
    # 9 standard deviations of a Poisson number of at least 20
    expect(np.all(np.abs(h - lam) < 9 * math.sqrt(lam) + 2), "the jumps do not have the configured height", pixels=h, want=lam)
    return done[0], done[1] + [f"jump>256:{bool(np.any(h > 256))}"]


# ---------------------------------------------------------------- stacks in a simulation
@st.composite
def stack_cases(draw):
    w = draw(dist.toy_windows(lo=2, hi=12, hi1=25))
    return {"w": w, "toy": draw(dist.toys()), "d": [draw(jump(w)) for _ in range(draw(ints(1, 3)))], "n": draw(ints(1, 2))}


def check_stack(c):
    from simcats import Simulation
    from simcats.sensor import SensorGeneric

    w = c["w"]
    sensor = lambda: SensorGeneric(None, np.array([1.0, 0.7]), np.zeros(2), 0.0)  # noqa: E731
    toy = dist.build_toy({**c["toy"], "steps": False})
    one = Simulation(ideal_csd_config=Plane(), sensor=sensor(), occupation_distortions=[dist.build_occ(d) for d in c["d"]])
    two = Simulation(ideal_csd_config=toy, sensor=sensor(), occupation_distortions=[dist.build_occ(d) for d in c["d"]])
    res = np.array(w["res"]) if isinstance(w["res"], list) else w["res"]
    s = steps(w)
    g = grid(w["r1"], w["r2"], w["res"])
    axes = [d["axis"] for d in c["d"]]
    moved = 0
    for j in range(c["n"]):
        msg = f"measurement {j}"
        a, b = (quiet(x.measure, np.array(w["r1"]), np.array(w["r2"]), resolution=res) for x in (one, two))
        k = read(w, a[1], a[2], msg)
        for axis in (0, 1):
            line = along(w, k[1 - axis], axis, msg)
            if axes.count(axis) == 0 or not swept(w, axis):
                expect(not line.any(), f"{msg}: displaced along a gate without dot jumps")
            else:
                structure(line, msg, single=axes.count(axis) == 1)
                moved += int(line.any())
        want = toy.at(g - np.stack((k[0] * s[0], k[1] * s[1]), -1))
        expect_close(b[1], want[0], f"{msg}: occupations are not those of the displaced voltage points", rtol=1e-7, atol=1e-7)
        bad = np.abs(b[2] - want[1]) > 1e-9  # rounding at the steps of the mask
        expect(np.mean(bad) < 0.2, f"{msg}: transition mask is not that of the displaced voltage points")
        expect_close(b[0], b[1][..., 0] + 0.7 * b[1][..., 1], f"{msg}: the signal does not follow the displaced occupations", atol=1e-9)
    return moved > 0, [w["kind"]] + [f"axes {sorted(axes)}"]


# ---------------------------------------------------------------- statistics
@st.composite
def stat_cases(draw):
    kind = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"]))
    w = draw(dist.toy_windows(one=kind, lo=2, hi=3, hi1=60))
    axis = {"g1": 1, "g2": 0}.get(kind)
    axis = draw(ints(0, 1)) if axis is None else axis
    n = draw(ints(60, 110)) if kind == "2d" else draw(ints(25, 40))
    w["res"] = ([n, w["res"][1]] if axis == 1 else [w["res"][0], n]) if kind == "2d" else n
    return {"w": w, "axis": axis, "scale": draw(LOG(1.2, 8.0)), "lam": draw(U(12, 20)), "seed": draw(seeds), "calls": draw(ints(10, 16))}


def check_stat(c):
    from simcats.distortions import OccupationDotJumps

    w, axis = c["w"], c["axis"]
    n = shape_of(w)[-1] if axis == 1 else shape_of(w)[0]
    r = w["r1"] if axis == 1 else w["r2"]
    px = abs(r[1] - r[0]) / n
    x = OccupationDotJumps(scale=c["scale"] * px, lam=c["lam"] * px, axis=axis, rng=np.random.default_rng(c["seed"]))
    p = Plane()
    r1, r2 = np.array(w["r1"]), np.array(w["r2"])
    m = max(2, int(n / (3 * c["scale"]) / 2) * 2)
    still, block, heights = [], [], []
    for j in range(c["calls"]):
        occ, lead = p.get_csd_data(r1, r2, w["res"])
        o, l = quiet(x.noise_function, occ, lead, r1, r2, p.get_csd_data)
        b = structure(along(w, read(w, o, l, f"call {j}")[1 - axis], axis, f"call {j}"), f"call {j}")
        if len(b) > m or len(b) > 1:
            still += [q for _, q in b[: min(m, len(b) - 1) : 2]]
            block += [q for _, q in b[1 : min(m, len(b) - 1) : 2]]
        heights += [v for v, _ in b if v > 0]
    for name, a in (("undisturbed stretches", still), ("jumps", block)):
        a = np.array(a, float)
        if a.size < 8:
            continue
        sd = c["scale"] * math.sqrt(1 - 1 / c["scale"])
        expect(abs(a.mean() - c["scale"]) < (Z + 20 / math.sqrt(a.size)) * sd / math.sqrt(a.size), f"mean length of {name}", pixels=a.mean(), want=c["scale"], count=a.size)
    h = np.array(heights, float)
    expect(h.size > 0, "no jumps at all")
    expect(abs(h.mean() - c["lam"]) < Z * math.sqrt(c["lam"] / h.size) + 0.2, "mean height of the jumps", pixels=h.mean(), want=c["lam"], count=h.size)
    if h.size >= 40:
        expect(abs(h.var() / c["lam"] - 1) < Z * math.sqrt((2 + 1 / c["lam"]) / h.size) + 0.1, "heights of the jumps are not Poisson distributed", variance=h.var(), want=c["lam"])
    return True, [w["kind"], f"axis {axis}"]


PARTS = [
    Part("displacement", cases, check, quick=2400, thorough=50000, rule="1D and 2D windows in all directions over data that spells out its own voltage point, with and without generator and mask, 1-3 calls, each repeated frozen on other data; non-trivial = something moved"),
    Part("large", large_cases, check_large, quick=64, thorough=1600, rule="likewise, 2 lines of 300-900 pixels with jumps of 20-900 pixels, each within 9 standard deviations of the configured height"),
    Part("stacks", stack_cases, check_stack, quick=1600, thorough=30000, rule="1-3 dot jumps of any axis in a simulation; displacements read off one model must reproduce another model; non-trivial = something moved"),
    Part("statistics", stat_cases, check_stat, quick=240, thorough=4000, rule="10-16 scans with large jumps: mean lengths and heights in volts, Poisson spread, within 7 standard deviations"),
]
