"""C21: transition blurring smooths occupations along the measurement axis only."""
import numpy as np
from hypothesis import strategies as st

from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, layout, layouts, seeds


def shape_of(w):
    return tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)


def density(w):
    """Pixels per volt along the measurement direction."""
    e1, e2 = abs(w["r1"][1] - w["r1"][0]), abs(w["r2"][1] - w["r2"][0])
    if isinstance(w["res"], list):
        return w["res"][0] / e1
    return max(w["res"] / e for e in (e1, e2) if e > 0)


def kernel(k, sigma, radius=None):
    if radius is None:
        radius = int(4.0 * sigma + 0.5) if k == "gauss" else round(4.0 * sigma)
    x = np.arange(-radius, radius + 1) / sigma
    with np.errstate(over="ignore"):
        w = np.exp(-0.5 * x * x) if k == "gauss" else 1 / np.cosh(x) ** 2
    return w / w.sum()


PAD = {"reflect": "symmetric", "grid-mirror": "symmetric", "mirror": "reflect", "nearest": "edge", "wrap": "wrap", "grid-wrap": "wrap", "constant": "constant", "grid-constant": "constant"}


def smooth(a, w, axis=-1, mode="reflect", cval=0.0):
    a = np.moveaxis(np.asarray(a, float), axis, -1)
    r = (len(w) - 1) // 2
    kw = {"constant_values": cval} if PAD[mode] == "constant" else {}
    p = np.pad(a, [(0, 0)] * (a.ndim - 1) + [(r, r)], mode=PAD[mode], **kw)
    n = a.shape[-1]
    out = sum(w[i] * p[..., i:i + n] for i in range(len(w)))
    return np.moveaxis(out, -1, axis)


def occupations(c, shape, j=0):
    rng = np.random.default_rng(c["data"] + j)
    o = rng.integers(0, 5, shape + (2,)).astype(float)
    if c["form"] == "const":
        o = np.ones(shape + (2,)) * rng.random(2) * 4
    if c["form"] == "mono":
        o = np.sort(o, axis=-2) + rng.random(2)
    if c["form"] == "real":
        o = rng.normal(3, 2, shape + (2,))
    return o


@st.composite
def cases(draw):
    big = draw(ints(0, 29)) == 0
    w = draw(dist.toy_windows(lo=2, hi=110 if big else 25, hi1=2000 if big else 80))
    px = draw(st.one_of(st.just(0.0), LOG(0.02, 0.5), LOG(0.2, 6.0), LOG(1.0, 30.0)))
    v = px / density(w)
    return {"lay": draw(layouts), "k": draw(st.sampled_from(["gauss", "fermi"])), "w": w, "sigma": v if not px or draw(ints(0, 2)) else draw(dist.sampler(0.5 * v, 1.5 * v)), "form": draw(st.sampled_from(["any", "any", "const", "mono", "real"])),
            "data": draw(ints(0, 2**31)), "n": draw(ints(1, 3)), "other": draw(ints(2, 12)), "new": draw(LOG(0.1, 5))}


def expected(c, o, w, s):
    """Occupations after blurring with sigma in volts."""
    px = s * density(w)
    if px == 0:
        return o
    k = kernel(c["k"], px)
    return np.stack([smooth(o[..., i], k) for i in (0, 1)], -1)


def border(c, w, s):
    """Rounding of the kernel radius undecided."""
    q = 4.0 * s * density(w) % 1
    return abs(q - 0.5) < 1e-9


def check(c):
    w, shape = c["w"], shape_of(c["w"])
    r1, r2 = np.array(w["r1"]), np.array(w["r2"])
    x = dist.build_occ({"k": c["k"], "sigma": c["sigma"]})
    changed = 0
    for j in range(c["n"]):
        o = occupations(c, shape, j)
        lead = np.arange(o[..., 0].size, dtype=float).reshape(shape)
        got, l = quiet(x.noise_function, layout(o, c["lay"]), layout(lead, c["lay"]), r1, r2, None)
        s = x.latest_sigma
        expect_equal(l, lead, f"call {j}: transition mask changed")
        expect(np.array_equal(r1, w["r1"]) and np.array_equal(r2, w["r2"]), "sweep ranges modified")
        expect(got.shape == o.shape, f"call {j}: shape changed")
        if s == 0:
            expect_equal(got, o, f"call {j}: zero width changes the occupations")
        # stated consequences, independent of the exact kernel
        ax = -2
        expect(np.all(got >= o.min(ax, keepdims=True) - 1e-9) and np.all(got <= o.max(ax, keepdims=True) + 1e-9), f"call {j}: values outside the range of their line")
        if c["form"] == "const":
            expect_close(got, o, f"call {j}: constant occupations changed", rtol=1e-9)
        if c["form"] == "mono" and 4 * s * density(w) + 1 < shape[-1]:
            expect(np.all(np.diff(got, axis=ax) >= -1e-9), f"call {j}: rising occupations became non-monotonic")
        expect_close(got.sum(ax), o.sum(ax), f"call {j}: total charge of a line not conserved", rtol=1e-9)
        m, _ = quiet(dist.build_occ({"k": c["k"], "sigma": s}).noise_function, o[..., ::-1, :].copy(), lead.copy(), r1[::-1] if len(shape) == 2 else r1, r2, None)
        if len(shape) == 2:
            expect_close(m, got[..., ::-1, :], f"call {j}: kernel not symmetric", rtol=1e-9, atol=1e-9)
        if not border(c, w, s):
            expect_close(got, expected(c, o, w, s), f"call {j}: occupations are not the convolution with the configured kernel", rtol=1e-8, atol=1e-8)
            changed += not np.allclose(got, o)
        # frozen: same width on data of another extent of the other gate
        w2 = w
        if isinstance(w["res"], list):
            w2 = {**w, "res": [w["res"][0], c["other"]], "r2": [v + 1 for v in w["r2"]]}
        o2 = occupations(c, shape_of(w2), j + 77)
        got2, _ = quiet(x.noise_function, layout(o2, c["lay"]), np.zeros(shape_of(w2)), np.array(w2["r1"]), np.array(w2["r2"]), None, freeze=True)
        expect(x.latest_sigma == s, f"call {j}: frozen use changed the width", got=x.latest_sigma, want=s)
        if not border(c, w2, s):
            expect_close(got2, expected(c, o2, w2, s), f"call {j}: frozen use with another width", rtol=1e-8, atol=1e-8)
    x.sigma = c["new"] / density(w)
    expect(x.sigma == c["new"] / density(w), "width not stored")
    o = occupations(c, shape)
    if not border(c, w, x.sigma):
        expect_close(quiet(x.noise_function, o.copy(), np.zeros(shape), r1, r2, None)[0], expected(c, o, w, x.sigma), "changed width has no effect", rtol=1e-8, atol=1e-8)
    return changed > 0, [c["k"], c["lay"], w["kind"], c["form"], "sampler" if isinstance(c["sigma"], dict) else "fixed"]


# ---------------------------------------------------------------- helper functions
@st.composite
def helper_cases(draw):
    nd = draw(ints(1, 3))
    shape = [draw(ints(2, 12)) for _ in range(nd)]
    axis = draw(ints(-nd, nd - 1))
    radius = draw(st.one_of(st.none(), ints(0, 14)))
    return {"lay": draw(layouts), "shape": shape, "axis": axis, "mode": draw(st.sampled_from(sorted(PAD))), "cval": draw(U(-2, 2)), "radius": radius, "sigma": draw(LOG(0.05, 3.0)), "data": draw(ints(0, 2**31)), "x0": draw(U(-3, 3)), "def": draw(st.booleans())}


def check_helper(c):
    from simcats.support_functions import fermi_dirac_derivative, fermi_filter1d

    a = layout(np.random.default_rng(c["data"]).normal(0, 3, tuple(c["shape"])), c["lay"])
    keep, s = a.copy(), c["sigma"]
    x = np.linspace(-6 * s, 6 * s, 4001) + c["x0"]
    f = quiet(fermi_dirac_derivative, x=x, x0=c["x0"], sigma=s)
    expect_close(f, 0.5 / s / np.cosh((x - c["x0"]) / s) ** 2, "derivative of the Fermi function", rtol=1e-9)
    expect(abs(f.sum() * (x[1] - x[0]) - 1) < 1e-3, "derivative of the Fermi function not normalised", integral=f.sum() * (x[1] - x[0]))
    if c["def"]:
        if abs(4 * s % 1 - 0.5) < 1e-9:
            return False, ["border"]
        got = quiet(fermi_filter1d, a, s)
        want = smooth(a, kernel("fermi", s))
    else:
        r = c["radius"]
        got = quiet(fermi_filter1d, input=a, sigma=s, axis=c["axis"], mode=c["mode"], cval=c["cval"], radius=r)
        if r is None and abs(4 * s % 1 - 0.5) < 1e-9:
            return False, ["border"]
        if c["mode"] == "mirror" and a.shape[c["axis"]] == 1:
            return False, ["border"]
        want = smooth(a, kernel("fermi", s, r), c["axis"], c["mode"], c["cval"])
    expect_equal(a, keep, "input of the filter modified")
    expect_close(got, want, "filtered data", rtol=1e-8, atol=1e-9)
    return True, [c["mode"] if not c["def"] else "defaults"]


# ---------------------------------------------------------------- in a simulation
@st.composite
def sim_cases(draw):
    w = draw(dist.toy_windows(lo=3, hi=20, hi1=60))
    v = draw(LOG(0.3, 5.0)) / density(w)
    return {"w": w, "toy": draw(dist.toys()), "d": [{"k": draw(st.sampled_from(["gauss", "fermi"])), "sigma": v * draw(U(0.5, 2))} for _ in range(draw(ints(1, 2)))], "n": draw(ints(1, 2))}


def check_sim(c):
    from simcats import Simulation
    from simcats.sensor import SensorGeneric

    w = c["w"]
    toy = dist.build_toy({**c["toy"], "steps": True})
    sm = Simulation(ideal_csd_config=toy, sensor=SensorGeneric(None, np.array([1.0, 0.7]), np.zeros(2), 0.0), occupation_distortions=[dist.build_occ(d) for d in c["d"]])
    res = np.array(w["res"]) if isinstance(w["res"], list) else w["res"]
    clean, lead0 = toy.get_csd_data(w["r1"], w["r2"], w["res"])
    want = clean
    for d in c["d"]:
        if border(d, w, d["sigma"]):
            return False, ["border"]
        want = expected(d, want, w, d["sigma"])
    for j in range(c["n"]):
        csd, occ, lead, _ = quiet(sm.measure, np.array(w["r1"]), np.array(w["r2"]), resolution=res)
        expect_close(occ, want, f"measurement {j}: occupations", rtol=1e-8, atol=1e-8)
        expect_equal(lead, lead0, f"measurement {j}: transition mask changed")
        expect_close(csd, occ[..., 0] + 0.7 * occ[..., 1], f"measurement {j}: signal", rtol=1e-9)
    return not np.allclose(want, clean), [w["kind"], f"{len(c['d'])} filters"]


PARTS = [
    Part("objects", cases, check, quick=6000, thorough=100000, rule="both filters, 1D and 2D windows, widths from zero over sub-pixel to beyond the scan, fixed and sampled, 1-3 calls plus frozen calls; reference convolution, monotonicity, range, charge conservation, symmetry; non-trivial = the data changed"),
    Part("helpers", helper_cases, check_helper, quick=2000, thorough=40000, rule="filter function with any axis, border mode, radius and number of dimensions against a direct convolution"),
    Part("simulation", sim_cases, check_sim, quick=800, thorough=16000, rule="one or two filters in a simulation over a stepped model, 1-2 measurements; non-trivial = the data changed"),
]
