"""C07: potential and response of the plain charge sensor."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import sens
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.gens import LOG, U, ints


def ranges(draw):
    a, b = draw(U(-1, 1)), draw(U(-1, 1))
    kind = draw(st.sampled_from(["any", "any", "fixed"]))
    return [a, a] if kind == "fixed" else [a, b]


@st.composite
def cases(draw):
    s = draw(sens.generic())
    two = draw(st.booleans())
    n2, n1 = (130, 5000) if draw(ints(0, 39)) == 0 else (20, 60)
    sh = [draw(ints(1, n2)), draw(ints(1, n2))] if two else [draw(ints(1, n1))]
    return {"sensor": s, "occ": draw(sens.occupations(sh)), "r1": ranges(draw), "r2": ranges(draw)}


def check(c):
    s = c["sensor"]
    sen, ref = sens.build(s), sens.reference(s)
    occ = sens.occ_array(c["occ"])
    if c["occ"]["seed"] % 3 == 0:
        occ = np.asfortranarray(occ)
    r1, r2 = np.array(c["r1"]), np.array(c["r2"])
    o, a, b = occ.copy(), r1.copy(), r2.copy()
    before = repr(sen)
    mu = sen.sensor_potential(o, a, b)
    want = ref.potential(occ, list(r1), list(r2))
    expect_close(mu, want, "sensor potential", rtol=1e-10, atol=1e-10)
    keep = mu.copy()
    resp = sen.sensor_response(mu)
    expect_close(resp, ref.response(want), "sensor response", rtol=1e-8, atol=1e-8)
    expect_equal(mu, keep, "reading the response modified the potential")
    expect_equal(o, occ, "reading the potential modified the occupations")
    expect(np.array_equal(a, r1) and np.array_equal(b, r2), "reading the potential modified the ranges")
    expect_equal(sen.sensor_response(sen.sensor_potential(o, a, b)), resp, "second reading differs from the first")
    expect(repr(sen) == before, "reading changed the sensor", before=before, after=repr(sen))
    # the same arrays with other contents are other inputs
    nt = np.ptp(mu) > 0 or mu.size == 1
    mu += 0.25 * (1 + abs(s["offset"]))
    expect_close(sen.sensor_response(mu), ref.response(mu.copy()), "sensor response after the potential array was changed in place", rtol=1e-8, atol=1e-8)
    o += 1
    a *= -0.5
    b += 0.125
    expect_close(sen.sensor_potential(o, a, b), ref.potential(o.copy(), list(a), list(b)), "sensor potential after its arguments were changed in place", rtol=1e-10, atol=1e-10)
    return nt, [f"{mu.ndim}D", "linear" if s["peaks"] is None else f"{min(len(s['peaks']), 5)} peaks"]


@st.composite
def peak_cases(draw):
    p = draw(sens.peaks(n_max=1))[0]
    return {"peak": {**p, "mu0": draw(U(-2, 2)), "w": draw(LOG(1e-4, 3)), "height": draw(U(-1.5, 1.5)), "offset": draw(U(-1, 1))},
            "u": draw(st.lists(U(0, 12), min_size=2, max_size=8)), "scalar": draw(st.booleans())}


def check_peak(c):
    p = c["peak"]
    f = sens.build_peak(p).sensor_function
    u = np.sort(np.array(c["u"]))
    up, dn = f(p["mu0"] + u * p["w"]), f(p["mu0"] - u * p["w"])
    if c["scalar"]:
        up2 = np.array([f(float(p["mu0"] + x * p["w"])) for x in u])
        expect_close(up2, up, "peak evaluated for one number and for an array", rtol=1e-12, atol=1e-12)
    sc = abs(p["height"]) + 1e-12
    expect_close(float(np.asarray(f(p["mu0"]))), p["offset"] + p["height"], "value at the centre", atol=1e-9 * sc + 1e-12)
    expect_close(up, dn, "peak is not symmetric", rtol=1e-6, atol=1e-6 * sc)
    h = (up - p["offset"]) * np.sign(p["height"])
    expect(np.all(np.diff(h) <= 1e-9 * sc), "peak does not fall monotonically", u=u, got=up)
    expect(np.all(h >= -1e-9 * sc), "peak falls below its offset")
    w = float(np.asarray(f(p["mu0"] + p["w"])))
    frac = 0.5 if p["t"] == "L" else np.exp(-1.0)
    expect_close(w, p["offset"] + p["height"] * frac, "value one width from the centre", rtol=1e-6, atol=1e-7 * sc)
    far = float(np.asarray(f(p["mu0"] + 1e7 * p["w"])))
    expect_close(far, p["offset"], "value far from the centre", rtol=1e-9, atol=1e-9 * sc + 1e-12)
    expect_close(up, sens.peak(p, p["mu0"] + u * p["w"]), "peak", rtol=1e-6, atol=1e-7 * sc)
    x = p["mu0"] + u * p["w"]
    f(x)
    x += p["w"]
    expect_close(f(x), sens.peak(p, x), "peak after the potential array was changed in place", rtol=1e-6, atol=1e-7 * sc)
    return abs(p["height"]) > 1e-3, [p["t"]]


@st.composite
def update_cases(draw):
    a, b = draw(sens.generic(allow_none=False)), draw(sens.generic(allow_none=False))
    ops = draw(st.lists(st.sampled_from(["alpha_dot", "alpha_gate", "offset", "peaks", "peak0", "none", "read"]), min_size=1, max_size=8))
    return {"a": a, "b": b, "ops": ops, "occ": draw(sens.occupations([draw(ints(1, 6)), draw(ints(1, 6))])), "r1": ranges(draw), "r2": ranges(draw)}


def check_update(c):
    """Configured values changed through the public attributes take effect at the next reading, and only those."""
    s = copy.deepcopy(c["a"])
    sen = sens.build(s)
    occ, r1, r2 = sens.occ_array(c["occ"]), np.array(c["r1"]), np.array(c["r2"])
    for op in c["ops"] + ["read"]:
        if op == "alpha_dot":
            s["alpha_dot"] = c["b"]["alpha_dot"]
            sen.alpha_dot = np.array(s["alpha_dot"], float)
        elif op == "alpha_gate":
            s["alpha_gate"] = c["b"]["alpha_gate"]
            sen.alpha_gate = np.array(s["alpha_gate"], float)
        elif op == "offset":
            s["offset"] = c["b"]["offset"]
            sen.offset_mu_sens = s["offset"]
        elif op == "peaks":
            s["peaks"] = c["b"]["peaks"]
            sen.sensor_peak_function = sens.build_peaks(s["peaks"]) if len(s["peaks"]) > 1 else sens.build_peaks(s["peaks"])[0]
        elif op == "none":
            s["peaks"] = None
            sen.sensor_peak_function = None
        elif op == "peak0" and s["peaks"]:
            q = c["b"]["peaks"][0]
            s["peaks"] = [dict(s["peaks"][0], mu0=q["mu0"], height=q["height"], w=q["w"])] + s["peaks"][1:]
            pk = sen.sensor_peak_function[0]
            pk.mu0, pk.height = q["mu0"], q["height"]
            setattr(pk, "gamma" if s["peaks"][0]["t"] == "L" else "sigma", q["w"])
        ref = sens.reference(s)
        mu = sen.sensor_potential(occ, r1, r2)
        want = ref.potential(occ, list(r1), list(r2))
        expect_close(mu, want, f"sensor potential after {op}", rtol=1e-10, atol=1e-10)
        expect_close(sen.sensor_response(mu), ref.response(want), f"sensor response after {op}", rtol=1e-8, atol=1e-8)
    return len(set(c["ops"])) > 1, sorted(set(c["ops"]))


PARTS = [
    Part("sensor", cases, check, quick=6000, thorough=100000, rule="random sensor (0..5 peaks, mixed shapes), random 1D/2D occupations and ascending, descending or fixed gate ranges; non-trivial = the potential varies"),
    Part("peak", peak_cases, check_peak, quick=6000, thorough=100000, rule="random single peak incl. negative heights, evaluated at sorted distances; non-trivial = height above 1e-3"),
    Part("update", update_cases, check_update, quick=2400, thorough=40000, rule="random sequence of attribute changes, read after every step; non-trivial = several kinds of change"),
]
