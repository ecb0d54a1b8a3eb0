"""C08: barrier-coupled sensor - three affine potentials and series conductance."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import sens
from vlib.core import Known, Part, expect, expect_close, expect_equal
from vlib.gens import U, ints


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@st.composite
def cases(draw, mode):
    w = draw(sens.sensor_windows())
    s = draw(sens.scan_sensor(*w, rise=None if mode == "csd" else "any", peak_none=True))
    kind = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"]))
    n2, n1 = (120, 4000) if draw(ints(0, 39)) == 0 else (16, 50)
    sh = [draw(ints(1, n2)), draw(ints(1, n2))] if kind == "2d" else [draw(ints(1, n1))]
    fixed = lambda lo, hi: draw(st.one_of(st.none(), U(lo, hi), st.just(0), ints(-1, 1)))  # noqa: E731
    if mode == "scan":
        a, b = w
        if kind == "g1":
            b = float(b[0])
        if kind == "g2":
            a = float(a[0])
        v = [fixed(-0.3, 0.3), fixed(-0.3, 0.3), a, b]
    else:
        a, b = [draw(U(-0.5, 0.5)), draw(U(-0.5, 0.5))], [draw(U(-0.5, 0.5)), draw(U(-0.5, 0.5))]
        if kind == "g1":
            b = b[:1] * 2
        if kind == "g2":
            a = a[:1] * 2
        f1, f2 = draw(U(0, 1)), draw(U(0, 1))
        v = [a, b, w[0][0] + f1 * (w[0][1] - w[0][0]), w[1][0] + f2 * (w[1][1] - w[1][0])]
        if draw(ints(0, 7)) == 0:
            v[2] = None
        if draw(ints(0, 7)) == 0:
            v[3] = None
    occ = draw(sens.occupations(sh))
    if mode == "scan":
        occ["kind"] = "const"
    return {"sensor": s, "v": v, "occ": occ, "kind": kind}


def occ_of(o):
    if o["kind"] == "const":  # a sensor scan is taken at one occupation of the double dot
        r = np.random.default_rng(o["seed"])
        return np.broadcast_to(r.integers(0, 4, 2) + (r.random(2) if o["seed"] % 2 else 0), tuple(o["shape"]) + (2,)).astype(float).copy()
    return sens.occ_array(o)


def arg(x):
    return np.array(x, float) if isinstance(x, list) else x


def check(c, rise=True):
    s, v = c["sensor"], c["v"]
    sen, ref = sens.build(s), sens.reference(s)
    occ = occ_of(c["occ"])
    args = [arg(x) for x in v]
    o = occ.copy()
    mu = quiet(sen.sensor_potential, o, *args)
    want = ref.potentials(occ, *v)
    expect(np.shape(mu) == want.shape, "potential has the wrong shape", got=np.shape(mu), want=want.shape)
    for k, n in enumerate(("sensor dot", "barrier 1", "barrier 2")):
        expect_close(mu[k], want[k], f"potential of {n}", rtol=1e-10, atol=1e-10)
    expect_equal(o, occ, "reading the potential modified the occupations")
    for x, y in zip(args, v):
        if isinstance(y, list):
            expect(np.array_equal(x, y), "reading the potential modified the ranges")
    keep = np.array(mu)
    before = repr(sen)
    resp = quiet(sen.sensor_response, mu)
    expect_equal(mu, keep, "reading the response modified the potentials")
    el = ref.element(want[0])
    if s["rise"] is not None and c["occ"]["kind"] == "const":
        fp = ref.full_potential(occ.reshape(-1, 2)[0], v[0], v[1])
        el = np.maximum(el, ref.rise(want[0], fp))
    wr, b1, b2 = ref.series(el, want[1], want[2])
    if s["peaks"] is None:
        ok = el > 1e-9  # the bare potential as conductance is only meaningful where it is positive
        resp_c, wr_c = np.where(ok, resp, 0), np.where(ok, wr, 0)
    else:
        resp_c, wr_c = resp, wr
    expect_close(resp_c, wr_c, "sensor response", rtol=1e-6, atol=1e-8)
    if s["peaks"] is not None:
        lim = np.minimum(np.minimum(el, b1), b2)
        expect(np.all(resp >= -1e-12), "negative conductance")
        expect(np.all(resp <= lim * (1 + 1e-6) + 1e-9), "series conductance exceeds that of one of its elements")
    closed = (b1 == 0) | (b2 == 0)
    expect(np.all(np.asarray(resp)[closed] == 0), "conductance through a closed barrier")
    again = quiet(sen.sensor_response, np.array(mu))
    expect_equal(again, resp, "second reading of the response differs from the first")
    expect(repr(sen) == before, "reading changed the sensor")
    lab = [c["kind"], "one barrier function" if isinstance(s["barriers"], dict) else "two"]
    if s["rise"]:
        lab.append("rise")
    if s["deform"]:
        lab.append("deform")
    nt = np.ptp(np.asarray(resp)) > 1e-6 * max(1e-3, np.abs(resp).max())
    # the same arrays with other contents are other inputs
    mu = np.array(mu)
    quiet(sen.sensor_response, mu)
    mu[0] += 0.0625
    mu[1:] -= 0.03125
    el = ref.element(mu[0].copy())
    if s["rise"] is not None and c["occ"]["kind"] == "const":
        el = np.maximum(el, ref.rise(mu[0].copy(), fp))
    wr, _, _ = ref.series(el, mu[1].copy(), mu[2].copy())
    resp, ok = quiet(sen.sensor_response, mu), (el > 1e-9) | (s["peaks"] is not None)
    expect_close(np.where(ok, resp, 0), np.where(ok, wr, 0), "sensor response after the potentials were changed in place", rtol=1e-6, atol=1e-8)
    o += 1
    now = []
    for x in args:
        if isinstance(x, np.ndarray):
            x *= 0.5
            now.append([float(y) for y in x])
        else:
            now.append(x)
    expect_close(quiet(sen.sensor_potential, o, *args), ref.potentials(o.copy(), *now), "potentials after the arguments were changed in place", rtol=1e-10, atol=1e-10)
    return nt, lab


@st.composite
def both_cases(draw):
    c = draw(cases("csd"))
    return c


def check_reject(c):
    """Sweeping plunger and sensor gates together is refused; so are occupations of a wrong dimension."""
    from vlib.core import raises

    sen = sens.build(c["sensor"])
    occ = occ_of(c["occ"])
    a = np.array([0.0, 0.1])
    for i in (0, 1):
        for j in (2, 3):
            v = [0.1, 0.1, 0.1, 0.1]
            v[i], v[j] = a, a
            expect(raises(lambda: quiet(sen.sensor_potential, occ, *v), ValueError) is not None, "sweeping plunger and sensor gates together was accepted", gates=(i, j))
    expect(raises(lambda: quiet(sen.sensor_potential, np.zeros((2,)), a, a, 0.1, 0.1), ValueError) is not None, "one-dimensional occupations were accepted")
    return True, []


def _rise_dropped():
    """Final rise together with peak deformations: the rise is not part of the response."""
    s = dict(FIND)
    with_r, without = sens.build(s), sens.build({**s, "rise": None})
    occ = np.zeros((40, 2))
    out = []
    for x in (with_r, without):
        mu = quiet(x.sensor_potential, occ, 0.0, 0.0, np.array([0.0, 2.0]), np.array([0.0, 2.0]))
        out.append(quiet(x.sensor_response, mu))
    return np.array_equal(out[0], out[1])


def _rise_follows_sweep():
    """Charge-stability mode: the rise depends on where the sweep starts."""
    s = {**FIND, "deform": {}}
    x = sens.build(s)
    a = quiet(x.sensor_response, quiet(x.sensor_potential, np.zeros((40, 2)), np.array([0.0, 1.0]), np.array([0.0, 1.0]), 1.0, 1.0))
    b = quiet(x.sensor_response, quiet(x.sensor_potential, np.zeros((40, 2)), np.array([1.0, 0.0]), np.array([1.0, 0.0]), 1.0, 1.0))
    return not np.allclose(a, b[::-1], rtol=1e-6, atol=1e-9)


_B = {"t": "glf", "p": [0.0, 1.0, 10.0, 1.0, 1.0, 1.0, 0.5], "pinch": 0.01, "full": 0.99}
FIND = {"kind": "scan", "alpha_dot": None, "alpha_gate": [[0.3, 0.3], [0.1, 0.1], [0.1, 0.1]], "alpha_sensor_gate": [[0.3, 0.3], [0.6, 0.1], [0.1, 0.6]],
        "offset": 0.0, "barriers": _B, "peaks": [{"t": "L", "mu0": 0.3, "w": 0.02, "height": 0.3, "offset": 0.0}],
        "rise": {"p": [0.0, 1.0, 20.0, 1.0, 1.0, 1.0], "mu0": 0.0, "full": 0.99}, "deform": {"0": {"t": "lin", "angle": 1.2}}, "range": []}

KNOWN = [
    Known("the final rise is left out of the response when peak deformations are configured (sensor of checks/c08.py FIND, 1D scan of both sensor gates 0..2)", _rise_dropped),
    Known("in charge-stability mode the final rise is placed from the first pixel and sweep start, so it depends on the sweep direction (sensor of checks/c08.py FIND without deformation, gates 0..1 against 1..0)", _rise_follows_sweep),
]
PARTS = [
    Part("sensor-scan", lambda: cases("scan"), check, quick=3000, thorough=50000, rule="random sensor (lever arms in every accepted notation, one or two barrier functions, logistic and multi-step, optional rise) swept over sensor gates in 2D and 1D; non-trivial = the response varies"),
    Part("csd", lambda: cases("csd"), check, quick=3000, thorough=50000, rule="same sensors without rise, plunger gates swept over random occupations at fixed or absent sensor voltages; non-trivial = the response varies"),
    Part("reject", both_cases, check_reject, quick=200, thorough=2000, rule="random sensor; joint sweeps of plunger and sensor gates"),
]
ASSUMPTIONS = ["the final rise is judged in sensor-scan mode without peak deformations only (see known findings)"]
