"""C10: deformations bend Coulomb peaks by their stated geometry."""
import copy
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import sens
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.gens import LOG, U, Z, ints


@st.composite
def shift_cases(draw):
    a = [draw(U(0.02, 1.0)), draw(Z(0.0, 1.0))][:: draw(st.sampled_from([1, -1]))]
    d = {"t": "lin", "angle": draw(U(0.05, math.pi - 0.05))} if draw(st.booleans()) else {"t": "circ", "radius": draw(LOG(1e-3, 10)) * draw(st.sampled_from([1, -1]))}
    shape = draw(st.sampled_from(["scalar", "1d", "2d"]))
    R = abs(d.get("radius", 1.0)) / math.hypot(*a)
    n = {"scalar": 1, "1d": draw(ints(1, 8)), "2d": 6}[shape]
    dist = [draw(U(-2.2, 2.2)) * R for _ in range(n)]
    if draw(ints(0, 4)) == 0:
        dist[0] = draw(st.sampled_from([0.0, R, -R]))
    return {"lever": a, "lever2": [draw(U(0.02, 1.0)), draw(Z(0.0, 1.0))], "d": d, "mu0": draw(U(-2, 2)), "dist": dist, "shape": shape}


def sensor_for(lever, peaks, deform):
    """deform: index -> case dict."""
    s = {"kind": "scan", "alpha_dot": None, "alpha_gate": None, "alpha_sensor_gate": [lever, [0.5, 0.1], [0.1, 0.5]], "offset": 0.0,
         "barriers": {"t": "glf", "p": [0.0, 1.0, 20.0, 1.0, 1.0, 1.0, 0.0], "pinch": 0.01, "full": 0.99}, "peaks": peaks, "rise": None, "deform": deform, "range": []}
    return s


PK = {"t": "L", "mu0": 0.0, "w": 0.1, "height": 1.0, "offset": 0.0}


def check_shift(c):
    d, mu0 = c["d"], c["mu0"]
    s = sensor_for(c["lever"], [PK], {"0": d})
    sen = sens.build(s)
    f = sen.sensor_peak_deformations[0]
    dist = np.array(c["dist"])
    if c["shape"] == "2d":
        dist = dist.reshape(2, 3)
    arg = float(dist[0]) if c["shape"] == "scalar" else dist
    keep = np.array(arg)
    got = f.calc_mu(dist=arg, mu0=mu0)
    expect(np.array_equal(arg, keep), "the distances handed over were modified")
    expect(np.shape(got) == np.shape(arg), "result does not have the shape of the distances", got=np.shape(got), want=np.shape(arg))
    norm = math.hypot(*c["lever"])
    want = sens.deform(d, mu0, arg, norm)
    tol = 1e-8 + 1e-6 * (abs(d["radius"]) / norm if d["t"] == "circ" else 0)  # the circle is infinitely steep at its rim
    expect_close(got, want, "deformed peak centre", rtol=1e-8, atol=tol)
    expect_close(f.calc_mu(dist=0.0, mu0=mu0), mu0, "centre on the undeformed axis", rtol=1e-12, atol=1e-12)
    # element by element, and odd / even in the distance
    if c["shape"] != "scalar":
        one = np.array([f.calc_mu(dist=float(x), mu0=mu0) for x in dist.ravel()]).reshape(dist.shape)
        expect_close(got, one, "array and single distances disagree", rtol=1e-12, atol=1e-12)
    other = f.calc_mu(dist=-np.asarray(arg), mu0=mu0)
    sgn = -1 if d["t"] == "lin" else 1
    expect_close(np.asarray(other) - mu0, sgn * (np.asarray(got) - mu0), "symmetry in the distance", rtol=1e-8, atol=tol)
    if d["t"] == "circ":
        R = abs(d["radius"]) / norm
        below = (np.asarray(got) - mu0) * np.sign(d["radius"])
        expect(np.all(below <= 1e-12 + tol) and np.all(below >= -R * (1 + 1e-9)), "circular shift leaves the circle", got=got)
        # the points (distance, shift) lie on the circle that touches the peak on the axis
        inside = np.abs(np.asarray(arg)) <= R
        r = np.hypot(np.asarray(arg), np.asarray(got) - mu0 + np.sign(d["radius"]) * R)
        expect_close(np.where(inside, r, R), np.full(np.shape(arg), R), "deformed peak is not on the circle", rtol=1e-7, atol=tol)
    else:
        # angle between the ascending axis and the wavefront on its right side, distances and potentials in the same unit
        z = np.asarray(arg) * norm
        ang = np.arctan2(np.abs(z), (np.asarray(got) - mu0) * np.sign(z))
        nz = np.abs(z) > 1e-9
        expect_close(np.where(nz, ang, d["angle"]), np.full(np.shape(arg), d["angle"]), "angle of the deformed wavefront", rtol=1e-6, atol=1e-6)
    # configured value can be changed and is used from then on
    if d["t"] == "lin":
        f.angle = math.pi - d["angle"]
        expect_close(f.calc_mu(dist=arg, mu0=mu0), 2 * mu0 - np.asarray(got), "opposite angle", rtol=1e-7, atol=1e-8)
    else:
        f.radius = -d["radius"]
        expect_close(f.calc_mu(dist=arg, mu0=mu0), 2 * mu0 - np.asarray(got), "opposite radius", rtol=1e-8, atol=tol)
        f.radius = d["radius"]
    # ... and so can the lever arms of the sensor
    if d["t"] == "lin":
        f.angle = d["angle"]
    sen.alpha_sensor_gate = np.array([c["lever2"], [0.5, 0.1], [0.1, 0.5]])
    norm = math.hypot(*c["lever2"])
    tol = 1e-8 + 1e-6 * (abs(d["radius"]) / norm if d["t"] == "circ" else 0)
    expect_close(f.calc_mu(dist=arg, mu0=mu0), sens.deform(d, mu0, arg, norm), "deformed peak centre after the lever arms of the sensor were changed", rtol=1e-8, atol=tol)
    if c["shape"] != "scalar":
        arg *= 0.5  # the same array with other contents
        expect_close(f.calc_mu(dist=arg, mu0=mu0), sens.deform(d, mu0, arg.copy(), norm), "deformed peak centre after the distances were changed in place", rtol=1e-8, atol=tol)
    return bool(np.any(np.asarray(arg) != 0)), [d["t"], c["shape"]]


@st.composite
def scan_cases(draw):
    w = draw(sens.sensor_windows())
    s = draw(sens.scan_sensor(*w, deform_ok=True, rise=None))
    kind = draw(st.sampled_from(["2d", "g1", "g2", "both"]))
    r1, r2 = w
    if kind == "g1":
        r2 = [r2[0], r2[0]]
    if kind == "g2":
        r1 = [r1[0], r1[0]]
    n2, n1 = (40, 400) if draw(ints(0, 59)) == 0 else (12, 40)
    sh = [draw(ints(2, n2)), draw(ints(2, n2))] if kind == "2d" else [draw(ints(2, n1))]
    fx = lambda: draw(st.one_of(st.none(), U(-0.3, 0.3)))  # noqa: E731
    return {"sensor": s, "r1": r1, "r2": r2, "shape": sh, "kind": kind, "v": [fx(), fx()], "occ": [draw(ints(0, 4)), draw(ints(0, 4))]}


def check_scan(c):
    """The response of a sensor-gate sweep has every deformed peak where its deformation puts it."""
    s = c["sensor"]
    nt = compare(sens.build(s), s, c)
    return nt, [c["kind"], f"{min(len(s['deform']), 3)} deformed"]


def compare(sen, s, c):
    ref = sens.reference(s)
    sh = tuple(c["shape"])
    occ = np.broadcast_to(np.array(c["occ"], float), sh + (2,)).copy()
    before = repr(sen)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mu = sen.sensor_potential(occ, *c["v"], np.array(c["r1"]), np.array(c["r2"]))
        got = sen.sensor_response(mu)
        again = sen.sensor_response(mu)
    P = ref.potentials(occ, *c["v"], c["r1"], c["r2"])
    dist = ref.axis_distance(np.array(c["occ"], float), *c["v"], c["r1"], c["r2"], sh)
    mu0 = [ref.deformed(s["deform"][str(i)], p["mu0"], dist) if str(i) in s["deform"] else p["mu0"] for i, p in enumerate(s["peaks"])]
    want, _, _ = ref.series(ref.element(P[0], mu0), P[1], P[2])
    plain, _, _ = ref.series(ref.element(P[0]), P[1], P[2])
    expect_close(got, want, "response with deformed peaks", rtol=1e-6, atol=1e-7)
    expect_equal(again, got, "second reading differs")
    expect(repr(sen) == before, "reading the response changed the sensor (peaks must return to their configured centres)")
    return bool(s["deform"]) and float(np.max(np.abs(want - plain))) > 1e-6


@st.composite
def update_cases(draw):
    c = draw(scan_cases())
    c["other"] = draw(sens.scan_sensor(c["r1"], c["r2"], deform_ok=True, rise=None))
    c["ops"] = draw(st.lists(st.sampled_from(["levers", "plungers", "dots", "offset", "barriers", "peaks", "centre", "value", "deform", "drop", "copy", "read"]), min_size=1, max_size=6))
    return c


def check_update(c):
    """Changes of the live sensor are followed by its deformed peaks."""
    s, o = copy.deepcopy(c["sensor"]), c["other"]
    sen = sens.build(s)
    arr = lambda a: None if a is None else np.array(a, float)  # noqa: E731
    nt = compare(sen, s, c)
    for op in c["ops"]:
        if op == "levers":
            s["alpha_sensor_gate"] = o["alpha_sensor_gate"]
            sen.alpha_sensor_gate = arr(o["alpha_sensor_gate"])
        elif op == "plungers":
            s["alpha_gate"] = o["alpha_gate"]
            sen.alpha_gate = arr(o["alpha_gate"])
        elif op == "dots":
            s["alpha_dot"] = o["alpha_dot"]
            sen.alpha_dot = arr(o["alpha_dot"])
        elif op == "offset":
            s["offset"] = o["offset"]
            sen.offset_mu_sens = arr(o["offset"]) if isinstance(o["offset"], list) else o["offset"]
        elif op == "barriers":
            b = s["barriers"] = o["barriers"]
            sen.barrier_functions = sens.build_barrier(b) if isinstance(b, dict) else tuple(sens.build_barrier(x) for x in b)
        elif op == "peaks":  # as many as before, as the deformations refer to their numbers
            s["peaks"] = [o["peaks"][i % len(o["peaks"])] for i in range(len(s["peaks"]))]
            sen.sensor_peak_function = sens.build_peaks(s["peaks"])
        elif op == "centre":
            s["peaks"] = [dict(p, mu0=p["mu0"] + 0.05) for p in s["peaks"]]
            for p in sen.sensor_peak_function:
                p.mu0 = p.mu0 + 0.05
        elif op == "value":
            for k, d in s["deform"].items():
                f = sen.sensor_peak_deformations[int(k)]
                if d["t"] == "lin":
                    d["angle"] = f.angle = 0.5 * (d["angle"] + math.pi / 2)
                else:
                    d["radius"] = f.radius = -1.5 * d["radius"]
        elif op == "deform":
            s["deform"] = {k: copy.deepcopy(d) for k, d in o["deform"].items() if int(k) < len(s["peaks"])}
            sen.sensor_peak_deformations = {int(k): sens.build_deform(d) for k, d in s["deform"].items()}
            for f in sen.sensor_peak_deformations.values():
                f.sensor = sen
        elif op == "drop" and s["deform"]:
            s["deform"] = {}
            sen.sensor_peak_deformations = {}
        elif op == "copy":
            sen = copy.deepcopy(sen)
        nt |= compare(sen, s, c)
    return nt, sorted(set(c["ops"]))


@st.composite
def owner_cases(draw):
    n = draw(ints(1, 3))
    ds = [{"t": "lin", "angle": draw(U(0.9, 2.2))} if draw(st.booleans()) else {"t": "circ", "radius": draw(LOG(0.02, 2.0)) * draw(st.sampled_from([1, -1]))} for _ in range(n)]
    return {"levers": [[draw(U(0.05, 1.0)), draw(U(0.05, 1.0))] for _ in range(2)], "d": ds, "dist": draw(U(-0.5, 0.5)), "order": draw(st.booleans())}


def check_owner(c):
    """Deformation objects and peaks of the caller may be reused for several sensors without side effects."""
    from simcats.sensor import SensorScanSensorGeneric

    objs = {i: sens.build_deform(d) for i, d in enumerate(c["d"])}
    pk = [sens.build_peak({**PK, "mu0": 0.1 * i}) for i in range(len(objs))]
    text = repr(objs), repr(pk)
    bar = sens.build_barrier(sensor_for([1, 1], [], {})["barriers"])
    out = []
    for lv in c["levers"]:
        out.append(SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=pk, alpha_sensor_gate=np.array([lv, [0.5, 0.1], [0.1, 0.5]]), sensor_peak_deformations=objs))
    order = list(zip(out, c["levers"]))
    if c["order"]:
        order = order[::-1]
    for s, lv in order:
        for i, d in enumerate(c["d"]):
            expect_close(s.sensor_peak_deformations[i].calc_mu(dist=c["dist"], mu0=0.1 * i), sens.deform(d, 0.1 * i, c["dist"], math.hypot(*lv)), "deformation shared between two sensors", rtol=1e-8, atol=1e-9)
    occ = np.zeros((7, 2))
    for s, lv in order:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mu = s.sensor_potential(occ, 0.0, 0.0, np.array([-0.5, 0.5]), np.array([-0.5, 0.5]))
            s.sensor_response(mu)
            s.get_sensor_scan_labels(0.0, 0.0, np.array([-0.5, 0.5]), np.array([-0.5, 0.5]), mu)
    expect((repr(objs), repr(pk)) == text, "deformations or peaks of the caller were modified")
    return True, [f"{len(objs)}"]


PARTS = [
    Part("shift", shift_cases, check_shift, quick=6000, thorough=100000, rule="random lever arms, deformation, distances (single, 1D, 2D; inside, on and beyond the circle); non-trivial = some distance is not zero"),
    Part("scan", scan_cases, check_scan, quick=2400, thorough=40000, rule="random sensor with deformed peaks swept over its sensor gates, response compared with the reference per pixel; non-trivial = the deformation changes the response"),
    Part("update", update_cases, check_update, quick=1200, thorough=20000, rule="1-6 changes of the live sensor (lever arms, offsets, barriers, peaks and their centres, deformation values, other deformations, copies), its response compared with the reference after each; non-trivial = the deformation changes some response"),
    Part("shared", owner_cases, check_owner, quick=1200, thorough=20000, rule="same deformation and peak objects used for two sensors with different lever arms"),
]
ASSUMPTIONS = ["the circle is judged in the gate-voltage scale in which the code applies it (radius divided by the lever-arm norm, shift taken over as potential)"]
