"""C12: a sensor scan is the composition of potentials, distortions and response."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import build, dist, gens, sens
from vlib.core import Known, Part, expect, expect_close, expect_equal, raises
from vlib.dist import LOGBOOK, quiet
from vlib.gens import U, ints


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"]))
    r1, r2 = w = draw(sens.sensor_windows())
    s = draw(sens.scan_sensor(*w, peak_none=True))
    if kind == "g1":
        r2 = [r2[0], r2[0]]
    if kind == "g2":
        r1 = [r1[0], r1[0]]
    n2, n1 = (70, 1500) if draw(ints(0, 39)) == 0 else (14, 40)
    res = [draw(ints(2, n2)), draw(ints(2, n2))] if kind == "2d" else draw(ints(2, n1))
    st_ = draw(dist.stack(dist.extent({"r1": r1, "r2": r2})))
    im = draw(st.sampled_from(["none", "toy", "toy", "geometric"]))
    if im == "geometric":
        m = draw(gens.models(n_max=4))
        ideal, v = {"model": m}, draw(gens.anchor_points(m, top=False))
    else:
        ideal, v = {"toy": draw(dist.toys()) if im == "toy" else None}, [draw(U(-1, 1)), draw(U(-1, 1))]
    if draw(ints(0, 4)) == 0:
        v = None
    return {**ideal, "r1": r1, "r2": r2, "kind": kind, "res": res, "v": v, "sensor": s, "stack": st_, "form": draw(ints(0, 2)), "rform": draw(ints(0, 2)), "n": draw(ints(1, 3))}


def compose(sensor, d, occ, v, r1, r2):
    """(scan, (labels)) written out by hand; the labels come from an untouched copy of the sensor."""
    kw = dict(volt_limits_g1=v[0], volt_limits_g2=v[1], volt_limits_sensor_g1=r1, volt_limits_sensor_g2=r2)
    other = copy.deepcopy(sensor)
    labels = other.get_sensor_scan_labels(potential=other.sensor_potential(occupations=occ.copy(), **kw), **kw)
    pots = [np.array(p) for p in sensor.sensor_potential(occupations=occ.copy(), **kw)]
    for x in d["pot"] or []:
        for k in range(3):
            pots[k] = np.array(x.noise_function(mu_sens=pots[k], volt_limits_g1=r1, volt_limits_g2=r2))
    scan = sensor.sensor_response(np.array(pots))
    for x in d["resp"] or []:
        scan = x.noise_function(sensor_response=scan, volt_limits_g1=r1, volt_limits_g2=r2)
    return scan, labels


def check(c):
    from simcats import Simulation

    d = dist.build_stack(c["stack"])
    ideal = build.ideal(c["model"]) if "model" in c else None if c["toy"] is None else dist.build_toy(c["toy"])
    sm = Simulation(ideal_csd_config=ideal, sensor=sens.build(c["sensor"]), occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"])
    sensor, hand = sens.build(c["sensor"]), copy.deepcopy(dist.build_stack(c["stack"]))
    rf = {0: np.array, 1: list, 2: tuple}[c["rform"]]
    v = c["v"] or [None, None]
    kw = {} if c["v"] is None else dict(volt_g1=v[0], volt_g2=v[1])
    sh = tuple(c["res"][::-1]) if isinstance(c["res"], list) else (c["res"],)
    one = np.zeros(2)
    if c["v"] is not None and ideal is not None:
        try:
            one = ideal.at(np.array(v))[0] if "toy" in c else ideal.get_csd_data(volt_limits_g1=(v[0], v[0]), volt_limits_g2=(v[1], v[1]), resolution=1)[0][0]
        except IndexError:  # above the last transition
            expect(raises(lambda: quiet(sm.measure_sensor_scan, rf(c["r1"]), rf(c["r2"]), resolution=dist.resolution(c["res"], c["form"]), **kw), IndexError) is not None, "scan delivered although the plunger voltages lie beyond the last transition")
            gens.rejected(c, [v[0]] * 2, [v[1]] * 2, 1)
            return False, ["rejected"]
    occ = np.broadcast_to(one, sh + (2,)).copy()
    for i in range(c["n"]):
        r1, r2, res = rf(c["r1"]), rf(c["r2"]), dist.resolution(c["res"], c["form"])
        LOGBOOK.clear()
        got = quiet(sm.measure_sensor_scan, sweep_range_sensor_g1=r1, sweep_range_sensor_g2=r2, resolution=res, **kw)
        calls = list(LOGBOOK)
        LOGBOOK.clear()
        want, labels = quiet(compose, sensor, hand, occ, v, np.array(c["r1"]), np.array(c["r2"]))
        expect(calls == LOGBOOK, f"scan {i}: distortions were not called once per potential and once per response, in order, with the sensor-gate limits", got=calls, want=list(LOGBOOK))
        expect_close(got[0], want, f"scan {i}: signal differs from the composition", rtol=1e-9, atol=1e-11)
        expect_equal(got[1], labels[0], f"scan {i}: conductive area differs from the labels of the undistorted scan")
        expect_equal(got[2], labels[1], f"scan {i}: peak labels differ from the labels of the undistorted scan")
        expect(got[1].shape == sh and got[2].shape == sh and got[0].shape == sh, "wrong shape")
        expect(list(r1) == list(c["r1"]) and list(r2) == list(c["r2"]), "the arguments were modified")
    n = len(c["stack"]["pot"] or []) + len(c["stack"]["resp"] or [])
    lab = [c["kind"], f"{n} distortions", "geometric" if "model" in c else "no model" if c["toy"] is None else "toy", "volts" if c["v"] else "no volts"]
    if c["stack"]["occ"]:
        lab.append("occupation distortions present")
    return n > 0 or bool(np.any(one)), lab


@st.composite
def point_cases(draw):
    m = draw(gens.models(n_max=4))
    w = draw(sens.sensor_windows())
    v = [x + draw(U(-3e-3, 3e-3)) for x in draw(gens.anchor_points(m, top=False))]
    return {"model": m, "v": v, "sensor": draw(sens.scan_sensor(*w, peak_none=True)), "r1": w[0], "r2": w[1], "res": [draw(ints(2, 8)), draw(ints(2, 8))]}


def check_point(c):
    """The fixed plunger voltages enter through the electron numbers of exactly that voltage point."""
    from simcats import Simulation

    m = build.reference(c["model"])
    p = np.array(c["v"])
    tot, amb = m.total(p, tol=1e-9)
    if amb or tot >= len(c["model"]["tct"]):
        return False, ["undecided"]
    n1 = float(m.dot1(p, int(tot)))
    if c["model"]["bend"] == "none" and any(float(m.dot1(p + d, int(tot))) != float(m.dot1(p - d, int(tot))) for d in (np.array([1e-9, 1e-9]), np.array([1e-9, -1e-9]))):
        return False, ["undecided"]  # on a step-like interdot line
    ref = sens.reference(c["sensor"])

    def response(n):
        occ = np.broadcast_to(np.array([n, tot - n]), tuple(c["res"][::-1]) + (2,))
        P = ref.potentials(occ, p[0], p[1], c["r1"], c["r2"])
        el = ref.element(P[0])
        if c["sensor"]["rise"]:
            el = np.maximum(el, ref.rise(P[0], ref.full_potential(occ[0, 0], p[0], p[1])))
        return ref.series(el, P[1], P[2])[0]

    sm = Simulation(ideal_csd_config=build.ideal(c["model"]), sensor=sens.build(c["sensor"]))
    got = quiet(sm.measure_sensor_scan, np.array(c["r1"]), np.array(c["r2"]), p[0], p[1], resolution=np.array(c["res"]))[0]
    want = response(n1)
    # the share of the dots is judged to 1e-6 (as in C03)
    tol = sum(np.abs(response(n1 + d) - want) for d in (1e-6, -1e-6)) + 1e-8 + 1e-6 * np.abs(want)
    expect_close(np.where(np.abs(got - want) <= tol, want, got), want, "scan with plunger voltages")
    return bool(tot), ["electrons" if tot else "empty"]


# ---------------------------------------------------------------- recorded finding
def _deformed_scan():
    """A measured scan with a deformed peak against the same sensor asked directly."""
    from simcats import Simulation

    from checks.c08 import FIND

    s = {**FIND, "rise": None}
    r = np.array([0.0, 2.0])
    got = quiet(Simulation(sensor=sens.build(s)).measure_sensor_scan, r, np.array([2.0, 1.0]), resolution=np.array([21, 17]))[0]
    x = sens.build(s)
    want = quiet(x.sensor_response, quiet(x.sensor_potential, np.zeros((17, 21, 2)), None, None, r, np.array([2.0, 1.0])))
    return not np.allclose(got, want, rtol=1e-6, atol=1e-9)


KNOWN = [Known("measured sensor scans with peak deformations are not deformed per pixel, because generating the labels replaces the scan state the response relies on (sensor of checks/c08.py FIND without rise, 21 x 17 scan of 0..2 x 2..1)", _deformed_scan)]
PARTS = [
    Part("composition", cases, check, quick=4000, thorough=70000, rule="random sensors, distortion stacks (recording and built-in), resolution and range notations, with and without model and plunger voltages, 1-3 scans in a row; non-trivial = a distortion acts or electrons are present"),
    Part("point", point_cases, check_point, quick=1200, thorough=20000, rule="noise-free scan against the reference sensor at the electron numbers of the reference charge model; non-trivial = electrons present"),
]
ASSUMPTIONS = ["the composition uses the sensor's and the distortions' own implementations (judged by C07-C10, C17-C19)", "peak deformations are left out of measured scans (see known findings)"]
