"""C26: sampled and shipped configurations are valid and respect their options."""
import contextlib
import copy
import math
import random

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib.core import Part, expect, expect_close, raises
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds
from vlib.models import Tct, rot

KEYS = {"volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"}
LO, HI = -0.2, -0.06
EPS = 1e-12


@contextlib.contextmanager
def seeded(seed):
    """Everything the sampler draws without an own seed becomes reproducible."""
    real = np.random.default_rng
    seq = np.random.SeedSequence(seed)
    np.random.default_rng = lambda s=None: real(seq.spawn(1)[0] if s is None else s)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    try:
        yield
    finally:
        np.random.default_rng = real


def inside(v, lo, hi, what, tol=1e-9):
    t = tol * max(abs(lo), abs(hi))
    expect(np.all(np.isfinite(v)) and np.min(v) >= lo - t and np.max(v) <= hi + t, f"{what} outside its range", got=v, want=[lo, hi])


@st.composite
def request(draw, lo=LO, hi=HI, n_max=40):
    """Window inside the limits with a pixel pitch not coarser than a ninth of the limits."""
    def axis():
        if draw(ints(0, 2)) == 0:
            a, b = lo, hi
        else:
            a, b = sorted((draw(U(lo, hi)), draw(U(lo, hi))))
        if b - a < 0.01 * (hi - lo):
            a, b = lo, hi
        n = max(2, math.ceil(9 * (b - a) / (hi - lo)) + 1)
        return [a, b] if draw(st.booleans()) else [b, a], draw(ints(n, n_max))

    (r1, n1), (r2, n2) = axis(), axis()
    if draw(ints(0, 2)) == 0:
        return {"r1": r1, "r2": r2, "res": draw(ints(max(n1, n2), 120))}
    return {"r1": r1, "r2": r2, "res": [n1, n2]}


@st.composite
def options(draw):
    return {"type": draw(st.sampled_from(["SensorGeneric", "SensorGeneric", "SensorScanSensorGeneric"])), "q": draw(st.one_of(st.just(1.0), U(0.02, 1.0))), "comp": draw(st.booleans()), "steep": draw(ints(0, 2)) == 0}


@st.composite
def cases(draw):
    return {"o": draw(options()), "seed": draw(seeds), "n": 6, "reqs": [draw(request()) for _ in range(3)], "scan": draw(request(-1, 0, 16)), "v": [draw(U(LO, HI)), draw(U(LO, HI))], "def": draw(ints(0, 5)) == 0}


def sample(o, default=False):
    from simcats.config_samplers import sample_random_variations_v3_config as f

    if default:
        return f()
    return f(sensor_type=o["type"], quality_multiplier=o["q"], compensated_sensor=o["comp"], set_sensor_potential_offset_to_steepest_point=o["steep"])


def check_ideal(m):
    P = [np.asarray(p, float) for p in m.tct_params]
    expect(len(P) >= 2, "too few transitions", got=len(P))
    first = P[0]
    for p in P:
        expect(p.shape == (8,) and np.all(np.isfinite(p)), "malformed transition", got=p)
        inside(p[:2], 0.01, 0.025, "length of a lead transition")
        inside(p[2], 0.21429, 0.54688, "rising slope")
        inside(p[3], -0.44, -0.07692, "falling slope")
    s1, s2 = np.array([1, first[2]]), np.array([1, first[3]])
    inside(math.acos(s1 @ s2 / np.hypot(*s1) / np.hypot(*s2)), 0.43760867228, 1.6789624091, "angle between the lead transitions")
    d = np.array([1, 0.5 * (first[2] + first[3])])
    w = first[6:8] - first[4:6]
    expect_close(w / np.hypot(*w), d / np.hypot(*d), "direction of the bend", rtol=0, atol=1e-7)
    width = np.hypot(*w)
    inside(width, 0.00043, 0.00814, "width of the bend", 1e-7)
    r = rot([[-0.14, -0.14]], np.pi / 4)[0]
    expect_close(first[4:6], r, "position of the first bend", rtol=0, atol=1e-9)
    if len(P) > 1:
        sh = P[1][4:6] - first[4:6]
        for a, b in zip(P, P[1:]):
            expect_close(b - a, [0, 0, 0, 0, *sh, *sh], "transitions are not equally shifted copies", rtol=0, atol=1e-9)
        inter = sh + np.array([first[1], first[1] * first[3]])
        length = np.hypot(*inter)
        inside(length, 0.00261, 0.00987, "length of an interdot transition", 1e-7)
        inside(length / width, 0.8692269873603532, 9.055385138137407, "ratio of interdot length to bend width", 1e-6)
        ang = math.atan2(inter[1], inter[0]) - math.atan2(first[2], 1)
        inside(ang, 0.58153916891, 1.396938844, "angle of the interdot transition", 1e-7)
        back = rot([inter], -np.pi / 4)[0]
        expect(back.min() >= -1e-9, "an interdot transition goes backwards in voltage", got=back)
    expect(m.lut_entries == 1000, "look-up table entries", got=m.lut_entries)
    # strictly increasing order without crossing
    c = rot([[LO, LO], [LO, HI], [HI, LO], [HI, HI]], np.pi / 4)
    x = np.linspace(c[:, 0].min(), c[:, 0].max(), 300)
    y = np.array([Tct(p, i + 1)(x) for i, p in enumerate(P)])
    expect(np.all(np.diff(y, axis=0) > 0), "transition curves cross or touch inside the limits", gap=float(np.diff(y, axis=0).min()))
    expect(abs(m.rotation + np.pi / 4) < 1e-12, "rotation", got=m.rotation)


def check_lever(ad, ag, o):
    if o["comp"]:
        inside(ag[0], 0.0001, 0.0005, "lever arm of gate 1 (compensated)")
    else:
        inside(ag[0], 0.02805, 0.15093, "lever arm of gate 1")
    inside(ag[1] / ag[0], 0.5, 2, "ratio of the gate lever arms")
    for k, (a, b) in enumerate(((-0.0007994, -0.0000961), (-0.0005214, -0.0000630))):
        inside(ad[k], a, a + o["q"] * (b - a), f"lever arm of dot {k + 1} at quality {o['q']}")
    expect(ad[0] <= -0.0006 * ag[0] * (1 - 1e-9) and ad[1] <= -0.0006 * ag[1] * (1 - 1e-9) or ad[1] <= 0.5 * ad[0], "a charge transition moves the sensor less than two pixels", got=[ad, ag])
    inside(ad[1] / ad[0], 0.0, 2.0, "ratio of the dot lever arms")


def steepness(peaks, mu):
    return sum(p.height * -2 * (mu - p.mu0) / p.gamma**2 / (1 + ((mu - p.mu0) / p.gamma) ** 2) ** 2 for p in peaks)


def check_generic(s, o):
    from simcats.sensor import SensorGeneric

    expect(type(s) is SensorGeneric, "sensor type", got=type(s).__name__)
    check_lever(s.alpha_dot, s.alpha_gate, o)
    pk = s.sensor_peak_function
    n = len(pk)
    expect(3 <= n <= 6, "number of peaks", got=n)
    corners = [5 * k * (s.alpha_dot[0] + s.alpha_dot[1]) + v * (s.alpha_gate[0] + s.alpha_gate[1]) for k, v in ((0, LO), (1, HI))]
    lo, hi = min(corners), max(corners)
    inside([p.mu0 for p in pk], lo, hi, "peak position")
    mus = np.sort([p.mu0 for p in pk])
    expect(np.diff(mus).min() >= (hi - lo) / (2 * n) * (1 - 1e-9), "peaks too close", got=mus)
    inside([p.gamma for p in pk], 0.0009636, 0.0029509, "peak width")
    inside(pk[0].height, 0.02245, 0.19204, "peak height")
    inside([p.height / pk[0].height for p in pk], 0.8, 1.2, "relative peak height")
    inside(pk[0].offset, -0.42275, -0.0838, "peak offset")
    inside([p.offset / pk[0].offset for p in pk], 0.8, 1.2, "relative peak offset")
    if o["steep"]:
        a, b = lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo)  # potentials the gates can reach, with a margin
        grid = np.clip(np.concatenate([p.mu0 - p.gamma * np.linspace(-1, 3, 300) for p in pk] + [np.linspace(a, b, 300)]), a, b)
        inside(s.offset_mu_sens, a, b, "steepest point")
        best = steepness(pk, grid).max()
        expect(steepness(pk, s.offset_mu_sens) >= best * (1 - 2e-3), "the offset is not the steepest point of the sensor", got=float(steepness(pk, s.offset_mu_sens)), want=float(best))
    else:
        expect(s.offset_mu_sens == 0, "offset set without being asked for", got=s.offset_mu_sens)


def check_scan(s, o):
    from simcats.sensor import SensorScanSensorGeneric

    expect(type(s) is SensorScanSensorGeneric, "sensor type", got=type(s).__name__)
    A = np.asarray(s.alpha_sensor_gate, float)
    expect(A.shape == (3, 2), "sensor lever arms", got=A)
    expect(abs(A[0].max() - 0.1) < 1e-12 and A[0].min() > 0, "sensor dot lever arms", got=A[0])
    expect_close([A[1, 0], A[2, 1]], [0.99, 0.99], "barrier lever arms")
    inside([A[1, 1], A[2, 0]], 0.1, 0.3, "barrier cross coupling")
    ad, ag = np.atleast_2d(s.alpha_dot), np.atleast_2d(s.alpha_gate)
    for a, g in zip(ad, ag):
        check_lever(a, g, o)
    b = s.barrier_functions
    expect(len(b) == 2, "number of barriers", got=len(b))
    for x in b:
        expect(x.asymptote_left == 0 and abs(x.asymptote_right - 0.25 * o["q"]) < 1e-12, "barrier height at this quality", got=[x.asymptote_left, x.asymptote_right], want=0.25 * o["q"])
        inside(x.growth_rate, 20, 40, "barrier growth rate")
        inside(x.asymmetry, 0.000001, 0.0001, "barrier asymmetry")
        inside(x.shape_factor, 0.01, 100, "barrier shape")
        expect(x.pinch_off_percentage == 0.001 and x.fully_conductive_percentage == 0.999, "barrier fractions", got=[x.pinch_off_percentage, x.fully_conductive_percentage])
        expect(x.pinch_off < x.fully_conductive, "barrier falls")
    expect(b[0] is not b[1], "both barriers are one object")
    base = np.linalg.solve(A[1:], [x.pinch_off for x in b])
    inside(base, -0.688, -0.509, "voltages at which both barriers pinch off", 1e-6)
    pk = s.sensor_peak_function
    expect(20 <= len(pk) <= 30, "number of peaks", got=len(pk))
    mus = np.array([p.mu0 for p in pk])
    expect(abs(mus[0] - (A[0] @ base - 0.05)) < 1e-7, "potential of the first peak", got=mus[0], want=A[0] @ base - 0.05)
    expect(np.all(np.diff(mus) > 0), "peaks are not in increasing order", got=mus)
    inside(mus[1] - mus[0], 0, 0.00367179654343025 * 4, "first peak distance", 1e-6)
    expect(min(p.gamma for p in pk) > 0 and min(p.height for p in pk) >= 0 and all(p.offset == 0 for p in pk), "peak parameters")
    gam = np.array([p.gamma for p in pk])
    free = gam[1:] < 0.0018 - 1e-9
    inside(np.where(free, gam[1:] / gam[:-1], 1.0), 0.85, 1.5, "growth of the peak width", 1e-6)
    expect(gam[2:].max() <= 0.0022 * (1 + 1e-9), "peak width", got=gam.max())
    r = s.final_rise
    x = np.concatenate([mus, np.linspace(mus[0], mus[-1], 4000)])
    top = sum(p.sensor_function(x) for p in pk).max()
    expect(r.asymptote_left == 0 and abs(r.asymptote_right / (1.05 * top) - 1) < 0.02, "maximum of the final rise", got=r.asymptote_right, want=1.05 * top)
    inside(r.growth_rate, 400, 600, "rise growth rate")
    inside(r.asymmetry, 0.01, 1, "rise asymmetry")
    inside(r.shape_factor, 0.01, 100, "rise shape")
    expect(r.fully_conductive_percentage == 0.95, "rise fraction", got=r.fully_conductive_percentage)
    expect(not s.sensor_peak_deformations, "unexpected deformations")


def check_config(c, o):
    expect(set(c) == KEYS, "entries of a configuration", got=sorted(c))
    for k, (a, b) in {"volt_limits_g1": (LO, HI), "volt_limits_g2": (LO, HI), "volt_limits_sensor_g1": (-1, 0), "volt_limits_sensor_g2": (-1, 0)}.items():
        expect_close(c[k], [a, b], k)
    check_ideal(c["ideal_csd_config"])
    (check_generic if o["type"] == "SensorGeneric" else check_scan)(c["sensor"], o)
    occ, pot, resp = (c[k + "_distortions"] for k in ("occupation", "sensor_potential", "sensor_response"))
    expect([type(d).__name__ for d in occ] == ["OccupationTransitionBlurringFermiDirac", "OccupationDotJumps", "OccupationDotJumps"], "occupation distortions", got=[type(d).__name__ for d in occ])
    expect([type(d).__name__ for d in pot] == ["SensorPotentialPinkNoise", "SensorPotentialRTN"], "potential distortions")
    expect([type(d).__name__ for d in resp] == ["SensorResponseRTN", "SensorResponseWhiteNoise"], "response distortions")
    inside([occ[0].sigma.sample_parameter() for _ in range(20)], 0.25 * 0.0003, 2 * 0.0003, "blurring")
    expect({(d.axis, d.ratio) for d in occ[1:]} == {(0, 0.01), (1, 0.01 / 6)}, "dot jumps", got=[(d.axis, d.ratio) for d in occ[1:]])
    for d in occ[1:]:
        expect_close([d.scale, d.lam], [0.03, 0.0018], "dot jump parameters")
    expect_close([pot[1].scale, pot[1].std, pot[1].height, pot[1].ratio], [74.56704 * 0.0003, 3.491734e-05, 2.53855325e-05, o["q"] / 6], "telegraph noise of the potential at this quality")
    expect_close([resp[0].scale, resp[0].std, resp[0].height, resp[0].ratio], [3.0, 0.0474537676, 0.0152373696, 0.01 * o["q"]], "telegraph noise of the response at this quality")


def check(c):
    from simcats import Simulation, default_configs

    o = {"type": "SensorGeneric", "q": 1.0, "comp": False, "steep": False} if c["def"] else c["o"]
    before = repr(default_configs["GaAs_v1"]["ideal_csd_config"])
    with seeded(c["seed"]):
        a, b = sample(o, c["def"]), sample(o, c["def"])
        for x in (a, b):
            check_config(x, o)
        expect(not np.array_equal(a["ideal_csd_config"].tct_params[0], b["ideal_csd_config"].tct_params[0]), "two sampled configurations have the same transitions")
        pa, pb = (x["sensor"].sensor_peak_function for x in (a, b))
        expect(not np.isclose(pa[0].height, pb[0].height, rtol=1e-9) and not np.array_equal(a["sensor"].alpha_gate, b["sensor"].alpha_gate), "two sampled configurations have the same sensor")
        expect(repr(default_configs["GaAs_v1"]["ideal_csd_config"]) == before, "sampling changed the shipped configuration")
        # usable everywhere inside the limits
        sa = Simulation(**a)
        for q in c["reqs"]:
            r = quiet(sa.measure, np.array(q["r1"]), np.array(q["r2"]), resolution=np.array(q["res"]) if isinstance(q["res"], list) else q["res"])
            sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
            expect(r[0].shape == sh and np.all(np.isfinite(r[0])), "a measurement inside the limits has no values everywhere", got=np.shape(r[0]))
            expect(r[1].min() >= -1e-9, "negative occupation")
            expect(r[0].std() > 0, "constant signal")
        if o["type"] != "SensorGeneric":
            q = c["scan"]
            r = quiet(sa.measure_sensor_scan, np.array(q["r1"]), np.array(q["r2"]), c["v"][0], c["v"][1], resolution=np.array(q["res"]) if isinstance(q["res"], list) else q["res"])
            expect(np.all(np.isfinite(r[0])), "a sensor scan inside the limits has no values everywhere")
        # no shared state: ruin b, a keeps its plain measurement
        pr = c["reqs"][0]
        res = np.array(pr["res"]) if isinstance(pr["res"], list) else pr["res"]
        plain = lambda x: quiet(Simulation(ideal_csd_config=x["ideal_csd_config"], sensor=x["sensor"]).measure, np.array(pr["r1"]), np.array(pr["r2"]), resolution=res)[0]  # noqa: E731
        one = plain(a)
        for p in b["ideal_csd_config"].tct_params:
            p[4:8] += 0.003
        b["ideal_csd_config"].tct_params = b["ideal_csd_config"].tct_params[:1]
        for p in b["sensor"].sensor_peak_function:
            p.mu0, p.height = 5.0, 7.0
        b["sensor"].alpha_gate *= 3.0
        b["sensor"].alpha_dot *= 3.0
        b["sensor"].offset_mu_sens = 0.5
        for k in ("occupation", "sensor_potential", "sensor_response"):
            b[k + "_distortions"].clear()
        for k in ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"):
            b[k][:] = 7
        expect_close(plain(a), one, "changing one sampled configuration changed another", rtol=1e-12, atol=1e-14)
        check_config(a, o)
        expect(repr(default_configs["GaAs_v1"]["ideal_csd_config"]) == before, "changing a sampled configuration changed the shipped one")
        check_config(sample(o, c["def"]), o)
    return True, [o["type"], "compensated" if o["comp"] else "coupled", "steepest" if o["steep"] else "plain", "full quality" if o["q"] == 1 else "reduced"]


# ---------------------------------------------------------------- quality over many draws
@st.composite
def quality_cases(draw):
    return {"o": draw(options()), "seed": draw(seeds), "bad": draw(st.sampled_from([0, 0.0, -0.1, 1.0001, 2, float("nan")])), "type": draw(st.sampled_from(["Sensor", "sensorgeneric", "", "SensorGenericScan"]))}


def check_quality(c):
    o = {**c["o"], "steep": False}
    e = 0.6 * o["q"] / math.log(100)
    tail = lambda u: np.expm1(-np.asarray(u) / e) / np.expm1(-1 / e)  # noqa: E731  truncated exponential
    with seeded(c["seed"]):
        cs = [sample(o) for _ in range(10)]
        if o["type"] == "SensorGeneric":
            u = [(0.19204 - x["sensor"].sensor_peak_function[0].height) / (0.19204 - 0.02245) for x in cs]
            expect(stats.kstest(tail(u), "uniform").pvalue > 1e-8, "heights of the peaks do not follow the quality", p=stats.kstest(tail(u), "uniform").pvalue, q=o["q"])
        for k, i, hi in (("sensor_potential", 0, 0.0005), ("sensor_response", 1, 0.0005)):
            v = np.array([x[k + "_distortions"][i].sigma.sample_parameter() for x in cs for _ in range(30)])
            inside(v, 1e-10, hi, "noise strength")
            p = stats.kstest(tail(v / hi), "uniform").pvalue
            expect(p > 1e-8, "noise strength does not follow the quality", p=p, q=o["q"], distortion=k)
        expect(raises(lambda: sample({**o, "q": c["bad"]}), ValueError), "quality outside (0, 1] accepted", q=c["bad"])
        expect(raises(lambda: sample({**o, "type": c["type"]}), ValueError), "unknown sensor accepted", type=c["type"])
    return True, [o["type"]]


# ---------------------------------------------------------------- shipped configurations
@st.composite
def shipped_cases(draw):
    name = draw(st.sampled_from(["GaAs_v1", "GaAs_v2_extended_sensor"]))
    a, b = request(-0.2, -0.087), request(-0.2, -0.047)
    qs = []
    for _ in range(2):
        x, y = draw(a), draw(b)
        if isinstance(x["res"], list) and isinstance(y["res"], list):
            qs.append({"r1": x["r1"], "r2": y["r2"], "res": [max(12, x["res"][0]), max(20, y["res"][1])]})
        else:
            qs.append({"r1": x["r1"], "r2": y["r2"], "res": max(20, int(np.max(x["res"])), int(np.max(y["res"])))})
    return {"name": name, "reqs": qs, "scan": draw(request(-1, 0.4, 16)), "v": [draw(U(-0.2, -0.087)), draw(U(-0.2, -0.047))], "seed": draw(seeds)}


def check_shipped(c):
    from simcats import Simulation, default_configs

    conf = default_configs[c["name"]]
    text = re_text(conf)
    with seeded(c["seed"]):
        cp = copy.deepcopy(conf)
        for k in ("occupation", "sensor_potential", "sensor_response"):
            for d in cp[k + "_distortions"]:
                if hasattr(d, "rng"):
                    d.rng = np.random.default_rng()
        sm = Simulation(**cp)
        m = cp["ideal_csd_config"]
        corners = rot([[a, b] for a in (-0.2, -0.087) for b in (-0.2, -0.047)], -m.rotation)
        x = np.linspace(corners[:, 0].min(), corners[:, 0].max(), 300)
        y = np.array([Tct(p, i + 1)(x) for i, p in enumerate(m.tct_params)])
        expect(np.all(np.diff(y, axis=0) > 0), "transition curves of a shipped configuration cross", gap=float(np.diff(y, axis=0).min()))
        covered = 0
        last = Tct(m.tct_params[-1], len(m.tct_params))
        for q in c["reqs"]:
            # the limits reach beyond the last transition in one corner: only there a measurement is rejected
            n1, n2 = q["res"] if isinstance(q["res"], list) else (q["res"], q["res"])
            far = rot([[max(q["r1"]), max(q["r2"])]], -m.rotation)[0]
            reach = float(last(far[:1])[0]) - 2 * (abs(q["r1"][1] - q["r1"][0]) / (n1 - 1) + abs(q["r2"][1] - q["r2"][0]) / (n2 - 1)) - 1e-3
            try:
                r = quiet(sm.measure, np.array(q["r1"]), np.array(q["r2"]), resolution=np.array(q["res"]) if isinstance(q["res"], list) else q["res"])
            except IndexError as e:
                expect(far[1] > reach, "a measurement below the last transition was rejected", error=repr(e)[:120], window=[q["r1"], q["r2"]])
                continue
            covered += 1
            expect(np.all(np.isfinite(r[0])) and r[1].min() >= -1e-9, "a measurement inside the limits has no values everywhere")
        if c["name"] != "GaAs_v1":
            q = c["scan"]
            r = quiet(sm.measure_sensor_scan, np.array(q["r1"]), np.array(q["r2"]), c["v"][0], c["v"][1], resolution=np.array(q["res"]) if isinstance(q["res"], list) else q["res"])
            expect(np.all(np.isfinite(r[0])), "a sensor scan inside the limits has no values everywhere")
    expect(re_text(conf) == text, "using a copy changed the shipped configuration")
    return covered > 0, [c["name"], f"{covered} measured"]


def re_text(conf):
    import re

    return re.sub(r"at 0x[0-9A-Fa-f]+", "", repr({k: conf[k] for k in sorted(conf)}))


PARTS = [
    Part("configurations", cases, check, quick=240, thorough=6000, rule="three random configurations per case with random options and seeded randomness: every parameter inside its range, order of the transition curves, quality and sensor options, measurements at random windows inside the limits, no shared state"),
    Part("quality", quality_cases, check_quality, quick=80, thorough=1600, rule="ten configurations per case: Kolmogorov-Smirnov test of the quality-dependent strengths (p > 1e-8); options outside their range rejected"),
    Part("shipped", shipped_cases, check_shipped, quick=240, thorough=6000, rule="both shipped configurations at random windows inside their limits; rejections only where the window reaches the last transition; non-trivial: measured"),
]
ASSUMPTIONS = ["windows inside the limits have a pixel pitch of at most a ninth of the limits (the sampler verifies its configurations at 10 x 10 pixels)", "ranges are those written in the sampler's documentation and comments"]
