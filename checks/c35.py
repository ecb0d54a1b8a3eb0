"""C35: leaving out an optional parameter means its documented default."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import dist, gens, sens
from vlib.core import Part, expect, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, Z, ints, seeds

A = np.array


# ---------------------------------------------------------------- the optional parameters: name -> (documented default, strategy of another value)
def peak_opts(w):
    return {"mu0": (0, U(-2, 2)), w: (1, LOG(0.1, 4)), "height": (1, U(0.1, 3)), "offset": (0, U(-1, 1))}


def pair(lo, hi):
    return st.tuples(Z(lo, hi), Z(lo, hi)).map(list)


def three(s):
    return st.tuples(s, s, s).map(list)


step = st.tuples(U(-0.5, 0.5), U(0.6, 2), LOG(0.3, 30), LOG(0.2, 3), LOG(0.3, 5)).map(list)
STEP = ("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor")
TOTAL = {"U": {}, "N": {"mean": (None, U(-0.2, 1.2))}, "L": {"mean": (0, U(-0.5, 0.5)), "sigma": (1, LOG(0.3, 3))}, "E": {}}
SQUARE = [100, 100]

OPTS = {
    "gauss": peak_opts("sigma"), "lorentz": peak_opts("gamma"), "gauss fn": peak_opts("sigma"), "lorentz fn": peak_opts("gamma"),
    "sensor": {"sensor_peak_function": (None, sens.peaks(n_max=3)), "alpha_dot": ([-1, -1], pair(-1, 0)), "alpha_gate": ([0, 0], pair(0, 1)), "offset_mu_sens": (0, U(-1, 1))},
    "scan sensor": {"alpha_gate": ([[0, 0]] * 3, three(pair(0, 1))), "alpha_dot": ([[0, 0]] * 3, three(pair(-0.3, 0))), "offset_mu_sens": ([0, 0, 0], three(U(-0.4, 0.4))),
                    "final_rise": (None, st.just("rise")), "sensor_peak_deformations": ({}, sens.deformations(3))},
    "rise": {"denominator_offset": (1, U(0.7, 1.2)), "fully_conductive_percentage": (0.99, U(0.5, 0.999))},
    "barrier": {"denominator_offset": (1, U(0.7, 0.99)), "offset": (0, U(-1, 1))},
    "glf": {"denominator_offset": (1, U(0.7, 1.2)), "offset": (0, U(-1, 1))}, "inverse": {"denominator_offset": (1, U(0.7, 1.0)), "offset": (0, U(-1, 1))},
    "rotate": {"angle": (math.pi / 4, U(-4, 4))},
    "fermi": {"axis": (-1, st.just(0)), "mode": ("reflect", st.sampled_from(["constant", "nearest", "mirror", "wrap"])), "cval": (0.0, U(-2, 2)), "radius": (None, ints(1, 9))},
    "jumps": {"ratio": (1, U(0, 0.9))}, "jumps fn": {"noise": (None, st.just("noise")), "axis": (1, st.just(0))},
    "pink": {"fmin": (0, U(0.05, 0.5))}, "pot rtn": {"ratio": (1, U(0, 0.9))}, "resp rtn": {"ratio": (1, U(0, 0.9))},
    **{"sampler " + k: {"sampling_range": (None, U(0.2, 0.8)), **TOTAL[k]} for k in TOTAL},
    "simulation": {**{k: (None, st.tuples(U(-4, -2), U(2, 4)).map(list)) for k in ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")},
                   "ideal_csd_config": (None, dist.toys()), "sensor": ({"kind": "generic", "peaks": None, "alpha_dot": [-1, -1], "alpha_gate": [0, 0], "offset": 0}, sens.generic()),
                   "occupation_distortions": (None, st.lists(dist.occ_dist(1.0, False), max_size=2)), "sensor_potential_distortions": (None, st.lists(dist.pot_dist(1.0, False), max_size=2)),
                   "sensor_response_distortions": (None, st.lists(dist.resp_dist(1.0, False), max_size=2))},
    "measure": {"volts": (None, pair(-0.5, 0.5)), "resolution": (SQUARE, gens.res2d(2, 20))},
    "scan": {"volts": (None, pair(-0.5, 0.5)), "resolution": (SQUARE, gens.res2d(2, 20))},
}
MODEL_OPTS = {"rotation": (-math.pi / 4, None), "cdf_type": ("sigmoid", None), "cdf_gamma_factor": (None, None)}
for k in ("model", "ideal fn", "occupation fn", "mask fn", "anchors", "curves", "curve"):
    OPTS[k] = {n: MODEL_OPTS[n] for n in ([] if k in ("curves", "curve") else ["rotation"] if k in ("mask fn", "anchors") else MODEL_OPTS)}
for k in ("model", "ideal fn"):
    OPTS[k]["resolution"] = (SQUARE, gens.res2d(3, 20))
for k in ("anchors", "curves"):
    OPTS[k]["max_peaks"] = (1, ints(2, 5))
for k in ("curve", "ideal fn", "model", "occupation fn", "mask fn"):
    OPTS[k]["lut_entries"] = (None, st.sampled_from([200, 1000, 2500, 6000]))
OPTS["curve"]["max_peaks"] = (None, ints(1, 4))
KINDS = sorted(OPTS)
GEOMETRY = ("model", "ideal fn", "occupation fn", "mask fn", "anchors", "curves", "curve")


# ---------------------------------------------------------------- how an object is made and what it shows
def peak_class(c, kw):
    from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian

    p = (SensorPeakGaussian if c["kind"] == "gauss" else SensorPeakLorentzian)(**kw)
    return [p.sensor_function(c["x"]), p.mu0, p.height, p.offset, p.sigma if c["kind"] == "gauss" else p.gamma]


def peak_fn(c, kw):
    from simcats.sensor import sensor_response_gauss, sensor_response_lorentz

    return [(sensor_response_gauss if c["kind"] == "gauss fn" else sensor_response_lorentz)(c["x"], **kw)]


def seen(s, occ, *ranges):
    pot = s.sensor_potential(occ.copy(), *[A(r) if isinstance(r, list) else r for r in ranges])
    return [np.array(pot), s.sensor_response(pot)]


def sensor(c, kw):
    from simcats.sensor import SensorGeneric

    kw = {k: A(v, float) if k.startswith("alpha") else sens.build_peaks(v) if k.startswith("sensor") else v for k, v in kw.items()}
    s = SensorGeneric(**kw)
    out = seen(s, c["occ"], [-0.3, 0.4], [0.1, -0.2]) + [s.alpha_dot, s.alpha_gate, s.offset_mu_sens]
    if c["spoil"]:  # what is done to this sensor must not reach the next one
        s.alpha_dot[:] = 7
        s.alpha_gate[0] = 5
        s.offset_mu_sens = 3.0
    return out


def scan_sensor(c, kw):
    from simcats.sensor import SensorScanSensorGeneric

    b = c["base"]
    own = {"alpha_gate": lambda v: A(v, float), "alpha_dot": lambda v: A(v, float), "offset_mu_sens": lambda v: A(v, float), "final_rise": lambda v: None if v is None else sens.build_rise(b["rise"]),
           "sensor_peak_deformations": lambda v: {int(k): sens.build_deform(d) for k, d in v.items() if int(k) < len(b["peaks"])}}
    s = SensorScanSensorGeneric(barrier_functions=tuple(sens.build_barrier(x) for x in b["barriers"]), sensor_peak_function=sens.build_peaks(b["peaks"]), alpha_sensor_gate=A(b["alpha_sensor_gate"], float),
                                **{k: own[k](v) for k, v in kw.items()})
    out = seen(s, c["occ"], 0.1, 0.2, [-0.5, 0.6], [0.5, -0.4]) + [s.alpha_dot, s.alpha_gate, s.offset_mu_sens, sorted(s.sensor_peak_deformations)]
    out = [np.array(x) for x in out]
    if c["spoil"]:
        s.alpha_dot[:] = 7
        s.alpha_gate[0] = 5
        s.offset_mu_sens[1] = 3
        s.sensor_peak_deformations[0] = sens.build_deform({"t": "lin", "angle": 1.0})
    return out


def rise(c, kw):
    from simcats.sensor import SensorRiseGLF

    r = SensorRiseGLF(mu0=0.3, **dict(zip(STEP, c["step"])), **kw)
    return [r.sensor_function(c["x"], 0.2), r.fully_conductive_percentage]


def barrier(c, kw):
    from simcats.sensor.barrier_function import BarrierFunctionGLF

    f = BarrierFunctionGLF(pinch_off_percentage=0.1, fully_conductive_percentage=0.9, **dict(zip(STEP, c["step"])), **kw)
    return [f.get_value(c["x"]), f.pinch_off, f.fully_conductive]


def glf(c, kw):
    from simcats import support_functions as sf

    return [sf.glf(c["x"], *c["step"], **kw)]


def inverse(c, kw):
    from simcats import support_functions as sf

    lo, hi = c["step"][:2]
    return [sf.inverse_glf(lo + (hi - lo) * np.linspace(0.05, 0.9, 9), *c["step"], **kw)]


def rotate(c, kw):
    from simcats.support_functions import rotate_points

    return [rotate_points(c["data"].reshape(-1, 2), **kw)]


def fermi(c, kw):
    from simcats.support_functions import fermi_filter1d

    return [fermi_filter1d(c["data"], c["w"], **kw)]


def jumps(c, kw):
    from simcats.distortions import OccupationDotJumps

    d = OccupationDotJumps(scale=0.3, lam=0.2, axis=c["axis"], rng=np.random.default_rng(c["seed"]), **kw)
    out = []
    for _ in range(4):
        o, m = d.noise_function(c["occ"].copy(), c["mask"].copy(), A([-0.3, 0.4]), A([0.1, -0.2]), **c["call"])
        out += [o, m]
    return out


def jumps_fn(c, kw):
    from simcats.distortions import dot_jumps_blockwise

    n = c["data"].shape[1 - kw.get("axis", 1)]
    if kw.get("noise") is not None:  # the noise of an earlier image
        kw = {**kw, "noise": dot_jumps_blockwise(c["data"], 1 + 0.2 * n, 2.0, rng=np.random.default_rng(5), axis=kw.get("axis", 1))[1]}
    return list(dot_jumps_blockwise(c["data"], 1 + 0.3 * n, 1.5, rng=np.random.default_rng(c["seed"]), **kw))


def noise(c, kw):
    from simcats import distortions as d

    r = np.random.default_rng(c["seed"])
    x = d.SensorPotentialPinkNoise(sigma=0.1, rng=r, **kw) if c["kind"] == "pink" else (d.SensorPotentialRTN if c["kind"] == "pot rtn" else d.SensorResponseRTN)(scale=0.2, std=0.1, height=0.4, rng=r, **kw)
    return [x.noise_function(c["data"].copy(), A([-0.3, 0.4]), A([0.1, -0.2])) for _ in range(4)]


def sampler(c, kw):
    from simcats import support_functions as sf

    k = c["kind"][-1]
    cls = {"U": sf.UniformSamplingRange, "N": sf.NormalSamplingRange, "L": sf.LogNormalSamplingRange, "E": sf.ExponentialSamplingRange}[k]
    need = {"U": {}, "N": {"std": 0.4}, "L": {}, "E": {"scale": 0.4}}[k]
    s = cls(total_range=(0.2, 1.2), rng=np.random.default_rng(c["seed"]), **need, **kw)
    return [[s.sample_parameter() for _ in range(6)], s.last_sample() if callable(getattr(s, "last_sample", None)) else 0]


def simulation(c, kw):
    from simcats import Simulation

    f = {"ideal_csd_config": lambda v: None if v is None else dist.build_toy(v), "sensor": lambda v: sens.build(v)}
    for n, b in (("occupation_distortions", dist.build_occ), ("sensor_potential_distortions", dist.build_pot), ("sensor_response_distortions", dist.build_resp)):
        f[n] = lambda v, b=b: None if v is None else [b(d) for d in v]
    sm = Simulation(**{k: f.get(k, lambda v: None if v is None else A(v))(v) for k, v in kw.items()})
    out = [[x is None for x in (sm.volt_limits_g1, sm.volt_limits_g2, sm.volt_limits_sensor_g1, sm.volt_limits_sensor_g2, sm.ideal_csd_config)]]
    out += [[0 if x is None else 1 + len(x) for x in (sm.occupation_distortions, sm.sensor_potential_distortions, sm.sensor_response_distortions)]]
    if sm.ideal_csd_config is None:
        sm.ideal_csd_config = dist.build_toy(c["toy"])
    wide = [A([-1.5, 1.2]), A([-0.8, 1.9])] if c["spoil"] else [A([-1.9, 1.9]), A([-0.3, 1.9])]
    out += list(quiet(sm.measure, *wide, resolution=A([7, 9]))[:3])
    out += [sm.sensor.alpha_dot, sm.sensor.alpha_gate, sm.sensor.offset_mu_sens]
    out = [np.array(x) for x in out]
    if c["spoil"]:
        sm.sensor.alpha_dot[:] = 7
        sm.sensor.alpha_gate[0] = 5
        sm.sensor.offset_mu_sens = 3.0
        sm.volt_limits_g1 = [-0.1, 0.1]
    return out


def measure(c, kw):
    from simcats import Simulation

    scan = c["kind"] == "scan"
    sm = Simulation(ideal_csd_config=dist.build_toy(c["toy"]), sensor=sens.build(c["base"]))
    kw = dict(kw)
    if "volts" in kw:
        v = kw.pop("volts") or [None, None]
        kw.update(zip(("volt_g1", "volt_g2") if scan else ("volt_sensor_g1", "volt_sensor_g2"), v))
    if "resolution" in kw:
        kw["resolution"] = A(kw["resolution"])
    r = quiet(sm.measure_sensor_scan if scan else sm.measure, A([-0.4, 0.5]), A([0.3, -0.3]), **kw)
    out = [np.array(x) for x in r[:3]]
    if c["spoil"]:  # what is done to the results must not reach the next measurement
        spoil(list(r))
    return out


def spoil(x):
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu":
        x[...] = 3
    elif isinstance(x, (dict, list, tuple)):
        for y in x.values() if isinstance(x, dict) else x:
            spoil(y)


def geometry(c, kw):
    from simcats.ideal_csd import IdealCSDGeometric, geometric as g

    m, kind = c["model"], c["kind"]
    tct = [A(p) for p in m["tct"]]
    r = [A(x) for x in c["win"]]
    kw = {k: A(v) if isinstance(v, list) else v for k, v in kw.items()}
    if kind == "anchors":
        a = g.calculate_all_bezier_anchors(tct_params=tct[:1] if c["spoil"] else tct, **kw)
        return [list(a)] + [a[k] for k in a]
    if kind == "curves":
        f = g.initialize_tct_functions(tct_params=tct, **kw)
        return [list(f)] + [f[k](x_eval=c["xs"], lut_entries=500) for k in f]
    if kind == "curve":
        return [g.tct_bezier(tct_params=tct[c["which"] % len(tct)], x_eval=c["xs"], **kw)]
    if kind == "ideal fn":
        return list(g.ideal_csd_geometric(tct_params=tct, volt_limits_g1=r[0], volt_limits_g2=r[1], **kw))
    if kind == "model":
        call = {k: kw.pop(k) for k in list(kw) if k == "resolution"}
        return list(IdealCSDGeometric(tct_params=tct, **kw).get_csd_data(r[0], r[1], **call))
    f = g.initialize_tct_functions(tct_params=tct)
    if kind == "mask fn":
        return [g.generate_lead_transition_mask_2d(csd=np.zeros((9, 8)), volt_limits_g1=r[0], volt_limits_g2=r[1], tct_functions=f, **kw)]
    anchors = g.calculate_all_bezier_anchors(tct_params=tct, max_peaks=1, rotation=m["rotation"])
    return [g.get_electron_occupation(csd=np.zeros(12), volt_limits_g1=r[0], volt_limits_g2=r[1], bezier_coords=anchors, tct_functions=f, **kw)]


RUN = {"gauss": peak_class, "lorentz": peak_class, "gauss fn": peak_fn, "lorentz fn": peak_fn, "sensor": sensor, "scan sensor": scan_sensor, "rise": rise, "barrier": barrier, "glf": glf, "inverse": inverse,
       "rotate": rotate, "fermi": fermi, "jumps": jumps, "jumps fn": jumps_fn, "pink": noise, "pot rtn": noise, "resp rtn": noise, "simulation": simulation, "measure": measure, "scan": measure}


# ---------------------------------------------------------------- cases
@st.composite
def cases(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "seed": draw(seeds), "spoil": draw(st.booleans()), "w": draw(U(0.4, 3.0)), "axis": draw(ints(0, 1)), "kw": {}, "out": []}
    for n, (_, other) in OPTS[kind].items():
        if draw(ints(0, 2)):
            c["out"].append(n)
        elif other is not None:
            c["kw"][n] = draw(other)
    if not c["out"]:
        c["out"] = [draw(st.sampled_from(sorted(OPTS[kind])))]
        c["kw"].pop(c["out"][0], None)
    if kind in ("rise", "barrier", "glf", "inverse"):
        c["step"] = draw(step)
    if kind in ("simulation", "measure", "scan"):
        c["toy"] = draw(dist.toys())
    if kind == "scan sensor":
        c["base"] = draw(sens.scan_sensor([-0.5, 0.6], [-0.4, 0.5], rise="none"))
        lo, hi = c["base"]["range"][0]
        c["base"]["rise"] = {"p": [0.0, 0.5, 20 / (hi - lo), 1.0, 1.0, 1.0], "mu0": 0.0, "full": 0.99}
        if isinstance(c["base"]["barriers"], dict):
            c["base"]["barriers"] = [c["base"]["barriers"]] * 2
    if kind in ("measure", "scan"):
        c["base"] = draw(sens.scan_sensor([-0.4, 0.5], [-0.3, 0.3], deform_ok=kind == "scan"))
    if kind == "jumps":
        c["call"] = draw(st.sampled_from([{}, {"generate_csd": None}, {"freeze": False}]))
    if kind in GEOMETRY:
        m = draw(gens.models(3, 5))
        for n, k in (("rotation", "rotation"), ("cdf_type", "cdf"), ("cdf_gamma_factor", "factor")):
            if n in c["out"] and n in OPTS[kind]:
                m[k] = OPTS[kind][n][0]
            elif n in OPTS[kind]:
                c["kw"][n] = m[k]
        if kind == "anchors" and c["out"] == ["max_peaks"]:
            c["spoil"] = False
        m["lut"] = c["kw"].get("lut_entries", m["lut"])
        c["model"], c["which"] = m, draw(ints(0, 4))
        long = kind in ("model", "ideal fn")
        if long and "lut_entries" in c["out"]:  # the exact curve is slow
            c["kw"]["resolution"] = draw(ints(2, 9))
            c["out"] = [n for n in c["out"] if n != "resolution"]
        one = kind == "occupation fn" or (long and not isinstance(c["kw"].get("resolution", SQUARE), list))
        c["win"] = draw(gens.lines(m, top=False, far=False))[:2] if one else draw(gens.windows(m, top=False, far=False))
        x = [draw(U(-1, 2)) for _ in range(4)]
        p = m["tct"][c["which"] % len(m["tct"])]
        c["xs"] = [p[4] + (p[6] - p[4] if k % 2 else p[0]) * v for k, v in enumerate(x)]
    return c


def prepare(c):
    rng = np.random.default_rng(c["seed"])
    d = dict(c, x=np.linspace(-3, 3, 41), data=rng.random((9, 12)).round(3), occ=rng.integers(0, 5, (9, 12, 2)).astype(float), mask=rng.integers(0, 3, (9, 12)).astype(float))
    if "xs" in c:
        d["xs"] = A(sorted(c["xs"]))
    return d


def explicit(kind, n, c):
    v = OPTS[kind][n][0]
    if kind.startswith("sampler") and n == "mean" and kind[-1] == "N" and "sampling_range" not in c["kw"]:
        return 0.7  # the centre of the total range
    if n == "cdf_gamma_factor":
        return {"sigmoid": 2.2, "cauchy": 6.15}[c["model"]["cdf"]]
    if n == "radius":
        return int(4 * c["w"] + 0.5)
    return v


def perform(kind, c, kw):
    try:
        return [np.array(x) for x in (geometry if kind in GEOMETRY else sampler if kind.startswith("sampler") else RUN[kind])(prepare(c), kw)]
    except IndexError:
        if kind not in ("model", "ideal fn", "occupation fn"):
            raise
        gens.rejected(c["model"], *c["win"], 12 if kind == "occupation fn" else c["kw"].get("resolution", SQUARE))
        return None


def check(c):
    kind = c["kind"]
    full = {**c["kw"], **{n: explicit(kind, n, c) for n in c["out"]}}
    want = perform(kind, c, full)
    if c["spoil"]:
        perform(kind, c, dict(c["kw"]))
    got = perform(kind, c, dict(c["kw"]))
    expect((want is None) == (got is None), "rejected only without naming the defaults", left_out=c["out"])
    if want is None:
        return False, ["rejected"]
    expect(len(want) == len(got), "different results", left_out=c["out"])
    for a, b in zip(got, want):
        expect_equal(a, b, f"{kind}: leaving out {', '.join(c['out'])} differs from naming the documented default")
    return any(np.ptp(x) > 0 for x in want if x.size > 1 and x.dtype.kind in "fiu"), [kind]


FAST = [k for k in KINDS if k not in GEOMETRY and k not in ("measure", "scan", "simulation")]
PARTS = [
    Part("building blocks", lambda: cases(FAST), check, quick=2600, thorough=60000, rule="sensors, peaks, barriers, rises, samplers, distortions and helper functions: a random subset of the optional parameters left out, the rest random, against the documented values named explicitly, with equal seeds; half of the cases after another object made the same way has been adjusted in place; non-trivial = the results vary"),
    Part("simulations", lambda: cases(["measure", "scan", "simulation"]), check, quick=480, thorough=12000, rule="the same for simulations, measurements and sensor scans; non-trivial = the results vary"),
    Part("geometry", lambda: cases(list(GEOMETRY)), check, quick=360, thorough=8000, rule="the same for the geometric model, its data and the functions it is made of; non-trivial = the results vary"),
]
ASSUMPTIONS = ["documented defaults are read from the docstrings of the interface", "the centre of a normal sampler is judged only where its range is not narrowed"]
