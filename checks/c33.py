"""C33: values given as whole numbers mean the same as the equal real numbers, everywhere."""
import numpy as np
from hypothesis import strategies as st

from vlib import dist
from vlib.core import Part, expect, expect_close
from vlib.dist import quiet
from vlib.gens import U, ints, seeds
from vlib.models import grid


class Cast:
    """Hands out the values of a case as whole numbers or as real numbers, chosen at random per value (whole=None: always real)."""

    def __init__(self, seed):
        self.r = None if seed is None else np.random.default_rng(seed)
        self.n = 0

    def pick(self):
        w = self.r is not None and self.r.random() < 0.75
        self.n += w
        return w

    def s(self, v):
        """One number."""
        return int(v) if self.pick() and v == int(v) else float(v)

    def a(self, v):
        """An array."""
        v = np.array(v, float)
        if self.pick() and np.all(v == np.rint(v)):
            return v.astype([np.int64, np.int32][self.r.integers(2)])
        return v


class Whole(dist.Toy):
    """Own model whose electron numbers are whole; delivers them as integers when asked to."""

    def __init__(self, a, as_int):
        super().__init__(a, True)
        self.as_int = as_int

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        occ, lead = self.at(grid(volt_limits_g1, volt_limits_g2, resolution))
        lead = np.floor(lead)
        return (occ.astype(int), lead.astype(int)) if self.as_int else (occ, lead)


@st.composite
def whole_windows(draw, lo=-4, hi=4):
    a, b = draw(ints(lo, hi - 1)), draw(ints(lo, hi - 1))
    r1, r2 = [a, a + draw(ints(1, 4))], [b, b + draw(ints(1, 4))]
    if draw(st.booleans()):
        r1 = r1[::-1]
    if draw(st.booleans()):
        r2 = r2[::-1]
    if draw(st.booleans()):
        return {"r1": r1, "r2": r2, "res": [draw(ints(2, 12)), draw(ints(2, 12))]}
    k = draw(ints(0, 2))
    if k == 1:
        r1 = [r1[0]] * 2
    if k == 2:
        r2 = [r2[0]] * 2
    return {"r1": r1, "r2": r2, "res": draw(ints(2, 30))}


def both(c, f):
    """f with whole numbers and with real numbers."""
    cast = Cast(c["cast"])
    a, ea = attempt(f, cast)
    b, eb = attempt(f, Cast(None))
    if eb is not None:
        expect(ea is not None, "whole numbers are accepted where real ones are rejected", real=repr(eb))
        return None, cast.n
    if ea is not None:
        expect(False, "whole numbers are rejected where the equal real ones are accepted", error=f"{type(ea).__name__}: {ea}")
    expect(len(a) == len(b), "number of results")
    for j, (x, y) in enumerate(zip(a, b)):
        expect_close(np.asarray(x, float), np.asarray(y, float), f"result {j} with whole against real numbers", rtol=1e-9, atol=1e-11)
    return b, cast.n


def attempt(f, cast):
    try:
        return [np.array(x) for x in quiet(f, cast)], None
    except (ValueError, IndexError, TypeError, ZeroDivisionError, AssertionError) as e:
        return None, e


# ---------------------------------------------------------------- transition curves and ideal data
@st.composite
def whole_tcts(draw):
    slope = draw(st.sampled_from([1, 1, 2]))
    out, prev = [], None
    for i in range(draw(ints(3, 4))):
        L, R = draw(ints(2, 8)), draw(ints(2, 8))
        f = draw(st.sampled_from([0, 0.5])) if slope == 1 else 0
        xc, yc = draw(ints(-3, 3)) + f, draw(ints(-3, 3)) + f
        a, b = (min(draw(ints(0, 4)) + f, np.floor(L / 2 - f) + f), min(draw(ints(0, 4)) + f, np.floor(R / 2 - f) + f))
        if prev is not None:
            L, R = prev[1:3]
            a, b = (min(draw(ints(0, 4)) + f, np.floor(L / 2 - f) + f), min(draw(ints(0, 4)) + f, np.floor(R / 2 - f) + f))
            xc = np.floor(prev[0] - R) + f
            yc = prev[3] + slope * R + draw(ints(1, 3)) - f + f
            yc = np.floor(yc) + f
        p = [L, R, slope, -slope, xc - a, yc - slope * a, xc + b, yc - slope * b]
        prev = (xc, L, R, yc)
        out.append([float(v) for v in p])
    return out


@st.composite
def ideal_cases(draw):
    t = draw(whole_tcts())
    xc, yc = t[1][4], t[1][5]
    x, y = (xc + yc) / 2**0.5, (yc - xc) / 2**0.5
    w = draw(whole_windows(-4, 4))
    w["r1"], w["r2"] = [[v + round(o) for v in r] for r, o in ((w["r1"], x), (w["r2"], y))]
    return {"tct": t, "w": w, "lut": draw(st.sampled_from([200, 1000])), "factor": draw(st.one_of(st.none(), ints(1, 6))), "cdf": draw(st.sampled_from(["sigmoid", "cauchy"])), "rot": draw(st.sampled_from([None, -1])), "at": [draw(ints(-20, 20)) for _ in range(6)],
            "peaks": draw(ints(1, 4)), "cast": draw(seeds), "lists": draw(st.booleans())}


def check_ideal(c):
    from simcats.ideal_csd import IdealCSDGeometric
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions, tct_bezier

    def f(cast):
        tct = [cast.a(p) for p in c["tct"]]
        if c["lists"]:
            tct = [p.tolist() for p in tct]
        out = [tct_bezier(tct[0], cast.a(c["at"]), c["lut"], c["peaks"]), tct_bezier(tct[1], cast.s(c["at"][0]), c["lut"], c["peaks"])]
        fs = initialize_tct_functions(tct_params=tct, max_peaks=1)
        out += [fs[k](x_eval=cast.a(c["at"]), lut_entries=c["lut"]) for k in sorted(fs)]
        kw = {} if c["rot"] is None else {"rotation": cast.s(c["rot"])}
        b = calculate_all_bezier_anchors(tct_params=tct, max_peaks=1, **kw)
        out += [b[k] for k in sorted(b)]
        ideal = IdealCSDGeometric(tct_params=[np.array(p) for p in tct], lut_entries=c["lut"], cdf_type=c["cdf"], cdf_gamma_factor=None if c["factor"] is None else cast.s(c["factor"]), **kw)
        try:
            out += list(ideal.get_csd_data(cast.a(c["w"]["r1"]), cast.a(c["w"]["r2"]), np.array(c["w"]["res"]) if isinstance(c["w"]["res"], list) else c["w"]["res"]))
        except IndexError:
            out += [np.zeros(1)] * 2
        return out

    got, n = both(c, f)
    data = got is not None and got[-1].size > 1 and len(np.unique(got[-1])) > 1
    return n > 0 and got is not None, ["transition visible" if data else "rejected" if got is None else "plain", c["cdf"]]


# ---------------------------------------------------------------- simulations
@st.composite
def whole_peaks(draw, n_max=4):
    return [{"t": draw(st.sampled_from("LG")), "mu0": draw(ints(-4, 4)), "w": draw(ints(1, 3)), "height": draw(ints(1, 4)), "offset": draw(ints(0, 2))} for _ in range(draw(ints(1, n_max)))]


@st.composite
def whole_barrier(draw):
    one = lambda: [0, draw(ints(1, 4)), draw(ints(1, 3)), draw(ints(1, 3)), draw(ints(1, 3)), 1, draw(ints(-3, 3))]  # noqa: E731
    if draw(ints(0, 2)) == 0:
        a = draw(ints(-4, 0))
        return {"t": "multi", "p": one() + one(), "pinch": a, "full": a + draw(ints(1, 5))}
    return {"t": "glf", "p": one(), "pinch": 0.01, "full": 0.99}


@st.composite
def sim_cases(draw):
    kind = draw(st.sampled_from(["generic", "scan", "scan", "bent"]))
    i = lambda lo=-2, hi=2: draw(ints(lo, hi))  # noqa: E731
    c = {"kind": kind, "toy": [0.5 * i(1, 4), 0.5, i(), 0.5 * i(1, 4), i()], "int occ": draw(st.booleans()), "peaks": draw(whole_peaks()), "w": draw(whole_windows()), "cast": draw(seeds), "seed": draw(seeds), "v": [i(), i()]}
    if kind == "generic":
        c.update(ad=[i(), i()], ag=[i(), i()], off=i())
    else:
        c.update(ad=[[i(-1, 0), i(-1, 0)] for _ in range(3)], ag=[[i(-1, 1), i(-1, 1)] for _ in range(3)], asg=[[i(1, 2), i(0, 2)], [i(2, 3), i(0, 1)], [i(0, 1), i(2, 3)]], off=draw(st.one_of(ints(-2, 2), st.tuples(*[ints(-2, 2)] * 3).map(list))),
                 barriers=[draw(whole_barrier()), draw(whole_barrier())], rise=None if kind == "bent" or draw(st.booleans()) else {"mu0": i(), "p": [0, i(1, 5), i(1, 3), i(1, 3), i(1, 3), 1], "full": 0.99},
                 bend={str(k): draw(st.one_of(st.sampled_from([1, 2]).map(lambda a: {"t": "lin", "angle": a}), st.sampled_from([-3, -1, 1, 2, 5]).map(lambda a: {"t": "circ", "radius": a}))) for k in range(len(c["peaks"])) if draw(st.booleans())} if kind == "bent" else {})
    c["dist"] = [[draw(st.sampled_from(["white", "pink", "rtn", "rtn2", "gauss", "fermi", "jumps"])), draw(ints(1, 3)), draw(ints(0, 2)), draw(ints(-2, 3))] for _ in range(draw(ints(0, 2)))]
    return c


def distortions(c, cast):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise

    out = {"occupation_distortions": [], "sensor_potential_distortions": [], "sensor_response_distortions": []}
    for j, (k, a, b, h) in enumerate(c["dist"]):
        r = np.random.default_rng(c["seed"] + j)
        if k == "white":
            out["sensor_response_distortions"].append(SensorResponseWhiteNoise(sigma=cast.s(a), rng=r))
        elif k == "pink":
            out["sensor_potential_distortions"].append(SensorPotentialPinkNoise(sigma=cast.s(a), rng=r))
        elif k == "rtn":
            out["sensor_potential_distortions"].append(SensorPotentialRTN(scale=cast.s(a), std=cast.s(b), height=cast.s(h), ratio=cast.s(1), rng=r))
        elif k == "rtn2":
            out["sensor_response_distortions"].append(SensorResponseRTN(scale=cast.s(a), std=cast.s(b), height=cast.s(h), ratio=cast.s(1), rng=r))
        elif k == "gauss":
            out["occupation_distortions"].append(OccupationTransitionBlurringGaussian(sigma=cast.s(a)))
        elif k == "fermi":
            out["occupation_distortions"].append(OccupationTransitionBlurringFermiDirac(sigma=cast.s(a)))
        else:
            out["occupation_distortions"].append(OccupationDotJumps(scale=cast.s(a), lam=cast.s(max(b, 1)), axis=b % 2, ratio=cast.s(1), rng=r))
    return out


def sensor(c, cast):
    from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF, SensorScanSensorGeneric
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear

    s = cast.s
    pk = [SensorPeakLorentzian(mu0=s(p["mu0"]), gamma=s(p["w"]), height=s(p["height"]), offset=s(p["offset"])) if p["t"] == "L" else SensorPeakGaussian(mu0=s(p["mu0"]), sigma=s(p["w"]), height=s(p["height"]), offset=s(p["offset"])) for p in c["peaks"]]
    if c["kind"] == "generic":
        return SensorGeneric(sensor_peak_function=pk, alpha_dot=cast.a(c["ad"]), alpha_gate=cast.a(c["ag"]), offset_mu_sens=s(c["off"]))
    bs = []
    for b in c["barriers"]:
        p = [s(v) for v in b["p"]]
        bs.append(BarrierFunctionMultiGLF(s(b["pinch"]), s(b["full"]), *p) if b["t"] == "multi" else BarrierFunctionGLF(b["pinch"], b["full"], *p))
    r = c["rise"]
    rise = None if r is None else SensorRiseGLF(mu0=s(r["mu0"]), fully_conductive_percentage=r["full"], **dict(zip(("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor", "denominator_offset"), map(s, r["p"]))))
    bend = {int(k): SensorPeakDeformationLinear(angle=s(d["angle"])) if d["t"] == "lin" else SensorPeakDeformationCircle(radius=s(d["radius"])) for k, d in c["bend"].items()}
    return SensorScanSensorGeneric(barrier_functions=tuple(bs), sensor_peak_function=pk, alpha_sensor_gate=cast.a(c["asg"]), alpha_gate=cast.a(c["ag"]), alpha_dot=cast.a(c["ad"]), offset_mu_sens=cast.a(c["off"]) if isinstance(c["off"], list) else s(c["off"]), final_rise=rise, sensor_peak_deformations=bend)


def check_sim(c):
    from simcats import Simulation
    from simcats.support_functions import reset_offset_mu_sens

    w = c["w"]
    res = np.array(w["res"]) if isinstance(w["res"], list) else w["res"]

    def f(cast):
        sm = Simulation(ideal_csd_config=Whole(c["toy"], c["int occ"] and cast.r is not None), sensor=sensor(c, cast), volt_limits_g1=cast.a([-20, 20]), volt_limits_g2=cast.a([-20, 20]), volt_limits_sensor_g1=cast.a([-20, 20]), volt_limits_sensor_g2=cast.a([-20, 20]), **distortions(c, cast))
        r1, r2 = cast.a(w["r1"]), cast.a(w["r2"])
        out = []
        if not (c["kind"] == "bent" and c["bend"]):
            out += list(sm.measure(r1, r2, resolution=res)[:3])
        if c["kind"] in ("scan", "bent"):
            scan = sm.measure_sensor_scan(r1, r2, cast.s(c["v"][0]), cast.s(c["v"][1]), resolution=res)[:3]
            out += list(scan[1:] if c["bend"] else scan)
            out += list(sm.measure(r1, r2, cast.s(c["v"][0]), cast.s(c["v"][1]), resolution=res)[:3])
        if c.get("bend"):
            sh = tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)
            out.append(sm.sensor.sensor_response(sm.sensor.sensor_potential(np.ones(sh + (2,)), cast.s(c["v"][0]), cast.s(c["v"][1]), r1, r2)))
        if c["kind"] == "generic":
            reset_offset_mu_sens(sm, cast.s(c["v"][0]), r1, r2)
            out.append(sm.sensor.offset_mu_sens)
            out += list(sm.measure(r1, r2, resolution=res)[:3])
        return out

    got, n = both(c, f)
    return n > 0 and got is not None, [c["kind"], f"{len(c['dist'])} distortions", "integer occupations" if c["int occ"] else "real occupations", "rejected" if got is None else "ok"]


# ---------------------------------------------------------------- functions
FUN = ("glf", "inverse", "multi_glf", "sigmoid", "cauchy", "multi_sigmoid", "multi_cauchy", "dist", "lines", "circle", "below", "pixel", "rotate", "fermi", "derivative", "lorentz", "gauss", "white", "pink", "rtn", "jumps", "bend", "blur", "uniform", "normal", "lognormal", "exponential")


@st.composite
def fun_cases(draw):
    return {"f": draw(st.sampled_from(FUN)), "x": [draw(ints(-6, 6)) for _ in range(2 * draw(ints(1, 8)))], "p": [draw(ints(-3, 3)) for _ in range(6)], "q": [draw(ints(1, 4)) for _ in range(8)], "k": draw(ints(0, 7)), "cast": draw(seeds), "seed": draw(seeds)}


def check_fun(c):
    import simcats.distortions as D
    import simcats.sensor as S
    import simcats.support_functions as F

    k, p, q, n = c["f"], c["p"], c["q"], c["k"]
    pts = np.array(c["x"]).reshape(-1, 2)

    def f(cast):
        s, a = cast.s, cast.a
        x = a(c["x"])
        r = np.random.default_rng(c["seed"])
        if k in ("glf", "multi_glf"):
            g = [s(p[0]), s(p[0] + q[0]), s(q[1]), s(q[2]), s(q[3]), s(1), s(p[1])]
            return [F.glf(x, *g), F.glf(s(c["x"][0]), *g)] if k == "glf" else [F.multi_glf(x, *g, *g[::1])]
        if k == "inverse":
            g = [s(0), s(4 + q[0]), s(q[1]), s(q[2]), s(q[3]), s(1), s(p[1])]
            return [F.inverse_glf(a([1, 2, 3]), *g), F.inverse_glf(s(2), *g)]
        if k in ("sigmoid", "cauchy"):
            return [getattr(F, k + "_cdf")(x, s(p[0]), s(q[0] if n else 0))]
        if k in ("multi_sigmoid", "multi_cauchy"):
            return [getattr(F, k + "_cdf")(x, [s(p[0]), s(q[0] if n else 0), s(p[1]), s(q[1])])]
        if k == "dist":
            return [F.signed_dist_points_line(points=a(pts), line_points=a([[p[0], p[1]], [p[0] + q[0], p[1] + p[2]]]))]
        if k == "lines":
            return [F.line_line_intersection((s(p[0]), s(p[1])), (s(p[0] + q[0]), s(p[2]))), F.line_line_intersection((s(p[0]), s(p[1])), s(p[3])), F.line_line_intersection(s(p[3]), (s(p[0]), s(p[1])))]
        if k == "circle":
            return [np.array(F.line_circle_intersection(s(p[4]) if n < 4 else (s(p[0]), s(p[1])), (s(p[2]), s(p[3])), s(q[0])))]
        if k == "below":
            return [F.is_point_below_line((s(p[0]), s(p[1])), s(p[2])), F.is_point_below_line((s(p[0]), s(p[1])), (s(p[2]), s(p[3])))]
        if k == "pixel":
            return [F.pixel_to_volt_1d(int(q[0]), int(q[0] + q[1]), a([p[0], p[1]]))]
        if k == "rotate":
            return [F.rotate_points(a(pts), s(p[0])), F.rotate_points(a(pts[0]), s(p[0]))]
        if k == "fermi":
            return [F.fermi_filter1d(a(pts) if n & 1 else x, s(q[0]), axis=0 if n & 2 else -1, mode=["reflect", "constant", "nearest", "wrap"][n // 2], cval=s(p[0]))]
        if k == "derivative":
            return [F.fermi_dirac_derivative(x, s(p[0]), s(q[0]))]
        if k in ("lorentz", "gauss"):
            return [(S.sensor_response_lorentz if k == "lorentz" else S.sensor_response_gauss)(x, s(p[0]), s(q[0]), s(q[1]), s(p[1]))]
        img = a(pts) if n & 1 else x
        if k == "white":
            return [D.white_gaussian_noise(img, s(q[0]), r)]
        if k == "pink":
            return [D.pink_gaussian_noise(img, s(q[0]), s(0), r)]
        if k == "rtn":
            return [D.random_telegraph_noise(img, s(q[0]), s(q[1]), s(p[0]), r)]
        if k == "jumps":
            return list(D.dot_jumps_blockwise(a(pts), s(q[0]), s(q[1]), None, n & 1, r))
        if k in ("uniform", "normal", "lognormal", "exponential"):
            lo, hi = (1 + abs(p[0]), 1 + abs(p[0]) + q[0] + 1) if k == "lognormal" else (p[0], p[0] + q[0])
            t = tuple if n & 1 else list
            more = {"uniform": dict, "normal": lambda: dict(std=s(q[1]), mean=s(p[0]) if n & 4 else None), "lognormal": lambda: dict(mean=s(1), sigma=s(1)), "exponential": lambda: dict(scale=s(1))}[k]()
            rng = t([s(lo), s(hi)] if k != "exponential" or n & 4 else [s(hi), s(lo)])
            g = getattr(F, {"lognormal": "LogNormal"}.get(k, k.capitalize()) + "SamplingRange")(total_range=rng, sampling_range=s(min(q[2], hi - lo)) if n & 2 else None, rng=r, **more)
            return [np.array([g.sample_parameter() for _ in range(12)]), np.array([float(g.last_sample())])]
        if k == "bend":
            from simcats.sensor.barrier_function import BarrierFunctionGLF
            from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear

            d = SensorPeakDeformationLinear(angle=s(1 + n % 2)) if n < 4 else SensorPeakDeformationCircle(radius=s(q[0] * (1 if n & 1 else -1)))
            sen = S.SensorScanSensorGeneric(barrier_functions=BarrierFunctionGLF(0.01, 0.99, 0, 1, 1, 1, 1), sensor_peak_function=[S.SensorPeakLorentzian(mu0=s(p[0]), gamma=s(q[1]))], alpha_sensor_gate=a([[q[2], q[3]], [1, 0], [0, 1]]), sensor_peak_deformations={0: d})
            d = sen.sensor_peak_deformations[0]
            return [d.calc_mu(dist=x, mu0=s(p[0])), d.calc_mu(dist=s(c["x"][0]), mu0=s(p[0]))]
        d = (D.OccupationTransitionBlurringGaussian if n & 1 else D.OccupationTransitionBlurringFermiDirac)(sigma=s(q[0]))
        occ = np.abs(pts)
        return list(d.noise_function(a(occ if n & 2 else np.stack((occ, occ[::-1]))), a(np.zeros(len(occ) if n & 2 else (2, len(occ)))), a([0, q[1]]), a([p[0], p[0] + q[2]]), None, False))

    got, m = both(c, f)
    return m > 0 and got is not None, [k]


PARTS = [
    Part("ideal", ideal_cases, check_ideal, quick=900, thorough=16000, rule="transition curves, anchors and ideal data on whole-number voltages with whole-number parameters, a random subset of the values handed over as integers or integer arrays, against all of them real; non-trivial = accepted, at least one integer"),
    Part("simulations", sim_cases, check_sim, quick=1500, thorough=26000, rule="simulations with plain and barrier sensors, deformations, distortions and whole-number occupations, likewise; non-trivial = accepted, at least one integer"),
    Part("functions", fun_cases, check_fun, quick=2600, thorough=50000, rule="support, noise, peak, deformation and blurring functions, likewise; non-trivial = accepted, at least one integer"),
]
ASSUMPTIONS = []
