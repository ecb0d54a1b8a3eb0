"""C29: printed representations carry the whole current configuration."""
import math
import re
import sys

import numpy as np
from hypothesis import strategies as st

from checks.c14 import set_live, set_live_ideal
from vlib import build, dist, gens, sens
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints

KINDS = ("peak", "barrier", "rise", "deform", "generic", "scan", "ideal")
XS = np.concatenate((np.linspace(-3, 3, 61), [0.0, 0.123, -0.77]))
W1, W2 = np.array([-0.6, 0.6]), np.array([-0.5, 0.7])


def namespace():
    import simcats.ideal_csd
    import simcats.sensor
    import simcats.sensor.barrier_function
    import simcats.sensor.deformation

    ns = {"np": np, "numpy": np, "array": np.array, "inf": math.inf, "nan": math.nan}
    for m in (simcats.sensor, simcats.sensor.barrier_function, simcats.sensor.deformation, simcats.ideal_csd):
        ns.update({k: v for k, v in vars(m).items() if isinstance(v, type)})
    return ns


def rebuilt(text):
    try:
        return eval(text, namespace())  # noqa: S307
    except Exception as e:  # noqa: BLE001
        expect(False, "representation cannot be evaluated", text=text[:400], error=repr(e))


# ---------------------------------------------------------------- objects
RISE = st.tuples(sens.glf_params(-1.0, 1.0), st.one_of(st.just(0.0), U(-1, 1)), st.sampled_from([0.9, 0.99, 0.999]), st.one_of(st.just(0.0), U(-0.5, 0.05))).map(lambda t: {"p": [t[3]] + t[0][1:6], "mu0": t[1], "full": t[2]})
DEFORM = st.one_of(U(0.2, math.pi - 0.2).map(lambda a: {"t": "lin", "angle": a}), st.tuples(LOG(0.01, 3), st.sampled_from([1, -1])).map(lambda t: {"t": "circ", "radius": t[0] * t[1]}))


@st.composite
def spec(draw, k, like=None):
    """A configuration; like: one to be reached from that by updates (same classes)."""
    if k == "peak":
        p = draw(sens.peaks(n_max=1))[0]
        return {**p, "t": like["t"]} if like else p
    if k == "barrier":
        if like is None:
            return draw(sens.barrier(-1.0, 1.0))
        return draw(sens.barrier(-1.0, 1.0).filter(lambda b: b["t"] == like["t"]))
    if k == "rise":
        return draw(RISE)
    if k == "deform":
        d = draw(DEFORM)
        if like and d["t"] != like["t"]:
            d = {"t": "lin", "angle": draw(U(0.2, 2.9))} if like["t"] == "lin" else {"t": "circ", "radius": draw(LOG(0.01, 3))}
        return d
    if k == "generic":
        return draw(sens.generic())
    if k == "scan":
        return draw(sens.scan_sensor(W1.tolist(), W2.tolist(), deform_ok=like is None, peak_none=True))
    m = draw(gens.models(n_min=3, n_max=4))
    return {"model": m, "q": draw(gens.windows(m, top=False, far=False)), "line": draw(gens.lines(m, top=False, far=False)), "res": draw(gens.res2d(3, 10))}


def make(k, s):
    return {"peak": sens.build_peak, "barrier": sens.build_barrier, "rise": sens.build_rise, "deform": sens.build_deform,
            "generic": sens.build, "scan": sens.build, "ideal": lambda s: build.ideal(s["model"])}[k](s)


def behaviour(k, x, s):
    """What an object does on fixed inputs, as a list of arrays."""
    if k == "peak":
        return [x.sensor_function(XS)]
    if k == "barrier":
        return [x.get_value(XS), x.pinch_off, x.fully_conductive]
    if k == "rise":
        return [x.sensor_function(XS, 0.3), x.fully_conductive]
    if k == "deform":
        from simcats.sensor import SensorPeakLorentzian, SensorScanSensorGeneric
        from simcats.sensor.barrier_function import BarrierFunctionGLF

        b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1, growth_rate=20, asymmetry=1, shape_factor=1, denominator_offset=1, offset=0)
        h = SensorScanSensorGeneric(barrier_functions=b, sensor_peak_function=SensorPeakLorentzian(mu0=0.0, gamma=0.1), alpha_sensor_gate=np.array([[0.3, 0.4], [0.5, 0.1], [0.1, 0.5]]), sensor_peak_deformations={0: x})
        return [h.sensor_peak_deformations[0].calc_mu(XS, 0.2)]
    if k == "generic":
        mu = x.sensor_potential(OCC, W1, W2)
        return [mu, x.sensor_response(mu)]
    if k == "scan":
        out = []
        for a in ((W1, W2, None, 0.2), (0.1, None, W1, W2), (0.1, -0.2, W2, W1)):
            mu = quiet(x.sensor_potential, OCC, *a)
            out += [np.asarray(mu), quiet(x.sensor_response, mu)]
        lab = quiet(x.get_sensor_scan_labels, 0.1, 0.0, W1, W2, quiet(x.sensor_potential, np.ones((9, 11, 2)), 0.1, 0.0, W1, W2))
        return out + [np.asarray(v) for v in lab]
    out = []
    for (r1, r2), n in ((s["q"], np.array(s["res"])), (s["line"][:2], max(s["res"]))):
        try:
            out += list(quiet(x.get_csd_data, np.array(r1), np.array(r2), n))
        except IndexError:  # past the last transition
            out.append(np.zeros(0))
    return out


OCC = np.random.default_rng(3).integers(0, 4, (9, 11, 2)).astype(float)


def compare(a, b, msg, exact=True):
    expect(len(a) == len(b), msg + ": different outcome")
    for x, y in zip(a, b):
        if exact:
            expect_equal(np.asarray(x), np.asarray(y), msg)
        else:
            expect_close(x, y, msg, rtol=1e-9, atol=1e-10)


def exact_repr(x):
    with np.printoptions(precision=17, floatmode="unique", threshold=sys.maxsize):
        return repr(x)


NUM = re.compile(r"(?<![A-Za-z_0-9])-?\d+\.?\d*(?:e[+-]?\d+)?")


def numbers(text):
    return [float(v) for v in NUM.findall(text)], NUM.sub("#", text)


# ---------------------------------------------------------------- rebuild
@st.composite
def rebuild_cases(draw):
    k = draw(st.sampled_from(KINDS))
    return {"k": k, "s": draw(spec(k))}


def check_rebuild(c):
    k, s = c["k"], c["s"]
    x = make(k, s)
    want = behaviour(k, x, s)
    text = exact_repr(x)
    y = rebuilt(text)
    expect(type(y) is type(x), "representation evaluates to another class", got=type(y).__name__)
    expect(exact_repr(y) == text, "representation of the rebuilt object differs", text=text[:300], again=exact_repr(y)[:300])
    compare(behaviour(k, y, s), want, f"rebuilt {k} behaves differently")
    # default print settings: the same up to the printed digits
    z = rebuilt(repr(x))
    (a, ta), (b, tb) = numbers(exact_repr(z)), numbers(text)
    if len(a) == len(b):
        expect_close(a, b, "parameters rebuilt from the default representation", rtol=1e-6, atol=2e-8)
    else:
        expect(False, "default representation lost parameters", text=repr(x)[:400])
    return True, [k]


# ---------------------------------------------------------------- updates
@st.composite
def update_cases(draw):
    k = draw(st.sampled_from(KINDS))
    a = draw(spec(k))
    b = draw(spec(k, a))
    if k == "scan":
        a, b = {**a, "deform": {}}, {**b, "deform": {}}
    return {"k": k, "a": a, "b": b, "sel": draw(ints(0, 2**10 - 1)), "order": draw(st.permutations(range(10))), "deep": draw(st.booleans()), "read": draw(st.booleans())}


def setters(k, s):
    """Attribute, key(s) of the case, value."""
    if k == "peak":
        w = "gamma" if s["t"] == "L" else "sigma"
        return [("mu0", ("mu0",), s["mu0"]), (w, ("w",), s["w"]), ("height", ("height",), s["height"]), ("offset", ("offset",), s["offset"])]
    if k == "barrier" and s["t"] == "multi":
        return [("pinch_off", ("pinch",), s["pinch"]), ("fully_conductive", ("full",), s["full"]), ("params", ("p",), tuple(s["p"]))]
    G = ("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor", "denominator_offset", "offset")
    if k == "barrier":
        return [("pinch_off_percentage", ("pinch",), s["pinch"]), ("fully_conductive_percentage", ("full",), s["full"])] + [(n, ("p", i), s["p"][i]) for i, n in enumerate(G)]
    if k == "rise":
        return [("mu0", ("mu0",), s["mu0"])] + [(n, ("p", i), s["p"][i]) for i, n in enumerate(G[:6])]
    if k == "deform":
        return [("angle", ("angle",), s["angle"])] if s["t"] == "lin" else [("radius", ("radius",), s["radius"])]
    arr = lambda a: None if a is None else np.array(a, float)  # noqa: E731
    if k == "generic":
        return [("alpha_dot", ("alpha_dot",), arr(s["alpha_dot"])), ("alpha_gate", ("alpha_gate",), arr(s["alpha_gate"])), ("offset_mu_sens", ("offset",), s["offset"]),
                ("sensor_peak_function", ("peaks",), sens.build_peaks(s["peaks"]))]
    if k == "scan":
        b = s["barriers"]
        return [("alpha_dot", ("alpha_dot",), arr(s["alpha_dot"])), ("alpha_gate", ("alpha_gate",), arr(s["alpha_gate"])), ("alpha_sensor_gate", ("alpha_sensor_gate",), arr(s["alpha_sensor_gate"])),
                ("offset_mu_sens", ("offset",), np.array(s["offset"], float) if isinstance(s["offset"], list) else s["offset"]),
                ("sensor_peak_function", ("peaks",), sens.build_peaks(s["peaks"])), ("final_rise", ("rise",), sens.build_rise(s["rise"])),
                ("barrier_functions", ("barriers",), sens.build_barrier(b) if isinstance(b, dict) else tuple(sens.build_barrier(y) for y in b))]
    m = s["model"]
    return [("tct_params", ("model", "tct"), [np.array(p) for p in m["tct"]]), ("rotation", ("model", "rotation"), m["rotation"]), ("lut_entries", ("model", "lut"), m["lut"]),
            ("cdf_type", ("model", "cdf"), m["cdf"]), ("cdf_gamma_factor", ("model", "factor"), m["factor"])]


def put(d, path, v):
    """Copy of d with the entry at path replaced."""
    k = path[0]
    c = list(d) if isinstance(d, list) else dict(d)
    c[k] = v if len(path) == 1 else put(c[k], path[1:], v)
    return c


def get(d, path):
    for k in path:
        d = d[k]
    return d


def safe(k, s):
    """Whether a mix of two barriers or rises still is a regular step (real, with ordered asymptotes)."""
    if k == "barrier" and s["t"] == "multi":
        return s["pinch"] < s["full"]
    if k in ("barrier", "rise"):
        return s["p"][0] < s["p"][1]
    return True


def apply(k, x, s, b, sel, order, deep):
    """Update attributes of x from configuration s towards b; returns the configuration reached."""
    n = 0
    todo = setters(k, b)
    for i in order:
        if i >= len(todo) or not sel >> i & 1:
            continue
        attr, path, v = todo[i]
        new = put(s, path, get(b, path))
        if not safe(k, new):
            continue
        if deep and attr == "sensor_peak_function" and s["peaks"] and b["peaks"] and len(s["peaks"]) == len(b["peaks"]) and all(p["t"] == q["t"] for p, q in zip(s["peaks"], b["peaks"])):
            for p, q in zip(x.sensor_peak_function, b["peaks"]):
                for at, _, val in setters("peak", q):
                    setattr(p, at, val)
        elif deep and attr == "final_rise" and s["rise"] and b["rise"]:
            for at, _, val in setters("rise", b["rise"]):
                setattr(x.final_rise, at, val)
            new = put(new, ("rise",), {**b["rise"], "full": s["rise"]["full"]})
        else:
            setattr(x, attr, v)
        s, n = new, n + 1
    return s, n


def check_update(c):
    k, a, b = c["k"], c["a"], c["b"]
    x = make(k, a)
    if c["read"]:
        behaviour(k, x, a)
    end, n = apply(k, x, a, b, c["sel"], c["order"], c["deep"])
    if k == "ideal":
        end = {**end, "q": b["q"], "line": b["line"], "res": b["res"]}
    fresh = make(k, end)
    expect(exact_repr(x) == exact_repr(fresh), f"representation after updates differs from that of a fresh {k}", got=exact_repr(x)[:500], want=exact_repr(fresh)[:500])
    compare(behaviour(k, x, end), behaviour(k, fresh, end), f"updated {k} behaves differently from a fresh one", exact=False)
    return n > 0, [k, "deep" if c["deep"] else "whole"]


# ---------------------------------------------------------------- distortions and samplers: stated parameters
NAMES = {"jumps": "OccupationDotJumps", "gauss": "OccupationTransitionBlurringGaussian", "fermi": "OccupationTransitionBlurringFermiDirac",
         "pink": "SensorPotentialPinkNoise", "white": "SensorResponseWhiteNoise"}
FIELDS = {"jumps": ("scale", "lam", "axis", "ratio"), "gauss": ("sigma",), "fermi": ("sigma",), "pink": ("sigma", "fmin"), "white": ("sigma",), "rtn": ("scale", "std", "height", "ratio")}


@st.composite
def text_cases(draw):
    w = draw(dist.toy_windows())
    e = dist.extent(w)
    k = draw(st.sampled_from(["jumps", "gauss", "fermi", "pink", "white", "rtn", "rtn"]))
    f = {"pink": dist.pot_dist, "white": dist.resp_dist}.get(k) or (dist.occ_dist if k != "rtn" else None)
    one = dist.rtn(e) if k == "rtn" else f(e, False).filter(lambda d: d["k"] == k)
    return {"a": draw(one), "b": draw(one), "w": w, "n": draw(ints(0, 3)), "cls": draw(st.sampled_from(["pot", "resp"])), "toy": draw(dist.toys()), "sel": draw(ints(0, 31)), "seed": draw(gens.seeds)}


def plain(x):
    return re.sub(r" at 0x[0-9A-Fa-f]+", "", repr(x))


def mk(c, d):
    k = d["k"]
    return (dist.build_pot if k == "pink" or (k == "rtn" and c["cls"] == "pot") else dist.build_resp if k in ("white", "rtn") else dist.build_occ)(d)


def run(d, c, k):
    w = c["w"]
    toy = dist.build_toy(c["toy"])
    r1, r2 = np.array(w["r1"]), np.array(w["r2"])
    occ, lead = toy.get_csd_data(r1, r2, w["res"])
    if k in ("jumps", "gauss", "fermi"):
        return quiet(d.noise_function, np.array(occ, float), np.array(lead, float), r1, r2, lambda volt_limits_g1, volt_limits_g2, resolution: toy.get_csd_data(volt_limits_g1, volt_limits_g2, resolution))
    return [quiet(d.noise_function, np.array(occ[..., 0], float), r1, r2)]


def values(s):
    return s if not isinstance(s, dict) else s


def check_text(c):
    k = c["a"]["k"]
    x = mk(c, c["a"])
    for _ in range(c["n"]):
        run(x, c, k)
    # updates: some parameters of the other configuration, then a fresh generator
    end = dict(c["a"])
    for i, f in enumerate(FIELDS[k]):
        if c["sel"] >> i & 1:
            setattr(x, f, dist.build_param(c["b"][f]))
            end[f] = c["b"][f]
        elif isinstance(c["a"][f], dict):  # samplers have moved on; start again
            setattr(x, f, dist.build_param(c["a"][f]))
    if hasattr(x, "rng"):
        x.rng = np.random.default_rng(c["seed"])
        end["seed"] = c["seed"]
    y = mk(c, end)
    for got, want in zip(run(x, c, k), run(y, c, k)):
        expect_equal(got, want, f"updated {k} behaves differently from a fresh one")
    text = plain(x)
    expect(text == plain(y), "representation after updates differs from that of a fresh object", got=text, want=plain(y))
    name = NAMES.get(k) or {"pot": "SensorPotentialRTN", "resp": "SensorResponseRTN"}[c["cls"]]
    expect(text.startswith(name + "("), "representation does not state the class", text=text)
    at = 0
    for f in FIELDS[k]:
        v = getattr(x, f)
        if not isinstance(end[f], dict):
            expect(v == end[f], "parameter reads back differently", field=f, got=v, want=end[f])
        s = f"{f}={plain(v)}"
        i = text.find(s)
        expect(i >= at, "representation does not state a parameter in force", field=f, text=text, want=s)
        at = i
        if isinstance(end[f], dict):  # a sampler states its last sample
            last = v.last_sample()
            expect(f"last_sample={last}" in plain(v), "sampler does not state its last sample", text=plain(v), want=last)
            if f != "ratio" and last is not None:
                lo, hi = sorted(end[f]["range"])
                expect(lo - 1e-12 <= last <= hi + 1e-12, "sample outside of the range", got=last, range=(lo, hi))
    if k in ("jumps", "rtn"):
        expect(text.endswith("[activated]" if x.activated else "[deactivated]"), "representation does not state whether the distortion was active", text=text)
    if k in ("gauss", "fermi", "pink"):
        last = x.sigma.last_sample() if hasattr(x.sigma, "last_sample") else x.sigma
        expect(f"[latest={last if last else 0}]" in text, "representation does not state the latest strength", text=text, want=last)
    return True, [k, "sampled" if any(isinstance(end[f], dict) for f in FIELDS[k]) else "fixed", f"{c['n']} earlier calls"]


# ---------------------------------------------------------------- simulations
@st.composite
def sim_cases(draw):
    return {"sensor": draw(st.one_of(sens.generic(), sens.scan_sensor(W1.tolist(), W2.tolist(), deform_ok=True))), "model": draw(gens.models(n_max=4)), "stack": draw(dist.stack(0.5, n_max=2, custom=False)),
            "lim": [draw(st.one_of(st.none(), st.tuples(U(-2, 0), U(0.1, 2)).map(list))) for _ in range(4)], "used": draw(st.booleans())}


def check_sim(c):
    from simcats import Simulation

    d = dist.build_stack(c["stack"])
    i, s = build.ideal(c["model"]), sens.build(c["sensor"])
    lims = [None if v is None else np.array(v) for v in c["lim"]]
    n = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")
    sm = Simulation(ideal_csd_config=i, sensor=s, occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"], **dict(zip(n, lims)))
    text = plain(sm)
    expect(text.startswith("Simulation("), "class not stated", text=text[:200])
    at = 0
    for f, v in list(zip(n, lims)) + [("ideal_csd_config", i), ("sensor", s), ("occupation_distortions", d["occ"]), ("sensor_potential_distortions", d["pot"]), ("sensor_response_distortions", d["resp"])]:
        want = plain(v) if not isinstance(v, np.ndarray) else str(v)
        if v is None and f.endswith("distortions"):
            want = plain(getattr(sm, f))
        j = text.find(f"{f}=", at)
        expect(j >= 0, "simulation does not state a part of its configuration", field=f)
        if f.startswith("volt_limits") and v is not None:
            got = [float(t) for t in re.findall(r"-?\d+\.?\d*(?:e[+-]?\d+)?", text[j + len(f) + 1:].split(", volt")[0].split("ideal")[0])[:2]]
            expect_close(got, v, f"stated {f}", rtol=1e-7, atol=1e-8)
        else:
            expect(text[j + len(f) + 1:].startswith(want), "simulation does not state its configuration", field=f, got=text[j:j + 300], want=want[:300])
        at = j
    return True, [c["sensor"]["kind"]]


PARTS = [
    Part("rebuild", rebuild_cases, check_rebuild, quick=1500, thorough=30000, rule="sensor elements, barriers, rises, deformations, both sensors and the diagram model: the text evaluates to an object with the same text and identical results on fixed inputs (full digits) and the same parameters to the printed digits (default print settings)"),
    Part("updates", update_cases, check_update, quick=2500, thorough=40000, rule="a random subset of attributes set in random order, whole or inside live components; non-trivial = at least one update"),
    Part("texts", text_cases, check_text, quick=1500, thorough=25000, rule="distortions with fixed and sampled parameters, 0-3 earlier calls, a random subset of parameters updated, then compared with a fresh one on the same generator and their text checked parameter by parameter"),
    Part("simulation", sim_cases, check_sim, quick=600, thorough=8000, rule="generated simulations state every part of their configuration in order"),
]
ASSUMPTIONS = ["distortions, samplers and simulations state their parameters but hold random number generators, so their texts are not evaluated"]
