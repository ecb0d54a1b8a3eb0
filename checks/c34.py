"""C34: results do not depend on the physical units."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from checks.c14 import ideals, request, scan_request
from vlib import build, dist, gens, sens
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import ints

V_UNITS = [-6, -3, 1, 4, 10, 20]  # exponents of two; interdot widths stay above the 1e-8 that stand for a step
UNITS = [-40, -20, -6, 3, 10, 30]
P_UNITS = [-16, -10, -4, 3, 10, 30]  # lever arms below the machine precision stand for zero


class ScaledToy(dist.Toy):
    def __init__(self, t, v):
        super().__init__(t["a"], t["steps"])
        self.v = v

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        r1, r2 = [[float(x) / self.v for x in r] for r in (volt_limits_g1, volt_limits_g2)]
        return super().get_csd_data(r1, r2, resolution)


def mk_ideal(i, v):
    if "toy" in i:
        return ScaledToy(i["toy"], v)
    m = copy.deepcopy(i["model"])
    for p in m["tct"]:
        for k in (0, 1, 4, 5, 6, 7):
            p[k] *= v
    return build.ideal(m)


def mul(a, f):
    return None if a is None else (np.asarray(a, float) * f).tolist()


def peaks(ps, p, u):
    return None if ps is None else [{**x, "mu0": x["mu0"] * p, "w": x["w"] * p, "height": x["height"] * u, "offset": x["offset"] * u} for x in ps]


def step(p7, p, u):
    """Parameters of one or more steps: asymptotes in units of the response, steepness and position in units of the potential."""
    out = []
    for i in range(0, len(p7), 7):
        A, K, B, nu, Q, C, *o = p7[i:i + 7]
        out += [A * u, K * u, B / p, nu, Q, C] + [x * p for x in o]
    return out


def barrier(b, p, u):
    q = {**b, "p": step(b["p"], p, u)}
    if b["t"] == "multi":
        q.update(pinch=b["pinch"] * p, full=b["full"] * p)
    return q


def sensor(s, v, p, u):
    s = copy.deepcopy(s)
    s.update(alpha_dot=mul(s["alpha_dot"], p), alpha_gate=mul(s["alpha_gate"], p / v), offset=mul(s["offset"], p), peaks=peaks(s["peaks"], p, u))
    if s["kind"] == "scan":
        s["alpha_sensor_gate"] = mul(s["alpha_sensor_gate"], p / v)
        s["barriers"] = barrier(s["barriers"], p, u) if isinstance(s["barriers"], dict) else [barrier(b, p, u) for b in s["barriers"]]
        if s["rise"]:
            s["rise"] = {**s["rise"], "mu0": s["rise"]["mu0"] * p, "p": step(s["rise"]["p"], p, u)}
    return sens.build(s)


def par(x, f):
    """A fixed value or a sampler in another unit."""
    if not isinstance(x, dict):
        return x * f
    x = {**x, "range": [r * f for r in x["range"]], "narrow": None if x["narrow"] is None else x["narrow"] * f}
    if "std" in x:
        x["std"] *= f
    if "mean" in x:
        x["mean"] += math.log(f)
    return x


def stack(s, v, p, u):
    out = {}
    for k, signal in (("occ", None), ("pot", p), ("resp", u)):
        out[k] = None if s[k] is None else []
        for d in s[k] or []:
            d = dict(d)
            if d["k"] == "jumps":
                d.update(scale=par(d["scale"], v), lam=par(d["lam"], v))
            elif d["k"] in ("gauss", "fermi"):
                d["sigma"] = par(d["sigma"], v)
            elif d["k"] == "rtn":
                d.update(scale=par(d["scale"], v), std=par(d["std"], signal), height=par(d["height"], signal))
            else:
                d["sigma"] = par(d["sigma"], signal)
            out[k].append(d)
    return dist.build_stack(out)


def units(draw):
    k = draw(ints(0, 3))
    v, p, u = draw(st.sampled_from(V_UNITS)), draw(st.sampled_from(P_UNITS)), draw(st.sampled_from(UNITS))
    return [[v, 0, 0], [0, p, 0], [0, 0, u], [v, p, u]][k]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["generic", "scan", "scan"]))
    i = draw(ideals(draw(st.sampled_from(["toy", "model"]))))
    s = draw(sens.generic() if kind == "generic" else sens.scan_sensor([-0.6, 0.6], [-0.5, 0.7], deform_ok=True, peak_none=True))
    if kind == "scan":
        s["deform"] = {k: d for k, d in s["deform"].items() if d["t"] == "lin"}  # a radius mixes volts with the potential
    todo = [["m", draw(request(i))] for _ in range(draw(ints(1, 2)))]
    if kind == "scan":
        todo.append(["s", draw(scan_request(i))])
    w = max(dist.extent(q) for _, q in todo[:1])
    return {"ideal": i, "sensor": s, "stack": draw(dist.stack(w, custom=False, n_max=2)), "todo": todo, "units": units(draw)}


def perform(c, v, p, u):
    from simcats import Simulation

    d = stack(c["stack"], v, p, u)
    lim = np.array([-60.0, 60.0]) * v
    sm = Simulation(ideal_csd_config=mk_ideal(c["ideal"], v), sensor=sensor(c["sensor"], v, p, u), occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"],
                    volt_limits_g1=lim, volt_limits_g2=lim.copy(), volt_limits_sensor_g1=lim.copy(), volt_limits_sensor_g2=lim.copy())
    out = []
    for kind, q in c["todo"]:
        at = [None, None] if q["v"] is None or c["sensor"]["kind"] == "generic" else [x * v for x in q["v"]]
        res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
        try:
            r = quiet(sm.measure if kind == "m" else sm.measure_sensor_scan, np.array(q["r1"]) * v, np.array(q["r2"]) * v, *at, resolution=res)[:3]
            out.append([np.array(x) for x in r])
        except IndexError:  # past the last transition
            gens.rejected(c["ideal"], *((q["r1"], q["r2"], res) if kind == "m" else ([q["v"][0]] * 2, [q["v"][1]] * 2, 1)))
            out.append(None)
    return out


def check(c):
    v, p, u = (2.0**k for k in c["units"])
    if c["sensor"]["peaks"] is None:  # the signal is the potential
        u = p
    if c["sensor"]["kind"] == "scan" and 0 < abs(c["sensor"]["alpha_sensor_gate"][1][1]) * p / v < 1e-14:
        return False, ["lever arm too small"]
    bent = bool(c["sensor"].get("deform"))
    one, two = perform(c, 1.0, 1.0, 1.0), perform(c, v, p, u)
    tags = [c["sensor"]["kind"]] + [n for n, f in (("voltage", v), ("potential", p), ("response", u)) if f != 1]
    seen = 0
    for j, ((kind, q), a, b) in enumerate(zip(c["todo"], one, two)):
        msg = f"request {j} in another unit"
        expect((a is None) == (b is None), msg + ": rejected in one unit only")
        if a is None:
            continue
        expect_close(b[0] / u, a[0], msg + ": signal", rtol=1e-5 if bent else 1e-7, atol=(1e-6 if bent else 1e-9) * max(1e-3, np.abs(a[0]).max()))
        if kind == "m":
            expect_close(b[1], a[1], msg + ": occupations", rtol=1e-9, atol=1e-10)
            expect_equal(b[2], a[2], msg + ": transition mask")
            seen += len(np.unique(np.rint(a[1].sum(-1)))) > 1 or np.ptp(a[0]) > 0
        else:
            expect_equal(b[1], a[1], msg + ": conductive areas")
            expect_equal(b[2], a[2], msg + ": labels of the peaks")
            seen += np.ptp(a[0]) > 0
    return bool(seen), tags


# ---------------------------------------------------------------- ideal data alone
@st.composite
def ideal_cases(draw):
    m = draw(gens.models(n_min=2, n_max=6))
    if draw(st.booleans()):
        r1, r2, _ = draw(gens.lines(m))
        res = draw(ints(2, 300))
    else:
        (r1, r2), res = draw(gens.windows(m)), draw(gens.res2d(3, 60))
    return {"model": m, "r1": r1, "r2": r2, "res": res, "k": draw(st.sampled_from(V_UNITS))}


def check_ideal(c):
    v = 2.0 ** c["k"]
    res = np.array(c["res"]) if isinstance(c["res"], list) else c["res"]
    out = []
    for f in (1.0, v):
        try:
            out.append([np.array(x) for x in mk_ideal(c, f).get_csd_data(np.array(c["r1"]) * f, np.array(c["r2"]) * f, res)])
        except IndexError:
            gens.rejected(c, c["r1"], c["r2"], res)
            out.append(None)
    a, b = out
    expect((a is None) == (b is None), "rejected in one unit only")
    if a is None:
        return False, ["rejected"]
    expect_close(b[0], a[0], "occupations in another unit", rtol=1e-9, atol=1e-10)
    expect_equal(b[1], a[1], "transition mask in another unit")
    return len(np.unique(a[1])) > 1, ["2d" if isinstance(c["res"], list) else "1d", "smaller" if v < 1 else "larger"]


PARTS = [
    Part("simulations", cases, check, quick=2400, thorough=40000, rule="plain and barrier sensors, own and geometric models, up to 2 distortions of every list with equal seeds; voltages, potentials, responses or all of them in a unit up to 2**40 times smaller or 2**30 times larger; 1-2 measurements and a sensor scan each; non-trivial = the signal or the electron number varies"),
    Part("ideal", ideal_cases, check_ideal, quick=1600, thorough=30000, rule="ideal data in a voltage unit 2**-6 to 2**20 times the original; non-trivial = a transition is marked"),
]
ASSUMPTIONS = ["units differ by powers of two, which scale floating-point numbers without rounding", "circular peak deformations are excluded (their radius is not given in one unit)"]
