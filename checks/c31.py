"""C31: own implementations of the documented interfaces take part exactly like the built-in ones."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c14 import ideals, mk_ideal, request, scan_request
from checks.c15 import identical
from simcats.sensor import SensorInterface, SensorPeakInterface, SensorRiseInterface, SensorScanSensorInterface
from simcats.sensor.barrier_function import BarrierFunctionInterface
from simcats.sensor.deformation import SensorPeakDeformationInterface
from simcats.support_functions import ParameterSamplingInterface
from vlib import dist, gens, sens
from vlib.core import Part, expect, expect_close
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds
from vlib.models import grid


# ---------------------------------------------------------------- own samplers
class Script(ParameterSamplingInterface):
    """Hands out given values one after the other and counts."""

    def __init__(self, values):
        self.values, self.n = [float(v) for v in values], 0

    def sample_parameter(self):
        self.n += 1
        return self.values[(self.n - 1) % len(self.values)]

    def last_sample(self):
        return None if self.n == 0 else self.values[(self.n - 1) % len(self.values)]


KINDS = {"white": ("sigma",), "pink": ("sigma",), "gauss": ("sigma",), "fermi": ("sigma",), "rtn pot": ("scale", "std", "height"), "rtn resp": ("scale", "std", "height"), "jumps": ("scale", "lam")}


def make(kind, p, ratio, axis, seed):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise

    rng = np.random.default_rng(seed)
    if kind == "white":
        return SensorResponseWhiteNoise(rng=rng, **p)
    if kind == "pink":
        return SensorPotentialPinkNoise(rng=rng, **p)
    if kind in ("gauss", "fermi"):
        return (OccupationTransitionBlurringGaussian if kind == "gauss" else OccupationTransitionBlurringFermiDirac)(**p)
    if kind == "jumps":
        return OccupationDotJumps(axis=axis, ratio=ratio, rng=rng, **p)
    return (SensorPotentialRTN if kind == "rtn pot" else SensorResponseRTN)(ratio=ratio, rng=rng, **p)


@st.composite
def sampler_cases(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    w = draw(dist.toy_windows())
    e = dist.extent(w)
    lo, hi = {"white": (0.001, 1), "pink": (0.001, 1), "gauss": (0.01 * e, 0.2 * e), "fermi": (0.01 * e, 0.2 * e), "jumps": (0.05 * e, 0.5 * e)}.get(k, (0.05 * e, 0.5 * e))
    return {"k": k, "w": w, "toy": draw(dist.toys()), "vals": {a: [draw(LOG(lo, hi) if a in ("sigma", "scale", "lam") else LOG(0.01, 0.5)) for _ in range(4)] for a in KINDS[k]},
            "own": [a for a in KINDS[k] if draw(ints(0, 2))] or [KINDS[k][0]], "ratio": draw(st.sampled_from([1, 1, 1, 0.5, 0])), "axis": draw(ints(0, 1)), "seed": draw(seeds), "ops": [draw(st.booleans()) for _ in range(draw(ints(1, 5)))]}


def use(d, c, freeze=False):
    w = c["w"]
    toy = dist.build_toy(c["toy"])
    occ, lead = quiet(toy.get_csd_data, np.array(w["r1"]), np.array(w["r2"]), w["res"])
    r = np.array(w["r1"]), np.array(w["r2"])
    if c["k"] in ("jumps", "gauss", "fermi"):
        return list(quiet(d.noise_function, occ.copy(), lead.copy(), r[0], r[1], toy.get_csd_data, freeze=freeze))
    return [quiet(d.noise_function, np.array(occ[..., 0]), r[0], r[1])]


def check_sampler(c):
    k, vals = c["k"], c["vals"]
    scripts = {a: Script(vals[a]) for a in c["own"]}
    fixed = {a: vals[a][0] for a in vals}
    a = make(k, {**fixed, **scripts}, c["ratio"], c["axis"], c["seed"])
    b = make(k, fixed, c["ratio"], c["axis"], c["seed"])
    expect(all(s.n == 0 for s in scripts.values()), "creating a distortion draws a parameter")
    occupation = k in ("jumps", "gauss", "fermi")
    active = 0
    for j, frozen in enumerate([False] + c["ops"]):
        frozen = frozen and occupation
        before = {n: s.n for n, s in scripts.items()}
        if not frozen:
            for n, s in scripts.items():
                setattr(b, n, vals[n][s.n % 4])
        x = use(a, c, frozen)
        identical(x + [np.zeros(1)] * (3 - len(x)), (use(b, c, frozen) + [np.zeros(1)] * 2)[:3], f"application {j} with own samplers against fixed values")
        on = not frozen and getattr(a, "activated", True)
        for n, s in scripts.items():
            expect(s.n - before[n] == (1 if on else 0), f"application {j} ({'repeated' if frozen else 'active' if on else 'inactive'}): number of draws for {n}", got=s.n - before[n])
        if on and hasattr(a, "latest_sigma"):
            expect(a.latest_sigma == scripts["sigma"].last_sample(), "reported value of the last application", got=a.latest_sigma, want=scripts["sigma"].last_sample())
        active += on
    expect(a.__class__.__name__ in repr(a), "representation")
    return active > 0, [k, c["w"]["kind"], f"{len(scripts)} own"]


# ---------------------------------------------------------------- own sensor elements
class Triangle(SensorPeakInterface):
    def __init__(self, mu0, w, h):
        self._m, self.w, self.h = mu0, w, h

    @property
    def mu0(self):
        return self._m

    @mu0.setter
    def mu0(self, v):
        self._m = v

    def sensor_function(self, mu_sens):
        return triangle(self.w, self.h, mu_sens, self._m)


def triangle(w, h, mu, m):
    return h * np.maximum(0.0, 1 - np.abs(np.asarray(mu, float) - m) / w) + 0.01 * h


class Ramp(BarrierFunctionInterface):
    """0 below lo, hi above: linear in between."""

    def __init__(self, lo, hi, top):
        self.lo, self.hi, self.top = lo, hi, top

    def get_value(self, potential):
        return ramp(self.lo, self.hi, self.top, potential)

    @property
    def pinch_off(self):
        return self.lo

    @property
    def fully_conductive(self):
        return self.hi


def ramp(lo, hi, top, x):
    return top * np.clip((np.asarray(x, float) - lo) / (hi - lo), 0, 1)


class Step(SensorRiseInterface):
    def __init__(self, w, top):
        self.w, self.top = w, top

    @property
    def fully_conductive(self):
        return 0.0

    def sensor_function(self, mu_sens, offset):
        return step(self.w, self.top, mu_sens, offset)


def step(w, top, mu, off):
    return top * np.clip(1 + (np.asarray(mu, float) - off) / w, 0, 1)


class Wedge(SensorPeakDeformationInterface):
    """Shifts a peak by its distance from the axis and in proportion to the lever arm of the sensor it belongs to."""

    def __init__(self, c):
        self.c = c

    def calc_mu(self, dist, mu0):
        return wedge(self.c, dist, mu0, self.sensor.alpha_sensor_gate[0, 0])


def wedge(c, d, mu0, arm):
    return mu0 + c * (0.3 + np.abs(d)) * arm


@st.composite
def element_cases(draw):
    kind = draw(st.sampled_from(["generic", "scan", "scan"]))
    i = draw(ideals(draw(st.sampled_from(["toy", "toy", "model"]))))
    bent = draw(st.booleans())  # how a final rise and deformations combine is left open (finding F1)
    s = draw(sens.generic(allow_none=False) if kind == "generic" else sens.scan_sensor([-0.6, 0.6], [-0.5, 0.7], deform_ok=bent))
    n = len(s["peaks"])
    own = {"peaks": {str(j): [draw(LOG(0.02, 0.6)), draw(U(0.1, 2))] for j in range(n) if draw(st.booleans())}}
    if kind == "scan":
        own["barriers"] = draw(st.one_of(st.none(), st.tuples(*[st.tuples(U(0.1, 0.4), U(0.2, 0.5), U(0.1, 2))] * 2).map(lambda t: [list(x) for x in t]))) if isinstance(s["barriers"], list) else None
        own["deform"] = {str(j): draw(U(-0.5, 0.5)) for j in range(n) if bent and draw(st.booleans())}
        own["rise"] = [draw(LOG(0.01, 0.5)), draw(U(0.3, 3))] if not bent and draw(ints(0, 2)) else None
        if own["rise"] or bent:
            s = {**s, "rise": None}
        if own["deform"] and draw(st.booleans()):  # pixels exactly on the axis
            b = s["barriers"] if isinstance(s["barriers"], dict) else s["barriers"][0]
            s = {**s, "barriers": b, "alpha_sensor_gate": [[0.5, 0.5], [1.0, 0.0], [0.0, 1.0]], "alpha_dot": [[-0.1, -0.1], [-0.2, -0.1], [-0.2, -0.1]], "alpha_gate": None, "offset": 0.0}
            z = draw(scan_request(i))
            n, r = draw(ints(2, 12)), max(z["r1"], z["r2"], key=np.ptp)
            return {"ideal": i, "s": s, "own": {**own, "barriers": None}, "q": draw(request(i)), "scan": {**z, "r1": r, "r2": r, "res": [n, n] if draw(st.booleans()) else n}}
    return {"ideal": i, "s": s, "own": own, "q": draw(request(i)), "scan": draw(scan_request(i)) if kind == "scan" else None}


def peaks_of(c):
    s, own = c["s"], c["own"]["peaks"]
    out = []
    for j, p in enumerate(s["peaks"]):
        if str(j) in own:
            w, h = own[str(j)]
            out.append((Triangle(p["mu0"], w, h), lambda mu, m=None, p=p, w=w, h=h: triangle(w, h, mu, p["mu0"] if m is None else m)))
        else:
            out.append((sens.build_peak(p), lambda mu, m=None, p=p: sens.peak(p, mu, m)))
    return out


def check_element(c):
    from simcats import Simulation
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric

    s, own = c["s"], c["own"]
    pk = peaks_of(c)
    labels = [s["kind"], f"{len(own['peaks'])} own peaks"]
    q = c["q"]
    res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
    sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
    ref = sens.reference(s)
    if s["kind"] == "generic":
        sm = Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=SensorGeneric(sensor_peak_function=[p for p, _ in pk], alpha_dot=np.array(s["alpha_dot"]), alpha_gate=np.array(s["alpha_gate"]), offset_mu_sens=s["offset"]))
        try:
            sig, occ, _, _ = quiet(sm.measure, np.array(q["r1"]), np.array(q["r2"]), resolution=res)
        except IndexError:
            gens.rejected(c["ideal"], q["r1"], q["r2"], res)
            return False, ["rejected"]
        mu = ref.potential(occ, q["r1"], q["r2"])
        expect_close(sig, sum(f(mu) for _, f in pk), "signal with own peaks")
        return len(own["peaks"]) > 0, labels
    bs = [sens.build_barrier(b) for b in s["barriers"]] if isinstance(s["barriers"], list) else sens.build_barrier(s["barriers"])
    values = [lambda x, b=b: sens.barrier_value(b, x) for b in ref.b]
    pinch, full = list(ref.pinch), list(ref.full)
    if own["barriers"]:
        bs = []
        for k, (a, b, top) in enumerate(own["barriers"]):
            lo, hi = s["range"][k + 1]
            x, y = lo + a * (hi - lo), lo + (a + b) * (hi - lo)
            bs.append(Ramp(x, y, top))
            values[k] = lambda v, x=x, y=y, top=top: ramp(x, y, top, v)
            pinch[k], full[k] = x, y
        labels.append("own barriers")
    ref.pinch, ref.full = pinch, full
    deform = {int(k): sens.build_deform(d) for k, d in s["deform"].items()}
    deform.update({int(k): Wedge(v) for k, v in own["deform"].items()})
    rise = Step(*own["rise"]) if own["rise"] else sens.build_rise(s["rise"])
    arr = lambda a: None if a is None else np.array(a, float)  # noqa: E731
    sensor = SensorScanSensorGeneric(barrier_functions=tuple(bs) if isinstance(bs, list) else bs, sensor_peak_function=[p for p, _ in pk], alpha_sensor_gate=np.array(s["alpha_sensor_gate"], float), alpha_gate=arr(s["alpha_gate"]), alpha_dot=arr(s["alpha_dot"]),
                                     offset_mu_sens=np.array(s["offset"], float) if isinstance(s["offset"], list) else s["offset"], final_rise=rise, sensor_peak_deformations=deform)
    for k, d in deform.items():
        if isinstance(d, Wedge):
            labels.append("own deformation")
    sm = Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=sensor)
    z = c["scan"]
    v = z["v"] or [None, None]
    res = np.array(z["res"]) if isinstance(z["res"], list) else z["res"]
    sh = tuple(z["res"][::-1]) if isinstance(z["res"], list) else (z["res"],)
    try:
        sig, cond, peak_mask, _ = quiet(sm.measure_sensor_scan, np.array(z["r1"]), np.array(z["r2"]), v[0], v[1], resolution=res)
    except IndexError:
        gens.rejected(c["ideal"] if z["v"] else None, [v[0]] * 2, [v[1]] * 2, 1)
        return False, ["rejected"]
    o = np.zeros(2) if z["v"] is None else quiet(mk_ideal(c["ideal"]).get_csd_data, volt_limits_g1=(v[0], v[0]), volt_limits_g2=(v[1], v[1]), resolution=1)[0][0]
    occ = np.ones(sh + (2,)) * o
    if deform:  # measured scans with deformations are finding F3: the sensor itself is asked
        sig = quiet(sensor.sensor_response, quiet(sensor.sensor_potential, occ.copy(), v[0], v[1], np.array(z["r1"]), np.array(z["r2"])))
    pots = ref.potentials(occ, v[0], v[1], z["r1"], z["r2"])
    norm = np.hypot(*ref.asg[0])
    mu0 = [None] * len(pk)
    if deform:
        far = ref.axis_distance(o, v[0], v[1], z["r1"], z["r2"], sh)
        for j in range(len(pk)):
            m = s["peaks"][j]["mu0"]
            if str(j) in own["deform"]:
                mu0[j] = wedge(own["deform"][str(j)], far, m, ref.asg[0, 0])
            elif str(j) in s["deform"]:
                mu0[j] = sens.deform(s["deform"][str(j)], m, far, norm)
    el = sum(f(pots[0], m) for (_, f), m in zip(pk, mu0))
    fp = ref.full_potential(o, v[0], v[1])
    if rise is not None:
        el = np.maximum(el, step(*own["rise"], pots[0], fp) if own["rise"] else ref.rise(pots[0], fp))
        labels.append("own rise" if own["rise"] else "rise")
    b1, b2 = values[0](pots[1]), values[1](pots[2])
    num, den = el * b1 * b2, b1 * b2 + el * b1 + el * b2
    want = np.divide(num, den, out=np.zeros_like(num), where=den != 0)
    expect_close(sig, want, "sensor scan with own elements", rtol=1e-7, atol=1e-10)
    near = (np.abs(pots[1] - pinch[0]) < 1e-9) | (np.abs(pots[2] - pinch[1]) < 1e-9) | (np.abs(pots[0] - fp) < 1e-9)
    want = np.where((pots[1] > pinch[0]) & (pots[2] > pinch[1]), np.where(pots[0] > fp, 2, 1), 0)
    bad = (np.asarray(cond) != want) & ~near
    expect(not bad.any(), "conductive area with own elements", at=np.argwhere(bad)[:3].tolist())
    expect(not np.any(np.asarray(peak_mask)[np.asarray(cond) != 1]), "peak labelled outside the Coulomb oscillation regime")
    expect(set(np.unique(peak_mask)) <= set(range(len(pk) + 1)), "peak numbers", got=np.unique(peak_mask))
    return len(own["peaks"]) + len(own["deform"]) + bool(own["barriers"]) + bool(own["rise"]) > 0, labels


# ---------------------------------------------------------------- own sensors
class Linear(SensorInterface):
    """Plain sensor of one potential, written from scratch."""

    def __init__(self, a):
        self.a = a

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        sh = occupations.shape[:-1]
        g = grid(volt_limits_g1, volt_limits_g2, sh[0] if len(sh) == 1 else (sh[1], sh[0]))
        return self.a[0] * occupations[..., 0] + self.a[1] * occupations[..., 1] ** 2 + self.a[2] * g[..., 0] * g[..., 1]

    def sensor_response(self, mu_sens):
        return np.sin(3 * mu_sens) + self.a[3]


class Many(SensorScanSensorInterface):
    """Sensor for sensor scans with any number of potentials and its own labels."""

    def __init__(self, a, n):
        self.a, self.n, self.asked = a, n, []

    def sensor_potential(self, occupations, volt_limits_g1=None, volt_limits_g2=None, volt_limits_sensor_g1=None, volt_limits_sensor_g2=None):
        sh = occupations.shape[:-1]
        self.asked.append([None if v is None else np.ravel(v).tolist() for v in (volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2)])
        return many(self.a, self.n, occupations, *sens.gate_volts(volt_limits_g1, volt_limits_g2, sh), *sens.gate_volts(volt_limits_sensor_g1, volt_limits_sensor_g2, sh))

    def sensor_response(self, mu_sens):
        return mu_sens + 0.5 if self.n == 0 else np.tanh(np.sum(mu_sens, axis=0))

    def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2, potential):
        x = potential if self.n == 0 else potential[0]
        return (np.asarray(x) > 0.3).astype(np.uint8), (np.floor(4 * np.asarray(x)) % 5).astype(np.uint8)


def many(a, n, occ, g1, g2, s1, s2):
    base = a[0] * occ[..., 0] + a[1] * occ[..., 1] + a[2] * g1 - a[3] * g2 + s1 + 0.7 * s2
    return base if n == 0 else np.array([(k + 1) * base + 0.1 * k * s1 for k in range(n)])


@st.composite
def sensor_cases(draw):
    i = draw(ideals(draw(st.sampled_from(["toy", "toy", "model"]))))
    aff = lambda nm: {"k": "aff", "name": nm, "c": draw(U(0.1, 0.9)), "in": draw(st.booleans()), "seed": draw(seeds)}  # noqa: E731
    return {"ideal": i, "a": [draw(U(-1, 1)) for _ in range(4)], "n": draw(ints(-1, 5)), "q": draw(request(i)), "scan": draw(scan_request(i)),
            "pot": [aff(f"p{j}") for j in range(draw(ints(0, 2)))], "resp": [aff(f"r{j}") for j in range(draw(ints(0, 2)))], "none": draw(st.booleans())}


def check_sensor(c):
    """Measurement = own response of the own potentials, every potential distorted by every potential distortion in turn."""
    from simcats import Simulation

    n = c["n"]
    mk = lambda: Linear(c["a"]) if n < 0 else Many(c["a"], n)  # noqa: E731
    lst = lambda k, f: [f(d) for d in c[k]] or (None if c["none"] else [])  # noqa: E731
    sm = Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=mk(), sensor_potential_distortions=lst("pot", dist.build_pot), sensor_response_distortions=lst("resp", dist.build_resp))
    pots, resps = [dist.build_pot(d) for d in c["pot"]], [dist.build_resp(d) for d in c["resp"]]

    def finish(mu, r1, r2):
        for d in pots:
            mu = d.noise_function(np.array(mu), r1, r2) if n <= 0 else np.array([d.noise_function(np.array(x), r1, r2) for x in mu])
        out = mk().sensor_response(mu)
        for d in resps:
            out = d.noise_function(np.array(out), r1, r2)
        return out

    labels, data = [f"{n} potentials" if n >= 0 else "plain"], 0
    for kind in ("m", "s", "m"):
        q = c["q"] if kind == "m" else c["scan"]
        if kind == "s" and n < 0:
            continue
        v = (q["v"] or [None, None]) if n >= 0 else [None, None]
        res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
        sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
        r1, r2 = np.array(q["r1"]), np.array(q["r2"])
        try:
            got = quiet(sm.measure if kind == "m" else sm.measure_sensor_scan, r1, r2, v[0], v[1], resolution=res)
        except IndexError:
            gens.rejected(*((c["ideal"], r1, r2, res) if kind == "m" else (c["ideal"], [v[0]] * 2, [v[1]] * 2, 1)))
            return data > 0, labels + ["rejected"]
        data += 1
        if kind == "m":
            occ = quiet(mk_ideal(c["ideal"]).get_csd_data, r1, r2, res)[0]
            mu = mk().sensor_potential(np.array(occ), r1, r2) if n < 0 else many(c["a"], n, occ, *sens.gate_volts(q["r1"], q["r2"], sh), *sens.gate_volts(v[0], v[1], sh))
            expect_close(got[1], occ, "occupations", rtol=0, atol=1e-12)
            asked = [q["r1"], q["r2"], None if v[0] is None else [v[0]], None if v[1] is None else [v[1]]]
        else:
            o = np.zeros(2) if q["v"] is None else quiet(mk_ideal(c["ideal"]).get_csd_data, volt_limits_g1=(v[0], v[0]), volt_limits_g2=(v[1], v[1]), resolution=1)[0][0]
            occ = np.ones(sh + (2,)) * o
            mu = many(c["a"], n, occ, *sens.gate_volts(v[0], v[1], sh), *sens.gate_volts(q["r1"], q["r2"], sh))
            x = np.asarray(mu if n == 0 else mu[0]) if n >= 0 else None
            edge = np.abs(x - 0.3) < 1e-9
            expect(np.array_equal(np.asarray(got[1])[~edge], (x > 0.3)[~edge]), "first label array of an own sensor")
            edge = np.abs(4 * x - np.rint(4 * x)) < 1e-9
            expect(np.array_equal(np.asarray(got[2])[~edge], (np.floor(4 * x) % 5)[~edge]), "second label array of an own sensor")
            asked = [None if v[0] is None else [v[0]], None if v[1] is None else [v[1]], q["r1"], q["r2"]]
        if n >= 0:
            last = sm.sensor.asked[-1]
            expect(all((a is None and (b is None or not np.any(b))) or (a is not None and b is not None and np.array_equal(a, b)) for a, b in zip(asked, last)), "voltages handed to an own sensor", got=last, want=asked)
        expect_close(got[0], finish(mu, r1, r2), f"{'measurement' if kind == 'm' else 'sensor scan'} with an own sensor", rtol=1e-9, atol=1e-11)
        expect(type(got[3]["sensor"]) is type(mk()) and got[3]["sensor"].a == c["a"], "own sensor in the metadata")
    return data > 0, labels


PARTS = [
    Part("samplers", sampler_cases, check_sampler, quick=2600, thorough=50000, rule="every distortion with scripted own samplers for a random subset of its parameters, 2-6 applications (repeated ones for occupation distortions), against fixed parameters and a count of the draws; non-trivial = took effect at least once"),
    Part("elements", element_cases, check_element, quick=2000, thorough=36000, rule="sensors mixing own peaks, barriers, final rises and deformations with built-in ones against the closed formulas, plus the labels of sensor scans; non-trivial = at least one own element"),
    Part("sensors", sensor_cases, check_sensor, quick=1600, thorough=30000, rule="own sensors with one or 0-5 stacked potentials, with own potential and response distortions, measured and scanned; non-trivial = data delivered"),
]
ASSUMPTIONS = ["own implementations follow the documented signatures of the interfaces"]
