"""Sensors: case strategies, construction of simcats objects, independent reference formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gens import LOG, U, Z, ints, maybe, pairs


# ---------------------------------------------------------------- reference formulas
def glf(x, A, K, B, nu, Q, C=1.0, o=0.0):
    x = np.asarray(x, dtype=float)
    with np.errstate(over="ignore"):
        base = C + Q * np.exp(np.clip(-B * (x - o), -700, 700))
        return A + (K - A) * np.exp(-np.log(base) / nu)


def glf_inv(v, A, K, B, nu, Q, C=1.0, o=0.0):
    return o - math.log((math.exp(nu * math.log((K - A) / (v - A))) - C) / Q) / B


def peak(p, mu, mu0=None):
    m = p["mu0"] if mu0 is None else mu0
    u = (np.asarray(mu, dtype=float) - m) / p["w"]
    shape = 1.0 / (1.0 + u * u) if p["t"] == "L" else np.exp(-u * u)
    return p["offset"] + p["height"] * shape


def barrier_value(b, x):
    if b["t"] == "glf":
        return glf(x, *b["p"])
    return sum(glf(x, *b["p"][i:i + 7]) for i in range(0, len(b["p"]), 7))


def barrier_points(b):
    """(pinch off, fully conductive) potential."""
    if b["t"] == "multi":
        return b["pinch"], b["full"]
    A, K = b["p"][0], b["p"][1]
    lo, h = min(A, K), abs(K - A)
    return tuple(glf_inv(lo + h * f, *b["p"]) for f in (b["pinch"], b["full"]))


def volts(v, n, axis, nd):
    """Voltage of one gate at every pixel; v: None, number or [start, end]."""
    if v is None:
        v = 0.0
    a = np.full(n[axis], float(v)) if np.isscalar(v) else np.linspace(v[0], v[1], n[axis])
    if nd == 1:
        return a
    return np.broadcast_to(a[None, :] if axis == 1 else a[:, None], n)


def gate_volts(v1, v2, shape):
    if len(shape) == 1:
        return volts(v1, shape, 0, 1), volts(v2, shape, 0, 1)
    return volts(v1, shape, 1, 2), volts(v2, shape, 0, 2)


class Generic:
    def __init__(self, s):
        self.s = s

    def potential(self, occ, v1, v2):
        s = self.s
        g1, g2 = gate_volts(v1, v2, occ.shape[:-1])
        ad, ag = s["alpha_dot"], s["alpha_gate"]
        return occ[..., 0] * ad[0] + occ[..., 1] * ad[1] + g1 * ag[0] + g2 * ag[1] + s["offset"]

    def response(self, mu):
        if self.s["peaks"] is None:
            return np.asarray(mu, float)
        return sum(peak(p, mu) for p in self.s["peaks"])


def three(a):
    """Lever arms given for all three potentials, for one pair, or not at all -> (3, 2)."""
    if a is None:
        return np.zeros((3, 2))
    a = np.asarray(a, float)
    return np.array([a, a, a]) if a.shape == (2,) else a


class Scan:
    """Reference of the barrier-coupled sensor."""

    def __init__(self, s):
        self.s = s
        self.ad, self.ag, self.asg = three(s["alpha_dot"]), three(s["alpha_gate"]), np.asarray(s["alpha_sensor_gate"], float)
        self.off = np.broadcast_to(np.asarray(s["offset"], float), (3,))
        b = s["barriers"]
        self.b = [b, b] if isinstance(b, dict) else list(b)
        self.pinch = [barrier_points(x)[0] for x in self.b]
        self.full = [barrier_points(x)[1] for x in self.b]

    def potentials(self, occ, v1, v2, s1, s2):
        g1, g2 = gate_volts(v1, v2, occ.shape[:-1])
        h1, h2 = gate_volts(s1, s2, occ.shape[:-1])
        return np.array([occ[..., 0] * self.ad[k, 0] + occ[..., 1] * self.ad[k, 1] + g1 * self.ag[k, 0] + g2 * self.ag[k, 1]
                         + h1 * self.asg[k, 0] + h2 * self.asg[k, 1] + self.off[k] for k in range(3)])

    def sensor_point(self, occ, v1, v2, targets):
        """Sensor gate voltages at which the two barrier potentials take the target values (fixed plungers and occupation)."""
        v1, v2 = v1 or 0.0, v2 or 0.0
        rhs = [targets[k] - (self.ad[k + 1] @ occ + self.ag[k + 1, 0] * v1 + self.ag[k + 1, 1] * v2 + self.off[k + 1]) for k in (0, 1)]
        return np.linalg.solve(self.asg[1:], rhs)

    def full_potential(self, occ, v1, v2):
        p = self.sensor_point(occ, v1, v2, self.full)
        return self.ad[0] @ occ + self.ag[0] @ [v1 or 0.0, v2 or 0.0] + self.asg[0] @ p + self.off[0]

    def axis_distance(self, occ, v1, v2, s1, s2, shape):
        """Signed distance (positive: right of its ascending direction) of each pixel to the axis through the pinch-off corner along the sensor lever arm."""
        c = self.sensor_point(occ, v1, v2, self.pinch)
        h1, h2 = gate_volts(s1, s2, shape)
        a = self.asg[0] / np.hypot(*self.asg[0])
        return a[1] * (h1 - c[0]) - a[0] * (h2 - c[1])

    def deformed(self, d, mu0, dist):
        norm = np.hypot(*self.asg[0])
        return deform(d, mu0, dist, norm)

    def element(self, mu, mu0=None):
        """Sensor element without final rise; mu0: list of peak centres (deformed) or None."""
        if self.s["peaks"] is None:
            return np.asarray(mu, float)
        return sum(peak(p, mu, None if mu0 is None else mu0[i]) for i, p in enumerate(self.s["peaks"]))

    def rise(self, mu, full_pot):
        r = self.s["rise"]
        A, K = r["p"][0], r["p"][1]
        top = glf_inv((K - A) * r["full"] + A, *r["p"][:6], o=0.0)
        return glf(mu, *r["p"][:6], o=full_pot - top)

    def series(self, s, p1, p2):
        b1, b2 = barrier_value(self.b[0], p1), barrier_value(self.b[1], p2)
        num, den = s * b1 * b2, b1 * b2 + s * b1 + s * b2
        return np.divide(num, den, out=np.zeros_like(num), where=den != 0), b1, b2


def deform(d, mu0, dist, norm):
    dist = np.asarray(dist, float)
    if d["t"] == "lin":
        return mu0 + dist / math.tan(d["angle"]) * norm
    r = d["radius"] / norm
    q = np.minimum(np.abs(dist), abs(r))
    return mu0 - np.sign(r) * (abs(r) - np.sqrt(r * r - q * q))


# ---------------------------------------------------------------- strategies
@st.composite
def peaks(draw, lo=-1.0, hi=1.0, n_min=1, n_max=5, positive=False):
    n = draw(ints(n_min, n_max))
    kind = draw(st.sampled_from(["L", "G", "mix"]))
    off = 0.0 if positive else draw(U(-0.5, 0.5))
    out = []
    span = hi - lo
    for i in range(n):
        mu = lo + span * (i + draw(U(0.05, 0.95))) / n
        out.append({"t": kind if kind != "mix" else draw(st.sampled_from(["L", "G"])), "mu0": mu,
                    "w": span * draw(LOG(0.003, 0.3)), "height": draw(U(0.05, 1.5)), "offset": off if draw(st.booleans()) else (0.0 if positive else draw(U(-0.5, 0.5)))})
    order = draw(st.sampled_from(["up", "down", "any"]))
    if order == "down":
        out = out[::-1]
    if order == "any":
        out = draw(st.permutations(out))
    return list(out)


@st.composite
def generic(draw, lo=-1.0, hi=1.0, allow_none=True):
    pk = None if allow_none and draw(ints(0, 7)) == 0 else draw(peaks(lo, hi))
    return {"kind": "generic", "alpha_dot": draw(pairs(-0.5, 0.1)), "alpha_gate": draw(pairs(-0.2, 1.0)),
            "offset": draw(st.one_of(U(-1, 1), U(-1, 1), st.just(0), ints(-2, 2))), "peaks": pk}


@st.composite
def glf_params(draw, lo, hi, falling=False):
    """One step between asymptotes with its transition inside [lo, hi]."""
    span = hi - lo
    A = draw(st.sampled_from([0.0, 0.0, 0.0, 0.02]))
    K = A + draw(U(0.1, 1.0))
    B = draw(LOG(4.0, 60.0)) / span
    nu = draw(st.one_of(st.just(1.0), LOG(0.02, 4.0)))
    Q = draw(LOG(0.3, 30.0))
    mid = lo + span * draw(U(0.2, 0.8))
    C = draw(U(0.5, 1.0)) ** nu if draw(ints(0, 5)) == 5 else 1.0  # an upper asymptote above K keeps all percentages within reach
    p = [A, K, B, nu, Q, C, 0.0]
    p[6] = mid - glf_inv(A + 0.5 * (K - A), *p)
    return [float(x) for x in p]


@st.composite
def barrier(draw, lo, hi):
    if draw(ints(0, 3)) == 0:
        n = draw(ints(1, 3))
        ps = [draw(glf_params(lo, hi)) for _ in range(n)]
        span = hi - lo
        a = lo + span * draw(U(0.05, 0.45))
        return {"t": "multi", "p": [x for p in ps for x in p], "pinch": a, "full": a + span * draw(U(0.1, 0.6))}
    return {"t": "glf", "p": draw(glf_params(lo, hi)), "pinch": draw(st.sampled_from([0.001, 0.01, 0.1])), "full": draw(st.sampled_from([0.999, 0.99, 0.9]))}


@st.composite
def deformations(draw, n):
    out = {}
    for i in range(n):
        k = draw(ints(0, 2))
        if k == 1:
            out[str(i)] = {"t": "lin", "angle": draw(U(0.9, math.pi - 0.9))}
        if k == 2:
            out[str(i)] = {"t": "circ", "radius": draw(LOG(0.01, 3.0)) * draw(st.sampled_from([1, -1]))}
    return out


@st.composite
def scan_sensor(draw, r1, r2, deform_ok=False, rise="any", peak_none=False, plain_offsets=False):
    """A barrier-coupled sensor whose barriers and peaks become relevant inside the sensor-gate window r1 x r2 (plunger voltages near 0)."""
    asg = [[draw(U(0.05, 0.6)), draw(U(0.05, 0.6))], [draw(U(0.2, 0.8)), draw(U(0.0, 0.15))], [draw(U(0.0, 0.15)), draw(U(0.2, 0.8))]]
    k = draw(ints(0, 11))
    if k in (0, 1, 2):
        asg[1][1] = 0.0
    if k in (0, 3):
        asg[2][0] = 0.0
    if k in (4, 5):
        asg[0][k - 4] = 0.0
    off = draw(st.one_of(st.just(0.0), U(-0.5, 0.5), st.tuples(Z(-0.5, 0.5), Z(-0.5, 0.5), Z(-0.5, 0.5)).map(list)))
    o3 = np.broadcast_to(np.asarray(off, float), (3,))
    rng = []
    for k in range(3):
        c = [asg[k][0] * a + asg[k][1] * b + o3[k] for a in r1 for b in r2]
        lo, hi = min(c), max(c)
        if hi - lo < 1e-3:
            lo, hi = lo - 1e-3, hi + 1e-3
        rng.append((lo, hi))
    # influence of dots and plungers: mostly a fraction of the scanned potential range, so that the features stay inside the window
    sp = min(hi - lo for lo, hi in rng) if draw(ints(0, 4)) else 1.0
    form = draw(st.sampled_from(["full", "full", "pair", "none"]))
    ad = None if form == "none" else draw(pairs(-0.1 * sp, 0.0)) if form == "pair" else [draw(pairs(-0.1 * sp, 0.0)) for _ in range(3)]
    form = draw(st.sampled_from(["full", "full", "pair", "none"]))
    ag = None if form == "none" else draw(pairs(0.0, 0.7 * sp)) if form == "pair" else [draw(pairs(0.0, 0.7 * sp)) for _ in range(3)]
    if draw(ints(0, 3)) == 0:
        lo, hi = min(rng[1][0], rng[2][0]), max(rng[1][1], rng[2][1])
        bars = draw(barrier(lo, hi))
    else:
        bars = [draw(barrier(*rng[1])), draw(barrier(*rng[2]))]
    pk = None if peak_none and draw(ints(0, 9)) == 0 else draw(peaks(*rng[0], positive=True))
    rs = None
    if rise == "any" and draw(ints(0, 1)):
        p = draw(glf_params(*rng[0]))
        p[0] = 0.0
        rs = {"p": p[:6], "mu0": draw(st.one_of(st.just(0.0), U(-1, 1))), "full": draw(st.sampled_from([0.99, 0.999]))}
    return {"kind": "scan", "alpha_dot": ad, "alpha_gate": ag, "alpha_sensor_gate": asg, "offset": off, "barriers": bars, "peaks": pk, "rise": rs,
            "deform": draw(deformations(len(pk))) if deform_ok and pk else {}, "range": [list(map(float, x)) for x in rng]}


@st.composite
def sensor_windows(draw):
    c1, c2 = draw(U(-0.6, 0.4)), draw(U(-0.6, 0.4))
    w1, w2 = draw(LOG(0.05, 1.5)), draw(LOG(0.05, 1.5))
    r1, r2 = [c1 - w1 / 2, c1 + w1 / 2], [c2 - w2 / 2, c2 + w2 / 2]
    return [r1[::-1] if draw(st.booleans()) else r1, r2[::-1] if draw(st.booleans()) else r2]


# ---------------------------------------------------------------- construction
def build_peak(p):
    from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian

    if p["t"] == "L":
        return SensorPeakLorentzian(mu0=p["mu0"], gamma=p["w"], height=p["height"], offset=p["offset"])
    return SensorPeakGaussian(mu0=p["mu0"], sigma=p["w"], height=p["height"], offset=p["offset"])


def build_peaks(ps):
    return None if ps is None else [build_peak(p) for p in ps]


def build_barrier(b):
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF

    if b["t"] == "multi":
        return BarrierFunctionMultiGLF(b["pinch"], b["full"], *b["p"])
    A, K, B, nu, Q, C, o = b["p"]
    return BarrierFunctionGLF(pinch_off_percentage=b["pinch"], fully_conductive_percentage=b["full"], asymptote_left=A, asymptote_right=K, growth_rate=B,
                              asymmetry=nu, shape_factor=Q, denominator_offset=C, offset=o)


def build_rise(r):
    from simcats.sensor import SensorRiseGLF

    if r is None:
        return None
    A, K, B, nu, Q, C = r["p"]
    return SensorRiseGLF(mu0=r["mu0"], asymptote_left=A, asymptote_right=K, growth_rate=B, asymmetry=nu, shape_factor=Q, denominator_offset=C,
                         fully_conductive_percentage=r["full"])


def build_deform(d):
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear

    return SensorPeakDeformationLinear(angle=d["angle"]) if d["t"] == "lin" else SensorPeakDeformationCircle(radius=d["radius"])


def build(s):
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric

    if s["kind"] == "generic":
        return SensorGeneric(sensor_peak_function=build_peaks(s["peaks"]), alpha_dot=np.array(s["alpha_dot"], float), alpha_gate=np.array(s["alpha_gate"], float),
                             offset_mu_sens=s["offset"])
    arr = lambda a: None if a is None else np.array(a, float)  # noqa: E731
    b = s["barriers"]
    return SensorScanSensorGeneric(
        barrier_functions=build_barrier(b) if isinstance(b, dict) else tuple(build_barrier(x) for x in b),
        sensor_peak_function=build_peaks(s["peaks"]), alpha_sensor_gate=np.array(s["alpha_sensor_gate"], float), alpha_gate=arr(s["alpha_gate"]),
        alpha_dot=arr(s["alpha_dot"]), offset_mu_sens=np.array(s["offset"], float) if isinstance(s["offset"], list) else s["offset"],
        final_rise=build_rise(s["rise"]), sensor_peak_deformations={int(k): build_deform(d) for k, d in s["deform"].items()})


def reference(s):
    return Generic(s) if s["kind"] == "generic" else Scan(s)


@st.composite
def occupations(draw, shape):
    """Random occupation array of the given grid shape as a JSON value: integers with a few fractional pairs."""
    seed = draw(ints(0, 2**31))
    kind = draw(st.sampled_from(["int", "frac", "zero"]))
    return {"seed": seed, "kind": kind, "shape": list(shape)}


def occ_array(o):
    rng = np.random.default_rng(o["seed"])
    sh = tuple(o["shape"]) + (2,)
    if o["kind"] == "zero":
        return np.zeros(sh)
    a = rng.integers(0, 6, sh).astype(float)
    if o["kind"] == "frac":
        a += rng.random(sh)
    return a
