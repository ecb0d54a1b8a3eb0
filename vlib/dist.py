"""Distortions, samplers and toy models: case strategies and construction; recording implementations of the interfaces."""
import warnings

import numpy as np
from hypothesis import strategies as st

from simcats.distortions import OccupationDistortionInterface, SensorPotentialDistortionInterface, SensorResponseDistortionInterface
from simcats.ideal_csd import IdealCSDInterface
from simcats.sensor import SensorGeneric

from vlib.gens import LOG, U, ints, seeds
from vlib.models import grid

LOGBOOK = []  # calls of the recording distortions, in order


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def lim(r):
    return [float(r[0]), float(r[1])]


# ---------------------------------------------------------------- own implementations of the interfaces
class Toy(IdealCSDInterface):
    """Cheap smooth stand-in for an ideal model: occupations and mask are functions of the voltage point alone."""

    def __init__(self, a, steps=False):
        self.a = [float(x) for x in a]
        self.steps = steps

    def at(self, g):
        a = self.a
        x, y = g[..., 0], g[..., 1]
        o1 = 2 + a[0] * x + a[1] * np.sin(3 * y + a[2])
        o2 = 2 + a[3] * y + a[1] * np.cos(5 * x * a[4] + y)
        if self.steps:
            o1, o2 = np.floor(o1), np.floor(o2)
        lead = np.floor(7 * (1 + np.sin(40 * a[0] * x + 30 * a[3] * y + a[2]))) / 2
        return np.stack((o1, o2), -1), np.maximum(lead, 0.0)

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        return self.at(grid(volt_limits_g1, volt_limits_g2, resolution))

    def __repr__(self):
        return f"Toy({self.a}, {self.steps})"


class LogSensor(SensorGeneric):
    """Plain charge sensor that records what it is asked for."""

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        LOGBOOK.append(("sensor", np.array(occupations).tobytes(), lim(volt_limits_g1), lim(volt_limits_g2)))
        return super().sensor_potential(occupations, volt_limits_g1, volt_limits_g2)


class OccCustom(OccupationDistortionInterface):
    """mode in: changes its inputs and returns them; new: returns new arrays; gen: mixes in data from a window within its own."""

    def __init__(self, name, mode, c, seed):
        self.name, self.mode, self.c, self.latest = name, mode, c, None
        self.rng = np.random.default_rng(seed)

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        LOGBOOK.append((self.name, occupations.shape, lim(volt_limits_g1), lim(volt_limits_g2), bool(freeze)))
        if not freeze:
            self.latest = float(self.rng.uniform(0.5, 1.5))
        f = self.latest
        if self.mode == "in":
            occupations *= 1 + self.c * f
            occupations[..., 0] += self.c * f
            lead_transitions[...] = lead_transitions + (lead_transitions > 0)
            return occupations, lead_transitions
        if self.mode == "new":
            return occupations * (1 - self.c) + f * np.array([self.c, 2 * self.c]), lead_transitions * 2.0
        d = self.c * f * 0.1
        (a1, b1), (a2, b2) = (tuple(float(x) for x in r) for r in (volt_limits_g1, volt_limits_g2))
        sh = occupations.shape[:-1]
        res = sh[0] if len(sh) == 1 else (sh[1], sh[0])
        o, l = generate_csd(volt_limits_g1=(a1 + d * (b1 - a1), b1), volt_limits_g2=(a2, b2 - d * (b2 - a2)), resolution=res)
        return 0.5 * (occupations + o), np.maximum(lead_transitions, l)


class Affine:
    """Adds a ramp over the sweep ranges it is given and scales the signal by a random factor."""

    def __init__(self, name, c, seed, in_place=False):
        self.name, self.c, self.in_place = name, c, in_place
        self.rng = np.random.default_rng(seed)
        self.latest = None

    def apply(self, x, r1, r2):
        LOGBOOK.append((self.name, x.shape, lim(r1), lim(r2)))
        sh = x.shape
        g = grid(r1, r2, sh[0] if len(sh) == 1 else (sh[1], sh[0]))
        self.latest = float(self.rng.uniform(0.5, 1.5))
        y = x * self.latest + self.c * (g[..., 0] + 0.3 * g[..., 1])
        if self.in_place:
            x[...] = y
            return x
        return y


class PotCustom(Affine, SensorPotentialDistortionInterface):
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        return self.apply(mu_sens, volt_limits_g1, volt_limits_g2)


class RespCustom(Affine, SensorResponseDistortionInterface):
    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        return self.apply(sensor_response, volt_limits_g1, volt_limits_g2)


# ---------------------------------------------------------------- requests that resemble an earlier one
@st.composite
def resembling(draw, q):
    """A request that differs from an earlier one in a single respect, mostly slightly."""
    q = {**q, "r1": list(q["r1"]), "r2": list(q["r2"])}
    k = draw(st.sampled_from(["shift", "shift", "start", "end", "turn1", "turn2", "transpose", "v", "equal"]))
    d = draw(LOG(1e-6, 0.1)) * draw(st.sampled_from([1, -1]))
    r = draw(st.sampled_from(["r1", "r2"]))
    w = max(abs(q["r1"][1] - q["r1"][0]), abs(q["r2"][1] - q["r2"][0]))
    if k == "shift":
        q[r] = [x + d * w for x in q[r]]
    elif k in ("start", "end") and q[r][0] != q[r][1]:
        q[r][k == "end"] += d * (q[r][1] - q[r][0])
    elif k == "turn1":
        q["r1"] = q["r1"][::-1]
    elif k == "turn2":
        q["r2"] = q["r2"][::-1]
    elif k == "transpose" and isinstance(q["res"], list):
        q["res"] = q["res"][::-1]
    elif k == "v" and q.get("v"):
        q["v"] = [q["v"][0] + d, q["v"][1]]
    return q


# ---------------------------------------------------------------- samplers
@st.composite
def sampler(draw, lo, hi):
    """A sampler whose values lie within [lo, hi]."""
    k = draw(st.sampled_from(["U", "N", "L", "E"]))
    d = {"s": k, "range": [lo, hi], "seed": draw(seeds), "narrow": draw(st.one_of(st.none(), U(0.1, 0.9).map(lambda f: f * (hi - lo))))}
    if k == "N":
        d["std"] = (hi - lo) * draw(U(0.1, 1.0))
    if k == "E":
        d["scale"] = draw(U(0.1, 0.6))
        if draw(st.booleans()):
            d["range"] = [hi, lo]
    if k == "L":
        d["mean"] = float(np.log(0.5 * (lo + hi)))
        d["sigma"] = max(0.3, float(np.log(hi / lo)) / 3)
    return d


def build_sampler(d):
    from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange

    rng = np.random.default_rng(d["seed"])
    r = tuple(d["range"])
    if d["s"] == "U":
        return UniformSamplingRange(total_range=r, sampling_range=d["narrow"], rng=rng)
    if d["s"] == "N":
        return NormalSamplingRange(total_range=r, std=d["std"], mean=d.get("mean"), sampling_range=d["narrow"], rng=rng)
    if d["s"] == "L":
        return LogNormalSamplingRange(total_range=r, sampling_range=d["narrow"], rng=rng, mean=d["mean"], sigma=d["sigma"])
    return ExponentialSamplingRange(total_range=r, scale=d["scale"], sampling_range=d["narrow"], rng=rng)


def param(lo, hi):
    """A fixed value or a sampler within [lo, hi]."""
    return st.one_of(LOG(lo, hi), sampler(lo, hi))


def build_param(p):
    return build_sampler(p) if isinstance(p, dict) else p


# ---------------------------------------------------------------- distortions
ratios = st.one_of(st.just(1), st.just(1), st.just(0), U(0.2, 0.8))


@st.composite
def occ_dist(draw, w, custom=True, i=0):
    """w: typical extent of the window in volts."""
    k = draw(st.sampled_from(["jumps", "jumps", "gauss", "fermi"] + (["in", "new", "gen"] if custom else [])))
    if k == "jumps":
        return {"k": k, "scale": draw(param(0.05 * w, 0.5 * w)), "lam": draw(param(0.02 * w, 0.2 * w)), "axis": draw(ints(0, 1)), "ratio": draw(ratios), "seed": draw(seeds)}
    if k in ("gauss", "fermi"):
        return {"k": k, "sigma": draw(st.one_of(st.just(0.0), param(0.002 * w, 0.1 * w)))}
    return {"k": k, "name": f"occ{i}", "c": draw(U(0.05, 0.5)), "seed": draw(seeds)}


@st.composite
def pot_dist(draw, w, custom=True, i=0):
    k = draw(st.sampled_from(["pink", "rtn"] + (["aff", "aff"] if custom else [])))
    if k == "pink":
        return {"k": k, "sigma": draw(st.one_of(st.just(0.0), param(0.001, 0.1))), "fmin": draw(st.sampled_from([0, 0, 0.1, 0.5])), "seed": draw(seeds)}
    if k == "rtn":
        return draw(rtn(w))
    return {"k": k, "name": f"pot{i}", "c": draw(U(0.1, 0.9)), "in": draw(st.booleans()), "seed": draw(seeds)}


@st.composite
def rtn(draw, w):
    return {"k": "rtn", "scale": draw(st.one_of(st.just(0), param(0.02 * w, 0.6 * w))), "std": draw(param(0.001, 0.1)), "height": draw(st.one_of(param(0.01, 0.3), U(-0.3, 0.3))), "ratio": draw(ratios), "seed": draw(seeds)}


@st.composite
def resp_dist(draw, w, custom=True, i=0):
    k = draw(st.sampled_from(["white", "rtn"] + (["aff", "aff"] if custom else [])))
    if k == "white":
        return {"k": k, "sigma": draw(st.one_of(st.just(0.0), param(0.001, 0.1))), "seed": draw(seeds)}
    if k == "rtn":
        return draw(rtn(w))
    return {"k": k, "name": f"resp{i}", "c": draw(U(0.1, 0.9)), "in": draw(st.booleans()), "seed": draw(seeds)}


@st.composite
def stack(draw, w, custom=True, n_max=3):
    """Three lists (or None) of distortions."""
    out = {}
    for name, f in (("occ", occ_dist), ("pot", pot_dist), ("resp", resp_dist)):
        n = draw(ints(0, n_max))
        out[name] = [draw(f(w, custom, i)) for i in range(n)] if n or draw(st.booleans()) else None
    return out


def build_occ(d):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian

    if d["k"] == "jumps":
        return OccupationDotJumps(scale=build_param(d["scale"]), lam=build_param(d["lam"]), axis=d["axis"], ratio=d["ratio"], rng=np.random.default_rng(d["seed"]))
    if d["k"] in ("gauss", "fermi"):
        return (OccupationTransitionBlurringGaussian if d["k"] == "gauss" else OccupationTransitionBlurringFermiDirac)(sigma=build_param(d["sigma"]))
    return OccCustom(d["name"], d["k"], d["c"], d["seed"])


def build_rtn(cls, d):
    return cls(scale=build_param(d["scale"]), std=build_param(d["std"]), height=build_param(d["height"]), ratio=d["ratio"], rng=np.random.default_rng(d["seed"]))


def build_pot(d):
    from simcats.distortions import SensorPotentialPinkNoise, SensorPotentialRTN

    if d["k"] == "pink":
        return SensorPotentialPinkNoise(sigma=build_param(d["sigma"]), fmin=d["fmin"], rng=np.random.default_rng(d["seed"]))
    if d["k"] == "rtn":
        return build_rtn(SensorPotentialRTN, d)
    return PotCustom(d["name"], d["c"], d["seed"], d["in"])


def build_resp(d):
    from simcats.distortions import SensorResponseRTN, SensorResponseWhiteNoise

    if d["k"] == "white":
        return SensorResponseWhiteNoise(sigma=build_param(d["sigma"]), rng=np.random.default_rng(d["seed"]))
    if d["k"] == "rtn":
        return build_rtn(SensorResponseRTN, d)
    return RespCustom(d["name"], d["c"], d["seed"], d["in"])


def build_stack(s):
    f = {"occ": build_occ, "pot": build_pot, "resp": build_resp}
    return {k: None if s[k] is None else [f[k](d) for d in s[k]] for k in f}


def random_parts(s):
    """Names of the distortions of a stack that draw random numbers on every call."""
    return [d["k"] for k in ("occ", "pot", "resp") for d in (s[k] or []) if d["k"] not in ("gauss", "fermi") and d.get("ratio", 1) and d.get("sigma", 1)]


# ---------------------------------------------------------------- windows of the toy model
@st.composite
def toys(draw):
    return {"a": [draw(U(0.5, 3)), draw(U(0.1, 1.5)), draw(U(0, 6)), draw(U(0.5, 3)), draw(U(0.2, 2))], "steps": draw(st.booleans())}


def build_toy(t):
    return Toy(t["a"], t["steps"])


@st.composite
def toy_windows(draw, one="any", lo=2, hi=14, hi1=40):
    """Sweep ranges in volts with resolution; 2D or 1D (one gate, both gates in parallel or anti-parallel)."""
    kind = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"])) if one == "any" else one
    w1, w2 = draw(LOG(0.02, 2)), draw(LOG(0.02, 2))
    c1, c2 = draw(U(-1, 1)), draw(U(-1, 1))
    r1, r2 = [c1 - w1 / 2, c1 + w1 / 2], [c2 - w2 / 2, c2 + w2 / 2]
    if draw(st.booleans()):
        r1 = r1[::-1]
    if draw(st.booleans()):
        r2 = r2[::-1]
    if kind == "g1":
        r2 = [c2, c2]
    if kind == "g2":
        r1 = [c1, c1]
    res = [draw(ints(lo, hi)), draw(ints(lo, hi))] if kind == "2d" else draw(ints(lo, hi1))
    return {"r1": r1, "r2": r2, "res": res, "kind": kind}


def extent(w):
    return max(abs(w["r1"][1] - w["r1"][0]), abs(w["r2"][1] - w["r2"][0]))


def resolution(res, form):
    """The resolution in one of the accepted notations."""
    if isinstance(res, list):
        return {0: np.array(res), 1: list(res), 2: tuple(res)}[form % 3]
    return {0: int(res), 1: np.array([res]), 2: [res]}[form % 3]
