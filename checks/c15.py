"""C15: seeded randomness is reproducible and independent of global random state."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from checks.c14 import ideals, lists, mk_ideal, request, scan_request, sensor
from vlib import dist, sens
from vlib.core import Part, expect
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds
from vlib.models import grid


def perform(sm, kind, q):
    v = q["v"] or [None, None]
    res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
    f = sm.measure if kind == "m" else sm.measure_sensor_scan
    try:
        return [np.array(x) for x in quiet(f, np.array(q["r1"]), np.array(q["r2"]), v[0], v[1], resolution=res)[:3]]
    except IndexError:
        return None


def global_state():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), s[2], s[3], s[4])


def guarded(seed, f, *a):
    """Run with the given global random state and insist that it survives."""
    random.seed(seed)
    np.random.seed(seed)
    before = global_state()
    out = f(*a)
    expect(global_state() == before, "the global random state was changed")
    return out


def identical(a, b, msg):
    expect((a is None) == (b is None), msg + ": one of the two was rejected")
    if a is not None:
        for n, x, y in zip(("signal", "second array", "third array"), a, b):
            expect(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), f"{msg}: {n} differs", at=None if x.shape != y.shape else np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))[:1].tolist())


def unrelated(seed, w):
    """Use of objects that carry their own default generators."""
    from simcats.distortions import OccupationDotJumps, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise
    from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange

    r = np.array([0.0, 1.0])
    x = np.zeros((4, 5))
    for s in (UniformSamplingRange((0.1, 0.2)), NormalSamplingRange((0.1, 0.2), 0.1), LogNormalSamplingRange((0.1, 2.0)), ExponentialSamplingRange((0.1, 0.2), 0.2)):
        s.sample_parameter()
        k = seed % 5
        if k == 0:
            SensorResponseWhiteNoise(s).noise_function(x, r, r)
        elif k == 1:
            SensorPotentialPinkNoise(s).noise_function(x, r, r)
        elif k == 2:
            SensorPotentialRTN(s, s, s).noise_function(x, r, r)
        elif k == 3:
            SensorResponseRTN(s, s, s).noise_function(x, r, r)
        else:
            OccupationDotJumps(s, s, 1).noise_function(np.zeros((4, 5, 2)), np.zeros((4, 5)), r, r)


@st.composite
def cases(draw):
    i = draw(ideals(draw(st.sampled_from(["toy", "toy", "toy", "model"]))))
    s = draw(sensor(draw(st.sampled_from(["generic", "scan"])), draw(st.booleans())))
    n = draw(ints(1, 4))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(["m", "m", "s"])) if s["kind"] == "scan" else "m"
        ops.append([k, draw(request(i)) if k == "m" else draw(scan_request(i)), draw(st.booleans())])
    return {"ideal": i, "sensor": s, "stack": draw(dist.stack(draw(LOG(0.01, 1.0)), custom=False, n_max=2)), "ops": ops, "fork": draw(ints(0, n)), "g": [draw(seeds), draw(seeds)]}


def check(c):
    from simcats import Simulation

    make = lambda: Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=sens.build(c["sensor"]), **lists(c["stack"]))  # noqa: E731
    a, b = guarded(c["g"][0], make), guarded(c["g"][1], make)
    d = None
    data = 0
    for j, (k, q, other) in enumerate(c["ops"]):
        if j == c["fork"]:
            d = guarded(c["g"][0] ^ 1, copy.deepcopy, a)
        x = guarded(c["g"][0] % 1000 + j, perform, a, k, q)
        if other:
            quiet(unrelated, c["g"][1] + j, None)
        y = guarded(c["g"][1] % 1000 + 2000 + 3 * j, perform, b, k, q)
        identical(x, y, f"measurement {j} of two equally configured and seeded simulations")
        if d is not None:
            identical(x, guarded(c["g"][1] % 777, perform, d, k, q), f"measurement {j} of a copy of the simulation")
        data += x is not None
    rp = dist.random_parts(c["stack"])
    return data > 0 and len(rp) > 0, sorted(set(rp)) + [c["sensor"]["kind"], f"{data} measurements"]


# ---------------------------------------------------------------- different seeds
@st.composite
def differ_cases(draw):
    k = draw(st.sampled_from(["white", "pink", "rtn pot", "rtn resp", "jumps", "sampler white", "sampler blur", "sampler pink"]))
    return {"k": k, "toy": draw(dist.toys()), "w": draw(dist.toy_windows(one="2d", lo=20, hi=26)), "strength": draw(LOG(0.01, 0.5)), "seeds": draw(st.lists(seeds, min_size=2, max_size=2, unique=True)), "n": draw(ints(1, 3)), "axis": draw(ints(0, 1))}


def differing(c, seed):
    from simcats import Simulation
    from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise)
    from simcats.sensor import SensorGeneric
    from simcats.support_functions import UniformSamplingRange

    w, x, k, rng = dist.extent(c["w"]), c["strength"], c["k"], np.random.default_rng(seed)
    d = {"occ": [], "pot": [], "resp": []}
    fixed = np.random.default_rng(5)
    axis = c["axis"]
    px = abs(c["w"]["r1"][1] - c["w"]["r1"][0]) / c["w"]["res"][0] if axis else abs(c["w"]["r2"][1] - c["w"]["r2"][0]) / c["w"]["res"][1]
    sampler = UniformSamplingRange((x, 2 * x), rng=rng)
    if k == "white":
        d["resp"] = [SensorResponseWhiteNoise(x, rng=rng)]
    elif k == "pink":
        d["pot"] = [SensorPotentialPinkNoise(x, rng=rng)]
    elif k == "rtn pot":
        d["pot"] = [SensorPotentialRTN(1e-6 * w, x, x, rng=rng)]
    elif k == "rtn resp":
        d["resp"] = [SensorResponseRTN(1e-6 * w, x, x, rng=rng)]
    elif k == "jumps":
        d["occ"] = [OccupationDotJumps(1.5 * px, 10 * px, axis, rng=rng)]
    elif k == "sampler white":
        d["resp"] = [SensorResponseWhiteNoise(sampler, rng=fixed)]
    elif k == "sampler pink":
        d["pot"] = [SensorPotentialPinkNoise(sampler, rng=fixed)]
    else:
        d["occ"] = [OccupationTransitionBlurringGaussian(UniformSamplingRange((0.1 * w, 0.3 * w), rng=rng))]
    t = dict(c["toy"], steps=False)
    return Simulation(ideal_csd_config=dist.build_toy(t), sensor=SensorGeneric(None, np.array([0.7, 0.4]), np.array([0.1, 0.2]), 0.0), occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"])


def check_differ(c):
    a, b, a2 = (differing(c, s) for s in (c["seeds"][0], c["seeds"][1], c["seeds"][0]))
    q = {**c["w"], "v": None}
    last = None
    for j in range(c["n"]):
        x, y, z = (guarded(17 + j, perform, s, "m", q) for s in (a, b, a2))
        identical(x, z, f"measurement {j} of equally seeded simulations")
        expect(not np.array_equal(x[0], y[0]), f"measurement {j} is the same for differently seeded generators")
        if last is not None:
            expect(not np.array_equal(x[0], last), f"measurement {j} repeats the random numbers of the previous one")
        last = x[0]
    return True, [c["k"]]


PARTS = [
    Part("twins", cases, check, quick=2400, thorough=50000, rule="two independently built, equally seeded simulations plus a copy taken in the middle, 1-4 measurements and sensor scans under different global random states with unseeded objects used in between; non-trivial = data delivered and at least one distortion that draws random numbers"),
    Part("seeds", differ_cases, check_differ, quick=1600, thorough=24000, rule="one strong random distortion or sampler with two different seeds, 1-3 measurements; results must differ between seeds and between measurements"),
]
ASSUMPTIONS = ["only the built-in distortions and samplers draw random numbers; user-written distortions are outside this check"]
