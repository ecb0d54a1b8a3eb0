"""C19: distortion activation follows its ratio and is reported truthfully."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from vlib import dist
from vlib.core import Part, expect, expect_close, expect_equal, raises
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds
from vlib.models import grid

ratios = st.one_of(st.just(0), st.just(1), st.just(0.0), st.just(1.0), U(0.05, 0.95))


def shape_of(w):
    return tuple(w["res"][::-1]) if isinstance(w["res"], list) else (w["res"],)


def plane(w):
    """Occupations that identify the voltage point: displacements always show."""
    return grid(w["r1"], w["r2"], w["res"]) + 50.0


def make(c, ratio, seed, rng=None):
    from simcats.distortions import OccupationDotJumps, SensorPotentialRTN, SensorResponseRTN

    w, k = c["w"], c["k"]
    e1, e2 = abs(w["r1"][1] - w["r1"][0]), abs(w["r2"][1] - w["r2"][0])
    rng = np.random.default_rng(seed) if rng is None else rng
    if k == "jumps":
        axis = c["axis"]
        n = shape_of(w)[-1] if axis == 1 else shape_of(w)[0]
        px = (e1 if axis == 1 else e2) / n  # every second pixel jumps by about 40 pixels
        return OccupationDotJumps(scale=1e-3 * px or 1e-3, lam=40 * px or 0.1, axis=axis, ratio=ratio, rng=rng)
    tiny = 1e-9 * max(e1, e2)
    return (SensorPotentialRTN if k == "pot" else SensorResponseRTN)(scale=tiny, std=0.01, height=1.0, ratio=ratio, rng=rng)


def call(c, x, **kw):
    """Returns whether the data changed, after checking that inputs of inactive distortions survive."""
    w = c["w"]
    r1, r2 = np.array(w["r1"]), np.array(w["r2"])
    if c["k"] == "jumps":
        o = plane(w)
        l = np.arange(o[..., 0].size, dtype=float).reshape(o.shape[:-1])
        lines = lambda volt_limits_g1, volt_limits_g2, resolution: (lambda g: (g + 50.0, np.full(g.shape[:-1], -7.0)))(grid(volt_limits_g1, volt_limits_g2, resolution))  # noqa: E731
        a, b = quiet(x.noise_function, o, l, r1, r2, lines, **kw)
        same_o, same_l = np.array_equal(a, plane(w)), np.array_equal(b, np.arange(b.size, dtype=float).reshape(b.shape))
        expect(same_o == same_l, "occupations and transition mask not changed together", occupations=not same_o, mask=not same_l)
        return not same_o
    data = np.linspace(-1, 1, int(np.prod(shape_of(w)))).reshape(shape_of(w))
    key = "mu_sens" if c["k"] == "pot" else "sensor_response"
    y = quiet(x.noise_function, **{key: data.copy()}, volt_limits_g1=r1, volt_limits_g2=r2)
    return not np.array_equal(y, data)


@st.composite
def cases(draw):
    k = draw(st.sampled_from(["jumps", "pot", "resp"]))
    w = draw(dist.toy_windows(lo=4, hi=9, hi1=20))
    if not isinstance(w["res"], list):
        w["res"] = max(4, w["res"])
    return {"k": k, "w": w, "axis": draw(ints(0, 1)), "ratio": draw(ratios), "seed": draw(seeds), "ops": draw(st.lists(st.sampled_from(["call", "call", "call", "freeze", "ratio", "copy"]), min_size=1, max_size=12)),
            "ratios": [draw(ratios) for _ in range(3)], "bad": draw(st.one_of(U(-3, -1e-3), U(1.001, 4), st.just(-1e-9), st.just(1 + 1e-9)))}


def swept(c):
    w = c["w"]
    r = w["r1"] if c["axis"] == 1 else w["r2"]
    return c["k"] != "jumps" or r[0] != r[1]


def check(c):
    x, ratio, used = make(c, c["ratio"], c["seed"]), c["ratio"], 0
    expect(x.activated is None and x.ratio == ratio, "initial activation or ratio", got=[x.activated, x.ratio])
    rs = list(c["ratios"])
    acted = False
    for j, op in enumerate(c["ops"]):
        if op == "ratio" and rs:
            ratio = rs.pop()
            x.ratio = ratio
            expect(x.ratio == ratio, "ratio not stored")
            continue
        if op == "copy":
            x = copy.deepcopy(x)
            continue
        if op == "freeze" and c["k"] == "jumps":
            if x.activated is None:
                continue
            was = x.activated
            changed = call(c, x, freeze=True)
            expect(x.activated == was, f"operation {j}: frozen use changed the reported activation")
            expect(changed == bool(was), f"operation {j}: frozen use of a distortion that was {'active' if was else 'inactive'}", changed=changed)
            continue
        changed = call(c, x)
        expect(x.activated in (True, False) and x.activated is not None, f"operation {j}: activation not reported")
        expect(bool(x.activated) == changed, f"operation {j}: data {'changed' if changed else 'unchanged'} but reported as {x.activated}", ratio=ratio)
        if not swept(c):
            expect(not changed, f"operation {j}: acted along a gate that is not swept")
        elif ratio in (0, 1):
            expect(changed == bool(ratio), f"operation {j}: ratio {ratio} but {'acted' if changed else 'did not act'}")
        used += 1
        acted = acted or changed
    x.ratio = c["bad"]
    before = x.activated
    expect(raises(lambda: call(c, x), ValueError) is not None, "a ratio outside 0 to 1 was accepted", ratio=c["bad"], activated=[before, x.activated])
    return used > 0, [c["k"], c["w"]["kind"]] + (["acted"] if acted else [])


# ---------------------------------------------------------------- through a simulation
@st.composite
def sim_cases(draw):
    f = lambda k: {"k": k, "ratio": draw(ratios), "seed": draw(seeds), "axis": draw(ints(0, 1))}  # noqa: E731
    occ = [f("jumps")] if draw(st.booleans()) else []
    pot = [f("pot") for _ in range(draw(ints(0, 2)))]
    resp = [f("resp") for _ in range(draw(ints(0, 2)))]
    return {"w": draw(dist.toy_windows(lo=4, hi=8, hi1=15)), "d": {"occ": occ, "pot": pot, "resp": resp}, "n": draw(ints(1, 4))}


def check_sim(c):
    """The signal is the sum of what the distortions reported as active did (linear sensor, known burst patterns)."""
    from simcats import Simulation
    from simcats.sensor import SensorGeneric

    w = c["w"]
    if not isinstance(w["res"], list):
        w = {**w, "res": max(4, w["res"])}
    d = {k: [make({**x, "w": w}, x["ratio"], x["seed"]) for x in v] for k, v in c["d"].items()}

    class Plane(dist.Toy):
        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
            g = grid(volt_limits_g1, volt_limits_g2, resolution)
            return g + 50.0, np.zeros(g.shape[:-1])

    sm = Simulation(ideal_csd_config=Plane([0] * 5), sensor=SensorGeneric(None, np.array([1.0, 0.7]), np.zeros(2), 0.0), occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"])
    clean = plane(w)
    acted = 0
    for j in range(c["n"]):
        csd, occ, lead, md = quiet(sm.measure, np.array(w["r1"]), np.array(w["r2"]), resolution=np.array(w["res"]) if isinstance(w["res"], list) else w["res"])
        moved = not np.allclose(occ, clean, rtol=0, atol=1e-9)
        signal = csd - (occ[..., 0] + 0.7 * occ[..., 1])
        count = 0
        for k in ("occ", "pot", "resp"):
            live = {"occ": sm.occupation_distortions, "pot": sm.sensor_potential_distortions, "resp": sm.sensor_response_distortions}[k]
            for i, (x, s) in enumerate(zip(live, c["d"][k])):
                expect(x.activated in (True, False) and x.activated is not None, f"measurement {j}: activation of a distortion not reported")
                m = md[{"occ": "occupation_distortions", "pot": "sensor_potential_distortions", "resp": "sensor_response_distortions"}[k]][i]
                expect(m.activated == x.activated, f"measurement {j}: activation in the metadata differs", got=m.activated, want=x.activated)
                if k == "occ":
                    expect(bool(x.activated) == moved, f"measurement {j}: dot jumps reported as {x.activated}, data {'moved' if moved else 'not moved'}")
                else:
                    count += bool(x.activated)
                    if s["ratio"] in (0, 1):
                        expect(bool(x.activated) == bool(s["ratio"]), f"measurement {j}: ratio {s['ratio']} but reported as {x.activated}")
        # bursts of height 1 +- 0.01 sit on every second pixel of each active distortion
        flat = signal.ravel()
        expect(np.allclose(flat[::2], 0, atol=1e-9), f"measurement {j}: signal outside the bursts", got=flat[::2][:4])
        expect(np.all(np.abs(flat[1::2] - count) < 0.1 * max(count, 1)), f"measurement {j}: {count} distortions reported as active but the signal differs", got=flat[1::2][:4])
        acted += count + moved
    return acted > 0, [f"{sum(len(v) for v in c['d'].values())} distortions"]


# ---------------------------------------------------------------- frequencies
@st.composite
def freq_cases(draw):
    return {"k": draw(st.sampled_from(["jumps", "pot", "resp"])), "w": {"r1": [0.0, 1.0], "r2": [1.0, -1.0], "res": [5, 4], "kind": "2d"}, "axis": draw(ints(0, 1)), "ratio": draw(st.one_of(U(0.02, 0.98), st.sampled_from([0.5, 0.1, 0.9]))), "seed": draw(seeds)}


def check_freq(c):
    n = 300
    x = make(c, c["ratio"], c["seed"])
    a = np.array([call(c, x) for _ in range(n)], float)
    r = c["ratio"]
    sd = math.sqrt(r * (1 - r) / n)
    expect(abs(a.mean() - r) < 7 * sd + 3 / n, "fraction of measurements in which the distortion acted", got=a.mean(), want=r, calls=n)
    both = (a[1:] * a[:-1]).mean()
    expect(abs(both - r * r) < 7 * math.sqrt(r * r * (1 - r * r) * 3 / n) + 6 / n, "activations of successive measurements are not independent", got=both, want=r * r)
    return True, [c["k"]]


# ---------------------------------------------------------------- reported strength
@st.composite
def latest_cases(draw):
    k = draw(st.sampled_from(["gauss", "fermi", "white", "pink"]))
    return {"k": k, "w": draw(dist.toy_windows(lo=5, hi=20, hi1=60)), "sigma": draw(dist.param(0.02, 0.3)), "seed": draw(seeds), "n": draw(ints(1, 5)), "freeze": draw(st.booleans()), "change": [draw(st.one_of(st.none(), st.just(0), LOG(0.02, 0.3))) for _ in range(5)]}


def check_latest(c):
    k, w = c["k"], c["w"]
    s = c["sigma"] if isinstance(c["sigma"], dict) else c["sigma"] * (dist.extent(w) if k in ("gauss", "fermi") else 1)
    r1, r2, shape = np.array(w["r1"]), np.array(w["r2"]), shape_of(w)
    rng = np.random.default_rng(c["seed"])
    if k in ("gauss", "fermi"):
        obj = dist.build_occ({"k": k, "sigma": s})
    else:
        from checks.c17 import apply, make as noise

        obj = noise(k, dist.build_param(s), 0, c["seed"])
        ref = noise(k, 1.0, 0, c["seed"])
    expect(obj.latest_sigma is None, "strength reported before the first use")
    seen = []
    for j in range(c["n"]):
        if c["change"][j] is not None and not isinstance(s, dict):  # adjusted between uses
            s = obj.sigma = c["change"][j] * (dist.extent(w) if k in ("gauss", "fermi") else 1)
        if k in ("gauss", "fermi"):
            o = rng.normal(2, 1, shape + (2,))
            l = np.zeros(shape)
            got = quiet(obj.noise_function, o.copy(), l.copy(), r1, r2)[0]
            fixed = dist.build_occ({"k": k, "sigma": obj.latest_sigma})
            expect_close(got, quiet(fixed.noise_function, o.copy(), l.copy(), r1, r2)[0], f"call {j}: the reported strength is not the applied one", atol=1e-12)
            last = obj.latest_sigma
            if c["freeze"]:
                expect_close(quiet(obj.noise_function, o.copy(), l.copy(), r1, r2, freeze=True)[0], got, f"call {j}: frozen use differs", atol=1e-12)
                expect(obj.latest_sigma == last, f"call {j}: frozen use drew a new strength")
        else:
            x = rng.normal(2, 1, shape)
            got = apply(k, obj, x.copy(), r1, r2)
            expect_close(got, x + obj.latest_sigma * apply(k, ref, np.zeros(shape), r1, r2), f"call {j}: the reported strength is not the applied one", atol=1e-11)
        if isinstance(s, dict):
            expect(obj.latest_sigma == obj.sigma.last_sample(), f"call {j}: reported strength is not the last sample")
            expect(obj.latest_sigma not in seen, f"call {j}: strength not sampled anew", got=obj.latest_sigma)
            seen.append(obj.latest_sigma)
        else:
            expect(obj.latest_sigma == s, f"call {j}: reported strength", got=obj.latest_sigma, want=s)
    return True, [k, "sampler" if isinstance(s, dict) else "fixed"]


PARTS = [
    Part("sequences", cases, check, quick=3000, thorough=60000, rule="dot jumps and both telegraph noises strong enough to always show, sequences of up to 12 calls, frozen calls, ratio changes and copies; non-trivial = at least one call"),
    Part("simulation", sim_cases, check_sim, quick=1200, thorough=24000, rule="up to five such distortions in a simulation, reported activation reconstructed from the signal of 1-4 measurements; non-trivial = something acted"),
    Part("frequency", freq_cases, check_freq, quick=320, thorough=6400, rule="300 calls with a ratio in between: fraction and independence within 7 standard deviations"),
    Part("strength", latest_cases, check_latest, quick=1600, thorough=32000, rule="blurring, white and pink noise with fixed and sampled strengths, 1-5 calls, data recomputed from the reported strength"),
]
