"""C30: copies and pickles of configurations continue exactly like the original and are independent of it."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from checks.c14 import LISTS, MUT, ideals, lists, mk_ideal, mutate, request, scan_request, sensor, state
from checks.c15 import guarded, identical, perform
from vlib import dist, sens
from vlib.core import Part, expect
from vlib.dist import quiet
from vlib.gens import LOG, U, ints

HOWS = ("deepcopy", "pickle2", "pickle5", "pickle5", "parts", "twice")


def clone(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x)))))
    return pickle.loads(pickle.dumps(x, protocol=2 if how == "pickle2" else pickle.HIGHEST_PROTOCOL))


def fork(sm, how):
    """A copy of the simulation: as a whole or put together from copies of its parts."""
    from simcats import Simulation

    if how != "parts":
        return clone(sm, how)
    return Simulation(ideal_csd_config=clone(sm.ideal_csd_config, "pickle5"), sensor=clone(sm.sensor, "pickle5"), **{n: clone(getattr(sm, n), "pickle5") for n in LISTS})


def live(sm):
    return {"ideal": sm.ideal_csd_config, "sensor": sm.sensor, "lim": [], **{n: getattr(sm, n) for n in LISTS}}


def build(c):
    from simcats import Simulation

    return Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=sens.build(c["sensor"]), **lists(c["stack"]))


@st.composite
def cases(draw):
    i = draw(ideals(draw(st.sampled_from(["toy", "toy", "toy", "model"]))))
    s = draw(sensor(draw(st.sampled_from(["generic", "scan", "scan"])), draw(st.booleans())))

    def op():
        k = draw(st.sampled_from(["m", "m", "s"])) if s["kind"] == "scan" else "m"
        return [k, draw(request(i)) if k == "m" else draw(scan_request(i))]

    return {"ideal": i, "sensor": s, "stack": draw(dist.stack(draw(LOG(0.01, 1.0)), n_max=2)), "before": [op() for _ in range(draw(ints(0, 2)))], "after": [op() for _ in range(draw(ints(1, 3)))],
            "how": draw(st.sampled_from(HOWS)), "order": draw(st.sampled_from(["copy first", "original first", "alternating"])), "mut": draw(st.lists(st.sampled_from(MUT), max_size=4, unique=True)), "side": draw(st.booleans())}


def check(c):
    a, twin = build(c), build(c)
    for k, q in c["before"]:
        identical(perform(a, k, q), perform(twin, k, q), "equally configured simulations")
    was = state(live(a))
    b = guarded(7, fork, a, c["how"])
    expect(state(live(a)) == was, f"copying ({c['how']}) changed the original")
    expect(state(live(b)) == was, f"the copy ({c['how']}) has another configuration or state", got=state(live(b)), want=was)
    want = [perform(twin, k, q) for k, q in c["after"]]
    got = {}
    seq = {"copy first": [(1, j) for j in range(len(want))] + [(0, j) for j in range(len(want))], "original first": [(0, j) for j in range(len(want))] + [(1, j) for j in range(len(want))],
           "alternating": [(x, j) for j in range(len(want)) for x in (0, 1)]}[c["order"]]
    for who, j in seq:
        got[who, j] = guarded(11 + j + 50 * who, perform, (a, b)[who], *c["after"][j])
    for (who, j), g in got.items():
        identical(g, want[j], f"measurement {j} of the {'copy' if who else 'original'} after copying ({c['how']}, {c['order']})")
    # changes of one side do not reach the other
    if c["mut"]:
        changed, kept = (b, a) if c["side"] else (a, b)
        was = state(live(kept))
        for m in c["mut"]:
            mutate(live(changed), m)
        expect(state(live(kept)) == was, f"changing the {'copy' if c['side'] else 'original'} ({', '.join(c['mut'])}) changed the other one")
        for k, q in c["after"]:
            identical(perform(kept, k, q), perform(twin, k, q), f"after changing the {'copy' if c['side'] else 'original'} ({', '.join(c['mut'])})")
    return any(w is not None for w in want), [c["how"], c["order"], "random" if dist.random_parts(c["stack"]) else "deterministic", "changed" if c["mut"] else "unchanged"]


# ---------------------------------------------------------------- metadata
@st.composite
def meta_cases(draw):
    c = draw(cases())
    return {**c, "after": c["after"][:1] + c["after"], "how": draw(st.sampled_from(["deepcopy", "pickle2", "pickle5", "twice"]))}


def check_meta(c):
    """A stored and reloaded result equals the original one and can be continued from."""
    from simcats import Simulation

    sm = build(c)
    for k, q in c["before"]:
        perform(sm, k, q)
    k, q = c["after"][0]
    v = q["v"] or [None, None]
    res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
    try:
        out = quiet(sm.measure if k == "m" else sm.measure_sensor_scan, np.array(q["r1"]), np.array(q["r2"]), v[0], v[1], resolution=res)
    except IndexError:
        return False, ["rejected"]
    back = clone(out, c["how"])
    identical([np.array(x) for x in back[:3]], [np.array(x) for x in out[:3]], "stored and reloaded result")
    md, md2 = out[3], back[3]
    expect(sorted(md) == sorted(md2), "reloaded metadata has other entries")
    objs = lambda d: {"ideal": d["ideal_csd_config"], "sensor": d["sensor"], "lim": [], **{n: d[n] for n in LISTS}}  # noqa: E731
    expect(state(objs(md)) == state(objs(md2)), "reloaded metadata has another configuration")
    for key in md:
        if key not in LISTS + ("ideal_csd_config", "sensor"):
            x, y = md[key], md2[key]
            expect((x is None) == (y is None) and (x is None or np.array_equal(np.asarray(x), np.asarray(y))), f"{key} of the reloaded metadata", got=y, want=x)
    make = lambda d: Simulation(**{n: d[n] for n in LISTS + ("ideal_csd_config", "sensor", "volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")})  # noqa: E731
    one, two = make(md), make(md2)
    data = 0
    for j, (k, q) in enumerate(c["after"][1:]):
        x = perform(sm, k, q)
        identical(perform(one, k, q), x, f"measurement {j} continued from the metadata")
        identical(perform(two, k, q), x, f"measurement {j} continued from the reloaded metadata ({c['how']})")
        data += x is not None
    return data > 0, [c["how"], "random" if dist.random_parts(c["stack"]) else "deterministic"]


# ---------------------------------------------------------------- samplers and single components
@st.composite
def part_cases(draw):
    lo = draw(LOG(0.01, 1.0))
    return {"sampler": draw(dist.sampler(lo, lo * draw(U(1.5, 5)))), "n": [draw(ints(0, 4)) for _ in range(3)], "how": draw(st.sampled_from(["deepcopy", "pickle2", "pickle5", "twice"])),
            "sensor": draw(sens.scan_sensor([-0.6, 0.6], [-0.5, 0.7], deform_ok=True)), "mu": [draw(U(-1, 1)) for _ in range(5)], "kind": draw(st.sampled_from(["white", "pink", "rtn", "jumps", "gauss", "fermi"])), "toy": draw(dist.toys()), "w": draw(dist.toy_windows())}


def apply(d, c, seed, **kw):
    w = c["w"]
    occ, lead = quiet(dist.build_toy(c["toy"]).get_csd_data, np.array(w["r1"]), np.array(w["r2"]), w["res"])
    if c["kind"] in ("jumps", "gauss", "fermi"):
        return quiet(d.noise_function, np.array(occ), np.array(lead), np.array(w["r1"]), np.array(w["r2"]), dist.build_toy(c["toy"]).get_csd_data, **kw)
    return (quiet(d.noise_function, np.array(lead, float), np.array(w["r1"]), np.array(w["r2"])),)


def check_parts(c):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseWhiteNoise
    from simcats.sensor import SensorScanSensorGeneric

    how = c["how"]
    a, twin = dist.build_sampler(c["sampler"]), dist.build_sampler(c["sampler"])
    for _ in range(c["n"][0]):
        expect(a.sample_parameter() == twin.sample_parameter(), "equally seeded samplers differ")
    b = clone(a, how)
    expect(b.last_sample() == a.last_sample() == twin.last_sample(), "last sample of a copied sampler", got=b.last_sample(), want=a.last_sample())
    want = [twin.sample_parameter() for _ in range(3)]
    for x, name in ((b, "copied sampler"), (a, "sampler after it was copied")):
        expect([x.sample_parameter() for _ in range(3)] == want, f"values of a {name} ({how})")
        expect(x.last_sample() == want[-1], f"last sample of a {name}")
    # distortion with this sampler and own generator
    smp = {**c["sampler"], "range": [abs(v) for v in c["sampler"]["range"]]}
    rng = lambda: np.random.default_rng(c["sampler"]["seed"] ^ 5)  # noqa: E731
    make = {"white": lambda: SensorResponseWhiteNoise(dist.build_sampler(smp), rng=rng()), "pink": lambda: SensorPotentialPinkNoise(dist.build_sampler(smp), rng=rng()),
            "rtn": lambda: SensorPotentialRTN(dist.build_sampler(smp), 0.1, 0.3, ratio=0.7, rng=rng()), "jumps": lambda: OccupationDotJumps(dist.build_sampler(smp), 0.1, axis=1, ratio=0.8, rng=rng()),
            "gauss": lambda: OccupationTransitionBlurringGaussian(dist.build_sampler(smp)), "fermi": lambda: OccupationTransitionBlurringFermiDirac(dist.build_sampler(smp))}[c["kind"]]
    d, t = make(), make()
    for j in range(c["n"][1]):
        identical(apply(d, c, j), apply(t, c, j), "equally seeded distortions")
    e = clone(d, how)
    for attr in ("latest_sigma", "activated"):
        if hasattr(d, attr):
            expect(getattr(d, attr) == getattr(e, attr), f"{attr} of a copied distortion", got=getattr(e, attr), want=getattr(d, attr))
    for j in range(1 + c["n"][2]):
        w = apply(t, c, j)
        identical(apply(e, c, j), w, f"application {j} of a copied {c['kind']} distortion ({how})")
        identical(apply(d, c, j), w, f"application {j} of a {c['kind']} distortion after it was copied ({how})")
    if c["kind"] in ("jumps", "gauss", "fermi"):  # what is frozen belongs to each copy
        last = apply(d, c, 0)
        g = clone(d, how)
        for j in range(3):
            apply(g, c, j)
        new = apply(g, c, 0)
        identical(apply(d, c, 0, freeze=True), last, f"frozen {c['kind']} distortion after its copy ({how}) was used")
        identical(apply(g, c, 0, freeze=True), new, f"frozen copy of a {c['kind']} distortion ({how})")
    # sensor components
    s = sens.build(c["sensor"])
    z = clone(s, how)
    mu = np.array(c["mu"])
    for x, y in zip(s.sensor_peak_function, z.sensor_peak_function):
        expect(np.array_equal(x.sensor_function(mu), clone(x, how).sensor_function(mu)) and np.array_equal(x.sensor_function(mu), y.sensor_function(mu)), "copied peak responds differently")
    for x, y in zip(s.barrier_functions, z.barrier_functions):
        for u in (y, clone(x, how)):
            expect(np.array_equal(x.get_value(mu), u.get_value(mu)) and x.pinch_off == u.pinch_off and x.fully_conductive == u.fully_conductive, "copied barrier differs")
    if s.final_rise is not None:
        u = clone(s.final_rise, how)
        expect(np.array_equal(s.final_rise.sensor_function(mu, 0.1), u.sensor_function(mu, 0.1)) and u.fully_conductive == s.final_rise.fully_conductive, "copied final rise differs")
    # two sensors created from the same arrays
    g = {n: np.array(np.broadcast_to(np.asarray(getattr(s, n)), sh)) for n, sh in (("alpha_dot", (3, 2)), ("alpha_gate", (3, 2)), ("alpha_sensor_gate", (3, 2)), ("offset_mu_sens", (3,)))}
    one, two = [SensorScanSensorGeneric(barrier_functions=tuple(sens.build_barrier(b) for b in ([c["sensor"]["barriers"]] * 2 if isinstance(c["sensor"]["barriers"], dict) else c["sensor"]["barriers"])),
                                        sensor_peak_function=list(s.sensor_peak_function), **g) for _ in range(2)]
    was = repr(two)
    for n in g:
        getattr(one, n)[...] = 5.0
    one.sensor_peak_function[0].mu0 = 9.0
    expect(repr(two) == was, "adjusting a sensor changed another one created from the same values")
    for k, x in s.sensor_peak_deformations.items():
        y = z.sensor_peak_deformations[k]
        expect(y is not x and y.sensor is z and x.sensor is s, "deformation of a copied sensor refers to another sensor")
        before = x.calc_mu(mu, 0.2)
        expect(np.array_equal(before, y.calc_mu(mu, 0.2)), "deformation of a copied sensor differs")
        z.alpha_sensor_gate = 2 * np.array(z.alpha_sensor_gate)
        expect(np.array_equal(before, x.calc_mu(mu, 0.2)), "changing the copied sensor changed a deformation of the original")
        z.alpha_sensor_gate = np.array(s.alpha_sensor_gate)
    return True, [how, c["kind"], c["sampler"]["s"]] + (["deformed"] if s.sensor_peak_deformations else [])


# ---------------------------------------------------------------- shipped configurations
@st.composite
def default_cases(draw):
    f = lambda: draw(U(0, 1))  # noqa: E731
    return {"name": draw(st.sampled_from(["GaAs_v1", "GaAs_v2_extended_sensor"])), "w": [[f(), f(), f(), f()] for _ in range(2)], "res": draw(st.one_of(st.tuples(ints(4, 12), ints(4, 12)).map(list), ints(5, 25))), "how": draw(st.sampled_from(["deepcopy", "pickle2", "pickle5", "parts", "twice"]))}


def check_default(c):
    from simcats import Simulation, default_configs

    cfg = copy.deepcopy(default_configs[c["name"]])
    sm = Simulation(**cfg)
    lim = [cfg["volt_limits_g1"], cfg["volt_limits_g2"]]
    qs = []
    for w in c["w"]:
        r = [[l[0] + w[2 * i] * 0.5 * (l[1] - l[0]), l[0] + (0.5 + 0.3 * w[2 * i + 1]) * (l[1] - l[0])] for i, l in enumerate(lim)]
        qs.append({"r1": r[0], "r2": r[1], "res": c["res"], "v": [-0.5, -0.4] if "volt_limits_sensor_g1" in cfg else None})
    perform(sm, "m", qs[0])
    copies = [fork(sm, c["how"]) for _ in range(2)]
    data = 0
    for q in qs:
        x = perform(copies[0], "m", q)
        identical(perform(copies[1], "m", q), x, f"two copies ({c['how']}) of a simulation of the shipped configuration")
        identical(perform(sm, "m", q), x, f"a simulation of the shipped configuration against its copy ({c['how']})")
        data += x is not None
    return data > 0, [c["name"], c["how"]]


PARTS = [
    Part("simulations", cases, check, quick=2000, thorough=36000, rule="a simulation is copied (deep copy, pickle, copied parts, repeatedly) after 0-2 measurements; original and copy are measured in three orders against a twin that was never copied, then one side is edited in up to four ways; non-trivial = some measurement delivered data"),
    Part("metadata", meta_cases, check_meta, quick=1200, thorough=20000, rule="a complete result including its metadata is copied or stored and reloaded, compared, and measuring is continued from it; non-trivial = some continued measurement delivered data"),
    Part("components", part_cases, check_parts, quick=1600, thorough=30000, rule="samplers, distortions and sensor components alone: copy after 0-4 uses, both sides continue like an uncopied twin"),
    Part("defaults", default_cases, check_default, quick=120, thorough=2000, rule="simulations of the shipped configurations; non-trivial = data delivered"),
]
ASSUMPTIONS = ["user-written components take part if they can be copied themselves"]
