"""C14: measurements are isolated from history, from other simulations and from the objects of the caller."""
import copy
import re

import numpy as np
from hypothesis import strategies as st

from vlib import build, dist, gens, sens
from vlib.core import Part, expect, expect_close, raises
from vlib.dist import quiet
from vlib.gens import U, ints

LISTS = ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")
LIMS = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")


@st.composite
def ideals(draw, kind):
    if kind == "toy":
        return {"toy": draw(dist.toys())}
    return {"model": draw(gens.models(n_min=3, n_max=4))}


@st.composite
def sensor(draw, kind, deform=True):
    if kind == "generic":
        return draw(sens.generic())
    return draw(sens.scan_sensor([-0.6, 0.6], [-0.5, 0.7], deform_ok=deform, peak_none=True))


@st.composite
def request(draw, ideal, one=False):
    if "toy" in ideal:
        w = draw(dist.toy_windows(hi=10, hi1=25))
    elif draw(st.booleans()):
        r1, r2, _ = draw(gens.lines(ideal["model"], top=False, far=False))
        w = {"r1": r1, "r2": r2, "res": draw(ints(2, 25))}
    else:
        r1, r2 = draw(gens.windows(ideal["model"], top=False, far=False))
        w = {"r1": r1, "r2": r2, "res": draw(gens.res2d(3, 10))}
    return {"r1": w["r1"], "r2": w["r2"], "res": w["res"], "v": draw(st.one_of(st.none(), st.tuples(U(-0.5, 0.5), U(-0.5, 0.5)).map(list)))}


@st.composite
def scan_request(draw, ideal):
    w = draw(dist.toy_windows(hi=10, hi1=25))
    v = draw(st.one_of(st.none(), st.tuples(U(-0.5, 0.5), U(-0.5, 0.5)).map(list) if "toy" in ideal else gens.anchor_points(ideal["model"], top=False)))
    return {"r1": w["r1"], "r2": w["r2"], "res": w["res"], "v": v}


def mk_ideal(i):
    return dist.build_toy(i["toy"]) if "toy" in i else build.ideal(i["model"])


def measure(sm, q):
    v = q["v"] or [None, None]
    res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
    try:
        return [np.array(x) for x in quiet(sm.measure, np.array(q["r1"]), np.array(q["r2"]), v[0], v[1], resolution=res)[:3]]
    except IndexError:  # past the last transition
        return None


def scan(sm, q):
    v = q["v"] or [None, None]
    res = np.array(q["res"]) if isinstance(q["res"], list) else q["res"]
    try:
        return [np.array(x) for x in quiet(sm.measure_sensor_scan, np.array(q["r1"]), np.array(q["r2"]), v[0], v[1], resolution=res)[:3]]
    except IndexError:
        return None


def same(a, b, msg):
    expect((a is None) == (b is None), msg + ": one of the two was rejected")
    if a is not None:
        for n, x, y in zip(("signal", "second array", "third array"), a, b):
            expect_close(x, y, f"{msg}: {n}", rtol=1e-12, atol=1e-13)


def lists(stack):
    d = dist.build_stack(stack)
    return dict(zip(LISTS, (d["occ"], d["pot"], d["resp"])))


# ---------------------------------------------------------------- history
OPS = ("measure", "scan", "labels", "direct", "reject", "distortions", "sensor", "ideal", "live", "limits", "other", "copy")


@st.composite
def history_cases(draw):
    ik, sk = draw(st.sampled_from(["toy", "toy", "toy", "model"])), draw(st.sampled_from(["generic", "scan", "scan"]))
    how = draw(st.sampled_from(["same", "same", "setter", "live"]))
    a, b = (draw(ideals(ik)), draw(sensor(sk, how != "live"))), (draw(ideals(ik)), draw(sensor(sk, how != "live")))
    end = a if how == "same" else b
    ops = []
    for _ in range(draw(ints(1, 8))):
        o = {"op": draw(st.sampled_from(OPS))}
        if o["op"] in ("measure", "other"):
            o["q"] = draw(request(a[0]))
        elif o["op"] in ("scan", "labels", "direct"):
            o["q"] = draw(scan_request(a[0]))
        elif o["op"] == "distortions":
            o["stack"] = draw(dist.stack(0.5, n_max=2))
        elif o["op"] in ("sensor", "live"):
            o["x"] = draw(sensor(sk, False))
        elif o["op"] == "ideal":
            o["x"] = draw(ideals(ik))
        elif o["op"] == "limits":
            o["x"] = [draw(ints(0, 3)), [-9.0, 9.0]]
        ops.append(o)
    q = [draw(request(end[0])), draw(scan_request(end[0])), draw(request(end[0]))]
    # requests that resemble an earlier one, which must not be answered with what was kept from it
    if draw(ints(0, 1)):
        q[2] = draw(dist.resembling(q[0]))
    for j, kinds in ((0, ("measure", "other")), (1, ("scan", "labels", "direct"))):
        old = [o["q"] for o in ops if o["op"] in kinds]
        if old and (ik == "toy" or end is a) and draw(ints(0, 1)):
            q[j] = draw(dist.resembling(old[-1]))
    return {"a": a, "b": b, "how": how, "ops": ops, "stack0": draw(dist.stack(0.5, n_max=2)), "stack": draw(dist.stack(0.5, n_max=2)),
            "q": q}


def set_live(x, s):
    """Give a live sensor the parameters of another one of its kind, one by one."""
    arr = lambda a: None if a is None else np.array(a, float)  # noqa: E731
    if s["kind"] == "generic":
        x.alpha_dot, x.alpha_gate, x.offset_mu_sens, x.sensor_peak_function = np.array(s["alpha_dot"]), np.array(s["alpha_gate"]), s["offset"], sens.build_peaks(s["peaks"])
        return
    x.alpha_sensor_gate, x.alpha_dot, x.alpha_gate = arr(s["alpha_sensor_gate"]), arr(s["alpha_dot"]), arr(s["alpha_gate"])
    x.offset_mu_sens = np.array(s["offset"], float) if isinstance(s["offset"], list) else s["offset"]
    b = s["barriers"]
    x.barrier_functions = sens.build_barrier(b) if isinstance(b, dict) else tuple(sens.build_barrier(y) for y in b)
    x.sensor_peak_function, x.final_rise = sens.build_peaks(s["peaks"]), sens.build_rise(s["rise"])


def set_live_ideal(x, i):
    if "toy" in i:
        x.a, x.steps = [float(v) for v in i["toy"]["a"]], i["toy"]["steps"]
    else:
        m = i["model"]
        x.tct_params, x.rotation, x.lut_entries, x.cdf_type, x.cdf_gamma_factor = [np.array(p) for p in m["tct"]], m["rotation"], m["lut"], m["cdf"], m["factor"]


def check_history(c):
    from simcats import Simulation

    (i0, s0), (i1, s1) = c["a"], c["b"]
    sm = Simulation(ideal_csd_config=mk_ideal(i0), sensor=sens.build(s0), **lists(c["stack0"]))
    base_s, base_i, swapped = sm.sensor, sm.ideal_csd_config, False
    labels = set()
    for o in c["ops"]:
        k = o["op"]
        scanner = s0["kind"] == "scan"
        if k == "measure":
            measure(sm, o["q"])
        elif k == "scan" and scanner:
            scan(sm, o["q"])
        elif k == "labels" and scanner:
            q = o["q"]
            v = q["v"] or [None, None]
            sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
            mu = quiet(sm.sensor.sensor_potential, np.ones(sh + (2,)), v[0], v[1], np.array(q["r1"]), np.array(q["r2"]))
            quiet(sm.sensor.get_sensor_scan_labels, v[0], v[1], np.array(q["r1"]), np.array(q["r2"]), mu)
        elif k == "direct":
            q = o["q"]
            sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
            occ = np.full(sh + (2,), 2.0)
            if scanner:
                quiet(sm.sensor.sensor_response, quiet(sm.sensor.sensor_potential, occ, 0.1, 0.2, np.array(q["r1"]), np.array(q["r2"])))
            else:
                quiet(sm.sensor.sensor_response, quiet(sm.sensor.sensor_potential, occ, np.array(q["r1"]), np.array(q["r2"])))
        elif k == "reject":
            expect(raises(lambda: sm.measure(np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0]))) is not None, "malformed ranges accepted")
        elif k == "distortions":
            for n, v in lists(o["stack"]).items():
                setattr(sm, n, v)
        elif k == "sensor":
            sm.sensor = sens.build(o["x"])
            swapped = True
        elif k == "ideal":
            sm.ideal_csd_config = mk_ideal(o["x"])
            swapped = True
        elif k == "live" and not (scanner and s0["deform"]):
            set_live(sm.sensor, o["x"])
            swapped = True
        elif k == "limits":
            setattr(sm, LIMS[o["x"][0]], o["x"][1])
        elif k == "other":
            other = Simulation(ideal_csd_config=sm.ideal_csd_config, sensor=sm.sensor, **lists(c["stack0"]))
            measure(other, o["q"])
            other.sensor.offset_mu_sens = 7.0
        elif k == "copy":
            sm = copy.deepcopy(sm)
        labels.add(k)
    for n in LIMS:
        setattr(sm, n, None)
    how = c["how"]
    end = (i0, s0) if how == "same" else (i1, s1)
    if how == "same" and swapped:
        if s0["kind"] == "generic" or not s0["deform"]:
            set_live(sm.sensor, s0)
            if s0["kind"] == "scan" and s0["deform"]:
                sm.sensor = sens.build(s0)
        else:
            sm.sensor = sens.build(s0)
        set_live_ideal(sm.ideal_csd_config, i0)
    elif how == "setter":
        sm.sensor, sm.ideal_csd_config = sens.build(s1), mk_ideal(i1)
    elif how == "live":
        set_live(sm.sensor, s1)
        set_live_ideal(sm.ideal_csd_config, i1)
    for n, v in lists(c["stack"]).items():
        setattr(sm, n, v)
    fresh = Simulation(ideal_csd_config=mk_ideal(end[0]), sensor=sens.build(end[1]), **lists(c["stack"]))
    ok = False
    for j, q in enumerate(c["q"]):
        f = scan if j == 1 else measure
        if j == 1 and end[1]["kind"] != "scan":
            continue
        x = f(sm, q)
        same(x, f(fresh, q), f"request {j} after the history differs from a fresh simulation with the same configuration")
        ok = ok or x is not None
    return ok, sorted(labels) + [how, s0["kind"]]


# ---------------------------------------------------------------- ownership
MUT = ("ideal", "sensor", "peaks", "barrier", "rise", "deform", "lists", "params", "rng", "limits", "arrays")


@st.composite
def own_cases(draw):
    i, s = draw(ideals(draw(st.sampled_from(["toy", "model"])))), draw(sensor(draw(st.sampled_from(["generic", "scan"]))))
    return {"ideal": i, "sensor": s, "stack": draw(dist.stack(0.5, n_max=2)), "q": [draw(request(i)) for _ in range(2)], "s": draw(scan_request(i)),
            "mut": draw(st.lists(st.sampled_from(MUT), min_size=1, max_size=5, unique=True)), "side": draw(st.sampled_from(["caller", "live"]))}


def state(objs):
    """Everything of the handed-over objects that a caller can see."""
    out = [repr(objs["ideal"]), repr(objs["sensor"]), [repr(x) for x in objs["lim"]]]
    for n in LISTS:
        for d in objs[n] or []:
            out.append(re.sub(r" at 0x[0-9A-Fa-f]+", "", repr(d)))
            if getattr(d, "rng", None) is not None:
                out.append(repr(d.rng.bit_generator.state))
            if getattr(d, "latest_sigma", None) is not None:
                out.append(d.latest_sigma)
    return out


def mutate(objs, what):
    """Change handed-over (or live) objects through their public interface and their arrays in place."""
    i, s = objs["ideal"], objs["sensor"]
    if what == "ideal":
        if isinstance(i, dist.Toy):
            i.a[0] += 1.0
        else:
            i.rotation += 0.2
            for p in i.tct_params:
                p[5] += 0.03
                p[7] += 0.03
            i.tct_params.pop()
            i.cdf_type = "cauchy" if i.cdf_type == "sigmoid" else "sigmoid"
    elif what == "sensor":
        s.offset_mu_sens = 3.0
    elif what == "arrays":
        s.alpha_gate += 1
        s.alpha_dot -= 1
        if hasattr(s, "alpha_sensor_gate"):
            s.alpha_sensor_gate += 1
    elif what == "peaks" and s.sensor_peak_function:
        s.sensor_peak_function[0].mu0 += 0.5
        s.sensor_peak_function[-1].height *= 2
        s.sensor_peak_function.append(copy.deepcopy(s.sensor_peak_function[0]))
    elif what == "barrier" and hasattr(s, "barrier_functions"):
        b = list(s.barrier_functions)
        b[0].pinch_off_percentage = 0.2 if hasattr(b[0], "pinch_off_percentage") else None
        if hasattr(b[0], "offset"):
            b[0].offset = 0.3
    elif what == "rise" and getattr(s, "final_rise", None) is not None:
        s.final_rise.asymptote_right = 5.0
    elif what == "deform" and getattr(s, "sensor_peak_deformations", None):
        s.sensor_peak_deformations.clear()
    elif what == "lists":
        for n in LISTS:
            if objs[n]:
                objs[n].pop()
    elif what == "params":
        for n in LISTS:
            for d in objs[n] or []:
                for a in ("sigma", "scale", "lam", "height", "c"):
                    if hasattr(d, a):
                        setattr(d, a, 0.123)
                if hasattr(d, "ratio"):
                    d.ratio = 0.5
    elif what == "rng":
        for n in LISTS:
            for d in objs[n] or []:
                if getattr(d, "rng", None) is not None:
                    d.rng.random(7)
    elif what == "limits":
        for x in objs["lim"]:
            if x is not None:
                x[0] = 1000.0
                x[1] = 1001.0


def objects(c):
    return {"ideal": mk_ideal(c["ideal"]), "sensor": sens.build(c["sensor"]), "lim": [np.array([-50.0, 50.0]) for _ in range(4)], **lists(c["stack"])}


def from_objects(o):
    from simcats import Simulation

    return Simulation(**dict(zip(LIMS, o["lim"])), ideal_csd_config=o["ideal"], sensor=o["sensor"], **{n: o[n] for n in LISTS})


def run_all(sm, c):
    return [run_one(sm, c, k) for k in range(3 if c["sensor"]["kind"] == "scan" else 2)]


def check_own(c):
    want = run_all(from_objects(objects(c)), c)
    mine = objects(c)
    before = state(mine)
    one, two = from_objects(mine), from_objects(mine)
    expect(state(mine) == before, "building a simulation modified the objects handed over")
    got = []
    for k in range(len(want)):  # interleaved with a second simulation built from the same objects
        got.append((run_one(one, c, k), run_one(two, c, k)))
        expect(state(mine) == before, "measuring modified the objects handed over")
    for k, (a, b) in enumerate(got):
        same(a, want[k], f"request {k} of the first simulation")
        same(b, want[k], f"request {k} of a second simulation built from the same objects")
    # changes of the caller's objects must not reach a simulation, changes of live objects not the caller
    mine = objects(c)
    sm = from_objects(mine)
    if c["side"] == "caller":
        for m in c["mut"]:
            mutate(mine, m)
        for k in range(len(want)):
            same(run_one(sm, c, k), want[k], f"request {k} after the caller changed its own objects ({', '.join(c['mut'])})")
    else:
        live = {"ideal": sm.ideal_csd_config, "sensor": sm.sensor, "lim": [getattr(sm, n) for n in LIMS], **{n: getattr(sm, n) for n in LISTS}}
        before = state(mine)
        for m in c["mut"]:
            mutate(live, m)
        expect(state(mine) == before, "changing the live configuration modified the caller's objects")
        other = from_objects(mine)
        for k in range(len(want)):
            same(run_one(other, c, k), want[k], f"request {k} of a new simulation after changing the live configuration of another one ({', '.join(c['mut'])})")
    return any(w is not None for w in want), c["mut"] + [c["side"]]


def run_one(sm, c, k):
    seq = [("m", c["q"][0])] + ([("s", c["s"])] if c["sensor"]["kind"] == "scan" else []) + [("m", c["q"][1])]
    kind, q = seq[k]
    return measure(sm, q) if kind == "m" else scan(sm, q)


# ---------------------------------------------------------------- shipped configurations
@st.composite
def default_cases(draw):
    f = lambda: draw(U(0, 1))  # noqa: E731
    return {"name": draw(st.sampled_from(["GaAs_v1", "GaAs_v2_extended_sensor"])), "w": [f(), f(), f(), f()], "res": draw(st.one_of(gens.res2d(3, 12), ints(3, 20))), "mut": draw(st.lists(st.sampled_from(MUT), min_size=1, max_size=6, unique=True)), "n": draw(ints(1, 3))}


def check_default(c):
    from simcats import Simulation, default_configs

    cfg = default_configs[c["name"]]
    keys = sorted(cfg)
    objs = {"ideal": cfg["ideal_csd_config"], "sensor": cfg["sensor"], "lim": [cfg[n] for n in LIMS if n in cfg], **{n: cfg[n] for n in LISTS}}
    before = state(objs)
    clean = lambda: Simulation(**{**cfg, **{n: None for n in LISTS}})  # noqa: E731
    w = c["w"]
    a, b = cfg["volt_limits_g1"], cfg["volt_limits_g2"]
    q = {"r1": [a[0] + w[0] * (a[1] - a[0]) * 0.8, a[0] + (0.1 + 0.9 * w[1]) * (a[1] - a[0])], "r2": [b[0] + w[2] * (b[1] - b[0]) * 0.8, b[0] + (0.1 + 0.9 * w[3]) * (b[1] - b[0])], "res": c["res"], "v": [-0.5, -0.4] if "volt_limits_sensor_g1" in cfg else None}
    s = {"r1": [-0.9, -0.1], "r2": [-0.3, -0.8], "res": c["res"], "v": [-0.15, -0.12]}
    want = measure(clean(), q)
    if want is None:  # coarse pixels reach past the last defined transition
        return False, ["past the last transition"]
    for _ in range(c["n"]):
        sm = Simulation(**cfg)
        x = measure(sm, q)
        expect(x is not None and x[0].shape == want[0].shape, "default configuration with its distortions failed")
        if "volt_limits_sensor_g1" in cfg:
            scan(sm, s)
        live = {"ideal": sm.ideal_csd_config, "sensor": sm.sensor, "lim": [getattr(sm, n) for n in LIMS if getattr(sm, n) is not None], **{n: getattr(sm, n) for n in LISTS}}
        for m in c["mut"]:
            mutate(live, m)
        expect(sorted(cfg) == keys and state(objs) == before, "a simulation modified the shipped default configuration")
        same(measure(clean(), q), want, "the default configuration behaves differently after use")
    return True, [c["name"]]


PARTS = [
    Part("history", history_cases, check_history, quick=3000, thorough=50000, rule="1-8 operations of 12 kinds (measurements, scans, label and direct sensor queries, rejected requests, replaced or live-edited configuration, other simulations on the same objects, deep copies), then the final configuration is compared with a fresh simulation on three seeded requests, half of which resemble an earlier one in all but one respect; non-trivial = some request delivered data"),
    Part("ownership", own_cases, check_own, quick=2000, thorough=30000, rule="two simulations from the same objects, interleaved, against an independent one; then 1-5 kinds of edits of the caller's objects or of the live configuration; non-trivial = some request delivered data"),
    Part("defaults", default_cases, check_default, quick=160, thorough=2500, rule="shipped configurations used, edited live and used again"),
]
ASSUMPTIONS = ["distortions carry their own seeded generators"]
