"""C16: metadata is a faithful, detached snapshot sufficient to repeat (and to continue) the measurement."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import LIMS, LISTS
from checks.c14 import MUT, ideals, mk_ideal, mutate, request, scan_request, sensor, state
from checks.c15 import identical
from vlib import dist, sens
from vlib.core import Part, expect
from vlib.dist import quiet
from vlib.gens import LOG, U, ints


def as_objs(md):
    return {"ideal": md["ideal_csd_config"], "sensor": md["sensor"], "lim": [md[n] for n in LIMS], **{n: md[n] for n in LISTS}}


def live_objs(sm):
    return {"ideal": sm.ideal_csd_config, "sensor": sm.sensor, "lim": [getattr(sm, n) for n in LIMS], **{n: getattr(sm, n) for n in LISTS}}


NAMES = {"m": ("sweep_range_g1", "sweep_range_g2", "volt_sensor_g1", "volt_sensor_g2"), "s": ("sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_g1", "volt_g2")}


def snapshot(md):
    return [state(as_objs(md)), [repr(md[k]) for k in sorted(md) if k not in LISTS and k not in ("ideal_csd_config", "sensor")], sorted(md)]


def go(sm, k, q, args=None):
    v = q["v"] or [None, None]
    a = args or [np.array(q["r1"]), np.array(q["r2"]), dist.resolution(q["res"], q["form"])]
    n = NAMES[k]
    f = sm.measure if k == "m" else sm.measure_sensor_scan
    try:
        out = quiet(f, **{n[0]: a[0], n[1]: a[1], n[2]: v[0], n[3]: v[1], "resolution": a[2]})
    except IndexError:
        return None, None
    return [np.array(x) for x in out[:3]], out


def from_md(md):
    from simcats import Simulation

    return Simulation(**{k: md[k] for k in LIMS + LISTS + ("ideal_csd_config", "sensor")})


def redo(sm, k, md):
    n = NAMES[k]
    f = sm.measure if k == "m" else sm.measure_sensor_scan
    try:
        return [np.array(x) for x in quiet(f, **{**{x: md[x] for x in n}, "resolution": md["resolution"]})[:3]]
    except IndexError:
        return None


@st.composite
def limits(draw):
    return [draw(st.one_of(st.none(), st.just([-60.0, 60.0]), st.tuples(U(-70, -30), U(30, 70)).map(list))) for _ in range(4)]


@st.composite
def cases(draw):
    i = draw(ideals(draw(st.sampled_from(["toy", "toy", "toy", "model"]))))
    s = draw(sensor(draw(st.sampled_from(["generic", "scan", "scan"])), draw(st.booleans())))
    n = draw(ints(1, 3))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(["m", "s"])) if s["kind"] == "scan" else "m"
        q = draw(request(i)) if k == "m" else draw(scan_request(i))
        ops.append({"k": k, "q": {**q, "form": draw(ints(0, 2))}, "after": draw(st.lists(st.sampled_from(["config", "args", "data", "metadata", "setter", "measure"]), max_size=4)), "mut": draw(st.sampled_from(MUT))})
    nq = draw(request(i))
    return {"ideal": i, "sensor": s, "stack": draw(st.one_of(dist.stack(draw(LOG(0.01, 1.0)), n_max=2), st.just({"occ": None, "pot": None, "resp": None}))), "lim": draw(limits()), "ops": ops, "next": {**nq, "form": 0}}


def plain(stack):
    """Without the distortions that draw random numbers."""
    det = lambda d: d["k"] in ("gauss", "fermi") and not isinstance(d["sigma"], dict)  # noqa: E731
    return {k: None if v is None else [d for d in v if det(d)] for k, v in stack.items()}


def check(c):
    from simcats import Simulation

    random_any = any(len(plain(c["stack"])[k] or []) != len(c["stack"][k] or []) for k in c["stack"])

    def make():
        d = dist.build_stack(c["stack"])
        return Simulation(**{n: None if v is None else np.array(v) for n, v in zip(LIMS, c["lim"])}, ideal_csd_config=mk_ideal(c["ideal"]), sensor=sens.build(c["sensor"]), **dict(zip(LISTS, (d["occ"], d["pot"], d["resp"]))))

    sm, shadow = make(), make()
    taken, labels, data = [], set(), 0
    for j, o in enumerate(c["ops"]):
        k, q = o["k"], o["q"]
        args = [np.array(q["r1"]), np.array(q["r2"]), dist.resolution(q["res"], q["form"])]
        before_live = live_objs(sm)
        res, raw = go(sm, k, q, args)
        if res is None:
            return data > 0, sorted(labels) + ["rejected"]
        data += 1
        md = raw[3]
        n = NAMES[k]
        v = q["v"] or [None, None]
        expect(set(md) == set(n) | set(LIMS) | set(LISTS) | {"resolution", "ideal_csd_config", "sensor"}, f"measurement {j}: keys of the metadata", got=sorted(md))
        for key, want in zip(n, (q["r1"], q["r2"], v[0], v[1])):
            got = md[key]
            expect((got is None) == (want is None) and (want is None or np.array_equal(np.asarray(got, float), np.asarray(want, float))), f"measurement {j}: {key} in the metadata is not the argument", got=got, want=want)
        expect(np.array_equal(np.ravel(md["resolution"]), np.ravel(q["res"])), f"measurement {j}: resolution in the metadata is not the argument", got=md["resolution"], want=q["res"])
        expect(state(as_objs(md)) == state(before_live), f"measurement {j}: configuration in the metadata differs from the one of the simulation")
        for key in LISTS:
            for a, b in zip(md[key] or [], getattr(sm, key) or []):
                expect(type(a) is type(b) and a is not b, "metadata shares a distortion with the simulation")
                for attr in ("latest_sigma", "activated", "latest"):
                    if hasattr(b, attr):
                        expect(getattr(a, attr) == getattr(b, attr), f"measurement {j}: {attr} of a distortion in the metadata", got=getattr(a, attr), want=getattr(b, attr))
        taken.append((k, q, md, snapshot(md), res, o))
        # the measurement can be repeated from its metadata if nothing was random
        if not random_any:
            identical(redo(from_md(md), k, md), res, f"measurement {j} repeated from its metadata")
        else:  # and continued with the recorded state of the distortions
            cont = from_md(md)
        follow = go(sm, "m", c["next"])[0]
        if follow is not None and random_any:
            identical(go(cont, "m", c["next"])[0], follow, f"measurement after {j}: a simulation built from the metadata continues differently")
        expect(snapshot(md) == taken[-1][3], "metadata changed by a later measurement")
        for what in o["after"]:
            labels.add(what)
            if what == "config":
                mutate(live_objs(sm), o["mut"])
                for n2 in LIMS if o["mut"] == "limits" else ():
                    setattr(sm, n2, None)
            elif what == "args":
                args[0] += 1.0
                args[1] -= 1.0
                if isinstance(args[2], np.ndarray):
                    args[2] += 1
                elif isinstance(args[2], list):
                    args[2].append(7)
            elif what == "data":
                for x in raw[:3]:
                    if isinstance(x, np.ndarray):
                        x[...] = 5
            elif what == "setter":
                sm.ideal_csd_config, sm.sensor = mk_ideal(c["ideal"]), sens.build(c["sensor"])
                for i, n2 in enumerate(LISTS):
                    setattr(sm, n2, None)
                for i, n2 in enumerate(LIMS):
                    setattr(sm, n2, None)
                random_any = False
            elif what == "measure":
                go(sm, "m", c["next"])
            elif what == "metadata":
                live = state(live_objs(sm))
                mutate(as_objs(md), o["mut"])
                md["sensor"] = None
                md["resolution"] = 3
                expect(state(live_objs(sm)) == live, "changing metadata changed the simulation", mutation=o["mut"])
                taken[-1] = None
                break
            for t in taken:
                if t is not None:
                    expect(snapshot(t[2]) == t[3], f"metadata changed after it had been returned (by: {what} {o['mut'] if what == 'config' else ''})")
    # changing metadata never reaches the simulation: a shadow history without any tampering gives the same data
    tamper = make()
    for j, o in enumerate(c["ops"]):
        a, raw = go(tamper, o["k"], o["q"])
        b, _ = go(shadow, o["k"], o["q"])
        identical(a, b, f"measurement {j} after changes of earlier metadata")
        if raw is not None:
            mutate(as_objs(raw[3]), o["mut"])
            for x in raw[:3]:
                x[...] = 3
            for x in NAMES[o["k"]][:2]:
                raw[3][x] += 4.0
    return data > 0, sorted(labels) + [c["sensor"]["kind"], "random" if dist.random_parts(c["stack"]) else "noise-free"]


PARTS = [
    Part("histories", cases, check, quick=2000, thorough=40000, rule="1-3 measurements or sensor scans; after each, metadata is compared with arguments and configuration, the measurement is repeated (noise-free) or continued (seeded noise) from it, and configuration, arguments, data and metadata are tampered with; non-trivial = data delivered"),
]
