"""C13: invalid requests are rejected without a trace, valid ones inside the limits succeed (histories against a twin that only sees the valid ones)."""
import numpy as np
from hypothesis import strategies as st

from vlib import build, dist, gens, sens
from vlib.core import Part, expect, expect_equal, raises
from vlib.dist import quiet
from vlib.gens import LOG, U, ints

LIMS = ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2")
LISTS = ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions")


@st.composite
def limit(draw):
    if draw(ints(0, 3)) == 0:
        return None
    a = draw(U(-1, 0.5))
    b = a + draw(LOG(0.05, 1.5))
    return [float(np.round(a, 3)), float(np.round(b, 3))]


frac = st.one_of(st.just(0.0), st.just(1.0), U(0, 1))


@st.composite
def request(draw, what):
    """Positions are fractions of the limits in force when the request is made; bad: what to break."""
    kind = draw(st.sampled_from(["2d", "g1", "g2", "both"]))
    r = {"op": what, "kind": kind, "f": [draw(frac) for _ in range(4)], "v": [draw(frac), draw(frac)] if draw(ints(0, 3)) else None,
         "res": [draw(ints(2, 8)), draw(ints(2, 8))] if kind == "2d" else draw(ints(2, 20)), "form": draw(ints(0, 2)), "rform": draw(ints(0, 2)), "vform": draw(ints(0, 7)), "bad": None}
    if draw(ints(0, 2)):
        b = draw(st.sampled_from(["out", "out", "out", "out", "vout", "vout", "len", "one", "res3", "fixed2d", "res1"]))
        r["bad"] = [b, draw(ints(0, 3)), draw(st.sampled_from([-1, 1])), draw(LOG(1e-7, 3.0)), draw(ints(0, 2))]
    return r


@st.composite
def assignments(draw):
    attr = draw(st.sampled_from(LIMS + LISTS + ("sensor", "ideal_csd_config")))
    if attr in LIMS:
        v = draw(st.sampled_from(["new", "new", "none", "size1", "size3", "tuple", "str", "num", "dict"]))
        return {"op": "set", "attr": attr, "v": v, "to": draw(limit()) or [-0.4, 0.4], "as": draw(st.sampled_from(["list", "array"]))}
    if attr in LISTS:
        v = draw(st.sampled_from(["new", "none", "empty", "other stage", "one wrong", "strings", "classes"]))
        return {"op": "set", "attr": attr, "v": v, "to": draw(dist.stack(1.0, n_max=2))}
    if attr == "sensor":
        return {"op": "set", "attr": attr, "v": draw(st.sampled_from(["new", "none", "str", "peak", "class"])), "to": draw(sensors())}
    return {"op": "set", "attr": attr, "v": draw(st.sampled_from(["new", "none", "str", "sensor", "class"])), "to": draw(dist.toys())}


def sensors():
    return st.one_of(sens.generic(), st.just(None).flatmap(lambda _: sens.scan_sensor([-0.5, 0.5], [-0.5, 0.5], peak_none=True)))


@st.composite
def cases(draw):
    n = draw(ints(1, 7))
    return {"limits": [draw(limit()) for _ in range(4)], "as": draw(st.sampled_from(["list", "array"])), "toy": draw(st.one_of(dist.toys(), dist.toys(), dist.toys(), st.none())),
            "sensor": draw(sensors()), "stack": draw(dist.stack(1.0, n_max=2)),
            "ops": [draw(st.one_of(request("measure"), request("scan"), assignments())) for _ in range(n)]}


def mk_limit(x, how):
    return None if x is None else list(x) if how == "list" else np.array(x)


def build_sim(c):
    from simcats import Simulation

    d = dist.build_stack(c["stack"])
    return Simulation(**{k: mk_limit(v, c["as"]) for k, v in zip(LIMS, c["limits"])}, ideal_csd_config=None if c["toy"] is None else dist.build_toy(c["toy"]), sensor=sens.build(c["sensor"]),
                      **dict(zip(LISTS, (d["occ"], d["pot"], d["resp"]))))


def pos(lim, f):
    lo, hi = lim or (-1.0, 1.0)
    return lo if f == 0 else hi if f == 1 else lo + f * (hi - lo)


def whole(form, x, lim):
    lo, hi = lim or (-1.0, 1.0)
    if x is None or form > 3 or not lo <= x <= hi or not lo <= round(x) <= hi:
        return x
    return (int, np.int64, np.float64, np.int32)[form](round(x))


def realise(op, state):
    """The arguments of a request under the current limits and whether it is well-formed (the rules of the interface, written out)."""
    own, other = (state["lim"][:2], state["lim"][2:]) if op["op"] == "measure" else (state["lim"][2:], state["lim"][:2])
    f = op["f"]
    r = [[pos(own[0], f[0]), pos(own[0], f[1])], [pos(own[1], f[2]), pos(own[1], f[3])]]
    for i in (0, 1):
        if r[i][0] == r[i][1]:
            r[i][1] = pos(own[i], 0.5 if f[2 * i] != 0.5 else 0.25)
    if op["kind"] == "g1":
        r[1][1] = r[1][0]
    if op["kind"] == "g2":
        r[0][1] = r[0][0]
    v = None if op["v"] is None else [pos(other[0], op["v"][0]), pos(other[1], op["v"][1])]
    res = op["res"]
    if op["bad"]:
        b, i, side, d, k = op["bad"]
        if b == "out":
            lo, hi = own[i // 2] or (-1.0, 1.0)
            r[i // 2][i % 2] = lo - d if side < 0 else hi + d
        elif b == "vout":
            v = v or [pos(other[0], 0.5), pos(other[1], 0.5)]
            lo, hi = other[i % 2] or (-1.0, 1.0)
            v[i % 2] = lo - d if side < 0 else hi + d
        elif b == "len":
            r[i % 2] = (r[i % 2] + [r[i % 2][0]])[:[1, 3, 0][k]]
        elif b == "one":
            v = v or [pos(other[0], 0.5), pos(other[1], 0.5)]
            v[i % 2] = None
        elif b == "res3":
            res = [5, 5, 5]
        elif b == "fixed2d":
            res = [4, 5]
            r[i % 2][1] = r[i % 2][0]
        elif b == "res1":
            res = [[1, 5], [5, 1], [0, 5], [5, -1]][i]
    if op["vform"] == 7 and not op["bad"]:  # swept from whole number to whole number
        for i in (0, 1):
            k = [int(round(x)) for x in r[i]]
            if (k[0] == k[1]) == (r[i][0] == r[i][1]) and all(own[i] is None or own[i][0] <= x <= own[i][1] for x in k):
                r[i] = k
    # a fixed voltage may be a whole number of any kind
    v = v and [whole(op["vform"], x, lim) for x, lim in zip(v, other)]
    # well-formed?
    within = lambda x, lim: lim is None or lim[0] <= x <= lim[1]  # noqa: E731
    ok = state["ideal"] if op["op"] == "measure" else state["scan"]
    ok = ok and len(r[0]) == 2 and len(r[1]) == 2
    ok = ok and all(within(x, own[i]) for i in (0, 1) for x in r[i])
    if v is not None:
        ok = ok and None not in v and all(within(v[i], other[i]) for i in (0, 1))
    if isinstance(res, list):
        ok = ok and len(res) == 2 and min(res) > 1 and r[0][0] != r[0][-1] and r[1][0] != r[1][-1]
    return r, v, res, bool(ok)


def call(sm, op, r, v, res):
    a = [{0: np.array, 1: list, 2: tuple}[op["rform"]](x) for x in r]
    v = v or [None, None]
    if isinstance(res, list) and len(res) == 3:
        rs = np.array(res)
    else:
        rs = dist.resolution(res, op["form"])
    if op["op"] == "measure":
        return quiet(sm.measure, a[0], a[1], v[0], v[1], resolution=rs)
    return quiet(sm.measure_sensor_scan, a[0], a[1], v[0], v[1], resolution=rs)


def value(op):
    """(value to assign, whether it is admissible)"""
    from simcats.distortions import OccupationTransitionBlurringGaussian
    from simcats.sensor import SensorGeneric

    a, v = op["attr"], op["v"]
    if a in LIMS:
        bad = {"size1": np.array([0.1]), "size3": [0.1, 0.2, 0.3], "tuple": 0.5, "str": "ab", "num": 3, "dict": {0: 1, 1: 2}}
        return (mk_limit(op["to"], op["as"]), True) if v == "new" else (None, True) if v == "none" else (bad[v], False)
    if a in LISTS:
        d = dist.build_stack(op["to"])
        own = [d["occ"], d["pot"], d["resp"]][LISTS.index(a)] or []
        other = dist.build_resp({"k": "white", "sigma": 0.1, "seed": 1}) if a != LISTS[2] else dist.build_occ({"k": "gauss", "sigma": 0.1})
        return {"new": (own, True), "none": (None, True), "empty": ([], True), "other stage": ([other], False), "one wrong": (own + [other], False),
                "strings": (["x"], False), "classes": ([OccupationTransitionBlurringGaussian], False)}[v]
    if a == "sensor":
        return (sens.build(op["to"]), True) if v == "new" else (None, True) if v == "none" else ({"str": "sensor", "peak": sens.build_peak({"t": "L", "mu0": 0, "w": 1, "height": 1, "offset": 0}), "class": SensorGeneric}[v], False)
    return (dist.build_toy(op["to"]), True) if v == "new" else (None, True) if v == "none" else ({"str": "ideal", "sensor": SensorGeneric(), "class": dist.Toy}[v], False)


def check(c):
    sm, twin = build_sim(c), build_sim(c)
    state = {"lim": list(c["limits"]), "ideal": c["toy"] is not None, "scan": c["sensor"]["kind"] == "scan"}
    labels, rejected, done = set(), 0, 0
    for i, op in enumerate(c["ops"]):
        if op["op"] == "set":
            val, ok = value(op)
            if not ok:
                old, text = getattr(sm, op["attr"]), repr(getattr(sm, op["attr"]))
                expect(raises(lambda: setattr(sm, op["attr"], val), ValueError) is not None, f"operation {i}: inadmissible value accepted", attr=op["attr"], value=repr(val))
                new = getattr(sm, op["attr"])
                expect(new is old and repr(new) == text, f"operation {i}: rejected assignment changed the value", attr=op["attr"])
                labels.add("assignment rejected")
                rejected += 1
                continue
            setattr(sm, op["attr"], val)
            setattr(twin, op["attr"], value(op)[0])
            labels.add("assignment")
            got = getattr(sm, op["attr"])
            if op["attr"] in LIMS:
                state["lim"][LIMS.index(op["attr"])] = None if val is None else [float(x) for x in val]
                expect((got is None) == (val is None) and (val is None or np.array_equal(got, val)), f"operation {i}: limits were not taken over")
            elif op["attr"] in LISTS:
                expect((got is None) == (val is None) and (val is None or [type(x) for x in got] == [type(x) for x in val]), f"operation {i}: distortions were not taken over")
            elif op["attr"] == "sensor":
                state["scan"] = val is not None and op["to"]["kind"] == "scan"
                expect(got is not None and (val is None or repr(got) == repr(val)), f"operation {i}: sensor was not taken over")
            else:
                state["ideal"] = val is not None
                expect((got is None) == (val is None) and repr(got) == repr(val), f"operation {i}: model was not taken over")
            continue
        r, v, res, ok = realise(op, state)
        name = op["op"] + (f" {op['bad'][0]}" if op["bad"] and not ok else "")
        if not ok:
            before = repr(sm)
            e = raises(lambda: call(sm, op, r, v, res), Exception)
            expect(isinstance(e, ValueError), f"operation {i}: malformed request was not rejected with a ValueError", request=(op["op"], r, v, res), limits=state["lim"], outcome=repr(e))
            expect(repr(sm) == before, f"operation {i}: rejected request changed the simulation")
            labels.add(name + " rejected")
            rejected += 1
            continue
        try:
            got = call(sm, op, r, v, res)
        except Exception as e:  # noqa: BLE001
            expect(False, f"operation {i}: well-formed request failed with {type(e).__name__}: {e}", request=(op["op"], r, v, res), limits=state["lim"])
        want = call(twin, op, r, v, res)
        sh = tuple(res[::-1]) if isinstance(res, list) else (res,)
        shapes = (sh, sh + (2,), sh) if op["op"] == "measure" else (sh, sh, sh)
        for a, b, s in zip(got[:3], want[:3], shapes):
            expect(np.shape(a) == s, f"operation {i}: wrong shape of the result", got=np.shape(a), want=s)
            expect_equal(a, b, f"operation {i}: result differs from a simulation that never saw the rejected requests")
        labels.add(name)
        done += 1
    return rejected > 0 or done > 0, sorted(labels)


# ---------------------------------------------------------------- ideal data
@st.composite
def ideal_cases(draw):
    m = draw(gens.models(n_min=3, n_max=5))
    asks = []
    for _ in range(draw(ints(1, 4))):
        two = draw(st.booleans())
        r = draw(gens.windows(m, top=False, far=False)) if two else draw(gens.lines(m, top=False, far=False))[:2]
        q = {"r": [list(map(float, x)) for x in r], "res": draw(gens.res2d(2, 25)) if two else draw(ints(1, 60)), "form": draw(ints(0, 2)), "rform": draw(ints(0, 2)), "bad": None}
        if draw(ints(0, 3)):
            i = draw(ints(0, 3))
            b = draw(st.sampled_from(["fixed", "res1", "res3", "long", "short"]))
            q["bad"] = b
            if b in ("fixed", "res1") and not two:
                q["res"] = [7, 6]
                q["r"] = [[a, b + 0.01] if a == b else [a, b] for a, b in q["r"]]
            if b == "fixed":
                for j in (0, 1):
                    if i in (j, 2, 3):
                        q["r"][j][1] = q["r"][j][0]
            if b == "res1":
                q["res"][i % 2] = [1, 0, -2, 1][i]
                if i == 3:
                    q["res"] = [1, 1]
            if b == "res3":
                q["res"] = [5, 4, 3 + i][:3]
            if b == "long":
                q["r"][i % 2] = q["r"][i % 2] + [q["r"][i % 2][i // 2]]
            if b == "short":
                q["r"][i % 2] = q["r"][i % 2][:1]
        asks.append(q)
    return {"model": m, "asks": asks, "fn": draw(st.booleans())}


def ask(c, obj, q):
    from simcats.ideal_csd.geometric import ideal_csd_geometric

    m = c["model"]
    r = [{0: np.array, 1: list, 2: tuple}[q["rform"]](x) for x in q["r"]]
    res = dist.resolution(q["res"], q["form"])
    if obj is not None:
        return obj.get_csd_data(r[0], r[1], res)
    return ideal_csd_geometric(tct_params=[np.array(p) for p in m["tct"]], volt_limits_g1=r[0], volt_limits_g2=r[1], resolution=res, rotation=m["rotation"], lut_entries=m["lut"], cdf_type=m["cdf"], cdf_gamma_factor=m["factor"])


def check_ideal(c):
    obj = None if c["fn"] else build.ideal(c["model"])
    tags, done = set(), 0
    for i, q in enumerate(c["asks"]):
        if q["bad"]:
            before = repr(obj)
            e = raises(lambda: ask(c, obj, q), Exception)
            expect(isinstance(e, ValueError) or (q["bad"] == "short" and isinstance(e, IndexError)), f"request {i}: malformed request for ideal data was not rejected with a ValueError", request=q, outcome=repr(e))
            expect(repr(obj) == before, f"request {i}: rejected request changed the model")
            tags.add(q["bad"])
            done += 1
            continue
        try:
            got = ask(c, obj, q)
        except IndexError:
            gens.rejected(c["model"], *q["r"], q["res"])
            continue
        want = ask(c, build.ideal(c["model"]), q)
        sh = tuple(q["res"][::-1]) if isinstance(q["res"], list) else (q["res"],)
        expect(np.shape(got[0]) == sh + (2,) and np.shape(got[1]) == sh, f"request {i}: wrong shape of the result")
        for a, b in zip(got, want):
            expect_equal(a, b, f"request {i}: result differs from a model that never saw the rejected requests")
        done += 1
    return done > 0, sorted(tags)


PARTS = [Part("history", cases, check, quick=5000, thorough=90000,
              rule="1-7 operations (measurements, sensor scans, assignments; two thirds of the requests broken in one of 11 ways, positions on or just beyond the limits) against a written-out rule set and a twin simulation that only gets the valid ones; non-trivial = at least one operation decided"),
         Part("ideal", ideal_cases, check_ideal, quick=1000, thorough=20000, rule="1-4 requests of ideal data from a geometric model (object or function), three quarters broken in one of 5 ways; non-trivial = a rejection or a result judged")]
ASSUMPTIONS = ["scans with both gates fixed and integer types other than int as resolution are not judged"]
