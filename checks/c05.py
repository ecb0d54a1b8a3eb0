"""C05: a transition curve is the configured staircase with quadratic Bezier bends."""
import numpy as np
from hypothesis import strategies as st

from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions, tct_bezier
from vlib import gens
from vlib.core import Part, expect, expect_close
from vlib.models import Tct, rot


@st.composite
def params(draw, none_ok=True):
    L, R = draw(gens.LOG(1e-3, 2.0)), draw(gens.LOG(1e-3, 2.0))
    gl, gr = draw(gens.U(0.02, 1.5)), -draw(gens.U(0.02, 1.5))
    dl, dr = L * draw(gens.U(1e-3, 0.499)), R * draw(gens.U(1e-3, 0.499))
    xc, yc = draw(gens.U(-3, 3)), draw(gens.U(-3, 3))
    if none_ok and draw(gens.ints(0, 9)) == 9:
        return [L, R, gl, gr, xc, yc, xc, yc]
    return [L, R, gl, gr, xc - dl, yc - dl * gl, xc + dr, yc + dr * gr]


@st.composite
def curve_cases(draw, lut):
    p = draw(params(none_ok=lut))
    m = draw(st.one_of(st.none(), gens.ints(1, 6)))
    # positions relative to bends: (bend index, fraction of the distance to the neighbour)
    k = draw(st.lists(st.tuples(gens.ints(-4, 14), gens.U(-1.0, 1.0)), min_size=1, max_size=12))
    return {"p": p, "m": m, "at": k, "lut": draw(st.sampled_from([100, 500, 1000, 3000])) if lut else None,
            "scalar": draw(gens.ints(0, 3)) == 0, "far": draw(gens.ints(0, 5)) == 0,
            "many": [draw(gens.ints(500, 20000)), draw(gens.seeds)] if lut and draw(gens.ints(0, 39)) == 0 else None}


def positions(t, at, far, many=None):
    xs = []
    for i, f in at:
        vx = t.vertex(i)[0]
        nx = t.vertex(i + 1)[0] if f >= 0 else t.vertex(i - 1)[0]
        # half of the positions inside the bend zone
        xs.append(vx + f * abs(nx - vx) if i % 2 else vx + f * (t.dr if f >= 0 else t.dl))
    if far:
        xs += [t.vertex(-40)[0], t.vertex(60)[0]]
    if many:
        r = np.random.default_rng(many[1])
        xs += list(r.uniform(t.vertex(-4)[0], t.vertex(14)[0], many[0]))
    return np.array(xs)


def check_curve(c):
    t = Tct(c["p"], c["m"])
    x = positions(t, c["at"], c["far"], c["many"])
    scale = max(1.0, np.abs(x).max(), abs(t.yc) + 60 * (t.L + t.R) * 1.5 * c["far"])
    before = x.copy()
    p = np.array(c["p"])
    kw = {} if c["m"] is None else {"max_peaks": c["m"]}
    got = tct_bezier(tct_params=p, x_eval=x, lut_entries=c["lut"], **kw)
    expect(np.array_equal(x, before), "positions handed in were modified")
    expect(np.array_equal(p, np.array(c["p"])), "parameters handed in were modified")
    want = t(x)
    tol = t.lut_tol(c["lut"]) + (1e-9 if c["lut"] else 2e-7) * scale
    expect_close(got, want, "curve differs from the configured staircase", rtol=0, atol=tol)
    if c["scalar"]:
        y = tct_bezier(tct_params=p, x_eval=float(x[0]), lut_entries=c["lut"], **kw)
        expect(np.ndim(y) == 0, "a single position did not give a single value")
        expect_close(y, got[0], "single position differs from the same position in an array", rtol=0, atol=1e-12 * scale)
    labels = ["unlimited" if c["m"] is None else f"peaks{min(c['m'], 3)}"]
    inb = False
    for i, f in c["at"]:
        if i % 2 == 0 and t.dl > 0 and (c["m"] is None or 0 <= i <= 2 * c["m"] - 2):
            inb = True
    if c["m"] is not None and (x < t.vertex(0)[0]).any():
        labels.append("left tail")
    if c["m"] is not None and (x > t.vertex(2 * c["m"] - 2)[0]).any():
        labels.append("right tail")
    if inb:
        labels.append("in bend")
    return inb or len(labels) > 1, labels


@st.composite
def anchor_cases(draw):
    same = draw(st.booleans())
    n = draw(gens.ints(1, 4))
    return {"ps": [draw(params()) for _ in range(n)], "max_peaks": draw(gens.ints(1, 4)), "rotation": draw(st.one_of(st.just(None), gens.U(-3.2, 3.2))),
            "form": draw(st.sampled_from(["list", "2d", "lists"] + (["one", "onelist"] if n == 1 else []))), "at": draw(st.lists(st.tuples(gens.ints(0, 6), gens.U(-1, 1)), min_size=1, max_size=5))}


def check_anchors(c):
    ps = [np.array(p) for p in c["ps"]]
    arg = {"list": ps, "2d": np.array(c["ps"]), "lists": [list(p) for p in c["ps"]], "one": ps[0], "onelist": list(c["ps"][0])}[c["form"]]
    kw = {} if c["rotation"] is None else {"rotation": c["rotation"]}
    d = calculate_all_bezier_anchors(tct_params=arg, max_peaks=c["max_peaks"], **kw)
    ang = -np.pi / 4 if c["rotation"] is None else c["rotation"]
    want_keys = [c["max_peaks"] + i for i in range(len(ps))]
    expect(sorted(d.keys()) == want_keys, "transition numbers of the anchors are wrong", got=sorted(d), want=want_keys)
    for i, p in enumerate(ps):
        t = Tct(p, c["max_peaks"] + i)
        w = rot(t.bends(), ang)
        expect_close(d[c["max_peaks"] + i], w, f"anchors of transition {c['max_peaks'] + i} differ", rtol=0, atol=1e-9 * max(1, np.abs(w).max()))
    f = initialize_tct_functions(tct_params=arg, max_peaks=c["max_peaks"])
    expect(sorted(f.keys()) == want_keys, "transition numbers of the functions are wrong", got=sorted(f), want=want_keys)
    for i, p in enumerate(ps):
        t = Tct(p, c["max_peaks"] + i)
        x = positions(t, c["at"], False)
        got = f[c["max_peaks"] + i](x_eval=x, lut_entries=1000)
        expect_close(got, t(x), "initialised transition function differs from the curve with its number of maxima", rtol=0, atol=t.lut_tol(1000) + 1e-9 * max(1, np.abs(x).max()))
    return len(ps) > 1 or c["max_peaks"] > 1, [c["form"], f"n{len(ps)}"]


PARTS = [
    Part("lookup", lambda: curve_cases(True), check_curve, quick=8000, thorough=150000,
         rule="random transition (lengths, slopes, bend widths, number of maxima or unlimited), positions inside bends, on flanks, in both tails and far away, lookup table of 100..3000 entries; non-trivial = a position inside a bend or in a tail"),
    Part("explicit", lambda: curve_cases(False), check_curve, quick=480, thorough=8000, rule="as [lookup] with the exact solution"),
    Part("anchors", anchor_cases, check_anchors, quick=3000, thorough=40000,
         rule="1-4 transitions in every accepted container form, any rotation and first number of maxima; non-trivial = several transitions or several maxima"),
]
