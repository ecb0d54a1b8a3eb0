"""C25: geometric helper functions obey their algebraic laws."""
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from vlib.core import Part, expect, expect_close, raises
from vlib.gens import LOG, U, ints


def dy():
    """Dyadic numbers whose sums and products are exact in floating point."""
    return st.one_of(ints(-6, 6).map(float), ints(-64, 64).map(lambda k: k / 8))


def real():
    return st.one_of(dy(), U(-3, 3), st.tuples(LOG(1e-4, 50), st.sampled_from([1, -1])).map(lambda t: t[0] * t[1]))


def num(v, form):
    return [float, np.float64, lambda x: int(x) if float(x).is_integer() else float(x), lambda x: np.int64(x) if float(x).is_integer() else np.float64(x)][form](v)


# ---------------------------------------------------------------- lines
@st.composite
def below_cases(draw):
    exact = draw(st.booleans())
    s = dy() if exact else real()
    p = [draw(s), draw(s)]
    line = draw(ints(0, 4).flatmap(lambda k: s if k == 0 else st.tuples(st.just(0.0) if k == 1 else s, s).map(list)))
    on = draw(ints(0, 3))
    if on == 0 and exact:  # on the line
        p[1] = line if np.isscalar(line) else line[0] * p[0] + line[1]
    return {"p": p, "l": line, "exact": exact, "form": draw(ints(0, 3)), "bad": draw(st.sampled_from(["1", "12", "list3"]))}


def check_below(c):
    from simcats.support_functions import is_point_below_line

    x, y = map(F, c["p"])
    line = F(c["l"]) if np.isscalar(c["l"]) else F(c["l"][0]) * x + F(c["l"][1])
    f = c["form"]
    arg = num(c["l"], f) if np.isscalar(c["l"]) else tuple(num(v, f) for v in c["l"])
    got = is_point_below_line(tuple(num(v, f) for v in c["p"]), arg)
    expect(isinstance(got, (bool, np.bool_)), "answer is not a truth value", got=got)
    if c["exact"] or abs(float(y - line)) > 1e-9 * (1 + abs(float(y)) + abs(float(line))):
        expect(bool(got) == (y < line), "point below line", got=got, want=y < line, point=c["p"], line=c["l"])
    bad = {"1": (1.0,), "12": "12", "list3": (1.0, 2.0, 3.0)}[c["bad"]]
    expect(raises(lambda: is_point_below_line((0.0, 0.0), bad)), "malformed line accepted", line=bad)
    return True, ["horizontal number" if np.isscalar(c["l"]) else "horizontal" if c["l"][0] == 0 else "sloped", "on" if y == line else "off"]


@st.composite
def cross_cases(draw):
    exact = draw(st.booleans())
    s = dy() if exact else real()
    line = ints(0, 4).flatmap(lambda k: s if k == 0 else st.tuples(st.just(0.0) if k == 1 else s, s).map(list))
    a, b = draw(line), draw(line)
    k = draw(ints(0, 5))
    if k == 0:
        b = a if np.isscalar(a) else list(a)
    if k == 1:
        b = draw(s) if np.isscalar(a) else [a[0], draw(s)]
    return {"a": a, "b": b, "exact": exact, "form": draw(ints(0, 3)), "seq": draw(ints(0, 2)), "bad": draw(ints(0, 1))}


def check_cross(c):
    from simcats.support_functions import line_line_intersection

    mk = lambda l: num(l, c["form"]) if np.isscalar(l) else [tuple, list, np.array][c["seq"]]([num(v, c["form"]) for v in l])  # noqa: E731
    a, b = c["a"], c["b"]
    va, vb = np.isscalar(a), np.isscalar(b)
    parallel = (va and vb) or (not va and not vb and a[0] == b[0])
    if parallel:
        for l1, l2 in ((a, b), (b, a)):
            e = raises(lambda: line_line_intersection(mk(l1), mk(l2)))
            expect(e is not None, "parallel lines got an intersection", a=a, b=b)
            expect(isinstance(e, ValueError), "parallel lines rejected with another error", got=repr(e))
    else:
        if va:
            x = F(a)
            y = F(b[0]) * x + F(b[1])
        elif vb:
            x = F(b)
            y = F(a[0]) * x + F(a[1])
        else:
            x = (F(b[1]) - F(a[1])) / (F(a[0]) - F(b[0]))
            y = F(a[0]) * x + F(a[1])
        cond = 1.0 if va or vb else (abs(a[0]) + abs(b[0]) + 1) / abs(a[0] - b[0])
        tol = 1e-13 * cond * (1 + abs(float(x)) + sum(abs(v) for l in (a, b) for v in np.atleast_1d(l))) * (1 + (0 if va else abs(a[0])) + (0 if vb else abs(b[0])))
        for l1, l2 in ((a, b), (b, a)):
            got = line_line_intersection(mk(l1), mk(l2))
            expect(np.shape(got) == (2,), "an intersection is not one point", got=got)
            expect_close(got, [float(x), float(y)], "intersection of two lines", rtol=0, atol=tol)
    bad = [(1.0, 2.0, 3.0), (1.0,)][c["bad"]]
    expect(raises(lambda: line_line_intersection(bad, mk(a))) and raises(lambda: line_line_intersection(mk(a), bad)), "malformed line accepted", line=bad)
    return True, ["parallel" if parallel else "vertical" if va or vb else "crossing"]


@st.composite
def circle_cases(draw):
    exact = draw(st.booleans())
    s = ints(-16, 16).map(lambda k: k / 4) if exact else U(-3, 3)
    m = draw(st.sampled_from([None, None, 0.0, 0.75, -0.75])) if exact else draw(st.one_of(st.none(), real()))
    cx, cy = draw(s), draw(s)
    r = draw(ints(1, 16).map(lambda k: k / 4)) if exact else draw(LOG(1e-2, 5))
    k = draw(ints(0, 3))
    if m is None:
        line = cx + (r * draw(st.sampled_from([1, -1])) if k == 0 else draw(U(-1.5, 1.5)) * r if not exact else draw(s))
        line = float(line)
    else:
        d = math.sqrt(1 + m * m)  # exactly 1 or 1.25 in the exact part
        off = r * d * (draw(st.sampled_from([1, -1])) if k == 0 else draw(U(-1.5, 1.5)))
        if exact and k:
            off = draw(s)
        line = [m, cy - m * cx + off]
    return {"l": line, "c": [cx, cy], "r": r, "exact": exact, "form": draw(ints(0, 3)), "bad": draw(st.sampled_from([0.0, 0, -0.5, -2]))}


def check_circle(c):
    from simcats.support_functions import line_circle_intersection

    (cx, cy), r, l = map(F, c["c"]), F(c["r"]), c["l"]
    if np.isscalar(l):
        off2 = (F(l) - cx) ** 2
    else:
        m, b = map(F, l)
        off2 = (m * cx - cy + b) ** 2 / (1 + m * m)
    disc = (r * r - off2) / (r * r)  # > 0: two, = 0: one, < 0: none
    arg = num(l, c["form"]) if np.isscalar(l) else tuple(num(v, c["form"]) for v in l)
    got = line_circle_intersection(arg, tuple(num(v, c["form"]) for v in c["c"]), num(c["r"], c["form"]))
    n = 2 if disc > 0 else 1 if disc == 0 else 0
    scale = float(1 + abs(cx) + abs(cy) + r + (abs(F(l)) if np.isscalar(l) else abs(b) + abs(m)))
    if c["exact"] or abs(disc) > 1e-9 * scale**4 / float(r * r):
        expect(len(got) == n, "number of intersections of line and circle", got=len(got), want=n, disc=float(disc))
    for x, y in got:
        t = 1e-6 * scale * scale
        on = float(x) - l if np.isscalar(l) else (l[0] * float(x) + l[1]) - float(y)
        expect(abs(on) <= 1e-9 * scale * scale, "intersection not on the line", off=on)
        d = math.hypot(float(x) - c["c"][0], float(y) - c["c"][1])
        expect(abs(d - c["r"]) <= t * (1e-3 if float(disc) > 0.01 else 1), "intersection not on the circle", got=d, want=c["r"])
    if n == 2 and len(got) == 2 and float(disc) > 0.01:
        gap = math.hypot(got[0][0] - got[1][0], got[0][1] - got[1][1])
        expect(abs(gap - 2 * c["r"] * math.sqrt(float(disc))) <= 1e-7 * scale * scale, "the two intersections are not the ends of the chord", got=gap, want=2 * c["r"] * math.sqrt(float(disc)))
    expect(raises(lambda: line_circle_intersection(arg, (0.0, 0.0), c["bad"])), "circle without positive radius accepted", radius=c["bad"])
    return True, [f"{n} points", "vertical" if np.isscalar(l) else "horizontal" if l[0] == 0 else "sloped"]


# ---------------------------------------------------------------- points
@st.composite
def point_cases(draw):
    n = draw(ints(1, 8))
    ang = st.one_of(st.sampled_from([0.0, math.pi / 4, -math.pi / 4, math.pi / 2, math.pi, 2 * math.pi, -math.pi / 2]), U(-7, 7))
    line = [[draw(real()), draw(real())] for _ in range(2)]
    k = draw(ints(0, 4))
    if k == 0:
        line[1][0] = line[0][0]
    if k == 1:
        line[1][1] = line[0][1]
    if line[0] == line[1]:
        line[1] = [line[0][0] + 1.0, line[0][1]]
    return {"pts": [[draw(real()), draw(real())] for _ in range(n)], "a": draw(ang), "b": draw(ang), "line": line, "t": draw(U(-2, 3)), "shift": [draw(real()), draw(real())], "def": draw(ints(0, 3)) == 0}


def check_points(c):
    from simcats.support_functions import rotate_points, signed_dist_points_line

    p, a, b = np.array(c["pts"]), c["a"], c["b"]
    keep = p.copy()
    s = 1 + np.abs(p).max()
    if c["def"]:
        a = math.pi / 4
        q = rotate_points(p)
    else:
        q = rotate_points(p, a)
    t = 1e-14 * s * 8
    want = np.array([[x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)] for x, y in p])
    expect_close(q, want, "points turned counter-clockwise", rtol=0, atol=t)
    expect_close(np.hypot(*q.T), np.hypot(*p.T), "turning changed a distance to the origin", rtol=0, atol=t)
    expect_close(rotate_points(q, -a), p, "turning back", rtol=0, atol=2 * t)
    expect_close(rotate_points(q, b), rotate_points(p, a + b), "turning twice is not turning by the sum", rtol=0, atol=4 * t)
    expect_close(rotate_points(p[0], a), q[0], "a single point is turned differently", rtol=0, atol=t)
    expect(np.array_equal(p, keep), "the points of the caller were changed")
    L = np.array(c["line"])
    lk = L.copy()
    d = signed_dist_points_line(p, L)
    expect(np.shape(d) == (len(p),), "one distance per point", got=np.shape(d))
    (x0, y0), (x1, y1) = [[F(v) for v in r] for r in c["line"]]
    n = math.hypot(float(x1 - x0), float(y1 - y0))
    S = 1 + np.abs(p).max() + np.abs(L).max()
    tol = 1e-13 * S * max(1.0, S / n)
    want = [float(-((x1 - x0) * (F(y) - y0) - (y1 - y0) * (F(x) - x0))) / n for x, y in c["pts"]]
    expect_close(d, want, "signed distance to a line (positive to the right of its direction)", rtol=0, atol=tol)
    expect_close(signed_dist_points_line(p, L[::-1]), -d, "distance to the reversed line", rtol=0, atol=2 * tol)
    on = L[0] + c["t"] * (L[1] - L[0])
    expect_close(signed_dist_points_line(np.array([on, L[0], L[1]]), L), [0, 0, 0], "distance of points on the line", rtol=0, atol=8 * tol)
    sh = np.array(c["shift"])
    expect_close(signed_dist_points_line(rotate_points(p + sh, b), rotate_points(L + sh, b)), d, "distance after moving and turning everything", rtol=0, atol=40 * tol * (1 + np.abs(sh).max()) ** 2)
    foot = p - (d[:, None] * np.array([L[1, 1] - L[0, 1], -(L[1, 0] - L[0, 0])])) / n
    expect_close(signed_dist_points_line(foot, L), np.zeros(len(p)), "moving a point by its distance does not reach the line", rtol=0, atol=20 * tol)
    expect(np.array_equal(p, keep) and np.array_equal(L, lk), "the arrays of the caller were changed")
    return True, ["vertical" if L[0, 0] == L[1, 0] else "horizontal" if L[0, 1] == L[1, 1] else "sloped"]


# ---------------------------------------------------------------- pixels, smooth steps
@st.composite
def pixel_cases(draw):
    n = draw(ints(1, 300))
    return {"n": n, "i": draw(ints(0, n)), "v": [draw(real()), draw(real())], "form": draw(ints(0, 2)),
            "x": [draw(real()) for _ in range(6)], "p": [[draw(U(-3, 3)), draw(st.one_of(st.just(0.0), st.just(1e-12), LOG(1e-6, 3)))] for _ in range(draw(ints(1, 4)))]}


def check_pixel(c):
    from simcats.support_functions import cauchy_cdf, multi_cauchy_cdf, multi_sigmoid_cdf, pixel_to_volt_1d, sigmoid_cdf

    v = [np.array, list, tuple][c["form"]](c["v"])
    f = lambda i: pixel_to_volt_1d(i, c["n"], v)  # noqa: E731
    a, b = map(F, c["v"])
    s = 1e-14 * (1 + abs(c["v"][0]) + abs(c["v"][1]))
    for i in {0, c["i"], c["n"], c["n"] // 2}:
        expect(abs(float(f(i)) - float(a + (b - a) * i / c["n"])) <= s, "voltage of a pixel", pixel=i, got=f(i), want=float(a + (b - a) * i / c["n"]))
        expect(abs(float(pixel_to_volt_1d(c["n"] - i, c["n"], v[::-1])) - float(f(i))) <= 4 * s, "voltage of the mirrored pixel", pixel=i)
    expect_close(f(np.arange(c["n"])), [float(a + (b - a) * i / c["n"]) for i in range(c["n"])], "voltages of all pixels", rtol=0, atol=s)
    x = np.array(c["x"])
    keep = x.copy()
    for name, one, many, shape in (("sigmoid", sigmoid_cdf, multi_sigmoid_cdf, lambda u: 0.5 * (1 + np.tanh(u))), ("cauchy", cauchy_cdf, multi_cauchy_cdf, lambda u: 0.5 + np.arctan(u) / np.pi)):
        total = np.zeros(len(x))
        for x0, g in c["p"]:
            w = (x > x0) * 1.0 if g < 1e-9 else shape((x - x0) / g)
            got = one(x.copy(), x0, g)
            expect_close(got, w, f"{name} step", rtol=0, atol=1e-12)
            if g > 0:
                o = np.argsort(x)
                expect(np.all(np.diff(got[o]) >= 0) and got.min() >= 0 and got.max() <= 1, f"{name} step is not monotone between 0 and 1")
                if g > 1e-9:
                    expect_close(one(2 * x0 - x, x0, g), 1 - got, f"{name} step is not symmetric about its centre", rtol=0, atol=1e-9)
            total = total + w
        flat = [v for p in c["p"] for v in p]
        expect_close(many(x, flat), total, f"sum of {name} steps", rtol=0, atol=1e-11)
        expect(np.array_equal(x, keep), "the positions of the caller were changed")
        expect(raises(lambda: many(x, flat + [1.0])), f"odd number of parameters of {name} steps accepted")
    return True, ["reverse" if c["v"][0] > c["v"][1] else "forward", f"{len(c['p'])} steps"]


# ---------------------------------------------------------------- units
@st.composite
def unit_cases(draw):
    kind = draw(st.sampled_from(["below", "lines", "circle", "points", "pixels"]))
    c = draw({"below": below_cases, "lines": cross_cases, "circle": circle_cases, "points": point_cases, "pixels": pixel_cases}[kind]())
    return {"kind": kind, "c": c, "k": draw(st.sampled_from([-30, -20, -17, -10, -3, 4, 10, 20]))}


def check_units(case):
    """The same question with all lengths in another unit (a power of two, so that nothing is rounded)."""
    from simcats.support_functions import cauchy_cdf, is_point_below_line, line_circle_intersection, line_line_intersection
    from simcats.support_functions import pixel_to_volt_1d, rotate_points, sigmoid_cdf, signed_dist_points_line

    c, k, u = case["c"], case["kind"], 2.0 ** case["k"]
    ln = lambda l, f: float(l) * f if np.isscalar(l) else (float(l[0]), float(l[1]) * f)  # noqa: E731
    tags = [k, "smaller" if u < 1 else "larger"]
    if k == "below":
        one, two = (is_point_below_line((c["p"][0] * f, c["p"][1] * f), ln(c["l"], f)) for f in (1.0, u))
        on = F(c["p"][1]) == (F(c["l"]) if np.isscalar(c["l"]) else F(c["l"][0]) * F(c["p"][0]) + F(c["l"][1]))
        if on and not c["exact"]:
            return False, tags
        expect(bool(one) == bool(two), "point below line in another unit", point=c["p"], line=c["l"], one=one, two=two)
    elif k == "lines":
        res = []
        for f in (1.0, u):
            try:
                res.append(np.array(line_line_intersection(ln(c["a"], f), ln(c["b"], f)), dtype=float) / f)
            except ValueError:
                res.append(None)
        expect((res[0] is None) == (res[1] is None), "lines are parallel in one unit only", a=c["a"], b=c["b"])
        if res[0] is None:
            return False, tags
        expect_close(res[1], res[0], "intersection of two lines in another unit", rtol=1e-6, atol=1e-9 * (1 + np.abs(res[0]).max()))
    elif k == "circle":
        one, two = (sorted(tuple(float(v) / f for v in p) for p in line_circle_intersection(ln(c["l"], f), (c["c"][0] * f, c["c"][1] * f), c["r"] * f)) for f in (1.0, u))
        if len(one) != len(two) and not c["exact"]:  # a tangent up to rounding
            (cx, cy), l = map(F, c["c"]), c["l"]
            off2 = (F(l) - cx) ** 2 if np.isscalar(l) else (F(l[0]) * cx - cy + F(l[1])) ** 2 / (1 + F(l[0]) ** 2)
            if abs(1 - off2 / F(c["r"]) ** 2) < 1e-6:
                return False, tags
        expect(len(one) == len(two), "number of intersections of line and circle in another unit", one=one, two=two, radius=c["r"] * u)
        if not one:
            return False, tags
        expect_close(np.array(two), np.array(one), "intersection of line and circle in another unit", rtol=1e-6, atol=1e-7 * (1 + np.abs(one).max()))
    elif k == "points":
        p, L = np.array(c["pts"]), np.array(c["line"])
        s = 1 + np.abs(p).max()
        expect_close(rotate_points(p * u, c["a"]) / u, rotate_points(p, c["a"]), "points turned in another unit", rtol=0, atol=1e-12 * s)
        one, two = signed_dist_points_line(p, L), signed_dist_points_line(p * u, L * u) / u
        expect_close(two, one, "distance to a line in another unit", rtol=1e-9, atol=1e-9 * (s + np.abs(L).max()))
    else:
        v = np.array(c["v"])
        i = np.arange(c["n"] + 1)
        expect_close(pixel_to_volt_1d(i, c["n"], v * u) / u, pixel_to_volt_1d(i, c["n"], v), "pixel voltages in another unit", rtol=1e-12, atol=1e-12)
        x = np.array(c["x"])
        steps = [(x0, g) for x0, g in c["p"] if min(g, g * u) > 1e-6]
        for x0, g in steps:
            for f in (sigmoid_cdf, cauchy_cdf):
                expect_close(f(x * u, x0 * u, g * u), f(x, x0, g), "smooth step in another unit", rtol=1e-12, atol=1e-12)
        if not steps:
            return c["n"] > 1, tags
    return True, tags


PARTS = [
    Part("below", below_cases, check_below, quick=3200, thorough=80000, rule="dyadic points and lines compared exactly (incl. points on the line), random reals outside a rounding margin; number types"),
    Part("lines", cross_cases, check_cross, quick=3200, thorough=80000, rule="random, vertical, horizontal, parallel, identical lines against exact rational arithmetic"),
    Part("circle", circle_cases, check_circle, quick=3200, thorough=80000, rule="random and exactly tangent lines; number of points from exact rational arithmetic; points on line and circle, chord length"),
    Part("points", point_cases, check_points, quick=2400, thorough=60000, rule="turning and signed distances against rational arithmetic and under rigid motions"),
    Part("pixels", pixel_cases, check_pixel, quick=1600, thorough=40000, rule="pixel voltages exactly; smooth steps against their formula, symmetric, summed"),
    Part("units", unit_cases, check_units, quick=3200, thorough=80000, rule="the cases of the other parts with all lengths multiplied by a power of two between 2**-30 and 2**20: same answer in the new unit; non-trivial = there is something to compare"),
]
