"""Hypothesis strategies shared by the checks. All cases are plain JSON values."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import expect
from vlib.models import ChargeModel, Tct, grid, rot


N = 2**20


def U(lo, hi):
    """Reals in [lo, hi) on a fine grid; shrinks towards lo.

    The integer is spread over the grid by a bijection, so that the preference of Hypothesis for small integers does not
    turn into a preference for the lower end of the range.
    """
    return st.integers(0, N - 1).map(lambda k: lo + (hi - lo) * ((k * 648055) % N / N))


def LOG(lo, hi):
    return U(math.log(lo), math.log(hi)).map(math.exp)


def Z(lo, hi):
    """Like U, but one in ten values is exactly zero and one in ten is a round number."""
    special = {9: st.just(0.0 if lo <= 0 <= hi else float(lo)), 8: U(lo, hi).map(lambda v: min(max(float(np.round(v, 1)), lo), hi))}
    return st.integers(0, 9).flatmap(lambda k: special.get(k) or U(lo, hi))


def pairs(lo, hi):
    """Two values, now and then both zero or both equal."""
    special = {11: st.just([0.0, 0.0]), 10: Z(lo, hi).map(lambda v: [v, v])}
    return st.integers(0, 11).flatmap(lambda k: special.get(k) or st.tuples(Z(lo, hi), Z(lo, hi)).map(list))


def ints(lo, hi):
    return st.integers(lo, hi)


def maybe(s, p_none=0.5):
    return st.one_of(st.none(), s)


seeds = st.integers(0, 2**32 - 1)


@st.composite
def tct_sets(draw, n_min=3, n_max=6, bend="any"):
    """A physically ordered set of TCTs: n-th transition has n maxima, curves stacked without crossing near the stack."""
    n = draw(ints(n_min, n_max))
    L0, R0 = draw(LOG(0.004, 0.03)), draw(LOG(0.004, 0.03))
    gl, gr = draw(U(0.05, 0.9)), -draw(U(0.05, 0.9))
    same = draw(st.booleans())
    damp = draw(U(0.8, 1.0))
    kind = draw(st.sampled_from(["small", "wide", "any", "any"] + (["none"] if bend == "any" else [])))
    xc, yc = draw(U(-0.1, 0.1)), draw(U(-0.25, 0.05))
    out = []
    prev = None
    for i in range(n):
        L, R = (L0, R0) if same else (L0 * draw(U(0.8, 1.25)), R0 * draw(U(0.8, 1.25)))
        if i > 0:
            gl, gr = gl * damp, gr * damp
        if kind == "none":
            dl = dr = 0.0
        else:
            lo, hi = {"small": (1e-3, 0.05), "wide": (0.3, 0.499), "any": (0.005, 0.499)}[kind]
            dl, dr = L * draw(U(lo, hi)), R * draw(U(lo, hi))
        if prev is not None:
            gap = draw(U(0.1, 0.5)) * min(L * gl, R * -gr) + 2e-4
            if i == n - 1 and draw(ints(0, 7)) == 7:  # much room below the last transition: long bands in the scans
                gap *= draw(LOG(3, 60))
            xc = prev.xc - R + draw(U(-0.5, 0.5)) * gap
            # lift this curve until it lies above the previous one everywhere
            p0 = [L, R, gl, gr, xc - dl, -dl * gl, xc + dr, dr * gr]
            t = Tct(p0, i + 1)
            P = (L + R) * (i + 2)
            xs = np.linspace(xc - P, xc + P, 400)
            yc = float(np.max(prev(xs) - t(xs))) + gap
        if kind == "none":
            p = [L, R, gl, gr, xc, yc, xc, yc]
        else:
            p = [L, R, gl, gr, xc - dl, yc - dl * gl, xc + dr, yc + dr * gr]
        prev = Tct(p, i + 1)
        out.append([float(v) for v in p])
    return {"params": out, "kind": kind}


@st.composite
def models(draw, n_min=3, n_max=6, lut=True, bend="any", rotations="any"):
    """Configuration of an ideal CSD model."""
    s = draw(tct_sets(n_min, n_max, bend))
    if rotations == "any":
        r = draw(st.one_of(st.just(-math.pi / 4), st.just(-math.pi / 4), U(-math.pi / 4 - 0.35, -math.pi / 4 + 0.35)))
    else:
        r = -math.pi / 4
    return {"tct": s["params"], "bend": s["kind"], "rotation": r,
            "lut": draw(st.sampled_from([1000, 200, 1500])) if lut else None,
            "cdf": draw(st.sampled_from(["sigmoid", "cauchy"])),
            "factor": draw(maybe(U(0.8, 10.0)))}


@st.composite
def anchor_points(draw, model, top=True):
    """A voltage point near an interesting place of the model: on a curve, near a bend, on an interdot line, at the top."""
    n = len(model["tct"])
    w = draw(ints(0, 15))
    where = "top" if top and w == 15 else ["interdot", "bend", "curve"][w % 3]
    k = n - 1 if where == "top" else draw(ints(0, max(0, n - 2)))
    t = Tct(model["tct"][k], k + 1)
    if where == "interdot" and k < n - 1:
        up = Tct(model["tct"][k + 1], k + 2)
        i = draw(ints(0, k))
        (x0, y0), (x1, y1) = t.vertex(2 * i), up.vertex(2 * i + 1)
        f = draw(U(0.0, 1.0))
        x, y = x0 + f * (x1 - x0) + draw(U(-1, 1)) * t.dr, y0 + f * (y1 - y0)
    else:
        vx, vy = t.vertex(draw(ints(0, 2 * k)))
        x = vx + draw(U(-1.0, 1.0)) * ((t.L + t.R) / 2 if where != "bend" else max(t.dl, t.dr))
        y = float(t(x))
    return rot(np.array([x, y]), model["rotation"]).tolist()


def extent(model, c, far=True):
    """Window extents: mostly such that the window stays below the last transition, from a few percent of the distance on."""
    x, y = rot(np.array(c), -model["rotation"])
    n = len(model["tct"])
    head = max(2e-4, float(Tct(model["tct"][-1], n)(x)) - y)
    near = U(0.2 * head, 1.3 * head)
    return ints(0, 7).flatmap(lambda k: LOG(0.0005, 0.06) if k == 7 else near) if far else near


@st.composite
def windows(draw, model, aspect=6.0, top=True, far=True):
    """Sweep ranges (r1, r2) around a place of interest, in any of the four direction combinations."""
    c = draw(anchor_points(model, top))
    w = draw(extent(model, c, far))
    a = math.sqrt(draw(LOG(1 / aspect, aspect)))
    w1, w2 = w * a, w / a
    f1, f2 = draw(U(0.1, 0.9)), draw(U(0.1, 0.9))
    r1 = [c[0] - f1 * w1, c[0] + (1 - f1) * w1]
    r2 = [c[1] - f2 * w2, c[1] + (1 - f2) * w2]
    if draw(st.booleans()):
        r1 = r1[::-1]
    if draw(st.booleans()):
        r2 = r2[::-1]
    return [r1, r2]


@st.composite
def lines(draw, model, top=True, far=True):
    """A straight 1D scan: one gate swept or both, any direction."""
    c = draw(anchor_points(model, top))
    w = draw(extent(model, c, far))
    kind = draw(st.sampled_from(["g1", "g2", "diag", "anti", "any"]))
    f = draw(U(0.1, 0.9))
    th = {"g1": 0.0, "g2": math.pi / 2, "diag": math.pi / 4, "anti": -math.pi / 4}.get(kind)
    if th is None:
        th = draw(U(-math.pi / 2, math.pi / 2))
    dx, dy = w * math.cos(th), w * math.sin(th)
    r1 = [c[0] - f * dx, c[0] + (1 - f) * dx]
    r2 = [c[1] - f * dy, c[1] + (1 - f) * dy]
    if kind == "g1":
        r2 = [c[1], c[1]]
    if kind == "g2":
        r1 = [c[0], c[0]]
    if draw(st.booleans()):
        r1, r2 = r1[::-1], r2[::-1]
    return [r1, r2, kind]


def res2d(lo=4, hi=40):
    return st.tuples(ints(lo, hi), ints(lo, hi)).map(list)


FINE = "pixels finer than the lookup table"


def fine(model, r1, r2, res):
    """Whether the steps of the lookup table are not small against the pixels (the drawn curve would have gaps)."""
    if not model["lut"] or not isinstance(res, (list, np.ndarray)) or len(res) < 2:
        return False
    px = min(abs(r[1] - r[0]) / (k - 1) for r, k in zip((r1, r2), res))
    return px < 2.5 * max(Tct(p, i + 1).lut_tol(model["lut"]) for i, p in enumerate(model["tct"]))


def rejected(ideal, r1, r2, res):
    """A rejection is legitimate only when the window (or the pixels its transitions are drawn into) reaches the last
    transition of a geometric model."""
    m = ideal.get("model", ideal) if ideal else None
    expect(m is not None and "tct" in m, "a scan of a model without bounds was rejected", r1=r1, r2=r2)
    r1, r2 = [float(x) for x in r1], [float(x) for x in r2]
    if fine(m, r1, r2, res):
        return True
    ref = ChargeModel(m["tct"], rotation=m["rotation"], lut=m["lut"])
    n = len(m["tct"])
    g = grid(r1, r2, res)
    if g.ndim == 3:
        span = [abs(r[1] - r[0]) / max(1, int(k) - 1) for r, k in zip((r1, r2), res)]
        g = grid([min(r1) - span[0], max(r1) + span[0]], [min(r2) - span[1], max(r2) + span[1]], [4 * int(res[0]), 4 * int(res[1])])
    tot, amb = ref.total(g, tol=1e-9)
    expect(tot.max() >= n or amb[tot >= n - 1].any(), "a scan inside the defined transitions was rejected", r1=r1, r2=r2)
    return True


# ---------------------------------------------------------------- memory layouts
LAYOUTS = ["C", "C", "F", "view", "flip", "wide"]
layouts = st.sampled_from(LAYOUTS)


def layout(a, kind):
    """The same values in another memory layout: row-major, column-major, every second element of a larger buffer,
    a view running backwards, or a window of a larger array."""
    a = np.asarray(a)
    if kind == "F":
        return np.asfortranarray(a.copy())
    if kind == "view":
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "flip":
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return a[rev].copy()[rev]
    if kind == "wide":
        b = np.zeros(tuple(n + 3 for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(1, n + 1) for n in a.shape)]
        v[...] = a
        return v
    return a.copy()
