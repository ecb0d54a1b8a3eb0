"""C06: electrons are added one at a time as gate voltages rise."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import build, gens
from vlib.core import Part, expect
from vlib.models import grid


def falls(m):
    """All transition lines (straight flanks) fall in voltage space."""
    d = m["rotation"] + math.pi / 4
    return all(abs(math.atan(s) + d) < math.pi / 4 - 0.01 for p in m["tct"] for s in (p[2], p[3]))


@st.composite
def cases(draw, one=False, large=False):
    m = draw(gens.models(n_max=12 if large else 6).filter(falls))
    if large:
        m["lut"] = 12000
    if one:
        r1, r2, kind = draw(gens.lines(m, top=False))
        res = draw(gens.ints(500, 4000) if large else gens.ints(1, 80))
    else:
        (r1, r2), kind = draw(gens.windows(m, top=False)), "2d"
        res = draw(gens.res2d(60, 220) if large else gens.res2d(2, 45))
    return {"model": m, "r1": r1, "r2": r2, "res": res, "kind": kind}


def check(c):
    m, r1, r2 = c["model"], np.array(c["r1"]), np.array(c["r2"])
    if gens.fine(m, c["r1"], c["r2"], c["res"]):
        return False, [gens.FINE]
    rr = np.array(c["res"]) if isinstance(c["res"], list) else c["res"]
    try:
        occ, mask = build.ideal(m).get_csd_data(r1, r2, rr)
    except IndexError:
        gens.rejected(m, r1, r2, rr)
        return False, ["rejected"]
    occ, mask = np.asarray(occ, float), np.asarray(mask).astype(int)
    expect(np.isfinite(occ).all(), "occupation is not finite")
    expect(occ.min() >= -1e-9, "negative occupation", got=occ.min())
    tot = occ.sum(-1)
    it = np.rint(tot).astype(int)
    expect(np.abs(tot - it).max() < 1e-6, "total electron number is not an integer", got=tot.flat[np.argmax(np.abs(tot - it))])
    expect((occ <= tot[..., None] + 1e-9).all(), "a dot holds more electrons than both together")
    ref = build.reference(m)
    _, amb = ref.total(grid(r1, r2, rr), tol=1e-9)
    if occ.ndim == 3:
        for ax, r in ((1, r1), (0, r2)):
            d = np.diff(it, axis=ax)
            # marks are accurate to one pixel only: compare the unmarked, unambiguous pixels of each line
            t, ok = np.moveaxis(it, ax, -1), np.moveaxis((mask == 0) & ~amb, ax, -1)
            if r[-1] < r[0]:
                t, ok = t[:, ::-1], ok[:, ::-1]
            top = np.maximum.accumulate(np.where(ok, t, -1), axis=-1)
            w = ok & (t < top)
            if w.any():
                i = np.argwhere(w)[0]
                expect(False, "electron number falls although a gate voltage rises", axis=ax, line=int(i[0]), totals=t[i[0]], marks=np.moveaxis(mask, ax, -1)[i[0]])
            k0, k1 = np.take(mask, range(1, mask.shape[ax]), ax), np.take(mask, range(mask.shape[ax] - 1), ax)
            w = (d != 0) & (k0 == 0) & (k1 == 0)
            expect(not w.any(), "electron number changes without a transition mark", axis=ax, pixel=np.argwhere(w)[:1].tolist())
    else:
        s1, s2 = np.sign(r1[1] - r1[0]), np.sign(r2[1] - r2[0])
        d = np.diff(it)
        a = amb[1:] | amb[:-1]
        if s1 * s2 >= 0 and (s1 or s2):
            w = (d * (s1 or s2) < 0) & ~a
            expect(not w.any(), "electron number falls although the gate voltages rise", at=np.argwhere(w)[:1].tolist(), totals=it)
        w = (d != 0) & (mask[1:] == 0) & (mask[:-1] == 0)
        expect(not w.any(), "electron number changes without a transition mark", at=np.argwhere(w)[:1].tolist())
    return len(np.unique(it)) > 1, [c["kind"], m["cdf"], f"max {min(int(it.max()), 6)}"]


RULE = "transition stacks whose lines fall in voltage space; windows/lines of any direction; non-trivial = several electron numbers occur"
PARTS = [
    Part("diagram", cases, check, quick=2400, thorough=40000, rule=RULE),
    Part("scan", lambda: cases(True), check, quick=2400, thorough=40000, rule=RULE),
    Part("large", lambda: cases(large=True), check, quick=48, thorough=1200, rule=RULE + " (60-220 pixels per axis, up to 12 curves)"),
    Part("long", lambda: cases(True, large=True), check, quick=80, thorough=2000, rule=RULE + " (500-4000 points, up to 12 curves)"),
]
ASSUMPTIONS = ["two-dimensional windows whose pixels are finer than the steps of the lookup table are not judged", "marked pixels (marks are accurate to one pixel) and points closer to a curve than the lookup-table tolerance are exempt from the monotonicity comparison"]
