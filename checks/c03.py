"""C03: 1D scans agree with the pointwise charge model."""
import numpy as np
from hypothesis import strategies as st

from checks.c32 import check_marks, mark_cases
from vlib import build, gens
from vlib.core import Part, expect
from vlib.models import grid


@st.composite
def cases(draw, lut=True, res=(1, 60), n_max=7):
    m = draw(gens.models(lut=lut, n_max=n_max, bend="any" if lut else "some"))
    r1, r2, kind = draw(gens.lines(m))
    return {"model": m, "line": [r1, r2], "kind": kind, "res": draw(gens.ints(*res)), "as_int": draw(st.booleans())}


def check(c):
    m, (r1, r2), res = c["model"], c["line"], c["res"]
    ref = build.reference(m)
    g = grid(r1, r2, res)
    tot, amb = ref.total(g, tol=1e-9)
    n = len(m["tct"])
    labels = [c["kind"], m["cdf"], "bend:" + m["bend"]]
    try:
        occ, mask = build.ideal(m).get_csd_data(np.array(r1), np.array(r2), res if c["as_int"] else np.array([res]))
    except IndexError:
        expect(tot.max() >= n or amb[tot >= n - 1].any(), "scan inside the defined transitions was rejected", r1=r1, r2=r2)
        return True, labels + ["rejected"]
    expect(not np.any(tot[~amb] >= n), "a scan reaching past the last transition was not rejected", r1=r1, r2=r2)
    expect(occ.shape == (res, 2) and np.shape(mask) == (res,), "result has the wrong shape", occ=occ.shape, mask=np.shape(mask))
    total = occ.sum(-1)
    bad = ~amb & (np.abs(total - tot) > 1e-9)
    if bad.any():
        i = int(np.argmax(bad))
        expect(False, "total electron number differs from the pointwise count", point=i, volt=g[i], got=total[i], want=int(tot[i]))
    it = np.rint(total).astype(int)
    expect(np.all(np.abs(total - it) < 1e-9), "total electron number is not an integer")
    nontriv = len(np.unique(it)) > 1
    for reg in np.unique(it):
        sel = it == reg
        if reg == 0:
            expect(not np.any(occ[sel] != 0), "empty region carries electrons")
            continue
        expect(reg < n, "occupations invented above the last defined transition", region=int(reg))
        d1 = ref.dot1(g[sel], reg)
        err = np.abs(occ[sel][:, 0] - d1)
        if m["bend"] == "none":
            near = np.zeros(err.shape, bool)
            for d in ([1e-9, 1e-9], [1e-9, -1e-9]):
                near |= ref.dot1(g[sel] + d, reg) != ref.dot1(g[sel] - np.array(d), reg)
            err = np.where(near, 0, err)
        if np.any(err > 1e-6):
            j = int(np.argmax(err))
            expect(False, "share of the first dot differs from the configured distribution", region=int(reg), volt=g[sel][j], got=occ[sel][j, 0], want=d1[j])
        if np.ptp(d1) > 0.3:
            labels.append("interdot")
            nontriv = True
    # transition marks: exactly the upper side of each change of the electron number
    want = np.zeros(res, int)
    for i in range(res - 1):
        if it[i + 1] > it[i]:
            want[i + 1] = it[i + 1]
        elif it[i + 1] < it[i]:
            want[i] = it[i]
    if not np.array_equal(np.asarray(mask).astype(int), want):
        i = int(np.argmax(np.asarray(mask) != want))
        expect(False, "transition mark differs from the changes of the electron number", point=i, got=mask, want=want, totals=it)
    if np.any(np.diff(it) > 0):
        labels.append("rising")
    if np.any(np.diff(it) < 0):
        labels.append("falling")
    if res == 1:
        labels.append("single point")
    return nontriv, labels


RULE = "random transition stack; a straight line through a place of interest (gate 1, gate 2, diagonal, anti-diagonal or any angle, either direction), 1..60 points; non-trivial = several electron numbers, an interdot transition, or rejection"
LONG = "lines of 500..6000 points"
PARTS = [
    Part("lut", cases, check, quick=4000, thorough=60000, rule=RULE),
    Part("explicit", lambda: cases(lut=False, res=(1, 12), n_max=3), check, quick=64, thorough=600, rule=RULE + " (bends solved explicitly, 1..12 points)"),
    Part("long", lambda: cases(res=(500, 6000)), check, quick=160, thorough=3000, rule=RULE + f" ({LONG})"),
    Part("marks", lambda: mark_cases(long=True), check_marks, quick=160, thorough=3000, rule="the marking step alone on random histories of the total along 30..6000 points; non-trivial = the total changes"),
]
