"""C01: 2D ideal occupations follow the configured transitions pointwise."""
import numpy as np
from hypothesis import strategies as st

from vlib import build, gens
from vlib.core import Part, expect
from vlib.models import grid


@st.composite
def cases(draw, lut=True, res=(4, 40), n_max=6, entries=None):
    m = draw(gens.models(lut=lut, n_max=n_max, bend="any" if lut else "some"))
    m["lut"] = entries or m["lut"]
    return {"model": m, "win": draw(gens.windows(m)), "res": draw(gens.res2d(*res))}


def check(c):
    m, (r1, r2), res = c["model"], c["win"], c["res"]
    if gens.fine(m, r1, r2, res):
        return False, [gens.FINE]
    ref = build.reference(m)
    g = grid(r1, r2, res)
    tot, amb = ref.total(g, tol=1e-9)
    n = len(m["tct"])
    labels = ["lut" if m["lut"] else "explicit", m["cdf"], "bend:" + m["bend"], f"dir{int(r1[0] < r1[1])}{int(r2[0] < r2[1])}"]
    try:
        occ, mask = build.ideal(m).get_csd_data(np.array(r1), np.array(r2), np.array(res))
    except IndexError:
        # only legitimate when the window (or the pixels its transitions are drawn into) reaches the last transition
        span = [abs(r[1] - r[0]) / (k - 1) for r, k in zip((r1, r2), res)]
        pad = grid([min(r1) - span[0], max(r1) + span[0]], [min(r2) - span[1], max(r2) + span[1]], [4 * res[0], 4 * res[1]])
        expect(ref.total(pad, tol=1e-9)[0].max() >= n, "window inside the defined transitions was rejected", r1=r1, r2=r2)
        return True, labels + ["rejected"]
    expect(occ.shape == (res[1], res[0], 2), "occupations have the wrong shape", got=occ.shape)
    expect(mask.shape == (res[1], res[0]), "transition mask has the wrong shape", got=mask.shape)
    free = mask == 0
    certain = free & ~amb
    expect(not np.any(tot[certain] >= n), "a window reaching past the last transition was not rejected", r1=r1, r2=r2)
    total = occ.sum(axis=-1)
    want = np.where(free, tot, mask)
    bad = certain & (np.abs(total - want) > 1e-9) | (~free & (np.abs(total - mask) > 1e-9))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        expect(False, "total electron number differs from the pointwise count", pixel=i, volt=g[i], got=total[i], want=want[i], marked=bool(~free[i]), n_bad=int(bad.sum()))
    got_total = np.rint(total).astype(int)
    nontriv = len(np.unique(got_total)) > 1
    for reg in np.unique(got_total):
        sel = got_total == reg
        if reg == 0:
            expect(not np.any(occ[sel] != 0), "empty region carries electrons")
            continue
        if reg >= n:
            expect(False, "occupations invented above the last defined transition", region=int(reg))
        d1 = ref.dot1(g[sel], reg)
        err = np.abs(occ[sel][:, 0] - d1)
        if m["bend"] == "none":  # steps: skip pixels on the step itself
            near = np.abs(ref.dot1(g[sel] + 1e-9, reg) - ref.dot1(g[sel] - 1e-9, reg)) > 0
            near |= np.abs(ref.dot1(g[sel] + [1e-9, -1e-9], reg) - ref.dot1(g[sel] + [-1e-9, 1e-9], reg)) > 0
            err = np.where(near, 0, err)
        if np.any(err > 1e-6):
            j = int(np.argmax(err))
            expect(False, "share of the first dot differs from the configured distribution", region=int(reg), volt=g[sel][j], got=occ[sel][j, 0], want=d1[j])
        if np.ptp(d1) > 0.3:
            labels.append("interdot")
            nontriv = True
    if len(np.unique(got_total)) > 1:
        labels.append("transition")
    if len(np.unique(got_total)) > 2:
        labels.append("several")
    return nontriv, labels


PARTS = [
    Part("lut", cases, check, quick=1600, thorough=20000,
         rule="random transition stack (2-6 curves, lookup table), window around a place of interest in any direction, non-square resolution 4..40; non-trivial = more than one electron number or an interdot transition in the window, or rejection"),
    Part("explicit", lambda: cases(lut=False, res=(3, 7), n_max=3), check, quick=48, thorough=400,
         rule="as [lut] but bends solved explicitly, 2-3 curves, resolution 3..7; same non-triviality"),
    Part("large", lambda: cases(res=(60, 260), n_max=14, entries=12000), check, quick=64, thorough=1600,
         rule="as [lut] with 60-260 pixels per axis, up to 14 curves and a fine lookup table; same non-triviality"),
]
ASSUMPTIONS = ["two-dimensional windows whose pixels are finer than the steps of the lookup table are not judged"]
