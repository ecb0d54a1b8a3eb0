"""C02: the 2D lead-transition mask marks exactly the transitions of the window."""
import numpy as np
from hypothesis import strategies as st

from vlib import build, gens
from vlib.core import Part, expect
from vlib.models import grid, rot


@st.composite
def cases(draw, aspect=6.0, res=(3, 30), n_max=7, entries=(1500, 4000)):
    m = draw(gens.models(n_max=n_max))
    m["lut"] = draw(st.sampled_from(entries))
    return {"model": m, "win": draw(gens.windows(m, aspect=aspect, top=False, far=False)), "res": draw(gens.res2d(*res))}


def check(c):
    m, (r1, r2), res = c["model"], c["win"], c["res"]
    if gens.fine(m, r1, r2, res):
        return False, [gens.FINE]
    ref = build.reference(m)
    labels = [f"dir{int(r1[0] < r1[1])}{int(r2[0] < r2[1])}"]
    try:
        occ, mask = build.ideal(m).get_csd_data(np.array(r1), np.array(r2), np.array(res))
    except IndexError:
        gens.rejected(m, r1, r2, res)
        return False, ["rejected"]
    mask = np.asarray(mask)
    expect(mask.shape == (res[1], res[0]), "mask has the wrong shape", got=mask.shape)
    expect(np.all(mask == np.rint(mask)) and mask.min() >= 0 and mask.max() <= len(m["tct"]), "mask values are not transition numbers", values=np.unique(mask))
    s1, s2 = (r1[1] - r1[0]) / (res[0] - 1), (r2[1] - r2[0]) / (res[1] - 1)
    corners = rot(grid([r1[0] - s1, r1[1] + s1], [r2[0] - s2, r2[1] + s2], [2, 2]).reshape(-1, 2), -m["rotation"])
    lo, hi = corners[:, 0].min(), corners[:, 0].max()
    k = int(min(300000, np.ceil((hi - lo) / min(abs(s1), abs(s2)) * 30)))
    xs = np.linspace(lo, hi, k)
    pxd = (hi - lo) / k * 1.45 / min(abs(s1), abs(s2))  # largest distance of two samples in pixels
    crossed = 0
    for n, t in enumerate(ref.t, start=1):
        v = rot(np.stack([xs, t(xs)], -1), m["rotation"])
        fx, fy = (v[:, 0] - r1[0]) / s1, (v[:, 1] - r2[0]) / s2
        ex, ey = (pxd + t.lut_tol(m["lut"]) * 1.5 / abs(s) + 0.02 for s in (s1, s2))
        near = np.zeros(mask.shape, bool)
        sel = (fx > -2) & (fx < res[0] + 1) & (fy > -2) & (fy < res[1] + 1)
        for dx in np.linspace(-ex, ex, 3 + 2 * int(ex)):
            for dy in np.linspace(-ey, ey, 3 + 2 * int(ey)):
                j, i = np.floor(fx[sel] + dx + 0.5).astype(int), np.floor(fy[sel] + dy + 0.5).astype(int)
                ok = (i >= 0) & (j >= 0) & (i < res[1]) & (j < res[0])
                near[i[ok], j[ok]] = True
        bad = (mask == n) & ~near
        if bad.any():
            expect(False, "a pixel is marked although its transition does not pass there", number=n, pixel=tuple(np.argwhere(bad)[0].tolist()), volt=grid(r1, r2, res)[tuple(np.argwhere(bad)[0])])
        j, i = np.rint(fx).astype(int), np.rint(fy).astype(int)
        core = (np.abs(fx - j) < 0.3 - ex) & (np.abs(fy - i) < 0.3 - ey) & (fx >= 0) & (fy >= 0) & (fx <= res[0] - 1) & (fy <= res[1] - 1)
        if core.any():
            crossed += 1
            low = mask[i[core], j[core]] < n
            if low.any():
                q = int(np.argmax(low))
                expect(False, "a transition crosses a pixel that is not marked for it", number=n, pixel=(int(i[core][q]), int(j[core][q])), got=int(mask[i[core][q], j[core][q]]), volt=v[core][q])
    tot = np.rint(occ.sum(-1))
    free = mask == 0
    for a, b, fa, fb in ((tot[1:], tot[:-1], free[1:], free[:-1]), (tot[:, 1:], tot[:, :-1], free[:, 1:], free[:, :-1])):
        expect(not np.any((a != b) & fa & fb), "electron number changes between unmarked neighbours")
    labels.append(f"crossing:{min(crossed, 3)}")
    r = abs(s1 / s2)
    labels.append("pixel aspect>10" if r > 10 or r < 0.1 else "pixel aspect<=10")
    return crossed > 0, labels


RULE = "random transition stack, window placed on a transition, any direction, non-square resolution; non-trivial = at least one transition crosses the core of a pixel"
PARTS = [
    Part("aspect6", cases, check, quick=1200, thorough=16000, rule=RULE + " (window aspect up to 6)"),
    Part("aspect60", lambda: cases(aspect=60.0, res=(3, 16)), check, quick=240, thorough=3000, rule=RULE + " (window aspect up to 60)"),
    Part("large", lambda: cases(res=(60, 220), n_max=12, entries=(12000,)), check, quick=40, thorough=1000, rule=RULE + " (60-220 pixels per axis, up to 12 curves)"),
]
ASSUMPTIONS = ["two-dimensional windows whose pixels are finer than the steps of the lookup table are not judged"]
