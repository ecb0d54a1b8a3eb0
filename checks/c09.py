"""C09: sensor-scan labels - conductive area and Coulomb peaks."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import sens
from vlib.core import Part, expect, expect_equal
from vlib.gens import U, ints


@st.composite
def cases(draw, via="sensor", deform=False):
    w = draw(sens.sensor_windows())
    s = draw(sens.scan_sensor(*w, deform_ok=deform, peak_none=True))
    kind = draw(st.sampled_from(["2d", "2d", "2d", "g1", "g2", "both"]))
    r1, r2 = w
    if kind == "g1":
        r2 = [r2[0], r2[0]]
    if kind == "g2":
        r1 = [r1[0], r1[0]]
    n2, n1 = (150, 4000) if draw(ints(0, 39)) == 0 else (25, 80)
    sh = [draw(ints(2, n2)), draw(ints(2, n2))] if kind == "2d" else [draw(ints(2, n1))]
    fx = lambda: draw(st.one_of(st.none(), U(-0.3, 0.3), ints(-1, 1)))  # noqa: E731
    n = len(s["peaks"] or [])
    return {"sensor": s, "r1": r1, "r2": r2, "shape": sh, "kind": kind, "v": [fx(), fx()],
            "occ": [draw(ints(0, 4)) + draw(st.sampled_from([0, 0, 0.3])), draw(ints(0, 4))], "perm": draw(st.permutations(list(range(n))))}


def labels_of(s, c, mu=None):
    sen = sens.build(s)
    occ = np.broadcast_to(np.array(c["occ"], float), tuple(c["shape"]) + (2,)).copy()
    a, b = np.array(c["r1"]), np.array(c["r2"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mu = sen.sensor_potential(occ, *c["v"], a, b)
        keep = np.array(mu)
        out = sen.get_sensor_scan_labels(*c["v"], a, b, mu)
    expect_equal(mu, keep, "labelling modified the potentials")
    expect(np.array_equal(a, c["r1"]) and np.array_equal(b, c["r2"]), "labelling modified the ranges")
    return [np.asarray(x) for x in out]


def check(c):
    s = c["sensor"]
    ref = sens.reference(s)
    sh = tuple(c["shape"])
    occ = np.array(c["occ"], float)
    P = ref.potentials(np.broadcast_to(occ, sh + (2,)), *c["v"], c["r1"], c["r2"])
    full = ref.full_potential(occ, *c["v"])
    cond, coul = labels_of(s, c)
    expect(cond.shape == sh and coul.shape == sh, "labels have the wrong shape", got=(cond.shape, coul.shape), want=sh)
    eps = 1e-9
    d1, d2, d0 = P[1] - ref.pinch[0], P[2] - ref.pinch[1], P[0] - full
    want = ((d1 > 0) & (d2 > 0)).astype(int) * (1 + (d0 > 0))
    amb = (np.abs(d1) < eps) | (np.abs(d2) < eps) | (np.abs(d0) < eps)
    bad = (cond != want) & ~amb
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        expect(False, "conductive-area label", pixel=i, got=int(cond[i]), want=int(want[i]), over_pinch_off=(d1[i], d2[i]), over_full=d0[i])
    expect(not np.any((coul > 0) & (cond != 1)), "Coulomb peak marked outside the partly conductive area")
    # candidates of each peak on each scan line: (certain pixels, possible pixels)
    dist = ref.axis_distance(occ, *c["v"], c["r1"], c["r2"], sh) if s["deform"] else None
    lines = [(i,) for i in range(sh[0])] if len(sh) == 2 else [()]
    thr = abs(np.mean(np.diff(P[0], axis=-1)))
    allowed = [[set() for _ in range(sh[-1])] for _ in lines]
    sure = []
    for k, p in enumerate(s["peaks"] or []):
        centre = np.full(sh, p["mu0"]) if str(k) not in s["deform"] else ref.deformed(s["deform"][str(k)], p["mu0"], dist)
        for li, ix in enumerate(lines):
            q = np.abs(P[0][ix] - centre[ix])
            m = q.min()
            near = np.flatnonzero(q <= m + eps)
            edge = np.isin(near, [0, sh[-1] - 1])
            for j, e in zip(near, edge):
                if not e or q[j] < thr + eps:
                    allowed[li][j].add(k + 1)
            if len(near) == 1 and (not edge[0] or q[near[0]] < thr - eps):
                sure.append((li, int(near[0]), k + 1))
    flat = coul.reshape(len(lines), -1)
    cflat = cond.reshape(len(lines), -1)
    for li in range(len(lines)):
        for j in np.flatnonzero(flat[li]):
            expect(int(flat[li][j]) in allowed[li][j], "pixel marked for a peak whose centre is not closest there", line=li, pixel=int(j), got=int(flat[li][j]), could_be=sorted(allowed[li][j]))
    amb_f = amb.reshape(len(lines), -1)
    for li, j, k in sure:
        if cflat[li][j] == 1 and not amb_f[li][j]:
            expect(flat[li][j] != 0, "a peak crossed by the scan line is not marked", line=li, pixel=j, peak=k)
            expect(flat[li][j] == k or len(allowed[li][j]) > 1, "a crossed peak carries another number", line=li, pixel=j, peak=k, got=int(flat[li][j]))
    # listing the peaks in another order only renumbers them
    perm = c["perm"]
    lab = [c["kind"]] + (["deformed"] if s["deform"] else [])
    mus = [p["mu0"] for p in s["peaks"] or []]
    if len(perm) > 1 and list(perm) != sorted(perm) and (len(mus) < 2 or min(np.diff(sorted(mus))) > 1e-9):
        s2 = {**s, "peaks": [s["peaks"][i] for i in perm], "deform": {str(j): s["deform"][str(i)] for j, i in enumerate(perm) if str(i) in s["deform"]}}
        cond2, coul2 = labels_of(s2, c)
        expect_equal(cond2, cond, "conductive-area label depends on the listing order of the peaks")
        back = np.zeros(len(perm) + 1, int)
        for j, i in enumerate(perm):
            back[j + 1] = i + 1
        expect_equal(back[coul2], coul.astype(int), "Coulomb-peak label depends on the listing order of the peaks beyond its numbering")
        lab.append("reordered")
    for v in np.unique(cond):
        lab.append(f"area {v}")
    if coul.any():
        lab.append("peaks")
    return bool(coul.any() or len(np.unique(cond)) > 1), lab


PARTS = [
    Part("straight", cases, check, quick=3600, thorough=60000, rule="random barrier-coupled sensor, 1..5 peaks in any listing order, 2D and 1D scans in any direction; non-trivial = several area labels or a marked peak"),
    Part("deformed", lambda: cases(deform=True), check, quick=2400, thorough=40000, rule="as [straight] with linear and circular deformations of some peaks"),
]
ASSUMPTIONS = ["pixels whose potential is within 1e-9 of a threshold or of a tie are accepted either way"]
