"""C04: reversing a sweep only mirrors the noise-free result."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.ndimage import binary_dilation

from vlib import build, gens, sens
from vlib.core import Part, expect, expect_close
from vlib.gens import U, ints
from vlib.models import grid

LIM = np.array([-50.0, 50.0])


def sim(ideal, sensor, s_lim=False):
    from simcats import Simulation

    kw = dict(volt_limits_sensor_g1=LIM, volt_limits_sensor_g2=LIM) if s_lim else {}
    return Simulation(volt_limits_g1=LIM, volt_limits_g2=LIM, ideal_csd_config=ideal, sensor=sensor, **kw)


def rev(r):
    return np.array(r[::-1])


def mirror(a, axes):
    for ax in axes:
        a = np.flip(a, ax)
    return a


def csd_equal(c, ref, g, got, want, msg):
    """Compare (signal, occupations, mask); discrete differences only where a point is within rounding of a curve."""
    s0, o0, l0 = got
    s1, o1, l1 = want
    expect(s0.shape == s1.shape and o0.shape == o1.shape and l0.shape == l1.shape, msg + ": shapes differ")
    bad = (np.abs(o0 - o1).max(-1) > 1e-6) | (l0 != l1)
    if bad.any():
        _, amb = ref.total(g, tol=1e-10)
        if c["model"]["bend"] == "none":  # step-like interdot lines: rounding decides at the line itself
            a0 = ref_share(ref, g - 1e-10) != ref_share(ref, g + 1e-10)
            amb = amb | a0 | (ref_share(ref, g + [1e-10, -1e-10]) != ref_share(ref, g - [1e-10, -1e-10]))
        amb = binary_dilation(amb, np.ones((5,) * amb.ndim, bool))
        w = bad & ~amb
        if w.any():
            i = tuple(int(v) for v in np.argwhere(w)[0])
            expect(False, msg + ": occupations or transition marks are not mirrored", pixel=i, got=(o0[i], l0[i]), want=(o1[i], l1[i]), differing=int(w.sum()))
    ok = ~bad
    expect_close(np.where(ok, s0, 0), np.where(ok, s1, 0), msg + ": signal is not mirrored", rtol=1e-7, atol=1e-7)


def ref_share(ref, g):
    tot, _ = ref.total(g)
    out = np.zeros(tot.shape)
    for reg in np.unique(tot):
        if 0 < reg < len(ref.t):
            out[tot == reg] = ref.dot1(g[tot == reg], int(reg))
    return out


@st.composite
def csd_cases(draw):
    m = draw(gens.models(n_max=5))
    one, big = draw(st.booleans()), draw(ints(0, 39)) == 0
    if one:
        r1, r2, kind = draw(gens.lines(m, top=False, far=False))
        res = draw(ints(60, 2000)) if big else draw(ints(2, 60))
    else:
        (r1, r2), kind = draw(gens.windows(m, top=False, far=False)), "2d"
        res = draw(gens.res2d(30, 110) if big else gens.res2d(3, 30))
    return {"model": m, "r1": r1, "r2": r2, "res": res, "kind": kind, "sensor": draw(st.one_of(sens.generic(), plain_scan()))}


@st.composite
def plain_scan(draw):
    """Barrier-coupled sensor at fixed sensor voltages; no final rise, no deformation (see known findings)."""
    w = draw(sens.sensor_windows())
    s = draw(sens.scan_sensor(*w, rise=None))
    return {**s, "at": [float(np.mean(w[0])), float(np.mean(w[1]))]}


def check_csd(c):
    s, r1, r2, res = c["sensor"], np.array(c["r1"]), np.array(c["r2"]), c["res"]
    if gens.fine(c["model"], c["r1"], c["r2"], res):
        return False, [gens.FINE]
    scan = s["kind"] == "scan"
    kw = dict(volt_sensor_g1=s["at"][0], volt_sensor_g2=s["at"][1]) if scan else {}
    sm = sim(build.ideal(c["model"]), sens.build(s), scan)
    rr = np.array(res) if isinstance(res, list) else res
    ref = build.reference(c["model"])

    def run(a, b):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [np.array(x) for x in sm.measure(sweep_range_g1=a, sweep_range_g2=b, resolution=rr, **kw)[:3]]

    try:
        base = run(r1, r2)
    except IndexError:
        gens.rejected(c["model"], r1, r2, rr)
        return False, ["rejected"]
    g = grid(r1, r2, rr)
    labels = [c["kind"], s["kind"]]
    if c["kind"] == "2d":
        for name, a, b, axes in (("gate 1", rev(r1), r2, (1,)), ("gate 2", r1, rev(r2), (0,)), ("both gates", rev(r1), rev(r2), (0, 1))):
            got = run(a, b)
            csd_equal(c, ref, g, [mirror(x, axes) for x in got], base, f"reversing {name}")
    else:
        got = run(rev(r1), rev(r2))
        csd_equal(c, ref, g, [mirror(x, (0,)) for x in got], base, "reversing the scan")
    nt = len(np.unique(np.rint(base[1].sum(-1)))) > 1
    return nt, labels + (["transitions"] if nt else [])


@st.composite
def scan_cases(draw):
    w = draw(sens.sensor_windows())
    one = draw(st.sampled_from(["2d", "2d", "g1", "g2", "both"]))
    r1, r2 = w
    if one == "g1":
        r2 = [r2[0], r2[0]]
    if one == "g2":
        r1 = [r1[0], r1[0]]
    s = draw(sens.scan_sensor(*w, deform_ok=draw(st.booleans()), peak_none=True))
    return {"sensor": s, "r1": r1, "r2": r2, "kind": one, "res": draw(gens.res2d(2, 25)) if one == "2d" else draw(ints(2, 60)),
            "v": draw(st.one_of(st.none(), st.tuples(U(-0.2, 0.2), U(-0.2, 0.2)).map(list))),
            "model": draw(st.one_of(st.none(), gens.models(n_max=3)))}


def check_scan(c):
    s, r1, r2 = c["sensor"], np.array(c["r1"]), np.array(c["r2"])
    rr = np.array(c["res"]) if isinstance(c["res"], list) else c["res"]
    sm = sim(build.ideal(c["model"]) if c["model"] else None, sens.build(s), True)
    kw = dict(volt_g1=c["v"][0], volt_g2=c["v"][1]) if c["v"] else {}

    def run(a, b):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return [np.array(x) for x in sm.measure_sensor_scan(sweep_range_sensor_g1=a, sweep_range_sensor_g2=b, resolution=rr, **kw)[:3]]

    try:
        base = run(r1, r2)
    except IndexError:
        gens.rejected(c["model"] if c["v"] else None, [(c["v"] or [0, 0])[0]] * 2, [(c["v"] or [0, 0])[1]] * 2, 1)
        return False, ["rejected"]
    ref = sens.reference(s)
    two = c["kind"] == "2d"
    # per-pixel potentials, only used to see where rounding may decide a discrete label
    occ = sm_occ(c)
    pots = ref.potentials(np.broadcast_to(occ, base[0].shape + (2,)), *(c["v"] or [0, 0]), list(r1), list(r2))
    fp = ref.full_potential(occ, *(c["v"] or [0, 0]))
    tie = (np.abs(pots[1] - ref.pinch[0]) < 1e-9) | (np.abs(pots[2] - ref.pinch[1]) < 1e-9) | (np.abs(pots[0] - fp) < 1e-9)
    variants = [("sensor gate 1", rev(r1), r2, (1,)), ("sensor gate 2", r1, rev(r2), (0,)), ("both sensor gates", rev(r1), rev(r2), (0, 1))] if two else [("the scan", rev(r1), rev(r2), (0,))]
    for name, a, b, axes in variants:
        got = [mirror(x, axes) for x in run(a, b)]
        expect(all(x.shape == y.shape for x, y in zip(got, base)), f"reversing {name}: shapes differ")
        expect_close(got[0], base[0], f"reversing {name}: signal is not mirrored", rtol=1e-6, atol=1e-8)
        d = (got[1] != base[1]) & ~tie
        expect(not d.any(), f"reversing {name}: conductive-area mask is not mirrored", pixels=np.argwhere(d)[:3].tolist())
        d = got[2] != base[2]
        if d.any() and not s["deform"]:
            # equally close neighbours: rounding decides
            for i in np.argwhere(d):
                i = tuple(i)
                k = int(max(got[2][i], base[2][i])) - 1
                line = pots[0][i[0]] if two else pots[0]
                dd = np.sort(np.abs(line - s["peaks"][k]["mu0"]))
                thr = abs(np.mean(np.diff(pots[0], axis=-1)))
                close = len(dd) > 1 and dd[1] - dd[0] < 1e-9 or abs(dd[0] - thr) < 1e-9 or tie[i]
                hidden = any(abs(p["mu0"] - s["peaks"][k]["mu0"]) < 1e-9 for j, p in enumerate(s["peaks"]) if j != k)
                expect(close or hidden, f"reversing {name}: Coulomb-peak mask is not mirrored", pixel=[int(v) for v in i], got=int(got[2][i]), want=int(base[2][i]))
        elif d.any():
            # deformed wavefronts: tolerate isolated ties only
            expect(d.sum() <= 2 * max(2, 0.04 * d.size ** 0.5 * len(s["peaks"])), f"reversing {name}: Coulomb-peak mask is not mirrored", differing=int(d.sum()))
    lab = [c["kind"]] + (["deformed"] if s["deform"] else []) + (["rise"] if s["rise"] else [])
    nt = np.ptp(base[0]) > 0
    if base[2].any():
        lab.append("peaks")
    return nt, lab


def sm_occ(c):
    if not c["v"] or not c["model"]:
        return np.zeros(2)
    o, _ = build.ideal(c["model"]).get_csd_data(np.array([c["v"][0]] * 2), np.array([c["v"][1]] * 2), 1)
    return np.asarray(o).reshape(2)


PARTS = [
    Part("csd", csd_cases, check_csd, quick=1200, thorough=20000,
         rule="random transition stack, window or line, plain or barrier-coupled sensor; all sweep reversals compared; non-trivial = the electron number changes inside the window"),
    Part("sensor-scan", scan_cases, check_scan, quick=900, thorough=15000,
         rule="random barrier-coupled sensor (peaks, barriers, rise, deformations), 2D and 1D sensor-gate scans, with and without charge model; non-trivial = the signal is not constant"),
]
ASSUMPTIONS = ["charge-stability measurements of barrier-coupled sensors with a final rise are excluded (known finding: the rise follows the sweep start)"]
