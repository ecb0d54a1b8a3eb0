"""C32: the stand-alone functions deliver what the objects built on them deliver, and leave their inputs alone."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c15 import identical
from vlib import build, gens
from vlib.core import Part, expect, expect_close, raises
from vlib.dist import quiet
from vlib.gens import LOG, U, ints, seeds


def rng(c):
    return np.random.default_rng(c["seed"])


# ---------------------------------------------------------------- noise
SHAPES = st.one_of(ints(1, 60).map(lambda n: [n]), st.tuples(ints(1, 14), ints(1, 14)).map(list))


@st.composite
def noise_cases(draw):
    k = draw(st.sampled_from(["white", "pink", "rtn"]))
    shape = draw(SHAPES)
    if k == "pink" and math.prod(shape) == 1:  # a spectrum needs more than one pixel
        shape = [2]
    c = {"k": k, "shape": shape, "data": draw(st.sampled_from(["zero", "random", "int", "view"])), "seed": draw(seeds), "r1": draw(st.tuples(U(-1, 1), LOG(0.01, 2)).map(list)), "r2": draw(st.tuples(U(-1, 1), LOG(0.01, 2)).map(list)), "down": draw(ints(0, 3)), "fixed": draw(ints(0, 4)),
         "cls": draw(st.sampled_from(["pot", "resp"]))}
    if k == "white":
        c["p"] = {"sigma": draw(st.one_of(st.just(0), LOG(1e-4, 10)))}
    elif k == "pink":
        c["p"] = {"sigma": draw(st.one_of(st.just(0), LOG(1e-4, 10))), "fmin": draw(st.one_of(st.just(0), U(0, 0.5)))}
    else:
        c["p"] = {"pixels": draw(st.one_of(st.just(0), st.just(1), LOG(1, 100))), "std": draw(st.one_of(st.just(0), LOG(1e-4, 10))), "height": draw(U(-3, 3))}
    return c


def image(c, r):
    shape = tuple(c["shape"])
    if c["data"] == "zero":
        return np.zeros(shape)
    if c["data"] == "int":
        return r.integers(-5, 6, shape)
    if c["data"] == "view":
        return r.normal(size=tuple(2 * n for n in shape))[tuple(slice(None, None, -2) for _ in shape)]
    return r.normal(size=shape)


def check_noise(c):
    from simcats.distortions import SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise, pink_gaussian_noise, random_telegraph_noise, white_gaussian_noise

    x = image(c, np.random.default_rng(c["seed"] + 1))
    keep = x.copy()
    p = c["p"]
    r1, r2 = ([a, a + w] for a, w in (c["r1"], c["r2"]))
    if c["fixed"] == 1:
        r1[1] = r1[0]
    if c["fixed"] == 2:
        r2[1] = r2[0]
    n = x.size
    w = [abs(r[1] - r[0]) for r in (r1, r2)]
    if x.ndim == 2:
        density = max(s / v for s, v in zip((x.shape[1], x.shape[0]), w) if v > 0)
    else:
        density = n / max(w)
    if c["down"] & 1:
        r1 = r1[::-1]
    if c["down"] & 2:
        r2 = r2[::-1]
    r1, r2 = np.array(r1), np.array(r2)
    ga, gb = rng(c), rng(c)
    if c["k"] == "white":
        got = white_gaussian_noise(x, p["sigma"], ga)
        d = SensorResponseWhiteNoise(sigma=p["sigma"], rng=gb)
    elif c["k"] == "pink":
        got = quiet(pink_gaussian_noise, x, p["sigma"], p["fmin"], ga)
        d = SensorPotentialPinkNoise(sigma=p["sigma"], fmin=p["fmin"], rng=gb)
    else:
        got = quiet(random_telegraph_noise, x, p["pixels"], p["std"], p["height"], ga)
        volts = p["pixels"] / density
        if 0 < volts * density < 1:
            volts = math.nextafter(volts, 2 * volts)
        gb.binomial(1, 1)
        ga_ratio = rng(c)
        ga_ratio.binomial(1, 1)
        got = quiet(random_telegraph_noise, x, p["pixels"], p["std"], p["height"], ga_ratio)
        gb = rng(c)
        d = (SensorPotentialRTN if c["cls"] == "pot" else SensorResponseRTN)(scale=volts, std=p["std"], height=p["height"], ratio=1, rng=gb)
        ga = ga_ratio
    want = quiet(d.noise_function, x, r1, r2)
    expect(np.array_equal(x, keep), "the image handed over was modified")
    expect(got.shape == x.shape, "shape", got=got.shape, want=x.shape)
    expect_close(got, want, f"{c['k']} noise: function against object", rtol=1e-12, atol=1e-13)
    if n > 1:
        expect(np.isfinite(got).all(), "not finite")
        expect(ga.bit_generator.state == gb.bit_generator.state, "function and object draw different random numbers")
    noise = np.ravel(got - x)
    if c["k"] == "rtn":
        # alternating blocks, starting without a jump; constant within a block
        tol = 1e-9
        expect(abs(noise[0]) < tol, "the first pixel already carries a jump", got=noise[0])
        if p["pixels"] == 0 or (p["std"] == 0 and abs(p["height"]) < 1e-3):
            expect(p["pixels"] != 0 or np.array_equal(got, keep), "noise of scale 0 changed the data")
        elif p["std"] == 0:
            expect(np.all((np.abs(noise) < tol) | (np.abs(noise - p["height"]) < tol)), "jump of another height", got=noise)
        elif np.abs(noise).max() > tol:
            edges = np.flatnonzero(np.abs(np.diff(noise)) > tol)
            for e in edges:
                a, b = abs(noise[e]) < tol, abs(noise[e + 1]) < tol
                expect(a != b or p["std"] < 1e-3, "two bursts without a gap", at=int(e))
    elif p["sigma"] == 0:
        expect_close(got, x, "noise of strength 0", rtol=0, atol=1e-12)
    return n > 2 and np.any(noise != 0), [c["k"], c["data"], f"{x.ndim}d"]


# ---------------------------------------------------------------- dot jumps
@st.composite
def jump_cases(draw):
    shape = [draw(ints(1, 14)), draw(ints(1, 14))]
    axis = draw(ints(0, 1))
    return {"shape": shape, "axis": axis, "seed": draw(seeds), "scale": draw(st.one_of(st.just(0), st.just(1), LOG(1, 20))), "lam": draw(st.one_of(st.just(0), LOG(0.05, 20))), "given": draw(st.booleans()),
            "nan": draw(st.one_of(st.none(), ints(0, 1))), "data": draw(st.sampled_from(["int", "random"]))}


def shifted(x, noise, axis):
    """Every pixel takes the value noise pixels before it (at most the first one); NaN place holders are not moved."""
    x = np.asarray(x, float)
    out = x.copy()
    for p in np.ndindex(*x.shape):
        q = list(p)
        q[axis] = max(0, p[axis] - int(noise[p[axis]]))
        if not np.isnan(x[tuple(q)]):
            out[p] = x[tuple(q)]
    return out


def check_jumps(c):
    from simcats.distortions import dot_jumps_blockwise

    shape, axis = tuple(c["shape"]), c["axis"]
    r = np.random.default_rng(c["seed"] + 1)
    x, y = (r.integers(0, 6, shape) if c["data"] == "int" else r.normal(size=shape) for _ in range(2))
    if c["nan"] is not None:  # a 1D scan held in a square image: only one line of data along the axis
        x, y = np.array(x, float), np.array(y, float)
        if c["nan"] == 0:
            keep = r.random(shape) < 0.5
            x[~keep], y[~keep] = np.nan, np.nan
        else:
            ids = np.arange(min(shape))
            keep = np.zeros(shape, bool)
            keep[ids, ids] = True
            x[~keep], y[~keep] = np.nan, np.nan
    xk, yk = x.copy(), y.copy()
    g = rng(c)
    noise = r.integers(0, 5, shape[axis]) if c["given"] else None
    nk = None if noise is None else noise.copy()
    state = g.bit_generator.state
    out, used = dot_jumps_blockwise(x, c["scale"], c["lam"], noise, axis, g)
    expect(np.array_equal(x, xk, equal_nan=True) and (noise is None or np.array_equal(noise, nk)), "inputs were modified")
    expect(np.shape(out) == shape, "shape")
    if c["scale"] == 0:
        expect(np.array_equal(out, xk, equal_nan=True), "jumps of length 0 moved something")
        expect(not np.any(used) and len(used) == shape[axis], "noise of jumps of length 0", got=used)
        return False, ["scale 0"]
    if c["given"]:
        expect(np.array_equal(used, nk), "the noise handed over is not the noise reported")
        expect(g.bit_generator.state == state, "random numbers drawn although the noise was given")
    used = np.asarray(used)
    expect(used.shape == (shape[axis],) and np.all(used >= 0) and np.all(used == np.floor(used)), "noise: one whole number of pixels per line", got=used)
    if not c["given"]:
        expect(used[0] == 0, "the first line is already shifted", got=used)
    expect(np.array_equal(np.asarray(out, float), shifted(xk, used, axis), equal_nan=True), "shifted image does not follow from the noise", noise=used.tolist(), got=np.asarray(out).tolist(), image=xk.tolist())
    # the same jumps applied to the second dot
    out2, used2 = dot_jumps_blockwise(y, c["scale"], c["lam"], used, axis, g)
    expect(np.array_equal(used2, used) and np.array_equal(y, yk, equal_nan=True), "second image: noise or input changed")
    expect(np.array_equal(np.asarray(out2, float), shifted(yk, used, axis), equal_nan=True), "second image does not carry the jumps of the first")
    a, ua = dot_jumps_blockwise(xk, c["scale"], c["lam"], nk, axis, rng(c))
    expect(np.array_equal(ua, used) and np.array_equal(a, out, equal_nan=True), "not reproducible")
    return bool(np.any(used)), [f"axis {axis}", "given" if c["given"] else "drawn", "nan" if c["nan"] is not None else "full"]


# ---------------------------------------------------------------- geometry
@st.composite
def geometry_cases(draw):
    m = draw(gens.models(n_min=3, n_max=4))
    if draw(st.booleans()):
        r1, r2, _ = draw(gens.lines(m, top=False))
        q = {"r1": r1, "r2": r2, "res": draw(ints(2, 60))}
    else:
        r1, r2 = draw(gens.windows(m, top=False))
        q = {"r1": r1, "r2": r2, "res": draw(gens.res2d(3, 20))}
    return {"m": m, **q, "order": draw(st.permutations(range(len(m["tct"])))), "form": draw(st.sampled_from(["array", "list"]))}


def check_geometry(c):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, generate_lead_transition_mask_1d, generate_lead_transition_mask_2d, get_electron_occupation, ideal_csd_geometric, initialize_tct_functions

    m = c["m"]
    two = isinstance(c["res"], list)
    res = np.array(c["res"]) if two else c["res"]
    r1, r2 = np.array(c["r1"]), np.array(c["r2"])
    tct = [np.array(p) for p in m["tct"]]
    kw = {"rotation": m["rotation"], "lut_entries": m["lut"], "cdf_type": m["cdf"], "cdf_gamma_factor": m["factor"]}
    ideal = build.ideal(m)
    try:
        want = quiet(ideal.get_csd_data, r1, r2, res)
    except IndexError:
        expect(raises(lambda: quiet(ideal_csd_geometric, tct, r1, r2, res, **kw), IndexError), "the function accepts what the model rejects")
        gens.rejected(m, r1, r2, res)
        return False, ["rejected"]
    got = quiet(ideal_csd_geometric, tct_params=(np.array(tct) if c["form"] == "array" else tct), volt_limits_g1=r1, volt_limits_g2=r2, resolution=res, **kw)
    identical(list(got) + [np.zeros(1)], list(want) + [np.zeros(1)], "function against model")
    expect(all(np.array_equal(a, b) for a, b in zip(tct, m["tct"])) and np.array_equal(r1, c["r1"]) and np.array_equal(r2, c["r2"]) and np.array_equal(res, c["res"]), "inputs were modified")
    # the building blocks put together by hand (sweeps upwards; other directions are covered by C04)
    if two:
        r1, r2 = np.sort(r1), np.sort(r2)
        want = quiet(ideal.get_csd_data, r1, r2, res)
    f = initialize_tct_functions(tct_params=tct, max_peaks=1)
    b = calculate_all_bezier_anchors(tct_params=tct, max_peaks=1, rotation=m["rotation"])
    expect(sorted(f) == sorted(b) == list(range(1, len(tct) + 1)), "identifiers of the transitions", got=[sorted(f), sorted(b)])
    keep = {k: np.array(v) for k, v in b.items()}
    # the order in which the transitions are listed carries no information
    order = [k + 1 for k in c["order"]]
    fo, bo = {k: f[k] for k in order}, {k: b[k] for k in order}
    blank = np.zeros(tuple(c["res"][::-1]) if two else (c["res"],))
    if two:
        mask = quiet(generate_lead_transition_mask_2d, csd=blank, volt_limits_g1=r1, volt_limits_g2=r2, tct_functions=f, rotation=m["rotation"], lut_entries=m["lut"])
        expect(not np.any(blank), "the image handed over was modified")
        occ = quiet(get_electron_occupation, csd=mask, volt_limits_g1=r1, volt_limits_g2=r2, bezier_coords=bo, tct_functions=fo, **kw)
        mk = mask.copy()
        expect(np.array_equal(mask, mk), "the mask handed over was modified")
    else:
        occ = quiet(get_electron_occupation, csd=blank, volt_limits_g1=r1, volt_limits_g2=r2, bezier_coords=bo, tct_functions=fo, **kw)
        expect(not np.any(blank), "the image handed over was modified")
        ok = occ.copy()
        mask = generate_lead_transition_mask_1d(occ)
        expect(np.array_equal(occ, ok), "the occupations handed over were modified")
    identical([occ, mask, np.zeros(1)], list(want) + [np.zeros(1)], "building blocks put together by hand against the model")
    expect(list(fo) == order and all(np.array_equal(keep[k], b[k]) for k in keep), "transitions handed over were modified")
    return len(np.unique(mask)) > 1, ["2d" if two else "1d", f"{len(np.unique(mask))} labels"]


# ---------------------------------------------------------------- marks of line scans
@st.composite
def mark_cases(draw, long=False):
    if long:
        return {"long": [draw(seeds), draw(LOG(30, 6000).map(int)), draw(U(0, 1)), draw(ints(1, 255))]}
    n = draw(ints(1, 30))
    tot = [draw(ints(0, 4))]
    for _ in range(n - 1):
        tot.append(max(0, tot[-1] + draw(st.sampled_from([0, 0, 0, 1, -1, 1, -1, 2, -2, 3]))))
    return {"tot": tot, "split": [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])) for _ in tot]}


def check_marks(c):
    from simcats.ideal_csd.geometric import generate_lead_transition_mask_1d

    if "long" in c:
        seed, n, dense, top = c["long"]
        rng = np.random.default_rng(seed)
        t = np.cumsum(np.where(rng.random(n) < dense, rng.choice([-2, -1, -1, 1, 1, 2, 3], n), 0))
        t = np.abs(t - t.min() - top) if top < 8 else t - t.min()
        t = np.where(t // (top + 1) % 2, top - t % (top + 1), t % (top + 1)).astype(float)  # folded into 0..top
        s = rng.choice([0.0, 0.25, 0.5, 1.0], n)
    else:
        t, s = np.array(c["tot"], float), np.array(c["split"])
    occ = np.stack((t * s, t - t * s), -1)
    keep = occ.copy()
    got = generate_lead_transition_mask_1d(occ)
    expect(np.array_equal(occ, keep), "the occupations handed over were modified")
    lower = np.zeros(len(t), bool)
    lower[1:] |= t[:-1] < t[1:]
    lower[:-1] |= t[1:] < t[:-1]
    expect(got.shape == t.shape and np.array_equal(got, np.where(lower, t, 0)), "marks of a line scan", got=got.tolist(), want=np.where(lower, t, 0).tolist(), totals=t.tolist())
    back = generate_lead_transition_mask_1d(occ[::-1])
    expect(np.array_equal(back[::-1], got), "marks depend on the direction of the scan")
    k = int(lower.sum())
    return k > 0, [f"{k} marks" if k < 10 else f"{10 ** int(np.log10(k))}.. marks"]


# ---------------------------------------------------------------- peaks
@st.composite
def peak_cases(draw):
    return {"t": draw(st.sampled_from("LG")), "mu0": draw(U(-2, 2)), "w": draw(LOG(1e-4, 5)), "height": draw(U(-2, 2)), "offset": draw(U(-1, 1)), "x": [draw(st.one_of(U(-3, 3), st.just(0.0))) for _ in range(draw(ints(1, 12)))], "form": draw(st.sampled_from(["scalar", "1d", "2d", "3d", "int"])),
            "given": draw(ints(0, 15))}


def check_peaks(c):
    from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian, sensor_response_gauss, sensor_response_lorentz

    wname = "gamma" if c["t"] == "L" else "sigma"
    f = sensor_response_lorentz if c["t"] == "L" else sensor_response_gauss
    x = np.array(c["x"])
    if c["form"] == "int":
        x = np.rint(x).astype(int)
    x = {"scalar": lambda: float(x[0]), "1d": lambda: x, "int": lambda: x, "2d": lambda: np.stack((x, -x)), "3d": lambda: np.stack((x, -x))[:, None, :]}[c["form"]]()
    keep = np.array(x)
    p = {"mu0": 0.0, "w": 1.0, "height": 1.0, "offset": 0.0}  # documented defaults
    kw = {}
    for i, (a, n) in enumerate((("mu0", "mu0"), ("w", wname), ("height", "height"), ("offset", "offset"))):
        if c["given"] >> i & 1:
            p[a] = kw[n] = c[a]
    got = f(x, **kw)
    u = (np.asarray(x, float) - p["mu0"]) / p["w"]
    want = p["offset"] + p["height"] * (1 / (1 + u * u) if c["t"] == "L" else np.exp(-u * u))
    expect(np.array_equal(keep, x), "the potential handed over was modified")
    expect_close(got, want, "closed form of the peak", rtol=1e-9, atol=1e-12)
    obj = (SensorPeakLorentzian if c["t"] == "L" else SensorPeakGaussian)(**{"mu0": p["mu0"], wname: p["w"], "height": p["height"], "offset": p["offset"]})
    expect_close(obj.sensor_function(x), got, "peak object against function", rtol=1e-12, atol=1e-13)
    return bool(np.any(np.abs(u) < 5)), [c["t"], c["form"]]


PARTS = [
    Part("noise", noise_cases, check_noise, quick=2400, thorough=60000, rule="white, pink and telegraph noise functions on images of every shape (also integer images and strided views) against the distortion objects with an equal generator; non-trivial = noise visible"),
    Part("jumps", jump_cases, check_jumps, quick=2000, thorough=40000, rule="jumps of blocks along either axis, drawn or given, images with place holders, reuse for the second dot, against the formula for the shift; non-trivial = some line shifted"),
    Part("geometry", geometry_cases, check_geometry, quick=900, thorough=16000, rule="whole diagrams by function, by model and from the single building blocks in any order, bit for bit; non-trivial = a transition visible"),
    Part("marks", mark_cases, check_marks, quick=1600, thorough=30000, rule="arbitrary histories of the total along a line; non-trivial = the total changes"),
    Part("marks long", lambda: mark_cases(long=True), check_marks, quick=240, thorough=6000, rule="histories of the total along lines of 30..6000 points, from rare to dense changes, up to 255 electrons; non-trivial = the total changes"),
    Part("peaks", peak_cases, check_peaks, quick=1600, thorough=30000, rule="peak functions with any subset of their parameters on scalars and arrays of 1-3 dimensions against the closed forms and the peak objects; non-trivial = a potential within 5 widths"),
]
ASSUMPTIONS = ["equal seeds of numpy generators give equal random numbers"]
