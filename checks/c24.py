"""C24: generalised logistic, barrier and rise functions invert and saturate correctly."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import sens
from vlib.core import Part, expect, expect_close, expect_equal, raises
from vlib.gens import LOG, U, ints

NAMES = ("asymptote_left", "asymptote_right", "growth_rate", "asymmetry", "shape_factor", "denominator_offset", "offset")


@st.composite
def steps(draw, rising=False, unit=False):
    """A, K, B, nu, Q, C, offset."""
    A = draw(st.one_of(st.just(0.0), U(-2, 2)))
    h = draw(LOG(1e-3, 5))
    if not rising and draw(st.booleans()):
        h = -h
    B = draw(LOG(0.2, 800))
    if not rising and draw(ints(0, 3)) == 0:
        B = -B
    C = 1.0 if unit or draw(st.booleans()) else draw(LOG(0.3, 4))
    return [A, A + h, B, draw(st.one_of(st.just(1.0), LOG(0.02, 5), LOG(1e-5, 1e-2))) if C == 1.0 else draw(LOG(0.1, 5)), draw(LOG(0.01, 100)), C, draw(st.one_of(st.just(0.0), U(-2, 2)))]


def span(p):
    """Ends of the asymptotes' image: (value at -inf for growing argument, value at +inf)."""
    return p[0], p[0] + (p[1] - p[0]) / p[5] ** (1 / p[3])


def at(p, f):
    """Argument at which the fraction f of the way from the first to the last value is reached."""
    A, top = span(p)
    return sens.glf_inv(A + f * (top - A), *p)


@st.composite
def glf_cases(draw):
    return {"p": draw(steps()), "seed": draw(ints(0, 2**31)), "form": draw(ints(0, 2)), "kw": draw(st.booleans())}


def check_glf(c):
    from simcats.support_functions import glf, inverse_glf

    p = c["p"]
    rng = np.random.default_rng(c["seed"])
    A, top = span(p)
    f = np.sort(np.concatenate([rng.uniform(0.001, 0.999, 25), [1e-6, 1e-4, 0.5]]))
    x = np.array([at(p, v) for v in f])
    call = (lambda fn, a: fn(a, **dict(zip(NAMES, p)))) if c["kw"] else (lambda fn, a: fn(a, *p))
    y = call(glf, x)
    expect(isinstance(y, np.ndarray) and y.shape == x.shape, "an array of potentials does not give an array", got=type(y))
    # conditioning: the difference to the asymptotes carries the information
    expect_close(y, sens.glf(x, *p), "values of the generalised logistic function", rtol=1e-9, atol=1e-12 * abs(top - A))
    expect_close((y - A) / (top - A), f, "configured fraction of the way between the asymptotes", rtol=1e-6, atol=1e-9)
    expect(np.all(np.diff(y) * np.sign(top - A) >= 0), "not monotone between the asymptotes")
    lo, hi = min(A, top), max(A, top)
    t = 1e-12 * (abs(A) + abs(top))
    far = call(glf, p[6] + np.array([-1.0, 1.0]) * np.sign(p[2]) * (60 * (1 + p[3]) + 30) / abs(p[2]))
    expect(np.all((y >= lo - t) & (y <= hi + t)), "value beyond the asymptotes", got=[y.min(), y.max()], want=[lo, hi])
    expect_close(far, [A, top], "values far outside the step are the asymptotes", rtol=1e-9, atol=1e-9 * abs(top - A))
    # inverse on the open interval
    v = A + f * (top - A)
    z = call(inverse_glf, v)
    expect(np.shape(z) == v.shape, "the inverse of an array is no array of the same shape")
    scale = (1 + p[3]) / abs(p[2])  # width of the step
    expect_close((z - x) / scale, np.zeros(len(x)), "inverse of the generalised logistic function", rtol=0, atol=2e-5 if p[5] == 1 else 1e-3)
    mid = (f > 1e-3)
    expect_close(call(glf, z[mid]), v[mid], "function of its inverse", rtol=1e-9, atol=1e-9 * abs(top - A))
    # single numbers, integers
    a = float(x[c["form"]])
    s = call(glf, a)
    expect(np.ndim(s) == 0 and abs(s - y[c["form"]]) <= 1e-12 * (abs(s) + abs(top - A)), "a single potential gives another value than within an array", got=s, want=y[c["form"]])
    s = call(inverse_glf, float(v[-1]))
    expect(np.ndim(s) == 0 and abs(s - z[-1]) <= 1e-9 * (abs(s) + scale), "a single value has another inverse than within an array", got=s, want=z[-1])
    return True, ["rising" if top > A else "falling", "mirrored" if p[2] < 0 else "upright", "unit" if p[5] == 1 else "lowered"]


# ---------------------------------------------------------------- barriers
@st.composite
def barrier_cases(draw):
    multi = draw(ints(0, 2)) == 0
    ps = [draw(steps(rising=not multi, unit=True)) for _ in range(draw(ints(1, 4)) if multi else 1)]
    if draw(st.booleans()) and not multi:  # falling barrier: mirrored or swapped asymptotes
        p = ps[0]
        if draw(st.booleans()):
            p[2] = -p[2]
        else:
            p[0], p[1] = p[1], p[0]
    return {"multi": multi, "p": ps, "pinch": draw(LOG(1e-4, 0.3)), "full": 1 - draw(LOG(1e-4, 0.3)), "new": draw(steps(rising=True, unit=True)), "order": draw(st.permutations(range(7))), "seed": draw(ints(0, 2**31))}


def check_barrier(c):
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
    from simcats.support_functions import multi_glf

    rng = np.random.default_rng(c["seed"])
    grid = lambda ps: np.concatenate([[at(p, f) for f in rng.uniform(0.001, 0.999, 12)] for p in ps])  # noqa: E731
    if c["multi"]:
        x = grid(c["p"])
        flat = [v for p in c["p"] for v in p]
        b = BarrierFunctionMultiGLF(c["pinch"], c["full"], *flat)
        want = sum(sens.glf(x, *p) for p in c["p"])
        tol = 1e-11 * sum(abs(p[0]) + abs(p[1]) for p in c["p"])
        expect_close(b.get_value(x), want, "stepped barrier is not the sum of its steps", rtol=1e-9, atol=tol)
        z = x.copy()
        b.get_value(z)
        z[:] = x[::-1]
        expect_close(b.get_value(z), want[::-1], "stepped barrier after the potentials were changed in place", rtol=1e-9, atol=tol)
        expect_close(multi_glf(x, *flat), want, "sum of generalised logistic functions", rtol=1e-9, atol=tol)
        expect(abs(b.get_value(float(x[0])) - want[0]) <= 1e-9 * abs(want[0]) + tol, "stepped barrier at a single potential", got=b.get_value(float(x[0])), want=want[0])
        expect(b.pinch_off == c["pinch"] and b.fully_conductive == c["full"], "pinch-off or fully conductive point of a stepped barrier differ from the configured ones", got=[b.pinch_off, b.fully_conductive])
        expect(tuple(b.params) == tuple(flat), "parameters of a stepped barrier", got=b.params)
        k = c["seed"] % 6 + 1
        expect(raises(lambda: BarrierFunctionMultiGLF(0.0, 1.0, *flat, *[1.0] * k)), "incomplete step accepted")
        expect(raises(lambda: setattr(b, "params", tuple(flat) + (1.0,) * k)), "incomplete step accepted by the setter")
        expect_close(b.get_value(x), want, "barrier changed by a rejected update", rtol=1e-9, atol=tol)
        b.params = tuple(c["new"])
        y = grid([c["new"]])
        expect_close(b.get_value(y), sens.glf(y, *c["new"]), "updated stepped barrier", rtol=1e-9, atol=1e-11 * (abs(c["new"][0]) + abs(c["new"][1])))
        return True, ["multi", f"{len(c['p'])} steps"]
    p = c["p"][0]
    b = BarrierFunctionGLF(pinch_off_percentage=c["pinch"], fully_conductive_percentage=c["full"], **dict(zip(NAMES, p)))

    def verify(b, p, pinch, full, what):
        x = grid([p])
        A, K = p[0], p[1]
        tol = 1e-11 * (abs(A) + abs(K))
        expect_close(b.get_value(x), sens.glf(x, *p), what + ": barrier values", rtol=1e-9, atol=tol)
        x[:] = x[::-1].copy()  # the same array with other contents
        expect_close(b.get_value(x), sens.glf(x, *p), what + ": barrier values after the potentials were changed in place", rtol=1e-9, atol=tol)
        h, lo = abs(K - A), min(A, K)
        for f, pot, name in ((pinch, b.pinch_off, "pinch-off"), (full, b.fully_conductive, "fully conductive")):
            expect(np.ndim(pot) == 0 and math.isfinite(pot), f"{what}: {name} potential is not a number", got=pot)
            got = (float(b.get_value(pot)) - lo) / h
            expect(abs(got - f) <= 1e-7 + 1e-10 * (abs(A) + abs(K)) / h, f"{what}: barrier at its {name} potential", got=got, want=f)
            f2 = (float(sens.glf(pot, *p)) - lo) / h
            expect(abs(f2 - f) <= 1e-7 + 1e-10 * (abs(A) + abs(K)) / h, f"{what}: {name} potential", got=f2, want=f)
        up = (K > A) == (p[2] > 0)
        expect((b.pinch_off < b.fully_conductive) == up, f"{what}: order of pinch-off and fully conductive", got=[b.pinch_off, b.fully_conductive])

    verify(b, p, c["pinch"], c["full"], "new barrier")
    # without optional parameters
    d = BarrierFunctionGLF(c["pinch"], c["full"], *p[:5])
    verify(d, p[:5] + [1.0, 0.0], c["pinch"], c["full"], "barrier with defaults")
    # update one parameter at a time, in any order
    q = list(p)
    for i in c["order"]:
        q[i] = c["new"][i]
        setattr(b, NAMES[i], q[i])
        expect(getattr(b, NAMES[i]) == q[i], f"{NAMES[i]} was not stored", got=getattr(b, NAMES[i]))
        if q[0] != q[1]:
            verify(b, q, c["pinch"], c["full"], f"after setting {NAMES[i]}")
    b.pinch_off_percentage, b.fully_conductive_percentage = 0.4 * c["pinch"], 1 - 0.4 * (1 - c["full"])
    verify(b, q, 0.4 * c["pinch"], 1 - 0.4 * (1 - c["full"]), "after setting the fractions")
    expect(raises(lambda: setattr(b, "asymmetry", -p[3])) and raises(lambda: setattr(b, "asymmetry", 0)), "non-positive asymmetry accepted")
    expect(raises(lambda: BarrierFunctionGLF(c["pinch"], c["full"], p[0], p[1], p[2], -p[3], p[4])), "non-positive asymmetry accepted by the constructor")
    verify(b, q, 0.4 * c["pinch"], 1 - 0.4 * (1 - c["full"]), "after a rejected update")
    return True, ["single", "falling" if (p[1] < p[0]) != (p[2] < 0) else "rising"]


# ---------------------------------------------------------------- final rise
@st.composite
def rise_cases(draw):
    return {"p": draw(steps(rising=True, unit=True))[:6], "mu0": draw(st.one_of(st.just(0.0), U(-2, 2))), "full": 1 - draw(LOG(1e-4, 0.3)), "at": draw(st.lists(U(-2, 2), min_size=1, max_size=3)),
            "new": draw(steps(rising=True, unit=True))[:6], "order": draw(st.permutations(range(6))), "mu0b": draw(U(-2, 2)), "fullb": 1 - draw(LOG(1e-4, 0.3)), "seed": draw(ints(0, 2**31)), "def": draw(ints(0, 4)) == 0}


def check_rise(c):
    from simcats.sensor import SensorRiseGLF

    p, rng = c["p"], np.random.default_rng(c["seed"])
    if c["def"]:
        r = SensorRiseGLF(c["mu0"], *p[:5])
        full = 0.99
    else:
        r = SensorRiseGLF(mu0=c["mu0"], fully_conductive_percentage=c["full"], **dict(zip(NAMES, p)))
        full = c["full"]

    def verify(r, p, mu0, full, what):
        A, K = p[0], p[1]
        tol = 1e-10 * (abs(A) + abs(K)) + 1e-7 * abs(K - A)
        top = sens.glf_inv(A + full * (K - A), *p, mu0)
        w = (1 + p[3]) / abs(p[2])
        expect(abs(r.fully_conductive - top) <= 1e-5 * w + 1e-10 * abs(top), what + ": potential at which the rise reaches its maximum", got=r.fully_conductive, want=top)
        for pot in c["at"]:
            d = np.array([sens.glf_inv(A + f * (K - A), *p, 0.0) for f in np.sort(rng.uniform(0.01, 0.99, 10))]) - (top - mu0)
            got = r.sensor_function(pot + d, pot)
            expect(isinstance(got, np.ndarray) and got.shape == d.shape, what + ": shape of the response")
            z = pot + d[::-1]
            r.sensor_function(z, pot)
            z[:] = pot + d  # the same array with other contents
            expect_equal(r.sensor_function(z, pot), got, what + ": rise after the potentials were changed in place")
            want = sens.glf(d, *p, -(top - mu0))
            # cancellation of pot + d - pot costs digits relative to the width of the step
            loss = 1e-14 * (abs(pot) + abs(top) + abs(mu0) + 1) / w
            expect_close(got, want, what + ": rise around the fully conductive potential", rtol=0, atol=tol + 40 * loss * abs(K - A) * (1 + 1 / p[3] if p[3] > 1e-2 else 10))
            expect(np.all(np.diff(got) >= -tol), what + ": rise is not monotone")
            at_full = (float(r.sensor_function(np.array([pot]), pot)[0]) - A) / (K - A)
            expect(abs(at_full - full) <= 1e-6 + 40 * loss + 1e-10 * (abs(A) + abs(K)) / abs(K - A), what + ": fraction reached at the fully conductive potential", got=at_full, want=full)
            ends = r.sensor_function(pot + np.array([-1, 1]) * (60 * (1 + p[3]) + 30 + 10 / max(p[3], 0.2)) / p[2] + np.array([-1, 1]) * abs(top - mu0), pot)
            expect_close(ends, [A, K], what + ": rise does not saturate at its asymptotes", rtol=1e-9, atol=1e-8 * abs(K - A))

    verify(r, p, c["mu0"], full, "new rise")
    q, mu0 = list(p), c["mu0"]
    for i in c["order"]:
        q[i] = c["new"][i]
        setattr(r, NAMES[i], q[i])
        expect(getattr(r, NAMES[i]) == q[i], f"{NAMES[i]} was not stored")
        if q[1] > q[0]:
            verify(r, q, mu0, full, f"after setting {NAMES[i]}")
    r.mu0 = c["mu0b"]
    verify(r, q, c["mu0b"], full, "after setting mu0")
    r2 = SensorRiseGLF(mu0=c["mu0b"], fully_conductive_percentage=c["fullb"], **dict(zip(NAMES, q)))
    verify(r2, q, c["mu0b"], c["fullb"], "second rise")
    expect(raises(lambda: setattr(r, "asymmetry", -0.5)), "non-positive asymmetry accepted")
    return c["mu0"] != 0, ["mu0=0" if c["mu0"] == 0 else "shifted"]


PARTS = [
    Part("function", glf_cases, check_glf, quick=4000, thorough=80000, rule="random parameters (rising, falling, mirrored, denominator offset), values against an independent formula, monotone, bounded, saturating, inverted"),
    Part("barrier", barrier_cases, check_barrier, quick=2400, thorough=40000, rule="single and stepped barriers against the formula; value at the reported potentials equals the configured fractions; parameter updates in random order; malformed parameters rejected"),
    Part("rise", rise_cases, check_rise, quick=2400, thorough=40000, rule="rise placed at random fully conductive potentials; non-trivial: nonzero own shift"),
]
