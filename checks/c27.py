"""C27: resetting the sensor offset pins the potential at the chosen point."""
import numpy as np
from hypothesis import strategies as st

from checks.c14 import ideals, mk_ideal, request
from vlib import gens, sens
from vlib.core import Part, expect, expect_close, raises
from vlib.dist import quiet
from vlib.gens import U, ints


@st.composite
def cases(draw):
    i = draw(ideals(draw(st.sampled_from(["toy", "model"]))))
    qs = [draw(request(i)) for _ in range(3)]
    return {"ideal": i, "s": draw(sens.generic(allow_none=False)), "qs": [{**q, "v": None} for q in qs], "targets": [draw(st.one_of(U(-2, 2), ints(-2, 2))) for _ in range(3)],
            "offs": [draw(st.one_of(U(-3, 3), ints(-3, 3))) for _ in range(3)], "form": draw(ints(0, 2)), "bare": draw(st.booleans()), "kw": draw(st.booleans())}


def grid(q):
    return np.array(q["res"]) if isinstance(q["res"], list) else q["res"]


def check(c):
    from simcats import Simulation
    from simcats.support_functions import reset_offset_mu_sens

    def new(off):
        sensor = sens.build({**c["s"], "peaks": None if c["bare"] else c["s"]["peaks"], "offset": off})
        return Simulation(ideal_csd_config=mk_ideal(c["ideal"]), sensor=sensor)

    form = [np.array, list, tuple][c["form"]]
    alpha_dot, alpha_gate = np.array(c["s"]["alpha_dot"]), np.array(c["s"]["alpha_gate"])
    sm = new(c["offs"][0])
    plain = new(c["offs"][0])
    done = 0
    for q, target, off in zip(c["qs"], c["targets"], c["offs"]):
        r1, r2 = form(q["r1"]), form(q["r2"])
        sm.sensor.offset_mu_sens = off
        reset = (lambda: quiet(reset_offset_mu_sens, dqd_sim=sm, target_mu_sens=target, sweep_range_g1=r1, sweep_range_g2=r2)) if c["kw"] else (lambda: quiet(reset_offset_mu_sens, sm, target, r1, r2))
        try:
            occ, _ = quiet(mk_ideal(c["ideal"]).get_csd_data, volt_limits_g1=np.array(q["r1"]), volt_limits_g2=np.array(q["r2"]), resolution=2)
        except IndexError:  # the line of the sweep ends past the last transition
            gens.rejected(c["ideal"], q["r1"], q["r2"], 2)
            expect(isinstance(raises(reset), IndexError), "reset past the last transition")
            expect(sm.sensor.offset_mu_sens == off, "rejected reset changed the offset", got=sm.sensor.offset_mu_sens)
            continue
        done += 1
        out = reset()
        expect(out is None, "reset returns something")
        want = target - (occ[0] @ alpha_dot + np.array([q["r1"][0], q["r2"][0]]) @ alpha_gate)
        expect(np.ndim(sm.sensor.offset_mu_sens) == 0, "the offset is no number", got=sm.sensor.offset_mu_sens)
        expect_close(sm.sensor.offset_mu_sens, want, "offset after the reset", rtol=0, atol=1e-12)
        p = sm.sensor.sensor_potential(occ, np.array(q["r1"]), np.array(q["r2"]))
        expect_close(p[0], target, "potential at the first point of the sweep", rtol=0, atol=1e-12)
        reset()
        expect_close(sm.sensor.offset_mu_sens, want, "second reset changed the offset", rtol=0, atol=2e-12)
        # the measurement of that sweep starts at the target and differs from the one before by a shift of the potential only
        try:
            a = quiet(sm.measure, np.array(q["r1"]), np.array(q["r2"]), resolution=grid(q))[:3]
        except IndexError:
            gens.rejected(c["ideal"], q["r1"], q["r2"], grid(q))
            a = None
        if a is not None:
            first = a[0].flat[0]
            resp = (lambda mu: mu) if c["bare"] else (lambda mu: sum(sens.peak(x, mu) for x in c["s"]["peaks"]))
            start = mk_ideal(c["ideal"]).get_csd_data(volt_limits_g1=np.array(q["r1"]), volt_limits_g2=np.array(q["r2"]), resolution=grid(q))[0].reshape(-1, 2)[0]
            mu = target + float((start - occ[0]) @ alpha_dot)  # 0 shift unless the pixel grid alters the look-up of the point
            expect_close(first, resp(mu), "first pixel of the measurement", rtol=1e-9, atol=1e-9)
            if "toy" in c["ideal"]:
                expect_close(start, occ[0], "occupation of the first pixel", rtol=0, atol=1e-12)
            plain.sensor.offset_mu_sens = float(want)
            b = quiet(plain.measure, np.array(q["r1"]), np.array(q["r2"]), resolution=grid(q))[:3]
            for x, y, n in zip(a, b, ("signal", "occupations", "transitions")):
                expect_close(np.array(x, float), np.array(y, float), f"reset changed more than the offset: {n}", rtol=1e-9, atol=1e-9)
        expect(np.array_equal(np.array(sm.sensor.alpha_dot), alpha_dot) and np.array_equal(np.array(sm.sensor.alpha_gate), alpha_gate), "reset changed a lever arm")
        expect(list(r1) == list(q["r1"]) and list(r2) == list(q["r2"]), "reset changed the ranges")
    return done > 0, ["toy" if "toy" in c["ideal"] else "geometric", f"{done} resets"]


PARTS = [Part("reset", cases, check, quick=1600, thorough=40000, rule="sequences of three resets at random sweeps (2D, 1D, both directions) with random targets and previous offsets against the potential formula; non-trivial: at least one reset accepted")]
ASSUMPTIONS = ["applies to the plain charge sensor (one potential and one offset)"]
