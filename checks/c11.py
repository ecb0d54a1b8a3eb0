"""C11: a charge-stability measurement is the composition of ideal data, distortions and sensor."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import build, dist, gens, sens
from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import LOGBOOK, quiet
from vlib.gens import U, ints


def compose(ideal, sensor, d, r1, r2, volts, res):
    """The measurement written out by hand; d: the three lists of live distortion objects."""
    def stage(prev, noise):
        def gen(volt_limits_g1, volt_limits_g2, resolution):
            o, l = prev(volt_limits_g1=volt_limits_g1, volt_limits_g2=volt_limits_g2, resolution=resolution)
            return noise(o, l, volt_limits_g1, volt_limits_g2, prev, freeze=True)
        return gen

    gen = ideal.get_csd_data
    occ, lead = gen(volt_limits_g1=r1, volt_limits_g2=r2, resolution=res)
    for x in d["occ"] or []:
        occ, lead = x.noise_function(occ, lead, r1, r2, gen)
        gen = stage(gen, x.noise_function)
    if volts is False:
        pots = [sensor.sensor_potential(occupations=occ, volt_limits_g1=r1, volt_limits_g2=r2)]
    else:
        pots = list(sensor.sensor_potential(occupations=occ, volt_limits_g1=r1, volt_limits_g2=r2, volt_limits_sensor_g1=volts[0], volt_limits_sensor_g2=volts[1]))
    for x in d["pot"] or []:
        for k in range(len(pots)):
            pots[k] = x.noise_function(mu_sens=pots[k], volt_limits_g1=r1, volt_limits_g2=r2)
    csd = sensor.sensor_response(pots[0] if volts is False else np.array(pots))
    for x in d["resp"] or []:
        csd = x.noise_function(sensor_response=csd, volt_limits_g1=r1, volt_limits_g2=r2)
    return csd, occ, lead


@st.composite
def cases(draw, geometric=False):
    if geometric:
        m = draw(gens.models(n_max=4))
        if draw(st.booleans()):
            r1, r2, kind = draw(gens.lines(m, top=False, far=False))
            w = {"r1": r1, "r2": r2, "kind": kind, "res": draw(ints(2, 30 if draw(ints(0, 39)) else 100))}
        else:
            r1, r2 = draw(gens.windows(m, top=False, far=False))
            w = {"r1": r1, "r2": r2, "kind": "2d", "res": draw(gens.res2d(3, 15) if draw(ints(0, 39)) else gens.res2d(16, 40))}
        ideal = {"model": m}
    else:
        w = draw(dist.toy_windows())
        ideal = {"toy": draw(dist.toys())}
    kind = draw(st.sampled_from(["log", "generic", "scan"]))
    if kind == "scan":
        sw = draw(sens.sensor_windows())
        s = {**draw(sens.scan_sensor(*sw, deform_ok=draw(st.booleans()), rise="any")), "at": draw(st.one_of(st.none(), st.just([float(np.mean(sw[0])), float(np.mean(sw[1]))])))}
    else:
        s = {**draw(sens.generic()), "log": kind == "log"}
    return {**ideal, **w, "sensor": s, "stack": draw(dist.stack(dist.extent(w))), "form": draw(ints(0, 2)), "rform": draw(ints(0, 2)), "n": draw(ints(1, 3))}


def build_sensor(s):
    x = sens.build(s)
    if s.get("log"):
        x = dist.LogSensor(sensor_peak_function=sens.build_peaks(s["peaks"]), alpha_dot=np.array(s["alpha_dot"]), alpha_gate=np.array(s["alpha_gate"]), offset_mu_sens=s["offset"])
    return x


def check(c):
    from simcats import Simulation

    make = lambda: build.ideal(c["model"]) if "model" in c else dist.build_toy(c["toy"])  # noqa: E731
    s = c["sensor"]
    d = dist.build_stack(c["stack"])
    sm = Simulation(ideal_csd_config=make(), sensor=build_sensor(s), occupation_distortions=d["occ"], sensor_potential_distortions=d["pot"], sensor_response_distortions=d["resp"])
    volts = False if s["kind"] == "generic" else (s["at"] or [None, None])
    kw = {} if volts is False or volts[0] is None else dict(volt_sensor_g1=volts[0], volt_sensor_g2=volts[1])
    ideal, sensor, hand = make(), build_sensor(s), copy.deepcopy(dist.build_stack(c["stack"]))
    rf = {0: np.array, 1: list, 2: tuple}[c["rform"]]
    r1, r2 = rf(c["r1"]), rf(c["r2"])
    acted = False
    for i in range(c["n"]):
        res = dist.resolution(c["res"], c["form"])
        LOGBOOK.clear()
        got = err = want = None
        try:
            got = quiet(sm.measure, sweep_range_g1=r1, sweep_range_g2=r2, resolution=res, **kw)[:3]
        except IndexError as e:  # reaches past the last transition of a geometric model
            if "toy" in c:
                raise
            err = e
        calls = list(LOGBOOK)
        LOGBOOK.clear()
        try:
            want = quiet(compose, ideal, sensor, hand, rf(c["r1"]), rf(c["r2"]), volts, dist.resolution(c["res"], c["form"]))
        except IndexError:
            expect(err is not None, f"measurement {i}: delivered data although the window reaches past the last transition")
            gens.rejected(c, c["r1"], c["r2"], c["res"])
            return False, ["rejected"]
        if err is not None:
            raise err
        expect(calls == LOGBOOK, f"measurement {i}: distortions and sensor were not called once each, in order, with the limits and shapes of the measurement", got=[x[:1] + x[2:] for x in calls], want=[x[:1] + x[2:] for x in LOGBOOK])
        for n, a, b in zip(("signal", "occupations", "transition mask"), got, want):
            expect_close(a, b, f"measurement {i}: {n} differs from the composition", rtol=1e-9, atol=1e-11)
        expect(list(r1) == list(c["r1"]) and list(r2) == list(c["r2"]) and np.array_equal(res, c["res"] if isinstance(c["res"], list) else np.reshape(c["res"], np.shape(res))), "the arguments were modified")
    nd = {k: len(c["stack"][k] or []) for k in ("occ", "pot", "resp")}
    return sum(nd.values()) > 0, [c["kind"], s["kind"], f"{sum(nd.values())} distortions"] + [k for k in nd if nd[k] > 1]


PARTS = [
    Part("toy", cases, check, quick=4800, thorough=80000, rule="random distortion stacks (own recording ones and all built-in ones, 0-3 per stage, any order) over a cheap smooth model, plain, recording and barrier-coupled sensors, 1-3 measurements in a row; non-trivial = at least one distortion"),
    Part("geometric", lambda: cases(True), check, quick=480, thorough=8000, rule="the same over geometric charge models; non-trivial = at least one distortion"),
]
ASSUMPTIONS = ["the composition uses the distortions', the model's and the sensor's own implementations; these are judged by C01-C10 and C17-C22"]
