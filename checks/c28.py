"""C28: plots show the data at the right voltages without changing it."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.core import Part, expect, expect_close, expect_equal
from vlib.dist import quiet
from vlib.gens import LOG, U, ints


@st.composite
def rng_(draw, const=False):
    c, w = draw(U(-2, 2)), draw(LOG(0.05, 5))
    if const and draw(ints(0, 3)) == 0:
        return [c, c]
    return [c, c + w] if draw(st.booleans()) else [c + w, c]


@st.composite
def cases(draw):
    two = draw(ints(0, 2)) > 0
    sh = [draw(ints(2, 30)), draw(ints(2, 30))] if two else [draw(ints(2, 120))]
    d = {"shape": sh, "seed": draw(ints(0, 2**31)), "dtype": draw(st.sampled_from(["float", "float", "int", "bool"])), "r1": draw(rng_(not two)), "r2": draw(rng_(not two)),
         "form": draw(ints(0, 2)), "sort": draw(st.sampled_from([None, True, False])), "nx": draw(ints(2, 8)), "ny": draw(ints(2, 8)), "ticks": draw(st.booleans()),
         "title": draw(st.one_of(st.none(), st.just("some title"))), "labels": draw(st.one_of(st.none(), st.just(["P1", "P2"]))), "unit": draw(st.one_of(st.none(), st.just("mV"))),
         "sensor": draw(st.one_of(st.none(), st.just("current"))), "view": draw(st.booleans()), "save": False}
    return d


def data(c):
    rng = np.random.default_rng(c["seed"])
    a = rng.normal(size=c["shape"])
    if c["dtype"] == "int":
        a = rng.integers(-5, 50, size=c["shape"])
    if c["dtype"] == "bool":
        a = rng.random(c["shape"]) < 0.4
        a.flat[0], a.flat[-1] = True, False
    if c["view"] and a.ndim == 2:
        a = np.asfortranarray(a)[:, ::-1][:, ::-1]
    return a


def scale(pos, text, lo, hi, n, what):
    """Checks the ticks of one axis: text (numbers) is the voltage at the position, the positions cover all n pixels."""
    pos, volt = np.array(pos, float), np.array(text, float)
    expect(len(pos) == len(volt) >= 2, f"{what}: ticks without labels", got=[len(pos), len(volt)])
    want = lo + (hi - lo) * pos / (n - 1)
    expect_close(volt, want, f"{what}: tick labels are not the voltages at their positions", rtol=0, atol=6e-4 + 1e-9)


def check(c):
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    from simcats.support_functions import plot_csd

    a = data(c)
    keep = a.copy()
    r1, r2 = [np.array, list, tuple][c["form"]](c["r1"]), [np.array, list, tuple][c["form"]](c["r2"])
    kw = {}
    for k, n in (("title", "title"), ("labels", "gate_labels"), ("unit", "voltage_unit"), ("sensor", "sensor_label"), ("sort", "sort_volts")):
        if c[k] is not None:
            kw[n] = c[k]
    nx, ny = 5, 5
    if c["ticks"]:
        nx, ny = c["nx"], c["ny"]
        kw.update(num_xticks=nx, num_yticks=ny)
    tmp = None
    if c["save"]:
        tmp = tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH"))
        kw["save_path"] = os.path.join(tmp.name, "plot.png")
    sort = c["sort"] is not False
    names, unit = c["labels"] or ["g1", "g2"], c["unit"] or "V"
    plt.close("all")
    try:
        quiet(plot_csd, a, r1, r2, **kw)
        expect(len(plt.get_fignums()) == 1, "not one figure", got=len(plt.get_fignums()))
        fig = plt.gcf()
        fig.canvas.draw()
        ax = fig.axes[0]
        xt, yt = ax.get_xticks(), ax.get_yticks()
        xl, yl = [t.get_text().replace("\N{MINUS SIGN}", "-") for t in ax.get_xticklabels()], [t.get_text().replace("\N{MINUS SIGN}", "-") for t in ax.get_yticklabels()]
        expect(len(xt) == nx and len(yt) == ny, "number of ticks", got=[len(xt), len(yt)], want=[nx, ny])
        v1, v2 = list(c["r1"]), list(c["r2"])
        b = keep
        if a.ndim == 2:
            if sort and v2[0] > v2[1]:
                b, v2 = b[::-1], v2[::-1]
            if sort and v1[0] > v1[1]:
                b, v1 = b[:, ::-1], v1[::-1]
            h, w = b.shape
            expect(len(ax.images) == 1, "not one image", got=len(ax.images))
            im = ax.images[0]
            left, right, bottom, top = im.get_extent()
            arr = np.array(im.get_array())
            expect(arr.shape == (h, w), "shape of the image", got=arr.shape, want=(h, w))
            # colour value shown at the centre of every pixel, in tick coordinates
            cols = np.floor((np.arange(w) - left) / (right - left) * w).astype(int)
            rows = np.floor((np.arange(h) - bottom) / (top - bottom) * h).astype(int)
            if im.origin == "upper":
                rows = h - 1 - rows
            expect(cols.min() >= 0 and cols.max() < w and rows.min() >= 0 and rows.max() < h, "image does not cover the pixel positions")
            expect_equal(arr[np.ix_(rows, cols)].astype(float), b.astype(float), "image values at the gate voltages (first gate horizontal)")
            scale(xt, xl, v1[0], v1[1], w, "horizontal axis")
            scale(yt, yl, v2[0], v2[1], h, "vertical axis")
            p0, p1 = ax.transData.transform([(0, 0), (w - 1, h - 1)])
            expect(p1[0] > p0[0] and p1[1] > p0[1], "the first voltages are not at the left and at the bottom")
            # a square of the voltage plane is drawn as a square
            w1, w2 = abs(v1[1] - v1[0]) / w, abs(v2[1] - v2[0]) / h
            box = im.axes.get_aspect()
            expect(not isinstance(box, str) and abs(float(box) / (w2 / w1) - 1) < 1e-9, "both axes do not have the same scale in volts", got=box, want=w2 / w1)
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            expect(min(x0, x1) <= 0 and max(x0, x1) >= w - 1 and min(y0, y1) <= 0 and max(y0, y1) >= h - 1, "parts of the data lie outside the axes")
            lo, hi = im.get_clim()
            expect(lo <= b.min() and hi >= b.max(), "colours do not cover the data", got=[lo, hi])
            expect(names[0] in ax.get_xlabel() and unit in ax.get_xlabel() and names[1] in ax.get_ylabel() and unit in ax.get_ylabel(), "axis labels", got=[ax.get_xlabel(), ax.get_ylabel()])
            expect(names[1] not in ax.get_xlabel() and names[0] not in ax.get_ylabel(), "labels name the wrong gates", got=[ax.get_xlabel(), ax.get_ylabel()])
            expect(len(fig.axes) == 2 and (c["sensor"] or "Sensor signal [a.u.]") in (fig.axes[1].get_ylabel() + fig.axes[1].get_xlabel()), "colour bar and its label")
        else:
            if sort and v1[0] > v1[1]:
                b, v1, v2 = b[::-1], v1[::-1], v2[::-1]
            n = len(b)
            expect(len(ax.lines) == 1, "not one line", got=len(ax.lines))
            x, y = ax.lines[0].get_data()
            o = np.argsort(x)
            expect_equal(np.asarray(y)[o].astype(float), b.astype(float), "values along the line")
            expect_close(np.asarray(x)[o], np.arange(n), "positions along the line")
            parts = [t.strip("()").split(";") for t in xl]
            scale(xt, [p[0] for p in parts], v1[0], v1[1], n, "voltage of gate 1")
            scale(xt, [p[1] for p in parts], v2[0], v2[1], n, "voltage of gate 2")
            expect_close(yt, np.linspace(float(b.min()), float(b.max()), ny), "signal ticks", rtol=1e-9, atol=1e-9)
            p0, p1 = ax.transData.transform([(0, 0), (n - 1, 0)])
            expect(p1[0] > p0[0], "the first voltages are not at the left")
            lab = ax.get_xlabel()
            expect(names[0] in lab and names[1] in lab and unit in lab and lab.index(names[0]) < lab.index(names[1]), "axis label", got=lab)
            expect(ax.get_ylabel() == (c["sensor"] or "Sensor signal [a.u.]"), "signal label", got=ax.get_ylabel())
        expect(ax.get_title() == (c["title"] or ""), "title", got=ax.get_title())
        if tmp:
            expect(os.path.getsize(kw["save_path"]) > 1000, "plot was not saved")
        expect_equal(a, keep, "the data of the caller was changed")
        expect(list(r1) == c["r1"] and list(r2) == c["r2"], "the ranges of the caller were changed")
    finally:
        plt.close("all")
        if tmp:
            tmp.cleanup()
    return True, ["2d" if a.ndim == 2 else "1d", f"{'desc' if c['r1'][0] > c['r1'][1] else 'asc'}/{'desc' if c['r2'][0] > c['r2'][1] else 'asc'}", "sorted" if sort else "as given"]


BASE = {"shape": [7, 11], "seed": 1, "dtype": "float", "r1": [0.5, -0.3], "r2": [-0.2, 0.9], "form": 0, "sort": None, "nx": 5, "ny": 5, "ticks": False, "title": "t", "labels": None, "unit": None, "sensor": None, "view": False, "save": True}
PARTS = [Part("plot", cases, check, quick=480, thorough=12000, rule="random 1D and 2D data, ranges of all directions, options; value drawn at every gate voltage read back from the figure (ticks, extent, origin)",
              fixed=(BASE, {**BASE, "shape": [13], "r2": [0.1, 0.1]}))]
ASSUMPTIONS = ["figures are drawn with the Agg backend of matplotlib"]
