"""Independent reference models (written from the documentation of the parameters, not from the code).

A total charge transition (TCT) in its rotated frame is a polyline whose vertices alternate between maxima and minima;
each vertex is replaced by a quadratic Bezier blend between the two anchors on the adjacent segments.
"""
import numpy as np


class Tct:
    """params: [len_left, len_right, slope_left, slope_right, x_left, y_left, x_right, y_right] of the first bend."""

    def __init__(self, params, max_peaks):
        self.L, self.R, self.gl, self.gr, self.xa, self.ya, self.xb, self.yb = [float(v) for v in params]
        self.m = max_peaks
        if self.xa == self.xb and self.ya == self.yb:
            self.xc, self.yc = self.xa, self.ya
        else:
            # intersection of the two straight flanks
            self.xc = (self.ya - self.yb + self.xb * self.gr - self.xa * self.gl) / (self.gr - self.gl)
            self.yc = self.ya + self.gl * (self.xc - self.xa)
        self.dl = self.xc - self.xa
        self.dr = self.xb - self.xc

    def vertex(self, i):
        """Centre of bend i (even: maximum, odd: minimum); any integer i."""
        k, odd = divmod(i, 2)
        x = self.xc + k * (self.L + self.R)
        y = self.yc + k * (self.L * self.gl + self.R * self.gr)
        if odd:
            x, y = x + self.R, y + self.R * self.gr
        return x, y

    def bends(self):
        """Anchors of all bends, shape (2m-1, 3, 2), in the rotated frame."""
        out = []
        for i in range(2 * self.m - 1):
            x, y = self.vertex(i)
            if i % 2 == 0:
                s0, d0, s1, d1 = self.gl, self.dl, self.gr, self.dr
            else:
                s0, d0, s1, d1 = self.gr, self.dr, self.gl, self.dl
            out.append([[x - d0, y - d0 * s0], [x, y], [x + d1, y + d1 * s1]])
        return np.array(out)

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        shape = x.shape
        x = np.atleast_1d(x).ravel()
        P = self.L + self.R
        if self.m is None:
            lo = int(np.floor((x.min() - self.xc) / P)) * 2 - 2
            hi = int(np.ceil((x.max() - self.xc) / P)) * 2 + 2
        else:
            lo, hi = 0, 2 * self.m - 2
        n = hi - lo + 1
        vx = np.array([self.vertex(i)[0] for i in range(lo, hi + 1)])
        vy = np.array([self.vertex(i)[1] for i in range(lo, hi + 1)])
        even = np.array([i % 2 == 0 for i in range(lo, hi + 1)])
        j = np.clip(np.searchsorted(vx, x, side="right") - 1, 0, n - 1)  # vertex at or left of x (0 if left of all)
        # slope of the segment that starts in vertex j; left of all vertices: incoming slope of the first
        slope_out = np.where(even, self.gr, self.gl)
        slope_in = np.where(even, self.gl, self.gr)
        y = np.where(x < vx[0], vy[0] + slope_in[0] * (x - vx[0]), vy[j] + slope_out[j] * (x - vx[j]))
        # blends around the nearest vertices on both sides
        for cand in (j, np.minimum(j + 1, n - 1)):
            d0 = np.where(even[cand], self.dl, self.dr)
            d1 = np.where(even[cand], self.dr, self.dl)
            u = x - vx[cand]
            inside = (u > -d0) & (u < d1)
            if not inside.any():
                continue
            ui, a, b = u[inside], d0[inside], d1[inside]
            si, so = slope_in[cand][inside], slope_out[cand][inside]
            # x(t) = -a(1-t)^2 + b t^2 (relative to the vertex)  ->  (b-a) t^2 + 2a t - a - u = 0
            q = a + ui
            t = 2 * q / (2 * a + np.sqrt(np.maximum(4 * a * a + 4 * (b - a) * q, 0.0)))
            y[inside] = vy[cand][inside] - si * a * (1 - t) ** 2 + so * b * t**2
        return y.reshape(shape)

    def lut_tol(self, lut):
        """Largest error a nearest-entry lookup table with `lut` samples over the bend can make."""
        if not lut:
            return 0.0
        return max(abs(self.gl), abs(self.gr)) * max(self.dl, self.dr) / (lut - 1) * 1.01


def rot(points, angle):
    """Counter-clockwise rotation of points (..., 2)."""
    p = np.asarray(points, dtype=float)
    c, s = np.cos(angle), np.sin(angle)
    return np.stack([c * p[..., 0] - s * p[..., 1], s * p[..., 0] + c * p[..., 1]], axis=-1)


def cdf(x, x0, gam, kind):
    """Cumulative distribution; gam == 0 is the step function."""
    x = np.asarray(x, dtype=float)
    if abs(gam) < 1e-8:
        return (x - x0 > 0).astype(float)
    if kind == "sigmoid":
        return 1.0 / (1.0 + np.exp(np.clip(-2 * (x - x0) / gam, -700, 700)))
    return np.arctan2(gam, x0 - x) / np.pi if gam > 0 else np.arctan2(-gam, x - x0) / np.pi


GAMMA_FACTOR = {"sigmoid": 2.2, "cauchy": 6.15}


class ChargeModel:
    """Pointwise electron numbers of a geometric charge stability diagram."""

    def __init__(self, tct_params, rotation=-np.pi / 4, lut=None, cdf_type="sigmoid", factor=None):
        self.t = [Tct(p, n + 1) for n, p in enumerate(tct_params)]
        self.rotation, self.lut, self.kind = rotation, lut, cdf_type
        self.factor = GAMMA_FACTOR[cdf_type] if factor is None else factor

    def total(self, pts, tol=0.0):
        """(total electron number, ambiguous) for voltage points (..., 2): number of successive transitions at or below."""
        r = rot(pts, -self.rotation)
        total = np.zeros(r.shape[:-1], dtype=int)
        amb = np.zeros(r.shape[:-1], dtype=bool)
        going = np.ones(r.shape[:-1], dtype=bool)
        for t in self.t:
            d = r[..., 1] - t(r[..., 0])
            amb |= going & (np.abs(d) <= t.lut_tol(self.lut) + tol)
            going = going & (d >= 0)
            total += going
        return total, amb

    def interdot(self, reg):
        """Reference line (two voltage points) and (centre, gamma) list of region reg (1 <= reg < number of TCTs)."""
        lo = rot(self.t[reg - 1].bends(), self.rotation)
        hi = rot(self.t[reg].bends(), self.rotation)
        return hi[1, 1], lo[0, 1], lo

    def dot1(self, pts, reg):
        """Occupation of the first dot for points lying in region reg."""
        pts = np.asarray(pts, dtype=float)
        if reg == 0:
            return np.zeros(pts.shape[:-1])
        p0, p1, lo = self.interdot(reg)
        # unit normal to the right of the direction peak -> valley: there the next electron sits in the first dot
        d = p0 - p1
        n = np.array([d[1], -d[0]]) / np.hypot(*d)
        s = (pts - p0) @ n
        occ = np.zeros(pts.shape[:-1])
        for k in range(0, len(lo), 2):
            c = float((lo[k, 1] - p0) @ n)
            g = float((lo[k, 2] - lo[k, 0]) @ n) / self.factor
            occ += cdf(s, c, g, self.kind)
        return occ


def grid(r1, r2, res):
    """Voltage points of a scan. 2D: (res2, res1, 2); 1D (int or length-1): (res, 2)."""
    res = np.atleast_1d(res)
    if len(res) == 1:
        return np.stack([np.linspace(r1[0], r1[1], int(res[0])), np.linspace(r2[0], r2[1], int(res[0]))], axis=-1)
    x, y = np.meshgrid(np.linspace(r1[0], r1[1], int(res[0])), np.linspace(r2[0], r2[1], int(res[1])))
    return np.stack([x, y], axis=-1)
