# -*- coding: utf-8 -*-
"""C24: phase, delay, smoothing and interpolation of labelled data."""
import cmath
import math
from fractions import Fraction as Fr

import numpy as np

from mc.engine import Space, Prune, Named
from hftools.dataset import hfarray, DimSweep, DimRep
import hftools.math as hm

ASSUMPTIONS = [
    "phase, delay and smoothing work along the first axis (smooth along the "
    "given axis); samples are finite and non zero where a phase is needed",
    "where a phase lies exactly on the border of an interval either end of "
    "the interval is right",
    "abscissas of interpolations are ascending"]

EPS = 1e-9
PI = math.pi


def hf(x, names="freq", labels=None):
    x = np.array(x)
    dims = []
    for ax, n in enumerate(names if isinstance(names, tuple) else (names,)):
        lab = labels if (labels is not None and ax == 0) \
            else range(10 * ax + 1, 10 * ax + 1 + x.shape[ax])
        dims.append(DimSweep(n, list(lab)))
    return hfarray(x, dims=tuple(dims))


def same_dims(ctx, res, ref, what):
    ctx.check(isinstance(res, hfarray) and [d.name for d in res.dims]
              == [d.name for d in ref.dims] and
              all(np.asarray(a.data).tolist() == np.asarray(b.data).tolist()
                  for a, b in zip(res.dims, ref.dims)),
              lambda: "%s: dims %r, expected %r"
              % (what, getattr(res, "dims", None), ref.dims))


ANGLES = [0, 1, 45, 89, 90, 91, 135, 179, 180, 181, 225, 270, 315, 359]
MAGS = [1.0, 1e-6, 1e9, 2.5]
BRANCH = [None, 0, -180, 90, -90, 180, -360, 720, 33, -200.5]


def angle(ctx):
    """angles lie in the asked interval and describe the same direction"""
    deg = ctx.flag("deg")
    branch = ctx.choose("branch", BRANCH)
    mag = ctx.choose("mag", MAGS)
    kind = ctx.choose("kind", ["hfarray", "ndarray", "scalar", "0-d hfarray",
                               "2-d hfarray", "list"])
    z = [mag * cmath.exp(1j * PI * a / 180) for a in ANGLES]
    z[0], z[8], z[4], z[11] = mag + 0j, -mag + 0j, mag * 1j, -mag * 1j
    kw = {}
    if branch is not None:
        kw["branch"] = branch if deg else branch * PI / 180
    elif ctx.flag("explicit None"):
        kw["branch"] = None
    full = 360. if deg else 2 * PI
    low = (-180. if deg else -PI) if branch is None else kw["branch"]
    if kind == "scalar":
        res = [hm.angle(x, deg, **kw) for x in z]
        zz = np.array(z)
    elif kind == "0-d hfarray":
        res = [hm.angle(hfarray(x), deg, **kw) for x in z]
        ctx.check(all(isinstance(r, hfarray) and r.dims == () for r in res),
                  "0-d result")
        zz = np.array(z)
    else:
        arg = np.array(z)
        if kind == "hfarray":
            arg = hf(z)
        elif kind == "2-d hfarray":
            arg = hf(np.array(z).reshape(2, 7), ("freq", "g"))
        elif kind == "list":
            arg = list(z)
        keep = repr(arg)
        res = hm.angle(arg, deg, **kw)
        ctx.check(repr(arg) == keep, "argument was modified")
        if "hfarray" in kind:
            same_dims(ctx, res, arg, "angle")
        zz = np.array(arg)
    res = np.array(res, float).ravel()
    zz = zz.ravel()
    ctx.check(res.shape == zz.shape, "shape")
    for r, x in zip(res, zz):
        ctx.check(low - EPS * full <= r <= low + full * (1 + EPS),
                  lambda: "angle %r of %r is outside [%r, %r]"
                  % (r, x, low, low + full))
        rad = r * PI / 180 if deg else r
        ctx.check(abs(cmath.exp(1j * rad) - x / abs(x)) < 1e-8,
                  lambda: "angle of %r (deg=%r branch=%r) is %r"
                  % (x, deg, branch, r))
        ctx.step()
    if branch is None:
        ctx.check((res > low).all(), "-180 instead of 180")
    ctx.observe(res.round(6).tolist())


PAIRS = [Named("scalar scalar", ("s", "s")), Named("freq scalar", ("f", "s")),
         Named("scalar freq", ("s", "f")), Named("freq freq", ("f", "f")),
         Named("freq g", ("f", "g")), Named("g freq", ("g", "f"))]


def polar(ctx):
    """dB, dBinv and the conversions to complex numbers"""
    how = ctx.choose("function", ["dB_angle_to_complex",
                                  "mag_angle_to_complex",
                                  "re_im_to_complex"])
    pair = ctx.choose("operands", PAIRS).value
    dtype = ctx.choose("dtype", [float, int])
    i0 = ctx.choose("start", 5)
    A = [-40, -3, 0, 6, 20, 13, 1]
    B = [-180, -90, 0, 30, 90, 270, 1000]
    if how == "re_im_to_complex":
        B = [-2, -1, 0, 1, 5, 7, 3]

    def make(vals, k):
        if k == "s":
            return dtype(vals[i0]), None
        n = 3 if k == "f" else 2
        v = [dtype(vals[(i0 + i) % len(vals)]) for i in range(n)]
        return hf(v, "freq" if k == "f" else "g"), v

    a, av = make(A, pair[0])
    b, bv = make(B, pair[1])
    res = getattr(hm, how)(a, b)

    def f(x, y):
        if how == "re_im_to_complex":
            return complex(x, y)
        m = 10 ** (x / 20.) if how[0] == "d" else x
        return m * complex(math.cos(y * PI / 180), math.sin(y * PI / 180))

    names = []
    for k, n in (("f", "freq"), ("g", "g")):
        if k in pair:
            names.append((k, n))
    want = np.empty([3 if k == "f" else 2 for k, _n in names], complex)
    for idx in np.ndindex(*want.shape):
        at = dict((k, i) for (k, _n), i in zip(names, idx))
        x = a if pair[0] == "s" else av[at[pair[0]]]
        y = b if pair[1] == "s" else bv[at[pair[1]]]
        want[idx] = f(x, y)
    got = res
    if names:
        ctx.check(sorted(d.name for d in got.dims)
                  == sorted(n for _k, n in names),
                  lambda: "dims %r" % (got.dims,))
        order = [[d.name for d in got.dims].index(n) for _k, n in names]
        got = np.transpose(np.asarray(got), order)
    got = np.asarray(got)
    ctx.check(got.shape == want.shape and
              np.allclose(got, want, rtol=1e-12, atol=1e-12),
              lambda: "%s(%r, %r) is %r, expected %r" % (how, a, b, got,
                                                         want))
    ctx.step(want.size)
    z = np.asarray(got).ravel()
    for x in z:
        if abs(x) > 0:
            d = hm.dB(x)
            ctx.check(abs(d - 20 * math.log10(abs(x))) < 1e-9,
                      lambda: "dB(%r) is %r" % (x, d))
            ctx.check(abs(hm.dBinv(d) - abs(x)) <= 1e-12 * abs(x),
                      lambda: "dBinv(dB(%r)) is %r" % (x, hm.dBinv(d)))
    if names:
        h = abs(res) + 1
        d = hm.dB(h)
        same_dims(ctx, d, h, "dB")
        e = hm.dBinv(d)
        same_dims(ctx, e, h, "dBinv")
        ctx.check(np.allclose(np.asarray(e), np.asarray(h)), "dBinv(dB)")
    ctx.observe((how, want.round(9).tolist()))


STEPS = [0, 40, 90, 170, -40, -120, -175]


def unwrap(ctx):
    """the unwrapped phase has no jumps and is the phase"""
    start = ctx.choose("start", [0, 100, 179, -179, 90, -30])
    n = ctx.choose("samples", [1, 2, 3, 4] if ctx.tier == "quick"
                   else [1, 2, 3, 4, 5])
    ph = [start]
    for i in range(n - 1):
        ph.append(ph[-1] + ctx.choose("step", STEPS))
    mags = ctx.choose("mags", [[1.0, 3.0, 1e-3, 7.0, 2.0],
                               [1e9, 1.0, 5.0, 1.0, 1.0]])
    deg = ctx.flag("deg")
    curves = ctx.choose("curves", ["one", "two", "three dims"]
                        if n < 4 or ctx.tier != "quick" else ["one"])
    base = [m * cmath.exp(1j * p * PI / 180) for m, p in zip(mags, ph)]
    truth = np.array(ph, float)
    if curves == "one":
        data = hf(base)
    else:
        off = ctx.choose("offset", [0, 10, 100, 179, -20, -170])
        second = [x * 2 * cmath.exp(1j * off * PI / 180) for x in base]
        arr = np.array([base, second]).T
        if curves == "two":
            data = hf(arr, ("freq", "g"))
        else:
            data = hf(arr[:, :, None], ("freq", "g", "h"))
        truth = np.array([ph, [p + off for p in ph]]).T.astype(float)
        if curves != "two":
            truth = truth[:, :, None]
    keep = np.asarray(data).tolist()
    res = hm.unwrap_phase(data, deg=deg)
    ctx.check(np.asarray(data).tolist() == keep, "argument was modified")
    same_dims(ctx, res, data, "unwrap_phase")
    r = np.asarray(res)
    r = r if deg else r * 180 / PI
    turns = (r - truth) / 360.
    ctx.check(np.allclose(turns, turns.round(), atol=1e-7), lambda:
              "phase of %r is %r" % (truth, r))
    k = turns.round()
    ctx.check((k == k[:1]).all(), lambda: "phase jumps: %r instead of %r"
              % (r, truth))
    first = r[0].ravel()
    ctx.check(-180 - 1e-6 <= first[0] <= 180 + 1e-6,
              lambda: "first phase is %r" % first[0])
    for x in first:
        ctx.check(-540 <= x <= 540, lambda: "phase %r" % x)
        near = (x - first[0]) % 360
        near = min(near, 360 - near)
        if near < 110:
            ctx.check(abs(abs(x - first[0]) - near) < 1e-6, lambda: "curves "
                      "start %r apart instead of %r" % (x - first[0], near))
    ctx.step(r.size)
    sq = hm.continous_phase_sqrt(data)
    same_dims(ctx, sq, data, "continous_phase_sqrt")
    s = np.asarray(sq)
    z = np.asarray(data)
    ctx.check(np.allclose(s * s, z, rtol=1e-9, atol=0),
              lambda: "root of %r is %r" % (z, s))
    for i in range(1, n):
        d = s[i] / s[i - 1] / abs(s[i] / s[i - 1])
        e = np.exp(1j * (truth[i] - truth[i - 1]) * PI / 360)
        ctx.check(np.allclose(d, e, atol=1e-7), "root is not continous")
    ctx.state((n, curves, ph))
    ctx.observe(r.round(6).tolist())


def real_phase(ctx):
    """phase of real samples of any type"""
    dtype = ctx.choose("dtype", ["int32", "int64", "float32", "float64",
                                 "complex64", "complex128"])
    vals = [ctx.choose("sign", [1, -1]) * (i + 1)
            for i in range(ctx.choose("samples", [1, 2, 3, 4]))]
    data = hf(np.array(vals, dtype=dtype))
    r = np.asarray(hm.unwrap_phase(data), float)
    for i, v in enumerate(vals):
        ctx.check(abs(cmath.exp(1j * r[i]) - (1 if v > 0 else -1)) < 1e-5,
                  lambda: "phase of %r is %r" % (vals, r))
        if i:
            ctx.check(abs(r[i] - r[i - 1]) <= PI + 1e-5, "jump")
        ctx.step()
    ctx.observe(r.round(4).tolist())


def delay(ctx):
    """group delay at the mid frequencies"""
    grid = ctx.choose("grid", [[1., 2., 3., 4.], [0., 1., 3., 7.],
                               [1e9, 1.5e9], [4., 3., 2., 1.],
                               [2., 3., 5.]])
    span = max(abs(b - a) for a, b in zip(grid, grid[1:]))
    frac = [ctx.choose("delay", [0, 0.1, 0.45, -0.1, -0.45])
            for _ in grid[1:]]
    shape = ctx.choose("shape", ["1-d", "2-d", "2-d reversed"])
    tau = [f / span for f in frac]
    ph = [0.3]
    for i, t in enumerate(tau):
        ph.append(ph[-1] - 2 * PI * t * (grid[i + 1] - grid[i]))
    freq = hf(grid, labels=grid)
    z = np.array([(i + 1) * cmath.exp(1j * p) for i, p in enumerate(ph)])
    if shape == "1-d":
        data = hf(z, labels=grid)
    else:
        data = hf(np.array([z, z * 1j, -z]).T, ("freq", "g"), labels=grid)
        if shape == "2-d reversed":
            data = hf(np.array([z, z.conj()]).T, ("freq", "g"), labels=grid)
    f, t = hm.delay(freq, data)
    f, t = np.asarray(f), np.asarray(t)
    want = np.array(tau)
    if shape != "1-d":
        want = np.array([tau] * 3).T
        if shape == "2-d reversed":
            want = np.array([tau, [-x for x in tau]]).T
    mid = np.array([(a + b) / 2 for a, b in zip(grid, grid[1:])])
    ctx.check(np.allclose(f.reshape(len(mid), -1).mean(1), mid),
              lambda: "frequencies %r expected %r" % (f, mid))
    ctx.check(t.shape == want.shape and
              np.allclose(t, want, atol=1e-9 / span, rtol=1e-9),
              lambda: "delay %r expected %r" % (t, want))
    ctx.step(t.size)
    ctx.observe((f.tolist(), t.round(12).tolist()))


VAL = [1, 2, -3, 4, 10, 0, 5]


def window(n, i, aperture):
    """samples that are averaged for sample i of n"""
    w = min(i, aperture // 2, n - 1 - i)
    if w == 0:
        return [i]
    return list(range(i - w, i + w + aperture % 2))


def smooth(ctx):
    """running mean, narrower towards the ends"""
    n = ctx.choose("samples", [1, 2, 3, 4, 5, 6, 7])
    aperture = ctx.choose("aperture", [0, 1, 2, 3, 4, 5, 6, 7, 8, 20])
    kind = ctx.choose("kind", ["list", "ndarray", "hfarray"])
    dtype = ctx.choose("dtype", ["int64", "float64", "complex128"])
    ndim = ctx.choose("ndim", [1, 2, 3])
    axis = ctx.choose("axis", list(range(-ndim, ndim)) + [None])
    ax = 0 if axis is None else axis % ndim
    shape = [2, 3, 2][:ndim]
    shape[ax] = n
    data = np.empty(shape, dtype)
    for idx in np.ndindex(*shape):
        k = VAL[(sum((3 * j + 1) * i for j, i in enumerate(idx))) % 7]
        data[idx] = k * (1 + 2j) if dtype[0] == "c" else k
    arg = data.copy()
    if kind == "list":
        arg = data.tolist()
    elif kind == "hfarray":
        arg = hf(data, ("freq", "g", "h")[:ndim])
    kw = {} if axis is None else {"axis": axis}
    keep = repr(arg)
    res = hm.smooth(arg, aperture, **kw)
    ctx.check(repr(arg) == keep, "argument was modified")
    if kind == "hfarray":
        same_dims(ctx, res, arg, "smooth")
    want = np.empty(shape, complex)
    for idx in np.ndindex(*shape):
        w = window(n, idx[ax], aperture)
        acc = 0
        for j in w:
            acc += complex(data[idx[:ax] + (j,) + idx[ax + 1:]])
        want[idx] = acc / len(w)
    got = np.asarray(res)
    ctx.check(got.shape == want.shape and np.allclose(got, want),
              lambda: "smooth(%r, %r, %r) is %r, expected %r"
              % (arg, aperture, axis, got, want))
    ctx.step(want.size)
    ctx.observe(got.round(9).tolist())


def smooth_polar(ctx):
    """magnitude and phase are smoothed separately"""
    n = ctx.choose("samples", [3, 4, 5])
    aperture = ctx.choose("aperture", [1, 2, 3, 4, 5])
    ph = [ctx.choose("start", [0, 170, -170])]
    for i in range(n - 1):
        ph.append(ph[-1] + ctx.choose("step", [10, 100, -150]))
    mag = [1., 4., 2., 8., 3.][:n]
    data = hf([m * cmath.exp(1j * p * PI / 180) for m, p in zip(mag, ph)])
    got = hm.smooth_magphase(data, aperture)
    same_dims(ctx, got, data, "smooth_magphase")
    want = []
    for i in range(n):
        w = window(n, i, aperture)
        m = sum(mag[j] for j in w) / len(w)
        p = sum(ph[j] for j in w) / float(len(w))
        want.append(m * cmath.exp(1j * p * PI / 180))
    ctx.check(np.allclose(np.asarray(got), want), lambda: "%r expected %r"
              % (got, want))
    ctx.step(n)
    ctx.observe(np.asarray(got).round(9).tolist())


def poly_polar(ctx):
    """magnitude and unwrapped phase each follow their polynomials"""
    n = ctx.choose("samples", [4, 5, 6])
    N = ctx.choose("degree", [1, 2, 3, "not given"])
    deg = 3 if N == "not given" else N
    aperture = ctx.choose("aperture", list(range(deg + 1, n + 1)))
    grid = ctx.choose("grid", [[0, 1, 2, 3, 4, 5], [0, 1, 3, 4, 7, 8]])
    ph = [ctx.choose("start", [0, 170])]
    for i in range(n - 1):
        ph.append(ph[-1] + ctx.choose("step", [10, -150]))
    mag = [1, 4, 2, 8, 3, 5][:n]
    x = np.array(grid[:n], float)
    data = hf([m * cmath.exp(1j * p * PI / 180) for m, p in zip(mag, ph)])
    kw = {} if N == "not given" else {"N": N}
    got = hm.poly_smooth_magphase(x, data, aperture, **kw)
    same_dims(ctx, got, data, "poly_smooth_magphase")
    for i in range(n):
        lo = min(max(i - aperture // 2, 0), n - aperture)
        sel = list(range(lo, lo + aperture))
        xs = [grid[k] for k in sel]
        m = lsq(xs, [mag[k] for k in sel], deg, grid[i])
        p = lsq(xs, [ph[k] for k in sel], deg, grid[i])
        want = m * cmath.exp(1j * p * PI / 180)
        ctx.check(abs(complex(np.asarray(got)[i]) - want) <=
                  1e-6 * (1 + abs(want)), lambda: "degree %r: sample %d is "
                  "%r, expected %r" % (deg, i, got[i], want))
    ctx.step(n)
    ctx.observe(np.asarray(got).round(7).tolist())


def lsq(xs, ys, N, x):
    """least squares polynomial of degree N, exactly"""
    A = [[sum(Fr(t) ** (i + j) for t in xs) for j in range(N + 1)]
         for i in range(N + 1)]
    b = [sum(Fr(y) * Fr(t) ** i for t, y in zip(xs, ys))
         for i in range(N + 1)]
    m = [r + [v] for r, v in zip(A, b)]
    n = N + 1
    for i in range(n):
        p = [k for k in range(i, n) if m[k][i] != 0][0]
        m[i], m[p] = m[p], m[i]
        for k in range(n):
            if k != i:
                f = m[k][i] / m[i][i]
                m[k] = [u - f * v for u, v in zip(m[k], m[i])]
    c = [m[i][n] / m[i][i] for i in range(n)]
    return float(sum(ci * Fr(x) ** i for i, ci in enumerate(c)))


def poly(ctx):
    """polynomial through the nearest samples"""
    n = ctx.choose("samples", [4, 5, 6, 7])
    N = ctx.choose("degree", [1, 2, 3])
    aperture = ctx.choose("aperture", [a for a in range(N + 1, n + 1)])
    vals = ctx.choose("values", [[0, 1, 4, 9, 16, 25, 36],
                                 [1, 2, -3, 4, 10, 0, 5],
                                 [0, 0, 0, 1, 0, 0, 0],
                                 [0, 0, 0, 0, 0, 0, 7]])
    grid = ctx.choose("grid", [[0, 1, 2, 3, 4, 5, 6],
                               [0, 1, 3, 4, 7, 8, 12]])
    kind = ctx.choose("kind", ["ndarray", "ints", "hfarray"])
    x = np.array(grid[:n], float)
    y = np.array(vals[7 - n:], float)
    if kind == "ints":
        ya = y.astype(int)
    elif kind == "hfarray":
        ya = hf(y)
    else:
        ya = y.copy()
    got = hm.poly_smooth(x, ya, aperture, N=N)
    if kind == "hfarray":
        same_dims(ctx, got, ya, "poly_smooth")
    want = []
    for i in range(n):
        lo = min(max(i - aperture // 2, 0), n - aperture)
        sel = list(range(lo, lo + aperture))
        want.append(lsq([int(x[k]) for k in sel], [int(y[k]) for k in sel],
                        N, int(x[i])))
    ctx.check(np.allclose(np.asarray(got), want, atol=1e-6),
              lambda: "poly_smooth(%r, %r, %d, N=%d) is %r, expected %r"
              % (x, y, aperture, N, got, want))
    ctx.step(n)
    ctx.observe(np.asarray(got).round(5).tolist())


def interp(ctx):
    """straight lines between the samples"""
    x = ctx.choose("x", [[0, 1], [1, 2, 3], [0, 1, 4, 5], [-3, -1, 0, 7],
                         [-5, -4, -1], [1e9, 2e9, 2.5e9], [-3e-9, -1e-9]])
    cplx = ctx.flag("complex")
    ys = [ctx.choose("y", [0, 3, -4]) for _ in x]
    kind = ctx.choose("kind", ["list", "ndarray", "hfarray"])
    how = ctx.choose("function", ["interpolate", "linear_extrapolate"])
    pts = []
    for a, b in zip(x, x[1:]):
        pts += [a, a + (b - a) * 0.25, a + (b - a) * 0.5]
    pts.append(x[-1])
    outside = ctx.choose("outside", ["no", "below", "above", "both"])
    far = 0 if outside == "no" else ctx.choose("distance", [1, 1e-3])
    if outside in ("below", "both"):
        pts = [x[0] - 2.5 * far * (x[1] - x[0])] + pts
    if outside in ("above", "both"):
        pts = pts + [x[-1] + 1.5 * far * (x[1] - x[0])]
    shuffle = ctx.choose("points", ["ascending", "descending", "scalar",
                                    "2-d"])
    if shuffle == "descending":
        pts = pts[::-1]
    y = [v * (1 + 2j) if cplx else v for v in ys]
    f = getattr(hm, how)
    X, Y, P = list(x), list(y), list(pts)
    if kind != "list":
        X, Y, P = np.array(x), np.array(y), np.array(pts, float)
    if kind == "hfarray":
        if shuffle == "2-d":
            raise Prune("2-d points of labelled data")
        X, Y = hf(x, labels=x), hf(y, labels=x)
        P = hf(np.array(pts, float), labels=pts)

    def line(p):
        k = 0
        while k < len(x) - 2 and p > x[k + 1]:
            k += 1
        return y[k] + (y[k + 1] - y[k]) * (p - x[k]) / float(x[k + 1] - x[k])
    want = [line(p) for p in pts]
    if shuffle == "scalar":
        P, want = pts[len(pts) // 2], want[len(pts) // 2]
        outside = "no"
    elif shuffle == "2-d":
        P, want = [pts[:2], pts[-2:]], [want[:2], want[-2:]]
        if kind == "ndarray":
            P = np.array(P)
    try:
        got = f(X, Y, P)
    except ValueError:
        ctx.check(how == "interpolate" and outside != "no",
                  lambda: "%r %r %r refused" % (x, y, P))
        ctx.step()
        return
    ctx.check(how != "interpolate" or outside == "no",
              lambda: "interpolated outside the samples: %r %r" % (x, P))
    if kind == "hfarray" and shuffle != "scalar":
        same_dims(ctx, got, P, how)
    ctx.check(np.asarray(got).shape == np.array(want).shape and
              np.allclose(np.asarray(got), want), lambda: "%s(%r, %r, %r) "
              "is %r, expected %r" % (how, x, y, P, got, want))
    ctx.step()
    ctx.observe(np.asarray(got).round(9).tolist())


def long(ctx):
    """thousands of samples, many curves"""
    q = ctx.tier == "quick"
    n = ctx.choose("samples", [129, 1030] if q else [64, 129, 1030, 5000])
    fun = ctx.choose("function", ["unwrap_phase", "continous_phase_sqrt",
                                  "delay", "smooth", "smooth_magphase",
                                  "poly_smooth", "interpolate",
                                  "linear_extrapolate", "angle"])
    curves = ctx.choose("curves", [1, 7] if q else [1, 7, 60])
    if n * curves > 70000:
        raise Prune("large enough")
    names = "freq" if curves == 1 else ("freq", "g")
    steps = ctx.choose("steps", [[-150], [170, -170, 3], [1], [89.5],
                                 [-3, 100, 60]][:2 if q else 5])

    def shape(x):
        return x[:, 0] if curves == 1 else x
    ph = np.zeros((n, curves))
    for i in range(1, n):
        ph[i] = ph[i - 1] + steps[i % len(steps)]
    ph += np.arange(curves) * .5 + 20
    mag = 1. + (np.arange(n) % 5)[:, None] + np.zeros((n, curves))
    z = mag * np.exp(1j * np.deg2rad(ph))
    data = hf(shape(z), names)
    if fun == "unwrap_phase":
        got = np.asarray(hm.unwrap_phase(data, deg=True))
        want = shape(ph)
        atol = 1e-5
        same_dims(ctx, hm.unwrap_phase(data), data, fun)
    elif fun == "continous_phase_sqrt":
        got = np.asarray(hm.continous_phase_sqrt(data))
        want = shape(np.sqrt(mag) * np.exp(1j * np.deg2rad(ph) / 2))
        if (got * want.conj()).real.ravel()[0] < 0:
            want = -want
        atol = 1e-7
    elif fun == "delay":
        freq = hf(np.arange(n) * 2.)
        f, t = hm.delay(freq, data)
        got = np.asarray(t)
        want = shape(-np.diff(ph, axis=0) / 360. / 2.)
        atol = 1e-9
        ctx.check(np.allclose(np.asarray(f).reshape(n - 1, -1)[:, 0],
                              np.arange(n - 1) * 2. + 1), "frequencies")
    elif fun in ("smooth", "smooth_magphase"):
        ap = ctx.choose("aperture", [1, 2, 5, 24, 101])
        sets = [window(n, i, ap) for i in range(n)]
        if fun == "smooth":
            got = np.asarray(hm.smooth(data, ap))
            want = shape(np.array([z[w[0]:w[-1] + 1].mean(0) for w in sets]))
        else:
            got = np.asarray(hm.smooth_magphase(data, ap))
            want = shape(np.array([
                mag[w[0]:w[-1] + 1].mean(0) *
                np.exp(1j * np.deg2rad(ph[w[0]:w[-1] + 1].mean(0)))
                for w in sets]))
        atol = 1e-6
    elif fun == "poly_smooth":
        if curves > 1 or n > 1030:
            raise Prune("one curve")
        y = np.array([VAL[k % 7] for k in range(n)], float)
        ap, N = ctx.choose("aperture, degree", [(4, 1), (7, 2), (15, 3)])
        got = np.asarray(hm.poly_smooth(np.arange(n, dtype=float), hf(y), ap,
                                        N=N))
        want = []
        cache = {}
        for i in range(n):
            lo = min(max(i - ap // 2, 0), n - ap)
            key = (i - lo, lo % 7)
            if key not in cache:
                cache[key] = lsq(list(range(ap)),
                                 [int(v) for v in y[lo:lo + ap]], N, i - lo)
            want.append(cache[key])
        want = np.array(want)
        atol = 1e-3
    elif fun == "angle":
        got = np.asarray(hm.angle(data, deg=True))
        want = shape((ph + 180) % 360 - 180)
        got, want = np.exp(1j * np.deg2rad(got)), np.exp(1j *
                                                         np.deg2rad(want))
        atol = 1e-6
    else:
        if curves > 1:
            raise Prune("one curve")
        x = np.cumsum(1 + np.arange(n) % 3).astype(float)
        pts = np.concatenate([x[:-1] + .25, x, x[1:] - .125])
        got = np.asarray(getattr(hm, fun)(x, z[:, 0], pts))
        want = np.interp(pts, x, z[:, 0].real) \
            + 1j * np.interp(pts, x, z[:, 0].imag)
        atol = 1e-8
    ctx.check(got.shape == want.shape, lambda: "%s: shape %r, expected %r"
              % (fun, got.shape, want.shape))
    bad = np.abs(got - want) > atol
    ctx.check(not bad.any(), lambda: "%s of %d samples differs first at %r: "
              "%r, expected %r" % (fun, n, np.argwhere(bad)[0].tolist(),
                                   got[bad][0], want[bad][0]))
    ctx.step(got.size)
    ctx.state((n, fun, curves, steps))
    ctx.observe((n, fun, curves, steps))


def chop(ctx):
    """values below the threshold become zero, nothing else changes"""
    kind = ctx.choose("kind", ["scalar", "ndarray", "hfarray", "0-d"])
    dtype = ctx.choose("dtype", ["float64", "complex128", "int64"])
    thr = ctx.choose("threshold", [None, 1e-2, 2])
    vals = [0, 1, -1, 2, -2, 3]
    if dtype != "int64":
        vals += [1e-17, -1e-17, 1e-16, 1.5e-16, 0.009, -0.009, 0.011, 1e300]
    if dtype == "complex128":
        vals += [1e-17j, 0.009j, 1 + 1e-17j, 0.008 + 0.008j, -3j]
    t = 1e-16 if thr is None else thr
    kw = {} if thr is None else {"threshold": thr}
    want = [v if abs(v) >= t else 0 for v in vals]
    arr = np.array(vals, dtype)
    if kind == "scalar":
        got = np.array([hm.chop(v.item(), **kw) for v in arr])
    elif kind == "0-d":
        got = np.array([np.asarray(hm.chop(hfarray(v), **kw)) for v in arr])
    else:
        arg = hf(arr) if kind == "hfarray" else arr.copy()
        got = hm.chop(arg, **kw)
        ctx.check(np.asarray(arg).tolist() == arr.tolist(),
                  "argument was modified")
        if kind == "hfarray":
            same_dims(ctx, got, arg, "chop")
    ctx.check(np.asarray(got).tolist() == np.array(want, dtype).tolist(),
              lambda: "chop(%r) is %r" % (vals, got))
    ctx.step(len(vals))
    ctx.observe(want)


def spaces(tier):
    return [
        Space("angle", angle, "branches x directions x magnitudes x kinds"),
        Space("polar", polar, "polar conversions, all operand shapes"),
        Space("unwrap", unwrap, "all phase histories of up to 4 samples"),
        Space("real_phase", real_phase, "real samples of all dtypes"),
        Space("delay", delay, "all delay histories on 5 grids"),
        Space("smooth", smooth, "lengths x apertures x axes x dtypes"),
        Space("smooth_polar", smooth_polar, "phase histories x apertures"),
        Space("poly", poly, "lengths x degrees x apertures"),
        Space("poly_polar", poly_polar, "phase histories x degrees"),
        Space("interp", interp, "all small tables, all segments and ends"),
        Space("long", long, "long samples of many curves"),
        Space("chop", chop, "thresholds")]
