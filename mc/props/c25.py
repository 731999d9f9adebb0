# -*- coding: utf-8 -*-
"""C25: noise of two-ports does not depend on the representation."""
import numpy as np

from mc.engine import Space, Prune, Named
from hftools.dataset import (hfarray, DataBlock, DimSweep, DimMatrix_i,
                             DimMatrix_j)
from hftools.networks.multiports import (SArray, YArray, ZArray, ABCDArray,
                                         TArray)
from hftools.networks.noise import (passive_noise, from_noisepar,
                                    NoisyTwoport)
from hftools.constants import k

ASSUMPTIONS = [
    "two-ports with 50 Ohm ports; the standard temperature is 290 K",
    "noise parameters are physical: Rn >= (Fmin - 1) / (4 Re Yopt)",
    "passive two-ports are lossy and transmit (noise parameters of lossless "
    "or isolating two-ports are undefined)"]

T0 = 290.
REPS = [Named(c.__name__, c) for c in (YArray, ZArray, SArray)]
ALL = REPS + [Named("ABCDArray", ABCDArray)]
MJ = (DimMatrix_i("i", 2), DimMatrix_j("j", 2))


def tee(za, zb, zc):
    """impedance matrix"""
    return np.array([[za + zc, zc], [zc, zb + zc]], complex)


PASSIVE = [
    Named("resistive tee", tee(50, 20, 100)),
    Named("complex tee", tee(10 + 30j, 40 - 20j, 25 + 5j)),
    Named("strong attenuator", tee(48, 48, 2)),
    Named("almost lossless", tee(0.1 + 20j, 0.2 - 30j, 0.1 - 50j)),
    Named("very unequal", tee(1000 + 1j, 1, 3 - 200j)),
    Named("nonreciprocal", np.array([[60 + 10j, 5], [40j + 10, 70]])),
]
YS = [0.02, 0.001, 0.5, 0.01 + 0.03j, 0.05 - 0.02j]


def arr(cls, mats, outer=()):
    """array of class cls of the impedance matrices *mats*"""
    z = ZArray(np.array(mats), dims=tuple(outer) + MJ)
    return cls(z)


def available_gain(z, ys):
    y = np.linalg.inv(z)
    yout = y[1, 1] - y[0, 1] * y[1, 0] / (y[0, 0] + ys)
    return (abs(y[1, 0]) ** 2 * complex(ys).real
            / (yout.real * abs(y[0, 0] + ys) ** 2))


def noise_factor(p, idx, ys):
    """from noise parameters at coordinate idx"""
    get = lambda name: complex(np.asarray(p[name])[idx])
    return (get("Fmin").real + get("Rn").real / complex(ys).real
            * abs(ys - get("Yopt")) ** 2)


def near(a, b, rtol=1e-7):
    return abs(a - b) <= rtol * max(abs(a), abs(b))


def consistent(ctx, p, idx, what):
    """Gopt and Yopt are the same admittance"""
    y = complex(np.asarray(p["Yopt"])[idx])
    g = complex(np.asarray(p["Gopt"])[idx])
    ctx.check(abs(g - (1 - 50 * y) / (1 + 50 * y)) < 1e-9, lambda: "%s: "
              "Gopt %r Yopt %r" % (what, g, y))


def hermitian(ctx, C, what):
    c = np.asarray(C)
    h = np.conj(np.swapaxes(c, -1, -2))
    scale = abs(c).max()
    ctx.check(abs(c - h).max() <= 1e-9 * scale, lambda: "%s: correlation "
              "matrix %r is not Hermitian" % (what, c))


def layout(ctx, mats):
    """choose how many coordinates and their dims"""
    lay = ctx.choose("layout", ["0 dims", "freq", "freq x Vg", "300 freq"])
    if lay == "0 dims":
        return mats[0], (), [()]
    if lay == "freq":
        return (np.array([mats[0], mats[1]]), (DimSweep("freq", [1e9, 2e9]),),
                [(0,), (1,)])
    if lay == "300 freq":
        return (np.array([mats[0], mats[1]] * 150),
                (DimSweep("freq", [1e9 * n for n in range(300)]),),
                [(0,), (127,), (128,), (299,)])
    return (np.array([[mats[0], mats[1], mats[0]], [mats[1], mats[1],
                                                    mats[0]]]),
            (DimSweep("freq", [1e9, 2e9]), DimSweep("Vg", [0, 1, 2])),
            [(0, 0), (0, 1), (1, 0), (1, 2)])


def passive(ctx):
    """thermal noise of passive two-ports, through chains of conversions"""
    i = ctx.choose("network", range(len(PASSIVE)))
    mats = [PASSIVE[i].value, PASSIVE[(i + 1) % len(PASSIVE)].value]
    T = ctx.choose("Tamb", [None, 290, 77, 1000.])
    data, outer, where = layout(ctx, mats)
    rep = ctx.choose("made from", REPS).value
    src = arr(rep, data, outer)
    keep = np.asarray(src).tolist()
    n = passive_noise(src) if T is None else passive_noise(src, T)
    T = T or T0
    names = [rep.__name__]
    depth = ctx.choose("conversions", [0, 1, 2] if ctx.tier == "quick"
                       else [0, 1, 2, 3])
    for _ in range(depth):
        dest = ctx.choose("to", ALL).value
        n = n.convert(dest)
        names.append(dest.__name__)
        ctx.step()
    ctx.check(np.asarray(src).tolist() == keep, "the two-port was modified")
    hermitian(ctx, n.C, names)
    ctx.check(type(n.N).__name__ == names[-1], lambda: "representation %r"
              % type(n.N))
    if names[-1] != "ABCDArray":
        ref = passive_noise({"YArray": YArray, "ZArray": ZArray,
                             "SArray": SArray}[names[-1]](src), T)
        a, b = np.asarray(n.C), np.asarray(ref.C)
        ctx.check(a.shape == b.shape and
                  abs(a - b).max() <= 1e-7 * abs(b).max(), lambda: "%r: "
                  "correlation matrix %r, expected %r" % (names, a, b))
    ctx.check([d.name for d in n.C.dims] == [d.name for d in outer]
              + ["i", "j"], lambda: "dims %r" % (n.C.dims,))
    p = n.noise_parameters()
    if names[-1] != "TArray":
        want = np.asarray(SArray(src))
        got = np.asarray(p.S)
        ctx.check(got.shape == want.shape and np.allclose(got, want),
                  lambda: "%r: S of the noise parameters %r, expected %r"
                  % (names, got, want))
    for idx in where:
        z = data[idx] if idx else data
        for ys in YS:
            want = 1 + T / T0 * (1 / available_gain(z, ys) - 1)
            got = noise_factor(p, idx, ys)
            ctx.check(near(got, want, 1e-6), lambda: "%r %r: noise factor "
                      "at Ys=%r is %r, expected %r" % (names, idx, ys, got,
                                                       want))
            ctx.step()
        consistent(ctx, p, idx, names)
    ctx.state(names)
    ctx.observe((i, names, T))


def correlation(ctx):
    """the textbook matrices"""
    i = ctx.choose("network", range(len(PASSIVE)))
    z = PASSIVE[i].value
    T = ctx.choose("Tamb", [290, 77])
    rep = ctx.choose("rep", REPS)
    n = passive_noise(arr(rep.value, z), T)
    y = np.linalg.inv(z)
    m = {"ZArray": z, "YArray": y}.get(rep.__mc_name__)
    if m is not None:
        want = 2 * k * T * (m + m.conj().T)
    else:
        s = np.linalg.inv(z / 50 + np.eye(2)) @ (z / 50 - np.eye(2))
        want = k * T * (np.eye(2) - s @ s.conj().T)
    got = np.asarray(n.C)
    ctx.check(abs(got - want).max() < 1e-9 * abs(want).max(),
              lambda: "%r expected %r" % (got, want))
    ctx.step()
    ctx.observe((i, T, rep.__mc_name__))


def active(ctx):
    """noise parameters in, the same out of every representation"""
    smats = [np.array([[.2 + .1j, .01j], [3 - 1j, .4]]),
             np.array([[.1, .02 + 0j], [2 + 1j, .3j]])]
    pairs = [([1.5, 1.01], [10., 2.]), ([2.0, 1.2], [40., 9.]),
             ([10., 1.0], [300., 5.]), ([1.0001, 3.], [1., 30.])]
    gopts = [[.3 + .2j, -.1j], [0, .5], [-.6 + .3j, .1 - .7j]]
    Fmin, Rn = ctx.choose("Fmin, Rn", pairs)
    Gopt = ctx.choose("Gopt", gopts)
    data, outer, where = layout(ctx, smats)
    shape = [d.data.shape[0] for d in outer]

    def pick(vals, dtype):
        out = np.empty(shape, dtype)
        for idx in np.ndindex(*shape):
            out[idx] = vals[sum(idx) % 2]
        return hfarray(out, dims=tuple(outer))
    for idx in where:
        f, r, g = [v[sum(idx) % 2] for v in (Fmin, Rn, Gopt)]
        yo = (1 - g) / (1 + g) / 50
        if r < (f - 1) / (4 * complex(yo).real):
            raise Prune("not physical")
    db = DataBlock()
    db.S = SArray(data, dims=tuple(outer) + MJ)
    db.Fmin, db.Rn = pick(Fmin, float), pick(Rn, float)
    db.Gopt = pick(Gopt, complex)
    n = from_noisepar(db)
    names = ["ABCDArray"]
    for _ in range(ctx.choose("conversions", [0, 1, 2])):
        dest = ctx.choose("to", ALL).value
        n = n.convert(dest)
        names.append(dest.__name__)
        ctx.step()
    hermitian(ctx, n.C, names)
    p = n.noise_parameters()
    for idx in where:
        f, r, g = [v[sum(idx) % 2] for v in (Fmin, Rn, Gopt)]
        for name, want in (("Fmin", f), ("Rn", r), ("Gopt", g)):
            got = complex(np.asarray(p[name])[idx])
            ctx.check(abs(got - want) <= 1e-6 * max(abs(want), 1),
                      lambda: "%r at %r: %s is %r, was %r"
                      % (names, idx, name, got, want))
            ctx.step()
        consistent(ctx, p, idx, names)
    s = np.asarray(p.S)
    ctx.check(np.allclose(s, np.asarray(data)), lambda: "S %r" % s)
    ctx.state(names)
    ctx.observe((names, Fmin, Rn, Gopt))


def transformation(ctx):
    """the matrix T takes correlation matrices along"""
    i = ctx.choose("network", range(len(PASSIVE)))
    a = ctx.choose("from", ALL).value
    b = ctx.choose("to", ALL).value
    n = passive_noise(arr(YArray, PASSIVE[i].value)).convert(a)
    t = np.asarray(n.T(b))
    m, t2 = n.convert(b, Tout=True)
    ctx.check(np.allclose(t, np.asarray(t2)), "T differs from convert")
    c = t @ np.asarray(n.C) @ t.conj().T
    got = np.asarray(m.C)
    ctx.check(abs(got - c).max() <= 1e-9 * abs(c).max(), lambda: "%r "
              "expected %r" % (got, c))
    ctx.check(np.allclose(np.asarray(m.N), np.asarray(b(n.N))), "network")
    ctx.step()
    ctx.observe((i, a.__name__, b.__name__))


def refused(ctx):
    """only Y, Z and S two-ports have thermal noise here"""
    cls = ctx.choose("class", [Named("ABCDArray", ABCDArray),
                               Named("TArray", TArray)]).value
    try:
        passive_noise(arr(cls, PASSIVE[0].value))
    except Exception:
        ctx.step()
    else:
        ctx.fail("noise of %s was computed" % cls.__name__)


def spaces(tier):
    return [
        Space("passive", passive, "passive two-ports x conversion chains, "
              "noise factor against the available gain"),
        Space("correlation", correlation, "correlation matrices"),
        Space("active", active, "noise parameters x conversion chains"),
        Space("transformation", transformation, "T of every pair"),
        Space("refused", refused, "other representations")]
