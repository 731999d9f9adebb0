# -*- coding: utf-8 -*-
"""C06: cascading and deembedding two-ports."""
import itertools

import numpy as np

from mc.engine import Space, Named, Prune
from mc import netmodel as nm
from mc.labelled import hfarray, dim_labels
from mc.props import c05
from mc.props.c05 import KINDS, NAMES, outer_dims, LABELS, real_array
from hftools.dataset import DimSweep, DimMatrix_i, DimMatrix_j
from hftools.networks.multiports import SArray, ABCDArray
import hftools.networks.spar_functions as sf

ASSUMPTIONS = ["two-ports whose cascade exists (no singular loops)",
               "functions on plain S-parameter arrays assume one common "
               "reference impedance, as documented"]

ZS = [[[40 + 10j, 25 - 5j], [60 + 3j, 70 - 20j]],
      [[100., 30.], [20., 50.]],
      [[15 - 40j, 8 + 2j], [8 + 2j, 33 + 60j]],
      [[-20 + 5j, 30 + 1j], [90 - 10j, 75.]]]


def coords(shape):
    return list(itertools.product(*[range(len(LABELS[s][1]))
                                    for s in shape]))


def family(base, shape, salt=0):
    """coordinate (dict) -> Z matrix; distinct at every coordinate"""
    out = {}
    for c in coords(shape):
        z = nm.mat(base)
        k = salt
        for s, i in zip(shape, c):
            k += i * (2 if s == "f" else 7)
        z[0][0] += 3 * k
        z[1][1] += 5 * k
        z[1][0] += 2 * k
        out[tuple(sorted(zip(shape, c)))] = z
    return out


def at(fam, shape, coord):
    return fam[tuple(sorted((s, coord[s]) for s in shape))]


def build(kind, fam, shape, Z0=50.):
    mats = [nm.convert("Z", kind, fam[tuple(sorted(zip(shape, c)))], Z0d=Z0)
            for c in coords(shape)]
    a = real_array(KINDS[kind], mats, shape, 2,
                   **(dict(Z0=Z0) if kind == "S" else {}))
    if kind in ("T", "Tp"):
        a.Z0 = Z0
    return a


def union(*shapes):
    s = set(x for sh in shapes for x in sh)
    return tuple(x for x in ("f", "r") if x in s)


def verify(ctx, res, kind, want, what, tol=1e-7):
    """want: coord-dict -> ABCD matrix, with its shape"""
    shape, fn = want
    ctx.check(type(res) is KINDS[kind],
              lambda: "%s: class %r" % (what, type(res)))
    names = [d.name for d in res.dims]
    ctx.check(sorted(names[:-2]) == sorted(shape) and
              names[-2:] == ["i", "j"], lambda: "%s: dims %r, expected %r"
              % (what, res.dims, shape))
    for d in res.dims[:-2]:
        ctx.check(dim_labels(d) == LABELS[d.name][1], "labels of %r" % d)
    raw = np.asarray(res)
    z0 = res.Z0 if kind in ("S", "T", "Tp") else 50.
    for idx in np.ndindex(*raw.shape[:-2]):
        c = dict(zip(names, idx))
        w = nm.convert("ABCD", kind, fn(c), Z0d=z0)
        g = raw[idx].tolist()
        ctx.check(nm.close(nm.mat(g), w, tol), lambda: "%s at %r: %r, "
                  "expected %r" % (what, c, g, w))


def abcd(fam, shape):
    return lambda c: nm.convert("Z", "ABCD", at(fam, shape, c))


SHAPE_PAIRS = [((), ()), (("f",), ("f",)), (("f",), ()), ((), ("f",)),
               (("f",), ("r",)), (("r",), ("f",)), (("f", "r"), ("r", "f")),
               (("r", "f"), ("f",))]


def cascade_method(ctx):
    k1 = ctx.choose("first is", NAMES)
    k2 = ctx.choose("second is", NAMES)
    sh1, sh2 = ctx.choose("outer dims", SHAPE_PAIRS)
    n1, n2 = ctx.choose("networks", [(0, 2), (1, 0), (1, 1)])
    z1 = ctx.choose("Z0 of first", [50., 75.]) if k1 in ("S", "T") else 50.
    z2 = ctx.choose("Z0 of second", [50., 75.]) if k2 in ("S", "T") else 50.
    f1, f2 = family(ZS[n1], sh1), family(ZS[n2], sh2, 1)
    a, b = build(k1, f1, sh1, z1), build(k2, f2, sh2, z2)
    ra, rb = np.array(a), np.array(b)
    A1, A2 = abcd(f1, sh1), abcd(f2, sh2)
    sh = union(sh1, sh2)
    r = a.cascade(b)
    ctx.step()
    verify(ctx, r, k1, (sh, lambda c: nm.mul(A1(c), A2(c))), "cascade")
    if k1 == "S":
        ctx.check(r.Z0 == z1, lambda: "Z0 of the cascade is %r" % r.Z0)
    back = r.deembed(left=a)
    ctx.step()
    verify(ctx, back, k1, (sh, A2), "cascade.deembed(left=a)", 1e-6)
    back = r.deembed(right=b)
    verify(ctx, back, k1, (sh, A1), "cascade.deembed(right=b)", 1e-6)
    ctx.step(2)
    ctx.check(np.array_equal(ra, np.asarray(a)) and
              np.array_equal(rb, np.asarray(b)) and
              (a.Z0, b.Z0) == (z1, z2), "an operand was modified")
    ctx.state((k1, k2, sh1, sh2, n1, n2, z1, z2))
    ctx.observe(np.round(np.asarray(r), 5).tolist())


def deembed_method(ctx):
    kinds = [ctx.choose("kind of %s" % n, ["S", "Z", "ABCD", "T"])
             for n in ("left", "middle", "right")]
    shapes = ctx.choose("outer dims", [((), (), ()), (("f",),) * 3,
                                       ((), ("f",), ()),
                                       (("f",), ("f", "r"), ("r",)),
                                       (("r", "f"), ("f",), ())])
    which = ctx.choose("deembed", ["left", "right", "both", "none"])
    z0 = ctx.choose("Z0 of S", [50., 75.])
    fams = [family(ZS[k], s, k) for k, s in zip((0, 2, 1), shapes)]
    L, M, R = [build(k, f, s, z0 if k == "S" else 50.)
               for k, f, s in zip(kinds, fams, shapes)]
    A = [abcd(f, s) for f, s in zip(fams, shapes)]
    sh = union(*shapes)
    # the measured network: the cascade of all three, built by the reference
    X = {}
    for c in coords(sh):
        cc = dict(zip(sh, c))
        X[tuple(sorted(cc.items()))] = nm.convert(
            "ABCD", "Z", nm.cascade(*[q(cc) for q in A]))
    x = build(kinds[1], X, sh, z0 if kinds[1] == "S" else 50.)
    if which == "left":
        r = x.deembed(left=L)
        want = lambda c: nm.mul(A[1](c), A[2](c))
    elif which == "right":
        r = x.deembed(right=R)
        want = lambda c: nm.mul(A[0](c), A[1](c))
    elif which == "both":
        r = x.deembed(left=L, right=R)
        want = A[1]
    else:
        r = x.deembed()
        want = lambda c: nm.cascade(*[q(c) for q in A])
    ctx.step()
    verify(ctx, r, kinds[1], (sh, want), "deembed(%s)" % which, 1e-6)
    ctx.state((kinds, shapes, which, z0))
    ctx.observe(np.round(np.asarray(r), 5).tolist())


def remove(ctx):
    """removing networks whose outer dims differ from the measured one's"""
    how = ctx.choose("how", ["method left", "method right", "method both",
                             "deembedleft", "deembedright", "deembed"])
    shapes = [(), ("f",), ("r",), ("r", "f")]
    shx = ctx.choose("outer dims of the measured", shapes)
    left = how in ("method left", "method both", "deembedleft", "deembed")
    right = how in ("method right", "method both", "deembedright", "deembed")
    sh1 = ctx.choose("outer dims of left", shapes) if left else None
    sh2 = ctx.choose("outer dims of right", shapes) if right else None
    kind, plain = "S", False
    if how.startswith("method"):
        kind = ctx.choose("kind of measured", ["S", "Z", "ABCD"])
    else:
        plain = ctx.flag("plain hfarrays")
    fx = family(ZS[2], shx, 3)
    x = build(kind, fx, shx)
    AX = abcd(fx, shx)
    used, parts = [shx], [AX]
    L = R = None
    if left:
        f1 = family(ZS[0], sh1, 1)
        L, A1 = build("S", f1, sh1), abcd(f1, sh1)
        used.append(sh1)
        parts.insert(0, lambda c: nm.inverse(A1(c)))
    if right:
        f2 = family(ZS[1], sh2, 2)
        R, A2 = build("S", f2, sh2), abcd(f2, sh2)
        used.append(sh2)
        parts.append(lambda c: nm.inverse(A2(c)))
    if plain:
        x = hfarray(x)
        L = hfarray(L) if left else None
        R = hfarray(R) if right else None
    before = [None if a is None else (np.array(a), a.dims)
              for a in (x, L, R)]
    if how.startswith("method"):
        kw = {}
        if left:
            kw["left"] = L
        if right:
            kw["right"] = R
        r = x.deembed(**kw)
    elif how == "deembedleft":
        r = sf.deembedleft(L, x)
    elif how == "deembedright":
        r = sf.deembedright(x, R)
    else:
        r = sf.deembed(L, x, R)
    ctx.step()
    if plain:
        r = SArray(r)
    verify(ctx, r, kind, (union(*used),
                          lambda c: nm.cascade(*[q(c) for q in parts])),
           how, 1e-6)
    for a, b in zip((x, L, R), before):
        ctx.check(a is None or np.array_equal(np.asarray(a), b[0]) and
                  a.dims == b[1], "an operand was modified")
    ctx.state((how, shx, sh1, sh2, kind, plain))
    ctx.observe(np.round(np.asarray(r), 5).tolist())


def nary(ctx):
    n = ctx.choose("number of networks", [2, 3, 4])
    order = ctx.choose("which", list(itertools.permutations(range(4), n)))
    shs = ctx.choose("outer dims", ["same", "mixed"])
    plain = ctx.flag("plain hfarrays")
    shapes = [("f",)] * n if shs == "same" else \
        [("f",), (), ("r",), ("r", "f")][:n]
    fams = [family(ZS[k], s, k) for k, s in zip(order, shapes)]
    arrs = [build("S", f, s) for f, s in zip(fams, shapes)]
    A = [abcd(f, s) for f, s in zip(fams, shapes)]
    args = [hfarray(a) for a in arrs] if plain else arrs
    sh = union(*shapes)
    want = (sh, lambda c: nm.cascade(*[q(c) for q in A]))
    r = sf.cascadeS(*args)
    ctx.step()
    verify(ctx, SArray(r), "S", want, "cascadeS of %d" % n)
    left = args[0]
    for x in args[1:]:
        left = sf.cascadeS(left, x)
    right = args[-1]
    for x in args[-2::-1]:
        right = sf.cascadeS(x, right)
    verify(ctx, SArray(left), "S", want, "from the left")
    verify(ctx, SArray(right), "S", want, "from the right")
    ctx.step(2)
    ctx.state((order, shs, plain))
    ctx.observe(np.round(np.asarray(r), 6).tolist())


def layouts(ctx):
    """plain hfarrays with any dimension order and dtype"""
    names = ["f", "i", "j"]
    p1 = ctx.choose("order of first", list(itertools.permutations(names)))
    p2 = ctx.choose("order of second", list(itertools.permutations(names)))
    d1 = ctx.choose("dtype of first", ["float", "complex"])
    d2 = ctx.choose("dtype of second", ["float", "complex"])
    which = ctx.choose("function", ["cascadeS", "deembedleft",
                                    "deembedright"])
    vals = {"float": [[[0.2, 0.7], [0.5, -0.3]], [[0.1, 0.4], [0.9, 0.2]],
                      [[-0.6, 0.3], [0.8, 0.05]]],
            "complex": [[[0.2j, 0.7], [0.5, -0.3]],
                        [[0.1, 0.4j], [0.9 + 0.1j, 0.2]],
                        [[-0.6, 0.3], [0.8, 0.05j]]]}
    m1, m2 = vals[d1], [r[:] for r in vals[d2][::-1]]
    dims = (DimSweep("f", LABELS["f"][1]), DimMatrix_i("i", 2),
            DimMatrix_j("j", 2))
    a = hfarray(np.array(m1), dims=dims).reorder_dimensions(*p1)
    b = hfarray(np.array(m2), dims=dims).reorder_dimensions(*p2)
    ra, rb = np.array(a), np.array(b)
    r = getattr(sf, which)(a, b)
    ctx.step()
    r = r.reorder_dimensions("f", "i", "j")
    for k in range(3):
        A1 = nm.convert("S", "ABCD", nm.mat(m1[k]))
        A2 = nm.convert("S", "ABCD", nm.mat(m2[k]))
        if which == "cascadeS":
            W = nm.mul(A1, A2)
        elif which == "deembedleft":
            W = nm.mul(nm.inverse(A1), A2)
        else:
            W = nm.mul(A1, nm.inverse(A2))
        w = nm.convert("ABCD", "S", W)
        g = np.asarray(r)[k].tolist()
        ctx.check(nm.close(nm.mat(g), w), lambda: "%s: %r, expected %r"
                  % (which, g, w))
    ctx.check(np.array_equal(ra, a) and np.array_equal(rb, b),
              "an operand was modified")
    ctx.state((p1, p2, d1, d2, which))
    ctx.observe(np.round(np.asarray(r), 6).tolist())


UNIT = [0, 1.0, 3.0, -3.0, 1.6, -1.6, 2.4, -2.4]


def passive(ctx):
    """make_passive_*, make_reciprocal, check_passive, switch_correct"""
    g = ctx.choose("gain", [0.3, 0.99, 1.0, 1.0005, 1.5, 4.0])
    ph = ctx.choose("phase", UNIT)
    ph2 = ctx.choose("phase difference", [0, 0.2, -0.2, 1.0, -1.0])
    refl = ctx.choose("reflection", [0.0, 0.1j, -0.5])
    e = np.exp
    s21 = g * e(1j * ph)
    s12 = g * e(1j * (ph + ph2)) * 0.9
    m = [[[refl, s12], [s21, -refl * 0.5]], [[0.1, 0.2], [0.2, 0.1j]]]
    dims = (DimSweep("f", [1., 2.]), DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    z0 = ctx.choose("Z0", [50., 75.])
    S = SArray(hfarray(np.array(m), dims=dims))
    S.Z0 = z0
    for fn in (sf.make_passive_svd, sf.make_passive_eig, sf.make_reciprocal):
        r = fn(S)
        ctx.check(isinstance(r, SArray) and r.Z0 == z0 and
                  [d.name for d in r.dims] == ["f", "i", "j"],
                  lambda: "%s: Z0 %r, dims %r" % (fn.__name__, r.Z0, r.dims))
    raw = np.array(S)
    sv = [np.linalg.svd(np.array(x), compute_uv=False).max() for x in m]
    ev = [np.abs(np.linalg.eigvals(np.array(x))).max() for x in m]
    P = np.asarray(sf.make_passive_svd(S))
    ctx.step()
    for k in range(2):
        top = np.linalg.svd(P[k], compute_uv=False).max()
        ctx.check(top <= 1 + 1e-9, lambda: "make_passive_svd: singular value "
                  "%r" % top)
        want = np.minimum(np.linalg.svd(raw[k], compute_uv=False), 1)
        ctx.check(np.allclose(np.linalg.svd(P[k], compute_uv=False), want,
                              rtol=1e-9),
                  "make_passive_svd changed singular values below 1")
        ctx.check(np.linalg.norm(P[k] - raw[k], 2) <= max(sv[k] - 1, 0) +
                  1e-9, "make_passive_svd changed more than needed")
        if sv[k] <= 1:
            ctx.check(np.allclose(P[k], raw[k]), "make_passive_svd changed a "
                      "passive network")
    delta = ctx.choose("delta", [None, 1e-6, 1e-3, 0.25, 0])
    Q = np.asarray(sf.make_passive_eig(S) if delta is None else
                   sf.make_passive_eig(S, delta=delta))
    limit = 1 - (1e-6 if delta is None else delta)
    C = sf.check_passive(S)
    ctx.step(2)
    for k in range(2):
        top = np.abs(np.linalg.eigvals(Q[k])).max()
        ctx.check(top <= 1 + 1e-9, lambda: "make_passive_eig: eigenvalue %r"
                  % top)
        if ev[k] > 1:
            ctx.check(abs(top - limit) < 1e-9 and
                      np.allclose(Q[k] * ev[k], raw[k] * limit, rtol=1e-9),
                      lambda: "make_passive_eig: %r" % (Q[k],))
        if ev[k] <= 1:
            ctx.check(np.allclose(Q[k], raw[k]), "make_passive_eig changed a "
                      "network with eigenvalues <= 1")
        ctx.check(abs(np.asarray(C)[k] - ev[k]) < 1e-9, "check_passive")
    ctx.check(tuple(C.dims) == dims[:1], "dims of check_passive")
    ctx.check(np.array_equal(raw, np.asarray(S)), "operand modified")
    R = np.asarray(sf.make_reciprocal(SArray(S)))
    ctx.step()
    for k in range(2):
        a, b = R[k][0][1], R[k][1][0]
        x, y = raw[k][0][1], raw[k][1][0]
        ctx.check(a == b, "make_reciprocal: not reciprocal")
        ctx.check(abs(a * b - x * y) < 1e-9, "make_reciprocal: product")
        if abs(np.angle(y / x)) < 2.5:
            ctx.check((a / x).real > 0 and (b / y).real > 0,
                      lambda: "make_reciprocal: sign of transmission changed:"
                      " %r and %r became %r" % (x, y, a))
        ctx.check(R[k][0][0] == raw[k][0][0] and R[k][1][1] == raw[k][1][1],
                  "make_reciprocal changed a reflection")
    inc = hfarray(np.array([[[1, 0.1j], [0.2, 2]], [[1.5, 0], [0.3, 1j]]]),
                  dims=dims)
    B = hfarray(np.array([np.array(m[k]).dot(np.asarray(inc)[k])
                          for k in range(2)]), dims=dims)
    W = sf.switch_correct(B, inc)
    ctx.check(np.allclose(np.asarray(W), raw), "switch_correct")
    ctx.step()
    ctx.state((g, ph, ph2, repr(refl)))
    ctx.observe(np.round(R, 6).tolist())


def representations(kind, m):
    out = {}
    for dst in NAMES:
        try:
            out[dst] = nm.convert(kind, dst, nm.mat(m))
        except nm.Singular:
            pass
    return out


REPR = [Named(x.__mc_name__, representations(*x.value)) for x in c05.SPECIAL]


def joined(a, b):
    """S matrix of the cascade"""
    loop = 1 - a[1][1] * b[0][0]
    if abs(loop) < 1e-6:
        return None
    return [[a[0][0] + a[0][1] * b[0][0] * a[1][0] / loop,
             a[0][1] * b[0][1] / loop],
            [a[1][0] * b[1][0] / loop,
             b[1][1] + b[1][0] * a[1][1] * b[0][1] / loop]]


def single(kind, m):
    return real_array(KINDS[kind], [m], (), 2)


def special(ctx):
    """series and shunt elements, throughs, amplifiers, isolators"""
    x = ctx.choose("first", REPR).value
    y = ctx.choose("second", REPR).value
    s = joined(x["S"], y["S"])
    if s is None:
        raise Prune()
    res = representations("S", s)
    k1 = ctx.choose("first is", sorted(x))
    k2 = ctx.choose("second is", sorted(y)[:3] if ctx.tier == "quick"
                    else sorted(y))
    if k1 not in res:
        raise Prune()
    a, b = single(k1, x[k1]), single(k2, y[k2])

    def agrees(got, kind, want, what):
        g = np.asarray(got).tolist()
        ctx.check(type(got) is KINDS[kind] and (
            nm.close(nm.mat(g), want, 1e-6) or kind in ("S", "T", "Tp") and
            np.allclose(g, want, 0, 1e-9)),
            lambda: "%s: %r, expected %r" % (what, got, want))
        ctx.step()
    r = a.cascade(b)
    agrees(r, k1, res[k1], "cascade")
    sa, sb = x["S"], y["S"]
    if abs(sa[0][1] * sa[1][0]) > 1e-6 and k1 in y:
        agrees(r.deembed(left=a), k1, y[k1], "without the first")
    if abs(sb[0][1] * sb[1][0]) > 1e-6:
        agrees(r.deembed(right=b), k1, x[k1], "without the second")
    ctx.state((repr(sa), repr(sb), k1))
    ctx.observe(np.round(np.asarray(r), 5).tolist())


def long_chain(ctx):
    """up to 12 networks"""
    n = ctx.choose("number", list(range(5, 13)))
    start = ctx.choose("start", range(4))
    sh = ctx.choose("outer dims", [(), ("f",), ("r", "f")])
    fams = [family(ZS[(start + k) % 4], sh, k) for k in range(n)]
    A = [abcd(f, sh) for f in fams]
    arrs = [build("S", f, sh) for f in fams]
    want = (tuple(sorted(sh)), lambda c: nm.cascade(*[q(c) for q in A]))
    r = SArray(sf.cascadeS(*arrs))
    verify(ctx, r, "S", want, "cascadeS of %d" % n, 1e-6)
    q = build("ABCD", fams[0], sh)
    for f in fams[1:]:
        q = q.cascade(build("S", f, sh))
    verify(ctx, q, "ABCD", want, "cascade of %d" % n, 1e-6)
    ctx.step(2 * n)
    ctx.state((n, start, sh))
    ctx.observe(np.round(np.asarray(r), 5).tolist())


def spaces(tier):
    return [
        Space("cascade", cascade_method, "all 8x8 pairs of representations x "
              "outer dims shared/disjoint/reordered x networks x Z0; "
              "deembedding the result gives the parts back"),
        Space("deembed", deembed_method, "left/right/both/none x "
              "representations x outer dims x Z0"),
        Space("remove", remove, "all outer dims of measured, left and right"),
        Space("n-ary", nary, "cascadeS of 2..4 networks in every order, both "
              "associations"),
        Space("special", special, "all pairs of 19 networks without some "
              "representations"),
        Space("long", long_chain, "cascades of 5 to 12 networks"),
        Space("layouts", layouts, "plain arrays, all dim orders, real and "
              "complex"),
        Space("passive", passive, "passivity and reciprocity enforcement"),
    ]
