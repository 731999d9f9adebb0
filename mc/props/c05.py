# -*- coding: utf-8 -*-
"""C05: conversions between multiport representations keep the network."""
import itertools

import numpy as np

from mc.engine import Space, Named, Prune
from mc import netmodel as nm
from mc.labelled import hfarray, dim_labels
from hftools.dataset import DimSweep, DimRep, DimMatrix_i, DimMatrix_j
from hftools.networks.multiports import (ZArray, YArray, SArray, GArray,
                                         HArray, ABCDArray, TArray, TpArray,
                                         unit_matrix, unit_smatrix)

KINDS = dict(Z=ZArray, Y=YArray, S=SArray, G=GArray, H=HArray,
             ABCD=ABCDArray, T=TArray, Tp=TpArray)
NAMES = ["Z", "Y", "S", "G", "H", "ABCD", "T", "Tp"]
SHORT = dict(ABCD="A")
ASSUMPTIONS = ["networks whose representation exists and is well conditioned "
               "(the alphabet avoids singular ones; singular targets are "
               "pruned)", "real positive reference impedances"]

# Z matrices (ohm): generic complex, real, reciprocal, active, badly scaled
NETS = [
    Named("generic", [[40 + 10j, 25 - 5j], [60 + 3j, 70 - 20j]]),
    Named("real", [[100., 30.], [20., 50.]]),
    Named("reciprocal", [[15 - 40j, 8 + 2j], [8 + 2j, 33 + 60j]]),
    Named("active", [[-20 + 5j, 3 + 1j], [900 - 100j, 75.]]),
    Named("wide range", [[1e3, 0.5j], [-2e3, 1e-1 + 2j]]),
]
SHAPES = [(), ("f",), ("r", "f")]
LABELS = dict(f=("sweep", [1e9, 2e9, 5e9]), r=("rep", [3, 4]),
              v=("sweep", [0.5, 1.5]), long=("sweep", [1e6 * k for k in
                                                      range(1, 202)]))


def outer_dims(shape):
    out = []
    for s in shape:
        k, lab = LABELS[s]
        out.append((DimSweep if k == "sweep" else DimRep)(s, lab))
    return tuple(out)


def netlist(base, shape):
    """one slightly different Z matrix per outer coordinate"""
    n = int(np.prod([len(LABELS[s][1]) for s in shape])) if shape else 1
    out = []
    for k in range(n):
        z = nm.mat(base)
        for i in range(len(z)):
            z[i][i] += (3 + 2 * i) * k
            z[i][(i + 1) % len(z)] += 1.5 * k * (1 if isinstance(
                base[0][0], float) else 1 + 0.3j)
        out.append(z)
    return out


def real_array(cls, mats, shape, N, **kw):
    dims = outer_dims(shape) + (DimMatrix_i("i", N), DimMatrix_j("j", N))
    raw = np.array(mats)
    if not np.any(raw.imag):
        raw = raw.real
    raw = raw.reshape(tuple(len(d.data) for d in dims))
    return cls(hfarray(raw, dims=dims), **kw)


def mats_of(a, N):
    return np.asarray(a).reshape(-1, N, N).tolist()


def verify(ctx, a, kind, zs, shape, N, what, Z0=None, tol=1e-8):
    """*a* with its own reference impedance represents the networks zs"""
    ctx.check(type(a) is KINDS[kind], lambda: "%s: class %r" % (what, type(a)))
    want = [(d.__class__, d.name, tuple(dim_labels(d)))
            for d in outer_dims(shape) + (DimMatrix_i("i", N),
                                          DimMatrix_j("j", N))]
    got = [(d.__class__, d.name, tuple(dim_labels(d))) for d in a.dims]
    ctx.check(got == want, lambda: "%s: dims %r, expected %r"
              % (what, got, want))
    if Z0 is not None:
        ctx.check(a.Z0 == Z0, lambda: "%s: Z0 is %r, expected %r"
                  % (what, a.Z0, Z0))
    z0 = a.Z0 if kind in ("S", "T", "Tp") else 50.
    for g, z in zip(mats_of(a, N), zs):
        w = nm.convert("Z", kind, z, Z0d=z0)
        ctx.check(nm.close(nm.mat(g), w, tol),
                  lambda: "%s: %r, expected %r" % (what, g, w))


def make(kind, zs, shape, N, Z0):
    z0 = Z0 if kind in ("S", "T", "Tp") else 50.
    mats = [nm.convert("Z", kind, z, Z0d=z0) for z in zs]
    if kind == "S":
        return real_array(SArray, mats, shape, N, Z0=Z0)
    a = real_array(KINDS[kind], mats, shape, N)
    if kind in ("T", "Tp"):
        a.Z0 = Z0
    return a


def chains(shapes, nets):
    def run(ctx):
        src = ctx.choose("from", NAMES)
        Z0 = ctx.choose("Z0", [50., 75.]) if src in ("S", "T", "Tp") else 50.
        net = ctx.choose("network", nets)
        shape = ctx.choose("outer dims", shapes)
        zs = netlist(net.value, shape)
        a = make(src, zs, shape, 2, Z0)
        verify(ctx, a, src, zs, shape, 2, "constructed", Z0=Z0)
        before = np.array(a)
        mid = ctx.choose("to", NAMES)
        b = KINDS[mid](a)
        ctx.step()
        verify(ctx, b, mid, zs, shape, 2, "%s(%s)" % (mid, src),
               Z0=Z0 if src == "S" == mid else 50. if mid == "S" else None)
        ctx.state((src, mid, Z0, net.__mc_name__, shape))
        for dst in NAMES:
            c = KINDS[dst](b)
            ctx.step()
            verify(ctx, c, dst, zs, shape, 2, "%s(%s(%s))"
                   % (dst, mid, src))
            ctx.observe(np.round(np.asarray(c), 6).tolist())
        ctx.check(np.array_equal(before, np.asarray(a)) and a.Z0 == Z0,
                  "the conversion modified its source")
        d = KINDS[mid](a, copy=False)
        ctx.step()
        verify(ctx, d, mid, zs, shape, 2, "%s(%s, copy=False)" % (mid, src))
        ctx.check(np.array_equal(before, np.asarray(a)),
                  "conversion with copy=False modified its source")
    return run


NPORTS = {
    1: [[[120 - 30j]], [[17.]]],
    2: [n.value for n in NETS[:2]],
    3: [[[50 + 5j, 10, 3j], [12, 80 - 9j, 7], [2, 4 + 1j, 30]],
        [[60., 5., 2.], [4., 90., 11.], [1., 3., 20.]]],
    4: [[[50, 1, 2, 3j], [4, 60 + 1j, 5, 6], [7, 8j, 70, 9],
         [1, 2, 3, 80 - 20j]]],
}


def nports(ctx):
    N = ctx.choose("ports", [1, 2, 3, 4])
    base = ctx.choose("network", NPORTS[N])
    shape = ctx.choose("outer dims", SHAPES)
    Z0 = ctx.choose("Z0 of S", [50., 75., 1.])
    order = ctx.choose("chain", list(itertools.product("ZYS", repeat=4)))
    zs = netlist(base, shape)
    a = make(order[0], zs, shape, N, Z0)
    cur = Z0 if order[0] == "S" else None
    for prev, k in zip(order, order[1:]):
        if k == "S" and prev != "S":
            a = SArray(a, Z0=Z0)
            cur = Z0
        else:
            a = KINDS[k](a)
        ctx.step()
        verify(ctx, a, k, zs, shape, N, "->".join(order),
               Z0=cur if k == "S" else None)
        ctx.state((N, repr(base), shape, Z0, k))
    ctx.observe(np.round(np.asarray(a), 6).tolist())


def matrix_labels(ctx):
    """rows and columns may be labelled 1, 2 (files do that)"""
    src = ctx.choose("from", NAMES)
    lab = ctx.choose("labels", [[1, 2], [0, 1], [5, 3]])
    names = ctx.choose("names", [("i", "j"), ("row", "col")])
    zs = netlist(NETS[0].value, ("f",))
    mats = np.array([nm.convert("Z", src, z) for z in zs])
    dims = outer_dims(("f",)) + (DimMatrix_i(names[0], lab),
                                 DimMatrix_j(names[1], lab))
    a = KINDS[src](hfarray(mats, dims=dims))
    for dst in NAMES:
        if names[0] != "i" and (src, dst) not in [("Z", "Y"), ("Y", "Z")] \
                and src != dst:
            continue       # the permutation matrices use the names i and j
        b = KINDS[dst](a)
        ctx.step()
        ctx.check([(d.name, dim_labels(d)) for d in b.dims] ==
                  [(d.name, dim_labels(d)) for d in dims],
                  lambda: "dims of %s(%s): %r" % (dst, src, b.dims))
        for g, z in zip(mats_of(b, 2), zs):
            ctx.check(nm.close(nm.mat(g), nm.convert("Z", dst, z)),
                      lambda: "%s(%s) with labels %r" % (dst, src, lab))
    ctx.state((src, lab, names))
    ctx.observe(np.round(mats, 6).tolist())


def two_port_only(ctx):
    kind = ctx.choose("class", ["G", "H", "ABCD", "T", "Tp"])
    N = ctx.choose("ports", [1, 3, 4])
    src = ctx.choose("from", ["plain", "Z", "Y", "S"])
    raw = np.eye(N) * 10 + np.ones((N, N))
    a = raw if src == "plain" else KINDS[src](raw / 20)
    try:
        KINDS[kind](a)
    except ValueError:
        ctx.observe("refused")
    else:
        ctx.fail("%s accepted a %d-port" % (kind, N))
    ctx.step()
    ctx.state((kind, N, src))


def elements(ctx):
    """elements and sub matrices are not networks: converting is refused"""
    src = ctx.choose("from", NAMES)
    dst = ctx.choose("to", NAMES)
    a = make(src, netlist(NETS[0].value, ("f",)), ("f",), 2, 50.)
    if src == dst:
        raise Prune("same class")
    sub = a[..., 0:1, :]
    before = np.array(a)
    try:
        KINDS[dst](sub)
    except ValueError:
        pass
    else:
        ctx.fail("%s accepted one row of a %s matrix" % (dst, src))
    ctx.check(np.array_equal(before, np.asarray(a)), "source modified")
    ctx.step()
    ctx.state((src, dst))
    ctx.observe((src, dst))


DT = [Named("int", np.int64), Named("int32", np.int32),
      Named("float", np.float64), Named("complex", np.complex128)]


def dtypes(ctx):
    src = ctx.choose("from", NAMES)
    dst = ctx.choose("to", NAMES)
    dt = ctx.choose("dtype", DT).value
    shape = ctx.choose("outer dims", [(), ("f",)])
    M = ctx.choose("matrix", [[[3, 1], [2, 5]], [[7, -2], [1, 4]],
                              [[0, 1], [1, 0]], [[1, 0], [1, 1]]])
    n = 3 if shape else 1
    raw = np.array([M] * n, dt).reshape((3, 2, 2) if shape else (2, 2))
    for k in range(n if shape else 0):
        raw[k, 0, 0] += k
    dims = outer_dims(shape) + (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    a = KINDS[src](hfarray(raw, dims=dims))
    zs = []
    for m in raw.reshape(-1, 2, 2).tolist():
        try:
            zs.append(nm.convert(src, "Z", nm.mat(m)))
            nm.convert(src, dst, nm.mat(m))
        except nm.Singular:
            raise Prune("singular")
    b = KINDS[dst](a)
    ctx.step()
    for g, m in zip(mats_of(b, 2), raw.reshape(-1, 2, 2).tolist()):
        w = nm.convert(src, dst, nm.mat(m))
        ctx.check(nm.close(nm.mat(g), w), lambda: "%s(%s %s): %r, expected %r"
                  % (dst, dt.__name__, src, g, w))
    ctx.check(np.array_equal(np.asarray(a), raw), "source modified")
    ctx.state((src, dst, dt.__name__, shape, repr(M)))
    ctx.observe(np.round(np.asarray(b), 9).tolist())


def id_ops():
    """operations that keep the network (identity on values)"""
    return [
        Named("copy", lambda a: a.copy()),
        Named("view", lambda a: a.view()),
        Named("[...]", lambda a: a[...]),
        Named("[:]", lambda a: a[:]),
        Named("same class", lambda a: a.__class__(a)),
        Named("same class, no copy", lambda a: a.__class__(a, copy=False)),
        Named("reorder back", lambda a: a.reorder_dimensions(
            "i").reorder_dimensions(*[d.name for d in a.dims])),
        Named("T.T", lambda a: a.T.T),
        Named("t.t", lambda a: a.t.t),
        Named("+0", lambda a: a + 0),
        Named("1*", lambda a: 1 * a),
        Named("-(-a)", lambda a: -(-a)),
        Named("a+a*0", lambda a: (a + a * 0).reorder_dimensions(
            *[d.name for d in a.dims])),
        Named("conj.conj", lambda a: a.conj().conj()),
        Named("sliced halves", lambda a: a[..., ::-1, :][..., ::-1, :]),
        Named("add_dim squeeze", lambda a: a.add_dim(
            DimSweep("new", [1])).squeeze("new")),
    ]


def z0_history(depth):
    ops = id_ops()

    def run(ctx):
        kind = ctx.choose("class", ["S", "T", "Tp", "Z"])
        Z0 = ctx.choose("Z0", [75., 50., 10.])
        shape = ctx.choose("outer dims", [("f",), ("r", "f")])
        zs = netlist(NETS[0].value, shape)
        how = ctx.choose("Z0 given by", ["argument", "attribute"]
                         if kind == "S" else ["attribute"])
        mats = [nm.convert("Z", kind, z, Z0d=Z0) for z in zs]
        if how == "argument":
            a = real_array(SArray, mats, shape, 2, Z0=Z0)
        else:
            a = real_array(KINDS[kind], mats, shape, 2)
            a.Z0 = Z0
        orig, raw = a, np.array(a)
        for k in range(depth):
            # two-port classes need the matrix dims last
            op = ctx.choose("op", ops if kind in "ZS" else
                            [o for o in ops if o.__mc_name__ not in
                             ("T.T", "reorder back")])
            a = op(a)
            ctx.step()
            verify(ctx, a, kind, zs, shape, 2, op.__mc_name__,
                   Z0=Z0 if kind != "Z" else None)
            ctx.check(np.array_equal(raw, np.asarray(orig)) and
                      (kind == "Z" or orig.Z0 == Z0),
                      "%s changed the original" % op.__mc_name__)
            ctx.state((kind, Z0, shape, op.__mc_name__, k))
        z = ZArray(a)
        verify(ctx, z, "Z", zs, shape, 2, "Z of the result")
        if shape == ("f",):
            s = a[1]
            for g in mats_of(ZArray(s), 2):
                ctx.check(nm.close(nm.mat(g), zs[1]), "Z of one frequency")
        ctx.step()
        ctx.observe(np.round(np.asarray(z), 6).tolist())
    return run


def renormalise(ctx):
    z1 = ctx.choose("Z0", [50., 75., 10.])
    z2 = ctx.choose("new Z0", [50., 75., 10., 1.])
    N = ctx.choose("ports", [1, 2, 3])
    shape = ctx.choose("outer dims", SHAPES)
    zs = netlist(NPORTS[N][0], shape)
    mats = [nm.convert("Z", "S", z, Z0d=z1) for z in zs]
    a = real_array(SArray, mats, shape, N, Z0=z1)
    raw = np.array(a)
    b = SArray(a, Z0=z2)
    verify(ctx, b, "S", zs, shape, N, "renormalised", Z0=z2)
    verify(ctx, SArray(b, Z0=z1), "S", zs, shape, N, "back", Z0=z1)
    verify(ctx, SArray(b), "S", zs, shape, N, "SArray(S)", Z0=z2)
    ctx.step(3)
    ctx.check(np.array_equal(raw, np.asarray(a)) and a.Z0 == z1,
              "source modified")
    ctx.state((z1, z2, N, shape))
    ctx.observe(np.round(np.asarray(b), 6).tolist())


def accessors(ctx):
    kind = ctx.choose("class", NAMES)
    N = ctx.choose("ports", [2] if kind not in "ZYS" else [1, 2, 3])
    shape = ctx.choose("outer dims", SHAPES)
    zs = netlist(NPORTS[N][0], shape)
    a = make(kind, zs, shape, N, 50.)
    raw = np.array(a)
    sn = SHORT.get(kind, kind)
    how = ctx.choose("array is", [Named("itself", lambda a: a),
                                  Named("1 * a", lambda a: 1 * a),
                                  Named("a + 0 * a", lambda a: a + 0 * a),
                                  Named("a[...]", lambda a: a[...]),
                                  Named("copy", lambda a: a.copy())])
    a = how(a).reorder_dimensions(*[d.name for d in a.dims])
    i = ctx.choose("i", range(N))
    j = ctx.choose("j", range(N))
    for nmx in set([sn, sn.lower(), sn.upper()]):
        v = getattr(a, "%s%d%d" % (nmx, i + 1, j + 1))
        ctx.step()
        ctx.check(np.array_equal(np.asarray(v), raw[..., i, j]) and
                  tuple(v.dims) == outer_dims(shape),
                  lambda: "%s%d%d is %r" % (nmx, i + 1, j + 1, v))
    how = ctx.choose("assign", ["accessor", "index"])
    name = "%s%d%d" % (sn, i + 1, j + 1)
    if how == "accessor":
        setattr(a, name, 1 + 2j if raw.dtype.kind == "c" else 3.)
    else:
        a[..., i, j] = 1 + 2j if raw.dtype.kind == "c" else 3.
    want = raw.copy()
    want[..., i, j] = 1 + 2j if raw.dtype.kind == "c" else 3.
    ctx.check(np.array_equal(np.asarray(a), want),
              lambda: "after assigning %s: %r" % (name, a))
    for bad in ("%s%d1" % (sn, N + 1), "%s1%d" % (sn, N + 1), sn + "01",
                "Q11"):
        ctx.check(not hasattr(a, bad), lambda: "%s exists" % bad)
    ctx.step()
    ctx.state((kind, N, shape, i, j))
    ctx.observe(want.tolist())


def port_names(ctx):
    """every element of matrices of up to 9 ports, read and assigned"""
    kind = ctx.choose("class", ["Z", "Y", "S"])
    N = ctx.choose("ports", range(1, 10))
    outer = ctx.choose("outer dims", [(), (3,)])
    raw = np.arange(float(np.prod(outer) * N * N)).reshape(outer + (N, N)) + 1
    dims = (DimSweep("f", [1., 2., 3.]),) if outer else ()
    dims = dims + (DimMatrix_i("i", N), DimMatrix_j("j", N))
    cls = dict(Z=ZArray, Y=YArray, S=SArray)[kind]
    i = ctx.choose("i", range(N))
    a = cls(hfarray(raw, dims=dims))
    for j in range(N):
        for x in (kind, kind.lower()):
            v = getattr(a, "%s%d%d" % (x, i + 1, j + 1))
            ctx.step()
            ctx.check(np.array_equal(np.asarray(v), raw[..., i, j]), lambda:
                      "%s%d%d of %d ports is %r" % (x, i + 1, j + 1, N, v))
        setattr(a, "%s%d%d" % (kind, i + 1, j + 1), -1.)
        raw[..., i, j] = -1
        ctx.check(np.array_equal(np.asarray(a), raw), lambda:
                  "assigned %s%d%d of %d ports" % (kind, i + 1, j + 1, N))
    ctx.state((kind, N, outer, i))
    ctx.observe((N, i))


def units(ctx):
    size = ctx.choose("size", [2, 3])
    u = unit_matrix(size)
    ctx.check(np.array_equal(np.asarray(u), np.eye(size)), "unit_matrix")
    s = unit_smatrix(2)
    ctx.check(np.array_equal(np.asarray(s), [[0, 1], [1, 0]]), "unit_smatrix")
    for net in (u, s):
        net[..., 0, 0] = 0.5j
        ctx.check(complex(np.asarray(net)[0, 0]) == 0.5j, "complex element")
    s = unit_smatrix(2)
    a = nm.convert("S", "ABCD", nm.mat([[0, 1], [1, 0]]))
    ctx.check(nm.close(nm.mat(np.asarray(ABCDArray(s)).tolist()), a),
              "a through is the unit ABCD matrix")
    ctx.check(nm.close(a, nm.eye(2)), "reference")
    ctx.step(3)
    ctx.state(size)
    ctx.observe(size)


def large(ctx):
    """many ports, long sweeps, many dimensions"""
    N = ctx.choose("ports", [5, 6, 9, 12, 2])
    Z0 = ctx.choose("Z0", [50., 75.])
    base = [[complex(40 + 9 * i, 7 - 2 * i) if i == j else
             complex((3 * i + 5 * j) % 11, (i - j) % 4) for j in range(N)]
            for i in range(N)]
    if N == 2:
        shape = ctx.choose("outer dims", [("long",), ("r", "v", "f"),
                                          ("v", "long")])
        names = NAMES
    else:
        shape = ctx.choose("outer dims", [(), ("f",)])
        names = "ZYS"
    src = ctx.choose("from", names)
    zs = netlist(base, shape)
    a = make(src, zs, shape, N, Z0)
    for dst in names:
        b = KINDS[dst](a)
        ctx.step()
        verify(ctx, b, dst, zs, shape, N, "%s(%s)" % (dst, src))
    ctx.state((N, shape, src))
    ctx.observe((N, shape, src, Z0))


SPECIAL = [
    Named("through", ("ABCD", [[1, 0], [0, 1]])),
    Named("crossed through", ("ABCD", [[-1, 0], [0, -1]])),
    Named("series", ("ABCD", [[1, 30 + 5j], [0, 1]])),
    Named("shunt", ("ABCD", [[1, 0], [0.02 - 0.01j, 1]])),
    Named("transformer", ("ABCD", [[2, 0], [0, 0.5]])),
    Named("gyrator", ("ABCD", [[0, 50], [0.02, 0]])),
    Named("amplifier", ("S", [[0, 0], [10, 0]])),
    Named("mismatched amplifier", ("S", [[0.5j, 0], [8 - 1j, -0.3]])),
    Named("backwards", ("S", [[0.2, 3j], [0, 0.4]])),
    Named("isolated", ("S", [[0.2, 0], [0, 0.5j]])),
    Named("matched isolator", ("S", [[0, 0], [0, 0]])),
    Named("matched line", ("S", [[0, 0.6 - 0.8j], [0.6 - 0.8j, 0]])),
    Named("quarter wave", ("ABCD", [[0, 70j], [1j / 70, 0]])),
    Named("voltage source", ("ABCD", [[0.1, 0], [0, 0]])),
    Named("transconductance", ("Y", [[0, 0], [0.05, 0]])),
    Named("transresistance", ("Z", [[0, 0], [700, 0]])),
    Named("current amplifier", ("H", [[0, 0], [80, 0]])),
    Named("voltage amplifier", ("G", [[0, 0], [12, 0]])),
    Named("real", ("Y", [[0.01, 0], [0.05, 0.002]])),
]


def special(ctx):
    """networks which lack some of the representations"""
    kind, m = ctx.choose("network", SPECIAL).value
    shape = ctx.choose("outer dims", SHAPES[:2])
    Z0 = ctx.choose("Z0", [50., 75.])
    src = ctx.choose("from", NAMES)
    mats = [[[x * (1 + 0.25 * k) for x in row] for row in m]
            for k in range(3 if shape else 1)]

    def matrices(dst, z0):
        return [nm.convert(kind, dst, nm.mat(x), Z0d=z0) for x in mats]

    def exists(dst):
        try:
            for z0 in (50., Z0):
                matrices(dst, z0)
        except nm.Singular:
            return False
        return True
    if not exists(src) or (src not in ("S", "T", "Tp") and Z0 != 50.):
        raise Prune()
    a = real_array(KINDS[src], matrices(src, Z0), shape, 2,
                   **(dict(Z0=Z0) if src == "S" else {}))
    if src in ("T", "Tp"):
        a.Z0 = Z0

    def agrees(a, dst, what):
        for g, w in zip(mats_of(a, 2), matrices(dst, getattr(a, "Z0", 50.))):
            ctx.check(nm.close(nm.mat(g), w, 1e-7) or dst in ("S", "T", "Tp")
                      and np.allclose(g, w, 0, 1e-9), lambda: "%s: %r, "
                      "expected %r" % (what, g, w))
        ctx.step()
    for mid in NAMES:
        if not exists(mid):
            continue
        b = KINDS[mid](a)
        agrees(b, mid, "%s(%s)" % (mid, src))
        for dst in NAMES:
            if exists(dst):
                agrees(KINDS[dst](b), dst, "%s(%s(%s))" % (dst, mid, src))
    ctx.state((kind, repr(m), shape, src, Z0))
    ctx.observe((repr(m), src, Z0))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("chains", chains(SHAPES, NETS),
              "all 8x8x8 chains of representations, 5 networks, 3 shapes, "
              "reference impedances 50/75"),
        Space("nports", nports, "1..4 ports: all Z/Y/S chains of length 4, "
              "3 reference impedances"),
        Space("special", special, "networks without some representations"),
        Space("large", large, "up to 12 ports, 201 frequencies"),
        Space("matrix-labels", matrix_labels, "labels and names of the "
              "matrix dims"),
        Space("two-port-only", two_port_only, "N-ports refused"),
        Space("elements", elements, "partial matrices refused"),
        Space("dtypes", dtypes, "integer, real and complex matrices, all "
              "pairs"),
        Space("z0-history", z0_history(2 if q else 3), "sequences of "
              "operations that keep the network, then conversion"),
        Space("renormalise", renormalise, "change of reference impedance"),
        Space("accessors", accessors, "X11 style access and assignment"),
        Space("port-names", port_names, "elements of 1 to 9 ports"),
        Space("units", units, "unit networks"),
    ]
