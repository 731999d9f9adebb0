# -*- coding: utf-8 -*-
"""C03: reductions and cumulative operations over any axis designation."""
import itertools
import math

import numpy as np

from mc.engine import Space, Named, Prune
from mc.labelled import (D, L, KINDS, compare, coords, ordered_subsets, plain,
                         hfarray, kind_of, dim_labels)

ASSUMPTIONS = ["each axis is designated once", "labels of a dimension kept "
               "by keepdims are not specified"]

POOL = [D("sweep", "f", [1.5, 2.5, 9.0]), D("sweep", "g", [10, 20]),
        D("rep", "r", [5, 7]), D("mi", "i", [0, 1]), D("mj", "j", [0, 1]),
        D("rep", "one", [4]), D("rep", "f", [6, 8])]


def r_sum(v):
    t = 0
    for x in v:
        t = t + x
    return t


def r_mean(v):
    return r_sum(v) / len(v)


def r_var(ddof):
    def f(v):
        m = r_mean(v)
        return r_sum([abs(x - m) ** 2 for x in v]) / (len(v) - ddof)
    return f


def r_std(ddof):
    return lambda v: math.sqrt(r_var(ddof)(v))


def r_rss(v):
    return math.sqrt(r_sum([abs(x) ** 2 for x in v]))


# name, call(array, axis, **kw), reference, real only, takes keepdims
REDUCE = [
    ("sum", lambda a, ax, **k: a.sum(ax, **k), r_sum, False, True),
    ("mean", lambda a, ax, **k: a.mean(ax, **k), r_mean, False, True),
    ("std", lambda a, ax, **k: a.std(ax, **k), r_std(0), False, True),
    ("var", lambda a, ax, **k: a.var(ax, **k), r_var(0), False, True),
    ("min", lambda a, ax, **k: a.min(ax, **k), min, True, True),
    ("max", lambda a, ax, **k: a.max(ax, **k), max, True, True),
    ("rss", lambda a, ax: a.rss(ax), r_rss, False, False),
    ("std1", lambda a, ax, **k: a.std(ax, ddof=1, **k), r_std(1), False,
     True),
    ("var1", lambda a, ax, **k: a.var(ax, ddof=1, **k), r_var(1), False,
     True),
    ("sum axis=", lambda a, ax, **k: a.sum(axis=ax, **k), r_sum, False,
     True),
]
NPFUN = [("np.sum", np.sum, r_sum, False), ("np.mean", np.mean, r_mean, False),
         ("np.min", np.min, min, True), ("np.max", np.max, max, True)]


def reduce_model(m, axes, fn):
    keep = [d for k, d in enumerate(m.dims) if k not in axes]
    gone = [m.dims[k] for k in axes]
    cells = {}
    for c in coords(keep):
        v = []
        for e in coords(gone):
            cc = dict(c)
            cc.update(e)
            v.append(m.at(cc))
        cells[frozenset(c.items())] = fn(v)
    return L(keep, cells)


def designate(ctx, label, dims, k, multi=True):
    """All ways of naming axis *k*: (designation)."""
    d = dims[k]
    n = len(dims)
    opts = [Named("index %d" % k, k), Named("index %d" % (k - n), k - n),
            Named("np index", np.int64(k)),
            Named("dim", d.real())]
    if [x.name for x in dims].count(d.name) == 1:
        opts.append(Named("name", d.name))
    cls = KINDS[d.kind]
    if [x.kind for x in dims].count(d.kind) == 1:
        opts.append(Named("class", cls))
    return ctx.choose(label, opts).value


VALUES = [Named("float", lambda k: [4.5, -2.0, 7.25, 1.0, 3.0, -8.5, 0.5,
                                    6.0, 2.0, -1.5, 9.0, 5.0][k % 12] + k),
          Named("int", lambda k: (k * 5) % 7 - 2),
          Named("complex", lambda k: complex((k * 3) % 5 - 1, (k * 7) % 4))]


def setup(ctx, kmax, kmin=1):
    idx = ctx.choose("dims", ordered_subsets(len(POOL), kmax, kmin))
    val = ctx.choose("values", VALUES)
    dims = [POOL[i] for i in idx]
    n = int(np.prod([len(d) for d in dims]))
    m = L.fill(dims, [val.value(k) for k in range(n)])
    a = m.real(unit="V")
    return idx, val, dims, m, a


def one(kmax):
    def run(ctx):
        idx, val, dims, m, a = setup(ctx, kmax)
        cplx = val.__mc_name__ == "complex"
        k = ctx.choose("axis", range(len(dims)))
        ax = designate(ctx, "designated by", dims, k)
        form = ctx.choose("form", ["bare", "tuple", "list"])
        if form == "tuple":
            ax = (ax,)
        elif form == "list":
            ax = [ax]
        ctx.state((idx, val.__mc_name__, k, form))
        for name, call, ref, real, kd in REDUCE:
            if cplx and real:
                continue
            if name.endswith("1") and len(dims[k]) < 2:
                continue
            want = reduce_model(m, [k], ref)
            r = call(a, ax)
            ctx.step()
            compare(ctx, r, want, "%s(%r)" % (name, ax), tol=1e-9,
                    order="exact")
            ctx.observe(plain(r))
            if kd:
                r = call(a, ax, keepdims=True)
                ctx.step()
                raw = np.asarray(r)
                ctx.check(raw.shape == tuple(1 if q == k else len(d)
                                             for q, d in enumerate(dims)),
                          lambda: "%s keepdims shape %r" % (name, raw.shape))
                ctx.check([d.name for d in r.dims] == [d.name for d in dims],
                          lambda: "%s keepdims dims %r" % (name, r.dims))
                ctx.check(np.allclose(raw.ravel(), want.flat(), 1e-9, 1e-12),
                          lambda: "%s keepdims values %r, expected %r"
                          % (name, raw, want.flat()))
        if form == "bare":
            for name, f, ref, real in NPFUN:
                if cplx and real:
                    continue
                compare(ctx, f(a, axis=ax), reduce_model(m, [k], ref), name,
                        tol=1e-9, order="exact")
                ctx.step()
        compare(ctx, a, m, "operand afterwards", order="exact")
    return run


def several(kmax):
    def run(ctx):
        idx, val, dims, m, a = setup(ctx, kmax, 2)
        cplx = val.__mc_name__ == "complex"
        sel = ctx.choose("axes", [p for n in (2, 3) for p in
                                  itertools.permutations(range(len(dims)), n)])
        ax = tuple(designate(ctx, "designated by", dims, k) for k in sel[:2])
        for k in sel[2:]:
            ax += (dims[k].real(),)
        ctx.state((idx, val.__mc_name__, sel))
        for name, call, ref, real, kd in REDUCE[:7]:
            if cplx and real:
                continue
            r = call(a, ax)
            ctx.step()
            compare(ctx, r, reduce_model(m, sel, ref), "%s%r" % (name, ax),
                    tol=1e-9, order="exact")
            ctx.observe(plain(r))
    return run


def everything(ctx):
    """axis=None, class that matches several dims, absent dimensions"""
    idx, val, dims, m, a = setup(ctx, 4)
    cplx = val.__mc_name__ == "complex"
    case = ctx.choose("case", ["none", "default", "class", "missing name",
                               "missing dim", "bad index"])
    ctx.state((idx, val.__mc_name__, case))
    for name, call, ref, real, kd in REDUCE[:7]:
        if cplx and real:
            continue
        allax = list(range(len(dims)))
        ctx.step()
        if case == "none":
            compare(ctx, call(a, None), reduce_model(m, allax, ref), name,
                    tol=1e-9)
        elif case == "default":
            r = getattr(a, name)()
            compare(ctx, r, reduce_model(m, allax, ref), name + "()",
                    tol=1e-9)
        elif case == "class":
            for kind in ("sweep", "rep", "partial"):
                sel = [k for k, d in enumerate(dims) if d.kind == kind]
                if len(sel) > 1 or (not sel and ref in (r_sum, r_mean, min,
                                                        max)):
                    compare(ctx, call(a, KINDS[kind]),
                            reduce_model(m, sel, ref),
                            "%s(%s)" % (name, kind), tol=1e-9, order="exact")
        else:
            bad = {"missing name": "NONE",
                   "missing dim": KINDS["sweep"]("zz", [1, 2]),
                   "bad index": len(dims)}[case]
            try:
                r = call(a, bad)
            except IndexError:
                pass
            else:
                ctx.fail("%s over absent %r gave %r" % (name, bad, r))
            if kd:
                compare(ctx, call(a, bad, dimerror=False), m,
                        "%s(%r, dimerror=False)" % (name, bad),
                        order="exact")
                ctx.step()


def cumulative(kmax):
    def run(ctx):
        idx, val, dims, m, a = setup(ctx, kmax)
        k = ctx.choose("axis", range(len(dims)))
        ax = designate(ctx, "designated by", dims, k)
        ctx.state((idx, val.__mc_name__, k))
        for name in ("cumsum", "cumprod"):
            r = getattr(a, name)(ax)
            cells = {}
            for c in m.coords():
                pos = dims[k].labels.index(c[dims[k].key])
                acc = None
                for lab in dims[k].labels[:pos + 1]:
                    cc = dict(c)
                    cc[dims[k].key] = lab
                    v = m.at(cc)
                    acc = v if acc is None else (acc + v if name == "cumsum"
                                                 else acc * v)
                cells[frozenset(c.items())] = acc
            compare(ctx, r, L(dims, cells), "%s(%r)" % (name, ax), tol=1e-9,
                    order="exact")
            ctx.step()
            ctx.observe(plain(r))
        compare(ctx, a, m, "operand afterwards", order="exact")
    return run


def refused(ctx):
    """cumulative operations and take need one axis of the array"""
    idx, val, dims, m, a = setup(ctx, 3)
    op = ctx.choose("operation", ["cumsum", "cumprod", "take"])
    case = ctx.choose("axis", ["none", "missing name", "missing dim",
                               "bad index", "absent class", "several"])
    kinds = [d.kind for d in dims]
    ctx.step()
    if case == "none" and op != "take":
        ax = None
    elif case == "missing name":
        ax = "NONE"
    elif case == "missing dim":
        ax = KINDS["sweep"]("zz", [1, 2])
    elif case == "bad index":
        ax = ctx.choose("index", [len(dims), -len(dims) - 1])
    elif case == "absent class":
        ax = KINDS["partial"]
    elif case == "several" and max(kinds.count(k) for k in kinds) > 1:
        ax = KINDS[max(kinds, key=kinds.count)]
    else:
        raise Prune()
    try:
        r = a.take([0], axis=ax) if op == "take" else getattr(a, op)(ax)
    except Exception as exc:
        ctx.observe((op, case, type(exc).__name__))
    else:
        ctx.fail("%s with axis %r of %r gave %r" % (op, ax, dims, r))
    ctx.state((idx, op, case))
    compare(ctx, a, m, "operand afterwards", order="exact")


def taken(ctx):
    """take along every axis, however it is designated"""
    idx, val, dims, m, a = setup(ctx, 3)
    k = ctx.choose("axis", range(len(dims)))
    ax = designate(ctx, "designated by", dims, k)
    L_ = len(dims[k])
    ind = ctx.choose("indices", [[0], [L_ - 1, 0], [0, 0], [-1], 0, -1])
    r = a.take(ind, axis=ax)
    ctx.step()
    raw = np.asarray(r)
    want = np.take(np.asarray(a), ind, axis=k)
    ctx.check(raw.shape == want.shape and np.array_equal(raw, want),
              lambda: "take(%r, %r) is %r, expected %r" % (ind, ax, raw,
                                                           want))
    names = [(d.kind, d.name) for d in dims]
    labels = [list(d.labels) for d in dims]
    if isinstance(ind, list):
        labels[k] = [labels[k][i] for i in ind]
    else:
        del names[k], labels[k]
    rdims = getattr(r, "dims", ())
    ctx.check([(kind_of(d), d.name) for d in rdims] == names and
              [dim_labels(d) for d in rdims] == labels,
              lambda: "take(%r, %r) has dims %r" % (ind, ax, [
                  (d, dim_labels(d)) for d in rdims]))
    ctx.state((idx, k, repr(ind)))
    ctx.observe(plain(r))


def nested(ctx):
    """reducing one axis after the other gives the joint reduction, in every
    order of the axes"""
    idx = ctx.choose("dims", ordered_subsets(5, 3, 2))
    dims = [POOL[i] for i in idx]
    n = int(np.prod([len(d) for d in dims]))
    m = L.fill(dims, [VALUES[0].value(k) for k in range(n)])
    a = m.real()
    names = ctx.permutation("order", [d.name for d in dims])
    for op, ref in (("sum", r_sum), ("max", max), ("min", min),
                    ("mean", r_mean)):
        r, mm = a, m
        for nm in names:
            k = [d.name for d in mm.dims].index(nm)
            r, mm = getattr(r, op)(nm), reduce_model(mm, [k], ref)
            compare(ctx, r, mm, "%s over %r" % (op, nm), tol=1e-9,
                    order="exact")
            ctx.state((op, idx, tuple(d.name for d in mm.dims)))
            ctx.step()
        ctx.observe(plain(r))


SIX = [D("sweep", "f", [1.5, 2.5, 9.0]), D("sweep", "g", [10, 20]),
       D("partial", "p", [5, 7]), D("rep", "r", [5, 7]), D("mi", "i", [0, 1]),
       D("mj", "j", [0, 1, 2])]


def large(ctx):
    """six dimensions, long dimensions"""
    if ctx.flag("six"):
        turn = ctx.choose("turn", range(6))
        dims = SIX[turn:] + SIX[:turn]
        if ctx.flag("backwards"):
            dims = dims[::-1]
        axes = ctx.choose("axes", [c for n in (1, 2, 3, 5)
                                   for c in itertools.combinations(range(6),
                                                                   n)])
    else:
        n = ctx.choose("length", [17, 100, 257, 1025])
        f = D("sweep", "f", [0.5 * k for k in range(n)])
        dims = ctx.choose("dims", [[f], [f, SIX[3]], [SIX[3], f, SIX[1]]])
        axes = ctx.choose("axes", [c for n in (1, 2) for c in
                                   itertools.combinations(range(len(dims)),
                                                          n)])
    n = int(np.prod([len(d) for d in dims]))
    m = L.fill(dims, [((k * 37) % 101) / 4. - 9 for k in range(n)])
    a = m.real()
    ax = tuple(dims[k].name for k in axes)
    for name, call, ref, real, kd in REDUCE[:7]:
        compare(ctx, call(a, ax), reduce_model(m, axes, ref), name, tol=1e-9,
                order="exact")
        ctx.step()
    for name in "cumsum", "cumprod":
        r = getattr(a, name)(ax[0])
        want = getattr(np, name)(np.asarray(a), axis=axes[0])
        ctx.check(np.array_equal(np.asarray(r), want) and r.dims == a.dims,
                  name)
        ctx.step()
    ctx.state((repr([d.name for d in dims]), axes))
    ctx.observe(plain(r) if n < 400 else n)


TYPES = [np.bool_, np.uint8, np.int8, np.int16, np.float32, np.complex64,
         np.float64, np.complex128, np.int64]


def types(ctx):
    """types of the elements, dtype=, ddof=, out= and nan"""
    typ = ctx.choose("type", TYPES)
    dims = [POOL[i] for i in ctx.choose("dims", [(0,), (0, 2), (2, 0),
                                                 (0, 1, 2)])]
    shape = [len(d) for d in dims]
    n = int(np.prod(shape))
    raw = np.array([(k * 37) % 101 for k in range(n)])
    raw = (raw > 50 if typ is np.bool_ else raw).astype(typ).reshape(shape)
    if typ in (np.float32, np.float64) and ctx.flag("nan"):
        raw[(0,) * len(dims)] = np.nan
    if typ in (np.complex64, np.complex128):
        raw = raw * (1 - 2j)
    a = hfarray(raw, dims=tuple(d.real() for d in dims))
    k = ctx.choose("axis", list(range(len(dims))))
    ax = designate(ctx, "designated by", dims, k)
    kw = ctx.choose("how", [{}, dict(dtype=np.float64), dict(ddof=1),
                            dict(dtype=np.complex128), dict(ddof=1,
                                                            keepdims=True),
                            dict(dtype=np.float32, keepdims=True), "out"])
    for name in ["sum", "mean", "std", "var", "min", "max", "cumsum",
                 "cumprod"]:
        opt = {} if kw == "out" else dict(kw)
        if "ddof" in opt and name not in ("std", "var"):
            continue
        if "dtype" in opt and name in ("min", "max"):
            continue
        if "keepdims" in opt and name.startswith("cum"):
            continue
        if raw.dtype.kind == "c" and opt.get("dtype") in (np.float32,
                                                         np.float64):
            continue
        want = getattr(raw, name)(axis=k, **opt)
        if kw == "out":
            if name.startswith("cum"):
                place = np.zeros(want.shape, want.dtype)
                r = getattr(a, name)(ax, out=place)
                ctx.check(np.allclose(place, want, equal_nan=True),
                          name + " out=")
            else:
                want = getattr(raw, name)(axis=k, keepdims=True)
                place = np.zeros(want.shape, want.dtype)
                r = getattr(a, name)(ax, out=place, keepdims=True)
                ctx.check(np.allclose(place, want, equal_nan=True) and
                          np.allclose(np.asarray(r), want, equal_nan=True),
                          name + " out=")
            ctx.step()
            continue
        r = getattr(a, name)(ax, **opt)
        got = np.asarray(r)
        ctx.check(got.shape == want.shape and got.dtype == want.dtype and
                  np.allclose(got, want, 1e-5, 1e-6, True), lambda:
                  "%s(%r, %r) of %s is %r %s, expected %r %s"
                  % (name, ax, opt, typ.__name__, got, got.dtype, want,
                     want.dtype))
        ctx.step()
    ctx.state((typ.__name__, repr(kw), k))
    ctx.observe((typ.__name__, repr(kw), k, len(dims)))


def spaces(tier):
    q = tier == "quick"
    return [
        Space("one-axis", one(3), "every ordered subset of the 7 dims "
              "up to 3, every axis, every designation, 10 reductions, "
              "keepdims on/off"),
        Space("several-axes", several(3), "every ordered pair/triple of "
              "axes, designations mixed freely"),
        Space("all-or-missing", everything, "axis=None, default, class "
              "matching several dims, absent dims with dimerror on/off"),
        Space("cumulative", cumulative(3), "cumsum, cumprod"),
        Space("refused", refused, "cumulative operations and take without "
              "axis, with absent or ambiguous axes"),
        Space("take", taken, "take along every axis, every designation"),
        Space("large", large, "six dimensions, lengths up to 1025"),
        Space("types", types, "9 types of elements x options"),
        Space("nested", nested, "axis by axis in every order"),
    ]
