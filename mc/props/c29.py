# -*- coding: utf-8 -*-
"""C29: expanded and collapsed forms of arrays hold the same numbers."""
import itertools

import numpy as np

from mc.engine import Space, Prune
from hftools.dataset import (hfarray, DimSweep, DimRep, DimMatrix_i,
                             DimMatrix_j, DiagAxis, CPLX, remove_rep,
                             make_fullcomplex_array, isfullcomplex)
from hftools.dataset.dim import (IndepAxis, DerivAxis, ComplexDiagAxis,
                                 ComplexIndepAxis, ComplexDerivAxis,
                                 DimPartial, DimAnonymous)
from hftools.dataset.arrayobj import (expand_diagonals, diagonal_view,
                                      remove_tail, change_shape,
                                      make_same_dims)

ASSUMPTIONS = [
    "the dimensions of an array have different names",
    "remove_tail: matrix dimensions come last and are not the first ones",
    "units of derivatives are not part of the claim"]

DTYPES = [np.float64, np.complex128, np.int64, np.float32]
PAIR = {DiagAxis: (IndepAxis, DerivAxis), DimSweep: (IndepAxis, DerivAxis),
        DimRep: (IndepAxis, DerivAxis), DimPartial: (IndepAxis, DerivAxis),
        DimAnonymous: (IndepAxis, DerivAxis),
        ComplexDiagAxis: (ComplexIndepAxis, ComplexDerivAxis)}


def layouts(a):
    """the same numbers in different memory layouts"""
    yield a
    yield a.copy(order="F")
    if a.ndim:
        yield a[::-1].copy()[::-1]
        b = np.zeros([2 * n for n in a.shape], a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        yield b


def numbers(shape, dtype):
    n = int(np.prod(shape))
    a = (np.arange(n) + 1).reshape(shape)
    if dtype is np.complex128:
        return a - 0.5j * a ** 2
    return a.astype(dtype)


def array(ctx, sizes, classes, maxdims=3, dtypes=DTYPES):
    nd = ctx.choose("dims", list(range(maxdims + 1)))
    dims = []
    for k in range(nd):
        cls = ctx.choose("class", classes)
        n = ctx.choose("size", sizes)
        labels = [10. * (i + 1) + k for i in range(n)][::-1]
        dims.append(cls("abcd"[k], labels, unit="Hz"))
    a = numbers([len(d.data) for d in dims], ctx.choose("type", dtypes))
    lay = list(layouts(a))
    b = lay[ctx.choose("layout", list(range(len(lay))))]
    x = hfarray(b, dims=tuple(dims), copy=False, unit="V")
    ctx.check(np.array_equal(np.asarray(x), a), "construction")
    return x, a, dims


def same_dims(ctx, got, want, what):
    g = [(d.__class__, d.name, np.asarray(d.data).tolist()) for d in got]
    w = [(d.__class__, d.name, np.asarray(d.data).tolist()) for d in want]
    ctx.check(g == w, lambda: "%s: dims are %r, expected %r" % (what, g, w))


def expand(ctx):
    """expand_diagonals puts the numbers on the diagonals, zero elsewhere"""
    x, a, dims = array(ctx, [1, 2, 3] if ctx.tier == "quick" else
                       [0, 1, 2, 3, 4], list(PAIR), 2 if ctx.tier == "quick"
                       else 3)
    how = ctx.choose("which", ["all", "some"])
    if how == "all":
        some = list(dims)
        y = expand_diagonals(x)
    else:
        some = ctx.subset("expanded", dims)
        if len(some) == 2 and ctx.flag("reversed"):
            some = some[::-1]
        y = expand_diagonals(x, tuple(some))
    want = []
    for d in dims:
        if d in some:
            want += [c(d) for c in PAIR[d.__class__]]
        else:
            want.append(d)
    same_dims(ctx, y.dims, want, "expand")
    ctx.check(y.dtype == x.dtype, "type")
    exp = np.zeros([len(d.data) for d in want], a.dtype)
    for idx in np.ndindex(*a.shape):
        full = []
        for i, d in zip(idx, dims):
            full += [i, i] if d in some else [i]
        exp[tuple(full)] = a[idx]
    ctx.check(np.array_equal(np.asarray(y), exp), lambda: "expanded %r to %r"
              % (a, np.asarray(y)))
    ctx.check(np.array_equal(np.asarray(x), a), "argument changed")
    # back
    z = y
    for d in some:
        pair = tuple(c(d) for c in PAIR[d.__class__])
        v = diagonal_view(z, pair)
        k = z.dims.index(pair[0])
        z = hfarray(v, dims=z.dims[:k] + (d,) + z.dims[k + 2:], copy=False)
    ctx.check(np.array_equal(np.asarray(z), a), "diagonals")
    ctx.step(2)
    ctx.state((repr([(d.__class__, len(d.data)) for d in dims]), how))
    ctx.observe((a.shape, str(a.dtype), how, len(some)))


def views(ctx):
    """diagonal_view reads and writes the diagonal of any dimensions"""
    n = 2 if ctx.tier == "quick" else 3
    shape = [ctx.choose("n%d" % k, list(range(1, n + 2))) for k in range(3)]
    dims = tuple(DimSweep(nm, m) for nm, m in zip("abc", shape))
    a = numbers(shape, ctx.choose("type", DTYPES))
    lay = list(layouts(a))
    x = hfarray(lay[ctx.choose("layout", list(range(len(lay))))], dims=dims,
                copy=False)
    axes = ctx.choose("diagonal", [p for r in (1, 2, 3)
                                   for p in itertools.permutations(range(3),
                                                                   r)])
    rest = [k for k in range(3) if k not in axes]
    # position of the diagonal: that of the first dimension given, among the
    # dimensions that remain
    if axes[0] > min(axes):
        raise Prune()
    v = diagonal_view(x, [dims[k] for k in axes])
    m = min(shape[k] for k in axes)
    pos = len([k for k in rest if k < axes[0]])
    for i in range(m):
        idx = [slice(None)] * 3
        for k in axes:
            idx[k] = i
        got = np.asarray(v)[(slice(None),) * pos + (i,)]
        ctx.check(np.array_equal(got, a[tuple(idx)]), lambda: "element %d of "
                  "diagonal %r is %r, expected %r" % (i, axes, got,
                                                      a[tuple(idx)]))
    want = a.copy()
    v[...] = 7
    for i in range(m):
        idx = [slice(None)] * 3
        for k in axes:
            idx[k] = i
        want[tuple(idx)] = 7
    ctx.check(np.array_equal(np.asarray(x), want), lambda: "after writing 7: "
              "%r" % np.asarray(x))
    ctx.step(2)
    ctx.observe((shape, axes))


def fullcomplex(ctx):
    """2x2 real matrices stand for complex numbers"""
    x, a, dims = array(ctx, [1, 3], [DimSweep, DimRep, DimMatrix_i], 2)
    y = make_fullcomplex_array(x)
    same_dims(ctx, y.dims, list(dims) + list(CPLX), "full")
    ctx.check(isfullcomplex(y) and not isfullcomplex(x), "isfullcomplex")
    Y = np.asarray(y)
    ctx.check(Y.dtype == np.float64, "type")
    if np.iscomplexobj(a):
        want = np.array([[a.real, -a.imag], [a.imag, a.real]])
    else:
        want = np.array([[a, 0 * a], [0 * a, 0 * a]])
    want = np.moveaxis(want, [0, 1], [-2, -1])
    ctx.check(np.array_equal(Y, want), lambda: "%r became %r" % (a, Y))
    z = make_fullcomplex_array(y)
    same_dims(ctx, z.dims, y.dims, "twice")
    ctx.check(np.array_equal(np.asarray(z), Y), "twice")
    # joined with other arrays
    other = hfarray(np.arange(4.).reshape(2, 2), dims=CPLX)
    b, c = make_same_dims(x, other)
    ctx.check(b.dims == c.dims, "make_same_dims")
    ctx.check(np.array_equal(np.asarray(b), want.transpose(
        [list(y.dims).index(d) for d in b.dims])), "make_same_dims")
    s = x + other
    got = np.asarray(s).transpose([list(s.dims).index(d) for d in y.dims])
    ctx.check(np.array_equal(got, want + np.arange(4.).reshape(2, 2)),
              lambda: "sum %r" % got)
    ctx.step(3)
    ctx.observe((a.shape, str(a.dtype)))


def shapes(ctx):
    """change_shape: every order of dimensions, with new ones"""
    if ctx.tier == "quick":
        x, a, dims = array(ctx, [1, 3], [DimSweep, DimRep], 3, DTYPES[:1])
    else:
        x, a, dims = array(ctx, [1, 2, 3], [DimSweep, DimRep], 3)
    extra = [DimSweep("x", 4), DimRep("y", 1)]
    more = ctx.subset("new", extra)
    order = ctx.permutation("order", list(range(len(dims) + len(more))))
    everything = list(dims) + more
    new = tuple(everything[k] for k in order)
    y = change_shape(x, new)
    same_dims(ctx, y.dims, new, "change_shape")
    want = a.reshape(a.shape + (1,) * len(more)).transpose(order)
    ctx.check(y.shape == want.shape and np.array_equal(np.asarray(y), want),
              lambda: "%r became %r, expected %r" % (a, np.asarray(y), want))
    same_dims(ctx, x.dims, dims, "argument")
    ctx.step()
    ctx.observe((a.shape, order))


def tails(ctx):
    """remove_tail keeps the first dimension (and the matrix), in order"""
    nd = ctx.choose("dims", [1, 2, 3, 4])
    dims = [ctx.choose("class", [DimSweep, DimRep])(
        "abcd"[k], ctx.choose("size", [1, 2, 3] if nd < 4 else [1, 2]))
        for k in range(nd)]
    ports = ctx.choose("matrix", [None, (2, 2), (1, 3), (3, 2)])
    if ports:
        dims += [DimMatrix_i("i", ports[0]), DimMatrix_j("j", ports[1])]
    a = numbers([len(d.data) for d in dims], ctx.choose("type", DTYPES[:2]))
    lay = list(layouts(a))
    b = lay[ctx.choose("layout", list(range(len(lay))))]
    x = hfarray(b, dims=tuple(dims), copy=False, unit="V")
    y = remove_tail(x)
    n = int(np.prod(a.shape[1:nd]))
    tail = y.dims[1]
    ctx.check(tail.__class__ is DimRep and len(tail.data) == n, lambda:
              "dims %r" % (y.dims,))
    same_dims(ctx, y.dims[:1] + y.dims[2:], dims[:1] + dims[nd:], "tail")
    want = a.reshape((a.shape[0], n) + a.shape[nd:])
    ctx.check(np.array_equal(np.asarray(y), want), lambda: "%r, expected %r"
              % (np.asarray(y), want))
    ctx.check(y.unit == "V", "unit")
    if not ports:
        z = remove_tail(a)
        ctx.check(z.__class__ is np.ndarray and np.array_equal(z, want),
                  "plain array")
    ctx.step(2)
    ctx.observe(a.shape)


def reps(ctx):
    """remove_rep joins the repetitions in the order given"""
    nd = ctx.choose("dims", [1, 2, 3, 4])
    dims = [ctx.choose("class", [DimSweep, DimRep])(
        "abcd"[k], ctx.choose("size", [1, 2, 3] if nd < 4 else [1, 2]))
        for k in range(nd)]
    a = numbers([len(d.data) for d in dims], ctx.choose("type", DTYPES[:2]))
    lay = list(layouts(a))
    b = lay[ctx.choose("layout", list(range(len(lay))))]
    x = hfarray(b, dims=tuple(dims), copy=False, unit="V")
    some = [k for k, d in enumerate(dims) if d.__class__ is DimRep]
    kw = {}
    order = some
    if some and ctx.flag("order given"):
        order = ctx.permutation("order", some)
        kw["repdims"] = [dims[k] for k in order]
    name = ctx.choose("name", [None, "N"])
    if name:
        kw["newdimname"] = name
    y = remove_rep(x, **kw)
    ctx.check(y.unit == "V", "unit")
    if not some:
        same_dims(ctx, y.dims, dims, "remove_rep")
        ctx.check(np.array_equal(np.asarray(y), a), "values")
        ctx.observe(a.shape)
        return
    before = list(range(some[0]))
    after = [k for k in range(some[0], nd) if k not in some]
    n = int(np.prod([a.shape[k] for k in some]))
    new = DimRep(name or "AllReps", n)
    same_dims(ctx, y.dims, [dims[k] for k in before] + [new] +
              [dims[k] for k in after], "remove_rep")
    want = a.transpose(before + list(order) + after).reshape(
        [a.shape[k] for k in before] + [n] + [a.shape[k] for k in after])
    ctx.check(np.array_equal(np.asarray(y), want), lambda: "%r, expected %r"
              % (np.asarray(y), want))
    ctx.step()
    ctx.observe((a.shape, order))


def spaces(tier):
    return [Space("expand", expand, "arrays x dimensions expanded x memory "
                  "layouts"),
            Space("views", views, "all diagonals of three dimensions"),
            Space("fullcomplex", fullcomplex, "2x2 forms"),
            Space("shapes", shapes, "all orders of old and new dimensions"),
            Space("tails", tails, "all classes and sizes of 1 to 4 "
                  "dimensions x matrices"),
            Space("reps", reps, "all classes, sizes and orders of "
                  "repetitions")]
