# -*- coding: utf-8 -*-
"""C31: a labelled array is what it was made from."""
import copy as _copy
import warnings

import numpy as np

from mc.engine import Space, Named
import hftools
from hftools.dataset import (hfarray, ValueArray, DimSweep, DimRep,
                             DimPartial, DimMatrix_i, DimMatrix_j,
                             make_matrix, make_vector, DataBlock)
from hftools.dataset.arrayobj import ismatrix
from hftools.dataset.dim import DimBase
from hftools.networks.multiports import (SArray, ZArray, YArray, ABCDArray,
                                         TArray)

ASSUMPTIONS = ["pickling is not supported by labelled arrays",
               "only functions that keep the shape of the array are claimed",
               "default dims are those of the documented freq and rep"]

TYPES = [Named("bool", np.bool_), Named("int8", np.int8),
         Named("int", np.int64), Named("uint", np.uint16),
         Named("float32", np.float32), Named("float", np.float64),
         Named("complex64", np.complex64), Named("complex", np.complex128),
         Named("text", "U5"), Named("bytes", "S5"),
         Named("date", "datetime64[s]")]


def numbers(shape, typ, salt=0):
    n = int(np.prod(shape))
    raw = np.array([(k * 7 + 3 + salt) % 23 for k in range(n)])
    if typ is np.bool_:
        raw = raw % 2 == 0
    elif typ == "U5" or typ == "S5":
        raw = np.array(["x%d" % k for k in raw]) if n else \
            np.zeros(0, "U5")
    elif typ in (np.complex64, np.complex128):
        raw = raw * (1 - 0.5j)
    elif typ in (np.float32, np.float64):
        raw = raw * 0.25
    return raw.astype(typ).reshape(shape)


def labels(dim):
    return np.asarray(dim.data).tolist()


def default_format(kind):
    return {"i": "%d", "f": "%.16e", "c": "%.16e"}.get(kind)


def given_dims(shape):
    pool = [(DimSweep, "a"), (DimRep, "b"), (DimPartial, "c"),
            (DimSweep, "d")]
    return tuple(cls(name, [10 * k + 5 for k in range(n)], unit="s",
                     outputformat="%.2f")
                 for (cls, name), n in zip(pool, shape))


def same_dims(a, b):
    return (len(a) == len(b) and
            all(type(x) is type(y) and x.name == y.name and
                labels(x) == labels(y) and x.unit == y.unit and
                x.outputformat == y.outputformat for x, y in zip(a, b)))


def create(ctx):
    typ = ctx.choose("type", TYPES).value
    shape = ctx.choose("shape", [(), (3,), (1,), (0,), (2, 3), (3, 1),
                                 (2, 1, 2), (2, 1, 2, 3)])
    raw = numbers(shape, typ)
    source = ctx.choose("made from", ["ndarray", "list", "hfarray",
                                      "fortran", "view"])
    withdims = ctx.flag("dims given")
    unit = ctx.choose("unit given", [None, "V"])
    fmt = ctx.choose("format given", [None, "%.3g"])
    cls = ctx.choose("class", [hfarray, ValueArray])
    copy = ctx.flag("copy")
    dims = given_dims(shape)
    kw = {}
    if withdims:
        kw["dims"] = ctx.choose("as", [tuple, list])(dims)
    if unit is not None:
        kw["unit"] = unit
    if fmt is not None:
        kw["outputformat"] = fmt
    if not copy:
        kw["copy"] = False
    elif ctx.flag("copy stated"):
        kw["copy"] = True
    srcunit = srcfmt = None
    if source == "list":
        src = raw.tolist()
    elif source == "fortran":
        src = np.array(raw, order="F")
    elif source == "view":
        src = raw[::-1] if shape else raw
    elif source == "hfarray":
        srcdims = tuple(type(d)("old" + d.name, labels(d)) for d in dims)
        src = hfarray(raw, dims=srcdims, unit="W", outputformat="%.7f")
        srcunit, srcfmt = "W", "%.7f"
    else:
        src = raw
    before = np.array(src)
    if source in ("list", "ndarray", "fortran", "view") and \
            not withdims and len(shape) > 2:
        try:
            cls(src, **kw)
        except hftools.DimensionMismatchError:
            return
        ctx.fail("an array of %d dimensions without dims is not refused"
                 % len(shape))
    a = cls(src, **kw)
    ctx.step()
    got = np.asarray(a)
    ctx.check(type(a) is cls, lambda: "class %r" % type(a))
    ctx.check(got.dtype == before.dtype and got.shape == shape and
              np.array_equal(got, before), lambda: "%r %s, expected %r %s"
              % (got, got.dtype, before, before.dtype))
    if withdims:
        ctx.check(same_dims(a.dims, dims), lambda: "dims %r, expected %r"
                  % (a.dims, dims))
    elif source == "hfarray":
        ctx.check(same_dims(a.dims, srcdims), lambda: "dims %r, expected %r"
                  % (a.dims, srcdims))
    else:
        ctx.check(len(a.dims) == len(shape), lambda: "dims %r" % (a.dims,))
        for d, (k, name), n in zip(a.dims, [(DimSweep, "freq"),
                                            (DimRep, "rep")], shape):
            ctx.check(type(d) is k and d.name == name and
                      labels(d) == list(range(n)), lambda: "default dim %r "
                      "with labels %r for length %d" % (d, labels(d), n))
    ctx.check(a.unit == (unit or srcunit), lambda: "unit %r" % (a.unit,))
    wf = fmt or srcfmt or default_format(before.dtype.kind)
    if wf is None and before.dtype.kind in "USM":
        wf = "%s"
    ctx.check(wf is None or a.outputformat == wf, lambda: "format %r, "
              "expected %r" % (a.outputformat, wf))
    if isinstance(src, np.ndarray) and raw.size:
        ctx.check(np.shares_memory(np.asarray(src), got) != copy,
                  "copy=%r: memory shared is %r" % (copy, copy))
    if isinstance(src, hfarray):
        ctx.check(src.unit == "W" and src.outputformat == "%.7f" and
                  same_dims(src.dims, srcdims), "the source changed")
    ctx.state((typ, shape, source, withdims, unit, fmt, copy))
    ctx.observe((got.dtype.kind, len(shape), source, withdims, a.unit,
                 a.outputformat))


def convert(ctx):
    """dtype="""
    typ = ctx.choose("type", TYPES[:8]).value
    new = ctx.choose("dtype", [np.float64, np.complex128, np.float32,
                               np.int32, np.bool_])
    if np.dtype(typ).kind == "c" and np.dtype(new).kind in "fiu":
        return
    shape = ctx.choose("shape", [(), (3,), (2, 3)])
    how = ctx.choose("how", ["constructor", "from hfarray", "astype"])
    raw = numbers(shape, typ)
    dims = given_dims(shape)
    src = hfarray(raw, dims=dims, unit="V", outputformat="%.4f")
    if how == "constructor":
        a = hfarray(raw, dims=dims, dtype=new, unit="V",
                    outputformat="%.4f")
    elif how == "from hfarray":
        a = hfarray(src, dtype=new)
    else:
        a = src.astype(new)
    ctx.step()
    want = raw.astype(new)
    got = np.asarray(a)
    ctx.check(got.dtype == want.dtype and np.array_equal(got, want),
              lambda: "%r %s, expected %r %s" % (got, got.dtype, want,
                                                 want.dtype))
    ctx.check(same_dims(a.dims, dims) and a.unit == "V" and
              a.outputformat == "%.4f", "dims, unit or format")
    ctx.check(np.array_equal(np.asarray(src), raw) and
              np.asarray(src).dtype == raw.dtype, "the source changed")
    ctx.state((typ, new, shape, how))
    ctx.observe((got.dtype.str, how))


def refused(ctx):
    """dims that do not fit"""
    shape = ctx.choose("shape", [(), (3,), (2, 3), (2, 1, 2)])
    n = ctx.choose("number of dims", [0, 1, 2, 3, 4])
    raw = numbers(shape, np.float64)
    src = ctx.choose("from", ["ndarray", "hfarray"])
    if src == "hfarray":
        raw = hfarray(raw, dims=given_dims(shape))
    dims = given_dims((tuple(shape) + (2,) * 4)[:n])
    try:
        a = hfarray(raw, dims=dims)
    except hftools.HFArrayShapeDimsMismatchError:
        ctx.check(n != len(shape), "%d dims for shape %r are refused"
                  % (n, shape))
    else:
        ctx.check(n == len(shape) and len(a.dims) == a.ndim,
                  "%d dims for shape %r are not refused" % (n, shape))
    ctx.step()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            hfarray(np.asarray(raw), dims=given_dims(shape),
                    info=given_dims(shape))
        except ValueError:
            pass
        else:
            ctx.fail("info and dims together are not refused")
        b = hfarray(np.asarray(raw), info=given_dims(shape))
        ctx.check(same_dims(b.dims, given_dims(shape)) and
                  same_dims(b.info, b.dims), "info")
    ctx.step(2)
    ctx.state((shape, n))
    ctx.observe((shape, n))


DIMS = [DimSweep, DimRep, DimPartial, DimMatrix_i, DimMatrix_j]


def from_dim(ctx):
    """a dimension as an array of its labels"""
    cls = ctx.choose("class", DIMS)
    typ = ctx.choose("type", TYPES[1:]).value
    n = ctx.choose("labels", [1, 3])
    unit = ctx.choose("unit", [None, "Hz"])
    fmt = ctx.choose("format", [None, "%.1f"])
    newunit = ctx.choose("unit given", [None, "V"])
    newfmt = ctx.choose("format given", [None, "%.5f"])
    kw = {} if fmt is None else {"outputformat": fmt}
    raw = numbers((n,), typ)
    d = cls("x", raw, unit=unit, **kw)
    opt = {}
    if newunit:
        opt["unit"] = newunit
    if newfmt:
        opt["outputformat"] = newfmt
    a = hfarray(d, **opt)
    ctx.step()
    ctx.check(type(a) is hfarray and a.dims == (d,) and
              same_dims(a.dims, (d,)), lambda: "dims %r" % (a.dims,))
    ctx.check(np.asarray(a).tolist() == labels(d), lambda: "%r, expected %r"
              % (a, labels(d)))
    ctx.check(a.unit == (newunit or unit), lambda: "unit %r" % a.unit)
    ctx.check(a.outputformat == (newfmt or d.outputformat),
              lambda: "format %r" % a.outputformat)
    a[...] = a[::-1]
    ctx.check(labels(d) == numbers((n,), typ).tolist() or
              raw.dtype.kind == "S",
              "changing the array changed the dimension")
    ctx.state((cls, typ, n, unit, fmt, newunit, newfmt))
    ctx.observe((cls.__name__, raw.dtype.kind, a.unit, a.outputformat))


UNARY = [Named("-x", (lambda x: -x)), Named("+x", lambda x: +x),
         Named("abs", abs), Named("real", lambda x: x.real),
         Named("imag", lambda x: x.imag), Named("conj", lambda x: x.conj()),
         Named("conjugate", lambda x: x.conjugate()),
         Named("exp", np.exp), Named("sqrt", np.sqrt),
         Named("log10", lambda x: np.log10(x + 1)),
         Named("sin", np.sin), Named("isfinite", np.isfinite),
         Named("square", np.square), Named("sign", np.sign),
         Named("copy.copy", _copy.copy), Named("deepcopy", _copy.deepcopy),
         Named("copy()", lambda x: x.copy()),
         Named("view()", lambda x: x.view() if hasattr(x, "dims") else x),
         Named("zeros_like", np.zeros_like),
         Named("ones_like", np.ones_like)]


def unary(ctx):
    """functions of one array"""
    f = ctx.choose("function", UNARY)
    typ = ctx.choose("type", TYPES[1:8]).value
    shape = ctx.choose("shape", [(), (3,), (1,), (2, 3), (3, 1, 2)])
    lay = ctx.choose("layout", ["plain", "transposed", "strided"])
    raw = numbers(shape, typ)
    dims = given_dims(shape)
    x = hfarray(raw, dims=dims, unit="V", outputformat="%.4f")
    if lay == "transposed":
        x = x.transpose()
        raw, dims = raw.transpose(), dims[::-1]
    elif lay == "strided":
        if not shape:
            return
        x = x[::-1]
        raw = raw[::-1]
        dims = tuple(x.dims)
    before = np.array(x)
    with np.errstate(all="ignore"):
        want = np.asarray(f.value(raw.copy()))
        r = f.value(x)
    ctx.step()
    if not (np.ndim(r) == 0 and not isinstance(r, np.ndarray)):
        ctx.check(type(r) is hfarray, lambda: "%s gives a %r"
                  % (f.__mc_name__, type(r)))
        ctx.check(same_dims(r.dims, dims), lambda: "%s: dims %r, expected %r"
                  % (f.__mc_name__, r.dims, dims))
        ctx.check(r.unit == "V" and r.outputformat == "%.4f",
                  lambda: "%s: unit %r, format %r" % (f.__mc_name__, r.unit,
                                                      r.outputformat))
    g = np.asarray(r)
    ctx.check(g.dtype == want.dtype and
              np.allclose(g, want, equal_nan=True), lambda: "%s: %r, "
              "expected %r" % (f.__mc_name__, g, want))
    ctx.check(np.array_equal(np.asarray(x), before) and
              same_dims(x.dims, dims), "the argument changed")
    ctx.state((f.__mc_name__, typ, shape, lay))
    ctx.observe((f.__mc_name__, g.dtype.str))


def _set(name, value):
    def f(x):
        setattr(x, name, value)
        return x
    return f


CHAIN = [  # name, what it does, unit and format it gives, shares the data
    ("hfarray(x)", lambda x: hfarray(x), {}, False),
    ("hfarray(x, copy=False)", lambda x: hfarray(x, copy=False), {}, True),
    ("hfarray(x, unit)", lambda x: hfarray(x, unit="A"), {"unit": "A"},
     False),
    ("hfarray(x, format)", lambda x: hfarray(x, outputformat="%.9f"),
     {"fmt": "%.9f"}, False),
    ("x.copy()", lambda x: x.copy(), {}, False),
    ("x.view()", lambda x: x.view(), {}, True),
    ("x[...]", lambda x: x[...], {}, True),
    ("copy.copy", _copy.copy, {}, False),
    ("deepcopy", _copy.deepcopy, {}, False),
    ("-x", lambda x: -x, {"sign": -1}, False),
    ("conj", lambda x: np.conj(x), {"conj": 1}, False),
    ("astype", lambda x: x.astype(complex), {}, False),
    ("set unit", _set("unit", "Ohm"), {"unit": "Ohm"}, True),
    ("set format", _set("outputformat", "%.1e"), {"fmt": "%.1e"}, True),
    ("x.T.T", lambda x: x.T.T, {}, True),
]


def chains(depth):
    def run(ctx):
        """arrays made from arrays made from arrays"""
        shape = ctx.choose("shape", [(3,), (2, 3)])
        raw = numbers(shape, np.complex128)
        dims = given_dims(shape)
        x = hfarray(raw, dims=dims, unit="V", outputformat="%.4f")
        made = [[x, "V", "%.4f", raw.copy(), 0]]
        for _ in range(depth):
            k = ctx.choose("then", list(range(len(CHAIN))))
            name, f, gives, shares = CHAIN[k]
            src = made[-1]
            y = f(src[0])
            ctx.step()
            unit, fmt = gives.get("unit", src[1]), gives.get("fmt", src[2])
            want = src[3] * gives.get("sign", 1)
            if "conj" in gives:
                want = want.conj()
            if y is src[0]:
                src[1], src[2] = unit, fmt
            else:
                made.append([y, unit, fmt, want,
                             src[4] if shares else len(made)])
            for a, u, fm, w, _g in made:
                ctx.check(a.unit == u and a.outputformat == fm, lambda:
                          "%s: unit %r and format %r, expected %r and %r"
                          % (name, a.unit, a.outputformat, u, fm))
                ctx.check(np.array_equal(np.asarray(a), w) and
                          same_dims(a.dims, dims), lambda: "%s: %r, "
                          "expected %r" % (name, a, w))
        # writing into the last one reaches those which share its data
        last = made[-1]
        last[0][..., 0] = 77
        for a, u, fm, w, g in made:
            if g == last[4]:
                w[..., 0] = 77
            ctx.check(np.array_equal(np.asarray(a), w), lambda: "written "
                      "into the last of %d: one holds %r, expected %r"
                      % (len(made), a, w))
        ctx.state([(m[1], m[2], m[4]) for m in made])
        ctx.observe([(m[1], m[2], m[4]) for m in made])
    return run


def matrices(ctx):
    """make_matrix, make_vector and network arrays of plain data"""
    outer = ctx.choose("outer", [(), (3,), (3, 2), (1, 1)])
    rows, cols = ctx.choose("matrix", [(1, 1), (2, 2), (3, 3), (2, 3),
                                       (9, 9)])
    typ = ctx.choose("type", [np.int64, np.float64, np.complex128])
    what = ctx.choose("make", ["matrix", "vector", "S", "Z", "Y", "ABCD",
                               "T"])
    raw = numbers(outer + (rows, cols), typ)
    odims = given_dims(outer)
    if what in ("matrix", "vector"):
        names = ctx.choose("names", [None, ("p", "q")])
        if what == "matrix":
            a = make_matrix(raw, odims, *(names or ()))
            want = [(DimMatrix_i, (names or "ij")[0], rows),
                    (DimMatrix_j, (names or "ij")[1], cols)]
        else:
            raw = raw[..., 0, :]
            a = make_vector(raw, odims, *(names or ())[1:])
            want = [(DimMatrix_j, (names or "ij")[1], cols)]
        ctx.check(same_dims(a.dims[:len(outer)], odims), "outer dims")
    else:
        cls = dict(S=SArray, Z=ZArray, Y=YArray, ABCD=ABCDArray,
                   T=TArray)[what]
        named = ctx.flag("dims given")
        if what in ("ABCD", "T") and (rows, cols) != (2, 2):
            return
        want = [(DimMatrix_i, "i", rows), (DimMatrix_j, "j", cols)]
        if named:
            full = odims + (DimMatrix_i("i", rows), DimMatrix_j("j", cols))
            a = cls(raw, dims=full)
            ctx.check(same_dims(a.dims[:len(outer)], odims), "outer dims")
        else:
            a = cls(raw)
            for d, (k, name), n in zip(a.dims, [(DimSweep, "freq"),
                                                (DimRep, "rep")], outer):
                ctx.check(type(d) is k and d.name == name and
                          labels(d) == list(range(n)),
                          lambda: "default dim %r" % d)
        ctx.check(type(a) is cls, "class")
    ctx.step()
    ctx.check(len(a.dims) == len(outer) + len(want), lambda: "dims %r"
              % (a.dims,))
    for d, (k, name, n) in zip(a.dims[len(outer):], want):
        ctx.check(type(d) is k and d.name == name and
                  labels(d) == list(range(n)), lambda: "dim %r with labels "
                  "%r, expected %s %r" % (d, labels(d), k.__name__, name))
    ctx.check(np.array_equal(np.asarray(a), raw) and
              np.asarray(a).dtype == raw.dtype, "values")
    ctx.state((outer, rows, cols, typ, what))
    ctx.observe((what, [d.name for d in a.dims]))


def lookup(ctx):
    """find a dimension by name and class; which arrays are matrices"""
    classes = [DimSweep, DimRep, DimMatrix_i, DimMatrix_j, DimPartial]
    n = ctx.choose("dims", [0, 1, 2, 3])
    dims = []
    for k in range(n):
        cls = ctx.choose("class %d" % k, classes)
        name = ctx.choose("name %d" % k, ["a", "b"])
        dims.append(cls(name, [1., 2., 3.][:k + 1]))
    a = hfarray(np.zeros(tuple(range(1, n + 1))), dims=tuple(dims))
    for name in ("a", "b", "c", "A"):
        for cls in [None, DimBase] + classes:
            want = [k for k, d in enumerate(dims) if d.name == name and
                    (cls is None or isinstance(d, cls))]
            try:
                got = a.dims_index(name) if cls is None else \
                    a.dims_index(name, cls)
            except IndexError:
                got = None
            ctx.step()
            ctx.check(got == (want[0] if want else None), lambda:
                      "dims_index(%r, %r) of %r is %r" % (name, cls, dims,
                                                          got))
    kinds = [d.__class__ for d in dims]
    want = DimMatrix_i in kinds and DimMatrix_j in kinds
    ctx.check(bool(ismatrix(a)) is want, lambda: "ismatrix of %r" % (dims,))
    ctx.check(bool(ismatrix(np.asarray(a))) is False, "ismatrix of plain data")
    ctx.state(tuple((d.__class__.__name__, d.name) for d in dims))
    ctx.observe((n, want))


def spaces(tier):
    return [Space("create", create, "types x shapes x sources x options"),
            Space("convert", convert, "all pairs of types"),
            Space("refused", refused, "numbers of dims"),
            Space("from_dim", from_dim, "dimensions as arrays"),
            Space("unary", unary, "20 functions x types x shapes x layouts"),
            Space("chains", chains(3 if tier == "quick" else 4),
                  "arrays made from arrays"),
            Space("matrices", matrices, "matrices, vectors and networks"),
            Space("lookup", lookup, "dims by name and class")]
