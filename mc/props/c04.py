# -*- coding: utf-8 -*-
"""C04: dimension objects are immutable values."""
import datetime

import numpy as np

from mc.engine import Space, Named
from mc.labelled import hfarray, dim_labels
import hftools.dataset as hd
from hftools.dataset.dim import (DimSweep, DimRep, DimMatrix_i, DimMatrix_j,
                                 DimPartial, DimAnonymous, DiagAxis,
                                 IndepAxis, DerivAxis, ComplexIndepAxis,
                                 ComplexDerivAxis, ComplexDiagAxis)
from hftools.dataset.arrayobj import Dims

CLASSES = [DimSweep, DimRep, DimMatrix_i, DimMatrix_j, DimPartial,
           DimAnonymous, DiagAxis, IndepAxis, DerivAxis, ComplexIndepAxis,
           ComplexDerivAxis, ComplexDiagAxis]
NAMES = ["a", "b"]
DATAS = [[1, 2], [1, 2, 3], [1.5, 2.5], ["x", "y"], [2, 1]]
UNITS = [None, "V", "A"]
FMTS = [None, "%d", "%.3f"]


def attrs(d):
    return (d.__class__, d.name, tuple(dim_labels(d)), d.unit,
            d.outputformat)


def default_fmt(x):
    if isinstance(x, int):
        return "%d"
    if isinstance(x, float):
        return "%.16e"
    return "%s"


def equality(ctx):
    c1 = ctx.choose("class", CLASSES[:7])
    n1 = ctx.choose("name", NAMES)
    d1 = ctx.choose("data", DATAS)
    u1 = ctx.choose("unit", UNITS[:2])
    f1 = ctx.choose("format", FMTS[:2])
    a = c1(n1, d1, unit=u1, outputformat=f1)
    for c2 in CLASSES[:7]:
        for n2 in NAMES:
            for d2 in DATAS:
                for u2 in UNITS[:2]:
                    for f2 in FMTS[:2]:
                        b = c2(n2, list(d2), unit=u2, outputformat=f2)
                        want = ((c1, n1, d1, u1, f1) ==
                                (c2, n2, d2, u2, f2))
                        got = a == b
                        ctx.step()
                        ctx.check(got == want, lambda: "%r == %r is %r"
                                  % (attrs(a), attrs(b), got))
                        ctx.check(got == (b == a), "== is not symmetric")
                        ctx.check((a != b) == (not got), "!= is not not ==")
                        if got:
                            ctx.check(hash(a) == hash(b),
                                      lambda: "equal dims %r %r have different"
                                      " hashes" % (attrs(a), attrs(b)))
                            ctx.check(len(set([a, b])) == 1, "set of equals")
                        ctx.check((b in (a,)) == got, "tuple membership")
    ctx.check((a == n1) is True and (a == n1 + "q") is False,
              "a dim equals its name only")
    ctx.check(a == a.copy() and hash(a) == hash(a.copy()), "copy is equal")
    ctx.check(a == c1(a) and hash(a) == hash(c1(a)), "dim built from itself")
    ctx.check(a == a[:], "a[:] is equal")
    ctx.check(a == a[0:len(d1)], "a[0:n] is equal")
    ctx.state((c1.__name__, n1, d1, u1, f1))
    ctx.observe(hash(a) == hash(c1(n1, d1, unit=u1, outputformat=f1)))


def override(ctx):
    c1 = ctx.choose("class", CLASSES)
    d1 = ctx.choose("data", DATAS)
    u1 = ctx.choose("unit", UNITS[:2])
    f1 = ctx.choose("format", FMTS)
    old = c1("a", d1, unit=u1, outputformat=f1)
    before = attrs(old)
    c2 = ctx.choose("new class", CLASSES)
    for nm in (None, "new"):
        for dd in (None, [7, 8, 9], np.array([0.5, 0.25]), 2):
            for uu in (None, "Ohm"):
                for ff in (None, "%.1f"):
                    kw = {}
                    if nm is not None:
                        kw["name"] = nm
                    if dd is not None:
                        kw["data"] = dd
                    if uu is not None:
                        kw["unit"] = uu
                    if ff is not None:
                        kw["outputformat"] = ff
                    new = c2(old, **kw)
                    ctx.step()
                    wd = (d1 if dd is None else
                          [0, 1] if isinstance(dd, int) else list(dd))
                    wf = ff or f1 or default_fmt(wd[0])
                    want = (c2, nm or "a", tuple(wd), uu or u1, wf)
                    ctx.check(attrs(new) == want, lambda: "%s(old, %r): %r, "
                              "expected %r" % (c2.__name__, kw, attrs(new),
                                               want))
                    ctx.check(attrs(old) == before, "the original changed")
    ctx.state((c1.__name__, d1, u1, f1, c2.__name__))
    ctx.observe(attrs(new))


DT = datetime.datetime(2010, 10, 19, 16, 1, 26)
FORMS = [
    Named("list of int", (lambda: [3, 1, 2], [3, 1, 2])),
    Named("tuple of float", (lambda: (0.5, 1e9), [0.5, 1e9])),
    Named("int", (lambda: 3, [0, 1, 2])),
    Named("int64 array", (lambda: np.array([4, 5]), [4, 5])),
    Named("float array", (lambda: np.array([4.5, 5]), [4.5, 5.0])),
    Named("reversed view", (lambda: np.arange(6.)[::-2], [5., 3., 1.])),
    Named("0-d array", (lambda: np.array(3.5), [3.5])),
    Named("2-d array", (lambda: np.array([[1, 2], [3, 4]]), [1, 2, 3, 4])),
    Named("nested list", (lambda: [[1, 2], [3]], [1, 2, 3])),
    Named("range", (lambda: range(2, 5), [2, 3, 4])),
    Named("generator", (lambda: (x * 2 for x in (1, 2)), [2, 4])),
    Named("hfarray", (lambda: hfarray([1.0, 4.0],
                                      dims=(DimSweep("q", [1, 2]),)),
                      [1.0, 4.0])),
    Named("strings", (lambda: ["ab", "c"], ["ab", "c"])),
    Named("string array", (lambda: np.array(["ab", "c"]), ["ab", "c"])),
    Named("complex", (lambda: [1j, 2], [1j, 2 + 0j])),
    Named("bool", (lambda: [True, False], [True, False])),
    Named("datetime", (lambda: [DT], [DT])),
    Named("datetime64", (lambda: np.array([np.datetime64(DT)]), [DT])),
    Named("one element", (lambda: [7], [7])),
    Named("empty", (lambda: [], [])),
    Named("large ints", (lambda: [2 ** 53 + 1, 1], [2 ** 53 + 1, 1])),
]


def data_forms(ctx):
    c = ctx.choose("class", CLASSES)
    make, want = ctx.choose("data given as", FORMS).value
    how = ctx.choose("passed", ["positional", "keyword"])
    src = make()
    d = c("x", src) if how == "positional" else c("x", data=src)
    ctx.check(dim_labels(d) == want, lambda: "labels %r, expected %r"
              % (dim_labels(d), want))
    ctx.check(d.data.ndim == 1 and d.fullsize() == len(want),
              lambda: "shape %r" % (d.data.shape,))
    ctx.step()
    # immutability: neither the source nor an exported array reaches inside
    h = hash(d)
    if isinstance(src, list) and src and not isinstance(src[0], list):
        src[0] = src[-1]
        src.append(src[0])
    elif isinstance(src, np.ndarray) and src.ndim:
        np.asarray(src).flat[0] = np.asarray(src).flat[src.size - 1]
    ctx.check(dim_labels(d) == want, lambda: "changing the source changed the "
              "dim to %r" % (dim_labels(d),))
    x = d.data
    try:
        if len(x):
            x[0] = x[-1]
            x[...] = x[-1]
    except ValueError:
        pass
    ctx.check(dim_labels(d) == want and hash(d) == h,
              "writing to .data changed the dim")
    a = hfarray(d)
    ctx.check(np.asarray(a).tolist() == want and a.dims == (d,),
              lambda: "hfarray(dim) is %r %r" % (a, a.dims))
    if len(want):
        a[0] = np.asarray(a)[-1]
    ctx.check(dim_labels(d) == want, "writing to hfarray(dim) changed the dim")
    for name in ("data", "name", "unit", "outputformat"):
        try:
            setattr(d, name, getattr(d, name))
        except AttributeError:
            pass
        else:
            ctx.fail("attribute %r of a dim can be assigned" % name)
    ctx.step(3)
    # slicing
    for s in (slice(None), slice(1, None), slice(None, -1), slice(0, 1),
              slice(None, None, -1), slice(None, None, 2), slice(5, None)):
        e = d[s]
        ctx.step()
        ctx.check((e.__class__, e.name) == (c, "x") and
                  dim_labels(e) == want[s],
                  lambda: "dim[%r] has labels %r, expected %r"
                  % (s, dim_labels(e), want[s]))
    if len(want) > 1:
        e = d[np.array([len(want) - 1, 0])]
        ctx.check(dim_labels(e) == [want[-1], want[0]], "dim[array]")
        e = d[np.arange(len(want)) > 0]
        ctx.check(dim_labels(e) == want[1:], "dim[bool array]")
    ctx.check(dim_labels(d) == want, "slicing changed the dim")
    ctx.state((c.__name__, repr(want), how))
    ctx.observe(repr(want))


def slicing_keeps(ctx):
    c = ctx.choose("class", CLASSES)
    u = ctx.choose("unit", UNITS)
    f = ctx.choose("format", FMTS)
    data = ctx.choose("data", DATAS)
    d = c("x", data, unit=u, outputformat=f)
    for s in (slice(None), slice(1, None), slice(None, None, -1), slice(0, 1),
              np.array([0]), np.array([True] * len(data))):
        e = d[s]
        ctx.check((e.__class__, e.name, e.unit) == (c, "x", u) and
                  e.outputformat == (f or default_fmt(data[0])),
                  lambda: "dim[%r] is %r" % (s, attrs(e)))
        ctx.step()
    a = hfarray(d)
    ctx.check(a.unit == u and a.outputformat == d.outputformat,
              lambda: "hfarray(dim): unit %r, format %r"
              % (a.unit, a.outputformat))
    given = hfarray(d, unit="Ohm", outputformat="%.7f")
    ctx.check(given.unit == "Ohm" and given.outputformat == "%.7f" and
              given.dims == (d,), lambda: "hfarray(dim, unit, outputformat): "
              "unit %r, format %r" % (given.unit, given.outputformat))
    for bad in (0, "x", 1.5):
        try:
            d[bad]
        except IndexError:
            pass
        else:
            ctx.fail("dim[%r] is accepted" % (bad,))
    # diagonal / independent / derived companions
    for nm in ("indep_axis", "deriv_axis", "diag_axis"):
        if hasattr(d, nm):
            e = getattr(d, nm)
            ctx.step()
            ctx.check((e.name, tuple(dim_labels(e)), e.unit) ==
                      ("x", tuple(data), u),
                      lambda: "%s is %r" % (nm, attrs(e)))
            for back in ("diag_axis", "indep_axis", "deriv_axis"):
                if hasattr(e, back):
                    b = getattr(e, back)
                    ctx.check((b.name, tuple(dim_labels(b)), b.unit) ==
                              ("x", tuple(data), u), "%s.%s" % (nm, back))
    ctx.state((c.__name__, u, f, data))
    ctx.observe(attrs(d)[1:])


def containers(ctx):
    """membership and lookup in a tuple of dims: by name, or by dim (same
    name and the class or a base class of it), whatever the data"""
    cs = [DimSweep, DimRep, DimMatrix_i, DimPartial]
    members = [(ctx.choose("class", cs), ctx.choose("name", "abc"))
               for _ in range(2)]
    dims = Dims([c(n, [1, 2]) for c, n in members])
    for n in "abcd":
        want = any(m[1] == n for m in members)
        ctx.check((n in dims) == want, lambda: "%r in %r" % (n, dims))
        for c in cs + [DiagAxis]:
            q = c(n, [5, 6, 7], unit="V")
            hits = [k for k, m in enumerate(members)
                    if m[1] == n and issubclass(m[0], c)]
            ctx.check((q in dims) == bool(hits), lambda: "%r in %r is %r"
                      % (q, dims, q in dims))
            ctx.step()
            if hits:
                ctx.check(dims.matching_index(q) == hits[0] and
                          dims.get_matching_dim(q) is dims[hits[0]],
                          "lookup of %r in %r" % (q, dims))
            else:
                for fn in (dims.matching_index, dims.get_matching_dim):
                    try:
                        fn(q)
                    except KeyError:
                        pass
                    else:
                        ctx.fail("lookup of absent %r succeeds" % q)
    ctx.state(tuple((c.__name__, n) for c, n in members))
    ctx.observe([n in dims for n in "abcd"])


def ordering(ctx):
    """sweeps sort before repetitions before matrix rows before columns,
    then by name, for every arrangement"""
    pool = [DimSweep("f", [1, 2]), DimSweep("g", [1]), DimRep("a", [1, 2]),
            DimRep("z", [3]), DimMatrix_i("i", 2), DimMatrix_j("h", 2)]
    k = ctx.choose("how many", [2, 3, 6])
    sel = list(range(6)) if k == 6 else ctx.choose(
        "which", [(i, j) for i in range(6) for j in range(i + 1, 6)]
        if k == 2 else [(i, j, l) for i in range(6) for j in range(i + 1, 6)
                        for l in range(j + 1, 6)])
    got = sorted(ctx.permutation("arrangement", [pool[i] for i in sel]))
    ctx.check([d.name for d in got] == [pool[i].name for i in sorted(sel)],
              lambda: "sorted gives %r" % (got,))
    ctx.step()
    ctx.state([d.name for d in got])
    ctx.observe([d.name for d in got])


def single_label(ctx):
    """one label of many makes a difference"""
    n = ctx.choose("length", [1, 2, 5, 33, 100, 1001])
    cls = ctx.choose("class", CLASSES[:3])
    kind = ctx.choose("labels", ["int", "float", "text"])
    lab = [dict(int=7 * k, float=0.1 * k + 1e9, text="label %d" % k)[kind]
           for k in range(n)]
    a = cls("x", lab, unit="V")
    ctx.check(a == cls("x", tuple(lab), unit="V") ==
              cls("x", np.array(lab), unit="V") and
              hash(a) == hash(cls("x", list(lab), unit="V")), "equal dims")
    ctx.check(dim_labels(a) == lab and a.fullsize() == n, "labels")
    pos = range(n) if n <= 100 else list(range(0, n, 37)) + [n - 1]
    for k in pos:
        other = list(lab)
        other[k] = dict(int=other[k] + 1 if kind == "int" else 0,
                        float=np.nextafter(other[k], 2e9).item()
                        if kind == "float" else 0,
                        text=str(other[k]) + "x")[kind]
        b = cls("x", other, unit="V")
        ctx.check(not a == b and a != b and b not in (a,),
                  lambda: "dims that differ in label %d of %d are equal"
                  % (k, n))
        ctx.step()
    for i, j, k in [(None, None, -1), (1, -1, 2), (n // 2, None, None),
                    (None, n // 2, None)]:
        ctx.check(dim_labels(a[i:j:k]) == lab[i:j:k] and
                  a[i:j:k].unit == "V", lambda: "slice %r" % ((i, j, k),))
        mask = np.array([q % 3 != 1 for q in range(n)])
        ctx.check(dim_labels(a[mask]) == [x for x, m in zip(lab, mask) if m],
                  "mask")
    ctx.state((n, cls, kind))
    ctx.observe((n, cls.__name__, kind))


def spaces(tier):
    return [
        Space("equality", equality, "all pairs over class x name x data x "
              "unit x format"),
        Space("override", override, "Dim(old, name/data/unit/outputformat), "
              "all class pairs and all combinations of overrides"),
        Space("data-forms", data_forms, "every way of giving the labels; "
              "immutability; slicing"),
        Space("slicing", slicing_keeps, "unit/format/class preserved"),
        Space("containers", containers, "membership and lookup"),
        Space("single-label", single_label, "dimensions of up to 1001 labels "
              "that differ in one"),
        Space("ordering", ordering, "sort order of all arrangements"),
    ]
