# -*- coding: utf-8 -*-
"""C01: elementwise operators align operands by dimension."""
import operator

import numpy as np

from mc.engine import Space, Named
from mc.labelled import (D, L, compare, pointwise, ordered_subsets, plain,
                         hfarray)

ASSUMPTIONS = [
    "dims that share name and class carry the same labels in both operands",
    "operators only (binary numpy ufuncs called directly are not aligned by "
    "the library)"]

POOLS = dict(
    # equal lengths: a misalignment can not be seen from the shapes
    equal=[D("sweep", "f", [1.5, 2.5]), D("sweep", "g", [10, 20]),
           D("rep", "r", [5, 7]), D("mi", "i", [0, 1]), D("mj", "j", [0, 1])],
    mixed=[D("sweep", "f", [1.5, 2.5, 9.0]), D("rep", "f", [10, 20]),
           D("rep", "r", [5]), D("partial", "p", [3, 4]),
           D("sweep", "s", ["a", "b"])],
)

ARITH = [("+", operator.add), ("-", operator.sub), ("*", operator.mul),
         ("/", operator.truediv), ("**", operator.pow)]
ALIGN2 = [("//", operator.floordiv), ("%", operator.mod)]
COMP = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt),
        ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]
BITS = [("&", operator.and_), ("|", operator.or_), ("^", operator.xor)]
INPLACE = [("+=", operator.iadd, operator.add),
           ("-=", operator.isub, operator.sub),
           ("*=", operator.imul, operator.mul),
           ("/=", operator.itruediv, operator.truediv),
           ("//=", operator.ifloordiv, operator.floordiv),
           ("%=", operator.imod, operator.mod),
           ("**=", operator.ipow, operator.pow)]
IBITS = [("&=", operator.iand, operator.and_), ("|=", operator.ior,
                                                operator.or_),
         ("^=", operator.ixor, operator.xor)]


def vals(n, start, step, conv=float):
    return [conv(start + step * k) for k in range(n)]


def size(dims):
    n = 1
    for d in dims:
        n *= len(d)
    return n


def binary(pool, kmax_a, kmax_b):
    def run(ctx):
        dims = POOLS[pool]
        ia = ctx.choose("dims of A", ordered_subsets(len(dims), kmax_a))
        ib = ctx.choose("dims of B", ordered_subsets(len(dims), kmax_b))
        da = [dims[i] for i in ia]
        db = [dims[i] for i in ib]
        ma = L.fill(da, vals(size(da), 2, 3))
        mb = L.fill(db, vals(size(db), 3, 1))
        a = ma.real()
        b = mb.real()
        ctx.state((pool, ia, ib))
        for name, op in ARITH + ALIGN2 + COMP:
            r = op(a, b)
            want = pointwise(op, ma, mb)
            compare(ctx, r, want, "A %s B" % name, order="prio")
            ctx.step()
            ctx.observe(plain(r))
        ca = L.fill(da, [bool(k % 2) for k in range(size(da))])
        cb = L.fill(db, [bool((k // 2) % 2) for k in range(size(db))])
        xa, xb = ca.real(), cb.real()
        for name, op in BITS:
            compare(ctx, op(xa, xb), pointwise(op, ca, cb), "A %s B" % name,
                    order="prio", dtype_kind="b")
            ctx.step()
        # operands are not modified
        compare(ctx, a, ma, "operand A afterwards", order="exact")
        compare(ctx, b, mb, "operand B afterwards", order="exact")
        if set(ib) <= set(ia):
            for name, iop, op in INPLACE:
                c = ma.real()
                same = c
                c = iop(c, b)
                want = pointwise(op, ma, mb)
                want.dims = list(ma.dims)
                compare(ctx, c, want, "A %s B" % name, order="exact")
                ctx.check(c is same, "in place operator rebinds")
                ctx.step()
            for name, iop, op in IBITS:
                c = ca.real()
                same = c
                c = iop(c, xb)
                want = pointwise(op, ca, cb)
                want.dims = list(ma.dims)
                compare(ctx, c, want, "A %s B" % name, order="exact",
                        dtype_kind="b")
                ctx.check(c is same, "in place operator rebinds")
                ctx.step()
        else:
            # the dims of A can not change in place: refused, A untouched
            for name, iop, op in INPLACE:
                c = ma.real()
                try:
                    iop(c, b)
                except Exception as exc:
                    ctx.observe(type(exc).__name__)
                else:
                    ctx.fail("A %s B with dims %r and %r is not refused"
                             % (name, da, db))
                compare(ctx, c, ma, "A after a refused %s" % name,
                        order="exact")
                ctx.step()
    return run


DTYPES = [Named("int", (int, lambda k: k + 2)),
          Named("float", (float, lambda k: k + 1.5)),
          Named("complex", (complex, lambda k: complex(k + 1, k - 2))),
          Named("bool", (bool, lambda k: bool(k % 2)))]

SMALL = [(), (0,), (1,), (0, 1), (1, 0), (2, 0), (3, 4), (0, 3, 4),
         (4, 0, 3)]


def dtypes(ctx):
    """result dtype and values for all dtype pairs and all operand kinds"""
    dims = POOLS["equal"]
    ia = ctx.choose("dims of A", SMALL)
    dta, fa = ctx.choose("dtype A", DTYPES).value
    kind = ctx.choose("B is", ["hfarray", "scalar", "npscalar", "0d",
                               "0d-hfarray"])
    dtb, fb = ctx.choose("dtype B", DTYPES).value
    da = [dims[i] for i in ia]
    ma = L.fill(da, [fa(k) for k in range(size(da))])
    a = ma.real(dtype=dta)
    if kind == "hfarray":
        ib = ctx.choose("dims of B", SMALL[1:])
        db = [dims[i] for i in ib]
    else:
        ib, db = (), []
    mb = L.fill(db, [fb(k + 1) for k in range(size(db))])
    b = mb.flat()[0]
    if kind == "hfarray":
        b = mb.real(dtype=dtb)
    elif kind == "npscalar":
        b = np.dtype(dtb).type(b)
    elif kind == "0d":
        b = np.array(b)
    elif kind == "0d-hfarray":
        b = hfarray(b)
    ctx.state((ia, ib, dta, dtb, kind))
    na = np.array(2).astype(dta)
    nb = np.array(2).astype(dtb)
    for name, op in ARITH[:4] + COMP[:2]:
        for refl in (False, True):
            x, y = (b, a) if refl else (a, b)
            mx, my = (mb, ma) if refl else (ma, mb)
            if dta is bool and dtb is bool and name in ("-",):
                continue          # numpy refuses bool - bool
            def ref(p, q):
                if dta is bool and dtb is bool and name in "+*":
                    return (p or q) if name == "+" else (p and q)
                return op(p, q)
            if name == "/" and (dta is bool or dtb is bool):
                continue
            r = op(x, y)
            compare(ctx, r, pointwise(ref, mx, my),
                    "%s %s %s" % (type(x).__name__, name, type(y).__name__),
                    order="prio" if kind == "hfarray" else None)
            kind_want = np.asarray(op(nb, na)).dtype.kind
            ctx.check(np.asarray(r).dtype.kind == kind_want,
                      lambda: "%s: dtype %s, expected kind %s"
                      % (name, np.asarray(r).dtype, kind_want))
            ctx.step()
            ctx.observe(plain(r))
    # powers (reflected, with real operands only)
    if dta is float and dtb in (int, float):
        compare(ctx, a ** b, pointwise(operator.pow, ma, mb), "**")
        compare(ctx, b ** a, pointwise(operator.pow, mb, ma), "reflected **")
        ctx.step(2)
    # unary
    if dta is not bool:
        compare(ctx, -a, pointwise(operator.neg, ma), "-A")
        compare(ctx, abs(a), pointwise(abs, ma), "abs(A)")
        ctx.step(2)


NARROW = ["bool", "int8", "uint8", "int16", "uint32", "int64", "float32",
          "float64", "complex64", "complex128"]
LAYOUT = dict(fr=[0, 2], rf=[2, 0], r=[2], ri=[2, 3])


def edge(dt, n, shift):
    """n values of the type, among them the ends of its range"""
    dt = np.dtype(dt)
    if dt.kind == "b":
        v = [True, False, True, True, False, False]
    elif dt.kind in "iu":
        i = np.iinfo(dt)
        v = [i.max, i.min, 1, 0, 7, i.max // 3]
    elif dt.kind == "f":
        v = [1.5, -2.25, 0.0, 1e10, 3.0, -0.5]
    else:
        v = [1 + 2j, -2j, 0.5, 3 - 1j, 1j, 2.0]
    return np.array([v[(k + shift) % 6] for k in range(n)], dtype=dt)


def narrow(ctx):
    """every pair of types, values at the ends of their ranges"""
    dims = POOLS["equal"]
    dta = ctx.choose("type of A", NARROW)
    dtb = ctx.choose("type of B", NARROW)
    how = ctx.choose("B is", sorted(LAYOUT) + ["number", "numpy number"])
    da = [dims[i] for i in LAYOUT["fr"]]
    na = edge(dta, 4, ctx.choose("shift", [0, 1, 3])).reshape(2, 2)
    a = hfarray(na.copy(), dims=tuple(d.real() for d in da))
    if how in LAYOUT:
        db = [dims[i] for i in LAYOUT[how]]
        nb = edge(dtb, 2 ** len(db), 2).reshape((2,) * len(db))
        b = hfarray(nb.copy(), dims=tuple(d.real() for d in db))
        if how == "fr":
            pa, pb = na, nb
        elif how == "rf":
            pa, pb = na, nb.T
        elif how == "r":
            pa, pb = na, nb[None, :]
        else:
            pa, pb = na[:, :, None], nb[None, :, :]
    else:
        b = edge(dtb, 4, 2)[ctx.choose("value", [1, 2])]
        if how == "number":
            b = b.item()
        pa, pb = na, b
    ctx.state((dta, dtb, how))
    for name, op in ARITH + ALIGN2 + COMP + BITS:
        for refl in (False, True):
            if refl and how in LAYOUT:
                continue
            x, y = (b, a) if refl else (a, b)
            px, py = (pb, pa) if refl else (pa, pb)
            with np.errstate(all="ignore"):
                try:
                    want = op(px, py)
                except (TypeError, ValueError, OverflowError) as exc:
                    want = exc
                try:
                    r = op(x, y)
                except (TypeError, ValueError, OverflowError) as exc:
                    r = exc
            what = "%s %s %s (%s)" % (px.dtype if hasattr(px, "dtype") else
                                      px, name, py.dtype if
                                      hasattr(py, "dtype") else py, how)
            if isinstance(want, Exception):
                continue           # numpy has no such operation
            ctx.check(isinstance(r, hfarray), lambda: "%s is %r" % (what, r))
            g = np.asarray(r)
            if how == "numpy number" and g.dtype != want.dtype:
                # the type of a numpy number may count in full
                with np.errstate(all="ignore"):
                    want = (op(np.full(na.shape, b), na) if refl else
                            op(na, np.full(na.shape, b)))
            ctx.check(g.dtype == want.dtype, lambda: "%s: type %s, expected "
                      "%s" % (what, g.dtype, want.dtype))
            ctx.check(g.shape == want.shape and
                      np.array_equal(g, want, equal_nan=g.dtype.kind in "fc"),
                      lambda: "%s: %r, expected %r" % (what, g, want))
            ctx.check([d.name for d in r.dims] ==
                      ["f", "r", "i"][:g.ndim], lambda: "%s: dims %r"
                      % (what, r.dims))
            ctx.step()
    ctx.check(np.array_equal(np.asarray(a), na) and a.dtype == na.dtype,
              "A is modified")
    ctx.observe((dta, dtb, how))


_pointwise = pointwise
NUMBERS = [Named("2", 2), Named("-3", -3), Named("0.5", 0.5),
           Named("np.float64", np.float64(1.5)), Named("np.int64",
                                                       np.int64(3)),
           Named("0d", np.array(2.5)), Named("0d hfarray", hfarray(2.5))]


def scalars(ctx):
    """every operator with a number on either side"""
    dims = POOLS["equal"]
    ia = ctx.choose("dims of A", SMALL)
    num = ctx.choose("number", NUMBERS).value
    da = [dims[i] for i in ia]
    ma = L.fill(da, vals(size(da), 2, 3))
    a = ma.real()
    v = float(num)
    order = None

    def pointwise(fn, m):
        out = _pointwise(fn, m)
        out.dims = list(m.dims)
        return out
    for name, op in ARITH + ALIGN2 + COMP:
        compare(ctx, op(a, num), pointwise(lambda p: op(p, v), ma),
                "A %s number" % name, order=order)
        compare(ctx, op(num, a), pointwise(lambda p: op(v, p), ma),
                "number %s A" % name, order=order)
        ctx.step(2)
    for name, iop, op in INPLACE:
        c = ma.real()
        same = c
        c = iop(c, num)
        compare(ctx, c, pointwise(lambda p: op(p, v), ma),
                "A %s number" % name, order="exact")
        ctx.check(c is same, "in place operator rebinds")
        ctx.step()
    compare(ctx, a, ma, "operand afterwards", order="exact")
    ca = L.fill(da, [bool(k % 2) for k in range(size(da))])
    for bit in (True, False, np.bool_(True)):
        x = ca.real()
        for name, op in BITS:
            compare(ctx, op(x, bit), pointwise(
                lambda p: op(p, bool(bit)), ca), "A %s %r" % (name, bit),
                order=None, dtype_kind="b")
            compare(ctx, op(bit, x), pointwise(
                lambda p: op(bool(bit), p), ca), "%r %s A" % (bit, name),
                order=None, dtype_kind="b")
            ctx.step(2)
    ctx.state((ia, repr(num)))
    ctx.observe(plain(a * num))


def chains(depth):
    """Results are operands of further operators: ((A o B) o C) ..."""
    ops = [("+", operator.add), ("-", operator.sub), ("*", operator.mul)]
    sets = [(0,), (1, 0), (2,), (4, 3), (3, 0), (2, 1)]

    def run(ctx):
        dims = POOLS["equal"]
        cur = ctx.choose("first", sets)
        m = L.fill([dims[i] for i in cur],
                   vals(size([dims[i] for i in cur]), 1, 2))
        r = m.real()
        for k in range(depth):
            nxt = ctx.choose("operand", sets)
            name, op = ctx.choose("op", ops)
            flip = ctx.flag("reversed")
            nd = [dims[i] for i in nxt]
            m2 = L.fill(nd, vals(size(nd), 2 + k, k + 1))
            r2 = m2.real()
            if flip:
                r, m = op(r2, r), pointwise(op, m2, m)
            else:
                r, m = op(r, r2), pointwise(op, m, m2)
            ctx.step()
            compare(ctx, r, m, "chain step %d (%s)" % (k, name), order="prio")
            ctx.state((sorted(d.key for d in m.dims), m.flat()))
        ctx.observe(plain(r))
    return run


def mismatch(ctx):
    """Operands whose same-named dimensions have incompatible lengths can
    not be combined: an exception, never a silently wrong result."""
    na, nb = ctx.choose("lengths", [(2, 3), (3, 2), (2, 4), (4, 3)])
    extra = ctx.choose("other dims", [(), ("g",)])
    name, op = ctx.choose("op", ARITH + COMP)
    A = [D("sweep", "f", range(na))] + [D("sweep", x, [1, 2]) for x in extra]
    B = [D("sweep", "f", range(nb))]
    a = L.fill(A, vals(size(A), 1, 1)).real()
    b = L.fill(B, vals(size(B), 1, 1)).real()
    try:
        r = op(a, b)
    except ValueError:
        ctx.observe("raises")
        ctx.step()
        return
    except Exception as exc:
        ctx.observe(type(exc).__name__)
        ctx.step()
        return
    ctx.check(r is False or r is True or r is NotImplemented,
              "combining lengths %d and %d of dimension f gave %r"
              % (na, nb, r))
    ctx.step()


BIG = [D("sweep", "f", [1.5, 2.5, 9.0]), D("sweep", "g", [10, 20]),
       D("sweep", "h", [1, 2]), D("rep", "r", [5, 7]), D("rep", "q", [3]),
       D("mi", "i", [0, 1]), D("mj", "j", [0, 1])]


def large(ctx):
    """many and long dimensions"""
    if ctx.flag("many dimensions"):
        n = ctx.choose("number", [4, 5, 6, 7])
        start = ctx.choose("first", range(7) if ctx.tier != "quick" else
                           [0, 2, 5])
        da = [BIG[(start + k) % 7] for k in range(n)]
        if ctx.flag("backwards"):
            da = da[::-1]
        m = ctx.choose("number of B", [1, 3, 5, 7])
        start = ctx.choose("first of B", range(7) if ctx.tier != "quick" else
                           [1, 4])
        db = [BIG[(start + 3 * k) % 7] for k in range(m)]
    else:
        n = ctx.choose("length", [11, 33, 65, 129, 257, 1025])
        f = D("sweep", "f", [2.0 * k for k in range(n)][::-1])
        g = D("rep", "g", range(3))
        da = ctx.choose("A", [[f], [g, f], [f, g]])
        db = ctx.choose("B", [[f], [], [g], [f, g], [g, f]])
    ma = L.fill(da, vals(size(da), 2, 0.5))
    mb = L.fill(db, vals(size(db), 3, 0.25))
    a, b = ma.real(), mb.real()
    ops = ARITH[:4] + COMP[:3]
    if ctx.flag("other operators"):
        ops = ALIGN2 + COMP[3:]
    for name, op in ops:
        if size(da) * size(db) > 2000 and name not in "-<":
            continue
        compare(ctx, op(a, b), pointwise(op, ma, mb), "A %s B" % name,
                order="prio")
        ctx.step()
    if set(d.name for d in db) <= set(d.name for d in da):
        a -= b
        want = pointwise(operator.sub, ma, mb)
        want.dims = list(da)
        compare(ctx, a, want, "A -= B", order="exact")
    ctx.state((repr([d.name for d in da]), repr([d.name for d in db])))
    ctx.observe(plain(a)[:2])


def spaces(tier):
    q = tier == "quick"
    out = [
        Space("binary-equal", binary("equal", 3 if q else 4, 3),
              "every ordered subset of 5 equally long dims (two sweeps, rep, "
              "matrix i, j) for both operands x 16 operators + in place"),
        Space("binary-mixed", binary("mixed", 2, 2),
              "lengths 3/2/1, string labels, partial dims, same name with "
              "different class"),
        Space("dtypes", dtypes, "all int/float/complex/bool pairs, scalar, "
              "numpy scalar and 0-d operands, both operand orders"),
        Space("narrow", narrow, "all pairs of 10 types with values at the "
              "ends of their ranges, both operand orders"),
        Space("scalars", scalars, "every operator with 7 kinds of numbers on "
              "either side"),
        Space("chains", chains(2 if q else 3), "operator chains whose results "
              "feed further operators"),
        Space("large", large, "4 to 7 dimensions, lengths up to 1025"),
        Space("mismatch", mismatch, "incompatible lengths"),
    ]
    return out
