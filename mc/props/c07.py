# -*- coding: utf-8 -*-
"""C07: linear algebra on arrays of matrices acts matrix by matrix."""
import itertools

import numpy as np

from mc.engine import Space, Named
from mc.labelled import hfarray, dim_labels, same
from mc import netmodel as nm
from hftools.dataset import DimSweep, DimRep, DimMatrix_i, DimMatrix_j
import hftools.math as hm

ASSUMPTIONS = ["matrices are regular (inv, solve_Ab) or of full column rank "
               "(lstsq)", "outer dimensions longer than one where solve_Ab "
               "squeezes its result"]

LAB = dict(f=[1., 2., 4.], r=[5, 7], g=[10., 20.])


def dim_of(name, n, labels):
    if name == "i":
        return DimMatrix_i("i", labels or list(range(n)))
    if name == "j":
        return DimMatrix_j("j", labels or list(range(n)))
    return (DimRep if name == "r" else DimSweep)(name, LAB[name])


POOL = [5., 1., -2., 3., 7., -4., 2., 6., -1., 8., 0.5, 9., -3., 4., -6.]


def entry(coord, i, j, salt, cplx):
    """deterministic, distinct entries; diagonally heavy so square ones are
    regular"""
    k = salt + 3 * i + 5 * j
    for n, v in sorted(coord.items()):
        k += (v + 1) * {"f": 2, "r": 7, "g": 4}[n]
    x = POOL[k % len(POOL)] + 0.25 * (k // len(POOL))
    if i == j:
        x += 20 + salt
    if cplx:
        x = x + 1j * POOL[(k * 2 + 1) % len(POOL)]
    return x


class M(object):
    """family of n x m matrices over outer coordinates; rows or columns may
    be absent (vectors)"""

    def __init__(self, outer, n, m, salt=0, cplx=False):
        self.outer, self.n, self.m = tuple(outer), n, m
        self.salt, self.cplx = salt, cplx

    def at(self, coord):
        c = dict((k, coord[k]) for k in self.outer)
        return [[entry(c, i, j, self.salt, self.cplx)
                 for j in range(self.m or 1)] for i in range(self.n or 1)]

    def names(self):
        return self.outer + (("i",) if self.n else ()) + \
            (("j",) if self.m else ())

    def real(self, order=None, il=None, jl=None, dtype=None):
        names = self.names()
        shape = tuple(len(LAB[o]) for o in self.outer)
        full = np.empty(shape + (self.n or 1, self.m or 1),
                        complex if self.cplx else float)
        for c in itertools.product(*[range(k) for k in shape]):
            full[c] = self.at(dict(zip(self.outer, c)))
        if not self.m:
            full = full[..., 0]
        if not self.n:
            full = full[..., 0, :] if self.m else full[..., 0]
        if dtype:
            full = full.astype(dtype)
        dims = tuple(dim_of(k, self.n if k == "i" else self.m,
                            il if k == "i" else jl) for k in names)
        a = hfarray(full, dims=dims)
        if order is not None:
            a = a.reorder_dimensions(*order)
        return a


def union(*ms):
    s = [x for m in ms for x in m.outer]
    return tuple(sorted(set(s), key=lambda k: (k == "r", s.index(k))))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def conj_t(a):
    return [[complex(a[i][j]).conjugate() for i in range(len(a))]
            for j in range(len(a[0]))]


def det(a):
    if len(a) == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] *
               det([r[:j] + r[j + 1:] for r in a[1:]])
               for j in range(len(a)))


def verify(ctx, res, outer, tail, fn, what, labels=None, tol=1e-9):
    names = [d.name for d in res.dims]
    k = len(tail)
    ctx.check(sorted(names[:len(names) - k]) == sorted(outer) and
              names[len(names) - k:] == list(tail),
              lambda: "%s: dims %r, expected %r and %r" % (what, names, outer,
                                                           tail))
    raw = np.asarray(res)
    ctx.check(raw.ndim == len(names), "%s: dims and shape" % what)
    for ax, d in enumerate(res.dims):
        want = (labels or {}).get(d.name) if d.name in "ij" else LAB[d.name]
        if want is None:
            want = list(range(raw.shape[ax]))
        ctx.check(dim_labels(d) == want, lambda: "%s: labels of %s %r, "
                  "expected %r" % (what, d.name, dim_labels(d), want))
    for d, cls in ((x, c) for x in res.dims for n, c in
                   (("i", DimMatrix_i), ("j", DimMatrix_j))
                   if x.name == n):
        ctx.check(isinstance(d, cls), "%s: class of %s" % (what, d.name))
    cells = [len(LAB[n]) for n in names[:len(names) - k]]
    for idx in np.ndindex(*cells):
        w = np.array(fn(dict(zip(names, idx))))
        g = raw[idx]
        ctx.check(g.shape == w.shape, lambda: "%s: shape %r, expected %r"
                  % (what, g.shape, w.shape))
        for x, y in zip(g.ravel().tolist(), w.ravel().tolist()):
            ctx.check(abs(x - y) <= tol * max(1, abs(y)),
                      lambda: "%s at %r: %r, expected %r"
                      % (what, dict(zip(names, idx)), g.tolist(), w.tolist()))


OUTER = [((), ()), (("f",), ("f",)), (("f",), ()), ((), ("f",)),
         (("f",), ("r",)), (("r",), ("f",)), (("f", "r"), ("r", "f")),
         (("r", "f"), ("f",)), (("f", "g"), ("g",)), (("g",), ("f", "r"))]
OUTER1 = [(), ("f",), ("r",), ("f", "r"), ("r", "f"), ("f", "g"),
          ("g", "f")]


def operand(ctx, label, m, orders):
    names = m.names()
    ps = list(itertools.permutations(names)) if orders else [names]
    return m.real(ctx.choose("dim order of %s" % label, ps))


def product(ctx):
    o1, o2 = ctx.choose("outer dims", OUTER)
    n, k, m = ctx.choose("sizes", [(2, 2, 2), (2, 3, 2), (3, 2, 1),
                                   (1, 2, 3), (1, 3, 1), (2, 1, 2),
                                   (2, 2, None), (None, 2, 2),
                                   (None, 3, None), (2, None, 2)])
    c1 = ctx.flag("first complex")
    c2 = ctx.flag("second complex")
    A = M(o1, n, k, 1, c1)
    B = M(o2, k, m, 2, c2)
    small = len(A.names()) <= 3 and len(B.names()) <= 3
    a = operand(ctx, "first", A, small)
    b = operand(ctx, "second", B, small)
    ra, rb = np.array(a), np.array(b)
    r = hm.matrix_multiply(a, b)
    ctx.step()
    verify(ctx, r, union(A, B), ("i", "j"),
           lambda c: mul(A.at(c), B.at(c)), "matrix_multiply")
    ctx.check(np.array_equal(ra, np.asarray(a)) and
              np.array_equal(rb, np.asarray(b)), "operand modified")
    ctx.state((o1, o2, n, k, m, c1, c2))
    ctx.observe(np.asarray(r).tolist())


def associative(ctx):
    """chains of products, inverses and determinants"""
    outs = ctx.choose("outer dims", [((), (), ()), (("f",),) * 3,
                                     (("f",), (), ("r",)),
                                     (("r",), ("f",), ("f",)),
                                     (("f", "r"), ("g",), ("r",))])
    n = ctx.choose("size", [1, 2, 3])
    left = ctx.flag("associate to the left")
    cp = [ctx.flag("complex %d" % k) for k in range(3)]
    Ms = [M(o, n, n, k, c) for k, (o, c) in enumerate(zip(outs, cp))]
    a, b, c = [m.real() for m in Ms]
    mm = hm.matrix_multiply
    r = mm(mm(a, b), c) if left else mm(a, mm(b, c))
    ctx.step(2)

    def want(co):
        return mul(mul(Ms[0].at(co), Ms[1].at(co)), Ms[2].at(co))
    verify(ctx, r, union(*Ms), ("i", "j"), want, "product of three")
    verify(ctx, hm.det(r), union(*Ms), (),
           lambda co: det(want(co)), "det of the product")
    ri = mm(mm(hm.inv(c), hm.inv(b)), hm.inv(a))
    ctx.step(6)
    one = mm(ri, r)
    verify(ctx, one, union(*Ms), ("i", "j"),
           lambda co: np.eye(n).tolist(), "inverse of the product", tol=1e-6)
    ctx.state((outs, n, left, cp))
    ctx.observe(np.round(np.asarray(r), 6).tolist())


def unary(ctx):
    o = ctx.choose("outer dims", OUTER1)
    n = ctx.choose("size", [1, 2, 3, 4])
    c = ctx.flag("complex")
    A = M(o, n, n, 1, c)
    dt = ctx.choose("dtype", [None, "int"] if not c else [None, "complex64"])
    a = A.real(ctx.choose("dim order",
                          list(itertools.permutations(A.names()))),
               dtype=dt)
    raw = np.array(a)

    def at(co):
        m = A.at(co)
        return [[int(x) for x in r] for r in m] if dt == "int" else m
    tol = 1e-3 if dt == "complex64" else 1e-8
    d = hm.det(a)
    ctx.step()
    verify(ctx, d, o, (), lambda co: det(at(co)), "det", tol=tol)
    r = hm.inv(a)
    ctx.step()
    verify(ctx, hm.matrix_multiply(r, a), o, ("i", "j"),
           lambda co: np.eye(n).tolist(), "inv times matrix", tol=tol)
    verify(ctx, hm.matrix_multiply(a, r), o, ("i", "j"),
           lambda co: np.eye(n).tolist(), "matrix times inv", tol=tol)
    ctx.check(np.array_equal(raw, np.asarray(a)), "operand modified")
    ctx.state((o, n, c, dt))
    ctx.observe(np.round(np.asarray(d), 3).tolist())


def solve(ctx):
    o1, o2 = ctx.choose("outer dims", OUTER)
    n, m = ctx.choose("sizes", [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2),
                                (2, None), (3, None)])
    c1 = ctx.flag("matrix complex")
    c2 = ctx.flag("right side complex")
    squeeze = ctx.flag("squeeze")
    A = M(o1, n, n, 1, c1)
    B = M(o2, n, m, 2, c2)
    small = len(A.names()) <= 3 and len(B.names()) <= 3
    a = operand(ctx, "matrix", A, small)
    b = operand(ctx, "right side", B, small)
    x = hm.solve_Ab(a, b, squeeze=squeeze)
    ctx.step()
    tail = ("i", "j")
    if squeeze:
        tail = (("i",) if n > 1 else ()) + (("j",) if (m or 1) > 1 else ())
    outer = union(A, B)
    names = [d.name for d in x.dims]
    ctx.check(sorted(names) == sorted(outer + tail),
              lambda: "solve_Ab: dims %r, expected %r" % (names, outer + tail))
    y = x
    raw = np.asarray(x)
    for nm_, ax in (("i", -1), ("j", -1)):
        if nm_ not in tail:
            raw = np.expand_dims(raw, raw.ndim if nm_ == "j" else
                                 raw.ndim - (1 if "j" in tail else 0))
    on = [k for k in names if k not in "ij"]
    for idx in np.ndindex(*[len(LAB[k]) for k in on]):
        co = dict(zip(on, idx))
        got = mul(A.at(co), raw[idx].tolist())
        w = B.at(co)
        for r1, r2 in zip(got, w):
            for p, q in zip(r1, r2):
                ctx.check(abs(p - q) < 1e-8 * max(1, abs(q)), lambda:
                          "solve_Ab: A x = %r, b = %r at %r" % (got, w, co))
    ctx.state((o1, o2, n, m, c1, c2, squeeze))
    ctx.observe(np.round(np.asarray(y), 8).tolist())


def leastsq(ctx):
    o1, o2 = ctx.choose("outer dims", OUTER)
    n, p, m = ctx.choose("sizes", [(2, 2, 1), (3, 2, 1), (3, 1, 2),
                                   (4, 2, 2), (4, 3, None), (3, 3, 3)])
    c1 = ctx.flag("matrix complex")
    c2 = ctx.flag("right side complex")
    A = M(o1, n, p, 1, c1)
    B = M(o2, n, m, 2, c2)
    small = len(A.names()) <= 3 and len(B.names()) <= 3 and \
        ctx.tier == "thorough"
    a = operand(ctx, "matrix", A, small)
    b = operand(ctx, "right side", B, small)
    x = hm.lstsq(a, b)
    ctx.step()
    names = [d.name for d in x.dims]
    outer = union(A, B)
    ctx.check(sorted(names[:-2]) == sorted(outer) and
              names[-2:] == ["i", "j"], lambda: "lstsq: dims %r" % names)
    raw = np.asarray(x)
    ctx.check(raw.shape[-2:] == (p, m or 1), lambda: "lstsq: %r"
              % (raw.shape,))
    for d, k in zip(x.dims, raw.shape):
        ctx.check(len(dim_labels(d)) == k, "lstsq: labels of %s" % d.name)
        if d.name not in "ij":
            ctx.check(dim_labels(d) == LAB[d.name], "labels of %s" % d.name)
    for idx in np.ndindex(*raw.shape[:-2]):
        co = dict(zip(names, idx))
        am = A.at(co)
        ax = mul(am, raw[idx].tolist())
        res = [[u - v for u, v in zip(r1, r2)]
               for r1, r2 in zip(ax, B.at(co))]
        # normal equations: the residual is orthogonal to the columns
        ort = mul(conj_t(am), res)
        for r1 in ort:
            for v in r1:
                ctx.check(abs(v) < 1e-6, lambda: "lstsq: residual of %r at "
                          "%r is not orthogonal: %r" % (raw[idx], co, ort))
    ctx.state((o1, o2, n, p, m, c1, c2))
    ctx.observe(np.round(raw, 8).tolist())


DTS = [("int", 3), ("float", 2.5), ("complex", 1.5 + 2j)]


def makematrix(ctx):
    """four labelled elements of any dims, dtype and order"""
    opts = [(), ("f",), ("r",), ("f", "r"), ("r", "f")]
    outs = [ctx.choose("dims of element %d" % k, opts) for k in range(4)]
    which = ctx.choose("complex element", [None, 0, 1, 2, 3])
    intel = ctx.choose("integer element", [None, 0, 3])
    vals = []
    for k in range(4):
        m = M(outs[k], None, None, k * 2, k == which)
        vals.append(m)
    arrs = []
    for k, m in enumerate(vals):
        a = m.real(dtype="int" if k == intel and k != which else None)
        arrs.append(a)
    r = hm.make_matrix(*arrs)
    ctx.step()

    def want(c):
        out = []
        for k, m in enumerate(vals):
            x = m.at(c)[0][0]
            if k == intel and k != which:
                x = int(x)
            out.append(x)
        return [out[:2], out[2:]]
    verify(ctx, r, union(*vals), ("i", "j"), want, "make_matrix")
    ctx.state((outs, which, intel))
    ctx.observe(np.asarray(r).tolist())


def iterate(ctx):
    """broadcast_matrices pairs the matrices of the same coordinate"""
    o1, o2 = ctx.choose("outer dims", OUTER)
    c = ctx.flag("complex")
    A, B = M(o1, 2, 2, 1, c), M(o2, 2, 2, 2)
    outer = union(A, B)
    a, b = A.real(), B.real()
    bm = hm.broadcast_matrices((a, b))
    got = [(np.asarray(x).tolist(), np.asarray(y).tolist()) for x, y in bm]
    ctx.step(len(got))
    want = []
    for idx in itertools.product(*[range(len(LAB[k])) for k in outer]):
        co = dict(zip(outer, idx))
        want.append((A.at(co), B.at(co)))
    key = repr
    ctx.check(sorted(got, key=key) == sorted(want, key=key),
              lambda: "broadcast_matrices: %r, expected %r" % (got, want))
    ctx.state((o1, o2, c))
    ctx.observe(got)


def labels(ctx):
    """row labels come from the left factor, column labels from the right"""
    o1, o2 = ctx.choose("outer dims", [((), ()), (("f",), ("f",)),
                                       (("f",), ("r",))])
    n, k, m = ctx.choose("sizes", [(2, 2, 2), (2, 3, 2), (3, 2, 1)])
    il = ctx.choose("row labels", [None, [1, 2, 3]])
    jl = ctx.choose("column labels", [None, [1, 2, 3]])
    which = ctx.choose("operation", ["multiply", "solve", "lstsq", "inv"])
    iln, jlm = il and il[:n], jl and jl[:m]
    if which == "multiply":
        A, B = M(o1, n, k, 1), M(o2, k, m, 2)
        r = hm.matrix_multiply(A.real(il=iln), B.real(jl=jlm))
        verify(ctx, r, union(A, B), ("i", "j"),
               lambda c: mul(A.at(c), B.at(c)), "matrix_multiply",
               dict(i=iln, j=jlm))
    elif which == "inv":
        A = M(o1, n, n, 1)
        r = hm.inv(A.real(il=iln, jl=iln))
        verify(ctx, hm.matrix_multiply(r, A.real(il=iln, jl=iln)), A.outer,
               ("i", "j"), lambda c: np.eye(n).tolist(), "inv",
               dict(i=iln, j=iln))
    else:
        A, B = M(o1, n, n, 1), M(o2, n, m, 2)
        f = hm.solve_Ab if which == "solve" else hm.lstsq
        a, b = A.real(jl=iln), B.real(jl=jlm)
        r = f(a, b, squeeze=False)
        rr = np.asarray(r)
        ctx.check(dim_labels(r.dims[-2]) == (iln or list(range(n))) and
                  dim_labels(r.dims[-1]) == (jlm or list(range(m))),
                  lambda: "%s: labels %r %r" % (which,
                                                dim_labels(r.dims[-2]),
                                                dim_labels(r.dims[-1])))
        ctx.check(rr.shape[-2:] == (n, m), "%s: shape" % which)
    ctx.step()
    ctx.state((o1, o2, n, k, m, il, jl, which))
    ctx.observe(np.round(np.asarray(r), 8).tolist())


def exact(ctx):
    """all small matrices of few numbers, also singular ones"""
    n = ctx.choose("size", [1, 2, 3])
    values = [-1, 0, 1, 2] if n < 3 else [0, 1] if ctx.tier == "quick" \
        else [-1, 0, 1]
    first = [ctx.choose("first row", values) for _ in range(n)]
    k = 1j if ctx.flag("complex") else 1
    rest = list(itertools.product(values, repeat=n * n - n))
    mats = [[first] + [list(r[i:i + n]) for i in range(0, n * n - n, n)]
            for r in rest]
    dims = (DimSweep("f", len(mats)), DimMatrix_i("i", n), DimMatrix_j("j", n))
    a = hfarray(np.array(mats) * k, dims=dims)
    want = [nm.det(m) for m in mats]
    d = hm.det(a)
    ctx.check([x.name for x in d.dims] == ["f"] and np.allclose(
        np.asarray(d), np.array(want) * k ** n, 1e-12, 1e-12),
        lambda: "det of %r" % [(m, x, w) for m, x, w in
                               zip(mats, np.asarray(d), want)
                               if abs(x - w * k ** n) > 1e-12][:1])
    good = [q for q, w in enumerate(want) if w]
    ctx.step(len(mats))
    if not good:
        return
    f = DimSweep("f", len(good))
    g = hfarray(np.array(mats)[good] * k, dims=(f,) + dims[1:])
    unit = np.array([np.eye(n)] * len(good))
    for what, r in [("inv", hm.inv(g)), ("solve_Ab", hm.solve_Ab(
            g, hfarray(unit, dims=(f,) + dims[1:]), squeeze=False))]:
        prod = np.einsum("fij,fjk->fik", np.asarray(g), np.asarray(r))
        ctx.check(np.allclose(prod, unit, 0, 1e-9), lambda: "%s of %r is %r"
                  % (what, np.asarray(g)[np.abs(prod - unit).max((1, 2)) >
                                         1e-9][:1], r))
    ctx.step(2 * len(good))
    ctx.state((n, first, k))
    ctx.observe((n, first, len(good)))


def large(ctx):
    """large matrices, long sweeps, many outer dimensions"""
    n, m = ctx.choose("sizes", [(5, 7), (8, 3), (12, 10), (1, 16), (2, 2)])
    L = ctx.choose("length", [1, 40, 333] if n < 12 else [1, 40])
    c = ctx.flag("complex")
    more = ctx.flag("more dimensions")
    f = DimSweep("f", [0.5 * k for k in range(L)])
    out1 = (f, DimRep("r", 2)) if more else (f,)
    out2 = (DimSweep("g", 3), f) if more else (f,)

    def make(outer, p, q, salt):
        dims = outer + (DimMatrix_i("i", p), DimMatrix_j("j", q))
        shape = [len(d.data) for d in dims]
        k = np.arange(int(np.prod(shape))) * 31 + salt
        x = ((k * k) % 97 - 40.).reshape(shape)
        if c:
            x = x + 1j * ((k * 7) % 89).reshape(shape)
        if p == q:
            x = x + 500 * np.eye(p)
        return hfarray(x, dims=dims), x
    a, ra = make(out1, n, m, 3)
    b, rb = make(out2, m, n, 5)
    s, rs = make(out1, n, n, 7)
    if more:
        ra, rs = ra[:, :, None], rs[:, :, None]
        rb = rb.transpose(1, 0, 2, 3)[:, None]
    order = ("f", "r", "g") if more else ("f",)

    def values(x, tail):
        names = [d.name for d in x.dims]
        ctx.check(sorted(names) == sorted(order + tail), lambda: "dims %r"
                  % names)
        for d, k in zip(x.dims, x.shape):
            ctx.check(len(d.data) == k, lambda: "labels of %s" % d.name)
        return np.asarray(x).transpose([names.index(k) for k in order + tail])
    r = values(hm.matrix_multiply(a, b), ("i", "j"))
    ctx.check(np.allclose(r, np.matmul(ra, rb), 1e-9, 1e-6),
              "matrix_multiply")
    order = order[:2]
    rs = rs[:, :, 0] if more else rs
    i = values(hm.inv(s), ("i", "j"))
    ctx.check(np.allclose(np.matmul(i, rs), np.eye(n), 0, 1e-8), "inv")
    d = values(hm.det(s), ())
    ctx.check(np.allclose(d, np.linalg.det(rs), 1e-7), "det")
    order = ("f", "r", "g") if more else ("f",)
    rhs, rr = make(out2, n, m, 11)
    rr = rr.transpose(1, 0, 2, 3)[:, None] if more else rr
    x = values(hm.solve_Ab(s, rhs, squeeze=False), ("i", "j"))
    lhs = np.matmul(rs[:, :, None] if more else rs, x)
    ctx.check(np.allclose(lhs, np.broadcast_to(rr, lhs.shape), 1e-7, 1e-6),
              "solve_Ab")
    ctx.step(4)
    ctx.state((n, m, L, c, more))
    ctx.observe((n, m, L, c, more))


def spaces(tier):
    return [
        Space("multiply", product, "all outer-dim combinations x sizes "
              "(square, rectangular, vectors) x real/complex x dim orders"),
        Space("chains", associative, "three factors, both associations, "
              "inverse and determinant of the product"),
        Space("inv-det", unary, "1..4 rows, all dim orders, dtypes"),
        Space("solve", solve, "A x = b, matrices and vectors, squeeze on/off"),
        Space("lstsq", leastsq, "over-determined systems: the residual is "
              "orthogonal to the columns"),
        Space("make-matrix", makematrix, "four elements with every "
              "combination of dims, one complex, one integer"),
        Space("iterate", iterate, "broadcast_matrices pairs"),
        Space("exact", exact, "all 1x1, 2x2 and 3x3 matrices of few numbers"),
        Space("large", large, "up to 12 rows, 333 frequencies"),
        Space("labels", labels, "row and column labels of results"),
    ]
