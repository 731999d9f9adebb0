# -*- coding: utf-8 -*-
"""C08: a DataBlock stays a consistent set of labelled variables."""
import collections
import copy as _copy
import itertools
import warnings

import numpy as np

from mc.engine import Space, Named, Prune
from hftools.file_formats.common import Comments
from mc.labelled import (D, L, KINDS, compare, coords, kind_of, dim_labels,
                         hfarray)
import hftools.dataset as hd
from hftools.dataset import (DataBlock, DimSweep, DimRep, DimMatrix_i,
                             DimMatrix_j)
from hftools.dataset.dataset import (change_dim, DataBlockError,
                                     subset_datablock_by_dims,
                                     yield_dim_consistent_datablocks,
                                     convert_matrices_to_elements)

ASSUMPTIONS = ["variables given to a block use dims that agree with those "
               "the block has", "dims and variables have different names",
               "blocks derived by view, filter, sort, squeeze may share "
               "data with their source"]

F = D("sweep", "f", [1., 3., 2.], unit="Hz", fmt="%.3f")
R = D("rep", "r", [5, 7])
P = D("sweep", "p", [4.5])
I, J = D("mi", "i", [0, 1]), D("mj", "j", [0, 1])
Q = D("sweep", "q", [10, 20])


class V(object):
    def __init__(self, l, unit=None, fmt=None):
        self.l, self.unit, self.fmt = l, unit, fmt

    @property
    def dims(self):
        return self.l.dims

    def to(self, l):
        return V(l, self.unit, self.fmt)

    def real(self):
        return self.l.real(unit=self.unit, outputformat=self.fmt)


def var(dims, seed, unit=None, fmt=None, conv=float):
    n = 1
    for d in dims:
        n *= len(d)
    pool = [4, -1, 7, 2, -6, 9, 3, 8, -5, 1, 6, -2, 5, 0, -3, -4, -7, 11, 12,
            10, -8, -9, 13, 14, 15, 16, 17]
    return V(L.fill(dims, [conv(pool[(k * 1 + seed) % len(pool)] +
                                (k // len(pool)) * 100) for k in range(n)]),
             unit, fmt)


class DB(object):
    """the model"""

    def __init__(self):
        self.vars = collections.OrderedDict()
        self.ivars = collections.OrderedDict()
        self.blockname = None
        self.xname = None

    def put(self, name, v):
        self.vars[name] = v
        for d in v.dims:
            if d.name not in self.ivars:
                self.ivars[d.name] = d
        if self.xname is None and v.dims:
            self.xname = v.dims[0].name

    def clone(self):
        o = DB()
        o.vars = collections.OrderedDict(self.vars)
        o.ivars = collections.OrderedDict(self.ivars)
        o.blockname, o.xname = self.blockname, self.xname
        return o

    def real(self):
        db = DataBlock()
        db.blockname = self.blockname
        if self.blockname is not None:
            db.comments = Comments(["Made by: me"])
        for k, v in self.vars.items():
            db[k] = v.real()
        for k, d in self.ivars.items():
            if k not in db.ivardata:
                db[k] = d.real()
        return db

    def key(self):
        return (list((k, repr(v.l), v.unit, v.fmt)
                     for k, v in self.vars.items()),
                list((k, repr(d), d.unit, d.fmt)
                     for k, d in self.ivars.items()), self.xname)


def swap_dim(l, name, new):
    """replace the dim *name* by *new* (same number of labels)"""
    if name not in [d.name for d in l.dims]:
        return l
    dims = [new if d.name == name else d for d in l.dims]
    return L.fill(dims, l.flat())


def pick_dim(l, name, idx):
    if name not in [d.name for d in l.dims]:
        return l
    dims = [d.sel([d.labels[i] for i in idx]) if d.name == name else d
            for d in l.dims]
    out = {}
    cells = []
    old = dict((d.name, d) for d in l.dims)[name]
    for combo in itertools.product(*[range(len(d)) for d in dims]):
        c = {}
        for d, i in zip(dims, combo):
            c[d.key] = (old.labels[idx[i]] if d.name == name
                        else d.labels[i])
        cells.append(l.at(c))
    return L.fill(dims, cells)


def invariant(ctx, db, m, what, ordered=True, report=False):
    ctx.check(isinstance(db, DataBlock), "%s: %r" % (what, type(db)))
    rv, ri = list(db.vardata.keys()), list(db.ivardata.keys())
    for a, b, n in ((rv, list(m.vars), "variables"),
                    (ri, list(m.ivars), "dimensions")):
        ctx.check(sorted(a) == sorted(b), lambda: "%s: %s %r, expected %r"
                  % (what, n, a, b))
        ctx.check(not ordered or a == b, lambda: "%s: order of %s %r, "
                  "expected %r" % (what, n, a, b))
    for k, d in m.ivars.items():
        r = db.ivardata[k]
        ctx.check(kind_of(r) == d.kind and r.name == d.name and
                  dim_labels(r) == d.labels,
                  lambda: "%s: dimension %s is %r %r, expected %r"
                  % (what, k, r, dim_labels(r), d))
        ctx.check(r.unit == d.unit, lambda: "%s: unit of dimension %s %r, "
                  "expected %r" % (what, k, r.unit, d.unit))
        if d.fmt is not None:
            ctx.check(r.outputformat == d.fmt, lambda: "%s: format of "
                      "dimension %s %r, expected %r"
                      % (what, k, r.outputformat, d.fmt))
        ctx.check(k in db and np.asarray(db[k]).tolist() == d.labels,
                  "%s: db[%r]" % (what, k))
    for k, v in m.vars.items():
        r = db.vardata[k]
        compare(ctx, r, v.l, "%s: variable %s" % (what, k), order="exact",
                units=True)
        ctx.check(r.unit == v.unit, lambda: "%s: unit of %s %r, expected %r"
                  % (what, k, r.unit, v.unit))
        if v.fmt is not None:
            ctx.check(r.outputformat == v.fmt, lambda: "%s: format of %s %r,"
                      " expected %r" % (what, k, r.outputformat, v.fmt))
        for d in r.dims:
            ctx.check(db.ivardata.get(d.name) == d, lambda: "%s: dim %r of "
                      "%s differs from the dimension of the block"
                      % (what, d.name, k))
        ctx.check(k in db and db[k] is not None, "%s: %s in db" % (what, k))
    names = ri + [x for x in rv if x not in ri]
    ctx.check(db.allvarnames == names, "%s: allvarnames" % what)
    ctx.check(db.blockname == m.blockname, lambda: "%s: blockname %r, "
              "expected %r" % (what, db.blockname, m.blockname))
    if m.blockname is not None:
        ctx.check(db.comments is not None and
                  list(db.comments.fullcomments) == ["Made by: me"] and
                  db.comments.property == {"Made by": "me"},
                  lambda: "%s: comments are %r" % (what, db.comments))
    if db.xname is not None:
        ctx.check(db.xname in db, lambda: "%s: xname %r is not in the block"
                  % (what, db.xname))
    if ordered:
        ctx.check(db.xname == m.xname, lambda: "%s: xname is %r, expected %r"
                  % (what, db.xname, m.xname))
    if not report:
        return
    txt = str(db)
    for n in names:
        ctx.check(n in txt, "%s: %s not in the report" % (what, n))


# ---- operations: each returns (real, model, in_place, ordered) -----------
def op_set(name, v):
    def f(db, m):
        db[name] = v.real()
        m = m.clone()
        m.put(name, v)
        return db, m, True, True
    return Named("db[%r] = %r" % (name, [d.name for d in v.dims]), f)


def op_setattr(name, v):
    def f(db, m):
        setattr(db, name, v.real())
        m = m.clone()
        m.put(name, v)
        return db, m, True, True
    return Named("db.%s = %r" % (name, [d.name for d in v.dims]), f)


def op_setivar(name):
    def f(db, m):
        setattr(db, name, db[name] * 10)
        m = m.clone()
        old = m.ivars[name]
        new = old.sel([x * 10 for x in old.labels])
        return db, replace(m, name, new), True, True
    return Named("db.%s = db.%s*10" % (name, name), f)


def replace(m, name, new):
    m = m.clone()
    m.ivars = collections.OrderedDict(
        (new.name, new) if k == name else (k, d) for k, d in m.ivars.items())
    for k, v in m.vars.items():
        m.vars[k] = v.to(swap_dim(v.l, name, new))
    if m.xname == name:
        m.xname = new.name
    return m


def op_element(mat, elem, v, label):
    def f(db, m):
        setattr(db, "%s%d%d" % (mat, elem[0] + 1, elem[1] + 1), v.real())
        m = m.clone()
        s = m.vars[mat]
        ij = [d for d in s.dims if d.kind in ("mi", "mj")]
        ik = [d for d in ij if d.kind == "mi"][0]
        jk = [d for d in ij if d.kind == "mj"][0]
        cells = []
        for c in s.l.coords():
            if c[ik.key] == ik.labels[elem[0]] and \
                    c[jk.key] == jk.labels[elem[1]]:
                cells.append(v.l.at(c))
            else:
                cells.append(s.l.at(c))
        m.vars[mat] = s.to(L.fill(s.dims, cells))
        return db, m, "data", True
    return Named("db.%s%d%d = %s" % (mat, elem[0] + 1, elem[1] + 1, label), f)


def op_del(name, item):
    def f(db, m):
        if item:
            del db[name]
        else:
            delattr(db, name)
        m = m.clone()
        m.vars.pop(name, None)
        return db, m, True, True
    return Named("del %s" % name, f)


def op_rename(old, new):
    def f(db, m):
        db.rename(old, new)
        if old in m.ivars:
            d = m.ivars[old]
            return db, replace(m, old, D(d.kind, new, d.labels, d.unit,
                                         d.fmt)), True, True
        m = m.clone()
        if old in m.vars and new not in m.vars:
            m.vars = collections.OrderedDict(
                (new if k == old else k, v) for k, v in m.vars.items())
        elif old in m.vars and new != old:
            v = m.vars.pop(old)
            m.vars[new] = v
        return db, m, True, True
    return Named("rename %s %s" % (old, new), f)


def op_replace_dim(name, kind, how):
    def f(db, m):
        d = m.ivars[name]
        if how == "class":
            new = D(kind, name, d.labels, d.unit, d.fmt)
            db.replace_dim(name, KINDS[kind])
        elif how == "object":
            new = D(kind, name + "_new", ["l%d" % k for k in range(len(d))],
                    "u", "%s")
            db.replace_dim(name, new.real())
        else:
            new = D(kind, name + "_new", [100 + k for k in range(len(d))])
            db.replace_dim(db.ivardata[name], new.real())
        return db, replace(m, name, new), True, True
    return Named("replace_dim %s %s %s" % (name, kind, how), f)


def op_change_dim():
    def f(db, m):
        change_dim(db)
        for n, d in list(m.ivars.items()):
            if d.kind == "sweep":
                m = replace(m, n, D("diag", n, d.labels, d.unit, d.fmt))
        return db, m, True, True
    return Named("change_dim", f)


def permute(m, name, idx):
    m = m.clone()
    d = m.ivars[name]
    m.ivars[name] = d.sel([d.labels[i] for i in idx])
    for k, v in m.vars.items():
        m.vars[k] = v.to(pick_dim(v.l, name, idx))
    return m


def op_sort(by, sign=1):
    def f(db, m):
        if by in m.ivars:
            name, vals = by, m.ivars[by].labels
        else:
            name, vals = m.vars[by].dims[0].name, m.vars[by].l.flat()
        idx = sorted(range(len(vals)), key=lambda i: vals[i] * sign
                     if sign < 0 else vals[i])
        arg = db[by]
        if sign < 0:
            arg = -arg
        db2 = db.sort(arg)
        # the order of equal values is left open
        lab = m.ivars[name].labels
        got = dim_labels(db2.ivardata[name]) if name in db2.ivardata else []
        if len(set(lab)) == len(lab) and sorted(got) == sorted(lab):
            alt = [lab.index(x) for x in got]
            if [vals[i] for i in alt] == [vals[i] for i in idx]:
                idx = alt
        return db2, permute(m, name, idx), False, True
    return Named("sort by %s%s" % ("-" if sign < 0 else "", by), f)


def op_filter(by, pred, label):
    def f(db, m):
        if by in m.ivars:
            name, vals = by, m.ivars[by].labels
        else:
            name, vals = m.vars[by].dims[0].name, m.vars[by].l.flat()
        idx = [i for i, x in enumerate(vals) if pred(x)]
        return (db.filter(pred(db[by])), permute(m, name, idx), False, True)
    return Named("filter %s%s" % (by, label), f)


def op_filter_values(name, sel):
    def f(db, m):
        d = m.ivars[name]
        vals = [d.labels[i] if i < len(d) else 99. for i in sel]
        idx = [i for i in range(len(d)) if d.labels[i] in vals]
        arr = hfarray(KINDS[d.kind](name, vals))
        return db.filter(arr), permute(m, name, idx), False, True
    return Named("filter %s in %r" % (name, sel), f)


def op_squeeze():
    def f(db, m):
        o = m.clone()
        o.xname = None
        for k, v in m.vars.items():
            dims = [d for d in v.dims if len(d) != 1]
            o.vars[k] = v.to(L.fill(dims, v.l.flat()))
        return db.squeeze(), o, False, False
    return Named("squeeze", f)


def op_keep(names):
    def f(db, m):
        o = DB()
        o.blockname = m.blockname
        for n in names:
            if n in m.ivars:
                o.ivars[n] = m.ivars[n]
            elif n in m.vars:
                o.put(n, m.vars[n])
        return db.keep_variables(list(names)), o, False, False
    return Named("keep_variables %r" % (names,), f)


def op_copy(which):
    def f(db, m):
        return getattr(db, which)(), m.clone(), which, True
    return Named(which, f)


def op_outputformat(fmt):
    def f(db, m):
        db.outputformat = fmt
        m = m.clone()
        for k, v in m.vars.items():
            m.vars[k] = V(v.l, v.unit, fmt)
        for k, d in list(m.ivars.items()):
            m = replace(m, k, D(d.kind, d.name, d.labels, d.unit, fmt))
        for k, v in m.vars.items():
            m.vars[k].fmt = fmt
        return db, m, True, True
    return Named("outputformat = %s" % fmt, f)


def op_set_outputformat(name, fmt):
    def f(db, m):
        db.set_outputformat(name, fmt)
        m = m.clone()
        if name in m.vars:
            v = m.vars[name]
            m.vars[name] = V(v.l, v.unit, fmt)
        else:
            d = m.ivars[name]
            m = replace(m, name, D(d.kind, d.name, d.labels, d.unit, fmt))
        return db, m, True, True
    return Named("set_outputformat %s %s" % (name, fmt), f)


GUESS = dict(f="Hz", freq="Hz", Id="A", Vds="V", Ig="A")


def op_guess(arg):
    def f(db, m):
        db.guess_units(arg)
        names = (list(m.ivars) + list(m.vars) if arg is True else
                 [arg] if isinstance(arg, str) else list(arg))
        m = m.clone()
        for n in names:
            u = GUESS.get(n)
            if n in m.ivars and m.ivars[n].unit is None:
                d = m.ivars[n]
                m = replace(m, n, D(d.kind, d.name, d.labels, u, d.fmt))
            elif n in m.vars and m.vars[n].unit is None:
                v = m.vars[n]
                m.vars[n] = V(v.l, u, v.fmt)
        return db, m, True, True
    return Named("guess_units %r" % (arg,), f)


def reps(m):
    return [d for d in m.ivars.values() if d.kind == "rep"]


def op_remove_rep(newname):
    def f(db, m):
        rd = reps(m)
        n = 1
        for d in rd:
            n *= len(d)
        new = D("rep", newname, list(range(n)))
        combos = list(itertools.product(*[d.labels for d in rd]))
        o = DB()
        o.blockname = m.blockname
        for k, d in enumerate(rd):
            o.put(d.name, V(L.fill([new], [c[k] for c in combos]), d.unit))
        for name, v in m.vars.items():
            if not any(d.kind == "rep" for d in v.dims):
                o.put(name, v)
                continue
            first = [d.kind for d in v.dims].index("rep")
            before = v.dims[:first]
            after = [d for d in v.dims[first:] if d.kind != "rep"]
            dims = before + [new] + after
            cells = []
            for c in coords(dims):
                cc = dict(c)
                lab = cc.pop(new.key)
                for d, x in zip(rd, combos[lab]):
                    cc[d.key] = x
                cells.append(v.l.at(cc))
            o.put(name, v.to(L.fill(dims, cells)))
        return db.remove_rep(newname), o, False, False
    return Named("remove_rep %s" % newname, f)


def op_interp(name, labels, mode):
    def f(db, m):
        d = m.ivars[name]
        new = D(d.kind, name, labels, d.unit, d.fmt)
        o = DB()
        o.blockname = m.blockname
        for k, v in m.vars.items():
            if name not in [x.name for x in v.dims]:
                o.put(k, v)
                continue
            dims = [new if x.name == name else x for x in v.dims]
            cells = []
            for c in coords(dims):
                x = c[new.key]
                if x in d.labels:
                    cells.append(v.l.at(c))
                else:
                    lo = max(y for y in d.labels if y < x)
                    hi = min(y for y in d.labels if y > x)
                    a, b = dict(c), dict(c)
                    a[new.key], b[new.key] = lo, hi
                    w = (x - lo) / float(hi - lo)
                    cells.append(v.l.at(a) * (1 - w) + v.l.at(b) * w)
            o.put(k, v.to(L.fill(dims, cells)))
        r = db.interpolate(new.real(), mode)
        return r, o, False, False
    return Named("interpolate %s %r %s" % (name, labels, mode), f)


def op_elements():
    def f(db, m):
        o = DB()
        o.blockname = m.blockname
        for k, v in m.vars.items():
            kinds = [d.kind for d in v.dims]
            if "mi" in kinds and "mj" in kinds:
                di = v.dims[kinds.index("mi")]
                dj = v.dims[kinds.index("mj")]
                rest = [d for d in v.dims if d.kind not in ("mi", "mj")]
                for a, la in enumerate(di.labels):
                    for b, lb in enumerate(dj.labels):
                        cells = []
                        for c in coords(rest):
                            c = dict(c)
                            c[di.key], c[dj.key] = la, lb
                            cells.append(v.l.at(c))
                        o.put("%s%d%d" % (k, a + 1, b + 1),
                              v.to(L.fill(rest, cells)))
            else:
                o.put(k, v)
        return convert_matrices_to_elements(db), o, False, False
    return Named("convert_matrices_to_elements", f)


def op_xname(name):
    def f(db, m):
        db.xname = name
        m = m.clone()
        m.xname = name
        if not np.asarray(db.xvalue).tolist() == m.ivars[name].labels:
            raise AssertionError("xvalue")
        return db, m, True, True
    return Named("xname = %s" % name, f)


def op_hyper(names, rep, indexed, all_):
    def f(db, m):
        d = m.ivars[rep]
        vals = [m.vars[n].l.flat() for n in names]
        uniq = []
        for v in vals:
            u = []
            for x in v:
                if x not in u:
                    u.append(x)
            uniq.append(u)
        dims = [D("sweep", n + "_index" if indexed else n, u, m.vars[n].unit)
                for n, u in zip(names, uniq)]
        combos = list(zip(*vals))
        full = sorted(combos) == sorted(itertools.product(*uniq))
        if not full:
            try:
                db.hyper(list(names), rep, indexed=indexed, all=all_)
            except ValueError:
                return db, m, True, True
            raise AssertionError("hyper accepted values that are no "
                                 "hypercube: %r" % (combos,))
        where = dict((c, lab) for c, lab in zip(combos, d.labels))
        o = DB()
        o.blockname = m.blockname
        for e in dims:
            o.ivars[e.name] = e
        for k, v in m.vars.items():
            if rep not in [x.name for x in v.dims]:
                if all_:
                    o.put(k, v)
                continue
            if k in o.ivars:
                continue
            nd = []
            for x in v.dims:
                nd += dims if x.name == rep else [x]
            cells = []
            for c in coords(nd):
                cc = dict(c)
                cc[d.key] = where[tuple(c[e.key] for e in dims)]
                cells.append(v.l.at(cc))
            o.put(k, v.to(L.fill(nd, cells)))
        for k, e in m.ivars.items():
            if k not in o.ivars and k not in o.vars and k != rep:
                o.ivars[k] = e
        return (db.hyper(list(names), rep, indexed=indexed, all=all_), o,
                False, False)
    return Named("hyper %r %s indexed=%r all=%r" % (names, rep, indexed,
                                                    all_), f)


def initial(which):
    m = DB()
    m.blockname = "block"
    if which == "measurement":
        m.put("a", var([F], 0, "V", "%.2f"))
        m.put("b", var([R, F], 3))
        m.put("S", var([F, I, J], 5, conv=lambda x: complex(x, x + 1)))
        m.put("c", var([], 2, "K"))
        m.put("Id", var([F, R], 1))
        m.put("t", var([F], 4, conv=lambda x: "s%d" % x))
    elif which == "plain":
        m.put("b", var([P, F], 3, "V"))
        m.put("W", var([P, J, I], 1))
        m.ivars["q"] = Q
    elif which == "reps":
        r2 = D("rep", "k", [1, 2, 3], unit="s")
        m.put("a", var([R, F, r2], 0, "V", "%.2f"))
        m.put("b", var([r2, R], 3))
        m.put("c", var([F, r2], 5, conv=int))
        m.put("d", var([F], 2))
        m.put("e", var([R, I, J], 2))
    elif which == "flat":
        n = D("rep", "INDEX", [0, 1, 2, 3])
        m.put("x", V(L.fill([n], [2., 2., 1., 1.]), "V"))
        m.put("y", V(L.fill([n], [7, 3, 3, 7])))
        m.put("u", V(L.fill([n], [1, 1, 2, 2])))
        m.put("z", var([n], 0, "A", "%.2f"))
        m.put("w", var([F, n, Q], 3))
        m.put("g", var([F], 1))
    elif which == "large":
        f = D("sweep", "f", [float((k * 37) % 101) for k in range(101)],
              unit="Hz", fmt="%.3f")
        g = D("sweep", "g", list(range(12)), unit="V")
        h = D("diag", "h", [7, 3])
        i, j = D("mi", "i", [0, 1, 2]), D("mj", "j", [0, 1, 2])
        m.put("a", var([f], 0, "V", "%.2f"))
        m.put("S", var([f, i, j], 5, conv=lambda x: complex(x, x + 1)))
        m.put("b", var([R, g, h, P, Q], 3))
        m.put("Id", var([f, R], 1))
        m.put("t", var([f], 4, conv=lambda x: "s%d" % x))
        for k in range(20):
            m.put("v%d" % k, var([[f], [g], [h, R], [], [Q]][k % 5], k,
                                 "u%d" % k))
    elif which == "large flat":
        n = D("rep", "INDEX", list(range(120)))
        xs = [k * 53 % 120 for k in range(120)]
        m.put("x", V(L.fill([n], [(k // 10) * .5 for k in xs]), "V"))
        m.put("y", V(L.fill([n], [k % 10 for k in xs])))
        m.put("u", V(L.fill([n], [k % 11 for k in xs])))
        m.put("z", var([n], 0, "A", "%.2f"))
        m.put("w", var([F, n, Q], 3))
        m.put("g", var([F], 1))
    elif which == "large reps":
        r2 = D("rep", "k", list(range(40)), unit="s")
        r3 = D("rep", "l", [2, 1])
        m.put("a", var([R, F, r2, r3], 0, "V", "%.2f"))
        m.put("b", var([r3, r2, R], 3))
        m.put("c", var([F, r2], 5, conv=int))
        m.put("e", var([R, I, J], 2))
    elif which == "empty":
        pass
    return m


def ops(m, core):
    out = []
    sweeps = [k for k, d in m.ivars.items()
              if d.kind in ("sweep", "rep", "diag")]
    nums = [k for k in sweeps
            if all(isinstance(x, (int, float)) for x in m.ivars[k].labels)]
    one = [k for k, v in m.vars.items() if len(v.dims) == 1]
    onenum = [k for k in one if m.vars[k].l.flat() and
              all(isinstance(x, (int, float)) for x in m.vars[k].l.flat())]
    mats = [k for k, v in m.vars.items()
            if set(("mi", "mj")) <= set(d.kind for d in v.dims)]
    vs = list(m.vars)
    fdim = m.ivars.get("f", F)
    rdim = m.ivars.get("r", R)
    if "r" in m.vars:
        rdim = m.ivars["AllReps"] if "AllReps" in m.ivars else Q
    pdim, qdim = m.ivars.get("p", P), m.ivars.get("q", Q)
    out.append(op_set("n", var([rdim, fdim], 6, "W", "%.1f")))
    out += [op_sort(k) for k in (nums + onenum)[:2 if core is True else None]]
    out += [op_filter(k, lambda x: x < 3, "<3")
            for k in (nums + onenum)[:2 if core is True else None]]
    out += [op_copy(w) for w in ("copy", "view")]
    out += [op_rename(k, k + "_x") for k in (sweeps[:1] + vs[:1] if core is True
                                             else sweeps + vs)]
    out.append(op_keep(tuple(vs[1:3] + sweeps[:1])))
    out.append(op_remove_rep("AllReps") if reps(m) and "AllReps" not in
               m.ivars else op_squeeze())
    for k in mats[:1]:
        base = [d for d in m.vars[k].dims if d.kind not in ("mi", "mj")]
        out.append(op_element(k, (0, 1), var(base[::-1], 8), "all dims"))
        out.append(op_element(k, (1, 0), var([], 8, conv=lambda x: x + 2j),
                              "complex scalar"))
    out += [op_setivar(k) for k in nums[:1]]
    out.append(op_guess(True))
    if "INDEX" in m.ivars:
        out += [op_hyper(n, "INDEX", i, a)
                for n in (("x", "y"), ("y", "x"), ("x", "u"), ("z",))
                if all(k in m.vars and [d.name for d in m.vars[k].dims] ==
                       ["INDEX"] for k in n)
                for i in (False, True) for a in (False, True)]
    if core is True:
        return out
    if core == "slim":
        vs, sweeps, nums, onenum = vs[:3], sweeps[:2], nums[:2], onenum[:1]
    out.append(op_setattr("n2", var([fdim, pdim], 7)))
    if vs:
        out.append(op_set(vs[0], var([qdim, fdim], 2)))
        out.append(op_set(vs[-1] + "12", var([fdim], 9))
                   if vs[-1] not in mats else op_set("S11_raw",
                                                     var([fdim], 9)))
    out.append(op_set("c0", var([], 9)))
    out += [op_sort(k, -1) for k in nums + onenum]
    out += [op_filter(k, lambda x: x > 100, ">100") for k in nums[:1]]
    out += [op_filter_values(k, s) for k in nums
            for s in ([1], [2, 0], [0, 5], [])]
    out += [op_del(k, i % 2) for i, k in enumerate(vs)]
    out.append(op_del("missing", True))
    out.append(op_rename("missing", "x"))
    if len(vs) > 1:
        out.append(op_rename(vs[0], vs[1]))
        out.append(op_rename(vs[1], vs[0]))
    out += [op_rename(k, k) for k in sweeps[:1] + vs[:1]]
    out += [op_replace_dim(k, kind, how) for k in sweeps
            for kind, how in (("rep", "class"), ("diag", "class"),
                              ("sweep", "object"), ("rep", "old object"))]
    out.append(op_change_dim())
    out.append(op_squeeze())
    out += [op_keep(()), op_keep(tuple(vs)), op_keep(tuple(sweeps[:1] +
                                                          vs[:1]))]
    out.append(op_outputformat("%.4e"))
    out += [op_set_outputformat(k, "%.1f") for k in vs + list(m.ivars)]
    out += [op_guess(k) for k in ("Id", ["f", "Id"])]
    out.append(op_elements())
    out += [op_xname(k) for k in sweeps]
    strs = any(isinstance(x, str) for v in m.vars.values()
               for x in v.l.flat())
    for k in nums:
        lab = m.ivars[k].labels
        if len(lab) > 1:
            out.append(op_interp(k, [lab[-1], lab[0]], None))
            out.append(op_interp(k, [lab[0]], "none"))
            if not strs and min(lab) < max(lab):
                mid = sorted(set(lab))
                out.append(op_interp(k, [(mid[0] + mid[1]) / 2., mid[1]],
                                     "linear"))
    return out


def histories(starts, depth, core):
    def fn(ctx):
        m = initial(ctx.choose("block", starts))
        db = m.real()
        invariant(ctx, db, m, "initial")
        ctx.state(m.key())
        others = []
        for k in range(depth):
            last = k == depth - 1
            if core == "last":
                alphabet = False if last else True
            elif core == "slim":
                alphabet = "slim" if k else False
            else:
                alphabet = core
            op = ctx.choose("operation", ops(m, alphabet))
            try:
                db2, m2, how, ordered = op(db, m)
            except AssertionError as exc:
                ctx.fail("%s: %s" % (op.__mc_name__, exc))
            ctx.step()
            what = "after %s" % op.__mc_name__
            if not ordered:
                invariant(ctx, db2, m2, what, False)
                m2 = m2.clone()
                m2.xname = db2.xname
                m2.vars = collections.OrderedDict(
                    (n, m2.vars[n]) for n in db2.vardata.keys())
                m2.ivars = collections.OrderedDict(
                    (n, m2.ivars[n]) for n in db2.ivardata.keys())
            else:
                invariant(ctx, db2, m2, what)
            if how == "data":
                # stored data changed: only copies are independent
                others = [o for o in others if o[2] == "copy"]
            elif how is not True:
                if how == "copy":
                    others = [(d, mm, "copy") for d, mm, _ in others]
                others.append((db, m, "copy" if how == "copy" else "view"))
            for d, mm, _ in others:
                invariant(ctx, d, mm, "%s: earlier block" % what)
            db, m = db2, m2
            ctx.state(m.key())
        invariant(ctx, db, m, "finally", report=True)
        ctx.observe(m.key())
    return fn


def elements(ctx):
    """element names read and write exactly that element, nothing else"""
    store = ctx.choose("matrix dims", [(F, I, J), (I, J), (J, F, I),
                                       (F, R, I, J), (I, F, J)])
    dt = ctx.choose("dtype", ["float", "complex", "int"])
    name = ctx.choose("name", ["S11", "S12", "S21", "S22", "S33", "S13",
                               "S10", "S01", "S1", "S111", "S11x", "S11_1",
                               "V12", "T11"])
    vdt = ctx.choose("value", ["float", "complex", "int"])
    conv = dict(float=float, complex=lambda x: complex(x, -x), int=int)
    m = DB()
    m.blockname = "b"
    m.put("S", var(list(store), 0, "V", conv=conv[dt]))
    m.put("V", var([F, R], 3))
    outer = [d for d in store if d.kind not in ("mi", "mj")]
    vd = ctx.choose("value dims", [outer, outer[::-1], outer[:1], []])
    v = var(vd, 7, conv=conv[vdt])
    db = m.real()
    ctx.step()
    isel = name in ("S11", "S12", "S21", "S22")
    if isel:
        e = (int(name[1]) - 1, int(name[2]) - 1)
        want = op_element("S", e, v, "v")
        _r, m2, _h, _o = want(db, m)
        # complex matrices become complex, otherwise nothing else changes
        invariant(ctx, db, m2, "db.%s = value" % name)
        got = db[name]
        full = L.fill(outer, [v.l.at(c) for c in coords(outer)])
        if not outer and not hasattr(got, "dims"):
            got = hfarray(got, dims=())
        compare(ctx, got, full, "db.%s" % name)
    elif name in ("S33", "S13"):
        try:
            db[name] = v.real()
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, "setting %s of a 2x2 matrix worked" % name)
        invariant(ctx, db, m, "after failing %s" % name)
        for f in (lambda: db[name], lambda: getattr(db, name)):
            try:
                f()
                ok = True
            except (KeyError, IndexError, AttributeError):
                ok = False
            ctx.check(not ok, "%s of a 2x2 matrix exists" % name)
    else:
        try:
            db[name]
            there = True
        except KeyError:
            there = False
        ctx.check(not there, "%s exists before it is set" % name)
        setattr(db, name, v.real())
        m.put(name, v)
        invariant(ctx, db, m, "db.%s = value" % name)
    ctx.state((repr(store), dt, name, vdt, repr(vd)))
    ctx.observe(np.asarray(db.S).tolist())


def ports(ctx):
    """elements of matrices of many sizes"""
    n = ctx.choose("ports", [1, 3, 4, 9])
    store = ctx.choose("order", ["fij", "ifj", "jif"])
    dims = dict(f=F, i=D("mi", "i", list(range(n))),
                j=D("mj", "j", list(range(n))))
    m = DB()
    m.blockname = "b"
    m.put("S", var([dims[x] for x in store], 0, "V"))
    m.put("Z", var([F, R], 0, "V"))
    db = m.real()
    a = ctx.choose("row", range(n))
    b = ctx.choose("column", range(n))
    v = var([F], 11)
    name = "S%d%d" % (a + 1, b + 1)
    got = db[name]
    want = [m.vars["S"].l.at({dims["f"].key: x, dims["i"].key: a,
                              dims["j"].key: b}) for x in F.labels]
    ctx.check(np.asarray(got).tolist() == want, lambda: "%s is %r, expected "
              "%r" % (name, got, want))
    db, m, _h, _o = op_element("S", (a, b), v, "v")(db, m)
    invariant(ctx, db, m, "db.%s = value" % name)
    parts, want, _h, _o = op_elements()(db, m)
    invariant(ctx, parts, want, "elements", False)
    ctx.step()
    ctx.state((n, store, a, b))
    ctx.observe(np.asarray(db.S).tolist())


UNITLESS = [None, "mA", "A"]


def units(ctx):
    """guess_units fills in what is missing and nothing else"""
    u1 = ctx.choose("unit of Id", UNITLESS)
    u2 = ctx.choose("unit of the dimension f", [None, "kHz"])
    u3 = ctx.choose("unit of foo", [None, "V"])
    pu = ctx.choose("unit of property Ig", UNITLESS)
    pv = ctx.choose("property Ig is", ["absent", "a value", "zero",
                                       "an array", "text", "a number"])
    arg = ctx.choose("argument", [
        True, False, None, "not given", "Id", "f", "foo", "missing", "Ig",
        ["Id", "f"], ("Ig", "Id"), {"f"}, {"Id": 1, "foo": 2}, []])
    dim = D("sweep", "f", [1., 3.], unit=u2, fmt="%.3f")
    m = DB()
    m.blockname = "b"
    m.put("Id", var([dim], 0, u1, "%.1f"))
    m.put("foo", var([dim, R], 3, u3))
    m.put("Vds", var([R], 5))
    db = m.real()
    keep = np.asarray(db.Id)
    if pv != "absent":
        db.comments = Comments()
        db.comments.property["Ig"] = {
            "a value": hfarray(2.5, unit=pu), "zero": hfarray(0., unit=pu),
            "an array": hfarray([1., 2.], unit=pu), "text": "lots",
            "a number": 3}[pv]
    if arg == "not given":
        db.guess_units()
        arg = True
    else:
        db.guess_units(arg)
    ctx.step()
    if arg is True:
        names = ["Id", "f", "foo", "Vds", "Ig"]
    else:
        names = [arg] if isinstance(arg, str) else list(arg or [])
    w1 = "A" if u1 is None and "Id" in names else u1
    w2 = "Hz" if u2 is None and "f" in names else u2
    w4 = "V" if "Vds" in names else None
    wp = "A" if pu is None and "Ig" in names else pu
    got = (db.Id.unit, db.f.unit, db.foo.unit, db.Vds.unit)
    ctx.check(got == (w1, w2, u3, w4), lambda: "units %r, expected %r"
              % (got, (w1, w2, u3, w4)))
    for v in ("Id", "foo"):
        ctx.check(db[v].dims[0] == db.ivardata["f"] and
                  db[v].dims[0].unit == w2 and
                  dim_labels(db[v].dims[0]) == dim.labels,
                  lambda: "the dimension of %s is %r" % (v, db[v].dims[0]))
    ctx.check(db.Id.outputformat == "%.1f" and
              db.ivardata["f"].outputformat == "%.3f", "a format changed")
    ctx.check(np.array_equal(np.asarray(db.Id), keep), "a value changed")
    if pv != "absent":
        p = db.comments.property["Ig"]
        if pv == "text":
            ctx.check(p == "lots", lambda: "property %r" % p)
        elif pv == "a number":
            ctx.check(p == 3, lambda: "property %r" % p)
        else:
            ctx.check(p.unit == wp and np.asarray(p).tolist() == {
                "a value": 2.5, "zero": 0., "an array": [1., 2.]}[pv],
                lambda: "property %r %r, expected %r" % (p, p.unit, wp))
    ctx.state((u1, u2, u3, pu, pv, repr(arg)))
    ctx.observe((got, pv))


def properties(ctx):
    """properties become variables unless the name is taken"""
    values = [Named("an int", 7), Named("a float", 2.5), Named("a text", "me"),
              Named("a value", hfarray(1.5, unit="V")),
              Named("an array", hfarray([1., 2.], unit="V")),
              Named("a date", np.datetime64("2012-01-02T03:04:05")),
              Named("a numpy int", np.int32(4)), Named("zero", 0),
              Named("empty text", "")]
    v = ctx.choose("value", values).value
    name = ctx.choose("name", ["new", "Id", "f", "a b", "S", "S11"])
    second = ctx.flag("second property")
    dim = DimSweep("f", [1., 3.])
    db = DataBlock()
    db.Id = hfarray([5., 6.], dims=(dim,), unit="A")
    db.S = hfarray(np.arange(8.).reshape(2, 2, 2), dims=(
        dim, DimMatrix_i("i", 2), DimMatrix_j("j", 2)))
    db.comments = Comments()
    db.comments.property[name] = v
    if second:
        db.comments.property["other"] = 3.25
    db.values_from_property()
    ctx.step()
    ctx.check(np.asarray(db.Id).tolist() == [5, 6] and db.Id.unit == "A" and
              np.asarray(db.S).ravel().tolist() == list(range(8)) and
              dim_labels(db.ivardata["f"]) == [1., 3.] and
              "f" not in db.vardata, "what the block had changed")
    if name not in ("Id", "f", "S", "S11"):
        ctx.check(name in db.vardata, lambda: "no %r in %r" % (name, db))
        got = db[name]
        ctx.check(np.asarray(got).tolist() == np.asarray(v).tolist() and
                  got.unit == getattr(v, "unit", None),
                  lambda: "%r became %r" % (v, got))
    ctx.check(("other" in db.vardata) == second and
              (not second or float(db["other"]) == 3.25), "other property")
    ctx.state((name, repr(v), second))
    ctx.observe((name, repr(v)))


def names(ctx):
    """the name of a block is the one given, else the first file's"""
    given = ctx.choose("name", [None, "blk", u"\u03a9"])
    files = ctx.choose("FILENAME", [None, ["a.txt"], ["a.txt", "b.txt"],
                                    ["z.txt", "b.txt", "a.txt"]])
    db = DataBlock()
    db.x = hfarray([1., 2.], dims=(DimSweep("f", [1., 3.]),))
    if files:
        db.FILENAME = hfarray(np.array(files), dims=(
            DimRep("FILEINDEX", len(files)),))
    db.blockname = given
    ctx.step()
    want = given if given is not None else files[0] if files else None
    for d in (db, db.copy(), db.view(), db.squeeze()):
        ctx.check(d.blockname == want, lambda: "blockname %r, expected %r"
                  % (d.blockname, want))
    ctx.state((given, tuple(files or ())))
    ctx.observe(want)


def near(ctx):
    """labels are selected by equality, however close others are"""
    base = ctx.choose("label", [1., -2.5, 1e9, 1e-12, 0.1])
    step = ctx.choose("step", [1e-3, 1e-7, 1e-12, 2e-16])
    labels = [base * (1 + k * step) for k in range(4)]
    if len(set(labels)) < 4:
        labels = [base] + [float(np.nextafter(base, base * 2)), base * 2,
                           base * 3]
    some = ctx.subset("wanted", range(4))
    dim = DimSweep("f", labels)
    db = DataBlock()
    db.x = hfarray([10., 11., 12., 13.], dims=(dim,))
    if not some:
        raise Prune("an empty selection has no type")
    want = hfarray(DimSweep("f", [labels[k] for k in some]))
    other = ctx.choose("another dimension", [None, "first", "last"])
    one = DimRep("r", [labels[0]])
    db.y = hfarray([[5., 6., 7., 8.]], dims=(one, dim))
    sel = want
    mask = hfarray([k in some for k in range(4)], dims=(dim,))
    if other:
        sel, mask = [hfarray(
            np.asarray(x)[None] if other == "first" else
            np.asarray(x)[:, None], dims=(one,) + x.dims
            if other == "first" else x.dims + (one,)) for x in (want, mask)]
    if other and len(some) == 1:
        raise Prune("two dimensions of length one")
    results = [("filter", db.filter(sel)), ("filter by mask", db.filter(mask))]
    if not other:
        results.append(("interpolate", db.interpolate(want)))
    for what, got in results:
        ctx.check(np.asarray(got.y).tolist() == [[5. + k for k in some]] and
                  dim_labels(got.y.dims[0]) == [labels[0]],
                  lambda: "%s gave %r" % (what, got.y))
        ctx.step()
        ctx.check(np.asarray(got.x).tolist() == [10. + k for k in some] and
                  dim_labels(got.x.dims[0]) == [labels[k] for k in some],
                  lambda: "%s %r of %r gave %r" % (what, some, labels, got.x))
    ctx.state((base, step, tuple(some)))
    ctx.observe(tuple(some))


def elsewhere(ctx):
    """sorting, filtering and interpolating along a dimension which the
    block does not have changes nothing"""
    m = initial(ctx.choose("block", ["measurement", "plain", "reps", "flat",
                                     "empty"]))
    db = m.real()
    other = D("sweep", "zz", [2., 1., 3.])
    how = ctx.choose("how", ["sort dim", "sort array", "filter values",
                             "interpolate"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "sort dim":
            out = db.sort(other.real())
        elif how == "sort array":
            out = db.sort(var([other], 2).real())
        elif how == "filter values":
            out = db.filter(hfarray(other.real()))
        else:
            out = db.interpolate(other.real())
    ctx.step()
    ctx.check(out is not db, "%s returned the block itself" % how)
    if how == "interpolate":
        ctx.check(list(out.vardata) == list(db.vardata) and all(
            np.array_equal(np.asarray(out[v]), np.asarray(db[v])) and
            out[v].dims == db[v].dims for v in db.vardata),
            "interpolate changed a variable")
    else:
        invariant(ctx, out, m, how)
    invariant(ctx, db, m, "the block after %s" % how)
    ctx.state(how)
    ctx.observe(how)


def groups(ctx):
    """a block split in parts with the same dimensions loses nothing"""
    menu = [[], [F], [R], [F, R], [R, F], [F, Q], [F, R, Q], [R, Q], [Q]]
    n = ctx.choose("variables", [0, 1, 2, 3])
    db = DataBlock()
    dims = {}
    for k in range(n):
        d = ctx.choose("dims %d" % k, menu)
        l = L.fill(d, [100. * (k + 1) + 2 * q for q in range(
            int(np.prod([len(x) for x in d])))])
        db["v%d" % k] = l.real(unit="V")
        dims["v%d" % k] = (d, l)
    seen = []
    for gdims, part in yield_dim_consistent_datablocks(db):
        ctx.step()
        ctx.check(isinstance(part, DataBlock), "not a block")
        want = set(k for k, (d, _) in dims.items() if
                   set(x.name for x in d) in
                   (set(x.name for x in gdims),
                    set(x.name for x in gdims[1:])))
        ctx.check(set(part.vardata) == want, lambda: "part over %r has %r, "
                  "expected %r" % (gdims, list(part.vardata), sorted(want)))
        for k in part.vardata:
            compare(ctx, part[k], dims[k][1], k, order=None)
            ctx.check(part[k].unit == "V", "unit")
        seen.extend(part.vardata)
    ctx.check(set(seen) == set(dims), lambda: "variables %r of %r" % (
        sorted(set(seen)), dims))
    # a part by its dimensions
    pick = ctx.choose("part", menu)
    part = subset_datablock_by_dims(db, tuple(x.real() for x in pick))
    ctx.step()
    sets = [set(x.name for x in pick), set(x.name for x in pick[1:])]
    want = [k for k, (d, _) in dims.items()
            if set(x.name for x in d) in sets]
    ctx.check(sorted(part.vardata) == sorted(want), lambda: "part %r has %r, "
              "expected %r" % (pick, list(part.vardata), want))
    if pick:
        try:
            subset_datablock_by_dims(db, tuple(x.real() for x in
                                               pick + pick[:1]))
        except ValueError:
            pass
        else:
            ctx.fail("a dimension given twice was accepted")
    ctx.check(sorted(db.vardata) == sorted(dims), "the block was changed")
    ctx.state((repr(sorted((k, repr(d[0])) for k, d in dims.items())),
               repr(pick)))
    ctx.observe((n, len(seen), sorted(want)))


def misc(ctx):
    """errors leave the block alone"""
    m = initial(ctx.choose("block", ["measurement", "plain", "reps"]))
    db = m.real()
    acts = [
        Named("replace_dim missing", lambda: db.replace_dim("zz", KINDS[
            "rep"])),
        Named("replace_dim missing object", lambda: db.replace_dim(
            D("sweep", "zz", [1]).real(), KINDS["rep"])),
        Named("set_outputformat missing", lambda: db.set_outputformat(
            "zz", "%d")),
        Named("set ivar 2d", lambda: setattr(
            db, "f", var([F, R], 0).real())),
        Named("filter 2d", lambda: db.filter(db.b > 0)),
        Named("sort 2d", lambda: db.sort(db.b)),
        Named("getitem missing", lambda: db["zz"]),
        Named("getattr missing", lambda: db.zz),
        Named("getitem element of non matrix", lambda: db["b11"]),
    ]
    act = ctx.choose("act", acts)
    errs = (KeyError, DataBlockError, AttributeError, ValueError)
    if act.__mc_name__ in ("filter 2d", "sort 2d"):
        ok2 = len([d for d in m.vars["b"].dims if len(d) > 1]) > 1
        if not ok2:
            return
    try:
        act()
        ok = True
    except errs:
        ok = False
    ctx.step()
    ctx.check(not ok, "%s did not raise" % act.__mc_name__)
    invariant(ctx, db, m, "after %s" % act.__mc_name__)
    ctx.check("zz" not in db and "b" in db, "membership")
    ctx.state(act.__mc_name__)
    ctx.observe(act.__mc_name__)


def spaces(tier):
    q = tier == "quick"
    starts = ["measurement", "plain", "reps", "flat", "empty"]
    deep = [] if q else [
        Space("histories-3", histories(starts, 3, "last"),
              "core operations followed by every operation")]
    return deep + [
        Space("histories-2", histories(starts, 2, "slim" if q else False),
              "all sequences of 2 operations over the full alphabet"),
        Space("histories-core", histories(starts, 3 if q else 4, True),
              "all longer sequences over the core alphabet"),
        Space("elements", elements, "matrix element names"),
        Space("ports", ports, "every element of matrices of 1 to 9 ports"),
        Space("large", histories(["large", "large flat", "large reps"], 1
                                 if q else 2, False if q else "slim"),
              "long dimensions, many dimensions and variables"),
        Space("units", units, "all mixtures of known and missing units"),
        Space("elsewhere", elsewhere, "dimensions the block lacks"),
        Space("properties", properties, "kinds of properties x names"),
            Space("names", names, "block names and file names"),
            Space("near", near, "labels close to each other"),
            Space("groups", groups, "blocks of up to 3 variables over 9 sets of "
              "dimensions split by dimensions"),
        Space("misc", misc, "refused operations leave the block alone"),
    ]
