# -*- coding: utf-8 -*-
"""Blocks to save and what has to come back when they are read."""
import itertools

import numpy as np

from mc.labelled import D, L, compare, coords, hfarray
from hftools.dataset import DataBlock
from hftools.file_formats.common import Comments

MULT = {"mV": (1e-3, "V"), "GHz": (1e9, "Hz"), "kHz": (1e3, "Hz"),
        "uA": (1e-6, "A"), "mA": (1e-3, "A"), "MHz": (1e6, "Hz"), "ms": (1e-3, "s")}
# units hftools guesses from names of variables without unit
GUESS = {"freq": "Hz", "f": "Hz", "Vds": "V", "Vgs": "V", "Id": "A"}


def si(unit):
    """multiplier, SI unit"""
    return MULT.get(unit, (1, unit))


NORMAL = [1.25, -2.5, 3.0000000001, 1e-9, 12345678.9, -0.1, 7.0, 2.0 ** -20,
          1 / 3., 2 / 7., -1e6, 55.5, 1e3, 4.4, -8.75, 9.5, 0.3, -0.7]
EXTREME = [0.0, -1.7976931348623157e+308, 5e-324, 2.2250738585072014e-308,
           1.7976931348623157e+308, -1e-300, 1 + 2.0 ** -52, float("inf"),
           -float("inf"), 123456789012345678.0, -0.0, 1e22]


def numbers(kind, n, start=0, pool=NORMAL):
    """n distinctive values"""
    out = []
    for k in range(n):
        v = pool[(start + k) % len(pool)]
        if pool is NORMAL:
            v = v * (1 + (start + k) // len(pool))
        if kind == "int":
            v = (start + k) * 7 - 5
        elif kind == "complex":
            w = pool[(start + 3 * k + 1) % len(pool)]
            v = complex(v, w)
        out.append(v)
    return out


def through(fmt, v):
    """Value after being written with *fmt* and read again."""
    if isinstance(v, complex):
        return complex(float(fmt % v.real), float(fmt % v.imag))
    return float(fmt % v)


class Var(object):
    """Variable of a block: matrix is None or (rows, columns)"""

    def __init__(self, name, kind="real", matrix=None, unit=None, fmt=None,
                 first=False, pool=NORMAL, dims=None):
        self.name = name
        self.kind = kind
        self.matrix = matrix
        self.unit = unit
        self.fmt = fmt
        self.first = first      # matrix dimensions before the others
        self.pool = pool
        self.dims = dims
        self.__mc_name__ = "%s:%s%s%s%s%s" % (
            name, kind, "" if matrix is None else "%dx%d" % matrix,
            "[%s]" % unit if unit else "", fmt or "",
            " ij first" if first else "")

    def __repr__(self):
        return self.__mc_name__

    def model(self, dims, seed):
        mdims = []
        if self.matrix:
            mdims = [D("mi", "i", range(self.matrix[0])),
                     D("mj", "j", range(self.matrix[1]))]
        alld = list(dims) + mdims
        n = int(np.prod([len(d) for d in alld])) if alld else 1
        m = L.fill(alld, numbers(self.kind, n, seed, self.pool))
        return m, (mdims + list(dims) if self.first else alld)

    @property
    def outfmt(self):
        if self.fmt:
            return self.fmt
        return "%d" if self.kind == "int" else "%.16e"

    def real(self, m, order):
        a = L(order, m.cells).real(
            dtype={"int": int, "complex": complex}.get(self.kind, float),
            unit=self.unit)
        if self.fmt:
            a.outputformat = self.fmt
        return a

    def written(self, m, scale=True):
        """model of the variable as read from a text file"""
        mul = si(self.unit)[0] if scale else 1
        return L(m.dims, dict((k, through(self.outfmt, v) * mul)
                              for k, v in m.cells.items()))


def dim_written(d, scale=True):
    fmt = d.fmt
    if fmt is None:
        fmt = "%d" if all(isinstance(x, int) for x in d.labels) else "%.16e"
    mul, unit = si(d.unit) if scale else (1, d.unit)
    return D(d.kind, d.name, [float(fmt % x) * mul for x in d.labels],
             unit or GUESS.get(d.name))


def relabel(m, old, new):
    """model with the labels of dimension *old* replaced by those of *new*"""
    tr = dict((((d.key, x)), (e.key, y)) for d, e in zip(old, new)
              for x, y in zip(d.labels, e.labels))
    keep = [dict((d.key, e) for d, e in zip(old, new)).get(d.key, d)
            for d in m.dims]
    return L(keep, dict((frozenset(tr.get(p, p) for p in k), v)
                        for k, v in m.cells.items()))


def collapse(m, outer, index):
    """model with dimensions *outer* replaced by one index dimension"""
    keep = [d for d in m.dims if d.key not in [o.key for o in outer]]
    cells = {}
    for n, c in enumerate(coords(outer)):
        for k in coords(keep):
            full = dict(c)
            full.update(k)
            k = dict(k)
            k[index.key] = index.labels[n]
            cells[frozenset(k.items())] = m.at(full)
    return L(keep + [index], cells)


def drop(m, dims):
    """model without the dimensions *dims* of length one"""
    keys = [d.key for d in dims]
    keep = [d for d in m.dims if d.key not in keys]
    return L(keep, dict((frozenset(p for p in k if p[0] not in keys), v)
                        for k, v in m.cells.items()))


def column(dim, outer, index):
    """model of variable holding the labels of outer dimension *dim*"""
    cells = {}
    for n, c in enumerate(coords(outer)):
        cells[frozenset([(index.key, index.labels[n])])] = c[dim.key]
    return L([index], cells)


def expect(ctx, db, name, want, unit, what, tol=0, order=None):
    ctx.check(name in db.vardata, lambda: "%s: no variable %r in %r"
              % (what, name, db.vardata.keys()))
    got = db.vardata[name]
    compare(ctx, got, want, "%s: %s" % (what, name), tol=tol, order=order)
    ctx.check(got.unit == unit, lambda: "%s: unit of %s is %r, expected %r"
              % (what, name, got.unit, unit))
    for d in want.dims:
        if d.kind in ("mi", "mj"):
            continue
        expect_dim(ctx, db, d, what)


def expect_dim(ctx, db, d, what, unit=True):
    ctx.check(d.name in db.ivardata, lambda: "%s: no dimension %r in %r"
              % (what, d.name, db.ivardata.keys()))
    got = db.ivardata[d.name]
    lab = np.asarray(got.data).tolist()
    ctx.check(lab == d.labels, lambda: "%s: dimension %s has labels %r, "
              "expected %r" % (what, d.name, lab, d.labels))
    if unit:
        ctx.check(got.unit == d.unit, lambda: "%s: unit of dimension %s is "
                  "%r, expected %r" % (what, d.name, got.unit, d.unit))


def expect_only(ctx, db, variables, dims, what):
    got = set(db.vardata.keys())
    want = set(variables)
    ctx.check(got == want, lambda: "%s: variables %r, expected %r"
              % (what, sorted(got), sorted(want)))
    got = set(db.ivardata.keys())
    ctx.check(got == set(dims), lambda: "%s: dimensions %r, expected %r"
              % (what, sorted(got), sorted(dims)))


def fingerprint(db):
    from mc.props.c10 import fp_block
    return fp_block(db)


def index_dim(n, name="INDEX1"):
    return D("sweep", name, range(n))


def block(dims, variables, comments=None, blockname=None):
    """(DataBlock, {name: (Var, model)})"""
    db = DataBlock()
    models = {}
    for n, v in enumerate(variables):
        m, order = v.model(dims if v.dims is None else v.dims, 5 * n)
        models[v.name] = (v, m)
        db[v.name] = v.real(m, order)
    if comments is not None:
        db.comments = Comments(list(comments))
    if blockname is not None:
        db.blockname = blockname
    return db, models


def many(VARS, n):
    """n variables of different kinds"""
    out = []
    for k in range(n):
        v = VARS[k % 3] if n > 3 else VARS[k]
        out.append(Var("q" + "abcdefghij"[k // 10] + "abcdefghij"[k % 10],
                       v.kind, v.matrix, v.unit, v.fmt))
    return out


LARGE = [
    ("2500 rows", [2500], 3), ("1025 rows", [1025], 1), ("60 blocks", [2, 60],
                                                         2),
    ("300 blocks", [2, 300], 1), ("4 outer", [3, 5, 4, 3, 2], 1),
    ("100 columns", [2], 100), ("100 columns, 2 blocks", [3, 2], 100)]


def large_dims(lengths):
    names = ["freq", "Vx", "T", "A", "C"]
    return [D("sweep", n, [1 + .5 * ((7 * k) % l) for k in range(l)]
              if l % 7 else [1 + .25 * k for k in range(l)])
            for n, l in zip(names, lengths)]
