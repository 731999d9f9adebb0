# -*- coding: utf-8 -*-
"""Boring reference model of a labelled array.

A labelled array is (dims, cells): *dims* is a list of Dim descriptors
(kind, name, labels) in axis order, *cells* maps a frozenset of
(dim-key, label) pairs -- one per dimension -- to the value.  Everything is
computed element by element with plain Python / numpy scalars."""
import itertools

import numpy as np

import h5py  # noqa: F401  (before anything plays with warning filters)
import hftools.dataset as hd
from hftools.dataset import hfarray
from hftools.dataset.dim import (DimSweep, DimRep, DimMatrix_i, DimMatrix_j,
                                 DimPartial, DimAnonymous, DiagAxis)

KINDS = dict(sweep=DimSweep, rep=DimRep, mi=DimMatrix_i, mj=DimMatrix_j,
             partial=DimPartial, anon=DimAnonymous, diag=DiagAxis)
PRIO = dict(sweep=0, partial=0, anon=0, diag=0, rep=1, mi=1000, mj=1001)


class D(object):
    """Dimension descriptor of the model."""

    def __init__(self, kind, name, labels, unit=None, fmt=None):
        self.kind = kind
        self.name = name
        self.labels = list(labels)
        self.unit = unit
        self.fmt = fmt

    @property
    def key(self):
        return (self.kind, self.name)

    def __len__(self):
        return len(self.labels)

    def __repr__(self):
        return "%s:%s%r" % (self.kind, self.name, self.labels)

    def real(self):
        kw = {}
        if self.unit is not None:
            kw["unit"] = self.unit
        if self.fmt is not None:
            kw["outputformat"] = self.fmt
        return KINDS[self.kind](self.name, self.labels, **kw)

    def sel(self, labels):
        return D(self.kind, self.name, labels, self.unit, self.fmt)


def kind_of(dim):
    for k, c in KINDS.items():
        if dim.__class__ is c:
            return k
    return dim.__class__.__name__


class L(object):
    """Model of an array: dims + dense nested data as object ndarray."""

    def __init__(self, dims, cells):
        self.dims = list(dims)
        self.cells = cells

    @classmethod
    def fill(cls, dims, values):
        """values: flat iterable in C order of dims"""
        dims = list(dims)
        cells = {}
        it = iter(values)
        for idx in itertools.product(*[range(len(d)) for d in dims]):
            cells[frozenset((d.key, d.labels[i])
                            for d, i in zip(dims, idx))] = next(it)
        return cls(dims, cells)

    def real(self, dtype=None, **kw):
        shape = tuple(len(d) for d in self.dims)
        a = np.array(self.flat(), dtype=dtype).reshape(shape)
        return hfarray(a, dims=tuple(d.real() for d in self.dims), **kw)

    def at(self, coord):
        """coord: dict key->label (may contain extra dims)."""
        return self.cells[frozenset((d.key, coord[d.key])
                                    for d in self.dims)]

    def coords(self):
        return coords(self.dims)

    def flat(self):
        return [self.at(c) for c in self.coords()]

    def __repr__(self):
        return "L(%r, %r)" % (self.dims, self.flat())


def coords(dims):
    for idx in itertools.product(*[range(len(d)) for d in dims]):
        yield dict((d.key, d.labels[i]) for d, i in zip(dims, idx))


def plain(x):
    """numpy/python scalar -> python scalar for reprs."""
    return np.asarray(x).tolist()


def same(a, b, tol=1e-12):
    """scalar equality up to rounding; nan==nan"""
    try:
        if a == b:
            return True
        if a != a and b != b:
            return True
        return bool(abs(a - b) <= tol * max(abs(a), abs(b)))
    except TypeError:
        return False


def same_label(a, b):
    return a == b or (a != a and b != b)


def dim_labels(dim):
    return np.asarray(dim.data).tolist()


def compare(ctx, got, want, what, tol=1e-12, order=None, units=False,
            dtype_kind=None):
    """*got*: real hfarray, *want*: L.  Axis order is free unless
    order="exact" or order="prio"."""
    ctx.check(isinstance(got, np.ndarray) and hasattr(got, "dims"),
              lambda: "%s: result %r is not an hfarray" % (what, type(got)))
    raw = np.asarray(got)
    ctx.check(len(got.dims) == raw.ndim,
              lambda: "%s: %d dims %r for shape %r"
              % (what, len(got.dims), got.dims, raw.shape))
    gk = [(kind_of(d), d.name) for d in got.dims]
    wk = [d.key for d in want.dims]
    ctx.check(sorted(map(repr, gk)) == sorted(map(repr, wk)),
              lambda: "%s: dims %r, expected %r" % (what, gk, wk))
    if order == "exact":
        ctx.check(gk == wk, lambda: "%s: dim order %r, expected %r"
                  % (what, gk, wk))
    elif order == "prio":
        pr = [PRIO[k] for k, _ in gk]
        ctx.check(pr == sorted(pr),
                  lambda: "%s: dim order %r is not sweeps, reps, i, j"
                  % (what, gk))
        ws = sorted(wk, key=lambda k: PRIO[k[0]])
        ctx.check(gk == ws, lambda: "%s: dim order %r, expected %r, as they "
                  "first appear" % (what, gk, ws))
    wd = dict((d.key, d) for d in want.dims)
    for ax, (k, dim) in enumerate(zip(gk, got.dims)):
        lab = dim_labels(dim)
        ctx.check(len(lab) == raw.shape[ax],
                  lambda: "%s: dim %r has %d labels for axis length %d"
                  % (what, k, len(lab), raw.shape[ax]))
        wl = wd[k].labels
        ctx.check(len(lab) == len(wl) and
                  all(same_label(x, y) for x, y in zip(lab, wl)),
                  lambda: "%s: labels of %r are %r, expected %r"
                  % (what, k, lab, wl))
        if units:
            ctx.check(dim.unit == wd[k].unit,
                      lambda: "%s: unit of dim %r is %r, expected %r"
                      % (what, k, dim.unit, wd[k].unit))
    wdims = [wd[k] for k in gk]
    flat = raw.ravel().tolist() if raw.ndim else [raw.tolist()]
    for c, g in zip(coords(wdims), flat):
        w = want.at(c)
        ctx.check(same(g, w, tol), lambda: "%s: value at %s is %r, expected %r"
                  % (what, sorted((k[1], v) for k, v in c.items()), g, w))
    if dtype_kind is not None:
        ctx.check(raw.dtype.kind in dtype_kind,
                  lambda: "%s: dtype %s" % (what, raw.dtype))


def pointwise(op, *ls):
    """Model of an aligned elementwise operation."""
    dims = []
    for x in ls:
        for d in x.dims:
            if d.key not in [e.key for e in dims]:
                dims.append(d)
    dims.sort(key=lambda d: PRIO[d.kind])
    cells = {}
    for c in coords(dims):
        cells[frozenset(c.items())] = op(*[x.at(c) for x in ls])
    return L(dims, cells)


def ordered_subsets(n, kmax, kmin=0):
    out = []
    for k in range(kmin, kmax + 1):
        out.extend(itertools.permutations(range(n), k))
    return out
