# -*- coding: utf-8 -*-
"""C28: the report of a data block states what the block holds."""
import decimal

import numpy as np

from mc.engine import Space, Named
from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimMatrix_i, DimMatrix_j)

ASSUMPTIONS = [
    "units consist of letters or are absent; names contain no white space",
    "the unit of integer labels and the number of text labels are not part "
    "of the claim"]

NAN, INF = float("nan"), float("inf")
PREFIX = dict(y=-24, z=-21, a=-18, f=-15, p=-12, n=-9, u=-6, m=-3, k=3, M=6,
              G=9, T=12, P=15, E=18, Z=21, Y=24)
PREFIX["\u00b5"] = -6
LABELS = [[1e9, 2e9, 3.5e9], [0., 1.], [3., -1., 2.], [-1.5e-3, 2e-3],
          [NAN, 1.], [INF, 1.], [1e-30, 1e30], [123456.789, 2.], [0.1, 0.3],
          [999.9999], [1000.], [-0.0], [1e-7, 5e-7], [1, 2, 3], [0], [-7],
          [2 ** 40], [3.5], [1, 2.5], ["a", "b"], ["x y"], [True, False],
          [False], [], [1 + 1j, 2 - 3j], [1j]]
LABELS = [Named(repr(x), x) for x in LABELS] + [
    Named("seconds", np.array(["2012-01-01T10:10:10", "2013-01-01"],
                              "M8[s]")),
    Named("uint8", np.array([3, 200], np.uint8)),
    Named("float32", np.array([0.5, 0.25], np.float32)),
    Named("bytes", np.array([b"x", b"y"]))]
UNITS = [None, "Hz", "V", "m", "dBm", "Ohm"]


def denotes(value, text, unit):
    """the number text + unit text stand for"""
    number = decimal.Decimal(value)
    base = unit or ""
    if text == base:
        return number
    if text.endswith(base) and text[:len(text) - len(base)] in PREFIX:
        return number.scaleb(PREFIX[text[:len(text) - len(base)]])
    raise ValueError("unit %r for %r" % (text, unit))


def rows(ctx, db):
    text = str(db)
    ctx.check(text == repr(db) == db.report(), "str, repr and report differ")
    lines = text.split("\n")
    ctx.check(lines[0].split() == ["Blockname:"] + str(db.blockname).split(),
              lambda: "first line %r" % lines[0])
    return text, [x.split() for x in lines[1:]]


def find(lines, words):
    """what follows the words, where they stand"""
    n = len(words)
    return [x[i + n:] for x in lines for i in range(len(x) - n + 1)
            if x[i:i + n] == words]


def states_dim(ctx, text, lines, dim, minmax, units):
    labels = np.asarray(dim.data)
    kind = labels.dtype.kind
    if kind not in "iuf" or not len(labels):
        ctx.check([x for x in lines if dim.name in x], lambda: "no %r in:\n%s"
                  % (dim.name, text))
        return
    words = [dim.name]
    if not minmax and units:
        words.append("[%s]" % (dim.unit or ""))
    found = find(lines, words + ["<%d>" % len(labels)])
    ctx.check(len(found) == 1, lambda: "row of %r (%d labels) %d times in:\n%s"
              % (dim.name, len(labels), len(found), text))
    rest = found[0]
    if not minmax:
        ctx.check(rest == [], lambda: "row of %r ends with %r" % (dim.name,
                                                                  rest))
        return
    if np.isnan(labels.astype(float)).any():
        want = [NAN, NAN]
    else:
        want = [labels.min(), labels.max()]
    for w in want:
        ctx.check(rest, lambda: "row of %r is incomplete:\n%s" % (dim.name,
                                                                  text))
        value = rest.pop(0)
        u = dim.unit or ""
        if rest and not rest[0][0].isdigit() and rest[0][0] not in "-+" and \
                rest[0] not in ("nan", "inf"):
            u = rest.pop(0)
        elif kind == "f":
            u = ""
        if not np.isfinite(w):
            ctx.check(value == str(float(w)) and u in (dim.unit or "", ""),
                      lambda: "%s %s for %r" % (value, u, w))
            continue
        got = denotes(value, u, dim.unit)
        ctx.check(abs(got - decimal.Decimal(w.item())) <=
                  abs(decimal.Decimal(w.item())) * decimal.Decimal("1e-9"),
                  lambda: "%s %s for %r [%s] in:\n%s" % (value, u, w, dim.unit,
                                                         text))
    ctx.check(rest == [], lambda: "row of %r ends with %r" % (dim.name, rest))


def states_var(ctx, text, lines, name, shape, unit, units):
    words = [name] + (["[%s]" % (unit or "")] if units else [])
    words.append("<%s>" % "x".join(str(n) for n in shape))
    ctx.check(len(find(lines, words)) == 1, lambda: "%r not once in:\n%s"
              % (words, text))


def labels(ctx):
    """every kind of labels and unit"""
    lab = ctx.choose("labels", LABELS).value
    cls = ctx.choose("class", [DimSweep, DimRep])
    unit = ctx.choose("unit", UNITS)
    minmax = ctx.flag("minmax")
    units = ctx.flag("units")
    width = ctx.choose("width", [79, 10, 200])
    dim = cls("dimension", lab, unit=unit)
    db = DataBlock()
    if ctx.flag("variable"):
        db["var"] = hfarray(np.zeros(len(dim.data)), dims=(dim,), unit=unit)
    else:
        db[dim.name] = dim
    db.report_minmax, db.report_units = minmax, units
    db.report_maxwidth = width
    text, lines = rows(ctx, db)
    states_dim(ctx, text, lines, dim, minmax, units)
    if db.vardata:
        states_var(ctx, text, lines, "var", (len(dim.data),), unit, units)
    ctx.step()
    ctx.observe(text)


F = DimSweep("freq", [1e9, 2e9, 3e9], unit="Hz")
R = DimRep("rep", [0, 1])
I, J = DimMatrix_i("i", 2), DimMatrix_j("j", 2)
VARS = [("a", (), None), ("Id", (F,), "A"), ("S", (F, I, J), None),
        ("very_long_variable_name", (F, R), "V"), ("n", (R, F), "m"),
        ("T", (F, R, I, J), "K")]


def blocks(ctx):
    """every set of variables, in two orders, and every width"""
    some = ctx.subset("variables", VARS)
    if ctx.flag("reversed"):
        some = some[::-1]
    db = DataBlock()
    db.blockname = ctx.choose("blockname", [None, "A1", "two words"])
    for name, dims, unit in some:
        db[name] = hfarray(np.zeros([len(d.data) for d in dims]), dims=dims,
                           unit=unit)
    db.report_minmax = ctx.flag("minmax")
    db.report_units = ctx.flag("units")
    for width in range(0, 100, 3):
        db.report_maxwidth = width
        text, lines = rows(ctx, db)
        ctx.check(db.report(width) == text, "report(width)")
        for dim in db.ivardata.values():
            states_dim(ctx, text, lines, dim, db.report_minmax,
                       db.report_units)
        for name, dims, unit in some:
            states_var(ctx, text, lines, name, [len(d.data) for d in dims],
                       unit, db.report_units)
        names = [name for name, _, _ in some]
        where = [i for i, name in enumerate(
            w for x in lines for w in x if w in names) if name]
        ctx.check(len(where) == len(names), lambda: "rows of variables in:\n"
                  + text)
        order = [w for x in lines for w in x if w in names]
        ctx.check(order == names, lambda: "order %r, expected %r" % (order,
                                                                     names))
        ctx.step()
    ctx.state((tuple(names), db.report_minmax, db.report_units))
    ctx.observe(text)


def large(ctx):
    """long dimensions, many of them, many variables"""
    n = ctx.choose("variables", [1, 40, 200])
    k = ctx.choose("dimensions", [1, 5, 30])
    length = ctx.choose("labels", [10, 1000, 20000])
    db = DataBlock()
    db.blockname = "large"
    dims = [DimSweep("d%d" % i, np.arange(length if i == 0 else 2 + i) *
                     (.5 + i), unit="V") for i in range(k)]
    some = []
    for i in range(n):
        name = "v%d" % i + "x" * (i % 30)
        dd = (dims[i % k],)
        if k > 1 and i % 3 == 0 and i % k:
            dd = (dims[i % k], dims[(i + 1) % k or 1])
            if dd[0] is dd[1]:
                dd = dd[:1]
        some.append((name, dd, "A" if i % 2 else None))
        db[name] = hfarray(np.zeros([len(d.data) for d in dd]), dims=dd,
                           unit=some[-1][2])
    db.report_minmax = ctx.flag("minmax")
    db.report_units = ctx.flag("units")
    db.report_maxwidth = ctx.choose("width", [20, 79, 300])
    text, lines = rows(ctx, db)
    for dim in db.ivardata.values():
        states_dim(ctx, text, lines, dim, db.report_minmax, db.report_units)
    for name, dd, unit in some:
        states_var(ctx, text, lines, name, [len(d.data) for d in dd], unit,
                   db.report_units)
    ctx.step()
    ctx.state((n, k, length))
    ctx.observe(text)


def listing(ctx):
    """dir() lists variables, dimensions and matrix elements that exist"""
    some = ctx.subset("variables", VARS)
    n = ctx.choose("rows", [1, 2, 3, 9, 10, 12])
    nj = ctx.choose("columns", sorted(set([1, 2, 9, 10, 12, n])))
    db = DataBlock()
    for name, dims, unit in some:
        dims = tuple(d.__class__(d.name, n) if d == I else
                     d.__class__(d.name, nj) if d == J else d for d in dims)
        shape = [len(d.data) for d in dims]
        db[name] = hfarray(np.arange(np.prod(shape)).reshape(shape),
                           dims=dims)
    have = dir(db)
    for name, dims, unit in some:
        ctx.check(name in have, lambda: "%r is not listed" % name)
        for d in dims:
            ctx.check(d.name in have, lambda: "%r is not listed" % d.name)
    elems = [x for x in have if x[0] in "ST" and x[1:].isdigit()]
    want = ["%s%d%d" % (name, i + 1, j + 1) for name, dims, _ in some
            if I in dims for i in range(min(n, 9)) for j in range(min(nj, 9))]
    # elements of larger matrices need not be listed
    ctx.check(sorted(elems) == sorted(want) or max(n, nj) > 9 and
              set(elems) <= set(want), lambda: "elements %r" % elems)
    for x in elems:
        a = np.asarray(getattr(db, x))
        ctx.check(np.array_equal(a, np.asarray(db[x[:-2]])[
            ..., int(x[-2]) - 1, int(x[-1]) - 1]), lambda: "%s is %r" % (x, a))
    ctx.step()
    ctx.observe(elems)


def spaces(tier):
    return [Space("labels", labels, "29 kinds of labels x units x report "
                  "settings x widths"),
            Space("blocks", blocks, "all sets of 6 variables x settings x all "
                  "widths"),
            Space("large", large, "up to 200 variables, 30 dimensions, 20000 "
                  "labels"),
            Space("listing", listing, "dir() of all sets of variables x "
                  "ports")]
