# -*- coding: utf-8 -*-
"""C13: CITI files hold what was saved and what they say."""
import cmath
import math
import os

import numpy as np

from mc.engine import Space, Prune
from mc.labelled import D, L
from mc.filemodel import (Var, EXTREME, GUESS, block, relabel, expect,
                          expect_dim, expect_only, fingerprint, si, numbers,
                          many, LARGE, large_dims)
from mc.matrices import space as matrix_space
from hftools.dataset import DataBlock, hfarray
from hftools.file_formats import read_citi, save_citi, read_data
from hftools.file_formats.citi import CITIFileError
from hftools.file_formats.readbase import ParseError
from hftools.file_formats.common import Comments

ASSUMPTIONS = [
    "one package per file; names hold no spaces and do not end in two digits",
    "matrices have more than one element",
    "CITI files do not store units, values are in SI units and hftools "
    "guesses units from names (freq, Vds ...)",
    "variables of numbers are stored, dimensions are sweeps",
    "comment lines do not start with '!'"]

SWEEPS = [[D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz")],
          [D("sweep", "P", [-1, 0, 2])],
          [D("sweep", "freq", [1., 2.5], "GHz"),
           D("sweep", "Vx", [.5, 1.5, 1.25], "V")],
          [D("sweep", "Vx", [3., 1.], "mV"), D("sweep", "T", [1, 2, 3], "C"),
           D("sweep", "freq", [1e9, 2e9])],
          [D("sweep", "t", [0.5], "ms"), D("sweep", "u", [7.])],
          [D("sweep", "f", [1.26, 2.0], "Hz", "%.1f"),
           D("rep", "r", [5, 4])],
          []]
VARS = [Var("x", unit="V"), Var("n", "int"), Var("c", "complex", unit="mV"),
        Var("S", "complex", (2, 2)), Var("M", "real", (1, 3), unit="A"),
        Var("K", "int", (3, 1)), Var("Y", "complex", (2, 3), first=True),
        Var("w", fmt="%.3f", unit="W"), Var("e", pool=EXTREME),
        Var("d", "complex", fmt="%+10.3e"), Var("h", "int", unit="mV"),
        Var("Vds", unit="mV")]
COMMENTS = [None, [], [u"pl\u00e5in text \u20ac"], ["Hej=10 V", "Note: a, b=c", ""]]
SCALARS = [[], [("T0", 25.5, "C")], [("Ibias", 3e-3, "A"), ("k", 7, None)],
           [("Vmon", 4., "mV"), ("txt", "hello you", None)]]


def fmt_of(v):
    mul = si(v.unit)[0]
    if mul != 1:
        return "%.16e"
    return v.outfmt


def written(v, m, dims, new):
    mul = si(v.unit)[0]
    fmt = fmt_of(v)

    def conv(x):
        if isinstance(x, complex):
            return complex(float(fmt % (x.real * mul)),
                           float(fmt % (x.imag * mul)))
        return float(fmt % (x * mul))
    w = L(m.dims, dict((k, conv(x)) for k, x in m.cells.items()))
    return relabel(w, dims, new)


def dim_read(d):
    mul = si(d.unit)[0]
    fmt = d.fmt
    if fmt is None:
        fmt = "%d" if all(isinstance(x, int) for x in d.labels) else "%.16e"
    if mul != 1:
        fmt = "%.16e"
    return D("sweep", d.name, [float(fmt % (x * mul)) for x in d.labels],
             GUESS.get(d.name))


def save(ctx, db, fn):
    before = fingerprint(db)
    save_citi(db, fn)
    ctx.step()
    ctx.check(before == fingerprint(db), "saving changed the data block")


def check_read(ctx, got, dims, models, comments, scalars, fn, what="read"):
    new = [dim_read(d) for d in dims]
    names = set(["FILENAME"])
    dnames = set(["FILEINDEX"] + [d.name for d in dims])
    for name, (v, m) in models.items():
        if v.matrix:
            dnames.update("ij")
        expect(ctx, got, name, written(v, m, dims, new), GUESS.get(name),
               what)
        names.add(name)
    for d in new:
        expect_dim(ctx, got, d, what)
    extra = dict((k, (v if u is None else v * si(u)[0], si(u)[1]))
                 for k, v, u in scalars)
    if comments and comments[0].startswith("Hej"):
        extra.update(Hej=(10., "V"), Note=("a, b=c", None))
    for k, (value, unit) in extra.items():
        names.add(k)
        ctx.check(k in got.vardata, lambda: "%s: no variable %s" % (what, k))
        x = np.asarray(got.vardata[k]).tolist()
        ctx.check(x == value or (not isinstance(value, str) and
                                 abs(x - value) <= 1e-14 * abs(value)),
                  lambda: "%s: %s is %r, expected %r" % (what, k, x, value))
        ctx.check(got.vardata[k].unit == unit, lambda: "%s: unit of %s is %r, "
                  "expected %r" % (what, k, got.vardata[k].unit, unit))
    expect_only(ctx, got, names, dnames, what)
    c = list(got.comments.fullcomments)
    want = list(comments or [])
    ctx.check(c[:len(want)] == want and len(c) == len(want) + len(scalars),
              lambda: "%s: comments %r, expected %r and %d scalars"
              % (what, c, want, len(scalars)))
    ctx.check(np.asarray(got.FILENAME).tolist() == fn,
              lambda: "%s: FILENAME %r" % (what, got.FILENAME))


def roundtrip(ctx):
    dims = ctx.choose("dimensions", SWEEPS)
    one = ctx.choose("variable", VARS)
    two = ctx.choose("second", [None] + [v for v in VARS if v is not one])
    order = ctx.permutation("order of dimensions", list(range(len(dims))))
    variables = [one] + ([two] if two is not None else [])
    if not dims:
        if any(not v.matrix or v.first for v in variables):
            raise Prune("scalars are comments")
    db, models = block(dims, variables)
    if two is not None and order != sorted(order):
        # the second variable has its dimensions in another order
        v, m = models[two.name]
        o = [dims[k] for k in order]
        o = o + [d for d in m.dims if d.kind in ("mi", "mj")]
        db[two.name] = v.real(m, o)
    elif order != sorted(order):
        raise Prune("one variable")
    fn = os.path.join(ctx.tmp, "a.citi")
    save(ctx, db, fn)
    got = read_citi(fn)
    ctx.step()
    check_read(ctx, got, dims, models, None, [], fn)
    ctx.state((repr(dims), [v.name for v in variables], tuple(order)))
    ctx.observe([(k, np.asarray(v).tolist()) for k, v in got.vardata.items()
                 if k != "FILENAME"])


def large(ctx):
    """long files, many dimensions and columns"""
    what, lengths, nvars = ctx.choose("size", LARGE)
    dims = large_dims(lengths)
    dims[0].unit = "Hz"
    comments = ctx.choose("comments", [None, ["note %d" % k
                                              for k in range(60)]])
    db, models = block(dims, many(VARS, nvars), comments)
    fn = os.path.join(ctx.tmp, "a.citi")
    save(ctx, db, fn)
    got = read_citi(fn)
    ctx.step()
    check_read(ctx, got, dims, models, comments, [], fn)
    ctx.state(what)
    ctx.observe(list(got.vardata.keys()))


def histories(ctx):
    """comments and scalars through repeated saving and reading"""
    dims = ctx.choose("dimensions", SWEEPS[:4])
    variables = ctx.choose("variables", [[VARS[0]], [VARS[2], VARS[3]],
                                         [VARS[11], VARS[1], VARS[6]]])
    comments = ctx.choose("comments", COMMENTS)
    scalars = ctx.choose("scalars", SCALARS)
    name = ctx.choose("name", [None, "DATA", "Meas_1"])
    db, models = block(dims, variables, comments, name)
    for k, v, u in scalars:
        db[k] = hfarray(v, unit=u)
    for k in range(3):
        fn = os.path.join(ctx.tmp, "a%d.citi" % (k % 2))
        save(ctx, db, fn)
        db = ctx.choose("reader", [read_citi, read_data])(fn)
        ctx.step()
        check_read(ctx, db, dims, models, comments, scalars, fn,
                   "read %d" % (k + 1))
        if name is not None:
            ctx.check(db.blockname == name, lambda: "blockname %r, expected "
                      "%r" % (db.blockname, name))
    ctx.state((repr(dims), [v.name for v in variables], repr(comments),
               repr(scalars), name))
    ctx.observe(list(db.vardata.keys()))


def refused(ctx):
    """variables over other dimensions are not mixed up"""
    f = D("sweep", "freq", [1e9, 2e9], "Hz")
    g = D("sweep", "Vx", [.5, 1.5], "V")
    h = D("sweep", "u", [1., 2.], "m")
    menu = [[f], [g], [f, g], [g, f], [f, h], [f, g, h], []]
    a = ctx.choose("first", menu[:-1])
    b = ctx.choose("second", menu)
    kind = ctx.choose("kind", [("real", None), ("complex", (2, 2))])
    exists = ctx.flag("file exists")
    va = Var("x", dims=a)
    vb = Var("y", kind[0], kind[1], dims=b)
    db, models = block([], [va, vb])
    fn = os.path.join(ctx.tmp, "a.citi")
    if exists:
        with open(fn, "w") as fil:
            fil.write("old")
    names = sorted(d.name for d in a)
    fits = names == sorted(d.name for d in b)
    scalar = not b and not kind[1]
    try:
        save_citi(db, fn)
    except CITIFileError:
        ctx.check(not fits and not scalar, "variables of the same dimensions "
                  "refused")
        ctx.check(os.path.exists(fn) == exists,
                  "file made though nothing could be saved")
        if exists:
            with open(fn) as fil:
                ctx.check(fil.read() == "old", "file destroyed though nothing"
                          " could be saved")
    else:
        got = read_citi(fn)
        new = [dim_read(d) for d in (f, g, h)]
        for v, m in models.values():
            if not v.dims and not v.matrix:
                ctx.check(np.asarray(got.y).tolist() == m.flat()[0],
                          lambda: "y is %r" % got.y)
                continue
            expect(ctx, got, v.name, written(v, m, [f, g, h], new), None,
                   "read")
    ctx.step()
    ctx.state((repr(a), repr(b), kind, exists))
    ctx.observe(fits)


# ---------------------------------------------------------------------------
NUM = [("1", 1.), ("-2.5", -2.5), ("1e3", 1e3), ("+1.5E-03", 1.5e-3),
       (".5", .5), ("7.", 7.), ("1e+001", 10.), ("-3.4567890123E-02",
                                                  -3.4567890123e-2)]
PRE = [([], [], {}), (["!note"], ["note"], {}),
       (["#NA VERSION HP8510B.07.00"], ["NA VERSION HP8510B.07.00"], {}),
       (["! A = 3 V"], ["A = 3 V"], {"A": 3.}),
       (["COMMENT B: 4"], ["B: 4"], {"B": 4.}),
       (["CONSTANT TIME 2010 02 03 10 11 12.0"],
        ["Measurement time: 2010-02-03 10:11:12.0"], {"Measurement time":
                                                      None})]


def put(fn, lines, eol="\n", final=True):
    with open(fn, "wb") as fil:
        fil.write((eol.join(lines) + (eol if final else ""))
                  .encode("cp1252"))


def segments(ctx):
    """a segment is evenly spaced from its first to its last point"""
    pts = [("1", 1.), ("2.5", 2.5), ("-3.75", -3.75), ("0", 0.),
           ("1E9", 1e9), ("26.5e+009", 26.5e9), ("1.5E-3", 1.5e-3)]
    t0, first = ctx.choose("first", pts)
    t1, last = ctx.choose("last", pts)
    n = ctx.choose("points", [1, 2, 3, 4, 101])
    second = ctx.flag("second sweep")
    if n == 1 and first != last:
        raise Prune()
    lines = ["CITIFILE A.01.00", "NAME DATA", "VAR p MAG %d" % n]
    if second:
        lines.append("VAR q MAG 2")
    lines += ["DATA x MAG", "SEG_LIST_BEGIN",
              "SEG %s %s %d" % (t0, t1, n), "SEG_LIST_END"]
    if second:
        lines += ["SEG_LIST_BEGIN", "SEG 0.5 0.75 2", "SEG_LIST_END"]
    total = n * (2 if second else 1)
    lines += ["BEGIN"] + ["%d" % k for k in range(total)] + ["END"]
    fn = os.path.join(ctx.tmp, "a.citi")
    put(fn, lines)
    got = read_citi(fn)
    ctx.step()
    p = np.asarray(got.ivardata["p"].data, float)
    want = [first + (last - first) * k / max(n - 1., 1) for k in range(n)]
    tol = 1e-12 * max(abs(first), abs(last))
    ctx.check(len(p) == n and all(abs(a - b) <= tol for a, b in
                                  zip(p, want)),
              lambda: "segment %s %s %d is read as %r" % (t0, t1, n,
                                                          p.tolist()))
    if second:
        q = np.asarray(got.ivardata["q"].data).tolist()
        ctx.check(q == [.5, .75], lambda: "second segment %r" % q)
    x = np.asarray(got.x)
    ctx.check(x.ravel().tolist() == list(range(total)) and
              tuple(d.name for d in got.x.dims) == ("p", "q")[:1 + second],
              lambda: "x is %r" % got.x)
    ctx.state((t0, t1, n, second))
    ctx.observe((t0, t1, n))


def foreign(ctx):
    """spellings of files made by others"""
    kinds = ctx.choose("formats", [["MAG"], ["RI"], ["MAGANGLE"],
                                   ["RI", "MAG"], ["MAG", "RI", "MAGANGLE"]])
    sweep = ctx.choose("sweep", ["list", "segment", "two lists",
                                 "list and segment", "single point"])
    start = ctx.choose("numbers", range(len(NUM)))
    pre, comments, props = ctx.choose("comment", PRE)
    where = ctx.choose("comment at", range(7))
    indent = ctx.choose("indent", ["", "  "])
    eol = ctx.choose("line ends", ["\n", "\r\n"])
    final = ctx.flag("final newline")
    parts = [["CITIFILE A.01.00"], ["NAME DATA"]]
    segs = {"list": [0], "segment": [1], "two lists": [0, 0],
            "list and segment": [0, 1], "single point": [1]}[sweep]
    dims = []
    lists = []
    for k, seg in enumerate(segs):
        n = 3 if k == 0 else 2
        if sweep == "single point":
            lists += ["SEG_LIST_BEGIN", "SEG 2.5E9 2.5E9 1", "SEG_LIST_END"]
            labels = [2.5e9]
        elif seg:
            lists += ["SEG_LIST_BEGIN", "SEG 1.0E9 %s %d" % ("3E9", n),
                      "SEG_LIST_END"]
            labels = [1e9 + (3e9 - 1e9) * q / (n - 1.) for q in range(n)]
        else:
            texts = [NUM[q] for q in ([0, 2, 6] if k == 0 else [1, 3])]
            lists += ["VAR_LIST_BEGIN"] + [indent + t for t, _ in texts] + [
                "VAR_LIST_END"]
            labels = [x for _, x in texts]
        dims.append(D("sweep", ["freq", "Pin"][k], labels,
                      ["Hz", None][k]))
    parts.append(["VAR %s MAG %d" % (d.name, len(d)) for d in dims])
    parts.append(["DATA x%s %s" % ("abc"[k], kind)
                  for k, kind in enumerate(kinds)])
    parts.append(lists)
    q = start
    total = int(np.prod([len(d) for d in dims]))
    data = []
    models = {}
    for k, kind in enumerate(kinds):
        data.append("BEGIN")
        values = []
        for c in range(total):
            a = NUM[q % len(NUM)]
            b = NUM[(q + 3) % len(NUM)]
            q += 1
            if kind == "MAG":
                data.append(indent + a[0])
                values.append(a[1])
            else:
                data.append(indent + a[0] + "," + b[0])
                values.append(complex(a[1], b[1]) if kind == "RI" else
                              cmath.rect(a[1], math.radians(b[1])))
        data.append("END")
        models["x" + "abc"[k]] = L.fill(dims, values)
    parts.append(data)
    parts.insert(where, pre)
    fn = os.path.join(ctx.tmp, "a.citi")
    put(fn, sum(parts, []), eol, final)
    got = read_citi(fn)
    ctx.step()
    for name, m in models.items():
        expect(ctx, got, name, m, None, "read", tol=1e-9)
    if where == 6:      # after the data
        comments, props = [], {}
    for k, value in props.items():
        ctx.check(k in got.vardata, lambda: "no %s" % k)
        if value is not None:
            ctx.check(np.asarray(got.vardata[k]).tolist() == value,
                      lambda: "%s is %r" % (k, got.vardata[k]))
    expect_only(ctx, got, ["FILENAME"] + list(models) + list(props),
                [d.name for d in dims] + ["FILEINDEX"], "read")
    ctx.check(list(got.comments.fullcomments) == comments,
              lambda: "comments %r, expected %r"
              % (got.comments.fullcomments, comments))
    ctx.state((tuple(kinds), sweep, start, tuple(pre), where))
    ctx.observe([np.asarray(got.vardata[k]).tolist() for k in models])


def elements(ctx):
    """names of matrix elements"""
    n = ctx.choose("rows", [1, 2, 3])
    m = ctx.choose("columns", [1, 2, 3])
    style = ctx.choose("style", ["S%d%d", "S[%d,%d]"])
    order = ctx.choose("order", ["rows", "columns", "reverse"])
    missing = ctx.flag("one missing")
    real = ctx.subset("real", range(min(n * m, 4)))
    ibase, jbase = ctx.choose("first index", [(1, 1), (0, 0), (2, 2), (1, 0),
                                              (2, 1), (1, 3)])
    names = [(i, j) for i in range(ibase, n + ibase)
             for j in range(jbase, m + jbase)]
    kinds = dict((ij, k in real) for k, ij in enumerate(names))
    if order == "columns":
        names.sort(key=lambda x: x[::-1])
    elif order == "reverse":
        names.reverse()
    if missing:
        names = names[:-1]
        if not names:
            raise Prune("nothing left")
    lines = ["CITIFILE A.01.01", "NAME D", "VAR freq MAG 2"]
    lines += ["DATA %s %s" % (style % ij, "MAG" if kinds[ij] else "RI")
              for ij in names]
    lines += ["VAR_LIST_BEGIN", "1", "2", "VAR_LIST_END"]
    value = {}
    for i, j in names:
        lines.append("BEGIN")
        for t in range(2):
            x = 100 * i + 10 * j + t
            if kinds[i, j]:
                lines.append("%d" % x)
                value[i, j, t] = float(x)
            else:
                lines.append("%d,%d" % (x, -x))
                value[i, j, t] = complex(x, -x)
        lines.append("END")
    fn = os.path.join(ctx.tmp, "a.citi")
    put(fn, lines)
    got = read_citi(fn)
    ctx.step()
    f = D("sweep", "freq", [1., 2.], "Hz")
    I = sorted(set(i for i, j in names))
    J = sorted(set(j for i, j in names))
    if len(names) > 1 and len(I) * len(J) == len(names) and I[0] == J[0] == 1:
        want = L.fill([f, D("mi", "i", range(len(I))),
                       D("mj", "j", range(len(J)))],
                      [value[i, j, t] for t in range(2) for i in I for j in J])
        expect(ctx, got, "S", want, None, "read")
        expect_only(ctx, got, ["S", "FILENAME"],
                    ["freq", "i", "j", "FILEINDEX"], "read")
    else:
        for ij in names:
            expect(ctx, got, style % ij,
                   L.fill([f], [value[ij + (t,)] for t in range(2)]), None,
                   "read")
        expect_only(ctx, got, [style % ij for ij in names] + ["FILENAME"],
                    ["freq", "FILEINDEX"], "read")
    ctx.state((n, m, style, order, missing, tuple(real)))
    ctx.observe(sorted(got.vardata.keys()))


BASE = [
    ["CITIFILE A.01.01", "!A=3", "NAME D", "VAR freq MAG 2", "DATA x RI",
     "DATA y MAG", "VAR_LIST_BEGIN", "1", "2", "VAR_LIST_END", "BEGIN",
     "1,2", "3,4", "END", "BEGIN", "5", "6", "END"],
    ["CITIFILE A.01.01", "NAME D", "VAR u MAG 2", "VAR v MAG 2",
     "DATA S[1,1] RI", "DATA S[2,1] RI", "SEG_LIST_BEGIN", "SEG 1 2 2",
     "SEG_LIST_END", "VAR_LIST_BEGIN", "1", "2", "VAR_LIST_END",
     "BEGIN", "1,2", "3,4", "5,6", "7,8", "END",
     "BEGIN", "-1,2", "-3,4", "-5,6", "-7,8", "END", "!done"],
    ["CITIFILE A.01.01", "NAME D", "DATA x MAG", "BEGIN", "5", "END"]]


def content(db):
    return (sorted((k, repr(v.dims), np.asarray(v).tolist())
                   for k, v in db.vardata.items()
                   if k not in ("FILENAME", "A")),
            sorted((k, np.asarray(v.data).tolist())
                   for k, v in db.ivardata.items()))


def damaged(ctx):
    """lost, repeated and garbled lines, truncated files"""
    lines = list(ctx.choose("file", BASE))
    fn = os.path.join(ctx.tmp, "a.citi")
    put(fn, lines)
    good = content(read_citi(fn))
    what = ctx.choose("damage", ["lost", "repeated", "truncated", "garbled",
                                 "swapped"])
    k = ctx.choose("line", len(lines))
    if what == "lost":
        gone = lines.pop(k)
        if gone == "VAR v MAG 2":
            raise Prune("describes other data")
    elif what == "repeated":
        lines.insert(k, lines[k])
    elif what == "truncated":
        c = ctx.choose("column", len(lines[k]))
        lines = lines[:k] + [lines[k][:c]]
    elif what == "garbled":
        if lines[k][0] in "!":
            raise Prune("comments may be anything")
        lines[k] = ctx.choose("garble", ["?" + lines[k], lines[k] + ",1,2",
                                         "abc", "1,2,3", "--"])
        if lines[k].startswith(("NAME", "CITIFILE", "BEGIN", "END",
                                "VAR_LIST", "SEG_LIST")):
            raise Prune("text after keywords is free")
    else:
        if k + 1 == len(lines):
            raise Prune("last line")
        a, b = lines[k:k + 2]
        if a[0] in "-0123456789VDS" and b[0] in "-0123456789VDS" and \
                a.split()[0] not in ("VAR_LIST_BEGIN", "VAR_LIST_END"):
            raise Prune("describes other data")
        lines[k:k + 2] = [b, a]
    put(fn, lines)
    ctx.step()
    try:
        got = read_citi(fn)
    except (CITIFileError, ParseError, ValueError) as exc:
        ctx.observe(type(exc).__name__)
    else:
        got = content(got)
        ctx.check(got == good, lambda: "damaged file was read as %r, "
                  "originally %r" % (got, good))
        ctx.observe("same")
    ctx.state(tuple(lines))


def spaces(tier):
    return [
        Space("roundtrip", roundtrip, "7 sets of dimensions x ordered pairs "
              "of 12 kinds of variables x all orders of dimensions",
              tmpdir=True),
        Space("matrices", matrix_space(save_citi,
                 read_citi, "a.citi"),
              "names and sizes of matrices", tmpdir=True),
        Space("segments", segments, "7 x 7 ends, 1 to 101 points, 1 or 2 "
              "sweeps", tmpdir=True),
        Space("histories", histories, "three save/read cycles with comments, "
              "scalars, names, both readers at every read", tmpdir=True),
        Space("large", large, "thousands of points, 5 dimensions, 100 "
              "variables", tmpdir=True),
        Space("refused", refused, "variables over other dimensions",
              tmpdir=True),
        Space("foreign", foreign, "formats, lists, segments, numbers, "
              "comments at every place", tmpdir=True),
        Space("elements", elements, "names of matrix elements", tmpdir=True),
        Space("damaged", damaged, "every line lost, repeated, garbled, "
              "swapped, file truncated at every byte", tmpdir=True)]
