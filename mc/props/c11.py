# -*- coding: utf-8 -*-
"""C11: SP-data files hold what was saved and what they say."""
import io
import itertools
import os

import numpy as np

from mc.engine import Space, Named
from mc.labelled import D, L, compare
from mc.filemodel import (Var, EXTREME, GUESS, block, dim_written, relabel,
                          collapse, drop, column, expect, expect_dim,
                          expect_only, index_dim, fingerprint, si, numbers,
                          many, LARGE, large_dims)
from mc.matrices import space as matrix_space
from hftools.dataset import DataBlock, DimSweep, hfarray
from hftools.file_formats import read_spdata, save_spdata, read_data
from hftools.file_formats.common import Comments
from hftools.core.exceptions import HFToolsIOError

ASSUMPTIONS = [
    "names of variables do not end in two digits (they would be matrix "
    "elements) and are not names the reader translates (a1, Freq ...)",
    "1x1 matrices come back as their "
    "element", "units consist of letters", "complex values are finite",
    "comment lines do not start with '!', '@' or 'Fullcomments'",
    "variables without dimensions are not stored in SP-data files"]

SWEEPS = [D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz"),
          D("sweep", "P", [-1, 0, 2], None),
          D("sweep", "t", [0.5], "ms"),
          D("sweep", "f", [1.26, 2.0], "GHz", "%.1f"),
          D("sweep", "q", [3., 1., 2.], "V")]
OUTER = [[],
         [D("sweep", "Vx", [.5, 1.5], "V")],
         [D("sweep", "Vx", [1.5, .5], "mV"), D("sweep", "T", [1, 2, 3])],
         [D("rep", "r", [0, 1])],
         [D("sweep", "Vx", [1e-9], "V")],
         [D("sweep", "Vx", [-.25], "V"), D("rep", "r", [5, 4])],
         [D("sweep", "A", [1, 2]), D("sweep", "B", [1.25, 1e-12], "A"),
          D("sweep", "C", [10, 20])]]
VARS = [Var("x", unit="V"), Var("n", "int"), Var("c", "complex", unit="mV"),
        Var("S", "complex", (2, 2)), Var("M", "real", (1, 3), unit="A"),
        Var("K", "int", (3, 1)), Var("Y", "complex", (2, 3), first=True),
        Var("w", fmt="%.3f", unit="uA"), Var("e", pool=EXTREME),
        Var("d", "complex", fmt="%+10.3e")]
COMMENTS = [None, [], ["Hej=10 V", u"pl\u00e5in text \u20ac", "Note: a, b=c"]]


def target(ctx, which):
    fn = os.path.join(ctx.tmp, "data.txt")
    if which == "unicode":
        fn = os.path.join(ctx.tmp, u"m\xe4tning 1.txt")
    return fn


def save(ctx, db, fn, how):
    before = fingerprint(db)
    if how == "file object":
        with io.open(fn, "w", encoding="cp1252") as fil:
            save_spdata(db, fil)
    else:
        save_spdata(db, fn)
    ctx.step()
    after = fingerprint(db)
    ctx.check(before == after, "saving changed the datablock")


def prop_vars(comments):
    return {"Hej": (10., "V"), "Note": ("a, b=c", None)} if comments else {}


def check_read(ctx, db, sweep, outer, models, comments, hyper, fn,
               what="read"):
    nblocks = int(np.prod([len(d) for d in outer])) if outer else 1
    sw = dim_written(sweep)
    wo = [dim_written(d) for d in outer]
    for d in wo:
        d.kind = "sweep"
    names = set(["FILENAME"])
    dims = set([sweep.name, "FILEINDEX"])
    index = index_dim(nblocks)
    for name, (v, m) in models.items():
        w = v.written(m)
        w = relabel(w, [sweep] + outer, [sw] + wo)
        unit = si(v.unit)[1]
        if v.matrix:
            dims.update("ij")
        if nblocks == 1:
            w = drop(w, wo)
        elif hyper:
            w = drop(w, [d for d in [sw] + wo if len(d) == 1])
        else:
            w = collapse(w, wo, index)
            if len(sw) == 1:
                w = drop(w, [sw])
        if v.matrix and nblocks > 1:
            w = drop(w, [d for d in w.dims if d.kind in ("mi", "mj")
                         and len(d) == 1])
        expect(ctx, db, name, w, unit, what)
        names.add(name)
    for n, d in enumerate(wo):
        if nblocks == 1 or hyper:
            expect_dim(ctx, db, d, what)
            dims.add(d.name)
        else:
            expect(ctx, db, d.name, column(d, wo, index), d.unit, what)
            names.add(d.name)
            dims.add(index.name)
    expect_dim(ctx, db, sw, what)
    for k, (value, unit) in prop_vars(comments).items():
        names.add(k)
        ctx.check(k in db.vardata and
                  np.asarray(db.vardata[k]).tolist() == value and
                  db.vardata[k].unit == unit,
                  lambda: "%s: property %s is %r" % (what, k,
                                                     db.vardata.get(k)))
    expect_only(ctx, db, names, dims, what)
    ctx.check(list(db.comments.fullcomments) == list(comments or []),
              lambda: "%s: comments %r, expected %r"
              % (what, db.comments.fullcomments, comments))
    ctx.check(np.asarray(db.FILENAME).tolist() == fn,
              lambda: "%s: FILENAME %r" % (what, db.FILENAME))


def roundtrip(ctx):
    sweep = ctx.choose("sweep", SWEEPS)
    outer = ctx.choose("outer", OUTER[:6])
    one = ctx.choose("variable", VARS)
    rest = [v for v in VARS if v is not one]
    two = ctx.choose("second", [None] + rest)
    hyper = ctx.flag("hyper")
    variables = [one] + ([two] if two is not None else [])
    db, models = block([sweep] + outer, variables)
    fn = target(ctx, "")
    save(ctx, db, fn, "name")
    got = read_spdata(fn, hyper=hyper)
    ctx.step()
    check_read(ctx, got, sweep, outer, models, None, hyper, fn)
    ctx.state((sweep.name, repr(outer), hyper, [v.name for v in variables]))
    ctx.observe([(k, np.asarray(v).tolist()) for k, v in got.vardata.items()
                 if k != "FILENAME"])


def details(ctx):
    """comments, file objects, names of files, read_data, triples"""
    sweep = ctx.choose("sweep", SWEEPS[:3])
    outer = ctx.choose("outer", [OUTER[0], OUTER[1], OUTER[2], OUTER[6]])
    variables = ctx.choose("variables", [VARS[:1], VARS[:4], VARS[4:8], VARS,
                                         VARS[::-1]])
    comments = ctx.choose("comments", COMMENTS)
    how = ctx.choose("save to", ["name", "file object"])
    fn = target(ctx, ctx.choose("file name", ["", "unicode"]))
    reader = ctx.choose("reader", [read_spdata, read_data])
    hyper = ctx.flag("hyper")
    db, models = block([sweep] + outer, variables, comments)
    save(ctx, db, fn, how)
    got = reader(fn, hyper=hyper)
    ctx.step()
    check_read(ctx, got, sweep, outer, models, comments, hyper, fn)
    ctx.state((sweep.name, repr(outer), repr(comments), how, hyper,
               len(variables)))
    ctx.observe(list(got.vardata.keys()))


def large(ctx):
    """long files, many blocks, many columns"""
    what, lengths, nvars = ctx.choose("size", LARGE)
    dims = large_dims(lengths)
    sweep, outer = dims[0], dims[1:]
    sweep.unit = "Hz"
    hyper = ctx.flag("hyper")
    comments = ctx.choose("comments", [None, COMMENTS[2]])
    db, models = block(dims, many(VARS, nvars), comments)
    fn = target(ctx, "")
    save(ctx, db, fn, "name")
    got = read_spdata(fn, hyper=hyper)
    ctx.step()
    check_read(ctx, got, sweep, outer, models, comments, hyper, fn)
    ctx.state((what, hyper))
    ctx.observe(list(got.vardata.keys()))


def histories(ctx):
    """save and read again and again"""
    sweep = ctx.choose("sweep", SWEEPS[:2] + SWEEPS[4:])
    outer = ctx.choose("outer", OUTER[:3])
    variables = ctx.choose("variables", [VARS[:2], VARS[2:4],
                                         [VARS[3], VARS[6], VARS[7]]])
    comments = ctx.choose("comments", COMMENTS)
    fn = target(ctx, "")
    db, models = block([sweep] + outer, variables, comments)
    save(ctx, db, fn, "name")
    models = dict((k, (Var(v.name, v.kind, v.matrix, si(v.unit)[1]),
                       relabel(v.written(m), [sweep] + outer,
                               [dim_written(d) for d in [sweep] + outer])))
                  for k, (v, m) in models.items())
    sweep = dim_written(sweep)
    outer = [dim_written(d) for d in outer]
    for d in outer:
        d.kind = "sweep"
    for n in range(3):
        db = read_spdata(fn, hyper=True)
        ctx.step()
        check_read(ctx, db, sweep, outer, models, comments, True, fn,
                   "read %d" % (n + 1))
        if n < 2:
            save(ctx, db, fn, "name")
    ctx.state((sweep.name, repr(outer), repr(comments)))
    ctx.observe(list(db.vardata.keys()))


def groups(ctx):
    """variables that do not have the same dimensions"""
    f = D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz")
    p = D("sweep", "P", [-1, 4], "W")
    g = D("sweep", "Vx", [.5, 1.5], "V")
    h = D("sweep", "u", [1., 2., 3.], "m")
    menu = [Var("x", dims=[f], unit="V"), Var("y", "complex", dims=[p]),
            Var("z", dims=[f, g]), Var("S", "complex", (2, 2), dims=[f]),
            Var("o", dims=[p, h], unit="A"),
            Var("v", dims=[f, g], unit="W")]
    variables = [v for v in menu if ctx.choose(v.__mc_name__, [0, 1])]
    dangling = ctx.subset("dimension", [f, p])
    order = ctx.choose("order", [1, -1])
    variables = variables[::order]
    if not variables and not dangling:
        raise ctx_prune()
    db, models = block([], variables)
    for d in dangling:
        if d.name not in db.ivardata:
            db[d.name] = d.real()
    fn = target(ctx, "")
    save(ctx, db, fn, "name")
    got = read_spdata(fn, hyper=True)
    ctx.step()
    used = dict((d.name, d) for v in variables for d in v.dims)
    used.update((d.name, d) for d in dangling)
    for name, (v, m) in models.items():
        expect(ctx, got, name, relabel(v.written(m), v.dims,
                                       [dim_written(d) for d in v.dims]),
               v.unit, "read")
    for d in used.values():
        expect_dim(ctx, got, dim_written(d), "read")
    ctx.check(set(got.vardata.keys()) == set(models) | set(["FILENAME"]),
              lambda: "variables %r" % got.vardata.keys())
    ctx.state(tuple(sorted(models)) + tuple(d.name for d in dangling))
    ctx.observe(sorted(got.vardata.keys()))


def ctx_prune():
    from mc.engine import Prune
    return Prune("nothing to save")


# ---------------------------------------------------------------------------
# files made by others
NUM = [("1", 1.), ("-2.5", -2.5), ("1e3", 1e3), ("+1.5E-03", 1.5e-3),
       (".5", .5), ("7.", 7.), (" 4 ", 4.), ("1e+010", 1e10)]
HEADS = [("freq", "freq", 1, "Hz"), ("Freq", "freq", 1, "Hz"),
         ("freq [GHz]", "freq", 1e9, "Hz"), ("freq[MHz]", "freq", 1e6, "Hz"),
         ("Vds", "Vds", 1, "V"), ("p [dBm]", "p", 1, "dBm"),
         ("t", "t", 1, None), ("Frequency", "freq", 1, "Hz"),
         ("_t", "_t", 1, None)]
COLS = [(["x"], "x", lambda a, b: a, 1, None),
        (["x [mV]"], "x", lambda a, b: a, 1e-3, "V"),
        (["Re(x)", "Im(x)"], "x", complex, 1, None),
        (["Im(x)", "Re(x)"], "x", lambda a, b: complex(b, a), 1, None),
        (["Re(x) [uA]", "Im(x) [uA]"], "x", complex, 1e-6, "A"),
        (["Mag(x)", "Arg(x)"], "x",
         lambda a, b: a * complex(np.cos(np.deg2rad(b)),
                                  np.sin(np.deg2rad(b))), 1, None),
        (["Mean(x)"], "x", lambda a, b: a, 1, None),
        (["Std(x)"], "s_x", lambda a, b: a, 1, None),
        (["b1/a1 raw"], "b11", lambda a, b: a, 1, None),
        (["Id"], "Id", lambda a, b: a, 1, "A"),
        ([" x "], "x", lambda a, b: a, 1, None),
        (["_x"], "_x", lambda a, b: a, 1, None)]
PRE = [([], {}), (["!plain text"], {}), (["!A=3"], {"A": (3., None)}),
       (["! A [mV] : 3"], {"A": (3e-3, "V")}),
       (["!A: 1.5e-12 F"], {"A": (1.5e-12, "F")}),
       (["!Fullcomments", "!A: text here"], {"A": ("text here", None)}),
       (["", "!A=1e10", ""], {"A": (1e10, None)}),
       (["!Full two-port calibration", "!Full", "!fullcomments!"], {})]


def foreign(ctx):
    head, hname, hmul, hunit = ctx.choose("sweep", HEADS)
    cols, cname, fn_, cmul, cunit = ctx.choose("column", COLS)
    pre, props = ctx.choose("before", PRE)
    start = ctx.choose("numbers", range(len(NUM)))
    nrows = ctx.choose("rows", [1, 3])
    eol = ctx.choose("line ends", ["\n", "\r\n"])
    final = ctx.flag("final newline")
    lines = list(pre) + ["\t".join([head] + cols)]
    rows = []
    for r in range(nrows):
        cells = [NUM[(start + r * 3 + k) % len(NUM)]
                 for k in range(1 + len(cols))]
        rows.append([c[1] for c in cells])
        lines.append("\t".join(c[0] for c in cells))
    text = eol.join(lines) + (eol if final else "")
    fn = target(ctx, "")
    with open(fn, "wb") as fil:
        fil.write(text.encode("cp1252"))
    got = read_spdata(fn)
    ctx.step()
    dim = D("sweep", hname, [r[0] * hmul for r in rows], hunit)
    want = [fn_(r[1], r[-1]) * cmul for r in rows]
    if len(set(dim.labels)) == len(dim.labels):
        expect(ctx, got, cname, L.fill([dim], want), cunit, "read", tol=1e-13)
    else:
        expect_dim(ctx, got, dim, "read")
        v = np.asarray(got.vardata[cname]).tolist()
        ctx.check(np.allclose(v, want, rtol=1e-13, atol=0),
                  lambda: "%s is %r, expected %r" % (cname, v, want))
    for k, (value, unit) in props.items():
        ctx.check(k in got.vardata, lambda: "no %s" % k)
        v = np.asarray(got.vardata[k]).tolist()
        ctx.check(v == value or abs(v - value) <= 1e-15 * abs(v),
                  lambda: "%s is %r, expected %r" % (k, v, value))
        ctx.check(got.vardata[k].unit == unit, lambda: "unit of %s is %r, "
                  "expected %r" % (k, got.vardata[k].unit, unit))
    expect_only(ctx, got, [cname, "FILENAME"] + list(props),
                [hname, "FILEINDEX"], "read")
    ctx.check(list(got.comments.fullcomments) ==
              [x[1:] for x in pre if x[:1] == "!" and x != "!Fullcomments"],
              lambda: "comments %r" % got.comments.fullcomments)
    ctx.state((head, tuple(cols), tuple(pre), nrows))
    ctx.observe(np.asarray(got.vardata[cname]).tolist())


def characters(ctx):
    """names and texts with every character a file can hold"""
    code = ctx.choose("byte", [b for b in range(0x80, 0x100) if b not in
                               (0x81, 0x8d, 0x8f, 0x90, 0x9d, 0xa0)])
    char = bytes([code]).decode("cp1252")
    where = ctx.choose("place", ["name", "text", "scalar text"])
    source = ctx.choose("file", ["saved", "foreign"])
    name = "a%sb" % char if where == "name" else "y"
    cells = ["p%sq" % char, "r"] if where == "text" else [1., 2.]
    fn = target(ctx, "")
    if source == "saved":
        db = DataBlock()
        f = DimSweep("t", [1., 2.])
        db[name] = hfarray(cells, dims=(f,))
        if where == "scalar text":
            db.comments = Comments(["w: p%sq" % char])
        save_spdata(db, fn)
    else:
        lines = ["t\t%s" % name, "1\t%s" % cells[0], "2\t%s" % cells[1]]
        if where == "scalar text":
            lines.insert(0, "!w: p%sq" % char)
        with open(fn, "wb") as fil:
            fil.write(("\n".join(lines) + "\n").encode("cp1252"))
    got = read_spdata(fn)
    ctx.step()
    ctx.check(name in got.vardata and
              np.asarray(got[name]).tolist() == cells,
              lambda: "read %r, expected %s=%r"
              % (dict((k, np.asarray(v).tolist()) for k, v in
                      got.vardata.items() if k != "FILENAME"), name, cells))
    if where == "scalar text":
        ctx.check("w" in got.vardata and str(np.asarray(got.w)) ==
                  "p%sq" % char, lambda: "w is %r" % got.vardata.get("w"))
    ctx.state((code, where, source))
    ctx.observe((code, where, source))


def elements(ctx):
    """columns named as elements of matrices, repeated columns"""
    n = ctx.choose("rows", [1, 2, 3])
    m = ctx.choose("columns", [1, 2, 3])
    base, jbase = ctx.choose("first index", [(1, 1), (0, 0), (2, 2), (1, 0),
                                             (2, 1), (1, 3)])
    cplx = ctx.subset("complex", range(min(n * m, 4)))
    order = ctx.choose("order", ["rows", "columns", "reverse"])
    rep = ctx.choose("repeated", [0, 2, 3])
    missing = ctx.flag("one missing")
    names = [(i, j) for i in range(n) for j in range(m)]
    kinds = dict((ij, k in cplx) for k, ij in enumerate(names))
    if order == "columns":
        names.sort(key=lambda x: (x[1], x[0]))
    elif order == "reverse":
        names.reverse()
    if missing:
        names = names[:-1]
    head = ["t"]
    for i, j in names:
        e = "Z%d%d" % (i + base, j + jbase)
        head += ["Re(%s)" % e, "Im(%s)" % e] if kinds[i, j] else [e]
    head += ["y"] * rep
    rows = []
    k = 0
    for t in range(2):
        row = [t * .5]
        for h in head[1:]:
            k += 1
            row.append(k * 1.25)
        rows.append(row)
    fn = target(ctx, "")
    with open(fn, "w") as fil:
        for r in [head] + [["%r" % x for x in row] for row in rows]:
            fil.write("\t".join(r) + "\n")
    got = read_spdata(fn)
    ctx.step()
    dim = D("sweep", "t", [0., .5])

    def value(i, j, row):
        e = "Z%d%d" % (i + base, j + jbase)
        if kinds[i, j]:
            return complex(row[head.index("Re(%s)" % e)],
                           row[head.index("Im(%s)" % e)])
        return row[head.index(e)]
    variables = ["FILENAME"]
    dims = ["t", "FILEINDEX"]
    I = sorted(set(i for i, j in names))
    J = sorted(set(j for i, j in names))
    first = not names or (I[0] + base, J[0] + jbase) == (1, 1)
    if len(names) > 1 and len(I) * len(J) == len(names) and first:
        want = L.fill([dim, D("mi", "i", range(len(I))),
                       D("mj", "j", range(len(J)))],
                      [value(i, j, r) for r in rows for i in I for j in J])
        expect(ctx, got, "Z", want, None, "read")
        variables.append("Z")
        dims += ["i", "j"]
    else:
        for i, j in names:
            e = "Z%d%d" % (i + base, j + jbase)
            expect(ctx, got, e, L.fill([dim], [value(i, j, r) for r in rows]),
                   None, "read")
            variables.append(e)
    if rep:
        variables.append("y")
        want = L.fill([dim, D("rep", "rep", range(rep))],
                      [x for r in rows for x in r[-rep:]])
        expect(ctx, got, "y", want, None, "read")
        dims.append("rep")
    expect_only(ctx, got, variables, dims, "read")
    ctx.state((tuple(head),))
    ctx.observe(head)


TABLES = [["!A=3", "freq\tx\tn", "1\t2.5\t3", "2\t-1e3\t4", "3\t0.5\t5"],
          ["freq\tx", "1\t2", "2\t3"],
          ["!@Vx=1", "freq\tx\ty", "1\t2\t3", "2\t3\t4",
           "!@Vx=2", "freq\tx\ty", "1\t5\t6", "2\t7\t8"],
          ["!@Vx [mV]=1", "!note", "f\tx", "1\t2"]]


def model_parse(text):
    """[(comments, header, rows)] of a well formed file, else None"""
    blocks = []
    state = None
    for line in text.split("\n"):
        line = line.strip()
        if not line:
            continue
        if line.startswith("!"):
            if state in (None, "data"):
                blocks.append([[], None, []])
            elif state == "header":
                return None
            blocks[-1][0].append(line[1:])
            state = "comment"
        elif line[0].isalpha():
            if state == "header":
                return None
            if state in (None, "data"):
                blocks.append([[], None, []])
            blocks[-1][1] = line.split("\t")
            state = "header"
        else:
            if state in (None, "comment"):
                return None
            row = line.split("\t")
            if len(row) != len(blocks[-1][1]):
                return None
            blocks[-1][2].append(row)
            state = "data"
    if state != "data":
        return None
    return blocks


def malformed(ctx):
    """damaged files are refused or read for what is left of them"""
    lines = list(ctx.choose("file", TABLES))
    how = ctx.choose("damage", ["cut", "drop line", "double line",
                                "drop cell", "add cell", "text sweep"])
    text = "\n".join(lines) + "\n"
    if how == "cut":
        text = text[:ctx.choose("at", range(len(text)))]
    elif how in ("drop line", "double line"):
        k = ctx.choose("line", range(len(lines)))
        if how == "drop line":
            del lines[k]
        else:
            lines.insert(k, lines[k])
        text = "\n".join(lines) + "\n"
    elif how in ("drop cell", "add cell"):
        k = ctx.choose("line", [i for i, l in enumerate(lines)
                                if not l.startswith("!")])
        cells = lines[k].split("\t")
        j = ctx.choose("cell", range(len(cells)))
        if how == "drop cell":
            del cells[j]
        else:
            cells.insert(j, "zz" if cells[j][:1].isalpha() else "7")
        lines[k] = "\t".join(cells)
        text = "\n".join(lines) + "\n"
    else:
        if not any("@" in l for l in lines):
            raise ctx_prune()
        text = text.replace("=1", ctx.choose("value", [
            "=abc", "=2014-01-01 10:00:00", "=1:2:3"]), 1)
    model = model_parse(text)
    if how == "text sweep":
        model = None
    fn = target(ctx, "")
    with open(fn, "w") as fil:
        fil.write(text)
    try:
        got = read_spdata(fn)
    except HFToolsIOError as exc:
        ctx.step()
        if model is not None and len(model) == 1:
            h = model[0][1]
            ctx.check(len(set(h)) < len(h), lambda: "a well formed file was "
                      "refused: %s" % exc)
        ctx.observe("refused")
        ctx.state((text, "refused"))
        return
    ctx.step()
    ctx.check(model is not None, lambda: "read %r as %r" % (
        text, dict((k, np.asarray(v).tolist())
                   for k, v in got.vardata.items() if k != "FILENAME")))
    names = model[0][1]
    if any(b[1] != names for b in model) or len(set(names)) < len(names):
        return
    for j, name in enumerate(names[1:]):
        cells = [r[j + 1] for b in model for r in b[2]]
        try:
            want = [float(c) for c in cells]
        except ValueError:
            continue
        v = np.asarray(got.vardata[name])
        if len(model) > 1:
            want = sorted(want)
            v = sorted(v.ravel().tolist())
        else:
            v = v.ravel().tolist()
        ctx.check(v == want, lambda: "%s is %r, expected %r"
                  % (name, v, want))
    ctx.state((text, "read"))
    ctx.observe(text)


def spaces(tier):
    return [
    Space("roundtrip", roundtrip, "5 sweeps x 6 sets of outer dimensions x "
          "ordered pairs of 10 kinds of variables, saved, read with and "
          "without hyper", tmpdir=True),
    Space("details", details, "comments, file objects, file names, read_data",
          tmpdir=True),
    Space("matrices", matrix_space(save_spdata,
             read_spdata, "a.txt", squeezed=True),
          "names and sizes of matrices", tmpdir=True),
    Space("histories", histories, "save and read three times", tmpdir=True),
    Space("large", large, "files of thousands of rows, hundreds of blocks and "
          "columns", tmpdir=True),
    Space("groups", groups, "all sets of 6 variables over different "
          "dimensions and of dangling dimensions", tmpdir=True),
    Space("foreign", foreign, "header and number spellings of files by others",
          tmpdir=True),
    Space("characters", characters, "122 characters in names and texts",
          tmpdir=True),
    Space("elements", elements, "matrix elements and repeated columns",
          tmpdir=True),
    Space("malformed", malformed, "4 files cut at every character, with every "
          "line or cell dropped or doubled", tmpdir=True),
]
