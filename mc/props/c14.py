# -*- coding: utf-8 -*-
"""C14: MDIF files hold what was saved and what they say."""
import os

import numpy as np

from mc.engine import Space, Prune
from mc.labelled import D, L, coords
from mc.filemodel import (Var, EXTREME, GUESS, block, relabel, expect,
                          expect_dim, collapse, column, drop, fingerprint, si,
                          many, LARGE, large_dims)
from mc.props.c13 import written, dim_read, put
from mc.matrices import space as matrix_space
from hftools.dataset import DataBlock, hfarray
from hftools.file_formats import read_mdif, save_mdif
from hftools.file_formats.mdif import MDIFError
from hftools.file_formats.readbase import ParseError
from hftools.file_formats.common import Comments

ASSUMPTIONS = [
    "names hold no spaces and do not end in two digits, saved matrices have "
    "more than one element",
    "MDIF files do not store units, values are in SI units and hftools "
    "guesses units from names",
    "several blocks of one name come back along the dimension INDEX",
    "variables of numbers are stored; comments do not start with '!'"]

FREQ = D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz")
GHZ = D("sweep", "freq", [1.25, 2.5], "GHz")
P = D("sweep", "P", [-1, 0, 2])
F1 = D("sweep", "f", [1.26], "Hz", "%.1f")
OUTER = [[],
         [D("sweep", "Vx", [.5, 1.5], "V")],
         [D("sweep", "Vx", [1.5, .5], "mV"), D("sweep", "T", [1, 2, 3])],
         [D("rep", "r", [5, 4])],
         [D("sweep", "Vx", [1e-9], "V")],
         [D("sweep", "A", [1, 2]), D("sweep", "B", [1.25, 1e-12], "A"),
          D("sweep", "C", [10, 20])]]
VARS = [Var("x", unit="V"), Var("n", "int"), Var("c", "complex", unit="mV"),
        Var("S", "complex", (2, 2)), Var("M", "real", (1, 3), unit="A"),
        Var("K", "int", (3, 1)), Var("Y", "complex", (2, 3), first=True),
        Var("w", fmt="%.3f", unit="W"), Var("e", pool=EXTREME),
        Var("d", "complex", fmt="%+10.3e"), Var("Vds", unit="mV")]
ATTR = [Var("ax", unit="V"), Var("ac", "complex"), Var("an", "int"),
        Var("as", "real", fmt="%.2f", unit="mA")]
SCAL = [Var("kx", unit="V"), Var("kn", "int", unit="mV")]
INDEX = "INDEX"


def expected(dims, names, outer, models, comments):
    """({variable: (model or None, unit)}, dims)"""
    n = int(np.prod([len(d) for d in outer])) if outer else 1
    index = D("rep", INDEX, range(n))
    old = dims + outer
    new = [dim_read(d) for d in old]
    wo = new[len(dims):]
    out = {}
    rd = [new[0]]
    for name, (v, m) in models.items():
        w = written(v, m, old, new)
        unit = GUESS.get(name)
        if v.dims is not None and not v.dims:       # scalar
            if outer:       # comment
                unit = si(v.unit)[1]
            if n > 1:
                w = L.fill([index], [w.flat()[0]] * n)
        elif n > 1:
            w = collapse(w, wo, index)
        else:
            w = drop(w, wo)
        out[name] = (w, unit)
        if v.matrix:
            rd += [d for d in m.dims if d.kind in ("mi", "mj")]
    for d in wo:
        if n > 1:
            out[d.name] = (column(d, wo, index), d.unit)
        else:
            rd.append(D("partial", d.name, d.labels, d.unit))
    if n > 1:
        rd.append(index)
    for k, (value, unit) in comments.items():
        out[k] = (L.fill([index] if n > 1 else [], [value] * n), unit)
    return out, rd, n


def check_read(ctx, got, want, dims, n, fn, what):
    ignore = ["FILENAME", "Created"] + (["FILEINDEX"] if n > 1 else [])
    for k, (m, unit) in want.items():
        expect(ctx, got, k, m, unit, what)
    for d in dims:
        if d.kind in ("mi", "mj"):
            ctx.check(d.name in got.ivardata, lambda: "%s: no dimension %s"
                      % (what, d.name))
        else:
            expect_dim(ctx, got, d, what)
    names = set(got.vardata.keys()) - set(ignore)
    ctx.check(names == set(want), lambda: "%s: variables %r, expected %r"
              % (what, sorted(names), sorted(want)))
    dn = set(got.ivardata.keys()) - set(["FILEINDEX"])
    wd = set(d.name for d in dims)
    ctx.check(dn == wd, lambda: "%s: dimensions %r, expected %r"
              % (what, sorted(dn), sorted(wd)))
    f = np.asarray(got.FILENAME).reshape(-1).tolist()
    ctx.check(f == [fn] * n, lambda: "%s: FILENAME %r" % (what, f))


def save(ctx, db, fn):
    before = fingerprint(db)
    save_mdif(db, fn)
    ctx.step()
    ctx.check(before == fingerprint(db), "saving changed the data block")


def read(ctx, fn, **kw):
    got = read_mdif(fn, verbose=False, **kw)
    ctx.step()
    return got


def roundtrip(ctx):
    sweep = ctx.choose("sweep", [FREQ, GHZ, P, F1])
    outer = ctx.choose("outer", OUTER)
    one = ctx.choose("variable", VARS)
    two = ctx.choose("second", [None] + [v for v in VARS if v is not one])
    attr = ctx.choose("attribute", [None] + ATTR)
    if attr is not None and not outer:
        raise Prune("attributes need blocks")
    scal = ctx.choose("scalar", [None] + SCAL)
    variables = [one] + ([two] if two is not None else [])
    if attr is not None:
        variables.append(Var(attr.name, attr.kind, unit=attr.unit,
                             fmt=attr.fmt, dims=outer))
    if scal is not None:
        variables.append(Var(scal.name, scal.kind, unit=scal.unit, dims=[]))
    name = "Meas.Data" if attr is None else None
    db, models = block([sweep] + outer, variables, blockname=name)
    fn = os.path.join(ctx.tmp, "a.mdif")
    save(ctx, db, fn)
    got = read(ctx, fn)
    name = name or "DATABLOCK"
    ctx.check(list(got) == [name], lambda: "blocks %r" % list(got))
    got = got[name]
    ctx.check(got.blockname == name, lambda: "blockname %r" % got.blockname)
    want, dims, n = expected([sweep], None, outer, models, {})
    check_read(ctx, got, want, dims, n, fn, "read")
    ctx.state((sweep.name, repr(outer), [v.name for v in variables]))
    ctx.observe([(k, np.asarray(v).tolist()) for k, v in got.vardata.items()
                 if k not in ("FILENAME", "Created")])


def large(ctx):
    """long files, many blocks and columns"""
    what, lengths, nvars = ctx.choose("size", LARGE)
    dims = large_dims(lengths)
    sweep, outer = dims[0], dims[1:]
    sweep.unit = "Hz"
    variables = many(VARS, nvars)
    if outer:
        variables += [Var("a" + v.name, v.kind, unit=v.unit, dims=outer)
                      for v in many(ATTR, nvars)]
    db, models = block(dims, variables, blockname="Long.Name")
    fn = os.path.join(ctx.tmp, "a.mdif")
    save(ctx, db, fn)
    got = read(ctx, fn)
    ctx.check(list(got) == ["Long.Name"], lambda: "blocks %r" % list(got))
    want, dims, n = expected([sweep], None, outer, models, {})
    check_read(ctx, got["Long.Name"], want, dims, n, fn, "read")
    ctx.state(what)
    ctx.observe(what)


COMMENTS = [(None, {}), ([], {}), ([u"pl\u00e5in text \u20ac"], {}),
            (["Hej=10 V", "Note: a, b=c"], {"Hej": (10., "V"),
                                            "Note": ("a, b=c", None)})]


def histories(ctx):
    """save and read again and again, with comments"""
    sweep = ctx.choose("sweep", [FREQ, GHZ, P])
    outer = ctx.choose("outer", OUTER)
    variables = ctx.choose("variables", [[VARS[0]], [VARS[2], VARS[3]],
                                         [VARS[10], VARS[1], VARS[6]]])
    attr = ctx.choose("attribute", [None, ATTR[1]])
    if attr is not None:
        if not outer:
            raise Prune("attributes need blocks")
        variables = variables + [Var(attr.name, attr.kind, dims=outer)]
    comments, props = ctx.choose("comments", COMMENTS)
    db, models = block([sweep] + outer, variables, comments, "B")
    want, dims, n = expected([sweep], None, outer, models, props)
    for k in range(3):
        fn = os.path.join(ctx.tmp, "a%d.mdif" % (k % 2))
        save(ctx, db, fn)
        how = ctx.choose("read", ["block", "all"])
        if how == "block":
            db = read(ctx, fn, blockname="B")
        else:
            db = read(ctx, fn)["B"]
        if k:       # units of comments are not stored with the data
            for name in props:
                if n > 1:
                    want[name] = (want[name][0], None)
        for d in dims:
            if d.name == INDEX:
                d.labels = [float(x) if k else x for x in d.labels]
        check_read(ctx, db, want, dims, n, fn, "read %d" % (k + 1))
        c = list(db.comments.fullcomments)
        ctx.check(len(c) == 1 + len(comments or []) and
                  c[0].startswith("Created") and
                  c[1:] == list(comments or []),
                  lambda: "read %d: comments %r" % (k + 1, c))
    ctx.state((sweep.name, repr(outer), [v.name for v in variables],
               repr(comments)))
    ctx.observe(list(db.vardata.keys()))


def groups(ctx):
    """variables over different dimensions come back in blocks of their own"""
    f = D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz")
    g = D("sweep", "Vx", [.5, 1.5], "V")
    h = D("sweep", "u", [1., 2., 3.], "m")
    menu = [Var("x", dims=[f], unit="V"), Var("y", "complex", dims=[h]),
            Var("z", dims=[f, g]), Var("S", "complex", (2, 2), dims=[g]),
            Var("o", dims=[g, f], unit="A"), Var("k", dims=[]),
            Var("v", dims=[h, g, f], unit="W")]
    variables = [v for v in menu if ctx.choose(v.__mc_name__, [0, 1])]
    if not any(v.dims for v in variables):
        raise Prune("nothing to save")
    variables = variables[::ctx.choose("order", [1, -1])]
    db, models = block([], variables, blockname="B")
    fn = os.path.join(ctx.tmp, "a.mdif")
    save(ctx, db, fn)
    got = read(ctx, fn)
    old = [f, g, h]
    new = [dim_read(d) for d in old]
    for name, (v, m) in models.items():
        hits = [b for b in got.values() if name in b.vardata]
        ctx.check(len(hits) >= 1, lambda: "%s is lost, blocks %r" % (
            name, dict((k, b.vardata.keys()) for k, b in got.items())))
        w = written(v, m, old, new)
        for b in hits:
            # all values with the labels they belong to
            arr = b.vardata[name]
            dn = [d.name for d in arr.dims]
            labels = dict((d.name, np.asarray(d.data).tolist())
                          for d in arr.dims)
            raw = np.asarray(arr)
            seen = {}
            for idx in np.ndindex(*raw.shape):
                c = {}
                for d in w.dims:
                    if d.name in dn:
                        c[d.key] = labels[d.name][idx[dn.index(d.name)]]
                    elif INDEX in dn:
                        col = np.asarray(b.vardata[d.name]).tolist()
                        c[d.key] = col[idx[dn.index(INDEX)]]
                    else:
                        ctx.fail("%s: nothing known about %s" % (name, d))
                val = raw[idx].tolist()
                key = frozenset(c.items())
                ctx.check(key in w.cells and w.cells[key] == val,
                          lambda: "%s is %r at %r, expected %r"
                          % (name, val, c, w.cells.get(key)))
                seen[key] = 1
            ctx.check(len(seen) == len(w.cells), lambda: "%s: %d of %d values"
                      % (name, len(seen), len(w.cells)))
    ctx.state(tuple(v.name for v in variables))
    ctx.observe(sorted(got))


# ---------------------------------------------------------------------------
NUM = [("1", 1.), ("-2.5", -2.5), ("1e3", 1e3), ("+1.5E-03", 1.5e-3),
       (".5", .5), ("7.", 7.), ("1e+001", 10.)]


def foreign(ctx):
    """blocks of files made by others"""
    nblocks = ctx.choose("blocks", [1, 2, 3])
    cols = ctx.choose("columns", [
        ["x(real)"], ["x(complex)"], ["n(integer)", "x(real)"],
        ["S[1,1](complex)", "S[1,2](complex)", "S[2,1](complex)",
         "S[2,2](complex)"],
        ["S[2,1](complex)", "S[1,1](real)"], ["v[1](real)", "v[2](real)"],
        ["S[1,2](complex)", "y(real)"], ["s(string)", "x(real)"]])
    split = ctx.choose("split", [None, 1])
    if split and len(cols) < 2:
        raise Prune("one column")
    sweepname = ctx.choose("sweep", ["freq(real)", "SWEEP.freq(real)"])
    var = ctx.choose("var", [None, "Vg(real)", "SWEEP.Vg(real)",
                             "Vg(integer)"])
    attr = ctx.choose("attribute", [None, "A(real)", "A(complex)",
                                    "A(string)"])
    comment = ctx.choose("comment", [None, "first", "each"])
    sep = ctx.choose("separator", [" ", "\t"])
    start = ctx.choose("numbers", [0, 3])
    lines = []
    tables = []
    q = start
    for b in range(nblocks):
        if comment == "each" or (comment == "first" and b == 0):
            lines.append("! Q = %d V" % b)
        if var:
            lines.append("VAR %s = %d" % (var, b + 5))
        lines.append("BEGIN blk")
        if attr:
            value = {"real": "%d.5", "complex": "%d.5 -3",
                     "string": '"n%d"'}[attr[2:-1]] % b
            lines.append("# %s = %s" % (attr, value))
        head = [sweepname] + cols
        if split:
            lines.append("% " + sep.join(head[:2]))
            lines.append("% " + sep.join(head[2:]))
        else:
            lines.append("% " + sep.join(head))
        table = []
        for r in range(2):
            cells = ["%d.5" % (r + 1)]
            values = [r + 1.5]
            pos = []
            for c in cols:
                kind = c.split("(")[1][:-1]
                x, y = NUM[q % 7], NUM[(q + 2) % 7]
                q += 1
                if kind == "integer":
                    cells.append("%d" % q)
                    values.append(q)
                elif kind == "string":
                    cells.append('"t%d"' % q)
                    values.append("t%d" % q)
                elif kind == "real":
                    cells.append(x[0])
                    values.append(x[1])
                else:
                    cells.append(x[0])
                    cells.append(y[0])
                    values.append(complex(x[1], y[1]))
                if len(pos) == 0:
                    pos.append(len(cells))
            if split:
                lines.append(sep.join(cells[:pos[0]]))
                lines.append(sep.join(cells[pos[0]:]))
            else:
                lines.append(sep.join(cells))
            table.append(values)
        tables.append(table)
        lines.append("END")
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    got = read(ctx, fn, blockname="blk")
    freq = D("sweep", "freq", [1.5, 2.5], "Hz")
    index = D("rep", INDEX, range(nblocks))
    extra = [index] if nblocks > 1 else []
    want = {}

    def col(name):
        k = 1 + [c.split("(")[0] for c in cols].index(name)
        return dict(((b, r), tables[b][r][k]) for b in range(nblocks)
                    for r in range(2))
    names = [c.split("(")[0] for c in cols]
    if names[0].startswith("S[") and names[-1] != "y":
        I = sorted(set(int(x[2]) for x in names))
        J = sorted(set(int(x[4]) for x in names))
        want["S"] = L.fill(
            extra + [freq, D("mi", "i", range(len(I))),
                     D("mj", "j", range(len(J)))],
            [col("S[%d,%d]" % (i, j))[b, r] for b in range(nblocks)
             for r in range(2) for i in I for j in J])
    elif names[0].startswith("v["):
        want["v"] = L.fill(extra + [freq, D("mj", "j", range(2))],
                           [col("v[%d]" % i)[b, r] for b in range(nblocks)
                            for r in range(2) for i in (1, 2)])
    else:
        for name in names:
            want[name] = L.fill(extra + [freq], [
                col(name)[b, r] for b in range(nblocks) for r in range(2)])
    if attr:
        conv = {"real": lambda b: b + .5, "complex":
                lambda b: complex(b + .5, -3), "string": lambda b: "n%d" % b}
        want["A"] = L.fill(extra, [conv[attr[2:-1]](b)
                                   for b in range(nblocks)])
    if comment:
        want["Q"] = L.fill(extra, [float(b if comment == "each" else 0)
                                   for b in range(nblocks)])
    if var and nblocks > 1:
        want["Vg"] = L.fill(extra, [b + 5 for b in range(nblocks)])
    elif var:
        expect_dim(ctx, got, D("partial", "Vg", [5], None), "read")
    for k, m in want.items():
        expect(ctx, got, k, m, "V" if k == "Q" else None, "read")
    names = set(got.vardata.keys()) - set(["FILENAME", "FILEINDEX"])
    ctx.check(names == set(want), lambda: "variables %r, expected %r"
              % (sorted(names), sorted(want)))
    for v in got.vardata.values():
        for d in v.dims:
            ctx.check(d.name in got.ivardata, lambda: "dimension %s of a "
                      "variable is not in the block" % d.name)
    ctx.state((nblocks, tuple(cols), split, var, attr, comment))
    ctx.observe(sorted(names))


def misfits(ctx):
    """blocks of one name which do not fit are refused"""
    def table(freqs, cols, var):
        return ((["VAR %s(real) = 1" % var] if var else []) + ["BEGIN b"] +
                ["% f(real) " + " ".join("%s(real)" % c for c in cols)] +
                [" ".join(["%s" % f] + ["%d" % (k + 1)
                                        for k, _ in enumerate(cols)])
                 for f in freqs] + ["END"])
    opts = [([1, 2], ["x", "y"], "V"), ([1, 2], ["x", "y"], None),
            ([1, 3], ["x", "y"], "V"), ([1, 2, 3], ["x", "y"], "V"),
            ([1, 2], ["x"], "V"), ([1, 2], ["x", "z"], "V"),
            ([1, 2], ["x", "y", "z"], "V"), ([1, 2], ["x", "y"], "W"),
            ([2, 1], ["x", "y"], "V")]
    n = ctx.choose("blocks", [2, 3])
    files = ctx.flag("one file each")
    picks = [ctx.choose("block", opts) for _ in range(n)]
    blocks = [table(*p) for p in picks]
    if files:
        for k, b in enumerate(blocks):
            put(os.path.join(ctx.tmp, "a%d.mdif" % k), b)
        fn = os.path.join(ctx.tmp, "a*.mdif")
    else:
        fn = os.path.join(ctx.tmp, "a.mdif")
        put(fn, sum(blocks, []))
    fits = all(p == picks[0] for p in picks)
    try:
        got = read(ctx, fn)
    except MDIFError:
        ctx.check(not fits, "blocks which fit were refused")
        ctx.step()
    else:
        ctx.check(fits, lambda: "blocks which do not fit were merged into %r"
                  % (got,))
        x = np.asarray(got["b"].x)
        ctx.check(sorted(x.shape) == sorted((n, len(picks[0][0]))),
                  lambda: "x is %r" % x)
    ctx.state((n, files, repr(picks)))
    ctx.observe(fits)


def missing(ctx):
    """asking for a block which is not in the file"""
    names = ctx.choose("blocks", [["a"], ["a", "b"], ["a", "b", "a"]])
    ask = ctx.choose("ask for", ["a", "b", "c", "A"])
    lines = []
    for k, b in enumerate(names):
        lines += ["BEGIN %s" % b, "% f(real) x(real)", "1 %d" % k, "END"]
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    try:
        got = read(ctx, fn, blockname=ask)
    except MDIFError:
        ctx.check(ask not in names, "block was not found")
        ctx.step()
    else:
        ctx.check(ask in names and got is not None,
                  lambda: "block %r was found: %r" % (ask, got))
        x = sorted(np.asarray(got.x).reshape(-1).tolist())
        ctx.check(x == [k for k, b in enumerate(names) if b == ask],
                  lambda: "x is %r" % x)
    ctx.state((tuple(names), ask))
    ctx.observe(ask in names)


BASE = [
    ["!A=3", "VAR V(real) = 1", "BEGIN b", "# q(real) = 4",
     "% f(real) x(real) c(complex)", "1 2 3 4", "5 6 7 8", "END",
     "VAR V(real) = 2", "BEGIN b", "# q(real) = 5",
     "% f(real) x(real) c(complex)", "1 12 13 14", "5 16 17 18", "END"],
    ["BEGIN b", "% f(real) S[1,1](real)", "% S[1,2](real)", "1 2", "3",
     "2 4", "5", "END", "!done"]]


def content(db):
    return dict((n, (sorted((k, repr(v.dims), np.asarray(v).tolist())
                            for k, v in b.vardata.items()
                            if k not in ("FILENAME", "A")),
                     sorted((k, np.asarray(v.data).tolist())
                            for k, v in b.ivardata.items())))
                for n, b in db.items())


def damaged(ctx):
    """lost, repeated and garbled lines, truncated files"""
    lines = list(ctx.choose("file", BASE))
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    good = content(read(ctx, fn))
    what = ctx.choose("damage", ["lost", "repeated", "truncated", "values"])
    k = ctx.choose("line", len(lines))
    if lines[k][0] == "!":
        raise Prune("comment")
    if what == "lost":
        gone = lines.pop(k)
        if "%" in gone and lines[0] == "BEGIN b":
            raise Prune("describes other data")
    elif what == "repeated":
        if lines[k][0] == "%" and lines[0] == "BEGIN b":
            raise Prune("describes other data")
        lines.insert(k, lines[k])
    elif what == "truncated":
        c = ctx.choose("column", len(lines[k]))
        lines = lines[:k] + [lines[k][:c]]
        text = [x for x in lines if x]
        if text and text[-1] == "END":
            raise Prune("complete blocks")
    else:
        if not lines[k][0].isdigit():
            raise Prune("data lines")
        v = lines[k].split()
        c = ctx.choose("column", len(v))
        how = ctx.choose("how", ["drop", "add", "text"])
        if how == "drop":
            del v[c]
        elif how == "add":
            v.insert(c, "9")
        else:
            v[c] = ctx.choose("text", ["abc", "1.2.3", "1,5"])
        lines[k] = " ".join(v)
        if not v:
            raise Prune("empty line")
    put(fn, lines)
    try:
        got = content(read(ctx, fn))
    except (MDIFError, ParseError, ValueError) as exc:
        ctx.step()
        ctx.observe(type(exc).__name__)
    else:
        same = got == good
        # losing everything about the second block's VAR or attribute
        ctx.check(same, lambda: "damaged file was read as %r, originally %r"
                  % (got, good))
        ctx.observe("same")
    ctx.state(tuple(lines))


def foreign_matrices(ctx):
    """matrices and vectors of files made by others, in any order"""
    name = ctx.choose("name", ["S", "A.b", "x_1", "h2o", "PortZ", "m-n"])
    rows, cols = ctx.choose("size", [
        (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (9, 10), (10, 2), (11, 11),
        (1, 12), (None, 1), (None, 2), (None, 12)])
    order = ctx.choose("order", ["rows", "columns", "backwards", "strided"])
    kind = ctx.choose("kind", ["real", "complex", "mixed"])
    extra = ctx.choose("other column", [None, "before", "after"])
    nblocks = ctx.choose("blocks", [1, 2])
    if rows is None:
        idx = [(j,) for j in range(cols)]
    else:
        idx = [(i, j) for i in range(rows) for j in range(cols)]
    shape = tuple(max(x) + 1 for x in zip(*idx))
    if order == "columns":
        idx.sort(key=lambda x: x[::-1])
    elif order == "backwards":
        idx.reverse()
    elif order == "strided":
        idx = idx[::3] + idx[1::3] + idx[2::3]
    kinds = [kind if kind != "mixed" else ("real", "complex")[q % 2]
             for q in range(len(idx))]
    if kind == "mixed" and len(idx) < 2:
        raise Prune("one element")
    if rows is None and kind == "mixed" and cols < 2:
        raise Prune("one element")
    lines = []
    want = np.zeros((nblocks, 2) + shape, complex)
    other = np.zeros((nblocks, 2))
    for b in range(nblocks):
        lines.append("BEGIN blk")
        head = ["%s[%s](%s)" % (name, ",".join("%d" % (x + 1) for x in pos), k)
                for pos, k in zip(idx, kinds)]
        if extra:
            head.insert(0 if extra == "before" else len(head), "other(real)")
        lines.append("% freq(real) " + " ".join(head))
        for r in range(2):
            cells = []
            for q, (pos, k) in enumerate(zip(idx, kinds)):
                value = 1000 * b + 300 * r + q + 1.25
                want[(b, r) + pos] = value
                cells.append("%.2f" % value)
                if k == "complex":
                    want[(b, r) + pos] = value - 0.5j * (q + 1)
                    cells.append("%.2f" % (-0.5 * (q + 1)))
            other[b, r] = 7 * b + r
            if extra:
                cells.insert(0 if extra == "before" else len(cells),
                             "%g" % other[b, r])
            lines.append("%d.5 " % (r + 1) + " ".join(cells))
        lines.append("END")
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    got = read_mdif(fn, verbose=False)["blk"]
    ctx.step()
    want = np.moveaxis(want, 0, 1)
    other = np.moveaxis(other, 0, 1)
    if nblocks == 1:
        want, other = want[:, 0], other[:, 0]
    names = set(got.vardata) - {"FILENAME", "FILEINDEX"}
    expected = {name} | ({"other"} if extra else set())
    ctx.check(names == expected, lambda: "variables %r instead of %r"
              % (sorted(names), sorted(expected)))
    x = np.asarray(got[name])
    ctx.check(x.shape == want.shape and np.array_equal(x, want),
              lambda: "%s came back as %r instead of %r" % (name, x, want))
    classes = [d.__class__.__name__ for d in got[name].dims]
    tail = (["DimMatrix_i", "DimMatrix_j"] if rows is not None
            else ["DimMatrix_j"])
    ctx.check(classes[:1] == ["DimSweep"] and classes[-len(tail):] == tail and
              len(classes) == want.ndim, lambda: "dims %r" % (got[name].dims,))
    if extra:
        ctx.check(np.array_equal(np.asarray(got["other"]), other), "other")
    ctx.state((name, shape, order, kind, extra, nblocks))
    ctx.observe((name, shape, order, kind, extra, nblocks))


def spellings(ctx):
    """names and values of variables, attributes and columns, one at a time"""
    place = ctx.choose("place", ["var", "attribute", "column"])
    kind, text, want = ctx.choose("value", [
        ("integer", "3", 3), ("integer", "-3", -3), ("integer", "+4", 4),
        ("integer", "007", 7), ("integer", "0", 0),
        ("integer", "2147483648", 2147483648),
        ("real", "3", 3.), ("real", "-.5", -.5), ("real", "1e-3", 1e-3),
        ("real", "+1.5E+003", 1500.), ("real", "00.25", .25),
        ("real", "1e300", 1e300), ("real", "-1e-300", -1e-300),
        ("complex", "1 2", 1 + 2j), ("complex", "-1.5 -2", -1.5 - 2j),
        ("complex", "0 1e-9", 1e-9j), ("complex", "3 0", 3 + 0j),
        ("string", '"abc"', "abc"), ("string", "abc", "abc"),
        ("string", '"a=b"', "a=b"), ("string", '"1.5"', "1.5"),
        ("string", '"a b"', "a b"), ("string", '" a"', " a"),
        ("string", '"a "', "a "), ("string", '"a#%!b"', "a#%!b")])
    if place == "column" and kind == "string" and len(text.split()) > 1:
        raise Prune("columns are separated by spaces")
    if place == "var" and kind == "complex":
        raise Prune("sweeps are numbers or names")
    name = ctx.choose("name", ["A", "a_b", "A.b", "A.b.c", "x2", "freqs",
                               "SWEEP.A", "A.SWEEP"])
    final = name[6:] if name.startswith("SWEEP.") and place != "column" \
        else name
    equals = ctx.choose("equals", [" = ", "=", " =", "= "])
    mark = ctx.choose("mark", ["# ", "#", "#  "])
    if place != "attribute" and mark != "# " or \
            place == "column" and equals != " = ":
        raise Prune("the same")
    lines = []
    if place == "var":
        lines.append("VAR %s(%s)%s%s" % (name, kind, equals, text))
    lines.append("BEGIN blk")
    if place == "attribute":
        lines.append("%s%s(%s)%s%s" % (mark, name, kind, equals, text))
    head = "% freq(real)"
    row = "1.5"
    if place == "column":
        head += " %s(%s)" % (name, kind)
        row += " " + text
    lines += [head + " z(real)", row + " 9", "END"]
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    got = read_mdif(fn, verbose=False)
    ctx.step()
    ctx.check(list(got) == ["blk"], lambda: "blocks %r" % list(got))
    got = got["blk"]
    where = got.ivardata if place == "var" else got.vardata
    ctx.check(final in where, lambda: "%r: no %s but %r"
              % (lines, final, list(where)))
    v = where[final]
    v = np.asarray(v.data if place == "var" else v)
    ctx.check(v.shape == (() if place == "attribute" else (1,)) and
              v.ravel()[0] == want, lambda: "%r: %s is %r, expected %r"
              % (lines, final, v, want))
    ctx.check(v.dtype.kind == {"integer": "i", "real": "f", "complex": "c",
                               "string": "U"}[kind],
              lambda: "%r: %s is %r" % (lines, final, v.dtype))
    ctx.check(np.asarray(got.z).tolist() == [9], "z")
    ctx.state(tuple(lines))
    ctx.observe((place, kind, final))


def wrapped(ctx):
    """rows which go over several lines"""
    n = ctx.choose("columns", [2, 3, 4, 5, 7])
    cuts = ctx.subset("line ends", list(range(1, n)))
    kinds = ctx.choose("kinds", ["real", "complex", "mixed"])
    rows = ctx.choose("rows", [1, 3])
    blocks = ctx.choose("blocks", [1, 2])
    kind = ["real" if k == 0 or kinds == "real" or
            (kinds == "mixed" and k % 2) else "complex" for k in range(n)]
    bounds = [0] + sorted(cuts) + [n]
    spans = list(zip(bounds[:-1], bounds[1:]))
    names = ["p"] + ["c%s" % "abcdefgh"[k] for k in range(1, n)]
    lines = []
    val = {}
    for b in range(blocks):
        lines.append("BEGIN blk")
        for lo, hi in spans:
            lines.append("% " + " ".join("%s(%s)" % (names[k], kind[k])
                                         for k in range(lo, hi)))
        for r in range(rows):
            for lo, hi in spans:
                cells = []
                for k in range(lo, hi):
                    x = r + 1. if k == 0 else 100. * b + 10 * r + k
                    val[b, r, k] = x
                    cells.append("%g" % x)
                    if kind[k] == "complex":
                        val[b, r, k] = complex(x, -k)
                        cells.append("%d" % -k)
                lines.append(" ".join(cells))
        lines.append("END")
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    got = read_mdif(fn, verbose=False)["blk"]
    ctx.step()
    ctx.check(set(got.vardata) - {"FILENAME", "FILEINDEX"} == set(names[1:]),
              lambda: "%r: variables %r" % (lines, list(got.vardata)))
    for k in range(1, n):
        w = [[val[b, r, k] for b in range(blocks)] for r in range(rows)]
        if blocks == 1:
            w = [x[0] for x in w]
        g = np.asarray(got[names[k]]).tolist()
        ctx.check(g == w, lambda: "%r: %s is %r, expected %r"
                  % (lines, names[k], g, w))
    ctx.check(got.ivardata["p"].data.tolist() == [r + 1. for r in
                                                  range(rows)],
              lambda: "%r: sweep %r" % (lines, got.ivardata["p"]))
    ctx.state(tuple(lines))
    ctx.observe((n, tuple(cuts), kinds, rows, blocks))


def incomplete(ctx):
    """elements which do not form a matrix or vector stay columns"""
    rows, cols = ctx.choose("size", [(1, 2), (2, 1), (2, 2), (3, 2),
                                     (None, 1), (None, 2), (None, 3)])
    first = ctx.choose("first", [0, 1, 2])
    skip = ctx.choose("missing", [None, 0, 1, 2])
    extra = ctx.choose("extra", [None, "last+2"])
    if rows is None:
        idx = [(j + first,) for j in range(cols)]
    else:
        idx = [(i + first, j + first) for i in range(rows)
               for j in range(cols)]
    if skip is not None:
        if skip >= len(idx) or len(idx) < 2:
            raise Prune("no such element")
        del idx[skip]
    if extra:
        idx.append(tuple(x + 2 for x in idx[-1]))
    sets = [sorted(set(x)) for x in zip(*idx)]
    full = (len(idx) == int(np.prod([len(x) for x in sets])) and
            all(x == list(range(1, len(x) + 1)) for x in sets))
    names = ["S[%s]" % ",".join("%d" % x for x in pos) for pos in idx]
    lines = ["BEGIN blk", "% freq(real) " + " ".join(n + "(real)" for n in
                                                     names)]
    lines += ["%d.5 " % r + " ".join("%d" % (100 * r + k) for k in
                                     range(len(idx))) for r in (1, 2)]
    lines.append("END")
    fn = os.path.join(ctx.tmp, "a.mdif")
    put(fn, lines)
    got = read_mdif(fn, verbose=False)["blk"]
    ctx.step()
    have = set(got.vardata) - {"FILENAME"}
    if full:
        ctx.check(have == {"S"}, lambda: "%r: variables %r" % (lines,
                                                               sorted(have)))
        a = np.asarray(got.S)
        for k, pos in enumerate(idx):
            at = tuple(x - 1 for x in pos)
            g = a[(slice(None),) + at].tolist()
            ctx.check(g == [100 + k, 200 + k], lambda: "%r: %s is %r"
                      % (lines, names[k], g))
    else:
        ctx.check(have == set(names), lambda: "%r: variables %r"
                  % (lines, sorted(have)))
        for k, n in enumerate(names):
            g = np.asarray(got[n]).tolist()
            ctx.check(g == [100 + k, 200 + k], lambda: "%r: %s is %r"
                      % (lines, n, g))
    ctx.state(tuple(names))
    ctx.observe(sorted(have))


def spaces(tier):
    return [
        Space("roundtrip", roundtrip, "4 sweeps x 6 sets of outer dimensions "
              "x ordered pairs of 11 kinds of variables x attributes x "
              "scalars", tmpdir=True),
        Space("matrices", matrix_space(save_mdif,
                 lambda fn: list(read_mdif(fn, verbose=False).values())[0], "a.mdif"),
              "names and sizes of matrices", tmpdir=True),
        Space("histories", histories, "three save/read cycles with comments",
              tmpdir=True),
        Space("groups", groups, "all sets of 7 variables over different "
              "dimensions", tmpdir=True),
        Space("large", large, "thousands of rows, hundreds of blocks, columns "
              "and attributes", tmpdir=True),
        Space("foreign", foreign, "blocks by others: columns, wrapped "
              "headers, VARs, attributes, comments", tmpdir=True),
        Space("foreign_matrices", foreign_matrices, "matrices and vectors of "
              "up to 11x11 with their columns in 4 orders", tmpdir=True),
        Space("spellings", spellings, "25 values x 8 names of sweeps, "
              "attributes and columns", tmpdir=True),
        Space("wrapped", wrapped, "every way to break rows of up to 7 "
              "columns", tmpdir=True),
        Space("incomplete", incomplete, "sets of elements which are a matrix "
              "or vector or not", tmpdir=True),
        Space("misfits", misfits, "all pairs and triples of 9 blocks in one "
              "or several files", tmpdir=True),
        Space("missing", missing, "blocks which are not in the file",
              tmpdir=True),
        Space("damaged", damaged, "every line lost, repeated, every value "
              "lost, added, garbled, file truncated at every byte",
              tmpdir=True)]
