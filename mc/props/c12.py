# -*- coding: utf-8 -*-
"""C12: Touchstone files hold what was saved and what they say."""
import cmath
import math
import os

import numpy as np

from mc.engine import Space, Prune
from mc.labelled import D, L, compare
from mc.filemodel import (Var, block, dim_written, relabel, expect,
                          expect_dim, expect_only, fingerprint, si, numbers)
from hftools.dataset import DataBlock, hfarray
from hftools.file_formats import read_touchstone, save_touchstone, read_data
from hftools.file_formats.common import Comments
from hftools.file_formats.touchstone import TouchstoneError
from hftools.networks.multiports import SArray

ASSUMPTIONS = [
    "frequencies are strictly increasing, S is square",
    "comment lines do not start with '!'; text after '#' follows the order "
    "frequency unit, kind, format, R value"]

FREQ = [D("sweep", "freq", [1e9, 2e9, 3.5e9], "Hz"),
        D("sweep", "freq", [1., 2.25], "GHz"),
        D("sweep", "f", [0, 1, 2], None),
        D("sweep", "freq", [1e9], "Hz"),
        D("sweep", "freq", [1.26, 2.0, 7.5], "MHz", "%.1f"),
        D("sweep", "freq", [0., 1e-3, 1e15, 1e15 + 1], "Hz")]
Z0 = [None, 50., 75., 12.5, 1e-3]
COMMENTS = [None, [], [u"pl\u00e5in text \u20ac"], ["Hej=10 V", "Note: a, b=c", ""]]
SCALARS = [[], [("T", 25.5, "C")], [("Ibias", 3e-3, "A"), ("n", 7, None)],
           [("Vmon", 4., "mV")]]


def spar(n, freq, kind, order, fmt=None, start=0):
    i = D("mi", "i", range(n))
    j = D("mj", "j", range(n))
    m = L.fill([freq, i, j], numbers(kind, n * n * len(freq), start))
    dims = dict(f=freq, i=i, j=j)
    real = L([dims[k] for k in order], m.cells).real(
        dtype={"int": int, "complex": complex}.get(kind, float))
    if fmt:
        real.outputformat = fmt
    return m, real


def through(fmt, v):
    v = complex(v)
    return complex(float(fmt % v.real), float(fmt % v.imag))


def written(m, freq, kind, fmt):
    new = dim_written(freq)
    new = D("sweep", "freq", new.labels, "Hz")
    if freq.fmt:
        mul = si(freq.unit)[0]
        new.labels = [float(freq.fmt % (x * mul)) for x in freq.labels]
    if fmt is None:
        fmt = "%d" if kind == "int" else "%.16e"
    w = L(m.dims, dict((k, through(fmt, v)) for k, v in m.cells.items()))
    return relabel(w, [freq], [new]), new


def save(ctx, db, fn):
    before = fingerprint(db)
    save_touchstone(db, fn)
    ctx.step()
    ctx.check(before == fingerprint(db), "saving changed the data block")


def check_read(ctx, got, want, freq, z0, comments, scalars, fn, n,
               what="read"):
    expect(ctx, got, "S", want, None, what)
    expect_dim(ctx, got, freq, what)
    extra = dict((k, (v * si(u)[0], si(u)[1])) for k, v, u in scalars)
    if comments and comments[0].startswith("Hej"):
        extra.update(Hej=(10., "V"), Note=("a, b=c", None))
    check_z0(ctx, got, z0, what)
    for k, (value, unit) in extra.items():
        ctx.check(k in got.vardata, lambda: "%s: no variable %s" % (what, k))
        v = np.asarray(got.vardata[k]).tolist()
        ctx.check(v == value or (not isinstance(value, str) and
                                 abs(v - value) <= 1e-14 * abs(value)),
                  lambda: "%s: %s is %r, expected %r" % (what, k, v, value))
        ctx.check(got.vardata[k].unit == unit, lambda: "%s: unit of %s is %r, "
                  "expected %r" % (what, k, got.vardata[k].unit, unit))
    expect_only(ctx, got, ["S", "Z0", "FILENAME"] + list(extra),
                [freq.name, "i", "j", "FILEINDEX"], what)
    c = list(got.comments.fullcomments)
    want = list(comments or [])
    ctx.check(c[:len(want)] == want and len(c) == len(want) + len(scalars),
              lambda: "%s: comments %r, expected %r and %d scalars"
              % (what, c, want, len(scalars)))
    ctx.check(np.asarray(got.FILENAME).tolist() == fn,
              lambda: "%s: FILENAME %r" % (what, got.FILENAME))


def check_z0(ctx, got, z0, what):
    ctx.check("Z0" in got.vardata and
              np.asarray(got.vardata["Z0"]).tolist() == z0,
              lambda: "%s: Z0 is %r, expected %r"
              % (what, got.vardata.get("Z0"), z0))


def roundtrip(ctx):
    n = ctx.choose("ports", [1, 2, 3, 4])
    freq = ctx.choose("frequencies", FREQ)
    kind = ctx.choose("kind", ["complex", "real", "int"])
    order = ctx.choose("dimensions", ["fij", "ijf", "ifj", "jif", "fji",
                                      "jfi"])
    fmt = ctx.choose("format", [None, "%.6g"])
    if kind == "int" and fmt:
        raise Prune("integers have their own format")
    z0 = ctx.choose("Z0", Z0)
    where = ctx.choose("Z0 in", ["block", "SArray"] if z0 else ["nowhere"])
    m, S = spar(n, freq, kind, order, fmt)
    db = DataBlock()
    if where == "SArray":
        if fmt:
            raise Prune("formats belong to the block")
        S = SArray(S, Z0=z0)
    db.S = S
    if where == "block":
        db.Z0 = hfarray(z0, unit="Ohm")
    fn = os.path.join(ctx.tmp, "dut.s%dp" % n)
    save(ctx, db, fn)
    got = read_touchstone(fn)
    ctx.step()
    want, wf = written(m, freq, kind, fmt)
    check_read(ctx, got, want, wf, z0 or 50., None, [], fn, n)
    ctx.state((n, freq.name, repr(freq.labels), kind, order, fmt, z0))
    ctx.observe(np.asarray(got.S).tolist())


def histories(ctx):
    """comments and scalars through repeated saving and reading"""
    n = ctx.choose("ports", [1, 2, 3])
    freq = ctx.choose("frequencies", FREQ[:4])
    comments = ctx.choose("comments", COMMENTS)
    scalars = ctx.choose("scalars", SCALARS)
    z0 = ctx.choose("Z0", Z0[:3])
    cycles = 3
    m, S = spar(n, freq, "complex", "fij")
    db = DataBlock()
    db.S = S
    if z0:
        db.Z0 = hfarray(z0, unit="Ohm")
    for k, v, u in scalars:
        db[k] = hfarray(v, unit=u)
    if comments is not None:
        db.comments = Comments(list(comments))
    want, wf = written(m, freq, "complex", None)
    for k in range(cycles):
        fn = os.path.join(ctx.tmp, "dut%d.s%dp" % (k % 2, n))
        save(ctx, db, fn)
        reader = ctx.choose("reader", [read_touchstone, read_data])
        db = reader(fn)
        ctx.step()
        check_read(ctx, db, want, wf, z0 or 50., comments, scalars, fn, n,
                   "read %d" % (k + 1))
    ctx.state((n, repr(freq.labels), repr(comments), repr(scalars), z0))
    ctx.observe(list(db.vardata.keys()))


def refused(ctx):
    """what does not fit in a Touchstone file is refused"""
    extra = ctx.choose("sweeps", [1, 2, 3, 0])
    n = ctx.choose("ports", [1, 2, 3])
    exists = ctx.flag("file exists")
    dims = [D("sweep", "s%d" % k, [1., 2.]) for k in range(extra)]
    alld = dims + [D("mi", "i", range(n)), D("mj", "j", range(n))]
    m = L.fill(alld, numbers("complex", n * n * 2 ** extra))
    db = DataBlock()
    db.S = m.real(dtype=complex)
    fn = os.path.join(ctx.tmp, "a.s2p")
    if exists:
        with open(fn, "w") as fil:
            fil.write("old")
    try:
        save_touchstone(db, fn)
    except TouchstoneError:
        ctx.check(extra != 1, "S-parameters with one sweep refused")
        ctx.check(os.path.exists(fn) == exists,
                  "file made though nothing could be saved")
        if exists:
            with open(fn) as fil:
                ctx.check(fil.read() == "old", "file destroyed though nothing"
                          " could be saved")
    else:
        ctx.check(extra == 1, "saved S-parameters with %d sweeps" % extra)
    ctx.step()
    ctx.state((extra, n, exists))
    ctx.observe(extra)


# ---------------------------------------------------------------------------
UNITS = [("HZ", 1), ("Hz", 1), ("kHz", 1e3), ("KHZ", 1e3), ("MHz", 1e6),
         ("mhz", 1e6), ("GHz", 1e9), ("GHZ", 1e9), ("ghz", 1e9),
         ("THz", 1e12), ("PHZ", 1e15)]
R = [("", 50.), (" R 50", 50.), (" r 75", 75.), (" R 12.5", 12.5),
     ("  R   1e2", 100.)]
FORMATS = ["RI", "MA", "DB", "ri", "Ma", "dB"]


def to_complex(fmt, a, b):
    fmt = fmt.upper()
    if fmt == "RI":
        return complex(a, b)
    if fmt == "DB":
        a = 10 ** (a / 20.)
    return cmath.rect(a, math.radians(b))


def text(rows, wrap, tail, blank, sep, eol):
    """lines of data, rows wrapped as in Touchstone files"""
    out = []
    for row in rows:
        f, row = row[0], row[1:]
        n = int(math.sqrt(len(row) // 2))
        if n <= 2 or not wrap:
            lines = [[f] + row]
        else:
            per = 2 * n if wrap == "row" else 2 * min(n, wrap)
            lines = []
            for k in range(0, len(row), 2 * n):
                r = row[k:k + 2 * n]
                for q in range(0, 2 * n, per):
                    lines.append(r[q:q + per])
            lines[0] = [f] + lines[0]
        for k, line in enumerate(lines):
            s = sep.join("%.10g" % x for x in line)
            out.append(s + (tail if k == 0 else ""))
        if blank:
            out.append(blank)
    return eol.join(out)


def model(rows, mul, fmt):
    n = int(math.sqrt((len(rows[0]) - 1) // 2))
    freq = D("sweep", "freq", [r[0] * mul for r in rows], "Hz")
    i, j = D("mi", "i", range(n)), D("mj", "j", range(n))
    cells = {}
    for r in rows:
        values = [to_complex(fmt, r[1 + 2 * k], r[2 + 2 * k])
                  for k in range(n * n)]
        for a in range(n):
            for b in range(n):
                k = b * n + a if n == 2 else a * n + b
                cells[frozenset([(freq.key, r[0] * mul), (i.key, a),
                                 (j.key, b)])] = values[k]
    return L([freq, i, j], cells), freq


def foreign_rows(n, npoints, start=0):
    rows = []
    k = start
    for p in range(npoints):
        row = [p * 1.5 + 0.5]
        for q in range(2 * n * n):
            k += 1
            row.append(round(((k * 37) % 101) * .125 - 5 + k * .5, 6))
        rows.append(row)
    return rows


def foreign(ctx):
    """headers and layouts of files made by others"""
    n = ctx.choose("ports", [1, 2, 3, 4])
    unit, mul = ctx.choose("unit", UNITS)
    kind = ctx.choose("parameter", ["S", "y", "Z", "H", "g"])
    if kind.upper() in "HG" and n != 2:
        raise Prune("hybrid parameters describe two-ports")
    fmt = ctx.choose("format", FORMATS)
    r, z0 = ctx.choose("R", R)
    lead = ctx.choose("#", ["#", "# ", "  #  "])
    npoints = ctx.choose("points", [1, 2])
    rows = foreign_rows(n, npoints)
    content = lead + " ".join([unit, kind, fmt]) + r + "\n"
    content += text(rows, "row", "", "", " ", "\n") + "\n"
    fn = os.path.join(ctx.tmp, "a.s%dp" % n)
    with open(fn, "w") as fil:
        fil.write(content)
    got = read_touchstone(fn)
    ctx.step()
    want, freq = model(rows, mul, fmt)
    expect(ctx, got, kind.upper(), want, None, "read", tol=1e-12)
    check_z0(ctx, got, z0, "read")
    expect_only(ctx, got, [kind.upper(), "Z0", "FILENAME"],
                ["freq", "i", "j", "FILEINDEX"], "read")
    ctx.state((n, unit, kind, fmt, r, npoints))
    ctx.observe(np.asarray(got[kind.upper()]).tolist())


def layout(ctx):
    """wrapping, separators, comments and blank lines"""
    n = ctx.choose("ports", [1, 2, 3, 4])
    npoints = ctx.choose("points", [1, 2, 4])
    wrap = ctx.choose("wrap", [None, "row", 2, 1] if n > 2 else [None])
    tail = ctx.choose("after a line", ["", " ! note", "!1 2 3", "\t!"])
    blank = ctx.choose("between", ["", " ", "! A=3"])
    sep = ctx.choose("separator", [" ", "\t", "   "])
    eol = ctx.choose("line ends", ["\n", "\r\n"])
    final = ctx.flag("final newline")
    before = ctx.choose("before", ["", "!first", "\n\n! B: 4 mV"])
    rows = foreign_rows(n, npoints, 7)
    content = (before + "\n" if before else "") + "# MHZ S RI R 50\n"
    content = content.replace("\n", eol)
    content += text(rows, wrap, tail, blank, sep, eol)
    content += eol if final else ""
    fn = os.path.join(ctx.tmp, "a.s%dp" % n)
    with open(fn, "wb") as fil:
        fil.write(content.encode("ascii"))
    got = read_touchstone(fn)
    ctx.step()
    want, freq = model(rows, 1e6, "RI")
    expect(ctx, got, "S", want, None, "read")
    props = []
    if blank.startswith("!"):
        props.append("A")
        ctx.check(np.asarray(got.A).tolist() == 3, lambda: "A is %r" % got.A)
    if "B" in before:
        props.append("B")
        ctx.check(abs(np.asarray(got.B).tolist() - 4e-3) < 1e-15 and
                  got.B.unit == "V", lambda: "B is %r" % got.B)
    expect_only(ctx, got, ["S", "Z0", "FILENAME"] + props,
                ["freq", "i", "j", "FILEINDEX"], "read")
    lines = [x.strip()[1:].strip() for x in content.split("\n")
             if x.strip().startswith("!")]
    ctx.check(list(got.comments.fullcomments) == lines, lambda: "comments %r,"
              " expected %r" % (got.comments.fullcomments, lines))
    ctx.state((n, npoints, wrap, tail, blank, sep, eol, final, before))
    ctx.observe(np.asarray(got.S).tolist())


def noise(ctx):
    """noise parameters after the S-parameters of a two-port"""
    fmt = ctx.choose("format", FORMATS[:3])
    unit, mul = ctx.choose("unit", [("GHZ", 1e9), ("Hz", 1)])
    r, z0 = ctx.choose("R", R)
    ns = ctx.choose("points", [1, 2, 3])
    nn = ctx.choose("noise points", [1, 2, 3])
    same = ctx.choose("first noise frequency", ["first", "last", "below"])
    sep = ctx.choose("between", ["", "! noise\n", "\n"])
    rows = foreign_rows(2, ns)
    first = dict(first=rows[0][0], last=rows[-1][0], below=.125)[same]
    nrows = [[first + 1.5 * k, 1.5 * k + .5, .25 * k + .125, 30. * k - 40,
              .5 * k + .25] for k in range(nn)]
    content = "# %s S %s%s\n" % (unit, fmt, r)
    content += text(rows, None, "", "", " ", "\n") + "\n" + sep
    content += "\n".join(" ".join("%.10g" % x for x in row)
                         for row in nrows) + "\n"
    fn = os.path.join(ctx.tmp, "a.s2p")
    with open(fn, "w") as fil:
        fil.write(content)
    got = read_touchstone(fn)
    ctx.step()
    want, freq = model(rows, mul, fmt)
    expect(ctx, got, "S", want, None, "read", tol=1e-12)
    nf = [row[0] * mul for row in nrows]
    shared = nf == freq.labels
    dim = freq if shared else D("sweep", "freqn", nf, "Hz")
    for name, value in [
            ("Fmin", [10 ** (row[1] / 10.) for row in nrows]),
            ("Gopt", [to_complex(fmt, row[2], row[3]) for row in nrows]),
            ("Rn", [row[4] * z0 for row in nrows])]:
        ctx.check(name in got.vardata, lambda: "no %s in %r"
                  % (name, got.vardata.keys()))
        compare(ctx, got.vardata[name], L.fill([dim], value), name,
                tol=1e-12)
    expect_dim(ctx, got, dim, "noise")
    check_z0(ctx, got, z0, "read")
    expect_only(ctx, got, ["S", "Z0", "FILENAME", "Fmin", "Gopt", "Rn"],
                ["freq", "i", "j", "FILEINDEX"] + [] if shared else
                ["freq", "i", "j", "FILEINDEX", "freqn"], "read")
    ctx.state((fmt, unit, r, ns, nn, same))
    ctx.observe(np.asarray(got.Gopt).tolist())


def large(ctx):
    """many points, many ports, saved here or written by others"""
    n, npoints = ctx.choose("ports, points", [
        (1, 3000), (2, 1501), (2, 129), (4, 300), (5, 2), (6, 5), (8, 40),
        (9, 2), (10, 3), (12, 2), (16, 2)])
    how = ctx.choose("by", ["save_touchstone", "wrapped at 4", "wrapped rows",
                            "one line"])
    fn = os.path.join(ctx.tmp, "a.s%dp" % n)
    comments = ["note %d" % k for k in range(npoints % 50)]
    if how == "save_touchstone":
        freq = D("sweep", "freq", [1e6 * (k + 1) for k in range(npoints)],
                 "Hz")
        m, S = spar(n, freq, "complex", "fij")
        db = DataBlock()
        db.S = S
        db.comments = Comments(list(comments))
        save(ctx, db, fn)
        want, freq = written(m, freq, "complex", None)
    else:
        rows = foreign_rows(n, npoints, 3)
        wrap = {"wrapped at 4": 4, "wrapped rows": "row"}.get(how)
        with open(fn, "w") as fil:
            for c in comments:
                fil.write("! %s\n" % c)
            fil.write("# MHZ S RI R 50\n")
            fil.write(text(rows, wrap, "", "", " ", "\n") + "\n")
        want, freq = model(rows, 1e6, "RI")
    for reader in (read_touchstone, read_data):
        got = reader(fn)
        ctx.step()
        check_read(ctx, got, want, freq, 50., comments, [], fn, n, how)
    ctx.state((n, npoints, how))
    ctx.observe((n, npoints, how))


def damaged(ctx):
    """files which do not hold a complete table are not misread"""
    n = ctx.choose("ports", [1, 2, 3])
    npoints = ctx.choose("points", [1, 2, 3, 5])
    rows = foreign_rows(n, npoints, 3)
    what = ctx.choose("damage", ["drop value", "add value", "swap", "repeat",
                                 "text", "no header", "two headers",
                                 "bad header", "no data"])
    head = ["# HZ S RI R 50"]
    lines = [["%.10g" % x for x in row] for row in rows]
    if what in ("drop value", "add value", "text"):
        r = ctx.choose("row", npoints)
        c = ctx.choose("column", len(lines[r]))
        if what == "drop value":
            del lines[r][c]
        elif what == "add value":
            lines[r].insert(c, "1.25")
        else:
            lines[r][c] = ctx.choose("text", ["abc", "1.2.3", "1,5", "--",
                                              "0x10"])
    elif what in ("swap", "repeat"):
        if npoints < 2:
            raise Prune("one point")
        a = ctx.choose("first", npoints - 1)
        b = ctx.choose("second", range(a + 1, npoints))
        if what == "swap":
            lines[a], lines[b] = lines[b], lines[a]
        else:
            lines[b][0] = lines[a][0]
    elif what == "no header":
        head = []
    elif what == "two headers":
        head = head * 2
    elif what == "bad header":
        head = [ctx.choose("header", ["# HZ", "#", "# XHZ S RI R 50",
                                      "# HZ S XX R 50", "# HZ Q RI R 50",
                                      "# HZ S RI R", "# HZ S RI 50",
                                      "# HZ S RI R 50 60"])]
    else:
        lines = []
    wrap = n == 3 and ctx.flag("wrapped")
    if what == "add value" and not wrap and any(
            len(lines[k]) + len(lines[k + 1]) == 2 * m * m + 1
            for k in range(npoints - 1) for m in (2, 3, 4, 5)):
        raise Prune("may be a table of a larger multiport")
    fn = os.path.join(ctx.tmp, "a.s%dp" % n)
    with open(fn, "w") as fil:
        for row in head:
            fil.write(row + "\n")
        for row in lines:
            if wrap:
                fil.write(" ".join(row[:7]) + "\n")
                for k in range(7, len(row), 6):
                    fil.write(" ".join(row[k:k + 6]) + "\n")
            else:
                fil.write(" ".join(row) + "\n")
    ctx.step()
    try:
        got = read_touchstone(fn)
    except (TouchstoneError, ValueError) as exc:
        ctx.observe(type(exc).__name__)
    else:
        ctx.fail("damaged file was read as %r"
                 % dict((k, (v.dims, np.asarray(v).tolist()))
                        for k, v in got.vardata.items()))
    ctx.state((n, npoints, what, tuple(map(tuple, lines))))


def spaces(tier):
    return [
        Space("roundtrip", roundtrip, "1-4 ports x 6 frequency axes x 3 kinds "
              "x 6 orders of dimensions x formats x Z0 in 3 places",
              tmpdir=True),
        Space("histories", histories, "three save/read cycles with comments, "
              "scalars, Z0, both readers at every read", tmpdir=True),
        Space("refused", refused, "0-3 sweeps", tmpdir=True),
        Space("foreign", foreign, "header spellings x ports x formats",
              tmpdir=True),
        Space("layout", layout, "wrapping, separators, comments, blank lines",
              tmpdir=True),
        Space("noise", noise, "noise data after S-parameters", tmpdir=True),
        Space("large", large, "up to 3000 points and 16 ports", tmpdir=True),
        Space("damaged", damaged, "every dropped, added or mistyped number, "
              "swapped and repeated rows, bad headers", tmpdir=True)]
