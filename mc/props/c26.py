# -*- coding: utf-8 -*-
"""C26: comments keep their lines and state properties."""
import itertools
import os

import numpy as np

from mc.engine import Space, Prune, Named
from mc.labelled import D
from mc.filemodel import Var, block
from hftools.dataset import (hfarray, DimSweep, DataBlock, DimMatrix_i,
                             DimMatrix_j)
import hftools.dataset.comments as dc
import hftools.file_formats.common as fc
from hftools.file_formats import (save_spdata, read_spdata, save_citi,
                                  read_citi, save_mdif, read_mdif,
                                  save_touchstone, read_touchstone,
                                  save_hdf5, read_hdf5)

ASSUMPTIONS = [
    "a comment states a property as 'name [unit] : value' or 'name = value', "
    "the unit is optional",
    "a property that is a date without time may be a date or text"]

CLASSES = [Named("dataset.Comments", dc.Comments),
           Named("file_formats.Comments", fc.Comments)]

NAMES = ["x", "Vgs", "START Time", "Port 1", "a-b", "MV_8_104_GT1",
         "T_\u00e5"]

# text, value, unit
NUMBERS = [("10", 10., None), ("-2.5", -2.5, None), ("+2.2E+011", 2.2e11,
                                                     None),
           (".5", .5, None), ("1e-3", 1e-3, None), ("0", 0., None),
           ("3.", 3., None)]
WITH_UNIT = [("10 GHz", 1e10, "Hz"), ("0.5 mA", 5e-4, "A"),
             ("5.00 %", 0.05, None), ("10.00 dBm", 10., "dBm"),
             ("-3 dB", -3., "dB"), ("0.000000 s", 0., "s"),
             ("2 kOhm", 2000., "Ohm"), ("1uV", 1e-6, "V"),
             ("7 m", 7., "m")]
BRACKETS = [("[GHz]", 1e9, "Hz"), ("[mA]", 1e-3, "A"), ("[%]", 0.01, None),
            ("[dBm]", 1, "dBm"), ("[#]", 1, 0), ("[V]", 1, "V"),
            ("[1=ON]", 1, 0), ("[dB/GHz]", 1, "dB/GHz"), ("[ ]", 1,
                                                                None)]
TEXTS = ["TRL", "Type N male load", '"HP8510C raw waves"', "N/A", "b=c",
         "12:30", "Fri Jun 11 09:53:19 2010", "-", "abc 10", "\u00e5 5",
         "2002-10-25, 09:09", "1.2.3", "1-2", "10:20:30 x", "hot!",
         "Do not touch!!", "a!b"]
DATES = [("2010-10-19 16:01:26", "2010-10-19T16:01:26"),
         ("2010-10-19   16:01:26", "2010-10-19T16:01:26"),
         ("2010-10-19\t16:01", "2010-10-19T16:01"),
         ("1999-12-31 23:59:59", "1999-12-31T23:59:59"),
         ("2010-10-19 16:01:26.5", "2010-10-19T16:01:26.5"),
         ("2010-10-19 16:01:26.123456", "2010-10-19T16:01:26.123456")]
WRONG_DATES = ["2010-13-19 16:01:26", "2010-02-31 10:00",
               "2010-10-19 16:01 and more"]
SEPS = [":", "=", " : ", " = ", "=\t", "   :"]
PRE = ["", "!", "!  ", "!! "]


def expect(ctx, v, want, unit, what):
    ctx.check(isinstance(v, hfarray) and v.dims == (), lambda: "%s: "
              "property is %r" % (what, v))
    ctx.check(abs(float(v) - want) <= 1e-12 * abs(want), lambda: "%s: value "
              "%r, expected %r" % (what, v, want))
    if unit != 0:
        ctx.check(v.unit == unit, lambda: "%s: unit %r, expected %r"
                  % (what, v.unit, unit))


def make(ctx):
    """one line, what it must state"""
    name = ctx.choose("name", NAMES)
    sep = ctx.choose("sep", SEPS)
    kind = ctx.choose("kind", ["number", "number unit", "bracket", "text",
                               "date", "wrong date", "day", "empty",
                               "bracket text"])
    if kind == "number":
        text, v, u = ctx.choose("value", NUMBERS)
        return name, sep, "", text, ("num", v, u)
    if kind == "number unit":
        text, v, u = ctx.choose("value", WITH_UNIT)
        return name, sep, "", text, ("num", v, 0 if "%" in text else u)
    if kind == "bracket":
        b, mul, u = ctx.choose("unit", BRACKETS)
        gap = ctx.choose("gap", ["", "  "])
        text, v, _u = ctx.choose("value", NUMBERS)
        return name, sep, gap + b, text, ("num", v * mul,
                                          0 if "%" in b else u)
    if kind == "text":
        t = ctx.choose("value", TEXTS)
        return name, sep, "", t, ("text", t)
    if kind == "date":
        t, d = ctx.choose("value", DATES)
        return name, sep, "", t, ("date", d)
    if kind == "wrong date":
        t = ctx.choose("value", WRONG_DATES)
        return name, sep, "", t, ("text", t)
    if kind == "day":
        return name, sep, "", "2010-04-20", ("day", "2010-04-20")
    if kind == "empty":
        return name, sep.rstrip(), "", "", None
    b = ctx.choose("unit", BRACKETS)[0]
    t = ctx.choose("value", ["LIN", "20 30", "a b", "on",
                             "2010-10-19 16:01:26", "2010-10-19"])
    if t.startswith("2010"):
        return name, sep, " " + b, t, ("day", t)
    return name, sep, " " + b, t, ("text", t)


def judge(ctx, props, name, want, what):
    if want is None:
        ctx.check(props == {}, lambda: "%s: states %r" % (what, props))
        return
    ctx.check(list(props) == [name], lambda: "%s: states %r" % (what, props))
    v = props[name]
    if want[0] == "num":
        expect(ctx, v, want[1], want[2], what)
    elif want[0] == "text":
        ctx.check(type(v) is str and v.split() == want[1].split(),
                  lambda: "%s: property is %r" % (what, v))
    elif want[0] == "date":
        ctx.check(isinstance(v, np.datetime64) and v == np.datetime64(
            want[1]), lambda: "%s: property is %r" % (what, v))
    else:
        ctx.check(v == want[1] or v == np.datetime64(want[1]),
                  lambda: "%s: property is %r" % (what, v))


def single(ctx):
    """the property a line states"""
    cls = ctx.choose("class", CLASSES)
    name, sep, unit, text, want = make(ctx)
    pre = ctx.choose("pre", PRE)
    line = pre + name + unit + sep + text
    how = ctx.choose("how", ["constructor", "add"])
    if how == "constructor":
        c = cls.value([line])
        ctx.check(len(c.fullcomments) == 1 and
                  c.fullcomments[0].lstrip("! ").strip() ==
                  line.lstrip("! ").strip(),
                  lambda: "lines %r" % c.fullcomments)
    else:
        c = cls.value()
        c.add_from_comment(line)
    judge(ctx, c.property, name, want, repr(line))
    table = "\n".join(c.table())
    ctx.check(repr(c) == table, "repr")
    if want is not None:
        ctx.check(name in table, lambda: "table %r" % table)
    ctx.step()
    ctx.observe((line, want))


PLAIN = ["Measurement Setups", "PNA settings read from the instrument",
         "x", "data for connection # 1", "10 GHz", "[V]", "2010-10-19",
         "a.b", "\u00e5\u00e4\u00f6", "Do not touch!", "a ! b", "x !"]


def plain(ctx):
    """lines that state nothing are kept"""
    cls = ctx.choose("class", CLASSES)
    pre = ctx.choose("pre", ["", "!"])
    lines = [pre + ctx.choose("line", PLAIN) for _ in range(2)]
    c = cls.value(list(lines))
    ctx.check(c.property == {}, lambda: "%r states %r" % (lines, c.property))
    ctx.check([x.lstrip("!") for x in c.fullcomments]
              == [x.lstrip("!") for x in lines], lambda: "lines %r"
              % c.fullcomments)
    ctx.check(c.table() == [] and repr(c) == "", "table")
    ctx.step()
    ctx.observe(lines)


LINES = [("A: 1", "A", 1.), ("A: 2", "A", 2.), ("B = text", "B", "text"),
         ("no property", None, None), ("A [V]: 3", "A", 3.)]


def value(v):
    return float(v) if isinstance(v, hfarray) else v


def histories(ctx):
    """lines, copies and extensions in any order"""
    cls = ctx.choose("class", CLASSES).value
    start = ctx.choose("start", ["nothing", "None", "lines", "keyword"])
    lines, props = [], {}
    if start == "lines":
        arg = ["A: 1", "z"]
        c = cls(arg)
        lines, props = ["A: 1", "z"], {"A": 1.}
        ctx.check(arg == ["A: 1", "z"], "argument was modified")
    elif start == "keyword":
        c = cls(K="v")
        props = {"K": "v"}
    elif start == "None":
        c = cls(None)
    else:
        c = cls()
    frozen = []
    for _ in range(ctx.choose("depth", [1, 2, 3])):
        op = ctx.choose("op", ["add", "extend", "copy", "go on with copy"])
        if op == "add":
            text, k, v = ctx.choose("line", LINES)
            c.add_from_comment(text)
            if k:
                props[k] = v
            # (the classes differ in whether the line itself is kept)
            lines = list(c.fullcomments)
        elif op == "extend":
            more = ctx.choose("with", [[], ["A: 7"], ["B: u", "C: 8 V",
                                                      "q"]])
            other = cls(list(more))
            keep = (list(other.fullcomments), dict(other.property))
            c.extend(other)
            ctx.check((list(other.fullcomments), dict(other.property))
                      == keep, "extend modified its argument")
            lines = lines + more
            for x in more:
                k, _, v = x.partition(": ")
                if v:
                    props[k] = {"7": 7., "8 V": 8., "u": "u"}[v]
        else:
            d = c.copy()
            ctx.check(list(d.fullcomments) == lines and
                      dict((k, value(v)) for k, v in d.property.items())
                      == props, "copy differs")
            if op == "copy":
                frozen.append((d, list(lines), dict(props)))
            else:
                frozen.append((c, list(lines), dict(props)))
                c = d
        for obj, ln, pr in frozen + [(c, lines, props)]:
            ctx.check(list(obj.fullcomments) == ln, lambda: "lines %r, "
                      "expected %r" % (obj.fullcomments, ln))
            got = dict((k, value(v)) for k, v in obj.property.items())
            ctx.check(got == pr, lambda: "properties %r, expected %r"
                      % (got, pr))
        ctx.step()
        ctx.state((lines, sorted(props.items())))
    ctx.observe((lines, sorted(map(repr, props.items()))))


LISTED = [("a", "A: 1", "1.0"), ("b", "B = text", "text"),
          ("c", "Longer name: TRL", "TRL"), ("d", "C: 8 V", "8.0"),
          ("e", "long: " + "w" * 90, "w" * 90)]


def listing(ctx):
    """the table of the properties has each of them once, sorted by name"""
    cls = ctx.choose("class", CLASSES).value
    width = ctx.choose("width", [None, 30, 60])
    which = ctx.choose("lines", [p for n in range(4) for p in
                                 itertools.permutations(range(5), n)])
    c = cls([LISTED[k][1] for k in which])
    if width is not None:
        c.width = width
    before = (list(c.fullcomments), dict(c.property))
    rows = c.table()
    text = repr(c)
    ctx.step()
    ctx.check((list(c.fullcomments), dict(c.property)) == before,
              "listing changed the comments")
    if not which:
        ctx.check(rows == [] and text == "", "rows without properties")
        return
    ctx.check(text == "\n".join(rows), "repr is not the table")
    names = sorted(LISTED[k][1].replace("=", ":").split(":")[0].strip()
                   for k in which)
    values = dict((LISTED[k][1].replace("=", ":").split(":")[0].strip(),
                   LISTED[k][2]) for k in which)
    col = max(map(len, names))
    ctx.check(len(rows) == 3 + len(names), lambda: "rows %r" % (rows,))
    ctx.check(rows[1].split() == ["Key", "Value"], "headings")
    for n, row in zip(names, rows[3:]):
        want = values[n]
        got = row[col + 1:].strip()
        ctx.check(row[:col].strip() == n and row[col] == " " and got != "" and
                  (got == want or len(want) > 40 and want.startswith(got)
                   and len(row) >= c.width),
                  lambda: "row %r for %s = %s" % (row, n, want))
    ctx.state((which, width))
    ctx.observe(rows)


def many(ctx):
    """hundreds of lines, long lines"""
    cls = ctx.choose("class", CLASSES).value
    n = ctx.choose("lines", [10, 100, 1000])
    width = ctx.choose("width", [1, 80, 500, 5000])
    if n * width > 500000:
        raise Prune("large enough")
    how = ctx.choose("how", ["constructor", "extend", "many extends"])
    lines, want = [], {}
    for k in range(n):
        if k % 3 == 0:
            lines.append("p%d [V]: %d" % (k, k))
            want["p%d" % k] = float(k)
        elif k % 3 == 1:
            lines.append("t%d = %s" % (k, "abc" + "x" * width))
            want["t%d" % k] = "abc" + "x" * width
        else:
            lines.append("plain " + "y" * width)
    if how == "constructor":
        c = cls(list(lines))
    elif how == "extend":
        c = cls(lines[:n // 2])
        c.extend(cls(lines[n // 2:]))
    else:
        c = cls()
        for x in lines:
            c.extend(cls([x]))
    for what, obj in (("made", c), ("copied", c.copy())):
        ctx.check(list(obj.fullcomments) == lines, lambda: "%s: lines differ"
                  % what)
        got = dict((k, value(v)) for k, v in obj.property.items())
        ctx.check(got == want, lambda: "%s: properties differ: %r" % (
            what, [(k, got.get(k), want.get(k)) for k in
                   sorted(set(got) | set(want))
                   if got.get(k) != want.get(k)][:3]))
        ctx.step()
    ctx.state((n, width, how))
    ctx.observe((n, width, how))


FORMATS = [Named("SP-data", (save_spdata, read_spdata, "a.txt")),
           Named("CITI", (save_citi, read_citi, "a.citi")),
           Named("MDIF", (save_mdif, read_mdif, "a.mdif")),
           Named("Touchstone", (save_touchstone, read_touchstone, "a.s2p")),
           Named("HDF5 0.1", (lambda db, fn: save_hdf5(db, fn,
                                                       version="0.1"),
                              read_hdf5, "a.hdf5")),
           Named("HDF5 0.2", (lambda db, fn: save_hdf5(db, fn,
                                                       version="0.2"),
                              read_hdf5, "b.hdf5"))]


def in_files(ctx):
    """comments through every file format"""
    fmt = ctx.choose("format", FORMATS)
    save, read, fn = fmt.value
    name, sep, unit, text, want = make(ctx)
    if sep not in (":", " = ") or name not in ("x", "START Time"):
        raise Prune("bound")
    if ctx.tier == "quick" and unit.startswith("  "):
        raise Prune("bound")
    line = name + unit + sep + text
    pos = ctx.choose("lines", ["alone", "first", "last"])
    lines = {"alone": [line], "first": [line, "other line"],
             "last": ["other line", line]}[pos]
    db = DataBlock()
    f = DimSweep("freq", [1e9, 2e9], unit="Hz")
    if fmt.__mc_name__ == "Touchstone":
        from hftools.networks.multiports import SArray
        from hftools.dataset import DimMatrix_i, DimMatrix_j
        db.S = SArray(np.array([[[.1, .2], [.3, .4]]] * 2) + 0j,
                      dims=(f, DimMatrix_i("i", 2), DimMatrix_j("j", 2)))
    else:
        db.y = hfarray([1., 2.], dims=(f,), unit="V")
    db.comments = fc.Comments(list(lines))
    p = os.path.join(ctx.tmp, fn)
    save(db, p)
    got = read(p, verbose=False) if "HDF5" not in fmt.__mc_name__ else \
        read(p)
    if isinstance(got, dict) and not isinstance(got, DataBlock):
        ctx.check(len(got) == 1, lambda: "blocks %r" % list(got))
        got = list(got.values())[0]
    ctx.check(got.comments is not None, "no comments")
    # MDIF files tell when they were made
    kept = [x for x in got.comments.fullcomments
            if not (fmt.__mc_name__ == "MDIF" and x.startswith("Created:"))]
    ctx.check(kept == lines, lambda: "comments "
              "%r, expected %r" % (got.comments.fullcomments, lines))
    props = dict((k, v) for k, v in got.comments.property.items()
                 if k not in ("Z0", "Created"))
    judge(ctx, props, name, want, repr(line))
    ctx.step()
    ctx.observe((fmt.__mc_name__, line))


CP1252 = [b for b in range(0xa1, 0x100)] + [
    b for b in range(0x80, 0xa0) if b not in (0x81, 0x8d, 0x8f, 0x90, 0x9d)]
HEADS = {"SP": ["%s", "freq\ty", "1\t2", "2\t3"],
         "CITI": ["CITIFILE A.01.01", "%s", "NAME DATA", "VAR freq MAG 2",
                  "DATA y MAG", "VAR_LIST_BEGIN", "1", "2", "VAR_LIST_END",
                  "BEGIN", "2", "3", "END"],
         "Touchstone": ["%s", "# HZ S RI R 50", "1 2 3", "2 3 4"],
         "MDIF": ["%s", "BEGIN blk", "% freq(real) y(real)", "1 2", "2 3",
                  "END"]}


def characters(ctx):
    """every character which can stand in a file, in comments"""
    fmt = ctx.choose("format", [f for f in FORMATS])
    save, read, fn = fmt.value
    name = fmt.__mc_name__
    char = bytes([ctx.choose("byte", CP1252)]).decode("cp1252")
    where = ctx.choose("place", ["text", "value"])
    line = {"text": "a%sb note", "value": "key: a%sb"}[where] % char
    p = os.path.join(ctx.tmp, fn)
    key = [k for k in HEADS if k in name]
    source = ctx.choose("file", ["saved"] + (["foreign"] if key else []))
    if source == "saved":
        db = DataBlock()
        f = DimSweep("freq", [1e9, 2e9], unit="Hz")
        if name == "Touchstone":
            db.S = hfarray(np.array([[[.1, .2], [.3, .4]]] * 2) + 0j,
                           dims=(f, DimMatrix_i("i", 2), DimMatrix_j("j", 2)))
        else:
            db.y = hfarray([1., 2.], dims=(f,), unit="V")
        db.comments = fc.Comments([line])
        save(db, p)
    else:
        text = "\n".join(HEADS[key[0]]).replace("%s", "!" + line) + "\n"
        with open(p, "wb") as fil:
            fil.write(text.encode("cp1252"))
    got = read(p, verbose=False) if "HDF5" not in name else read(p)
    ctx.step()
    if isinstance(got, dict) and not isinstance(got, DataBlock):
        got = list(got.values())[0]
    kept = [x for x in got.comments.fullcomments
            if not x.startswith("Created:")]
    ctx.check(kept == [line], lambda: "comments %r, expected %r"
              % (kept, [line]))
    if where == "value":
        v = str(np.asarray(got.comments.property.get("key")))
        ctx.check(v == "a%sb" % char, lambda: "property is %r" % v)
    ctx.state((name, line, source))
    ctx.observe((name, where, source))


def spaces(tier):
    return [
        Space("single", single, "names x separators x units x values x "
              "prefixes, both classes"),
        Space("plain", plain, "lines without property"),
        Space("histories", histories, "add/extend/copy histories"),
        Space("listing", listing, "tables of up to three of five properties"),
        Space("many", many, "up to 1000 lines and lines of 5000 characters"),
        Space("characters", characters, "122 characters x 6 formats",
              tmpdir=True),
        Space("in_files", in_files, "through 6 file formats", tmpdir=True)]
