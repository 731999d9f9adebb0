# -*- coding: utf-8 -*-
"""C16: read_data reads a file with the reader of its format."""
import os
import re

import numpy as np

from mc.engine import Space, Prune, Named
from mc.labelled import D
from mc.filemodel import Var, block, fingerprint
from hftools import path
from hftools.dataset import DataBlock
from hftools.file_formats import (
    read_data, read_spdata, save_spdata, read_citi, save_citi, read_mdif,
    save_mdif, read_touchstone, save_touchstone, read_hdf5, save_hdf5)
from hftools.file_formats.common import Comments

ASSUMPTIONS = [
    "names of files hold none of [ ] * ?",
    "HDF5 files are read one at a time",
    "lines of SP-data and Touchstone files other than comments do not look "
    "like the first line of a CITI file, a VAR or BEGIN line of MDIF"]

F = D("sweep", "freq", [1e9, 2.5e9, 3e9], "Hz")
G = D("sweep", "Vg", [.5, -1.], "V")
X = Var("x", unit="V")
C = Var("c", "complex")
S = Var("S", "complex", (2, 2))
S3 = Var("S", "complex", (3, 3))
CONTENTS = [Named("x", ([F], [X])), Named("x, c", ([F], [X, C])),
            Named("S 2x2", ([F], [S])), Named("S 3x3", ([F], [S3])),
            Named("x two sweeps", ([F, G], [X])),
            Named("one point", ([D("sweep", "freq", [1e9], "Hz")], [X])),
            Named("S one point", ([D("sweep", "freq", [1e9], "Hz")], [S]))]
COMMENTS = [[], ["plain text"], ["CITIFILE A.01.00"],
            ["# GHZ S RI R 50", "#HZ S MA"],
            ["VAR Vg(real) = 3", "BEGIN DATA"],
            ["MATLAB 5.0 MAT-file"], [u"cp1252 \u00e5\u00e4\u00f6 \u20ac"],
            ["Note=BEGIN x", "A: VAR b(real) = 2"]]


def save_touch(db, fn):
    if "S" not in db.vardata or db.S.ndim != 3:
        raise Prune("Touchstone files hold S-parameters of one sweep")
    save_touchstone(db, fn)


FORMATS = [
    Named("SP-data", (save_spdata, read_spdata)),
    Named("CITI", (save_citi, read_citi)),
    Named("MDIF", (save_mdif, read_mdif)),
    Named("Touchstone", (save_touch, read_touchstone)),
    Named("HDF5 0.1", (lambda db, fn: save_hdf5(db, fn, version="0.1"),
                       read_hdf5)),
    Named("HDF5 0.2", (lambda db, fn: save_hdf5(db, fn, version="0.2"),
                       read_hdf5))]
NAMES = ["a.txt", "b.citi", "c.mdif", "d.s2p", "e.hdf5", "noext", "f.mat"]


def fp(x):
    if isinstance(x, DataBlock):
        return fingerprint(x)
    if isinstance(x, dict):
        return dict((k, fp(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [fp(v) for v in x]
    return repr(x)


def outcome(fun, *k, **kw):
    try:
        return ("data", repr(fp(fun(*k, **kw))))
    except Exception as exc:
        return ("refused", type(exc).__name__)


def options(ctx, reader):
    kw = {}
    for name in ("merge", "guess_unit", "property_to_vars"):
        v = ctx.choose(name, [None, False] if name != "property_to_vars"
                       else [None, False, True])
        if v is not None:
            kw[name] = v
    return kw


def complete(kw, reader):
    """options read_data hands to the reader"""
    kw = dict(dict(merge=True, guess_unit=True, property_to_vars=True), **kw)
    if reader is not read_hdf5:
        kw["verbose"] = False
    return kw


def quiet(reader):
    return {} if reader is read_hdf5 else dict(verbose=False)


def single(ctx):
    """one file of every format, name and way to give it"""
    save, reader = ctx.choose("format", FORMATS).value
    dims, variables = ctx.choose("contents", CONTENTS).value
    comments = ctx.choose("comments", COMMENTS)
    db, models = block(dims, variables, comments, "Bl")
    base = ctx.choose("file name", NAMES)
    fn = os.path.join(ctx.tmp, base)
    save(db, fn)
    ctx.step()
    how = ctx.choose("given as", ["str", "path", "list", "tuple", "pattern",
                                  "list of patterns", "after missing"])
    pattern = os.path.join(ctx.tmp, base[:1] + "*")
    arg = {"str": fn, "path": path(fn), "list": [fn], "tuple": (fn,),
           "pattern": pattern, "list of patterns": [pattern],
           "after missing": [os.path.join(ctx.tmp, "nosuch*"), fn]}[how]
    with open(fn, "rb") as fil:
        raw = fil.read()
    want = outcome(reader, fn, **complete({}, reader))
    got = outcome(read_data, arg, **quiet(reader))
    ctx.step()
    ctx.check(want[0] == "data", lambda: "%s can not be read back" % base)
    ctx.check(got == want, lambda: "read_data gives %s, the reader of the "
              "format gives %s" % (got, want))
    with open(fn, "rb") as fil:
        ctx.check(raw == fil.read(), "reading changed the file")
    ctx.state((save.__name__, base, how, repr(comments)))
    ctx.observe(want[0])


def option(ctx):
    """options reach the reader"""
    save, reader = ctx.choose("format", FORMATS).value
    dims, variables = ctx.choose("contents", CONTENTS[:5]).value
    comments = ctx.choose("comments", [[], ["Vds=10", "Note: x"]])
    db, models = block(dims, variables, comments, "Bl")
    fn = os.path.join(ctx.tmp, "data")
    save(db, fn)
    kw = options(ctx, reader)
    want = outcome(reader, fn, **complete(kw, reader))
    got = outcome(read_data, fn, **dict(kw, **quiet(reader)))
    ctx.step()
    ctx.check(want[0] == "data" or kw.get("merge") is False,
              "file can not be read back")
    ctx.check(got == want, lambda: "read_data gives %s, the reader of the "
              "format gives %s" % (got, want))
    ctx.state((save.__name__, repr(dims), repr(sorted(kw.items()))))
    ctx.observe(want[0])


def several(ctx):
    """several files of one format"""
    save, reader = ctx.choose("format", FORMATS[:4]).value
    dims, variables = ctx.choose("contents", CONTENTS[:5]).value
    n = ctx.choose("files", [2, 3, 30])
    names = ["m2.dat", "m10.dat", "m1.dat"][:n]
    if n > 3:
        names = ["m%d.dat" % (k * 7 % n) for k in range(n)]
    files = []
    for k, name in enumerate(names):
        db, models = block(dims, variables, ["No=%d" % k], "Bl")
        for v in list(db.vardata):
            db[v] = db[v] * (k + 1)
            db[v].unit = models[v][0].unit
        files.append(os.path.join(ctx.tmp, name))
        save(db, files[-1])
        ctx.step()
    how = ctx.choose("given as", ["list", "tuple", "reversed", "pattern"])
    arg = {"list": files, "tuple": tuple(files), "reversed": files[::-1],
           "pattern": os.path.join(ctx.tmp, "*.dat")}[how]
    want = outcome(reader, arg, **complete({}, reader))
    got = outcome(read_data, arg, verbose=False)
    ctx.step()
    ctx.check(want[0] == "data", lambda: "files can not be read back: %r"
              % (want,))
    ctx.check(got == want, lambda: "read_data gives %s, the reader of the "
              "format gives %s" % (got, want))
    ctx.state((save.__name__, repr(dims), n, how))
    ctx.observe(want[0])


def foreign(ctx):
    """files by others, all spellings of the lines that tell the format"""
    kind = ctx.choose("format", ["Touchstone", "CITI", "MDIF", "SP-data"])
    before = ctx.choose("first lines", ["", "!comment\n", "\n",
                                        u"!\u00e5\n! a=b\n"])
    if kind == "Touchstone":
        line = ctx.choose("start", ["#", "# ", " # ", "#\t"])
        line += ctx.choose("frequency", ["Hz", "kHz", "MHZ", "ghz", "GHz",
                                         "THz"])
        line += " " + ctx.choose("parameters", ["S", "s"])
        line += ctx.choose("between", [" ", "  ", "\t"])
        line += ctx.choose("data", ["RI", "ri", "MA", "dB", "DB", "ma"])
        line += ctx.choose("reference", ["", " R 50", " r 75", " R 50.0",
                                         "\tR\t50 ! ohm"])
        text = line + "\n1 0.5 1.5\n2 0.25 2\n"
        reader = read_touchstone
        bad = "!" in line
    elif kind == "CITI":
        line = ctx.choose("start", ["CITIFILE A.01.00", "CITIFILE A.01.01"])
        line += ctx.choose("then", ["", "\n#NA VERSION HP8510B.05.00",
                                    "\n!note", "\n#PNA Rev A.01.01",
                                    "\n# HZ S RI R 50"])
        text = (line + "\nNAME DATA\nVAR FREQ MAG 2\nDATA S[1,1] RI\n"
                "VAR_LIST_BEGIN\n1\n2\nVAR_LIST_END\n"
                "BEGIN\n1,2\n3,4\nEND\n")
        reader = read_citi
        if before == "\n" or before.startswith(u"!\u00e5"):
            raise Prune("starts with its mark")
        bad = False
    elif kind == "MDIF":
        var = ctx.choose("VAR", ["", "VAR Vg(real) = 1\n",
                                 "VAR Vg(integer)=1\n",
                                 "VAR  SWEEP.Vg(real) = 1\n",
                                 'VAR n(string) = "ab"\n',
                                 "VAR Vg(real)=1\nVAR Vd(real)=2\n"])
        begin = ctx.choose("BEGIN", ["BEGIN DATA", "BEGIN\tDATA",
                                     "BEGIN Bl ", " BEGIN x.y"])
        attr = ctx.choose("attribute", ["", "# T(real) = 25\n"])
        text = (var + begin + "\n" + attr + "% freq(real) x(real)\n1 2\n"
                "3 4\nEND\n")
        reader = read_mdif
        bad = False
    else:
        head = ctx.choose("header", ["freq\tx", "freq [GHz]\tx [V]",
                                     "VAR\tBEGIN", "CITI\tFILE"])
        text = head + "\n1\t2\n3\t4\n"
        reader = read_spdata
        bad = False
    fn = os.path.join(ctx.tmp, "a.dat")
    with open(fn, "wb") as fil:
        fil.write((before + text).encode("cp1252"))
    want = outcome(reader, fn, **complete({}, reader))
    got = outcome(read_data, fn, verbose=False)
    ctx.step()
    ctx.check(want[0] == "data" or bad, lambda: "file can not be read: %r"
              % (want,))
    ctx.check(got == want, lambda: "read_data gives %s, the reader of the "
              "format gives %s" % (got, want))
    ctx.state((kind, text, before))
    ctx.observe((kind, want[0], re.sub(r"U[0-9]+|x[0-9]+/", "", want[1].replace(ctx.tmp, ""))))


TYPICAL = [
    Named("Touchstone", ("# GHz S RI R 50\n1 0.5 1.5\n2 0.25 2\n",
                         read_touchstone)),
    Named("CITI", ("CITIFILE A.01.00\nNAME DATA\nVAR FREQ MAG 2\n"
                   "DATA S[1,1] RI\nVAR_LIST_BEGIN\n1\n2\nVAR_LIST_END\n"
                   "BEGIN\n1,2\n3,4\nEND\n", read_citi)),
    Named("MDIF", ("VAR Vg(real) = 1\nBEGIN DATA\n% freq(real) x(real)\n"
                   "1 2\n3 4\nEND\n", read_mdif)),
    Named("SP-data", ("freq\tx\n1\t2\n3\t4\n", read_spdata))]


def preamble(ctx):
    """the line that tells the format may come late"""
    text, reader = ctx.choose("format", TYPICAL).value
    number = ctx.choose("comments", [0, 1, 9, 10, 11, 20, 50, 99, 100, 101,
                                     128, 255, 256, 257, 500, 1000, 1001,
                                     2000, 5000])
    comment = ctx.choose("comment", ["!", "!text", "!" + 90 * "x",
                                     "!" + 2000 * "x"])
    if number * len(comment) > 300000:
        raise Prune("larger than 300 kB")
    fn = os.path.join(ctx.tmp, "a.dat")
    with open(fn, "w") as fil:
        fil.write((comment + "\n") * number + text)
    want = outcome(reader, fn, **complete({}, reader))
    got = outcome(read_data, fn, verbose=False)
    ctx.step()
    ctx.check(want[0] == "data", lambda: "file can not be read: %r"
              % (want,))
    ctx.check(got == want, lambda: "read_data gives %.300s, the reader of "
              "the format gives %.300s" % (got, want))
    ctx.state((text[:5], number, len(comment)))
    ctx.observe((text[:5], number, len(comment)))


def missing(ctx):
    """files that are not there or hold no data are refused"""
    how = ctx.choose("given as", ["str", "list", "pattern", "empty list"])
    kind = ctx.choose("file", ["missing", "empty", "blank lines",
                               "only comments"])
    fn = os.path.join(ctx.tmp, "a.txt")
    if kind != "missing":
        with open(fn, "w") as fil:
            fil.write({"empty": "", "blank lines": "\n\n",
                       "only comments": "!a\n!b=2\n"}[kind])
    arg = {"str": fn, "list": [fn], "pattern": fn[:-3] + "*",
           "empty list": []}[how]
    try:
        got = read_data(arg, verbose=False)
    except Exception as exc:
        if kind == "missing" or how == "empty list":
            ctx.check(isinstance(exc, IOError), lambda: "missing file raises "
                      "%s" % type(exc).__name__)
    else:
        ctx.fail("%s file gives %r" % (kind, got))
    ctx.step()
    ctx.state((how, kind))
    ctx.observe(kind)


def spaces(tier):
    return [
        Space("single", single, "6 formats x 7 contents x 8 sets of comments "
              "x 7 names x 7 ways to give the name", tmpdir=True),
        Space("option", option, "all options of all formats", tmpdir=True),
        Space("several", several, "two, three and 30 files", tmpdir=True),
        Space("foreign", foreign, "all spellings of the marks of the "
              "formats", tmpdir=True),
        Space("preamble", preamble, "up to 5000 comment lines before the "
              "line that tells the format", tmpdir=True),
        Space("missing", missing, "no file, no data", tmpdir=True)]
