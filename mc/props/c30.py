# -*- coding: utf-8 -*-
"""C30: a file holds what was saved last, and reading leaves it alone."""
import os
import resource
import signal

import numpy as np

from mc.engine import Space, Named
from mc.labelled import D
from mc.filemodel import Var, block, fingerprint
from hftools import path
from hftools.dataset import DataBlock, DimSweep, hfarray
from hftools.file_formats import (
    read_data, read_spdata, save_spdata, read_citi, save_citi, read_mdif,
    save_mdif, read_touchstone, save_touchstone, read_hdf5, save_hdf5)
from hftools.file_formats.common import Comments

ASSUMPTIONS = [
    "the disk keeps what was written; one process uses the files",
    "write errors are explored for the text formats (the HDF5 library does "
    "not survive them)"]

F3 = D("sweep", "freq", [1e9, 2.5e9, 3e9], "Hz")
F1 = D("sweep", "freq", [2e9], "Hz")
F40 = D("sweep", "freq", [1e9 + 1e7 * i for i in range(40)], "Hz")


class B(Named):
    name = property(lambda self: self.__mc_name__)


S = Var("S", "complex", (2, 2))
S3 = Var("S", "complex", (3, 3))
BLOCKS = [B("short", ([F1], [S], [])),
          B("long", ([F40], [S3], ["Note = 3", "a line"])),
          B("middle", ([F3], [S], ["Other = 4"]))]


def mdif(fn):
    return read_mdif(fn, verbose=False)["DATABLOCK"]


FORMATS = {
    "spdata": (save_spdata, read_spdata),
    "citi": (save_citi, read_citi),
    "mdif": (save_mdif, mdif),
    "touchstone": (save_touchstone, read_touchstone),
    "hdf5 0.1": (lambda db, fn: save_hdf5(db, fn, version="0.1"), read_hdf5),
    "hdf5 0.2": (lambda db, fn: save_hdf5(db, fn, version="0.2"), read_hdf5)}
TEXT = ["spdata", "citi", "mdif", "touchstone"]


def make(b):
    db = block(b.value[0], b.value[1], b.value[2])[0]
    for v in db.vardata.values():
        v.dims
    return db


def listing(folder):
    out = {}
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        with open(p, "rb") as f:
            out[n] = (f.read(), os.stat(p).st_mode)
    return out


def contents(got):
    """what was read, without the times of creation"""
    if not isinstance(got, DataBlock):
        got = got["DATABLOCK"]
    return repr([(k, np.asarray(v).tolist(),
                  [(d.__class__.__name__, d.name, d.data.tolist(), d.unit)
                   for d in v.dims])
                 for k, v in got.vardata.items()
                 if not k.startswith(("FILE", "Created"))]) + repr(
        [c for c in got.comments.fullcomments if "reated" not in c])


def reading(ctx, folder, name, fmt, way):
    fn = os.path.join(folder, name)
    if way == "reader":
        return FORMATS[fmt][1](fn)
    if way == "read_data":
        return read_data(fn, verbose=False)
    if way == "path":
        return read_data(path(fn), verbose=False)
    return read_data([fn], verbose=False)


def reference(ctx, name, fmt, b, way, known={}):
    """what is read from a file saved once, in a folder of its own"""
    key = (name, fmt, b.name, way)
    if key not in known:
        folder = os.path.join(ctx.tmp, "reference")
        if not os.path.isdir(folder):
            os.mkdir(folder)
        fn = os.path.join(folder, name)
        if os.path.exists(fn):
            os.remove(fn)
        FORMATS[fmt][0](make(b), fn)
        known[key] = contents(reading(ctx, folder, name, fmt, way))
    return known[key]


NAMES = ["a.txt", u"b \xe5.s2p"]


def check_store(ctx, store, model, ways):
    """every file holds what was saved last under its name"""
    before = listing(store)
    ctx.check(set(before) == set(model), lambda: "files %r after saving %r"
              % (sorted(before), sorted(model)))
    for name, (fmt, b) in sorted(model.items()):
        for way in ways:
            if way != "reader" and fmt.startswith("hdf5") and way == "list":
                continue
            got = reading(ctx, store, name, fmt, way)
            ctx.step()
            have = np.asarray((got if isinstance(got, DataBlock)
                               else got["DATABLOCK"])["S"])
            saved = np.asarray(make(b)["S"])
            ctx.check(have.size == saved.size and
                      np.allclose(have.reshape(saved.shape), saved, 1e-9, 0),
                      lambda: "%s: S is %r, not %r" % (name, have, saved))
            got = contents(got)
            want = reference(ctx, name, fmt, b, way)
            ctx.check(got == want, lambda: "%s of %s saved to %s is read as "
                      "%s, not as %s" % (fmt, b.name, name, got[:300],
                                         want[:300]))
    ctx.check(listing(store) == before, "reading changed the files")


def histories(ctx):
    """all sequences of saves to two names"""
    depth = ctx.choose("saves", [1, 2, 3] if ctx.tier == "thorough"
                       else [1, 2])
    store = os.path.join(ctx.tmp, "store")
    os.mkdir(store)
    model = {}
    for k in range(depth):
        name = ctx.choose("name", NAMES if k or depth == 1 else NAMES[:1])
        fmt = ctx.choose("format", sorted(FORMATS))
        b = ctx.choose("block", BLOCKS)
        db = make(b)
        before = fingerprint(db)
        others = {n: x for n, x in listing(store).items() if n != name}
        FORMATS[fmt][0](db, os.path.join(store, name))
        ctx.step()
        ctx.check(repr(before) == repr(fingerprint(db)), "saving changed the "
                  "block")
        model[name] = (fmt, b)
        now = listing(store)
        ctx.check(all(now.get(n) == x for n, x in others.items()),
                  "another file was changed")
        if k == depth - 1:
            check_store(ctx, store, model, ["reader", "read_data", "path",
                                            "list"])
        else:
            check_store(ctx, store, model, ["reader"])
        ctx.state((sorted((n, f, q.name) for n, (f, q) in model.items()),))
    ctx.observe(sorted((n, f, q.name) for n, (f, q) in model.items()))


def missing(ctx):
    """reading what is not there, or is something else"""
    fmt = ctx.choose("reader", sorted(FORMATS) + ["read_data"])
    what = ctx.choose("file", ["missing", "empty", "folder", "text", "zeros"])
    other = ctx.choose("other file", sorted(FORMATS))
    store = os.path.join(ctx.tmp, "store")
    os.mkdir(store)
    FORMATS[other][0](make(BLOCKS[0]), os.path.join(store, "other"))
    fn = os.path.join(store, "f.txt")
    if what == "folder":
        fn = ctx.tmp
    elif what != "missing":
        with open(fn, "wb") as f:
            f.write({"empty": b"", "text": b"hello\nworld\n",
                     "zeros": b"\0" * 600}[what])
    before = listing(store)
    try:
        got = (read_data if fmt == "read_data" else FORMATS[fmt][1])(fn)
    except Exception:
        got = None
    ctx.step()
    ctx.check(listing(store) == before, lambda: "reading (%s) a %s file "
              "changed %r to %r" % (fmt, what, sorted(before),
                                    sorted(listing(store))))
    if what in ("missing", "folder"):
        ctx.check(got is None, lambda: "%s of a %s file gave %r"
                  % (fmt, what, got))
    ctx.state((fmt, what, other))
    ctx.observe((fmt, what, got is None))


def faults(ctx):
    """the disk is full at every byte of the file"""
    fmt = ctx.choose("format", TEXT)
    b = ctx.choose("block", [BLOCKS[0], BLOCKS[1]])
    old = ctx.choose("old file", [None, "short", "long"])
    store = os.path.join(ctx.tmp, "store")
    os.mkdir(store)
    fn = os.path.join(store, "f.txt")
    other = os.path.join(store, "other")
    db = make(b)
    FORMATS[fmt][0](db, other)
    size = os.path.getsize(other)
    kept = listing(store)["other"]
    if b.name == "short":
        limits = list(range(size))
    else:
        limits = list(range(0, size, 331 if ctx.tier == "quick" else 13))
    limit = ctx.choose("bytes written", limits)
    before = repr(fingerprint(db))
    if old:
        FORMATS[fmt][0](make([x for x in BLOCKS if x.name == old][0]), fn)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    limits_before = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limits_before[1]))
    try:
        FORMATS[fmt][0](db, fn)
        failed = False
    except Exception:
        failed = True
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, limits_before)
        signal.signal(signal.SIGXFSZ, handler)
    ctx.step()
    ctx.check(failed, lambda: "%s: only %d of %d bytes could be written, "
              "nothing was raised" % (fmt, limit, size))
    ctx.check(repr(fingerprint(db)) == before, "the block was changed")
    now = listing(store)
    ctx.check(set(now) <= {"other", "f.txt"} and now["other"] == kept,
              lambda: "files %r" % sorted(now))
    FORMATS[fmt][0](db, fn)
    model = {"f.txt": (fmt, b), "other": (fmt, b)}
    check_store(ctx, store, model, ["reader"])
    ctx.state((fmt, b.name, old, limit))
    ctx.observe((fmt, b.name, old, limit))


def refused(ctx):
    """blocks which can not be saved"""
    fmt = ctx.choose("format", TEXT)
    cause = ctx.choose("cause", ["comment", "name", "format", "no S",
                                 "format of last", "dims"])
    b = ctx.choose("block", BLOCKS)
    old = ctx.choose("old file", [None, "short", "long", "other format"])
    store = os.path.join(ctx.tmp, "store")
    os.mkdir(store)
    fn = os.path.join(store, "f.txt")
    if old == "other format":
        save_hdf5(make(BLOCKS[0]), fn)
    elif old:
        FORMATS[fmt][0](make([x for x in BLOCKS if x.name == old][0]), fn)
    db = make(b)
    if cause == "comment":
        db.comments = Comments(list(b.value[2]) + [u"text \u4e2d"])
    elif cause == "name":
        db[u"\u4e2d"] = hfarray(np.asarray(db.S)[:, 0, 0],
                                dims=db.S.dims[:1])
    elif cause == "format":
        db.S.outputformat = "%d %d"
    elif cause == "no S":
        db.rename("S", "Q")
    elif cause == "format of last":
        db["z"] = hfarray(np.asarray(db.S)[:, 0, 0].real,
                          dims=db.S.dims[:1])
        db.z.outputformat = "%d %s %d"
    elif cause == "dims":
        db["z"] = hfarray([1., 2.], dims=(DimSweep("Other", [1, 2]),))
    before = listing(store)
    try:
        FORMATS[fmt][0](db, fn)
        failed = False
    except Exception:
        failed = True
    ctx.step()
    if failed:
        ctx.check(listing(store) == before, lambda: "a %s save which failed "
                  "(%s) changed the old file" % (fmt, cause))
    if cause in ("comment", "format"):
        ctx.check(failed, "a block that can not be written was saved")
    FORMATS[fmt][0](make(b), fn)
    check_store(ctx, store, {"f.txt": (fmt, b)}, ["reader", "read_data"])
    ctx.state((fmt, cause, b.name, old))
    ctx.observe((fmt, cause, old, failed))


def spaces(tier):
    return [
        Space("histories", histories, "all sequences of %d saves of 3 blocks "
              "in 6 formats to 2 names, every file read in 4 ways"
              % (3 if tier == "thorough" else 2), tmpdir=True),
        Space("missing", missing, "files which are missing or something else, "
              "with every reader", tmpdir=True),
        Space("refused", refused, "blocks which can not be saved in a format",
              tmpdir=True),
        Space("faults", faults, "the disk is full at every byte", tmpdir=True)]
