# -*- coding: utf-8 -*-
"""C15: HDF5 files hold exactly what was saved and appended."""
import datetime
import itertools
import os

import h5py
import numpy as np

from mc.engine import Space, Prune, Named
from mc.labelled import D, L, compare, kind_of
from mc.filemodel import (Var, EXTREME, block, expect, fingerprint,
                          many, LARGE, large_dims)
from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimPartial)
from hftools.file_formats import read_hdf5, save_hdf5, read_data
from hftools.file_formats.hdf5 import append_hdf5
from hftools.file_formats.common import Comments

ASSUMPTIONS = [
    "names hold no backslash; 'None' is not used as unit or block name",
    "formats are kept by version 0.2 files only (version 0.1 has no place "
    "for them)",
    "appending starts from a file saved with expandable=True; the dimension "
    "that grows has one numeric label when the file is made",
    "dates used as labels have a time of day and a resolution of 1 us, the "
    "resolution of labels in hftools",
    "an append interrupted by the death of the process is not claimed: HDF5 "
    "itself gives no such guarantee"]

F = D("sweep", "freq", [1., 2.5, 0.1], "GHz", "%.3f")
R = D("rep", "r", [5, 4], "V")
P = D("partial", "q", [5])
T = D("sweep", "Temp", ["cold", u"h\u00f6t"])
N = D("sweep", "nn", [-3, 0, 2 ** 60])
DIMS = [[F], [F, R], [R, F], [P, N, F], [T], [T, F], []]
VARS = [Var("x", unit="mV", fmt="%.2f"), Var("n", "int"),
        Var("c", "complex", unit="V"), Var("S", "complex", (2, 2)),
        Var("M", "real", (1, 3), unit="A"), Var("K", "int", (3, 1)),
        Var("Y", "complex", (2, 3), first=True), Var("e", pool=EXTREME),
        Var("E", "complex", pool=EXTREME), Var("a/b", unit="1/s"),
        Var("k", dims=[]), Var("Kn", "int", dims=[], unit="s"),
        Var("g", dims=[D("sweep", "q/z", [1, 2], "m")])]
COMMENTS = [None, [], ["plain text"],
            ["Hej=10 V", u"Note: \u00e5, b=c", "a longer comment than others"]]
VERSIONS = ["0.1", "0.2"]


def store(ctx, db, fn, version, how, **kw):
    before = fingerprint(db)
    if how == "handle":
        with h5py.File(fn, "w") as fil:
            save_hdf5(db, fil, version=version, **kw)
    else:
        save_hdf5(db, fn, version=version, **kw)
    ctx.step()
    ctx.check(repr(before) == repr(fingerprint(db)), "saving changed the data block")


def load(ctx, fn, how, **kw):
    ctx.step()
    if how == "handle":
        with h5py.File(fn, "r") as fil:
            return read_hdf5(fil, **kw)
    elif how == "read_data":
        kw.setdefault("property_to_vars", False)
        return read_data(fn, **kw)
    return read_hdf5(fn, **kw)


def check_dims(ctx, db, dims, version, what):
    for d in dims:
        ctx.check(d.name in db.ivardata, lambda: "%s: dimension %r is lost"
                  % (what, d.name))
        got = db.ivardata[d.name]
        ctx.check(kind_of(got) == d.kind, lambda: "%s: dimension %r is a %s, "
                  "expected %s" % (what, d.name, kind_of(got), d.kind))
        ctx.check(got.unit == d.unit, lambda: "%s: unit of dimension %r is "
                  "%r, expected %r" % (what, d.name, got.unit, d.unit))
        lab = np.asarray(got.data).tolist()
        if d.kind not in ("mi", "mj"):
            ctx.check(lab == d.labels and
                      [type(x) for x in lab] == [type(x) for x in d.labels],
                      lambda: "%s: labels of %r are %r, expected %r"
                      % (what, d.name, lab, d.labels))
        if version == "0.2" and d.fmt:
            ctx.check(got.outputformat == d.fmt, lambda: "%s: format of "
                      "dimension %r is %r, expected %r"
                      % (what, d.name, got.outputformat, d.fmt))


def check_block(ctx, got, models, version, what, dims=(), comments=None,
                blockname=None):
    names = set()
    for name, (v, m) in models.items():
        ctx.check(name in got.vardata, lambda: "%s: variable %r is lost"
                  % (what, name))
        x = got.vardata[name]
        compare(ctx, x, m, "%s: %s" % (what, name), tol=0)
        ctx.check(x.unit == v.unit, lambda: "%s: unit of %s is %r, expected "
                  "%r" % (what, name, x.unit, v.unit))
        kind = {"int": "i", "complex": "c"}.get(v.kind, "f")
        ctx.check(np.asarray(x).dtype.kind == kind, lambda: "%s: %s is of "
                  "type %s" % (what, name, x.dtype))
        if version == "0.2" and v.fmt:
            ctx.check(x.outputformat == v.fmt, lambda: "%s: format of %s is "
                      "%r" % (what, name, x.outputformat))
        check_dims(ctx, got, m.dims, version, what)
        names.update(d.name for d in m.dims)
    check_dims(ctx, got, dims, version, what)
    names.update(d.name for d in dims)
    ctx.check(set(got.vardata.keys()) == set(models), lambda: "%s: variables "
              "%r, expected %r" % (what, got.vardata.keys(), list(models)))
    ctx.check(set(got.ivardata.keys()) == names, lambda: "%s: dimensions %r, "
              "expected %r" % (what, got.ivardata.keys(), names))
    c = list(got.comments.fullcomments) if got.comments else []
    ctx.check(c == list(comments or []), lambda: "%s: comments %r, expected "
              "%r" % (what, c, comments))
    ctx.check(got.blockname == blockname, lambda: "%s: blockname %r, expected"
              " %r" % (what, got.blockname, blockname))


def observe(ctx, got):
    ctx.observe([(k, str(v.dtype), np.asarray(v).tolist(), v.unit)
                 for k, v in sorted(got.vardata.items())])


def roundtrip(ctx):
    version = ctx.choose("version", VERSIONS)
    dims = ctx.choose("dimensions", DIMS)
    one = ctx.choose("variable", VARS)
    two = ctx.choose("second", [None] + [v for v in VARS if v is not one])
    variables = [v for v in (one, two) if v is not None]
    if not dims and any(v.first for v in variables):
        raise Prune("nothing to put after the matrix")
    db, models = block(dims, variables)
    fn = os.path.join(ctx.tmp, "a.hdf5")
    store(ctx, db, fn, version, "name")
    got = load(ctx, fn, "name")
    check_block(ctx, got, models, version, "read")
    for k, v in models.items():
        # axes come back in the order they were saved
        ctx.check([d.name for d in got[k].dims] == [d.name for d in
                                                    db[k].dims],
                  lambda: "order of dimensions of %s is %r, expected %r"
                  % (k, got[k].dims, db[k].dims))
    ctx.state((version, repr(dims), [v.name for v in variables]))
    observe(ctx, got)


def large(ctx):
    """many numbers, dimensions, variables, appends"""
    what, lengths, nvars = ctx.choose("size", LARGE + [
        ("20000 points", [20000], 1)])
    version = ctx.choose("version", VERSIONS)
    dims = large_dims(lengths)
    comments = ctx.choose("comments", [None, ["note %d" % k
                                              for k in range(60)]])
    kw = {}
    if version == "0.1":
        kw = ctx.choose("compression", [{}, dict(compression="lzf")])
    db, models = block(dims, many(VARS, nvars), comments)
    fn = os.path.join(ctx.tmp, "a.hdf5")
    store(ctx, db, fn, version, "name", **kw)
    got = load(ctx, fn, "name")
    check_block(ctx, got, models, version, "read", comments=comments)
    ctx.state((what, version))
    observe(ctx, got)


def long_series(ctx):
    """one block appended again and again"""
    dims = ctx.choose("dimensions", [[F, R], [D("sweep", "freq", range(300),
                                                "Hz")]])
    count = ctx.choose("appends", [60])
    fn = os.path.join(ctx.tmp, "a.hdf5")
    state = {}
    index = D("rep", "INDEX", range(count + 1))
    for step in range(count + 1):
        db, models = make(dims, AVARS[0], step)
        if step == 0:
            store(ctx, db, fn, "0.2", "name", expandable=True)
        else:
            with h5py.File(fn, "r+") as fil:
                append_hdf5(db, fil)
            ctx.step()
        for k, (v, m) in models.items():
            cells = state[k][1].cells if k in state else {}
            for c, x in m.cells.items():
                cells[frozenset(list(c) + [(index.key, step)])] = x
            state[k] = (v, L(m.dims + [index], cells))
    got = load(ctx, fn, "name")
    check_block(ctx, got, state, "0.2", "after %d appends" % count)
    ctx.state(repr(dims))
    ctx.observe(count)


def histories(ctx):
    """repeated saving and reading, both versions, all ways to name a file"""
    dims = ctx.choose("dimensions", DIMS[:3 if ctx.tier == "thorough"
                                            else 2])
    variables = ctx.choose("variables", [[VARS[0]], [VARS[2], VARS[3]],
                                         [VARS[6], VARS[4], VARS[10]]])
    comments = ctx.choose("comments", COMMENTS)
    name = ctx.choose("name", [None, u"Meas \u00e5"])
    extra = ctx.choose("unused dimensions", [[], [D("sweep", "zz", [3., 1.],
                                                    "s", "%.1f")],
                                             [D("partial", "y", [7]),
                                              D("rep", "u", ["a", "bc"])]])
    db, models = block(dims, variables, comments, name)
    for d in extra:
        db[d.name] = d.real()
    formats = True
    for k in range(2):
        fn = os.path.join(ctx.tmp, "a%d.hdf5" % k)
        version = ctx.choose("version", VERSIONS)
        ways = list(itertools.product(["name", "handle"],
                                      ["name", "handle", "read_data"]))
        if k and ctx.tier != "thorough":
            ways = [ways[0], ways[-1]]
        save, read = ctx.choose("save to, read", ways)
        store(ctx, db, fn, version, save)
        db = load(ctx, fn, read)
        formats = formats and version == "0.2"
        check_block(ctx, db, models, "0.2" if formats else "0.1",
                    "read %d" % (k + 1), extra, comments, name)
    ctx.state((repr(dims), [v.name for v in variables], repr(comments), name,
               repr(extra)))
    observe(ctx, db)


DT = {"s": ["2010-01-02T03:04:05", "1969-12-31T23:59:59",
            "1970-01-01T00:00:00"],
      "D": ["2010-01-02", "1960-02-29", "2038-01-20"],
      "us": ["2010-01-02T03:04:05.123456", "1969-12-31T23:59:59.999999",
             "2262-01-01"],
      "ns": ["2010-01-02T03:04:05.123456789", "1970-01-01", "1677-12-01"]}


def values_menu():
    out = []
    for t in ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]:
        if t == "?":
            v = [True, False, True]
        else:
            info = np.iinfo(t)
            v = [info.min, info.max, 7]
        out.append(Named("type " + t, np.array(v, dtype=t)))
    for t in ["f4", "f8"]:
        info = np.finfo(t)
        out.append(Named("type " + t, np.array(
            [info.max, -info.tiny, 1 + info.eps], dtype=t)))
        out.append(Named("special " + t, np.array(
            [float("nan"), float("-inf"), -0.0], dtype=t)))
    for t in ["c8", "c16"]:
        out.append(Named("type " + t, np.array(
            [1 - 2j, complex(0, 1e-30), complex(float("inf"), -1)],
            dtype=t)))
    for t in [">f8", ">i4", ">c16"]:
        out.append(Named("type " + t, np.array([1, -2, 3], dtype=t)))
    out.append(Named("text", np.array(["a", "", "longer text"])))
    out.append(Named("text not ascii", np.array([u"\u00e5\u00e4", u"\u03a9",
                                                 u"\u2603 \U0001f600"])))
    out.append(Named("text spaces", np.array([" a ", "b\tc", "d\ne"])))
    for u in sorted(DT):
        out.append(Named("datetime " + u, np.array(
            DT[u], dtype="datetime64[%s]" % u)))
    return out


VALUES = values_menu()


def exact(a):
    a = np.asarray(a)
    if a.dtype.kind in "OSU":
        return ("text", a.shape, a.tolist())
    a = a.astype(a.dtype.newbyteorder("="))
    return (a.dtype.str, a.shape, a.tobytes())


def types(ctx):
    """every type of values, as variable, scalar and labels"""
    version = ctx.choose("version", VERSIONS)
    val = ctx.choose("values", VALUES).value
    shape = ctx.choose("as", ["vector", "column", "scalar", "empty",
                              "labels", "matrix"])
    db = DataBlock()
    if shape == "vector":
        data = val
        db["x"] = hfarray(data, dims=(DimSweep("a", [1., 2., 4.]),))
    elif shape == "column":
        data = np.array([val, val[::-1]]).transpose()
        db["x"] = hfarray(data, dims=(DimSweep("a", [1., 2., 4.]),
                                      DimRep("b", 2)))
    elif shape == "scalar":
        k = ctx.choose("element", range(3))
        data = np.array(val[k])
        db["x"] = hfarray(data, dims=())
    elif shape == "empty":
        data = val[:0]
        db["x"] = hfarray(data, dims=(DimSweep("a", []),))
    elif shape == "matrix":
        data = val[[0, 1, 2, 0]].reshape(2, 2)
        db["x"] = hfarray(data, dims=(DimRep("a", 2), DimRep("b", 2)))
    else:
        data = None
        if len(set(val.tolist())) < 3 or val.dtype.kind == "c":
            raise Prune("labels differ")
        if val.dtype.kind == "M" and val.dtype.str[-3:] in ("[D]", "ns]"):
            raise Prune("labels are of type datetime")
        dim = DimSweep("a", val)
        db["x"] = hfarray([1., 2., 3.], dims=(dim,))
        labels = np.asarray(db.ivardata["a"].data)
    if shape == "empty" and val.dtype.kind in "UM":
        raise Prune("text and dates without elements")
    fn = os.path.join(ctx.tmp, "a.hdf5")
    store(ctx, db, fn, version, "name")
    got = load(ctx, fn, "name")
    if data is not None:
        ctx.check(exact(got["x"]) == exact(data), lambda: "got %r, expected "
                  "%r" % (np.asarray(got["x"]), data))
    else:
        ctx.check(exact(got.ivardata["a"].data) == exact(labels),
                  lambda: "labels %r, expected %r"
                  % (got.ivardata["a"].data, labels))
        ctx.check(np.asarray(got["x"]).tolist() == [1., 2., 3.],
                  lambda: "values %r" % (got["x"],))
    ctx.state((version, str(val.dtype), shape))
    ctx.observe(repr(np.asarray(got["x"]).tolist()))


def groups(ctx):
    """version 0.1 files hold several blocks by name"""
    names = ctx.choose("names", list(itertools.permutations(
        ["datablock", "one", "other block"], 3)))
    n = ctx.choose("blocks", [2, 3])
    pick = [ctx.choose("block", range(3)) for _ in range(n)]
    menu = [([F], [VARS[0]], ["first"], "A"), ([F, R], [VARS[2], VARS[1]],
                                               [], None),
            ([R], [VARS[3]], ["a=1", "b"], "B")]
    fn = os.path.join(ctx.tmp, "a.hdf5")
    want = {}
    with h5py.File(fn, "w") as fil:
        for name, k in zip(names, pick):
            db, models = block(*menu[k])
            want[name] = (models, menu[k])
            save_hdf5(db, fil, version="0.1", name=name)
            ctx.step()
    for name, (models, m) in want.items():
        got = load(ctx, fn, "name", name=name)
        check_block(ctx, got, models, "0.1", "block %s" % name, (), m[2],
                    m[3])
    for name in names[n:]:
        try:
            load(ctx, fn, "name", name=name)
        except Exception:
            pass
        else:
            ctx.fail("block %r was read but never saved" % name)
    ctx.state((names, tuple(pick)))
    ctx.observe(sorted(want))


def properties(ctx):
    """comments as variables"""
    version = ctx.choose("version", VERSIONS)
    flag = ctx.choose("property_to_vars", [None, False, True])
    comments = ctx.choose("comments", COMMENTS[1:])
    db, models = block([F], [VARS[0]], comments)
    fn = os.path.join(ctx.tmp, "a.hdf5")
    store(ctx, db, fn, version, "name")
    kw = {} if flag is None else dict(property_to_vars=flag)
    got = load(ctx, fn, ctx.choose("read", ["name", "handle"]), **kw)
    want = set(["x"])
    if flag and len(comments) == 3:
        want.update(["Hej", "Note"])
    ctx.check(set(got.vardata.keys()) == want, lambda: "variables %r, "
              "expected %r" % (got.vardata.keys(), want))
    if "Hej" in want:
        ctx.check(float(got.Hej) == 10 and got.Hej.unit == "V",
                  lambda: "Hej is %r" % (got.Hej,))
    ctx.state((version, flag, repr(comments)))
    ctx.observe(sorted(got.vardata.keys()))


# -- appending --------------------------------------------------------------
EXPAND = [Named("default", lambda: None),
          Named("DimRep N from 5", lambda: DimRep("N", [5])),
          Named("DimSweep run/x from 2.5 s",
                lambda: DimSweep("run/x", [2.5], unit="s",
                                 outputformat="%.1f"))]
AVARS = [[Var("x", unit="mV", fmt="%.2f")],
         [Var("c", "complex"), Var("n", "int", unit="s")],
         [Var("S", "complex", (2, 2)), Var("k", dims=[], unit="V")],
         [Var("a/b", dims=[R, F]), Var("y", dims=[F])],
         [Var("M", "real", (1, 3)), Var("S", "complex", (2, 2))]]


def make(dims, variables, seed, change=None, text=None):
    """block number *seed* of a series and its models"""
    db = DataBlock()
    models = {}
    for n, v in enumerate(variables):
        m, order = v.model(dims if v.dims is None else v.dims,
                           5 * n + 31 * seed)
        models[v.name] = (v, m)
        db[v.name] = v.real(m, order)
    return db, models


def change(kind, db, models, dims):
    """apply change to good block; returns None when not applicable, True
    when the block still fits"""
    name = sorted(models)[0]
    v, m = models[name]
    a = db[name]
    if kind == "good":
        return True
    if kind == "reordered":
        if a.ndim < 2:
            return None
        db[name] = a.transpose()
        return True
    if kind == "int values":
        if v.kind != "real" or v.fmt:
            return None
        new = L(m.dims, dict((k, float(n)) for n, k in
                             enumerate(sorted(m.cells, key=repr))))
        models[name] = (v, new)
        db[name] = L(m.dims, new.cells).real(dtype=int, unit=v.unit)
        return True
    if kind == "variable missing":
        del db[name]
        return False
    if kind == "extra variable":
        db["extra"] = hfarray(1.) if not a.ndim else a
        return False
    if kind == "other unit":
        b = a.copy()
        b.unit = "kg"
        db[name] = b
        return False
    if kind == "complex values":
        if v.kind == "complex":
            return None
        db[name] = a + 1j
        db[name].unit = v.unit
        return False
    real = [d for d in m.dims if d.kind not in ("mi", "mj")]
    if not real:
        return None
    d = real[0]
    if kind == "other labels":
        e = D(d.kind, d.name, d.labels[:-1] + [99], d.unit, d.fmt)
    elif kind == "fewer labels":
        e = D(d.kind, d.name, d.labels[:-1], d.unit, d.fmt)
        if not len(e):
            return None
    elif kind == "labels in other order":
        e = D(d.kind, d.name, d.labels[::-1], d.unit, d.fmt)
    elif kind == "other unit of labels":
        e = D(d.kind, d.name, d.labels, "kg", d.fmt)
    elif kind == "other dimension":
        e = D(d.kind, "other", d.labels, d.unit, d.fmt)
    elif kind == "without dimension":
        e = None
    db2 = DataBlock()
    for k, (v, m) in models.items():
        ds = [x for x in ([e if y.key == d.key else y for y in m.dims])
              if x is not None]
        n = int(np.prod([len(x) for x in ds])) if ds else 1
        w = L.fill(ds, list(m.cells.values())[:n])
        db2[k] = v.real(w, ds)
    for k in db.vardata.keys():
        db[k] = db2[k]
    for k in list(db2.ivardata.keys()):
        pass
    return (db2,)


CHANGES = ["good", "reordered", "int values", "variable missing",
           "extra variable", "other unit", "complex values", "other labels",
           "fewer labels", "labels in other order", "other unit of labels",
           "other dimension", "without dimension"]


def grown(v, m, index):
    """model of first block with the dimension that grows"""
    cells = dict((frozenset(list(k) + [(index.key, index.labels[0])]), x)
                 for k, x in m.cells.items())
    return L(m.dims + [index], cells)


def append(ctx):
    dims = ctx.choose("dimensions", [[F, R], [R], [T]])
    variables = ctx.choose("variables", AVARS)
    expand = ctx.choose("expanddim", EXPAND)
    fn = os.path.join(ctx.tmp, "a.hdf5")
    db, models = make(dims, variables, 0)
    ed = expand()
    kw = dict(expandable=True)
    if ed is not None:
        kw["expanddim"] = ed
    store(ctx, db, fn, "0.2", "name", **kw)
    real = DimRep("INDEX", 1) if ed is None else ed
    index = D(kind_of(real), real.name, np.asarray(real.data).tolist(),
              real.unit, real.outputformat)
    state = dict((k, (v, grown(v, m, index))) for k, (v, m) in
                 models.items())
    depth = 4 if ctx.tier == "thorough" else 3
    history = []
    for step in range(1, depth + 1):
        got = load(ctx, fn, "name")
        check_block(ctx, got, state, "0.2", "after %r" % history)
        if step == depth:
            break
        kind = ctx.choose("append", CHANGES)
        db, models = make(dims, variables, step)
        fits = change(kind, db, models, dims)
        if fits is None:
            raise Prune("does not apply")
        if isinstance(fits, tuple):
            db = fits[0]
            fits = False
        history.append(kind)
        before = fingerprint(db)
        with h5py.File(fn, "r+") as fil:
            try:
                if ed is None:
                    append_hdf5(db, fil)
                else:
                    append_hdf5(db, fil, expanddim=expand())
            except Exception as exc:
                ctx.check(not fits, lambda: "block that fits refused: %r"
                          % exc)
            else:
                ctx.check(fits, lambda: "block with %s was appended" % kind)
        ctx.step()
        ctx.check(before == fingerprint(db), "appending changed the block")
        if fits:
            label = index.labels[-1] + 1
            index = D(index.kind, index.name, index.labels + [label],
                      index.unit, index.fmt)
            for k, (v, m) in models.items():
                old = state[k][1]
                cells = dict(old.cells)
                for c, x in m.cells.items():
                    cells[frozenset(list(c) + [(index.key, label)])] = x
                state[k] = (v, L([d for d in old.dims if d.key != index.key]
                                 + [index], cells))
    ctx.state((repr(dims), [v.name for v in variables], repr(index),
               tuple(history)))
    observe(ctx, got)


def shapes(ctx):
    """series of arrays with dimensions of any length, one included"""
    version = ctx.choose("version", VERSIONS)
    nd = ctx.choose("number of dimensions", [0, 1, 2, 3])
    sizes = [ctx.choose("size %d" % k, [1, 2, 3]) for k in range(nd)]
    kinds = ["sweep", "rep", "partial"]
    first = ctx.choose("kind", range(3))
    dims = [D(kinds[(first + k) % 3], "pqr"[k],
              [10. * k + 1.5 * n for n in range(s)], "m")
            for k, s in enumerate(sizes)]
    var = ctx.choose("variable", [Var("x", unit="V"), Var("n", "int"),
                                  Var("S", "complex", (2, 2)),
                                  Var("M", "real", (1, 1)),
                                  Var("V", "real", (1, 3))])
    appends = ctx.choose("appended", [0, 1, 2] if version == "0.2" else [0])
    grow = ctx.flag("expandable") if version == "0.2" else False
    if appends and not grow:
        raise Prune("can not grow")
    fn = os.path.join(ctx.tmp, "a.hdf5")
    db, models = make(dims, [var], 0)
    store(ctx, db, fn, version, "name", **(dict(expandable=True) if grow
                                           else {}))
    if grow:
        index = D("rep", "INDEX", [0])
        state = dict((k, (v, grown(v, m, index)))
                     for k, (v, m) in models.items())
    else:
        state = models
    for step in range(1, appends + 1):
        db, models = make(dims, [var], step)
        with h5py.File(fn, "r+") as fil:
            append_hdf5(db, fil)
        ctx.step()
        index = D("rep", "INDEX", list(range(step + 1)))
        for k, (v, m) in models.items():
            old = state[k][1]
            cells = dict(old.cells)
            for c, x in m.cells.items():
                cells[frozenset(list(c) + [(index.key, step)])] = x
            state[k] = (v, L([d for d in old.dims if d.key != index.key] +
                             [index], cells))
    got = load(ctx, fn, "name")
    check_block(ctx, got, state, version, "read")
    ctx.state((version, tuple(sizes), first, var.name, appends, grow))
    observe(ctx, got)


TEXTS = [u"a", u"a b", u"Nonesuch", u"none of these", u"a/b", u"a\\b",
         u"!a", u"# 5 %", u"a: 5", u"5", u"x" * 300, u"\u00e5 \u20ac",
         u"\u03a9", u"None.", u"0", u"a;b,c", u"'a'", u'"a"', u"%s"]


def texts(ctx):
    """names of blocks and comments of any text"""
    version = ctx.choose("version", VERSIONS)
    name = ctx.choose("name", [None] + TEXTS)
    lines = ctx.choose("comments", [[]] + [[x] for x in TEXTS] +
                       [TEXTS[:2], TEXTS[::-1]])
    if name and lines and name not in lines:
        raise Prune("bound")
    unit = ctx.choose("unit", [None, "V", "Nonesuch", "1/s", u"\u03a9"])
    dim = ctx.choose("dimension", ["f", u"\u03a9", "a b", u"\u20ac"])
    db = DataBlock()
    db.x = hfarray([1., 2.], dims=(DimSweep(dim, [1., 2.], unit=unit),),
                   unit=unit)
    db.blockname = name
    db.comments = Comments(lines)
    fn = os.path.join(ctx.tmp, "a.hdf5")
    store(ctx, db, fn, version, "name")
    got = load(ctx, fn, "name")
    ctx.check(got.blockname == name, lambda: "block %r is read as %r"
              % (name, got.blockname))
    c = list(got.comments.fullcomments)
    # "!" marks a comment and is not part of it
    ctx.check([x.lstrip("!") for x in c] == [x.lstrip("!") for x in lines],
              lambda: "comments %r are read as %r" % (lines, c))
    ctx.check(got.x.unit == unit and got.ivardata[dim].unit == unit,
              lambda: "units %r are read as %r" % (unit, got.x.unit))
    ctx.check(np.asarray(got.x).tolist() == [1, 2], "values")
    ctx.state((version, name, tuple(lines), unit, dim))
    ctx.observe((version, name, len(lines), unit))


def append_types(ctx):
    """series of text, dates and all types of numbers"""
    val = ctx.choose("values", VALUES).value
    scalar = ctx.flag("scalar")
    order = [ctx.choose("element", range(3)) for _ in range(3)]
    fn = os.path.join(ctx.tmp, "a.hdf5")
    a = DimSweep("a", [1., 2.])

    def mk(k):
        db = DataBlock()
        if scalar:
            db["x"] = hfarray(np.array(val[k]), dims=())
        else:
            db["x"] = hfarray(np.array([val[k], val[k - 1]],
                                       dtype=val.dtype), dims=(a,))
        return db
    save_hdf5(mk(order[0]), fn, expandable=True)
    ctx.step()
    for k in order[1:]:
        with h5py.File(fn, "r+") as fil:
            append_hdf5(mk(k), fil)
        ctx.step()
    got = load(ctx, fn, "name")
    x = got["x"]
    data = np.asarray(x)
    if scalar:
        want = np.array([val[k] for k in order], dtype=val.dtype)
        names = ["INDEX"]
    else:
        want = np.array([[val[k] for k in order], [val[k - 1] for k in order]],
                        dtype=val.dtype)
        names = ["a", "INDEX"]
    ctx.check([d.name for d in x.dims] == names, lambda: "dimensions %r"
              % (x.dims,))
    ctx.check(exact(data) == exact(want), lambda: "got %r, expected %r"
              % (data, want))
    ctx.check(np.asarray(got.ivardata["INDEX"].data).tolist() == [0, 1, 2],
              lambda: "labels %r" % (got.ivardata["INDEX"].data,))
    ctx.state((str(val.dtype), scalar, tuple(order)))
    ctx.observe(repr(data.tolist()))


def append_refused(ctx):
    """files which can not grow are left alone"""
    kind = ctx.choose("file", ["not expandable", "version 0.1",
                               "other index"])
    variables = ctx.choose("variables", AVARS)
    n = ctx.choose("dimensions", range(3))
    dims = [[F, R], [R], [T]][n]
    fn = os.path.join(ctx.tmp, "a.hdf5")
    db, models = make(dims, variables, 0)
    kw = {}
    if kind == "version 0.1":
        kw["version"] = "0.1"
    elif kind == "other index":
        kw.update(expandable=True, expanddim=DimRep("N", [5]))
    save_hdf5(db, fn, **kw)
    before = fingerprint(read_hdf5(fn))
    db, models = make(dims, variables, 1)
    with h5py.File(fn, "r+") as fil:
        try:
            append_hdf5(db, fil)
        except Exception:
            pass
        else:
            ctx.fail("appended to a file which is %s" % kind)
    ctx.step()
    ctx.check(before == fingerprint(read_hdf5(fn)), "refused append changed "
              "the file")
    ctx.state((kind, [v.name for v in variables], n))
    ctx.observe(kind)


def spaces(tier):
    return [
        Space("roundtrip", roundtrip, "versions x 7 sets of dimensions x "
              "ordered pairs of 13 kinds of variables", tmpdir=True),
        Space("histories", histories, "two cycles: versions, names and "
              "handles, comments, block names, unused dimensions",
              tmpdir=True),
        Space("large", large, "20000 points, 5 dimensions, 100 variables",
              tmpdir=True),
        Space("long_series", long_series, "60 appends", tmpdir=True),
        Space("types", types, "all numeric types, text and dates as vectors, "
              "columns, scalars, labels", tmpdir=True),
        Space("groups", groups, "several named blocks in a version 0.1 file",
              tmpdir=True),
        Space("properties", properties, "comments as variables", tmpdir=True),
        Space("append", append, "all histories of appends of fitting and "
              "misfitting blocks", tmpdir=True),
        Space("shapes", shapes, "0-3 dimensions of length 1-3, saved and "
              "grown", tmpdir=True),
        Space("texts", texts, "19 texts as names and comments, 5 units",
              tmpdir=True),
        Space("append_types", append_types, "series of every type",
              tmpdir=True),
        Space("append_refused", append_refused, "files that can not grow",
              tmpdir=True)]
