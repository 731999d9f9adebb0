# -*- coding: utf-8 -*-
"""C22: MAT files of the muwave toolbox are read as what they state."""
import datetime
import os

import numpy as np
import scipy.io as sio

from mc.engine import Space
from hftools.dataset import DimSweep, DimMatrix_i, DimMatrix_j
from hftools.file_formats import read_data
from hftools.file_formats.muwave_mat import read_muwave_matlabdata
from hftools.core.exceptions import HFToolsIOError

ASSUMPTIONS = [
    "the layout of the files is the one the reader is written for: a struct "
    "swp with a row of measurements, each with measstate, measmnt (props and "
    "values) and data (type, reference, freq, data, datacov)",
    "matrices with one row and one column, a single frequency and a single "
    "measurement lose the dimension of length one",
    "text does not consist of a number"]


def cell(values):
    a = np.empty((1, len(values)), object)
    for i, x in enumerate(values):
        a[0, i] = x
    return a


def struct(**kw):
    a = np.empty((1, 1), dtype=[(k, object) for k in sorted(kw)])
    for k, v in kw.items():
        a[0, 0][k] = v
    return a


def propdata(pairs):
    return struct(props=cell([k for k, _ in pairs]),
                  values=cell([v for _, v in pairs]))


def matrix(k, freqs, ports, kind):
    """unique numbers for measurement k"""
    n = len(freqs) * ports * ports
    a = (np.arange(n) + 1000. * k).reshape(len(freqs), ports, ports)
    if kind == "complex":
        return a + 1j * (a[::-1] + 0.5)
    return a.astype(kind)


def measurement(m):
    data = dict(type=m["type"], reference=m["Z0"],
                freq=np.array(m["freq"], float).reshape(-1, 1),
                data=struct(mtrx=m["data"].transpose(1, 2, 0)),
                datacov=np.zeros((0, 0)))
    if m["cov"] is not None:
        data["datacov"] = struct(mtrx=m["cov"].transpose(1, 2, 0))
    out = dict(measstate=propdata([("Index", float(m["index"]))] +
                                  m["state"]), data=struct(**data))
    if m["props"] is not None:
        out["measmnt"] = propdata(m["props"])
    return struct(**out)


def save(fn, measurements):
    d = np.empty((1, len(measurements)), object)
    for i, m in enumerate(measurements):
        d[0, i] = measurement(m)
    sio.savemat(fn, {"swp": struct(data=d)})


def make(ctx, k, index, **kw):
    m = dict(type="S", Z0=50., freq=[1e9, 2e9, 3.5e9], ports=2,
             kind="complex", cov=False, index=index, state=[], props=[])
    m.update(kw)
    m["data"] = matrix(k, m["freq"], m["ports"], m["kind"])
    m["cov"] = matrix(k + 50, m["freq"], m["ports"], "complex") \
        if m["cov"] else None
    return m


UNIT = dict(V1="V", V2="V", V1_SET="V", V2_SET="V", I1="A", I2="A",
            I1_SET="A", I2_SET="A", Z0="Ohm")


def at(db, name, n, i, what, ctx):
    """value of name for measurement i of n"""
    ctx.check(name in db.vardata, lambda: "%s: no %r among %r"
              % (what, name, list(db.vardata)))
    v = db.vardata[name]
    ctx.check(v.unit == UNIT.get(name), lambda: "%s: unit of %s is %r"
              % (what, name, v.unit))
    if n == 1:
        return v
    axes = [k for k, d in enumerate(v.dims) if d.name == "INDEX1"]
    ctx.check(len(axes) == 1 and v.dims[axes[0]].__class__ is DimSweep and
              v.shape[axes[0]] == n, lambda: "%s: dims of %s are %r"
              % (what, name, v.dims))
    return v[(slice(None),) * axes[0] + (i,)]


def text(value):
    return "" if isinstance(value, np.ndarray) else value


def judge(ctx, db, ms, what, drop_empty=True):
    n = len(ms)
    for i, m in enumerate(ms):
        for name, want in [(m["type"], m["data"])] + (
                [(m["type"] + "cov", m["cov"])] if m["cov"] is not None
                else []):
            v = at(db, name, n, i, what, ctx)
            dims = []
            if len(m["freq"]) > 1:
                dims.append((DimSweep, "freq", list(m["freq"])))
            if m["ports"] > 1:
                dims += [(DimMatrix_i, "i", list(range(m["ports"]))),
                         (DimMatrix_j, "j", list(range(m["ports"])))]
            got = [(d.__class__, d.name, d.data.tolist())
                   for d in getattr(v, "dims", ())]
            ctx.check(got == dims, lambda: "%s: dims of %s are %r, expected "
                      "%r" % (what, name, got, dims))
            ctx.check(np.array_equal(np.asarray(v), want.squeeze()) if not
                      dims else np.array_equal(
                          np.asarray(v).ravel(), want.ravel()),
                      lambda: "%s: %s of measurement %d is %r, expected %r"
                      % (what, name, i, np.asarray(v), want))
        if len(m["freq"]) > 1:
            ctx.check(db.ivardata["freq"].unit == "Hz", "unit of freq")
        named = [("Index", m["index"]), ("Z0", m["Z0"])] + m["state"]
        for name, want in named + (m["props"] or []):
            want = text(want)
            if want == "" and drop_empty and all(
                    text(dict(x["state"] + (x["props"] or []))[name]) == ""
                    for x in ms):
                ctx.check(name not in db, lambda: "%s: %s is %r"
                          % (what, name, db[name]))
                continue
            v = np.asarray(at(db, name, n, i, what, ctx)).item()
            if name == "Date" and want.startswith("1"):
                want = datetime.datetime.strptime(want, "%d-%b-%Y %H:%M:%S")
            ctx.check(v == want, lambda: "%s: %s of measurement %d is %r, "
                      "expected %r" % (what, name, i, v, want))
    ctx.step(n)


def read(ctx, fn, **kw):
    if ctx.flag("read_data"):
        return read_data(fn, **kw)
    return read_muwave_matlabdata(fn, **kw)


def tables(ctx):
    """measurements, ports, frequencies, types"""
    n = ctx.choose("measurements", [1, 2, 3])
    kw = dict(type=ctx.choose("type", ["S", "Y", "Z"]),
              ports=ctx.choose("ports", [1, 2, 3]),
              freq=ctx.choose("frequencies", [[1e9, 2e9, 3.5e9], [5e6],
                                              [3e9, 1e9]]),
              kind=ctx.choose("kind", ["complex", "float", "uint8"]),
              cov=ctx.flag("covariance"), Z0=ctx.choose("Z0", [50., 75., 12.5]))
    index = ctx.choose("index", [[1, 2, 3], [3, 1, 2], [10, 20, 5],
                                 [.5, .25, -1.5]])
    ms = [make(ctx, 0 if kw["kind"] == "uint8" else i, index[i], **kw)
          for i in range(n)]
    fn = os.path.join(ctx.tmp, ctx.choose("name", ["a.mat", "b.dat"]))
    save(fn, ms)
    db = read(ctx, fn)
    judge(ctx, db, ms, "read")
    ctx.state((n, kw["type"], kw["ports"], len(kw["freq"])))
    ctx.observe((n, repr(kw), index))


def large(ctx):
    """many measurements, frequencies, ports"""
    n, nf, ports = ctx.choose("measurements, frequencies, ports", [
        (40, 3, 2), (150, 1, 1), (11, 101, 2), (2, 2001, 2), (3, 2, 12),
        (1, 5000, 1), (12, 12, 10)])
    order = ctx.choose("index", ["ascending", "descending", "mixed"])
    index = [dict(ascending=k + 1, descending=n - k,
                  mixed=k * 89 % n + 1)[order] for k in range(n)]
    ms = [make(ctx, i, index[i], ports=ports, cov=ctx.tier != "quick",
               freq=[1e6 * (k + 1) for k in range(nf)],
               state=[("V1", .25 * i), ("Operator", "o%d" % (i % 7))],
               props=[("Info", "i" * (i % 20))]) for i in range(n)]
    fn = os.path.join(ctx.tmp, "a.mat")
    save(fn, ms)
    db = read(ctx, fn)
    judge(ctx, db, ms, "read")
    ctx.state((n, nf, ports, order))
    ctx.observe((n, nf, ports, order))


VALUES = [[0.5, 1.5, 2.5], [0., 0., 0.], [3, 1, 2], ["on", "off", "on"],
          ["", "", ""], ["", "x", ""], [np.zeros((0, 0))] * 3,
          [-1.25, 0., 7.]]
NAMES = ["V1", "V2", "V1_SET", "V2_SET", "I1_SET", "I2", "I2_SET",
         "Operator", "Temp"]


def properties(ctx):
    """states and properties of the measurements"""
    n = ctx.choose("measurements", [1, 2, 3])
    sname = ctx.choose("state", NAMES)
    sval = ctx.choose("its values", VALUES)
    pname = ctx.choose("property", ["Info", "I1", "Date", None])
    if pname == "Date":
        pval = ctx.choose("values", [["12-Mar-2010 10:11:12"] * 3, [
            "12-Mar-2010 10:11:12", "13-Apr-2011 23:00:59",
            "19-Dec-1999 00:00:00"], ["yesterday", "today", "now"]])
    elif pname:
        pval = ctx.choose("values", VALUES)
    drop = ctx.flag("drop_empty")
    ms = [make(ctx, i, i + 1, state=[(sname, sval[i])],
               props=None if pname is None else [(pname, pval[i])])
          for i in range(n)]
    fn = os.path.join(ctx.tmp, "a.mat")
    save(fn, ms)
    db = read(ctx, fn, drop_empty=drop)
    judge(ctx, db, ms, "read", drop)
    ctx.observe((n, sname, repr(sval), pname))


def several(ctx):
    """several files by a pattern"""
    nfiles = ctx.choose("files", [2, 3])
    n = ctx.choose("measurements", [1, 2, 3])
    typ = ctx.choose("type", ["S", "Y"])
    names = ctx.choose("names", [["a1", "a2", "a10"], ["x10", "x9", "x8"]])
    names = names[:nfiles]
    files = []
    for f in range(nfiles):
        files.append([make(ctx, 10 * f + i, i + 1, type=typ,
                           state=[("V1", f + 0.25 * i)]) for i in range(n)])
        save(os.path.join(ctx.tmp, names[f] + ".mat"), files[-1])
    db = read(ctx, os.path.join(ctx.tmp, "*.mat"))
    order = sorted(range(nfiles), key=lambda f: int(names[f][1:]))
    for pos, f in enumerate(order):
        for i, m in enumerate(files[f]):
            for name, want in [(typ, m["data"]), ("V1", m["state"][0][1]),
                               ("Index2", pos)]:
                v = db[name]
                idx = tuple(pos if d.name == "INDEX2" else
                            i if d.name == "INDEX1" else slice(None)
                            for d in v.dims)
                ctx.check([d.name for d in v.dims
                           if d.name == "INDEX2"], "no index of files")
                ctx.check(np.array_equal(np.asarray(v)[idx], want),
                          lambda: "%s of %s, measurement %d is %r, expected "
                          "%r" % (name, names[f], i, np.asarray(v)[idx],
                                  want))
            ctx.step()
    ctx.observe((nfiles, n, typ, names))


def refused(ctx):
    """other MAT files, measurements that do not fit together"""
    what = ctx.choose("what", ["other", "frequencies", "ports", "number"])
    fn = os.path.join(ctx.tmp, "a.mat")
    if what == "other":
        sio.savemat(fn, {"x": np.arange(3)})
    else:
        ms = [make(ctx, i, i + 1) for i in range(2)]
        ms.append(make(ctx, 2, 3, **dict(
            frequencies=dict(freq=[1e9, 2e9, 4e9]), ports=dict(ports=3),
            number=dict(freq=[1e9, 2e9]))[what]))
        ms = [ms[i] for i in ctx.permutation("order", range(3))]
        save(fn, ms)
    try:
        db = read(ctx, fn)
    except HFToolsIOError:
        ctx.step()
        ctx.observe(what)
        return
    ctx.fail("%s is read as\n%s" % (what, db))


def spaces(tier):
    return [Space("tables", tables, "measurements x types x ports x "
                  "frequencies x kinds of numbers x orders of index",
                  tmpdir=True),
            Space("properties", properties, "all kinds of states and "
                  "properties", tmpdir=True),
            Space("large", large, "up to 150 measurements, 5000 frequencies, "
                  "12 ports", tmpdir=True),
            Space("several", several, "several files", tmpdir=True),
            Space("refused", refused, "misfits", tmpdir=True)]
