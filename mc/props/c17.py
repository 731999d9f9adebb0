# -*- coding: utf-8 -*-
"""C17: merged blocks and files keep every value with its origin."""
import itertools
import os

import numpy as np

from mc.engine import Space, Named
from mc.labelled import D, L, compare, dim_labels
from mc.filemodel import expect, expect_dim, index_dim
from hftools.dataset import DataBlock, DimSweep, DimPartial, hfarray
from hftools.file_formats import (merge_blocks, read_spdata, read_data,
                                  read_touchstone, read_citi)
from hftools.file_formats.common import Comments

ASSUMPTIONS = ["blocks hold variables over a sweep, scalars and strings",
               "dimensions with one element may be squeezed away by merging"]

PARTS = [(), ("I",), ("I", "J"), ("J", "I"), ("J",)]
SETS = [("x",), ("x", "y"), ("y",), ("x", "s")]
FREQS = [[1., 2.], [3., 4.], [1., 2., 3.]]


def make(k, parts, names, freq, unit="V"):
    db = DataBlock()
    m = dict(parts={}, vars={}, freq=freq, unit=unit)
    for n, p in enumerate(parts):
        v = (k + 1) * (1.5 if p == "I" else -2)
        db[p] = DimPartial(p, [v], unit="A")
        m["parts"][p] = v
    dim = DimSweep("f", freq, unit="Hz")
    for n, name in enumerate(names):
        if name == "s":
            v = 100. + k
            db[name] = hfarray(v, dims=(), unit=unit)
        else:
            v = [10. * k + 3 * n + i for i in range(len(freq))]
            db[name] = hfarray(v, dims=(dim,), unit=unit)
        m["vars"][name] = v
    db.comments = Comments(["Block %d" % k, "common: %d" % k])
    return db, m


def at(ctx, a, where, what):
    """part of array *a* at the index positions, as (labels, values)"""
    raw = np.asarray(a)
    names = [d.name for d in a.dims]
    ctx.check(len(names) == raw.ndim and
              tuple(len(dim_labels(d)) for d in a.dims) == raw.shape,
              lambda: "%s: dims %r do not fit shape %r"
              % (what, a.dims, raw.shape))
    for name, pos in where.items():
        if name in names:
            raw = np.take(raw, pos, axis=names.index(name))
            names.remove(name)
    return names, raw.tolist()


def faithful(ctx, out, models):
    """every value of every block is in *out* at its own coordinates"""
    seen = dict((p, 0) for m in models for p in m["parts"])
    groups = {}
    for k, m in enumerate(models):
        key = frozenset(m["parts"])
        pos = groups.setdefault(key, [])
        pos.append(k)
    for k, m in enumerate(models):
        key = frozenset(m["parts"])
        pos = groups[key].index(k)
        where = {}
        what = "block %d" % k
        for p, v in m["parts"].items():
            ctx.check(p in out, "%s: %s is gone" % (what, p))
            if p in out.ivardata:
                ctx.check(len(models) == 1 and
                          dim_labels(out.ivardata[p]) == [v],
                          lambda: "%s: dimension %s" % (what, p))
                continue
            a = out.vardata[p]
            ctx.check(a.unit == "A", "%s: unit of %s" % (what, p))
            if a.dims:
                ctx.check(len(a.dims) == 1, lambda: "%s: %s has dims %r"
                          % (what, p, a.dims))
                where[a.dims[0].name] = pos
                ctx.check(len(groups[key]) == len(a.dims[0].data),
                          lambda: "%s: %d blocks, index of %d" %
                          (what, len(groups[key]), len(a.dims[0].data)))
            names, v2 = at(ctx, a, where, p)
            ctx.check(v2 == v, lambda: "%s: %s is %r, expected %r"
                      % (what, p, v2, v))
        for name, v in m["vars"].items():
            ctx.check(name in out.vardata, "%s: %s is gone" % (what, name))
            a = out.vardata[name]
            names, v2 = at(ctx, a, where, name)
            ctx.check(v2 == v, lambda: "%s: %s is %r, expected %r"
                      % (what, name, v2, v))
            units = set(x["unit"] for x in models if name in x["vars"])
            if len(units) == 1:
                ctx.check(a.unit == m["unit"], lambda: "%s: unit of %s is %r,"
                          " expected %r" % (what, name, a.unit, m["unit"]))
            else:
                ctx.check(a.unit is None, lambda: "%s has unit %r, blocks "
                          "have %r" % (name, a.unit, units))
            if name != "s":
                ctx.check(names == ["f"], lambda: "%s: dims of %s %r"
                          % (what, name, names))
                lab = dim_labels(a.dims[a.dims_index("f")])
                ctx.check(lab == m["freq"], lambda: "%s: %s is at %r, "
                          "expected %r" % (what, name, lab, m["freq"]))
                ctx.check(dim_labels(out.ivardata["f"]) == lab,
                          "block and variable disagree on f")
    allnames = set(n for m in models for n in m["vars"])
    ctx.check(set(out.vardata.keys()) <=
              allnames | set(p for m in models for p in m["parts"]),
              lambda: "variables %r" % out.vardata.keys())
    want = [c for k in range(len(models))
            for c in ("Block %d" % k, "common: %d" % k)]
    ctx.check(list(out.comments.fullcomments) == want,
              lambda: "comments %r, expected %r"
              % (out.comments.fullcomments, want))


def mergeable(models):
    """blocks that have to be merged: same indices, variables and sweep"""
    first = models[0]
    return (len(models) == 1 or bool(first["parts"])) and all(
        set(m["parts"]) == set(first["parts"]) and
        set(m["vars"]) == set(first["vars"]) and m["freq"] == first["freq"]
        for m in models)


def blocks(ctx, sizes, freqs, sets):
    n = ctx.choose("blocks", sizes)
    made = []
    for k in range(n):
        made.append(make(k, ctx.choose("indices", PARTS),
                         ctx.choose("variables", sets),
                         ctx.choose("sweep", freqs),
                         ctx.choose("unit", ["V", "A"] if k == 1 else ["V"])))
    models = [m for _, m in made]
    try:
        out = merge_blocks([b for b, _ in made])
    except (ValueError, IOError) as exc:
        ctx.check(not mergeable(models), lambda: "refused: %s" % exc)
        ctx.observe("refused")
    else:
        faithful(ctx, out, models)
        ctx.observe([(k, np.asarray(v).tolist())
                     for k, v in sorted(out.vardata.items())])
    ctx.step()
    for k, (b, m) in enumerate(made):      # sources are left alone
        for name, v in m["vars"].items():
            ctx.check(np.asarray(b[name]).tolist() == v and
                      b[name].ndim == (0 if name == "s" else 1),
                      "merging modified block %d" % k)
    ctx.state([(sorted(m["parts"]), sorted(m["vars"]), m["freq"])
               for m in models])


def small(ctx):
    blocks(ctx, [1, 2], FREQS, SETS)


def three(ctx):
    blocks(ctx, [3], FREQS[:2], SETS[:2])


def three_all(ctx):
    blocks(ctx, [3], FREQS, SETS)


def many(ctx):
    """tens and hundreds of blocks"""
    n = ctx.choose("blocks", [10, 33, 100, 257])
    parts = ctx.choose("indices", PARTS[1:])
    names = ctx.choose("variables", SETS)
    freq = ctx.choose("sweep", FREQS + [[float(k) for k in range(300)]])
    odd = ctx.choose("odd one", [None, "sweep", "variables", "indices"])
    where = ctx.choose("at", [0, n // 2, n - 1]) if odd else None
    made = []
    for k in range(n):
        p, v, f = parts, names, freq
        if k == where:
            if odd == "sweep":
                f = freq[:-1] + [freq[-1] + .5]
            elif odd == "variables":
                v = names + ("w",)
            else:
                p = tuple(x for x in ("I", "J") if x not in parts) or ("I",)
        made.append(make(k, p, v, f))
    models = [m for _, m in made]
    try:
        out = merge_blocks([b for b, _ in made])
    except (ValueError, IOError) as exc:
        ctx.check(odd is not None, lambda: "refused: %s" % exc)
        ctx.observe("refused")
    else:
        faithful(ctx, out, models)
        ctx.observe(n)
    ctx.step()
    ctx.state((n, parts, names, odd, where))


def shuffled(ctx, grid):
    """a few orders of a long list"""
    how = ctx.choose("order", ["as is", "reversed", "by last", "step"])
    if how == "reversed":
        return grid[::-1]
    if how == "by last":
        return sorted(grid, key=lambda p: p[::-1])
    if how == "step":
        return [grid[k * 89 % len(grid)] for k in range(len(grid))]
    return list(grid)


def cubes(shapes):
    def fn(ctx):
        shape = ctx.choose("shape", shapes)
        grid = list(itertools.product(*[range(n) for n in shape]))
        order = (ctx.permutation("order", grid) if len(grid) < 9
                 else shuffled(ctx, grid))
        fault = ctx.choose("fault", [None, "missing", "twice"])
        if fault == "missing":
            order = order[:-1]
        elif fault == "twice":
            order = order[:-1] + order[:1]
        axes = ["A", "B", "C"][:len(shape)]
        values = [[.5, -1.5, 7., 2.], [10, 30, 20], [1e-12, 1e12, 0.]]
        if len(grid) > 8:
            values = [v + [100. + k for k in range(300)] for v in values]
        dim = DimSweep("f", [1., 2., 3.])
        bl = []
        for pos in order:
            db = DataBlock()
            for ax, i, vals in zip(axes, pos, values):
                db[ax] = DimPartial(ax, [vals[i]], unit="V")
            code = sum(i * 1000 ** (k + 1) for k, i in enumerate(pos))
            db["x"] = hfarray([code + .5, code + 1.5, code + 2.5],
                              dims=(dim,), unit="W")
            db["q"] = hfarray(float(code), dims=())
            bl.append(db)
        try:
            out = merge_blocks(bl, hyper=True)
        except ValueError as exc:
            ctx.check(fault is not None, lambda: "refused: %s" % exc)
            ctx.observe("refused")
            return
        ctx.step()
        present = sorted(set(order))
        complete = sorted(itertools.product(
            *[sorted(set(p[k] for p in order)) for k in range(len(shape))]))
        ctx.check(len(order) == len(present) == len(complete),
                  "an incomplete hypercube was accepted")
        dims = [D("sweep", ax, [vals[i] for i in
                                sorted(set(p[k] for p in order))], "V")
                for k, (ax, vals) in enumerate(zip(axes, values))]
        f = D("sweep", "f", [1., 2., 3.])
        cells, qcells = {}, {}
        for pos in order:
            code = sum(i * 1000 ** (k + 1) for k, i in enumerate(pos))
            key = [(d.key, vals[i]) for d, i, vals in zip(dims, pos, values)]
            for k in range(3):
                cells[frozenset(key + [(f.key, k + 1.)])] = code + k + .5
            qcells[frozenset(key)] = float(code)
        long_ = [d for d in dims if len(d) > 1]
        drop = [d.key for d in dims if len(d) == 1]

        def strip(c):
            return dict((frozenset(p for p in k if p[0] not in drop), v)
                        for k, v in c.items())
        # the order of labels along the new dimensions is free
        want = []
        for d in long_:
            got = dim_labels(out.ivardata[d.name])
            ctx.check(sorted(got) == sorted(d.labels),
                      lambda: "labels of %s %r" % (d.name, got))
            want.append(d.sel(got))
        expect(ctx, out, "x", L([f] + want, strip(cells)), "W", "merged")
        expect(ctx, out, "q", L(want, strip(qcells)), None, "merged")
        ctx.state((shape, tuple(order)))
        ctx.observe(fault)
    return fn


# ---- several files ---------------------------------------------------------
NAMES = [["m1.%s", "m2.%s", "m10.%s"], ["b.%s", "a.%s", "c.%s"],
         ["2.%s", "x1.%s", "10.%s"]]
SORTED = [["m1.%s", "m2.%s", "m10.%s"], ["a.%s", "b.%s", "c.%s"],
          ["2.%s", "10.%s", "x1.%s"]]


def write(fmt, fn, base, nblocks):
    with open(fn, "w") as fil:
        if fmt == "txt":
            for b in range(nblocks):
                fil.write("!@I=%d\n!Note: n%g\nf\tx\n" % (b + 1, base))
                for k in range(3):
                    fil.write("%d\t%r\n" % (k + 1, base + 10 * b + k))
        elif fmt == "s1p":
            fil.write("! Note: n%g\n# Hz S RI R 50\n" % base)
            for k in range(3):
                fil.write("%d %r %r\n" % (k + 1, base + k, -base))
        else:
            fil.write("CITIFILE A.01.00\n!Note: n%g\nNAME DATA\nVAR f MAG 3\n"
                      "DATA x MAG\nVAR_LIST_BEGIN\n1\n2\n3\nVAR_LIST_END\n"
                      "BEGIN\n" % base)
            for k in range(3):
                fil.write("%r\n" % (base + k))
            fil.write("END\n")


READERS = {"txt": read_spdata, "s1p": read_touchstone, "cti": read_citi}


def files(ctx):
    fmt = ctx.choose("format", sorted(READERS))
    which = ctx.choose("names", [0, 1, 2])
    n = ctx.choose("files", [1, 2, 3, 40] if which == 0 else [1, 2, 3])
    nblocks = 1
    if fmt == "txt":
        nblocks = ctx.choose("blocks", [1, 2, 3] if n < 9 else [1, 20])
    how = ctx.choose("how", ["pattern", "list", "tuple", "patterns",
                             "reversed list"])
    reader = ctx.choose("reader", [READERS[fmt], read_data])
    hyper = ctx.flag("hyper") if fmt == "txt" else False
    names = [x % fmt for x in NAMES[which][:n]]
    if n > 3:
        names = ["m%d.%s" % (k * 7 % n, fmt) for k in range(n)]
    bases = {}
    for k, x in enumerate(names):
        fn = os.path.join(ctx.tmp, x)
        bases[fn] = 1000. * (k + 1)
        write(fmt, fn, bases[fn], nblocks)
    full = [os.path.join(ctx.tmp, x) for x in names]
    order = [os.path.join(ctx.tmp, x % fmt) for x in SORTED[which]
             if x % fmt in names]
    if n > 3:
        order = [os.path.join(ctx.tmp, "m%d.%s" % (k, fmt)) for k in range(n)]
    if how == "pattern":
        arg = os.path.join(ctx.tmp, "*." + fmt)
    elif how == "patterns":
        arg = [os.path.join(ctx.tmp, "*." + fmt)]
    elif how == "tuple":
        arg, order = tuple(full), full
    elif how == "list":
        arg, order = full, full
    else:
        arg, order = full[::-1], full[::-1]
    kw = dict(hyper=True) if hyper else {}
    out = reader(arg, **kw)
    ctx.step()
    var = "S11" if fmt == "s1p" else "x"
    if fmt == "s1p":
        ctx.check("S" in out.vardata, "no S")
    xname = "freq" if fmt == "s1p" else "f"
    dim = D("sweep", xname, [1., 2., 3.], "Hz")

    def value(fn, b, k):
        if fmt == "s1p":
            return complex(bases[fn] + k, -bases[fn])
        return bases[fn] + 10 * b + k
    fname = out.vardata["FILENAME"]
    got = np.atleast_1d(np.asarray(fname)).tolist()
    ctx.check(got == order, lambda: "FILENAME %r, expected %r" % (got, order))
    where = {}
    if n > 1:
        if hyper:
            idx = "FILEINDEX"
            ctx.check(dim_labels(out.ivardata["FILEINDEX"]) ==
                      list(range(n)), "FILEINDEX")
        else:
            idx = fname.dims[0].name
            f = out.vardata["FILEINDEX"]
            ctx.check([d.name for d in f.dims] == [idx] and
                      np.asarray(f).tolist() == list(range(n)),
                      "FILEINDEX does not number the files")
    x = out.vardata["S" if fmt == "s1p" else "x"]
    note = out.vardata["Note"]
    for k, fn in enumerate(order):
        for b in range(nblocks):
            where = {}
            if n > 1:
                where[idx] = k
            if fmt == "s1p":
                where.update(i=0, j=0)
            if nblocks > 1:
                if hyper:
                    where["I"] = dim_labels(out.ivardata["I"]).index(b + 1)
                else:
                    I = out.vardata["I"]
                    own = [d.name for d in I.dims if n == 1 or d.name != idx]
                    ctx.check(len(own) == 1, lambda: "I has dims %r" % I.dims)
                    where[own[0]] = b
                    _, v = at(ctx, I, where, "I")
                    ctx.check(v == b + 1, lambda: "I of block %d of file %d "
                              "is %r" % (b, k, v))
            dims, v = at(ctx, x, where, "x")
            want = [value(fn, b, r) for r in range(3)]
            ctx.check(dims == [xname] and v == want,
                      lambda: "%s of file %d block %d is %r %r, expected %r"
                      % (var, k, b, dims, v, want))
            _, v = at(ctx, note, where, "Note")
            ctx.check(v == "n%g" % bases[fn], lambda: "Note of file %d is %r"
                      % (k, v))
    lab = dim_labels(out.ivardata[xname])
    ctx.check(lab == dim.labels, lambda: "labels %r" % lab)
    ctx.state((fmt, which, n, nblocks, how, hyper))
    ctx.observe((got == order, x.shape))


def spaces(tier):
    out = [Space("two", small, "all pairs of blocks (index sets, variables, "
                 "sweeps, units)"),
           Space("three", three, "all triples of blocks, fewer variables"),
           Space("cubes", cubes([(2,), (3,), (2, 2), (3, 2), (1, 3),
                                 (2, 1, 2)]),
                 "all orders of the blocks of a hypercube, one missing or "
                 "twice"),
           Space("many", many, "up to 257 blocks, one of them odd"),
           Space("large-cubes", cubes([(12, 10), (3, 4, 5), (100,), (1, 50),
                                       (2, 2, 40)]),
                 "hypercubes of up to 160 blocks"),
           Space("files", files, "1-40 files of 1-20 blocks in 3 formats given "
                 "as pattern or list", tmpdir=True)]
    if tier != "quick":
        out += [Space("three-all", three_all, "all triples of blocks"),
                Space("cubes-big", cubes([(2, 2, 2), (4, 2)]),
                      "all 40320 orders of 8 blocks")]
    return out
