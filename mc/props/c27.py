# -*- coding: utf-8 -*-
"""C27: reader options do what they say and nothing else."""
import itertools
import os
import re

import numpy as np

from mc.engine import Space, Prune, Named
from hftools.dataset import hfarray, DimSweep, DataBlock
from hftools.file_formats import (read_data, read_spdata, read_citi,
                                  read_touchstone, read_mdif)

ASSUMPTIONS = [
    "reader options: make_complex joins Re()/Im() and Mag()/Arg() columns of "
    "SP-data and MDIF files, guess_unit converts 'name [unit]' columns to "
    "base units and gives well known names their unit, normalize gives "
    "columns their usual names, make_matrix joins elements of matrices, "
    "property_to_vars makes scalar variables of comment properties, merge "
    "joins blocks and files",
    "read_mdif always joins matrix elements and blocks with the same name",
    "columns whose names would become the same are kept under another name "
    "or the file is refused"]

OPTIONS = ["make_complex", "property_to_vars", "guess_unit", "normalize",
           "make_matrix"]
UNITS = {"mA": (1e-3, "A"), "mV": (1e-3, "V"), "GHz": (1e9, "Hz"),
         "V": (1, "V"), "kHz": (1e3, "Hz")}
GUESS = {"Vgs": "V", "freq": "Hz", "Freq": "Hz", "Frequency": "Hz",
         "Vds": "V"}
NORMAL = {"Freq": "freq", "Frequency": "freq", "b1/a1": "b11",
          "b2/a1 raw": "b21", "a1": "a11", "a1/a2": "a12", "Freq[Hz]": "freq",
          "a2/a1": "a21", "a2": "a22"}

# groups of columns
GROUPS = [
    ["Re(S11)", "Im(S11)", "Re(S12)", "Im(S12)",
     "Re(S21)", "Im(S21)", "Re(S22)", "Im(S22)"],
    ["Mag(G11)", "Arg(G11)"],
    ["Ix [mA]"],
    ["Re(Vx) [mV]", "Im(Vx) [mV]"],
    ["Mean(P)", "Std(P)"],
    ["Vgs"],
    ["b1/a1", "b2/a1 raw"],
    ["y11", "y12 [mV]"],
    ["a1", "a2", "a2/a1", "a1/a2"],
    ["Re(q)", "Mag(w)", "Im(v)", "Arg(u)"],
    ["Mean(z11)", "Mean(z21)"],
]
SWEEPS = ["Freq [GHz]", "Frequency", "x [mV]", "Vds", "Freq[Hz]"]
PROPS = [[], ["A: 3", "Vd [mV]: 7", "text: abc"],
         ["Vgs: 9", "y11: 8", "S: 2", "x: 7"], ["Frequency: 5", "G: 1"]]
PROPVALUES = {"A": (3., None), "Vd": (7e-3, "V"), "text": ("abc", None),
              "Vgs": (9., None), "y11": (8., None), "S": (2., None),
              "x": (7., None), "Frequency": (5., None), "G": (1., None)}


def value(col, row):
    return (col + 1) * 10 + row + 0.25 * (col % 3)


def pipeline(cols, opt, join=True):
    """What has to be read.

    cols: [(name, [values])], first column is the sweep
    returns sweep, {name: (values, unit)}, {matrix: (rows, cols, {ij: name})}
    """
    sweep = (cols[0][0], cols[0][1], None)
    data = [(n, v, None) for n, v in cols[1:]]
    if opt["make_complex"] and join:
        names = dict((n, v) for n, v, _ in data)
        out = []
        for n, v, u in data:
            m = re.match(r"^(Re|Im|Mag|Arg)\((.*?)\)(.*)$", n)
            if not m:
                out.append((n, v, u))
                continue
            f, base, rest = m.groups()
            other = {"Re": "Im", "Im": "Re", "Mag": "Arg", "Arg": "Mag"}[f]
            o = "%s(%s)%s" % (other, base, rest)
            if o not in names:
                out.append((n, v, u))
            elif f == "Re":
                out.append((base + rest, [complex(a, b) for a, b in
                                          zip(v, names[o])], u))
            elif f == "Mag":
                out.append((base + rest, [
                    a * complex(np.cos(np.radians(b)), np.sin(np.radians(b)))
                    for a, b in zip(v, names[o])], u))
        data = out
    if opt["guess_unit"]:
        def conv(n, v, u):
            m = re.match(r"^(.*?) *\[(\w+)\]$", n)
            if m:
                mul, unit = UNITS.get(m.group(2), (1, m.group(2)))
                return m.group(1), [x * mul for x in v], unit
            return n, v, u or GUESS.get(n)
        sweep = conv(*sweep)
        data = [conv(*x) for x in data]
    return sweep, data


def finish(sweep, data, props, opt, join=True, scheme=None):
    names = [n for n, _, _ in data]
    scalars = []
    if opt["property_to_vars"]:
        for p in props:
            v, u = PROPVALUES[p]
            if p not in names and p != sweep[0]:
                if opt["guess_unit"]:
                    u = u or GUESS.get(p)
                scalars.append((p, v, u))
    allnames = names + [s[0] for s in scalars] + [sweep[0]]
    if opt["normalize"]:
        def norm(n):
            m = re.match(r"^Mean\((.*)\)$", n)
            if m:
                n = m.group(1)
            m = re.match(r"^Std\((.*)\)$", n)
            if m:
                n = "s_" + m.group(1)
            n = NORMAL.get(n, n)
            return n
        new = [norm(n) for n in allnames]
        if len(set(new)) < len(new):
            return None         # names become the same
        sweep = (norm(sweep[0]),) + sweep[1:]
        data = [(norm(n), v, u) for n, v, u in data]
        scalars = [(norm(n), v, u) for n, v, u in scalars]
    matrices = {}
    if opt["make_matrix"]:
        scheme = scheme or r"^([A-Za-z_]+)([0-9])([0-9])$"
        for n, v, u in data:
            m = re.match(scheme, n)
            if m:
                matrices.setdefault(m.group(1), {})[
                    int(m.group(2)), int(m.group(3))] = (n, v, u)
        for k in list(matrices):
            ii = sorted(set(i for i, j in matrices[k]))
            jj = sorted(set(j for i, j in matrices[k]))
            if len(ii) * len(jj) != len(matrices[k]) or \
                    len(matrices[k]) == 1:
                del matrices[k]
        used = [x[0] for m in matrices.values() for x in m.values()]
        for x in data:
            if x[0] in matrices:
                return None
        data = [x for x in data if x[0] not in used]
        scalars = [x for x in scalars if x[0] not in matrices]
        if any(s[0] in used or re.match(scheme, s[0]) for s in scalars):
            return None         # scalar element
    return sweep, data, scalars, matrices


def close(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= 1e-12 * np.abs(b)))


def judge(ctx, got, want, what, extra=()):
    sweep, data, scalars, matrices = want
    names = [n for n, _, _ in data + scalars] + list(matrices)
    rest = set(got.vardata) - set(["FILENAME"]) - set(extra)
    ctx.check(rest == set(names), lambda: "%s: variables %r, expected %r"
              % (what, sorted(rest), sorted(names)))
    ctx.check(sweep[0] in got.ivardata, lambda: "%s: dimensions %r, expected "
              "%r" % (what, list(got.ivardata), sweep[0]))
    dim = got.ivardata[sweep[0]]
    ctx.check(close(dim.data, sweep[1]) and dim.unit == sweep[2],
              lambda: "%s: sweep %r unit %r, expected %r"
              % (what, dim.data, dim.unit, sweep))
    for n, v, u in data:
        g = got.vardata[n]
        ctx.check(tuple(d.name for d in g.dims) == (sweep[0],),
                  lambda: "%s: %s has dims %r" % (what, n, g.dims))
        ctx.check(close(g, v) and np.iscomplexobj(g) ==
                  isinstance(v[0], complex), lambda: "%s: %s is %r, expected "
                  "%r" % (what, n, np.asarray(g).tolist(), v))
        ctx.check(g.unit == u, lambda: "%s: %s has unit %r, expected %r"
                  % (what, n, g.unit, u))
    for n, v, u in scalars:
        g = got.vardata[n]
        ctx.check(g.dims == (), lambda: "%s: %s has dims %r"
                  % (what, n, g.dims))
        if isinstance(v, str):
            ctx.check(str(np.asarray(g)) == v, lambda: "%s: %s is %r"
                      % (what, n, g))
        else:
            ctx.check(abs(float(g) - v) < 1e-12, lambda: "%s: %s is %r"
                      % (what, n, g))
            ctx.check(g.unit == u, lambda: "%s: %s has unit %r, expected %r"
                      % (what, n, g.unit, u))
    for n, elems in matrices.items():
        g = got.vardata[n]
        ii = sorted(set(i for i, j in elems))
        jj = sorted(set(j for i, j in elems))
        a = np.asarray(g)
        ctx.check(a.shape == (len(sweep[1]), len(ii), len(jj)) and
                  [d.name for d in g.dims] == [sweep[0], "i", "j"],
                  lambda: "%s: matrix %s has dims %r" % (what, n, g.dims))
        units = set()
        for (i, j), (_n, v, u) in elems.items():
            units.add(u)
            ctx.check(close(a[:, ii.index(i), jj.index(j)], v),
                      lambda: "%s: element %d,%d of %s is %r, expected %r"
                      % (what, i, j, n, a[:, ii.index(i), jj.index(j)], v))
        unit = units.pop() if len(units) == 1 else None
        ctx.check(g.unit == unit, lambda: "%s: %s has unit %r, expected %r"
                  % (what, n, g.unit, unit))


def options(ctx):
    return dict((o, ctx.flag(o)) for o in OPTIONS)


def call(ctx, fn, reader, opt, **kw):
    """call reader with the options, defaults may be left out"""
    style = ctx.choose("call", ["all options", "only False options",
                                "read_data"])
    kwargs = dict(opt)
    if style != "all options":
        kwargs = dict((k, v) for k, v in opt.items() if not v)
    if style == "read_data":
        reader = read_data
        if kw.get("verbose") is not None:
            kw = {"verbose": False}
    kwargs.update(kw)
    return reader(fn, **kwargs)


def spoptions(ctx):
    sweep = ctx.choose("sweep", SWEEPS)
    first = ctx.choose("first", range(len(GROUPS)))
    second = ctx.choose("second", [-1] + list(range(len(GROUPS))))
    if second == first or (second >= 0 and ctx.tier == "quick" and
                           second < first):
        raise Prune()
    props = ctx.choose("comments", PROPS)
    groups = GROUPS[first] + (GROUPS[second] if second >= 0 else [])
    cols = [(n, [value(k, 0), value(k, 1)]) for k, n in
            enumerate([sweep] + groups)]
    # two points
    lines = ["!" + p for p in props]
    lines.append("\t".join(n for n, _ in cols))
    for row in range(2):
        lines.append("\t".join(repr(v[row]) for _, v in cols))
    text = "\n".join(lines) + "\n"
    opt = options(ctx)
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write(text)
    s, d = pipeline(cols, opt)
    want = finish(s, d, [p.split()[0].rstrip(":") for p in props], opt)
    if want is None:
        raise Prune()
    got = call(ctx, fn, read_spdata, opt)
    ctx.step()
    judge(ctx, got, want, "%r with %r" % (text, opt))
    comments = got.comments.fullcomments
    ctx.check(comments == props, lambda: "comments are %r, expected %r"
              % (comments, props))
    ctx.state((text, repr(opt)))
    ctx.observe(sorted(got.vardata))


CITI = [[("Freq", "MAG"), ("S[1,1]", "RI"), ("S[1,2]", "RI")],
        [("Vds", "MAG"), ("S[1,1]", "RI"), ("S[2,1]", "RI"), ("S[1,2]", "RI"),
         ("S[2,2]", "RI"), ("Vgs", "MAG")],
        [("freq", "MAG"), ("X[1,1]", "MAG"), ("b1/a1", "RI")],
        [("Frequency", "MAG"), ("y[2,1]", "MAG"), ("y[1,1]", "MAG"),
         ("Mean(P)", "MAG")],
        [("x", "MAG"), ("S11", "RI"), ("S12", "RI")]]


def citioptions(ctx):
    cols = ctx.choose("columns", CITI)
    props = ctx.choose("comments", PROPS[:2])
    opt = options(ctx)
    lines = ["CITIFILE A.01.01"] + ["!" + p for p in props] + ["NAME DATA"]
    model = []
    lines.append("VAR %s MAG 2" % cols[0][0])
    for n, t in cols[1:]:
        lines.append("DATA %s %s" % (n, t))
    for k, (n, t) in enumerate(cols):
        lines.append("VAR_LIST_BEGIN" if k == 0 else "BEGIN")
        v = [value(k, 0), value(k, 1)]
        if t == "RI":
            v = [complex(x, x + 0.5) for x in v]
            lines.extend("%r,%r" % (x.real, x.imag) for x in v)
        else:
            lines.extend("%r" % x for x in v)
        lines.append("VAR_LIST_END" if k == 0 else "END")
        model.append((n, v))
    fn = os.path.join(ctx.tmp, "a.citi")
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    s, d = pipeline(model, opt, join=False)
    scheme = r"^([A-Za-z_]+)\[?([0-9]),?([0-9])\]?$"
    want = finish(s, d, [p.split()[0].rstrip(":") for p in props], opt,
                  scheme=scheme)
    got = call(ctx, fn, read_citi, opt)
    ctx.step()
    judge(ctx, got, want, "%r with %r" % (lines, opt))
    ctx.state((tuple(lines), repr(opt)))
    ctx.observe(sorted(got.vardata))


def touchoptions(ctx):
    n = ctx.choose("ports", [1, 2, 3])
    kind = ctx.choose("kind", ["S", "Y", "Z"])
    props = ctx.choose("comments", PROPS[:2])
    opt = options(ctx)
    lines = ["!" + p for p in props] + ["# GHz %s RI R 75" % kind]
    mats = []
    for row in range(2):
        m = [[complex(10 * i + j + 100 * row, i - j) for j in range(n)]
             for i in range(n)]
        mats.append(m)
        flat = [m[i][j] for i in range(n) for j in range(n)]
        if n == 2:
            flat = [m[j][i] for i in range(n) for j in range(n)]
        words = ["%r" % (row + 1.)]
        for z in flat:
            words.extend(["%r" % z.real, "%r" % z.imag])
        lines.append(" ".join(words))
    fn = os.path.join(ctx.tmp, "a.s%dp" % n)
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    got = call(ctx, fn, read_touchstone, opt)
    ctx.step()
    what = "%r with %r" % (lines, opt)
    ctx.check(close(got[kind], mats) and
              [d.name for d in got[kind].dims] == ["freq", "i", "j"],
              lambda: "%s: %s is %r" % (what, kind, got[kind]))
    dim = got.ivardata["freq"]
    ctx.check(close(dim.data, [1e9, 2e9]) and dim.unit == "Hz",
              lambda: "%s: freq is %r" % (what, dim))
    ctx.check(float(got.Z0) == 75, lambda: "%s: Z0 is %r" % (what, got.Z0))
    names = [p.split()[0].rstrip(":") for p in props]
    if not opt["property_to_vars"]:
        names = []
    rest = set(got.vardata) - set(["FILENAME", kind, "Z0"])
    ctx.check(rest == set(names), lambda: "%s: variables %r" % (what,
                                                                sorted(rest)))
    ctx.state((n, kind, tuple(lines), repr(opt)))
    ctx.observe(sorted(got.vardata))


def mdifoptions(ctx):
    cols = ctx.choose("columns", CITI[:4])
    props = ctx.choose("comments", PROPS[:2])
    opt = options(ctx)
    nblocks = ctx.choose("blocks", [1, 2])
    entry = ctx.choose("blockname", [None, "blk"])
    lines = ["!" + p for p in props]
    model = []
    for b in range(nblocks):
        lines.append("BEGIN blk%s" % ("2" if b else ""))
        lines.append("% " + " ".join(
            "%s(%s)" % (n, "complex" if t == "RI" else "real")
            for n, t in cols))
        cc = []
        rows = [[], []]
        for k, (n, t) in enumerate(cols):
            v = [value(k, 0) + 100 * b, value(k, 1) + 100 * b]
            if t == "RI":
                v = [complex(x, x + 0.5) for x in v]
            cc.append((n, v))
            for r in range(2):
                rows[r].extend(["%r" % v[r].real, "%r" % v[r].imag]
                               if t == "RI" else ["%r" % v[r]])
        lines.extend(" ".join(r) for r in rows)
        lines.append("END")
        model.append(cc)
    fn = os.path.join(ctx.tmp, "a.mdif")
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    if entry:
        got = read_mdif(fn, verbose=False, blockname="blk", **opt)
        got = {"blk": got}
        model = model[:1]
    else:
        got = call(ctx, fn, read_mdif, opt, verbose=False)
        want = ["blk", "blk2"][:nblocks]
        ctx.check(sorted(got) == want, lambda: "blocks %r" % sorted(got))
    ctx.step()
    mopt = dict(opt, make_matrix=True)
    for b, cc in enumerate(model):
        s, d = pipeline(cc, mopt, join=False)
        # matrices of one element are matrices too
        scheme = r"^([A-Za-z_]+)\[([0-9]),([0-9])\]$"
        elems = {}
        for n, v, u in d:
            m = re.match(scheme, n)
            if m:
                elems.setdefault(m.group(1), {})[
                    int(m.group(2)), int(m.group(3))] = (n, v, None)
        d = [x for x in d if not re.match(scheme, x[0])]
        want = finish(s, d, [p.split()[0].rstrip(":") for p in props], opt)
        want = want[:3] + (elems,)
        judge(ctx, got["blk2" if b else "blk"], want, "%r with %r"
              % (lines, opt))
    ctx.state((tuple(lines), repr(opt), entry))
    ctx.observe(sorted(got))


# columns whose names may become the same: (sweep, columns)
CLASH = [
    ("f", ["x [mV]", "x"]), ("f", ["x", "x [mV]"]),
    ("f", ["x [mV]", "x [V]"]), ("f", ["x[mV]", "x [mV]"]),
    ("f", ["Re(x) [mV]", "Im(x) [mV]", "x [mV]"]),
    ("f", ["Re(x) [mV]", "Im(x) [mV]", "x"]),
    ("f", ["Re(x)", "Im(x)", "x"]), ("f", ["x", "Re(x)", "Im(x)"]),
    ("f", ["Mag(x)", "Arg(x)", "x"]),
    ("f", ["Mag(x)", "Arg(x)", "Re(x)", "Im(x)"]),
    ("f", ["Re(x)", "Im(x)", "x [mV]"]),
    ("f", ["b1/a1", "b1/a1 raw"]), ("f", ["b1/a1 raw", "b1/a1", "b11"]),
    ("f", ["b1/a1", "b11"]), ("f", ["b11", "b1/a1"]),
    ("f", ["a1", "a1 raw"]),
    ("f", ["S11", "S12", "S21", "S22", "S"]),
    ("f", ["S", "S11", "S12"]),
    ("Freq", ["Frequency"]), ("Frequency", ["Freq"]), ("Freq", ["freq"]),
    ("freq", ["Freq [GHz]"]), ("Freq [GHz]", ["freq", "Frequency"]),
    ("x [mV]", ["x"]), ("x", ["x [mV]"]),
    ("f", ["Mean(x)", "x"]), ("f", ["x", "Std(x)", "s_x"]),
    ("f", ["Mean(x)", "Std(x)", "y"]), ("f", ["Std(x)", "Mean(x)"]),
    ("f", ["Mean(S11)", "S12", "Mean(S12)"]),
]


def parts(g):
    """all numbers stored in a variable, in base units and as complex parts"""
    a = np.asarray(g).ravel()
    out = []
    for z in a:
        if isinstance(z, (complex, np.complexfloating)):
            out.extend([z.real, z.imag, abs(z), np.degrees(np.angle(z))])
        elif not isinstance(z, str):
            out.append(float(z))
    return out


def clash(ctx):
    sweep, names = ctx.choose("columns", CLASH)
    props = ctx.choose("comments", [[], ["x: 3"], ["S: 3", "f: 1"]])
    opt = options(ctx)
    cols = [(n, [value(k, 0), value(k, 1)]) for k, n in
            enumerate([sweep] + list(names))]
    lines = ["!" + p for p in props]
    lines.append("\t".join(n for n, _ in cols))
    for row in range(2):
        lines.append("\t".join(repr(v[row]) for _, v in cols))
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    try:
        got = read_spdata(fn, **opt)
    except ValueError as exc:       # refused
        ctx.step()
        ctx.check(opt["normalize"] and any(n.startswith(("Mean", "Std"))
                                           for n in names),
                  lambda: "%r with %r: %r" % (lines, opt, exc))
        ctx.observe("refused")
        ctx.state((tuple(lines), repr(opt)))
        return
    ctx.step()
    have = []
    for g in list(got.vardata.values()) + [hfarray(d) for d in
                                           got.ivardata.values()]:
        if g.dtype.kind not in "OUS":
            have.extend(parts(g))
    for n, v in cols:
        m = re.match(r".*\[(\w+)\]$", n)
        mul = UNITS.get(m.group(1), (1, 0))[0] if m else 1
        for x in v:
            ctx.check(any(abs(h - x) < 1e-9 * abs(x) or
                          abs(h - x * mul) < 1e-9 * abs(x * mul)
                          for h in have),
                      lambda: "%r with %r: the value %r of column %s is lost, "
                      "got %r" % (lines, opt, x, n, dict(
                          (k, np.asarray(w).tolist()) for k, w in
                          got.vardata.items() if k != "FILENAME")))
    ctx.state((tuple(lines), repr(opt)))
    ctx.observe(sorted(got.vardata))


VOLTAGES = [f(n) for n in ("Vds", "Vgs", "Vdg", "Vgd", "Vbe", "Vce")
            for f in (str, str.lower, str.upper)] + \
    ["VDS_SET", "VGS_SET", "VDG_SET", "VGD_SET", "VBE_SET", "VCE_SET"]
CURRENTS = ["Id", "Ig", "Is", "id", "ig", "is", "ID", "IG", "IS", "Ib", "Ie",
            "Ic", "ib", "ie", "ic", "IB", "IE", "IC"]
FREQS = ["freq", "Freq", "FREQ", "f", "F", "frequency", "Frequency",
         "FREQUENCY"]
OTHER = ["x", "Pout", "Vx", "gm", "S11"]


def wellknown(ctx):
    """names with a usual unit, as sweep, column, property or index"""
    name = ctx.choose("name", VOLTAGES + CURRENTS + FREQS + OTHER)
    unit = "V" if name in VOLTAGES else "A" if name in CURRENTS else \
        "Hz" if name in FREQS else None
    role = ctx.choose("role", ["sweep", "column", "property", "index",
                               "text"])
    guess = ctx.flag("guess_unit")
    lines = []
    if role == "property":
        lines.append("!%s: 3" % name)
    elif role == "text":
        lines.append("!%s: abc" % name)
    elif role == "index":
        lines.append("!@%s=3" % name)
    lines.append("\t".join([name if role == "sweep" else "swp",
                            name if role == "column" else "col"]))
    lines.extend(["1\t2", "3\t4"])
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    got = read_spdata(fn, guess_unit=guess, normalize=False)
    ctx.step()
    if role in ("sweep", "index"):
        ctx.check(name in got.ivardata, lambda: "%r lost" % name)
        v = got.ivardata[name]
        data = list(v.data)
    else:
        ctx.check(name in got.vardata, lambda: "%r lost" % name)
        v = got.vardata[name]
        data = np.asarray(v).tolist()
    want = dict(sweep=[1, 3], column=[2, 4], property=3, index=[3],
                text="abc")[role]
    ctx.check(data == want, lambda: "%s %s is %r" % (role, name, data))
    if role != "text":
        ctx.check(v.unit == (unit if guess else None), lambda: "%s %s has "
                  "unit %r" % (role, name, v.unit))
    ctx.state((name, role, guess))
    ctx.observe((name, role, repr(v.unit)))


def sptext(block, nr):
    lines = []
    if block & 1:
        lines.append("!@Vq=%d" % (nr + 1))
    if block & 2:
        lines.append("!T: %d" % (nr + 50))
    lines.append("f\tx\tRe(y)\tIm(y)")
    for row in range(1 if block & 4 else 2):
        lines.append("%d\t%d\t%d\t%d" % (row, nr * 10 + row, nr * 100 + row,
                                         nr))
    return "\n".join(lines) + "\n"


def unmerged(ctx):
    """merge=False: the blocks as they are, in the order of the files"""
    nfiles = ctx.choose("files", [1, 2])
    files = []
    nr = 0
    blocks = []
    for k in range(nfiles):
        text = ""
        # the first block may be the only one
        n = ctx.choose("blocks %d" % k, [1, 2])
        for b in range(n):
            kind = ctx.choose("kind %d %d" % (k, b), range(8))
            t = sptext(kind, nr)
            text += t
            blocks.append((k, kind, nr))
            nr += 1
        fn = os.path.join(ctx.tmp, "f%d.txt" % k)
        with open(fn, "w") as fil:
            fil.write(text)
        files.append(fn)
    reader = ctx.choose("reader", [Named("read_spdata", read_spdata),
                                   Named("read_data", read_data)])
    arg = ctx.choose("argument", ["list", "pattern"])
    got = reader.value(files if arg == "list" else
                       os.path.join(ctx.tmp, "f*.txt"), merge=False)
    ctx.step()
    ctx.check(isinstance(got, list) and len(got) == len(blocks) and
              all(isinstance(b, DataBlock) for b in got),
              lambda: "%d blocks were read as %r" % (len(blocks), got))
    for b, (k, kind, nr) in zip(got, blocks):
        rows = 1 if kind & 4 else 2
        x = [nr * 10 + r for r in range(rows)]
        y = [complex(nr * 100 + r, nr) for r in range(rows)]
        ctx.check(np.asarray(b.x).tolist() == x and
                  np.asarray(b.y).tolist() == y, lambda: "block %d has x=%r "
                  "y=%r" % (nr, b.x, b.y))
        ctx.check(np.asarray(b.ivardata["f"].data).tolist() ==
                  list(range(rows)), lambda: "block %d has f=%r"
                  % (nr, b.ivardata["f"]))
        ctx.check(("T" in b) == bool(kind & 2) and
                  (not kind & 2 or float(b.T) == nr + 50),
                  lambda: "block %d has properties %r" % (nr, list(b.vardata)))
        ctx.check(("Vq" in b.ivardata) == bool(kind & 1) and
                  (not kind & 1 or
                   b.ivardata["Vq"].data.tolist() == [nr + 1.]),
                  lambda: "block %d has dimensions %r" % (nr, b.ivardata))
        ctx.check(os.path.basename(str(np.asarray(b.FILENAME))) ==
                  "f%d.txt" % k, lambda: "block %d from %r" % (nr, b.FILENAME))
        ctx.check(b.ivardata["FILEINDEX"].data.tolist() == [k],
                  lambda: "block %d has FILEINDEX %r"
                  % (nr, b.ivardata["FILEINDEX"]))
    ctx.state((tuple(blocks), arg, repr(reader)))
    ctx.observe(len(got))


PREFIX = {"": 1, "d": .1, "c": .01, "a": 1e-18, "P": 1e15, "E": 1e18, "f": 1e-15, "p": 1e-12, "n": 1e-9, "u": 1e-6, "m": 1e-3,
          "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}
OPAQUE = ["dBm", "dB", "deg", "Kelvin", "H", "mH", "dBc"]
BASES = ["Hz", "V", "A", "W", "Ohm", "S", "F", "s", "m"] + OPAQUE


def column(ctx):
    """one column with a unit, in every place a column can have"""
    base = ctx.choose("unit", BASES)
    if base in OPAQUE:
        prefix = ""
    else:
        prefix = ctx.choose("prefix", sorted(PREFIX))
    unit = prefix + base
    mul = PREFIX[prefix]
    space = ctx.choose("space", ["", " ", "  "])
    role = ctx.choose("role", ["sweep", "real", "Re/Im", "property"])
    guess = ctx.flag("guess_unit")
    name = ctx.choose("name", ["x", "x_y", "Some name", "Vgs", "x(2)"])
    mark = "%s[%s]" % (space, unit)
    head = ["swp", "col"]
    lines = []
    if role == "sweep":
        head[0] = name + mark
    elif role == "real":
        head[1] = name + mark
    elif role == "Re/Im":
        head[1:] = ["Re(%s)%s" % (name, mark), "Im(%s)%s" % (name, mark)]
    else:
        lines.append("!%s%s: 3" % (name, mark))
    lines.append("\t".join(head))
    for row in range(2):
        lines.append("\t".join("%d" % (row * 10 + k + 1)
                               for k in range(len(head))))
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write("\n".join(lines) + "\n")
    got = read_spdata(fn, guess_unit=guess, normalize=False)
    ctx.step()
    want = {"sweep": [1, 11], "real": [2, 12], "Re/Im": [2 + 3j, 12 + 13j],
            "property": 3}[role]
    if role == "property":
        full, unit_ = name, base
    elif guess:
        full, unit_ = name, base
    else:
        full, unit_, mul = name + mark, None, 1
    where = got.ivardata if role == "sweep" else got.vardata
    ctx.check(full in where, lambda: "%r: no %s but %r"
              % (lines, full, list(where)))
    v = where[full]
    data = np.asarray(v.data if role == "sweep" else v)
    ctx.check(close(data, np.array(want) * mul) and v.unit == unit_,
              lambda: "%r: %s is %r unit %r, expected %r unit %r" %
              (lines, full, data.tolist(), v.unit,
               (np.array(want) * mul).tolist(), unit_))
    ctx.state((tuple(lines), guess))
    ctx.observe((full, repr(v.unit)))


def polar(ctx):
    """magnitude and angle columns, any angle and magnitude"""
    mag = ctx.choose("magnitude", [0, 1, 2.5, 1e-6])
    arg = ctx.choose("angle", [0, 30, 90, 135, 180, 210, 270, 359, 360, 450,
                               -1, -45, -90, -135, -180, -270, -400, 0.5])
    order = ctx.choose("order", [["Mag(x)", "Arg(x)"], ["Arg(x)", "Mag(x)"]])
    between = ctx.choose("between", [[], ["y"]])
    join = ctx.flag("make_complex")
    head = ["swp"] + order[:1] + between + order[1:]
    row = [("%r" % dict([("Mag(x)", mag), ("Arg(x)", arg)]).get(n, 7.5))
           for n in head]
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write("\t".join(head) + "\n" + "\t".join(row) + "\n")
    got = read_spdata(fn, make_complex=join)
    ctx.step()
    if join:
        z = np.asarray(got.x).ravel()
        a = np.radians(arg)
        ctx.check(len(z) == 1 and abs(z[0] - mag * complex(
            np.cos(a), np.sin(a))) <= 1e-12 * mag, lambda: "magnitude %r and "
            "angle %r is read as %r" % (mag, arg, z))
        ctx.check("Mag(x)" not in got and "Arg(x)" not in got,
                  lambda: "variables %r" % list(got.vardata))
    else:
        ctx.check(np.asarray(got["Mag(x)"]).tolist() == [mag] and
                  np.asarray(got["Arg(x)"]).tolist() == [arg],
                  lambda: "columns are %r" % got.vardata)
    ctx.state((tuple(head), tuple(row), join))
    ctx.observe((mag, arg, join))


MATNAMES = ["S", "S_", "_y", "S_d", "Zx", "abcd"]


def matrixnames(ctx):
    """elements become a matrix when they form one, else stay columns"""
    name = ctx.choose("name", MATNAMES + ["S2", "x1y"])
    form = ctx.choose("form", ["%s%d%d", "%s[%d,%d]"])
    if name in ("S2", "x1y") and form == "%s%d%d":
        raise Prune()
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (9, 9)]
    if form == "%s[%d,%d]":
        sizes += [(10, 10), (1, 12), (12, 1)]
    rows, cols = ctx.choose("size", sizes)
    shift = ctx.choose("first index", [(1, 1), (1, 2), (2, 1), (0, 0),
                                       (2, 2)])
    if form == "%s%d%d" and (rows + shift[0] > 10 or cols + shift[1] > 10):
        raise Prune()
    elems = [(i + shift[0], j + shift[1]) for i in range(rows)
             for j in range(cols)]
    missing = ctx.choose("missing", ["none", "first", "last", "second"])
    if missing != "none":
        k = {"first": 0, "last": -1, "second": 1}[missing]
        if len(elems) < 3:
            raise Prune()
        del elems[k]
    order = ctx.choose("order", ["rows", "columns", "reversed"])
    if order == "columns":
        elems.sort(key=lambda x: x[::-1])
    elif order == "reversed":
        elems.reverse()
    extra = ctx.choose("extra", [None, "q", "%s%d" % (name, 1), "T11"])
    join = ctx.flag("make_matrix")
    names = [form % (name, i, j) for i, j in elems]
    val = dict((n, i * 100 + j) for n, (i, j) in zip(names, elems))
    if extra:
        names.insert(len(names) // 2, extra)
        val[extra] = -1
    fn = os.path.join(ctx.tmp, "a.txt")
    with open(fn, "w") as fil:
        fil.write("\t".join(["swp"] + names) + "\n")
        for row in range(2):
            fil.write("\t".join(["%d" % row] + ["%d" % (val[n] + 5000 * row)
                                                for n in names]) + "\n")
    got = read_spdata(fn, make_matrix=join)
    ctx.step()
    ii = sorted(set(i for i, _ in elems))
    jj = sorted(set(j for _, j in elems))
    full = (join and len(elems) == len(ii) * len(jj) and len(elems) > 1 and
            ii[0] == 1 and jj[0] == 1 and ii[-1] == len(ii) and
            jj[-1] == len(jj))
    want = [extra] if extra else []
    what = "%r, make_matrix=%r" % (names, join)
    if full:
        want.append(name)
        ctx.check(name in got.vardata, lambda: "%s: no matrix, variables %r"
                  % (what, list(got.vardata)))
        m = np.asarray(got[name])
        w = [[[i * 100 + j + 5000 * r for j in jj] for i in ii]
             for r in range(2)]
        ctx.check([d.name for d in got[name].dims] == ["swp", "i", "j"] and
                  m.tolist() == w, lambda: "%s: %s is %r" % (what, name, m))
    else:
        want.extend(n for n in names if n != extra)
    have = set(got.vardata) - set(["FILENAME"])
    ctx.check(have == set(want), lambda: "%s: variables %r, expected %r"
              % (what, sorted(have), sorted(want)))
    for n in want:
        if n in val:
            ctx.check(np.asarray(got[n]).tolist() == [val[n], val[n] + 5000],
                      lambda: "%s: %s is %r" % (what, n, got[n]))
    ctx.state((tuple(names), join))
    ctx.observe(sorted(have))


def spaces(tier):
    return [
        Space("column", column, "142 units x 3 spacings x 5 names x 4 places "
              "of a column with a unit", tmpdir=True),
        Space("polar", polar, "4 magnitudes x 18 angles x orders of columns",
              tmpdir=True),
        Space("matrixnames", matrixnames, "8 names x 2 forms of element "
              "names x 10 sizes up to 12 rows x first indices, missing "
              "elements, orders and other columns", tmpdir=True),
        Space("sp", spoptions, "5 sweeps x pairs of 11 groups of columns x 4 "
              "sets of comments x 32 combinations of options x 3 calls",
              tmpdir=True),
        Space("citi", citioptions, "5 files x 32 options x 3 calls",
              tmpdir=True),
        Space("touchstone", touchoptions, "9 files x 32 options x 3 calls",
              tmpdir=True),
        Space("mdif", mdifoptions, "4 kinds of files with 1 or 2 blocks x 32 "
              "options x calls", tmpdir=True),
        Space("clash", clash, "30 headers with columns whose names become "
              "the same x 3 sets of comments x 32 options", tmpdir=True),
        Space("wellknown", wellknown, "49 names with a usual unit as sweep, "
              "column, property and index", tmpdir=True),
        Space("unmerged", unmerged, "1 or 2 files with 1 or 2 of 8 kinds of "
              "blocks read with merge=False", tmpdir=True),
    ]
