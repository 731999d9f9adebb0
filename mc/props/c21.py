# -*- coding: utf-8 -*-
"""C21: a plot shows the data it was given: the projection named by the axes,
the values at every coordinate, axis labels and tick texts that together denote
the tick positions, and Smith chart grids that are the loci they stand for."""
import cmath
import itertools
import math
import sys

import matplotlib
matplotlib.use("Agg")
import numpy as np

from mc.engine import Space, Prune, Named

from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
import matplotlib.patches as mpatches

import hftools.plotting
import hftools.plotting.helper as H
from hftools.dataset import hfarray, DimSweep, DimRep, DataBlock

SM = sys.modules["hftools.plotting.smith"]

ASSUMPTIONS = [
    "matplotlib 3.8 with the Agg canvas; lines are read back through the "
    "public Line2D/Axis interface, no pixels are compared",
    "data alphabet of a few complex/real values, up to three dims; plain "
    "arrays are not claimed for unwraprad, unwrapdeg and groupdelay (they "
    "need dims), nor the projections unity and wrapunwrapeddeg",
    "tick texts are claimed to the precision they display (3 decimals)",
    "conductance/susceptance arcs are claimed for ends given in rising order",
]


def figure():
    fig = Figure(figsize=(4, 3), dpi=50)
    FigureCanvasAgg(fig)
    return fig


# --------------------------------------------------------------------------
# projections

def oracle(proj, x, col):
    """(xs, ys, check) for one curve; *check* is None for a plain compare."""
    col = [complex(v) for v in col]
    if proj == "db":
        return x, [20 * math.log10(abs(v)) for v in col]
    if proj == "db10":
        return x, [10 * math.log10(abs(v)) for v in col]
    if proj == "mag":
        return x, [abs(v) for v in col]
    if proj == "mag_square":
        return x, [abs(v) ** 2 for v in col]
    if proj == "rad":
        return x, [cmath.phase(v) for v in col]
    if proj == "deg":
        return x, [math.degrees(cmath.phase(v)) for v in col]
    if proj == "imag":
        return x, [v.imag for v in col]
    if proj == "real":
        return x, [v.real for v in col]
    raise KeyError(proj)


SIMPLE = ["db", "db10", "mag", "mag_square", "rad", "deg", "imag", "real"]
ALPHA = [1 + 0j, -2 + 0j, 0.5j, -1 - 1j]
REAL = [1.0, -2.0, 0.5, 4.0]

FREQ = [1e9, 2e9, 4e9, 7e9]


def make(ctx, cplx=True):
    n = ctx.choose("points", [1, 3] if ctx.tier == "quick" else [1, 2, 3])
    form = ctx.choose("shape", ["1d", "2d", "3d"])
    fi = DimSweep("freq", FREQ[:n], unit="Hz")
    tail = {"1d": [], "2d": [2], "3d": [2, 2]}[form]
    dims = (fi,)
    if tail:
        dims += (DimSweep("P", [1., 2.], unit="W"),)
    if len(tail) > 1:
        dims += (DimRep("rep", [0, 1]),)
    size = n * int(np.prod(tail or [1]))
    alpha = ALPHA if cplx else REAL
    # enumerate the first curve completely, derive the other ones from it
    if ctx.tier == "quick" and n > 1:
        first = ctx.choose("curve", [alpha[:n], alpha[::-1][:n],
                                     alpha[1:2] * n])
    else:
        first = [ctx.choose("v%d" % i, alpha) for i in range(n)]
    ncurve = size // n
    data = np.empty((n, ncurve), complex if cplx else float)
    for j in range(ncurve):
        for i in range(n):
            data[i, j] = first[i] * (j + 1) * ((1j) ** j if cplx else 1)
    arr = hfarray(data.reshape([n] + tail), dims=dims, unit="V")
    return n, arr, data, FREQ[:n]


def lines_of(ctx, lines, ncurve):
    ctx.check(len(lines) == ncurve, lambda: "%d lines drawn for %d curves"
              % (len(lines), ncurve))
    out = []
    for l in lines:
        xs = np.asarray(l.get_xdata(), dtype=complex)
        ys = np.asarray(l.get_ydata(), dtype=complex)
        ctx.check(not (xs.imag.any() or ys.imag.any()),
                  "a complex value was given to matplotlib")
        out.append(([float(v.real) for v in xs], [float(v.real) for v in ys]))
    return out


def same(a, b, rel=1e-9):
    return (len(a) == len(b) and
            all(abs(p - q) <= rel * max(1, abs(p), abs(q))
                for p, q in zip(a, b)))


def _callplot(ctx, proj, arr, freq, ax, kw, allow_plain=True, nx=True):
    """plot *arr* on *ax* in one of the ways offered; returns (lines, xs,
    has_unit)"""
    ways = ["y", "y fmt", "hx,y", "x,y", "x,y fmt"] + ["nx,y"] * nx
    if allow_plain:
        ways += ["plain y", "plain x,y"]
    way = ctx.choose("call", ways)
    x2 = [3. * i - 1 for i in range(len(freq))]
    if way == "y":
        return ax.plot(arr, **kw), freq, True, way
    if way == "y fmt":
        return ax.plot(arr, "r-", **kw), freq, True, way
    if way == "hx,y":
        return ax.plot(hfarray(arr.dims[0]), arr, **kw), freq, True, way
    if way == "x,y":
        return ax.plot(np.array(x2), arr, **kw), x2, True, way
    if way == "x,y fmt":
        return ax.plot(np.array(x2), arr, "b:", **kw), x2, True, way
    if way == "nx,y":
        # x has the dims of y: every curve has x values of its own
        xx = hfarray(np.asarray(hfarray(arr.dims[0])).reshape(
            [-1] + [1] * (arr.ndim - 1)) * 2 + np.zeros(arr.shape),
            dims=arr.dims, unit="Hz")
        return ax.plot(xx, arr, **kw), [2 * f for f in freq], True, way
    plain = np.asarray(arr).reshape(arr.shape[0], -1)
    if way == "plain y":
        return (ax.plot(plain, **kw), [float(i) for i in range(len(freq))],
                False, way)
    return ax.plot(np.array(x2), plain, **kw), x2, False, way


STYLE = dict(color="g", linestyle="--", marker="x", linewidth=3.5, label="lbl")


def callplot(ctx, proj, arr, freq, ax, kw, allow_plain=True, nx=True,
             styles=False):
    """as _callplot; the lines look as asked for"""
    style = ctx.flag("style given") if styles else False
    if style:
        kw = dict(kw, **STYLE)
    lines, xs, unit, way = _callplot(ctx, proj, arr, freq, ax, kw,
                                     allow_plain, nx)
    for l in lines:
        if style:
            got = dict(color=l.get_color(), linestyle=l.get_linestyle(),
                       marker=l.get_marker(), linewidth=l.get_linewidth(),
                       label=l.get_label())
            ctx.check(got == STYLE, lambda: "%r was drawn with %r"
                      % (STYLE, got))
        elif way == "y fmt":
            ctx.check((l.get_color(), l.get_linestyle()) == ("r", "-"),
                      "not drawn as r-")
        elif way == "x,y fmt":
            ctx.check((l.get_color(), l.get_linestyle()) == ("b", ":"),
                      "not drawn as b:")
    return lines, xs, unit, way


PROJUNIT = dict(db="dB", db10="dB", mag="V", rad="rad", deg=u"\xb0",
                imag="V", real="V")


def sp_simple(ctx):
    proj = ctx.choose("projection", SIMPLE)
    cplx = ctx.choose("complex", [True, False])
    n, arr, data, freq = make(ctx, cplx)
    if not cplx and proj in ("imag",):
        pass
    onkw = ctx.choose("how", ["axes", "keyword"])
    fig = figure()
    before = repr(np.asarray(arr).tolist())
    if onkw == "axes":
        ax = fig.add_subplot(111, projection=proj)
        kw = {}
    else:
        ax = fig.add_subplot(111, projection="rectilinear")
        kw = dict(projection=proj)
    lines, xs, unit, way = callplot(ctx, proj, arr, freq, ax, kw,
                                    styles=True)
    ctx.step()
    got = lines_of(ctx, lines, data.shape[1])
    for j, (gx, gy) in enumerate(got):
        ex, ey = oracle(proj, xs, data[:, j])
        ctx.check(same(gx, ex), lambda: "%s curve %d drawn at x=%r, not %r"
                  % (proj, j, gx, ex))
        ctx.check(same(gy, ey), lambda: "%s curve %d shows %r, not %r"
                  % (proj, j, gy, ey))
    ctx.check(repr(np.asarray(arr).tolist()) == before,
              "plotting changed the data")
    if onkw == "axes" and unit and proj in PROJUNIT:
        ctx.check(ax.get_ylabel_unit() == PROJUNIT[proj],
                  lambda: "%s of data in V labelled %r, not %r"
                  % (proj, ax.get_ylabel_unit(), PROJUNIT[proj]))
    if onkw == "axes" and way in ("y", "y fmt", "hx,y"):
        ctx.check(ax.get_xlabel_unit() == "Hz", lambda: "x unit %r"
                  % ax.get_xlabel_unit())
    ctx.observe((proj, np.round(got, 9).tolist()))


def sp_large(ctx):
    """many points and curves"""
    proj = ctx.choose("projection", SIMPLE + ["unwraprad", "unwrapdeg"])
    n, ncurve = ctx.choose("points, curves", [(1001, 1), (257, 2), (5, 40),
                                              (2, 300)])
    freq = [1e9 + 1e6 * i for i in range(n)]
    data = np.empty((n, ncurve), complex)
    phase = np.empty((n, ncurve))
    for j in range(ncurve):
        for i in range(n):
            phase[i, j] = 1.5 * i + .01 * j
            data[i, j] = (1 + i % 7) * cmath.exp(1j * phase[i, j])
    dims = (DimSweep("freq", freq, unit="Hz"),)
    if ncurve > 1:
        dims += (DimSweep("P", range(ncurve), unit="W"),)
    arr = hfarray(data if ncurve > 1 else data[:, 0], dims=dims, unit="V")
    ax = figure().add_subplot(111, projection=proj)
    lines, xs, unit, way = callplot(
        ctx, proj, arr, freq, ax, {}, not proj.startswith("unwrap"))
    ctx.step()
    got = lines_of(ctx, lines, ncurve)
    for j, (gx, gy) in enumerate(got):
        if proj.startswith("unwrap"):
            ex = xs
            k = 180 / math.pi if proj == "unwrapdeg" else 1.
            ey = [p * k for p in phase[:, j]]
        else:
            ex, ey = oracle(proj, xs, data[:, j])
        ctx.check(same(gx, ex), lambda: "%s curve %d of %d has other x values"
                  % (proj, j, ncurve))
        ctx.check(same(gy, ey, 1e-7), lambda: "%s curve %d of %d differs "
                  "first at %r" % (proj, j, ncurve, [
                      t for t in zip(gx, gy, ey)
                      if abs(t[1] - t[2]) > 1e-6 * max(1, abs(t[2]))][:1]))
    ctx.state((proj, n, ncurve, way))
    ctx.observe((proj, n, ncurve, way))


def sp_phase(ctx):
    proj = ctx.choose("projection", ["unwraprad", "unwrapdeg", "groupdelay"])
    n = ctx.choose("points", [2, 3, 4] if ctx.tier == "quick" else [2, 3, 4, 5])
    F = [1e9, 2e9, 4e9, 7e9, 8e9]
    form = ctx.choose("shape", ["1d", "2d"])
    # phases in twelfths of a turn; steps of half a turn are ambiguous
    STEPS = [0, 1, 4, -5, -2]
    if ctx.tier == "quick" and n == 4:
        STEPS = [4, -5]
    ph = [ctx.choose("start", [0, 5, -4])]
    for i in range(1, n):
        ph.append(ph[-1] + ctx.choose("dphi%d" % i, STEPS))
    tail = [] if form == "1d" else [2]
    ncurve = 2 if tail else 1
    phases = np.array([[p * (1 if j == 0 else -1) for j in range(ncurve)]
                       for p in ph], float) * (2 * np.pi / 12)
    mag = np.array([[1. + i + j for j in range(ncurve)] for i in range(n)])
    fi = DimSweep("freq", F[:n], unit="Hz")
    dims = (fi,) + ((DimSweep("P", [1., 2.]),) if tail else ())
    arr = hfarray((mag * np.exp(1j * phases)).reshape([n] + tail), dims=dims,
                  unit="V")
    fig = figure()
    ax = fig.add_subplot(111, projection=proj)
    way = ctx.choose("call", ["y", "hx,y"])
    lines = ax.plot(arr) if way == "y" else ax.plot(hfarray(fi), arr)
    ctx.step()
    got = lines_of(ctx, lines, ncurve)
    scale = {"unwrapdeg": 180 / np.pi}.get(proj, 1)
    for j, (gx, gy) in enumerate(got):
        true = phases[:, j]
        # first value is the principal one
        off = cmath.phase(cmath.exp(1j * true[0])) - true[0]
        want = [(t + off) * scale for t in true]
        if proj == "groupdelay":
            ex = [(a + b) / 2 for a, b in zip(F[:n], F[1:n])]
            ey = [-(b - a) / (2 * np.pi * (fb - fa)) * 1e9
                  for a, b, fa, fb in zip(true, true[1:], F[:n], F[1:n])]
            gy = [v * 1e9 for v in gy]
        else:
            ex, ey = F[:n], want
            # the branch is the same along the curve, but otherwise free
            turns = round((gy[0] - ey[0]) / (2 * np.pi * scale))
            ey = [v + turns * 2 * np.pi * scale for v in ey]
        ctx.check(same(gx, ex), lambda: "%s drawn at %r, not %r"
                  % (proj, gx, ex))
        ctx.check(same(gy, ey), lambda: "%s shows %r, not %r"
                  % (proj, gy, ey))
    unit = {"unwraprad": "rad", "unwrapdeg": u"\xb0", "groupdelay": "s"}[proj]
    ctx.check(ax.get_ylabel_unit() == unit, lambda: "%s labelled %r, not %r"
              % (proj, ax.get_ylabel_unit(), unit))
    ctx.observe((proj, np.round(got, 12).tolist()))


def sp_plane(ctx):
    """projections which show the complex plane, and rectilinear ones"""
    proj = ctx.choose("projection", ["rectilinear", "cplx", "smith", "cpolar",
                                     "x-si", "cplxpolar"])
    cplx = True if proj == "smith" else ctx.choose("complex", [True, False])
    if proj == "x-si" and cplx:
        cplx = False
    n, arr, data, freq = make(ctx, cplx)
    fig = figure()
    ax = fig.add_subplot(111, projection=proj)
    lines, xs, unit, way = callplot(
        ctx, proj, arr, freq, ax, {},
        allow_plain=cplx or proj != "cplxpolar",
        nx=cplx or proj != "cplxpolar", styles=True)
    ctx.step()
    got = lines_of(ctx, lines, data.shape[1])
    for j, (gx, gy) in enumerate(got):
        col = [complex(v) for v in data[:, j]]
        if cplx:
            pts = col
        else:
            pts = [complex(a, b.real) for a, b in zip(xs, col)]
        if proj == "cplxpolar":
            ctx.check(same(gy, [abs(p) for p in pts]),
                      lambda: "radius %r, not %r" % (gy, [abs(p) for p in pts]))
            z = [cmath.rect(1, t) * abs(p) for t, p in zip(gx, pts)]
            ctx.check(all(abs(a - b) < 1e-9 * max(1, abs(b))
                          for a, b in zip(z, pts)),
                      lambda: "angles %r of points %r" % (gx, pts))
        else:
            ctx.check(same(gx, [p.real for p in pts]) and
                      same(gy, [p.imag for p in pts]),
                      lambda: "%s shows %r, not %r"
                      % (proj, list(zip(gx, gy)), pts))
    if proj == "cplx" and unit and cplx:
        ctx.check((ax.get_xlabel_unit(), ax.get_ylabel_unit()) == ("V", "V"),
                  lambda: "units %r" % ((ax.get_xlabel_unit(),
                                         ax.get_ylabel_unit()),))
    ctx.observe((proj, np.round(got, 9).tolist()))


# --------------------------------------------------------------------------
# ticks and labels

PREF = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21,
        "Y": 24, "m": -3, "u": -6, u"\xb5": -6, u"\u03bc": -6, "n": -9,
        "p": -12, "f": -15, "a": -18, "z": -21, "y": -24}
#matplotlib's EngFormatter knows four more
TICKPREF = dict(PREF, q=-30, r=-27, R=27, Q=30)


def tick_value(text):
    """(value, resolution) denoted by a tick text"""
    t = text.replace(u"\u2212", "-").strip()
    exp = 0
    if t and t[-1] in TICKPREF and not t[-1].isdigit():
        exp = TICKPREF[t[-1]]
        t = t[:-1].strip()
    mant, _, e = t.partition("e")
    if e:
        exp += int(e)
    dec = len(mant.partition(".")[2])
    return float(mant) * 10. ** exp, 10. ** (exp - dec)


def check_ticks(ctx, locs, texts, factor, label):
    for loc, text in zip(locs, texts):
        if text == "":
            continue
        v, res = tick_value(text)
        v *= factor
        res *= factor
        ctx.check(abs(v - loc) <= res * 0.501 + 1e-9 * abs(loc),
                  lambda: "tick at %r reads %r with label %r"
                  % (loc, text, label))


def split_label(ctx, label, template, unit, name):
    """Factor given by *label*, which must be *template* filled in."""
    want_unit = unit or "U"
    body = template.replace("{default}", name)
    if "[]" in body:
        head, _, rest = body.partition("[]")
        tail = want_unit + "]" + rest
        ctx.check(label.startswith(head + "[") and label.endswith(tail),
                  lambda: "label %r for template %r unit %r"
                  % (label, template, unit))
        prefix = label[len(head) + 1:len(label) - len(tail)]
        ctx.check(prefix in PREF, lambda: "label %r: prefix %r"
                  % (label, prefix))
        return 10. ** PREF[prefix]
    if "[^]" in body:
        import re
        m = re.search(r"10\^\{+(-?\d+)\}+", label)
        ctx.check(m, lambda: "label %r for template %r" % (label, template))
        if unit:
            ctx.check(unit in label, lambda: "label %r lacks unit %r"
                      % (label, unit))
        return 10. ** int(m.group(1))
    return None


MANT = [[1, 2, 3], [0, 0.5, 1], [-1, 0, 1], [2.5, 5, 7.5], [100, 300, 500],
        [1, 100, 1000], [1, 5000, 9999], [1, 20000], [0, 1, 50000], [0],
        [9.999, 10], [999, 1000, 1001], [0.1, 0.2, 0.3], [-5, -4.5],
        [1.0001, 1.0002], [1, 1.001, 1.002], [1, 10000], [999.9996, 500]]


def sp_formatter(ctx):
    """UnitFormatter on every decade, with histories of tick locations"""
    template = ctx.choose("template", ["f []", "{default} []", "a [^]"])
    unit = ctx.choose("unit", [None, "Hz", "V", "deg"])
    labels = []
    via = ctx.choose("given", ["constructor", "setters"])
    if via == "constructor":
        f = H.UnitFormatter("%.3f", labels.append, template, unit)
    else:
        f = H.UnitFormatter("%.3f", labels.append)
        f.set_label_unit(unit)
        f.set_label_fmt(template)
    name = {"Hz": "Frequency"}.get(unit, "X")
    shown = {"deg": u"\xb0"}.get(unit, unit)
    rounds = 2
    for k in range(rounds):
        decades = (range(-30, 31, 3) if k == 0 else [-9, 0, 6])
        if ctx.tier != "quick":
            decades = range(-30, 31) if k == 0 else [-26, -9, -4, 0, 3, 6, 26]
        mants = MANT if k == 0 else [MANT[0], MANT[7], MANT[9]]
        dec = ctx.choose("decade%d" % k, decades)
        m = ctx.choose("locs%d" % k, mants)
        locs = [v * 10. ** dec for v in m]
        f.set_locs(locs)
        texts = [f(x, i) for i, x in enumerate(locs)]
        ctx.step(len(locs))
        ctx.check(labels, "no label was set")
        factor = split_label(ctx, labels[-1], template, shown, name)
        check_ticks(ctx, locs, texts, factor, labels[-1])
        ctx.observe((texts, labels[-1]))
        ctx.state((texts, labels[-1]))


def sp_simple_formatter(ctx):
    unit = ctx.choose("unit", [None, "dB", "V"])
    labels = []
    via = ctx.choose("given", ["constructor", "setters"])
    if via == "constructor":
        f = H.SimpleUnitFormatter("%.3f", labels.append, "g []", unit)
    else:
        f = H.SimpleUnitFormatter("%.3f", labels.append)
        f.set_label_unit(unit)
        f.set_label_fmt("g []")
    dec = ctx.choose("decade", [-3, -2, -1, 0, 1, 2, 3, 4])
    m = ctx.choose("locs", MANT)
    locs = [v * 10. ** dec for v in m]
    f.set_locs(locs)
    texts = [f(x, i) for i, x in enumerate(locs)]
    ctx.step(len(locs))
    ctx.check(labels and labels[-1] == "g [%s]" % (unit or "U"),
              lambda: "label %r" % (labels[-1:],))
    check_ticks(ctx, locs, texts, 1., labels[-1])
    ctx.observe((texts, labels[-1]))


def op_plot(dim, xs, unit):
    def run(ax, st):
        ax.plot(hfarray([1., 2., 3.], dims=(DimSweep(dim, xs, unit=unit),)))
        if st["name"] is None:
            st["name"] = dim
        if unit:
            st["unit"] = unit
    return Named("plot(%s in %s)" % (dim, unit), run)


def op_lim(lo, hi):
    return Named("set_xlim(%g,%g)" % (lo, hi),
                 lambda ax, st: ax.set_xlim(lo, hi))


def op_ticks(t):
    return Named("set_xticks(%r)" % (t,), lambda ax, st: ax.set_xticks(t))


def op_fmt(fmt, unit):
    def run(ax, st):
        ax.set_xlabel_fmt(fmt, unit)
        st["fmt"] = fmt
        if unit:
            st["unit"] = unit
    return Named("set_xlabel_fmt(%r,%r)" % (fmt, unit), run)


def op_unit(unit):
    def run(ax, st):
        ax.set_xlabel_unit(unit)
        st["unit"] = unit
    return Named("set_xlabel_unit(%r)" % unit, run)


def op_draw():
    return Named("draw", lambda ax, st: ax.figure.canvas.draw())


OPS = [op_plot("freq", [1e9, 2e9, 3e9], "Hz"), op_plot("t", [0, 1e-9, 2e-9], "s"),
       op_plot("Vg", [0.1, .2, .3], "V"), op_plot("n", [1., 2., 3.], None),
       op_lim(1e-6, 3e-6), op_lim(0, 5e12), op_ticks([1., 1e6]),
       op_ticks([0.]), op_fmt("foo []", "W"), op_fmt("{default} []", None),
       op_fmt("bar [^]", None), op_unit("A"), op_draw()]


def sp_history(ctx):
    """histories of plot / limits / label calls, then a draw"""
    proj = ctx.choose("projection", ["mag"] if ctx.tier == "quick"
                      else ["mag", "db", "x-si", "deg", "real"])
    depth = 3 if ctx.tier == "quick" else 3
    fig = figure()
    ax = fig.add_subplot(111, projection=proj)
    st = dict(name=None, unit=None, fmt="{default} []")
    for i in range(depth):
        op = ctx.choose("op%d" % i, OPS[:-1] if i == depth - 1 else OPS)
        op(ax, st)
        ctx.step()
    fig.canvas.draw()
    label = ax.get_xlabel()
    name = {"Hz": "Frequency", "s": "Time", "m": "Length"}.get(
        st["unit"], st["name"] or "X")
    factor = split_label(ctx, label, st["fmt"], st["unit"], name)
    ticks = ax.xaxis.get_major_ticks()
    locs = [float(v) for v in ax.xaxis.get_majorticklocs()]
    texts = [t.label1.get_text() for t in ticks]
    lo, hi = sorted(ax.get_xlim())
    pairs = [(l, t) for l, t in zip(locs, texts)
             if lo <= l <= hi]
    check_ticks(ctx, [p[0] for p in pairs], [p[1] for p in pairs], factor,
                label)
    ctx.state((label, texts))
    ctx.observe((label, texts))


# --------------------------------------------------------------------------
# Smith chart geometry

INF = float("inf")


def curve(a, n=41):
    """points of the curve an artist draws"""
    if isinstance(a, mpatches.Polygon):
        v = a.get_xy()[:2]
        return [complex(*(v[0] * (1 - s) + v[1] * s))
                for s in np.linspace(0, 1, n)]
    if isinstance(a, mpatches.Arc):
        t1, t2 = a.theta1, a.theta2
        cx, cy = a.center
        r = a.width / 2.
        assert abs(a.height / 2. - r) < 1e-12
        t2 = t2 - 360 * np.floor((t2 - t1) / 360)
        if t2 <= t1 and a.theta2 != a.theta1:
            t2 += 360
    else:
        t1, t2 = 0, 360
        cx, cy = a.center
        r = a.radius
    return [complex(cx, cy) + r * cmath.rect(1, math.radians(t))
            for t in np.linspace(t1, t2, n)]


def gam(kind, w):
    """reflection coefficient of the normalised impedance/admittance *w*"""
    if math.isinf(w.real) or math.isinf(w.imag):
        return 1 if kind in "RX" else -1
    return (w - 1) / (w + 1) if kind in "RX" else (1 - w) / (1 + w)


def locus(ctx, kind, fixed, lo, hi, pts, what):
    """*pts* lie on Re (R, G) or Im (X, B) == fixed, other part in lo..hi"""
    sing = 1 if kind in "RX" else -1
    for g in pts:
        if abs(g - sing) < 1e-4:
            ctx.check(math.isinf(lo) or math.isinf(hi),
                      "%s passes through infinity" % what)
            continue
        w = (1 + g) / (1 - g) if kind in "RX" else (1 - g) / (1 + g)
        a, b = (w.real, w.imag) if kind in "RG" else (w.imag, w.real)
        tol = 1e-6 * max(1, abs(w) ** 2)
        ctx.check(abs(a - fixed) <= tol,
                  lambda: "%s passes through %r" % (what, w))
        ctx.check(lo - tol <= b <= hi + tol,
                  lambda: "%s leaves its ends at %r" % (what, w))


def sp_circles(ctx):
    kind = ctx.choose("kind", ["R", "X", "G", "B"])
    fn = getattr(SM, kind + "Circle")
    if kind in "RG":
        fixed = ctx.choose("fixed", [0, 0.2, 1. / 3, 1, 3, 10])
        ends = [-INF, -10, -3, -1, -1. / 3, 0, 1. / 3, 1, 3, 10, INF]
    else:
        fixed = ctx.choose("fixed", [-10, -3, -1, -0.2, 0, 0.2, 1, 3, 10])
        ends = [0, 0.1, 1. / 3, 1, 3, 10, INF]
    pairs = [None] + [(a, b) for a in ends for b in ends
                      if a < b or (a > b and kind in "RX")]
    ends = ctx.choose("ends", pairs)
    if ends is None:
        c = fn(fixed)
        pts = curve(c.get_artist())
        ctx.step()
        locus(ctx, kind, fixed, -INF, INF, pts, "%sCircle(%g)" % (kind, fixed))
        return
    e1, e2 = ends
    what = "%sCircle(%g, %g, %g)" % (kind, fixed, e1, e2)
    pts = curve(fn(fixed, e1, e2).get_artist())
    ctx.step()
    locus(ctx, kind, fixed, min(e1, e2), max(e1, e2), pts, what)
    for e in ends:
        w = complex(fixed, e) if kind in "RG" else complex(e, fixed)
        g = gam(kind, w)
        ctx.check(min(abs(g - pts[0]), abs(g - pts[-1])) < 1e-6,
                  lambda: "%s does not end at %r" % (what, w))
    ctx.observe(np.round(pts, 6).tolist())


def sp_gamma(ctx):
    parts = [0, 1. / 3, 1, 3, 100]
    z = complex(ctx.choose("re", parts + [INF]),
                ctx.choose("im", parts + [-p for p in parts] + [INF, -INF]))
    kind = ctx.choose("of", ["z2gamma", "y2gamma"])
    g = complex(getattr(SM, kind)(z))
    ctx.step()
    e = gam("R" if kind == "z2gamma" else "G", z)
    ctx.check(abs(g - e) < 1e-12, lambda: "%s(%r) = %r, not %r"
              % (kind, z, g, e))
    ctx.observe(g)


GRIDS = {"smith": ("Z", -1, 1), "inv_smith": ("Y", -1, 1),
         "smith_lower": ("Z", -1, 0), "smith_upper": ("Z", 0, 1),
         "SmithAxes": ("Z", -1, 1)}


def whole_circle(ctx, fig, ax, what):
    """the unit circle is inside the axes and round"""
    fig.canvas.draw()
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    ctx.check(x0 <= -1 and x1 >= 1 and y0 <= -1 and y1 >= 1,
              lambda: "%s shows only %r x %r" % (what, (x0, x1), (y0, y1)))
    px = ax.transData.transform([(-1, 0), (1, 0), (0, -1), (0, 1)])
    w, h = abs(px[1, 0] - px[0, 0]), abs(px[3, 1] - px[2, 1])
    ctx.check(abs(w - h) <= 0.02 * w, lambda: "the unit circle of %s is %r "
              "wide and %r high" % (what, w, h))


def sp_smith_polar(ctx):
    """upper half polar, lower half Smith"""
    way = ctx.choose("axes", ["given", "current"])
    if way == "current":
        import matplotlib.pyplot as plt
        fig = plt.figure(figsize=(4, 3), dpi=50)
        ax = fig.add_subplot(111)
        SM.smith_polar()
        plt.close(fig)
    else:
        fig = figure()
        ax = fig.add_subplot(111)
        SM.smith_polar(ax)
    ctx.step()
    whole_circle(ctx, fig, ax, "smith_polar")
    upper = [p for p in ax.patches
             if not isinstance(p, mpatches.Circle) and
             all(g.imag > -1e-6 for g in curve(p))]
    lower = [p for p in ax.patches
             if not isinstance(p, mpatches.Circle) and
             all(g.imag < 1e-6 for g in curve(p))]
    rest = [p for p in ax.patches if p not in upper and p not in lower]
    ctx.check(upper and lower and all(isinstance(p, mpatches.Circle)
                                      for p in rest), "halves are mixed")
    for p in lower:
        if p in upper:
            continue
        ws = [(1 + g) / (1 - g) for g in curve(p) if abs(g - 1) > 1e-2]
        ctx.check(all(abs(w.real - ws[0].real) < 1e-6 * max(1, abs(w) ** 2)
                      for w in ws) or
                  all(abs(w.imag - ws[0].imag) < 1e-6 * max(1, abs(w) ** 2)
                      for w in ws), "the lower half is not a Smith chart")
    for p in upper:
        if p in lower:
            continue
        pts = curve(p)
        turn = pts[-1] / abs(pts[-1])
        ctx.check(all(abs(abs(g) - abs(pts[0])) < 1e-9 for g in pts) or
                  all(abs((g / turn).imag) < 1e-9 for g in pts),
                  "the upper half is not a polar chart")
    ctx.observe((len(upper), len(lower)))


def sp_grid(ctx):
    name = ctx.choose("grid", sorted(GRIDS))
    kind, lo, hi = GRIDS[name]
    fig = figure()
    if name == "SmithAxes":
        ax = fig.add_subplot(111, projection="smith")
    else:
        ax = fig.add_subplot(111)
        getattr(SM, name)(ax)
    ctx.step()
    whole_circle(ctx, fig, ax, name)
    re_seen, im_seen = set(), set()
    for p in ax.patches:
        pts = curve(p)
        for g in pts:
            ctx.check(abs(g) <= 1 + 1e-9, lambda: "%s draws outside the unit "
                      "circle: %r" % (name, g))
            ctx.check(lo - 1e-6 <= g.imag <= hi + 1e-6 or
                      (isinstance(p, mpatches.Circle)),
                      lambda: "%s draws in the other half: %r" % (name, g))
        sing = 1 if kind == "Z" else -1
        ws = [((1 + g) / (1 - g) if kind == "Z" else (1 - g) / (1 + g))
              for g in pts if abs(g - sing) > 1e-2]
        if abs(ws[0].real - ws[len(ws) // 2].real) < 1e-6 and \
                all(abs(w.real - ws[0].real) < 1e-6 * max(1, abs(w) ** 2)
                    for w in ws):
            re_seen.add(round(ws[0].real, 6) + 0.)
        elif all(abs(w.imag - ws[0].imag) < 1e-6 * max(1, abs(w) ** 2)
                 for w in ws):
            im_seen.add(round(ws[0].imag, 6) + 0.)
        else:
            ctx.fail("%s draws a line which is neither constant resistance "
                     "nor constant reactance" % name)
    third = round(1. / 3, 6)
    ctx.check(re_seen == set([0, third, 1, 3]), lambda: "%s has resistance "
              "lines %r" % (name, sorted(re_seen)))
    pos = [third, 1, 3]
    # gamma above the real axis: inductive impedance / negative susceptance
    want = set([0])
    if hi > 0:
        want |= set(pos if kind == "Z" else [-v for v in pos])
    if lo < 0:
        want |= set([-v for v in pos] if kind == "Z" else pos)
    ctx.check(im_seen == want, lambda: "%s has reactance lines %r"
              % (name, sorted(im_seen)))
    ctx.observe((sorted(re_seen), sorted(im_seen)))


def sp_polar(ctx):
    mode = ctx.choose("mode", ["full", "lower", "upper", "axes"])
    fig = figure()
    if mode == "axes":
        ax = fig.add_subplot(111, projection="cpolar")
        mode = "full"
    else:
        ax = fig.add_subplot(111)
        SM.polar_grid(ax, mode)
    ctx.step()
    lo, hi = {"full": (-1, 1), "lower": (-1, 0), "upper": (0, 1)}[mode]
    radii, angles = set(), set()
    for p in ax.patches:
        pts = curve(p)
        for g in pts:
            ctx.check(abs(g) <= 1 + 1e-9, "outside the unit circle")
            ctx.check(lo - 1e-6 <= g.imag <= hi + 1e-6 or
                      isinstance(p, mpatches.Circle), "in the other half")
        if isinstance(p, mpatches.Polygon):
            ctx.check(abs(pts[0]) < 1e-12 and abs(abs(pts[-1]) - 1) < 1e-12,
                      "a radius does not run from the centre to the rim")
            angles.add(int(round(math.degrees(cmath.phase(pts[-1])))) % 360)
        else:
            ctx.check(all(abs(abs(g) - abs(pts[0])) < 1e-9 for g in pts),
                      "a circle is not centred")
            radii.add(round(abs(pts[0]), 9))
    ctx.check(set([0.2, 0.4, 0.6, 0.8, 1.0]) <= radii <=
              set([0.0, 0.2, 0.4, 0.6, 0.8, 1.0]),
              lambda: "circles %r" % sorted(radii))
    want = {"full": range(0, 360, 45), "upper": range(0, 181, 45),
            "lower": list(range(180, 360, 45)) + [0]}[mode]
    ctx.check(angles == set(want), lambda: "radii at %r" % sorted(angles))
    ctx.observe((sorted(radii), sorted(angles)))


# --------------------------------------------------------------------------
# legends, ticks, saving

def sp_legend(ctx):
    fig = figure()
    want = []
    axs = []
    for k in range(ctx.choose("axes", [1, 2])):
        ax = fig.add_subplot(2, 1, k + 1)
        axs.append(ax)
        for i in range(ctx.choose("lines%d" % k, [0, 1, 2])):
            lab = ctx.choose("label%d.%d" % (k, i), ["a", "b", "_hidden", None])
            l, = ax.plot([1, 2], [i, k], **({} if lab is None
                                            else dict(label=lab)))
            if lab in ("a", "b"):
                want.append((l, lab))
    lines, labels = H.build_figlegend(axs)
    ctx.step()
    ctx.check([id(l) for l in lines] == [id(l) for l, _ in want] and
              list(labels) == [t for _, t in want],
              lambda: "legend %r, not %r" % (labels, [t for _, t in want]))
    ctx.observe(list(labels))


def sp_save(ctx):
    import os
    import matplotlib.pyplot as plt
    plt.close("all")
    fig = plt.figure(figsize=(1, 1), dpi=20)
    fig.add_subplot(111)
    alpha = ctx.choose("alpha", [None, 0.5, 1])
    fig.patch.set_alpha(alpha)
    kw = {}
    ft = ctx.choose("facetransparent", [None, False, True])
    if ft is not None:
        kw["facetransparent"] = ft
    name = os.path.join(ctx.tmp, "a.png")
    H.savefig(name, **kw)
    ctx.step()
    ctx.check(os.path.getsize(name) > 0, "empty file")
    ctx.check(fig.patch.get_alpha() == alpha, "saving changed the figure")
    import matplotlib.image as mimg
    img = mimg.imread(name)
    corner = float(img[0, 0, 3]) if img.shape[2] == 4 else 1.
    if ft:
        ctx.check(corner == 0, "face is not transparent")
    elif alpha in (None, 1):
        ctx.check(corner == 1, "face is transparent")
    plt.close("all")
    ctx.observe(corner)


def sp_all_figures(ctx):
    """Figures come in the order of their numbers, however they were made."""
    import os
    import re
    import matplotlib.pyplot as plt
    plt.close("all")
    order = ctx.choose("order", [p for n in (1, 2, 3)
                                 for p in itertools.permutations((1, 2, 5), n)])
    dead = ctx.choose("closed", [None, 1, 2, 5])
    if dead is not None and dead not in order:
        raise Prune()
    front = ctx.choose("current", [None, 1, 2, 5])
    if front is not None and (front not in order or front == dead):
        raise Prune()
    for n in order:
        plt.figure(n, figsize=(n, 1), dpi=20)
    if dead is not None:
        plt.close(dead)
    if front is not None:
        plt.figure(front)
    want = sorted(n for n in order if n != dead)
    got = [f.number for f in H.all_figures()]
    ctx.step()
    ctx.check(got == want, lambda: "figures %r of %r" % (got, want))
    if want:
        name = os.path.join(ctx.tmp, "a.pdf")
        H.save_all_figures_to_pdf(name)
        ctx.step()
        with open(name, "rb") as fil:
            data = fil.read()
        pages = dict((k, int(v)) for k, v in re.findall(
            br"(\d+) 0 obj\s*<<[^>]*?/MediaBox \[ ?0 0 (\d+) ", data))
        kids = re.search(br"/Kids \[([^\]]*)\]", data)
        ids = re.findall(br"(\d+) 0 R", kids.group(1))
        widths = [pages[k] // 72 for k in ids]
        ctx.check(widths == want, lambda: "pages of figures %r, not %r"
                  % (widths, want))
        ctx.check([f.number for f in H.all_figures()] == want,
                  "saving changed the figures")
    try:
        H.save_all_figures_to_pdf(os.path.join(ctx.tmp, "a.png"))
        ctx.check(False, "saved a pdf under another name")
    except ValueError:
        pass
    plt.close("all")
    ctx.observe(got)


def sp_ticks(ctx):
    major = ctx.choose("major", [0.5, 1, 2])
    minor = ctx.choose("minor", [0.25, 0.5])
    which = ctx.choose("axis", ["x", "y"])
    nax = ctx.choose("axes", ["one", "list"])
    fig = figure()
    axs = [fig.add_subplot(1, 2, k + 1) for k in range(2)]
    for ax in axs:
        ax.set_xlim(-2, 4)
        ax.set_ylim(-2, 4)
    fn = H.set_xtick if which == "x" else H.set_ytick
    fn(major, minor, axs[0] if nax == "one" else axs)
    ctx.step()
    for k, ax in enumerate(axs):
        for w in "xy":
            axis = getattr(ax, w + "axis")
            inside = [float(v) for v in axis.get_majorticklocs()
                      if -2 <= v <= 4]
            want = [-2 + i * major for i in range(int(6 / major) + 1)]
            hit = w == which and (k == 0 or nax == "list")
            if hit:
                ctx.check(same(inside, want), lambda: "%s ticks at %r"
                          % (w, inside))
            else:
                ctx.check(not isinstance(axis.get_major_locator(),
                                         matplotlib.ticker.MultipleLocator),
                          "ticks of another axis changed")
    ctx.observe((which, major))


def spaces(tier):
    return [
        Space("projections", sp_simple, "8 projections x ways to call plot x "
              "1-3 dims x all curves over a 4 value alphabet"),
        Space("large", sp_large, "1001 points, 300 curves"),
        Space("phase", sp_phase, "unwrapped phase and group delay over all "
              "phase step sequences"),
        Space("plane", sp_plane, "complex plane, polar and rectilinear axes"),
        Space("formatter", sp_formatter, "tick texts x labels on all decades, "
              "histories of two sets of ticks"),
        Space("simple formatter", sp_simple_formatter, "dB axes"),
        Space("label history", sp_history, "all sequences of three of 13 plot/"
              "limit/tick/label operations, then draw"),
        Space("smith circles", sp_circles, "R/X/G/B loci and arcs"),
        Space("gamma", sp_gamma, "impedance and admittance to gamma"),
        Space("smith grids", sp_grid, "every line of every grid"),
        Space("smith_polar", sp_smith_polar, "every line of the combined "
              "chart"),
        Space("polar grids", sp_polar, "every line of every polar grid"),
        Space("legend", sp_legend, "lines and labels collected for legends"),
        Space("savefig", sp_save, "transparent faces", tmpdir=True),
        Space("all figures", sp_all_figures, "figures in order of number, "
              "pdf pages", tmpdir=True),
        Space("ticks", sp_ticks, "set_xtick/set_ytick"),
    ]
