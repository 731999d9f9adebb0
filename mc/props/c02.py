# -*- coding: utf-8 -*-
"""C02: every element stays attached to its coordinate labels, whatever
sequence of structural operations an hfarray goes through."""
import itertools

import numpy as np

from mc.engine import Space
from hftools.dataset import DimRep
from mc.labelled import KINDS, kind_of, same, same_label, dim_labels, hfarray

ASSUMPTIONS = ["structural operations hfarray itself defines; numpy methods "
               "it inherits unchanged (swapaxes, reshape, ravel, repeat) are "
               "outside the library's contract"]


class Axis(object):
    def __init__(self, kind, name, labels, src, unit=None, fmt=None):
        self.kind, self.name, self.fmt = kind, name, fmt
        self.labels = list(labels)
        self.src = list(src)       # per position: {origin dim: origin index}
        self.unit = unit

    def pick(self, idxs):
        return Axis(self.kind, self.name, [self.labels[i] for i in idxs],
                    [self.src[i] for i in idxs], self.unit, self.fmt)

    def __len__(self):
        return len(self.labels)


class Model(object):
    """Positions of the current axes expressed in the origin array."""

    def __init__(self, origin, axes, fixed=(), unit=None, fmt=None):
        self.origin = origin
        self.axes = list(axes)
        self.fixed = dict(fixed)
        self.unit = unit
        self.fmt = fmt

    def new(self, axes, fixed=None):
        return Model(self.origin, axes, self.fixed if fixed is None else fixed,
                     self.unit, self.fmt)

    @property
    def shape(self):
        return tuple(len(a) for a in self.axes)

    def value(self, idx):
        pos = dict(self.fixed)
        for ax, i in zip(self.axes, idx):
            pos.update(ax.src[i])
        return self.origin[tuple(pos[k] for k in range(self.origin.ndim))]

    def find(self, name):
        return [k for k, a in enumerate(self.axes) if a.name == name]

    def key(self):
        return (tuple((a.kind, a.name, tuple(map(repr, a.labels)),
                       tuple(tuple(sorted(s.items())) for s in a.src))
                      for a in self.axes), tuple(sorted(self.fixed.items())))


DIMFMT = dict(sweep="%.2f", rep="%03d", mi=None, mj=None)


def build(spec, unit="V", fmt="%.3f", dtype=float):
    """spec: list of (kind, name, labels, unit)"""
    shape = tuple(len(s[2]) for s in spec)
    n = int(np.prod(shape)) if shape else 1
    origin = (np.arange(n) * 7 + 3).astype(dtype).reshape(shape)
    if dtype is complex:
        origin = origin + 1j * (origin * 2 - 5)
    dims = tuple(KINDS[k](nm, lab, unit=u, outputformat=DIMFMT[k])
                 for k, nm, lab, u in spec)
    a = hfarray(origin.copy(), dims=dims, unit=unit, outputformat=fmt)
    m = Model(origin, [Axis(k, nm, lab, [{d: i} for i in range(len(lab))], u,
                            DIMFMT[k]) for d, (k, nm, lab, u) in enumerate(spec)],
              unit=unit, fmt=fmt)
    return a, m


SPECS = dict(
    fr=[("sweep", "f", [1.5, 2.5, 9.0], "Hz"), ("rep", "r", [5, 7], None)],
    sq=[("sweep", "f", [10, 20], "Hz"), ("sweep", "g", [1.0, 2.0], "V"),
        ("rep", "r", [3, 4], None)],
    mat=[("sweep", "f", [1.0, 2.0], "Hz"), ("mi", "i", [0, 1], None),
         ("mj", "j", [0, 1, 2], None)],
    one=[("sweep", "f", [4.0], None), ("rep", "r", [1, 2], None),
         ("sweep", "s", ["x", "y"], None)],
    vec=[("sweep", "f", [3.0, 1.0, 2.0], "Hz")],
)


LARGE = dict(
    five=[("sweep", "f", [1.5, 2.5, 9.0], "Hz"), ("sweep", "g", [1, 2], "V"),
          ("rep", "r", [5, 7], None), ("mi", "i", [0, 1], None),
          ("mj", "j", [0, 1, 2], None)],
    long=[("sweep", "f", [0.5 * k for k in range(300)], "Hz"),
          ("rep", "r", [5, 7], None)],
    tall=[("rep", "r", [7, 5], None),
          ("sweep", "f", [-0.5 * k for k in range(130)], "Hz")],
    line=[("sweep", "f", list(range(1100, 0, -1)), "Hz")])
SPECS.update(LARGE)


def check(ctx, a, m, what):
    if isinstance(a, hfarray):
        raw = np.asarray(a)
        ctx.check(len(a.dims) == raw.ndim == len(m.axes),
                  lambda: "%s: %d dims, ndim %d, expected %d"
                  % (what, len(a.dims), raw.ndim, len(m.axes)))
        for ax, (dim, w) in enumerate(zip(a.dims, m.axes)):
            ctx.check((kind_of(dim), dim.name) == (w.kind, w.name),
                      lambda: "%s: axis %d is %r, expected %s %r"
                      % (what, ax, dim, w.kind, w.name))
            lab = dim_labels(dim)
            ctx.check(len(lab) == len(w.labels) == raw.shape[ax] and
                      all(same_label(x, y) for x, y in zip(lab, w.labels)),
                      lambda: "%s: axis %r has labels %r for length %d, "
                      "expected %r" % (what, w.name, lab, raw.shape[ax],
                                       w.labels))
            if len(lab):
                ctx.check(dim.unit == w.unit,
                          lambda: "%s: unit of dim %r is %r, expected %r"
                          % (what, w.name, dim.unit, w.unit))
                ctx.check(w.fmt is None or dim.outputformat == w.fmt,
                          lambda: "%s: format of dim %r is %r, expected %r"
                          % (what, w.name, dim.outputformat, w.fmt))
        ctx.check(a.unit == m.unit, lambda: "%s: unit %r, expected %r"
                  % (what, a.unit, m.unit))
        ctx.check(a.outputformat == m.fmt,
                  lambda: "%s: outputformat %r, expected %r"
                  % (what, a.outputformat, m.fmt))
    else:
        ctx.check(not isinstance(a, np.ndarray) and not m.axes,
                  lambda: "%s: got a %s for a result with %d dims"
                  % (what, type(a).__name__, len(m.axes)))
        raw = np.asarray(a)
    ctx.check(raw.shape == m.shape, lambda: "%s: shape %r, expected %r"
              % (what, raw.shape, m.shape))
    for idx in itertools.product(*[range(n) for n in m.shape]):
        ctx.check(same(raw[idx], m.value(idx)),
                  lambda: "%s: element %r is %r, expected %r"
                  % (what, idx, raw[idx], m.value(idx)))


SLICES = [slice(1, None), slice(None, -1), slice(None, None, -1),
          slice(None, None, 2), slice(0, 1), slice(-1, None),
          slice(2, None), slice(None)]


def ops_for(m, full):
    """All operations applicable in the current state: (name, fn, model)."""
    n = len(m.axes)
    out = []

    def add(name, fn, model):
        out.append((name, fn, model))

    # transposition
    if n > 1:
        perms = list(itertools.permutations(range(n)))[1:]
        for p in perms if full else perms[-2:]:
            add("transpose%r" % (p,), lambda a, p=p: a.transpose(*p),
                m.new([m.axes[i] for i in p]))
            if full:
                add("transpose(%r)" % (p,), lambda a, p=p: a.transpose(p),
                    m.new([m.axes[i] for i in p]))
                add("np.transpose%r" % (p,),
                    lambda a, p=p: np.transpose(a, list(p)),
                    m.new([m.axes[i] for i in p]))
        add("T", lambda a: a.T, m.new(m.axes[::-1]))
        if full:
            add("np.transpose()", lambda a: np.transpose(a),
                m.new(m.axes[::-1]))
            add("transpose()", lambda a: a.transpose(), m.new(m.axes[::-1]))
            add("transpose(-1, ...)", lambda a: a.transpose(
                *range(-1, -n - 1, -1)), m.new(m.axes[::-1]))
    names = [x.name for x in m.axes]
    if len(set(names)) == n:
        for k in range(1, min(n, 2) + 1):
            for sel in itertools.permutations(range(n), k):
                order = list(sel) + [i for i in range(n) if i not in sel]
                mm = m.new([m.axes[i] for i in order])
                if full or len(sel) == 1:
                    add("reorder_dimensions(names %r)" % (sel,),
                        lambda a, sel=sel: a.reorder_dimensions(
                            *[a.dims[i].name for i in sel]), mm)
                if full:
                    add("reorder_dimensions(dims %r)" % (sel,),
                        lambda a, sel=sel: a.reorder_dimensions(
                            *[a.dims[i] for i in sel]), mm)
    ki = [k for k, a in enumerate(m.axes) if a.kind == "mi"]
    kj = [k for k, a in enumerate(m.axes) if a.kind == "mj"]
    if len(ki) == 1 and len(kj) == 1:
        i, j = ki[0], kj[0]
        axes = list(m.axes)
        axes[i] = Axis("mi", m.axes[i].name, m.axes[j].labels, m.axes[j].src)
        axes[j] = Axis("mj", m.axes[j].name, m.axes[i].labels, m.axes[i].src)
        add("t", lambda a: a.t, m.new(axes))
    # integer and slice indexing
    for k in range(n):
        L = len(m.axes[k])
        for i in ([0, -1, 1] if full else [0, -1]):
            if not -L <= i < L:
                continue
            for np_int in ((False, True) if full else (False,)):
                idx = np.int64(i) if np_int else i
                rest = m.axes[:k] + m.axes[k + 1:]
                fixed = dict(m.fixed)
                fixed.update(m.axes[k].src[i])
                mm = m.new(rest, fixed)
                add("[%s%r]" % (":," * k, idx),
                    lambda a, k=k, idx=idx: a[(slice(None),) * k + (idx,)], mm)
                if full and not np_int:
                    add("[...,%r,%s]" % (idx, ":," * (n - 1 - k)),
                        lambda a, k=k, idx=idx: a[(Ellipsis, idx) +
                                                  (slice(None),) *
                                                  (n - 1 - k)], mm)
                    if k == 0:
                        add("[%r]" % i, lambda a, idx=idx: a[idx], mm)
                        add("[%r,...]" % i,
                            lambda a, idx=idx: a[idx, ...], mm)
        for s in (SLICES if full else SLICES[:4]):
            axes = list(m.axes)
            axes[k] = m.axes[k].pick(list(range(L))[s])
            add("[%s%r]" % (":," * k, s),
                lambda a, k=k, s=s: a[(slice(None),) * k + (s,)], m.new(axes))
            if full and k == 0:
                add("[%r bare]" % (s,), lambda a, s=s: a[s], m.new(axes))
            if full and k == n - 1 and n > 1:
                add("[...,%r]" % (s,), lambda a, s=s: a[..., s], m.new(axes))
        # list / array / boolean indexing on one axis
        if L >= 2:
            lists = [[L - 1, 0], [0]] if full else [[L - 1, 0]]
            for li in lists:
                axes = list(m.axes)
                axes[k] = m.axes[k].pick(li)
                add("[%s%r]" % (":," * k, li),
                    lambda a, k=k, li=li: a[(slice(None),) * k + (li,)],
                    m.new(axes))
                add("take(%r, %d)" % (li, k),
                    lambda a, k=k, li=li: a.take(li, axis=k), m.new(axes))
                if full:
                    over = [i + L for i in li]
                    add("take(%r, %d, wrap)" % (over, k),
                        lambda a, k=k, li=over: a.take(
                            li, axis=k, mode="wrap"), m.new(axes))
                    caxes = list(m.axes)
                    caxes[k] = m.axes[k].pick([L - 1, 0, 0])
                    add("take(%r, %d, clip)" % ([L + 3, 0, -2], k),
                        lambda a, k=k, L=L: a.take(
                            [L + 3, 0, -2], axis=k, mode="clip"),
                        m.new(caxes))
                    add("take(%r, name %d)" % (li, k),
                        lambda a, k=k, li=li: a.take(li,
                                                     axis=a.dims[k].name)
                        if names.count(names[k]) == 1
                        else a.take(li, axis=k), m.new(axes))
                    add("[%sarray%r]" % (":," * k, li),
                        lambda a, k=k, li=li: a[(slice(None),) * k +
                                                (np.array(li),)], m.new(axes))
        if names.count(names[k]) == 1 and L >= 1:
            masks = [[bool((i + 1) % 2) for i in range(L)],
                     [i == L - 1 for i in range(L)], [False] * L, [True] * L]
            for mask in masks if full else masks[:1]:
                axes = list(m.axes)
                axes[k] = m.axes[k].pick([i for i in range(L) if mask[i]])
                add("[mask%r along %r]" % (mask, names[k]),
                    lambda a, k=k, mask=mask: a[hfarray(mask, dtype=bool,
                                                        dims=(a.dims[k],))],
                    m.new(axes))
    # multi dimensional mask: collapses to an anonymous dim
    if n >= 2 and len(set(names)) == n and min(m.shape) > 0 and \
            not any(a.kind == "anon" for a in m.axes):
        pairs = [(0, 1), (n - 2, n - 1)]
        if full and n > 1:
            pairs.append((1, 0))
        for p, q in sorted(set(pairs)):
            Lp, Lq = len(m.axes[p]), len(m.axes[q])
            mask = [[(x + y) % 2 == 0 for y in range(Lq)] for x in range(Lp)]
            cells = [(x, y) for x in range(Lp) for y in range(Lq)
                     if mask[x][y]]
            src = []
            for x, y in cells:
                d = dict(m.axes[p].src[x])
                d.update(m.axes[q].src[y])
                src.append(d)
            lead = []
            for k in range(n):
                if k in (p, q):
                    break
                lead.append(m.axes[k])
            tail = [m.axes[k] for k in range(n) if k not in (p, q) and
                    m.axes[k] not in lead]
            anon = Axis("anon", "ANON1", range(len(cells)), src)
            add("[2d mask over %r,%r]" % (names[p], names[q]),
                lambda a, p=p, q=q, mask=mask:
                    a[hfarray(mask, dims=(a.dims[p], a.dims[q]))],
                m.new(lead + [anon] + tail))
    # squeeze
    add("squeeze()", lambda a: a.squeeze(),
        (lambda ones: m.new([x for x in m.axes if len(x) != 1],
                            dict(m.fixed, **{})) if not ones else
         squeeze_model(m, ones))([k for k in range(n)
                                  if len(m.axes[k]) == 1]))
    for k in range(n):
        if len(m.axes[k]) == 1:
            mm = squeeze_model(m, [k])
            add("squeeze(%d)" % k, lambda a, k=k: a.squeeze(k), mm)
            if full:
                add("squeeze(%d)" % (k - n), lambda a, k=k: a.squeeze(k - n),
                    mm)
                if names.count(names[k]) == 1:
                    add("np.squeeze(%r)" % k,
                        lambda a, k=k: np.squeeze(a, axis=k), mm)
                    add("squeeze(%r)" % names[k],
                        lambda a, k=k: a.squeeze(a.dims[k].name), mm)
    # add_dim
    if "new" not in names and min(m.shape + (1,)) > 0:
        for pos in ([0, 1, n, -1, -2] if full else [0, 1]):
            for lab in ([8], [8, 9], []) if full else ([8, 9],):
                if pos < -n - 1 or (pos < 0 and lab == []):
                    continue
                p = min(pos, n) if pos >= 0 else pos + n + 1
                axes = list(m.axes)
                axes.insert(p, Axis("sweep", "new", lab, [{} for _ in lab],
                                    "A"))
                add("add_dim(new%r, %d)" % (lab, pos),
                    lambda a, lab=lab, pos=pos: a.add_dim(
                        KINDS["sweep"]("new", lab, unit="A"), pos),
                    m.new(axes))
    # relabelling
    if full:
        for k in range(n):
            if names.count(names[k]) == 1 and len(m.axes[k]):
                axes = list(m.axes)
                o = m.axes[k]
                axes[k] = Axis("rep", "q", [100 + i for i in range(len(o))],
                               o.src, "s")

                def rep(a, k=k, L=len(o)):
                    a = a.copy()
                    a.replace_dim(a.dims[k], KINDS["rep"](
                        "q", [100 + i for i in range(L)], unit="s"))
                    return a
                if "q" not in names:
                    add("replace_dim(%d)" % k, rep, m.new(axes))
        # rows of the array
        if n:
            for i in (0, len(m.axes[0]) - 1):
                if 0 <= i < len(m.axes[0]):
                    fixed = dict(m.fixed)
                    fixed.update(m.axes[0].src[i])
                    add("row %d of the iteration" % i,
                        lambda a, i=i: list(a)[i], m.new(m.axes[1:], fixed))
        # other class and labels by name
        for k in range(n):
            if names.count(names[k]) == 1 and len(m.axes[k]) and \
                    m.axes[k].kind in ("sweep", "rep"):
                axes = list(m.axes)
                o = m.axes[k]
                other = "rep" if o.kind == "sweep" else "sweep"
                axes[k] = Axis(other, o.name, o.labels, o.src, o.unit, o.fmt)

                def recls(a, k=k, other=other):
                    a = a.copy()
                    a.replace_dim(a.dims[k].name, KINDS[other])
                    return a
                add("replace_dim(%r, %s)" % (o.name, other), recls,
                    m.new(axes))
        add("view", lambda a: a.view(), m)
        add("copy", lambda a: a.copy(), m)
        add("[...]", lambda a: a[...], m)
        add("hfarray()", lambda a: hfarray(a), m)
    return out


def squeeze_model(m, ks):
    fixed = dict(m.fixed)
    for k in ks:
        fixed.update(m.axes[k].src[0])
    return m.new([x for i, x in enumerate(m.axes) if i not in ks], fixed)


def history(depth, full, specs, dtype=float):
    def run(ctx):
        sp = ctx.choose("initial array", specs)
        a, m = build(SPECS[sp], dtype=dtype)
        check(ctx, a, m, "initial array")
        ctx.state(m.key())
        for d in range(depth):
            if not isinstance(a, hfarray):
                break
            ops = ops_for(m, full)
            k = ctx.choose("op", [_N(o[0], i) for i, o in enumerate(ops)]).i
            name, fn, mm = ops[k]
            before = np.array(a)
            b = fn(a)
            ctx.step()
            check(ctx, b, mm, name)
            check(ctx, a, m, "the operand after %s" % name)
            ctx.check(np.array_equal(before, np.array(a)), "operand changed")
            a, m = b, mm
            ctx.state(m.key())
        ctx.observe((np.asarray(a).tolist(),
                     [(d.name, dim_labels(d)) for d in a.dims]
                     if isinstance(a, hfarray) else None))
    return run


def tuples(ctx):
    """every index tuple: one entry per axis, optionally with an Ellipsis
    standing for a run of full slices, or truncated"""
    sp = ctx.choose("initial array", sorted(set(SPECS) - set(LARGE)))
    a, m = build(SPECS[sp])
    idx = []
    axes = []
    fixed = {}
    arrays = 0
    for k, ax in enumerate(m.axes):
        L = len(ax)
        options = [i for i in (0, -1, 1) if -L <= i < L] + \
            [np.int64(0), slice(None), slice(1, None),
             slice(None, None, -1), slice(-1, None), slice(0, 1)]
        if not arrays:
            mask = [n % 2 == 0 for n in range(L)]
            options += [[L - 1, 0], np.array([0]), [], mask, np.array(mask),
                        _N("hfarray mask", hfarray(mask, dims=[a.dims[k]])),
                        _N("hfarray of int", hfarray(
                            [L - 1, 0, 0], dims=[DimRep("other", [7, 8, 9])])),
                        (np.array([False] * L))]
        e = ctx.choose("index", options)
        if isinstance(e, _N):
            e = e.i
        idx.append(e)
        if isinstance(e, (list, np.ndarray)):
            arrays += 1
            picked = [int(n) for n in np.arange(L)[
                np.asarray(e, dtype=None if len(e) else int)]]
            axes.append(ax.pick(picked))
        elif isinstance(e, slice):
            axes.append(ax.pick(list(range(L))[e]))
        else:
            fixed.update(ax.src[e])
    full = [isinstance(e, slice) and e == slice(None) for e in idx]
    forms = [("tuple", tuple(idx))]
    n = len(idx)
    for i in range(n + 1):
        for j in range(i, n + 1):
            if all(full[i:j]):
                forms.append(("ellipsis", tuple(idx[:i]) + (Ellipsis,) +
                              tuple(idx[j:])))
    k = n
    while k > 1 and full[k - 1]:
        k -= 1
        forms.append(("short", tuple(idx[:k])))
    if k == 1:
        forms.append(("bare", idx[0]))
    mm = m.new(axes, fixed)
    for name, f in forms:
        b = a[f]
        ctx.step()
        if not mm.axes and isinstance(b, np.ndarray):
            ctx.check(b.shape == () and b.dims == (), "0-d result")
            b = b[()] if not isinstance(b, hfarray) else np.asarray(b)[()]
        check(ctx, b, mm, "%s index %r" % (name, f))
    check(ctx, a, m, "operand")
    ctx.state((sp, tuple(repr(i) for i in idx)))
    ctx.observe(np.asarray(a[tuple(idx)]).tolist())


class _N(object):
    def __init__(self, name, i):
        self.__mc_name__ = name
        self.i = i


def spaces(tier):
    q = tier == "quick"
    out = [
        Space("depth2-full", history(2, True, ["fr", "sq", "mat", "one",
                                               "vec"]),
              "all sequences of 2 operations, full alphabet, 5 arrays"),
        Space("depth3-core", history(3, False, ["fr", "mat"] if q else
                                     ["fr", "sq", "mat", "one", "vec"]),
              "all sequences of 3 operations, core alphabet"),
        Space("index-tuples", tuples, "every index tuple over all axes "
              "(integers, slices and one list, array or mask), in "
              "every equivalent spelling (ellipsis, truncated, bare)"),
        Space("complex-depth1", history(1, True, sorted(set(SPECS) - set(LARGE)),
                                        complex),
              "complex data, single operations"),
        Space("large", history(1, True, sorted(LARGE)),
              "five dimensions, up to 1100 labels, single operations"),
    ]
    if not q:
        out.append(Space("depth3-full", history(3, True, ["fr", "one",
                                                          "vec"]),
                         "all sequences of 3 operations, full alphabet"))
        out.append(Space("depth4-core", history(4, False, ["fr", "vec"]),
                         "all sequences of 4 operations, core alphabet"))
    return out
