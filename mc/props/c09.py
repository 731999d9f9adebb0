# -*- coding: utf-8 -*-
"""C09: DataDict is a dictionary that remembers the order of its keys."""
import numpy as np

from mc.engine import Space, Named
from mc.labelled import hfarray
from hftools.dataset import DimSweep
from hftools.dataset.dataset import DataDict

ASSUMPTIONS = ["keys are not names of DataDict's own methods or attributes"]

KEYS = ["a", "b", "c"]


def val(n):
    return hfarray([float(n), n + .5], dims=(DimSweep("f", [1., 2.]),))


def num(v):
    return float(np.asarray(v)[0])


def o_set(k):
    def f(d, m, n):
        d[k] = val(n)
        m[k] = n
    return Named("d[%r]=" % k, f)


def o_setattr(k):
    def f(d, m, n):
        setattr(d, k, val(n))
        m[k] = n
    return Named("d.%s=" % k, f)


def o_del(k):
    def f(d, m, n):
        del d[k]
        m.pop(k, None)
    return Named("del d[%r]" % k, f)


def o_delattr(k):
    def f(d, m, n):
        delattr(d, k)
        m.pop(k, None)
    return Named("del d.%s" % k, f)


def o_setdefault(k):
    def f(d, m, n):
        r = d.setdefault(k, val(n))
        m.setdefault(k, n)
        if num(r) != m[k]:
            raise AssertionError("setdefault returned %r" % r)
    return Named("setdefault %s" % k, f)


def o_setagain(k):
    def f(d, m, n):
        if k in m:
            r = d.setdefault(k, d[k])
            if num(r) != m[k]:
                raise AssertionError("setdefault returned %r" % r)
    return Named("setdefault %s of itself" % k, f)


def o_same(a, b):
    """the same object under two keys"""
    def f(d, m, n):
        if a in m:
            d[b] = d[a]
            m[b] = m[a]
    return Named("d[%r]=d[%r]" % (b, a), f)


def o_updateself():
    def f(d, m, n):
        d.update(d)
    return Named("update itself", f)


def o_pop(k, default):
    def f(d, m, n):
        if k in m:
            r = num(d.pop(k, *default))
            w = m.pop(k)
        elif default:
            r, w = d.pop(k, *default), default[0]
        else:
            try:
                d.pop(k)
            except KeyError:
                return
            raise AssertionError("pop of a missing key worked")
        if r != w:
            raise AssertionError("pop returned %r, expected %r" % (r, w))
    return Named("pop %s %r" % (k, default), f)


def o_popitem():
    def f(d, m, n):
        if not m:
            try:
                d.popitem()
            except KeyError:
                return
            raise AssertionError("popitem of an empty DataDict worked")
        k, v = d.popitem()
        # any key may go; its value has to be right
        if k not in m or m.pop(k) != num(v):
            raise AssertionError("popitem returned %r" % k)
    return Named("popitem", f)


def o_clear():
    def f(d, m, n):
        d.clear()
        m.clear()
    return Named("clear", f)


def o_update(keys, how):
    def f(d, m, n):
        pairs = [(k, val(n + i)) for i, k in enumerate(keys)]
        if how == "dict":
            d.update(dict(pairs))
        elif how == "pairs":
            d.update(pairs)
        else:
            d.update(**dict(pairs))
        for i, k in enumerate(keys):
            m[k] = n + i
    return Named("update %s %r" % (how, keys), f)


def o_rename(a, b):
    def f(d, m, n):
        if a not in m:
            try:
                d.rename(a, b)
            except KeyError:
                return
            raise AssertionError("rename of a missing key worked")
        d.rename(a, b)
        if a == b:
            return
        items = list(m.items())
        v = m[a]
        m.clear()
        if b in [k for k, _ in items]:
            for k, x in items:
                if k != a:
                    m[k] = v if k == b else x
        else:
            for k, x in items:
                m[b if k == a else k] = x
    return Named("rename %s %s" % (a, b), f)


def ops():
    out = [o_set(k) for k in KEYS]
    out += [o_setattr("a"), o_setattr("b")]
    out += [o_del(k) for k in KEYS] + [o_delattr("a")]
    out += [o_setdefault("a"), o_setdefault("c")]
    out += [o_setagain("a"), o_setagain("b"), o_same("a", "b"),
            o_same("b", "b"), o_updateself()]
    out += [o_pop("a", ()), o_pop("b", ()), o_pop("c", (None,))]
    out += [o_popitem(), o_clear()]
    out += [o_update(["c", "a"], "dict"), o_update(["b"], "pairs"),
            o_update(["a"], "kw")]
    out += [o_rename("a", "b"), o_rename("b", "z"), o_rename("z", "a"),
            o_rename("c", "c")]
    return out


def verify(ctx, d, m, what, ordered=True):
    keys = list(m)
    got = dict(keys=list(d.keys()), iter=list(iter(d)),
               items=[(k, num(v)) for k, v in d.items()],
               iteritems=[(k, num(v)) for k, v in d.iteritems()],
               values=[num(v) for v in d.values()], len=len(d))
    want = dict(keys=keys, iter=keys, items=list(m.items()),
                iteritems=list(m.items()), values=list(m.values()),
                len=len(m))
    if not ordered:
        # order of items given to the constructor is not specified, but all
        # ways of listing them have to agree
        ctx.check(got["keys"] == got["iter"] and
                  got["items"] == got["iteritems"] and
                  [k for k, _ in got["items"]] == got["keys"] and
                  [v for _, v in got["items"]] == got["values"],
                  lambda: "%s: listings differ: %r" % (what, got))
        for x in (got, want):
            for k in ("keys", "iter", "items", "iteritems", "values"):
                x[k] = sorted(x[k])
    for k in want:
        ctx.check(got[k] == want[k], lambda: "%s: %s is %r, expected %r"
                  % (what, k, got[k], want[k]))
    for k in KEYS + ["z"]:
        ctx.check((k in d) == (k in m), "%s: %s in d" % (what, k))
        ctx.check((d.get(k) is not None) == (k in m), "%s: get" % what)
        if k in m:
            ctx.check(num(d[k]) == m[k] and num(getattr(d, k)) == m[k],
                      "%s: value of %s" % (what, k))
        else:
            for f, e in ((lambda: d[k], KeyError),
                         (lambda: getattr(d, k), AttributeError)):
                try:
                    f()
                    ctx.fail("%s: missing %s found" % (what, k))
                except e:
                    pass


ODD = ["A", "a ", "S[1,2]", "1", "", "a.b", "x" * 300, "\u00e5", "keys_"]


def histories(depth, starts=("empty", "constructed", "filled")):
    def fn(ctx):
        start = ctx.choose("start", list(starts))
        if start == "empty":
            d, m = DataDict(), {}
        elif start == "constructed":
            d = DataDict([("b", val(1)), ("a", val(2))])
            m = {"b": 1, "a": 2}
        else:
            d, m = DataDict(), {}
            keys = ["c", "a", "b"]
            if start == "many":
                keys = ["k%d" % (n * 37 % 500) for n in range(500)]
                keys[123], keys[250], keys[499] = "c", "a", "b"
            elif start == "odd":
                keys = ODD[:5] + keys + ODD[5:]
            for n, k in enumerate(keys):
                d[k] = val(200 + n)
                m[k] = 200 + n
        ordered = start != "constructed"
        verify(ctx, d, m, "start", ordered)
        alphabet = ops()
        extra = [Named("copy", None), Named("view", None)]
        kept = []
        for k in range(depth):
            op = ctx.choose("op", alphabet + extra)
            ctx.step()
            if op.value is None:
                kept.append((d, dict(m)))
                d = getattr(d, op.__mc_name__)()
                ctx.check(type(d) is DataDict, "class of %s"
                          % op.__mc_name__)
            else:
                try:
                    op(d, m, 10 * (k + 1))
                except AssertionError as exc:
                    ctx.fail("%s: %s" % (op.__mc_name__, exc))
            verify(ctx, d, m, "after %s" % op.__mc_name__, ordered)
            for e, n in kept:
                verify(ctx, e, n, "after %s: original" % op.__mc_name__,
                       ordered)
            ctx.state(list(m.items()))
        ctx.observe(list(m.items()))
    return fn


def formats(ctx):
    """outputformat is set for all values"""
    n = ctx.choose("number", [0, 1, 2, 3])
    fmt = ctx.choose("format", ["%.3f", "%d"])
    made = ctx.choose("made by", ["setting", "list", "keywords"])
    pairs = [(k, val(1)) for k in KEYS[:n]]
    d = DataDict() if made == "setting" else \
        DataDict(pairs) if made == "list" else DataDict(**dict(pairs))
    if made == "setting":
        for k, v in pairs:
            d[k] = v
    d.outputformat = fmt
    ctx.step()
    ctx.check(d.outputformat == (fmt if n else "%.16e"), "outputformat")
    ctx.check(all(v.outputformat == fmt for v in d.values()), "of values")
    ctx.check(list(d.keys()) == KEYS[:n], "keys")
    ctx.state((n, fmt, made))
    ctx.observe((n, fmt))


def spaces(tier):
    return [Space("histories", histories(3 if tier == "quick" else 4),
                  "all sequences of operations on 3 starting points"),
            Space("many", histories(1 if tier == "quick" else 2,
                                    ["many", "odd"]),
                  "dictionaries with 500 keys and with odd keys"),
            Space("formats", formats, "outputformat of a DataDict")]
