# -*- coding: utf-8 -*-
"""C19: configuration files: values, lexical lookup, write and reload."""
import datetime
import io
import os
import sys
from decimal import Decimal as Dec

import yaml

from mc.engine import Space, Prune, Named
from hftools.file_formats.config import (
    Config, LexicalConfig, LexicalScopeDict, LexicalScopeList, MergedDicts,
    SIValue)
from hftools import path

ASSUMPTIONS = [
    "configuration files are YAML mappings in utf-8",
    "a lone unit m is metre, not milli",
    "values that are written are None, booleans, numbers, strings, dates, "
    "time intervals, SIValue, paths, lists and mappings of those"]

KINDS = [Named("Config", Config), Named("LexicalConfig", LexicalConfig)]
PREFIX = {"": 0, "d": -1, "c": -2, "m": -3, "u": -6, "n": -9, "p": -12,
          "f": -15, "a": -18, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15,
          "E": 18}
UNITS = ["", "Hz", "V", "A", "m", "s", "W", "Ohm"]
TD = datetime.timedelta
DT = datetime.datetime


class Quiet(object):
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *k):
        sys.stdout = self.old


def load(ctx, kind, text):
    fn = os.path.join(ctx.tmp, "c.yaml")
    with io.open(fn, "w", encoding="utf-8") as f:
        f.write(text)
    return kind.value(fn)


def close(a, b):
    return abs(a - b) <= 1e-12 * abs(b)


# -- values -----------------------------------------------------------------
PLACES = [Named("top", (u"a: %s\n", lambda c: c["a"])),
          Named("nested", (u"q:\n  a: %s\n", lambda c: c["q"]["a"])),
          Named("list", (u"q:\n  - 7\n  - %s\n", lambda c: c["q"][1])),
          Named("flow list", (u"q: [7, %s]\n", lambda c: c["q"][1]))]


def si_values(ctx):
    """number, prefix and unit"""
    kind = ctx.choose("kind", KINDS)
    num = ctx.choose("number", ["10", "2.5", "-3", "+4", ".5", "1e3",
                                "1.5E-3", "-2e+2", "0", "0.0"])
    pre = ctx.choose("prefix", sorted(PREFIX))
    unit = ctx.choose("unit", UNITS)
    gap = ctx.choose("gap", ["", " ", "  "])
    if pre == "" and unit == "":
        raise Prune("a plain number")
    if pre == "m" and unit == "":
        raise Prune("a lone m is metre")
    place = ctx.choose("place", PLACES if num == "2.5" else PLACES[:2])
    quoted = ctx.choose("style", ["plain", "quoted", "double quoted"]
                        if num in ("10", "1e3") else ["plain"])
    text = num + gap + pre + unit
    q = {"plain": "%s", "quoted": "'%s'", "double quoted": '"%s"'}[quoted]
    cfg = load(ctx, kind, place.value[0] % (q % text))
    got = place.value[1](cfg)
    ctx.step()
    if quoted != "plain":
        ctx.check(type(got) is str and got == text,
                  lambda: "string %r was read as %r" % (text, got))
        return
    want = float(Dec(num) * Dec(10) ** PREFIX[pre])
    ctx.check(isinstance(got, float), lambda: "%r read as %r" % (text, got))
    ctx.check(close(float(got), want),
              lambda: "%r read as %r, expected %r" % (text, got, want))
    ctx.check(getattr(got, "unit", 0) == (unit or None), lambda: "%r has "
              "unit %r" % (text, getattr(got, "unit", "no unit")))
    ctx.observe((text, float(got)))
    direct = SIValue(text)
    ctx.check(close(float(direct), want) and direct.unit == (unit or None),
              lambda: "SIValue(%r) is %r %r" % (text, direct, direct.unit))


RATIO = {"%": -2, "ppm": -6, "ppb": -9}


def ratios(ctx):
    """percent, ppm, ppb"""
    kind = ctx.choose("kind", KINDS)
    num = ctx.choose("number", ["10", "2.5", "-3", "+4", ".5", "1e3",
                                "1.5E-3", "-2e+2", "0", "100"])
    r = ctx.choose("ratio", sorted(RATIO))
    gap = ctx.choose("gap", ["", " ", "  "])
    place = ctx.choose("place", PLACES)
    cfg = load(ctx, kind, place.value[0] % (num + gap + r))
    got = place.value[1](cfg)
    want = float(Dec(num) * Dec(10) ** RATIO[r])
    ctx.step()
    ctx.check(isinstance(got, float) and close(got, want),
              lambda: "%s%s%s read as %r" % (num, gap, r, got))
    ctx.observe(got)


def intervals(ctx):
    """n days n hours n minutes n seconds, any of them"""
    kind = ctx.choose("kind", KINDS)
    parts = []
    total = Dec(0)
    for names, secs in [(("day", "days"), 86400), (("hour", "hours"), 3600),
                        (("minute", "minutes"), 60),
                        (("second", "seconds"), 1)]:
        num = ctx.choose(names[0], [None, "0", "1", "2.5", "30", "7."])
        if num is None:
            continue
        parts.append(num + ctx.choose("gap", ["", " "])
                     + (names[1] if num != "1" else names[0]))
        total += Dec(num.rstrip(".")) * secs
        if num == "7." and len(parts) > 1 or len(parts) > 3:
            raise Prune("bound")
    if not parts:
        raise Prune("nothing")
    sep = ctx.choose("sep", [" ", "  "] if len(parts) > 1 else [" "])
    text = sep.join(parts)
    place = ctx.choose("place", PLACES[:2] if len(parts) > 1 else PLACES)
    got = place.value[1](load(ctx, kind, place.value[0] % text))
    ctx.step()
    ctx.check(isinstance(got, TD), lambda: "%r read as %r" % (text, got))
    ctx.check(abs(got.total_seconds() - float(total)) < 1e-6,
              lambda: "%r read as %r" % (text, got))
    ctx.observe(got)


def moments(ctx):
    """time of day, dates"""
    kind = ctx.choose("kind", KINDS)
    place = ctx.choose("place", PLACES)
    if ctx.flag("date"):
        day = ctx.choose("day", ["2010-10-10", "1999-12-31", "2024-02-29"])
        t = ctx.choose("time", ["", " 08:30", " 00:00", " 23:59",
                                " 08:30:01", " 23:59:59", " 08:30:01.25"])
        text = day + t
        want = [int(x) for x in day.split("-")]
        if t:
            hm = t.strip().split(":")
            want += [int(hm[0]), int(hm[1])]
            if len(hm) > 2:
                s = Dec(hm[2])
                want += [int(s), int((s - int(s)) * 10 ** 6)]
            want = DT(*want)
        else:
            want = datetime.date(*want)
        got = place.value[1](load(ctx, kind, place.value[0] % text))
        ctx.step()
        ctx.check(type(got) is type(want) and got == want,
                  lambda: "%r read as %r" % (text, got))
        ctx.observe(got)
        return
    if place.__mc_name__ == "flow list":
        raise Prune("colons in flow lists")
    h = ctx.choose("hour", ["00", "01", "08", "09", "12", "19", "23"])
    m = ctx.choose("minute", ["00", "01", "08", "30", "59"])
    s = ctx.choose("second", ["", ":00", ":01", ":09", ":59"])
    text = h + ":" + m + s
    before = DT.now()
    got = place.value[1](load(ctx, kind, place.value[0] % text))
    after = DT.now()
    ctx.step()
    ctx.check(type(got) is DT, lambda: "%r read as %r" % (text, got))
    ctx.check((got.hour, got.minute, got.second, got.microsecond)
              == (int(h), int(m), int(s[1:] or 0), 0),
              lambda: "%r read as %r" % (text, got))
    ctx.check(before <= got <= after + TD(1), lambda: "%r is %r when it is "
              "%r" % (text, got, before))
    ctx.observe((got.hour, got.minute, got.second))


PLAIN = [(u"12:30 meeting", None), (u"at 12:30", None), (u"10 GHzz", None),
         (u"10 G Hz", None), (u"GHz", None),
         (u"10 % off", None), (u"5 days ago", None), (u"days", None),
         (u"2010-10-10 08:30 local", None), (u"12:30-13:30", None),
         (u"1.2.3", None), (u"1 hour walk", None), (u"x10 Hz", None),
         (u"10 hz", None), (u"\u00e5\u00e4\u00f6 \u20ac", None),
         (u"12:30:15.5 x", None),
         (u"10", 10), (u"-3", -3), (u"0x10", 16), (u"1.5", 1.5),
         (u"1.5e+3", 1500.0), (u"true", True), (u"no", False),
         (u"~", None.__class__), (u"", None.__class__),
         (u"null", None.__class__)]


def plain(ctx):
    """everything else is what YAML says"""
    kind = ctx.choose("kind", KINDS)
    text, want = ctx.choose("text", PLAIN)
    place = ctx.choose("place", PLACES[:3])
    got = place.value[1](load(ctx, kind, place.value[0] % text))
    if want is None:
        want = text
    elif want is type(None):
        want = None
    ctx.step()
    ctx.check(type(got) is type(want) and got == want,
              lambda: "%r read as %r" % (text, got))
    ctx.observe(got)


# -- lexical scope ----------------------------------------------------------
def build_text(levels):
    """nested levels: each a list of (own keys), reached through dict or
    list containers"""
    def node(i):
        own, via = levels[i]
        out = ["%s: %s%d" % (k, k, i) for k in own]
        if i + 1 < len(levels):
            inner = node(i + 1)
            for w in reversed(levels[i + 1][1]):
                inner = "[1, %s, 2]" % inner
            out.append("s%d: %s" % (i, inner))
        return "{" + ", ".join(out) + "}"
    return node(0)


def scope(ctx):
    """nearest enclosing mapping that defines the key"""
    n = ctx.choose("levels", [1, 2, 3])
    levels = []
    for i in range(n):
        via = ctx.choose("lists around", ["", "l", "ll"]) if i else ""
        levels.append((ctx.subset("keys", "ab"), via))
    cfg = load(ctx, KINDS[1], build_text(levels) + "\n")
    dicts = [cfg]
    model = [dict((k, "%s%d" % (k, 0)) for k in levels[0][0])]
    for i in range(1, n):
        x = dicts[-1]["s%d" % (i - 1)]
        for _ in levels[i][1]:
            x = x[1]
        dicts.append(x)
        model.append(dict((k, "%s%d" % (k, i)) for k in levels[i][0]))
    ops = []
    for i in range(ctx.choose("changes", [0, 1] if ctx.tier == "quick"
                              else [0, 1, 2])):
        where = ctx.choose("where", n)
        key = ctx.choose("key", "ac")
        if ctx.flag("delete"):
            if key not in model[where]:
                raise Prune("not there")
            del dicts[where][key]
            del model[where][key]
        else:
            dicts[where][key] = "new%d" % i
            model[where][key] = "new%d" % i
        ops.append((where, key))
    copied = ctx.choose("look through", ["itself", "copy"])
    for i in range(n):
        d = dicts[i]
        if copied == "copy":
            d = d.copy()
        own = sorted(k for k in d.keys() if not k.startswith("s"))
        ctx.check(own == sorted(model[i]), lambda: "keys %r expected %r"
                  % (own, sorted(model[i])))
        for key in "abcz":
            want = None
            for j in range(i, -1, -1):
                if key in model[j]:
                    want = model[j][key]
                    break
            try:
                got = d[key]
            except KeyError:
                got = None
            ctx.check(got == want, lambda: "level %d [%r] is %r, expected %r "
                      "(%s %r)" % (i, key, got, want, build_text(levels),
                                   ops))
            ctx.check(d.get(key) == want, lambda: "level %d get(%r) is %r, "
                      "expected %r" % (i, key, d.get(key), want))
            ctx.check(d.get(key, "dflt") == (want or "dflt"),
                      lambda: "level %d get(%r, dflt)" % (i, key))
            ctx.check((key in d) == (want is not None), lambda: "level %d "
                      "%r in is %r" % (i, key, key in d))
            ctx.step(4)
    std = cfg.convert_to_standard()

    def types(x):
        if isinstance(x, dict):
            ctx.check(type(x) is dict, lambda: "%r left in standard data"
                      % type(x))
            for v in x.values():
                types(v)
        elif isinstance(x, list):
            ctx.check(type(x) is list, lambda: "%r left in standard data"
                      % type(x))
            for v in x:
                types(v)
    types(std)
    ctx.state((levels, ops))
    ctx.observe((levels, ops, std))


def merged(ctx):
    """the last mapping wins, then the enclosing one"""
    n = ctx.choose("dicts", [1, 2, 3])
    ds = []
    for i in range(n):
        ds.append(dict((k, "%s%d" % (k, i)) for k in ctx.subset("keys",
                                                                "ab")))
    objs = []
    for d in ds:
        objs.append(LexicalScopeDict(d) if ctx.flag("lexical") else dict(d))
    m = MergedDicts(*objs)
    par = ctx.choose("parent", ["none", "empty", "full", "empty in full"])
    outer = {}
    if par != "none":
        p = LexicalScopeDict()
        if par != "empty":
            outer = {"a": "ap", "c": "cp"}
        if par == "full":
            p.update(outer)
        elif par == "empty in full":
            p.parent = LexicalScopeDict(outer)
        m.parent = p
    inner = LexicalScopeDict(b="in")
    inner.parent = m
    what = ctx.choose("look through", ["itself", "copy", "inner dict"])
    obj = {"itself": m, "copy": m.copy(), "inner dict": inner}[what]
    for key in "abcz":
        want = outer.get(key)
        for d in ds:
            want = d.get(key, want)
        if what == "inner dict" and key == "b":
            want = "in"
        try:
            got = obj[key]
        except KeyError:
            got = None
        ctx.check(got == want, lambda: "[%r] is %r, expected %r"
                  % (key, got, want))
        ctx.check((key in obj) == (want is not None),
                  lambda: "%r in is %r" % (key, key in obj))
        ctx.step(2)
    keys = set()
    for d in ds:
        keys.update(d)
    ctx.check(set(m.keys()) == keys, lambda: "keys %r" % m.keys())
    ctx.observe((ds, par, what))


# -- write and reload -------------------------------------------------------
VALUES = [
    Named("None", None), Named("True", True), Named("int", -17),
    Named("big int", 10 ** 20), Named("float", 2.5), Named("1e5", 1e5),
    Named("1e-7", 1e-7), Named("1e22", 1e22), Named("0.1+0.2", 0.1 + 0.2),
    Named("inf", float("inf")), Named("-0.0", -0.0),
    Named("str", u"text"), Named("empty str", u""),
    Named("str 1 GHz", u"1 GHz"), Named("str 10%", u"10%"),
    Named("str 12:30", u"12:30"), Named("str 2 days", u"2 days"),
    Named("str date", u"2014-01-02"), Named("str short date",
                                            u"2014-01-02 12:30"),
    Named("str yes", u"yes"), Named("str null", u"null"),
    Named("str 1e5", u"1e5"), Named("str 10", u"10"),
    Named("str utf8", u"\u00e5\u20ac\U0001f600"),
    Named("str lines", u"a\nb\n\n c"), Named("str colon", u"a: b # c"),
    Named("str spaces", u"  x  "), Named("str tab", u"a\tb"),
    Named("SI 1 GHz", SIValue("1 GHz")), Named("SI 3 ms", SIValue("3 ms")),
    Named("SI 5 km", SIValue("5 km")), Named("SI 2.5 mm", SIValue("2.5mm")),
    Named("SI tiny", SIValue("1.2345e-17 Ohm")),
    Named("SI no unit", SIValue("10")), Named("SI 3 k", SIValue("3 k")),
    Named("SI -1 EHz", SIValue("-1 EHz")),
    Named("td 0", TD(0)), Named("td 1d", TD(1)),
    Named("td mix", TD(2, 3 * 3600 + 4 * 60 + 5)),
    Named("td us", TD(0, 1, 1)), Named("td only us", TD(microseconds=250)),
    Named("td -1s", TD(seconds=-1)), Named("td -2d", TD(-2)),
    Named("td big", TD(4000, 86399, 999999)),
    Named("dt", DT(2014, 1, 2, 12, 30, 5)), Named("dt minute",
                                                  DT(2014, 1, 2, 12, 30)),
    Named("dt midnight", DT(2014, 1, 2)),
    Named("dt us", DT(2014, 1, 2, 12, 30, 5, 42)),
    Named("date", datetime.date(2014, 1, 2)),
    Named("path", path(u"dir/file.txt")), Named("path utf8",
                                                path(u"\u00e5/f")),
    Named("empty list", []), Named("empty dict", {}),
    Named("list", [1, u"b", None]),
    Named("list of lists", [[1, 2], [], [[3]]]),
    Named("dict in list", [{u"x": [1, {u"y": u"z"}]}]),
    Named("dict", {u"x": {u"y": SIValue("1 GHz")}, 5: TD(1), u"": 2}),
]

WHERE = [Named("top", lambda v: {"k": v}),
         Named("dict", lambda v: {"d": {"k": v, "e": 1}}),
         Named("list", lambda v: {"l": [0, v]}),
         Named("deep", lambda v: {"l": [{"m": [v]}], "n": 0}),
         Named("twice", lambda v: {"a": v, "b": [v]})]


def canon(x):
    if isinstance(x, dict):
        return ("dict", sorted(((canon(k), canon(v)) for k, v in x.items()),
                               key=repr))
    if isinstance(x, list):
        return ("list", [canon(v) for v in x])
    if isinstance(x, SIValue):
        if x.unit is None:
            return ("float", repr(float(x)))
        return ("SI", repr(float(x)), x.unit)
    if isinstance(x, str):
        return ("str", str(x))
    return (type(x).__name__, repr(x))


def deep(x):
    """independent structure (paths and SI values are immutable)"""
    if isinstance(x, dict):
        return dict((k, deep(v)) for k, v in x.items())
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


def roundtrip(ctx):
    """what is written comes back"""
    kind = ctx.choose("kind", KINDS)
    v = ctx.choose("value", VALUES).value
    where = ctx.choose("where", WHERE)
    data = where(v)
    fn = os.path.join(ctx.tmp, "c.yaml")
    with Quiet():
        cfg = kind.value(fn)
    ctx.check(len(cfg) == 0, lambda: "missing file gives %r" % cfg)
    cfg.update(deep(data))
    want = canon(data)
    for i in range(2):
        target = ctx.choose("target", ["own file", "other file"])
        if target == "own file":
            cfg.write()
            name = fn
        else:
            name = os.path.join(ctx.tmp, "other%d.yaml" % i)
            cfg.write(name)
        ctx.check(canon(dict(cfg)) == want, "write changed the data")
        how = ctx.choose("read", ["reload", "Config", "LexicalConfig"])
        if how == "reload":
            if name != fn:
                raise Prune("reload reads the own file")
            cfg.reload_settings()
            new = cfg
        else:
            new = {"Config": Config, "LexicalConfig": LexicalConfig}[how](
                name)
        got = canon(dict(new))
        ctx.check(got == want, lambda: "wrote %r, read %r" % (want, got))
        ctx.step()
        cfg = new
        fn = name
    ctx.state((kind.__mc_name__, want))
    ctx.observe(want)


def deep_scope(ctx):
    """lookup through many levels"""
    n = ctx.choose("levels", [5, 8, 12])
    at = ctx.choose("defined at", range(n))
    again = ctx.choose("and at", [None] + list(range(at)))
    via = ctx.choose("lists around", ["", "l", "lll"])
    levels = [((["a"] if i in (at, again) else []) + ["k%d" % i],
               via if i else "") for i in range(n)]
    cfg = load(ctx, KINDS[1], build_text(levels) + "\n")
    d = cfg
    for i in range(n):
        if i:
            d = d["s%d" % (i - 1)]
            for _ in via:
                d = d[1]
        for key, where in [("a", at), ("a", again)] + [
                ("k%d" % j, j) for j in range(n)]:
            if key == "a":
                where = [j for j in (at, again) if j is not None and j <= i]
                where = max(where) if where else None
            elif where > i:
                where = None
            want = None if where is None else "%s%d" % (key, where)
            ctx.check(d.get(key) == want, lambda: "level %d: %s is %r, "
                      "expected %r" % (i, key, d.get(key), want))
            ctx.step()
    ctx.state((n, at, again, via))
    ctx.observe((n, at, again, via))


LARGE = [
    Named("130 keys", lambda v: dict(("k%d" % i, v) for i in range(130))),
    Named("260 elements", lambda v: dict(q=[v] * 260)),
    Named("20 levels", lambda v: nest(v, 20)),
    Named("long key", lambda v: {"x" * 120: v, "y" * 1000: [v]}),
    Named("list of mappings", lambda v: dict(q=[dict(a=v, b=[i, v])
                                                for i in range(20)]))]
LONG = [Named("SI", SIValue("1.5 GHz")), Named("float", 0.1),
        Named("text", "a b"), Named("long text", "word " * 100 + "end"),
        Named("long word", "w" * 1500), Named("lines", "a line\n" * 20),
        Named("big", 2 ** 70), Named("date", DT(2014, 5, 6, 7, 8, 9)),
        Named("interval", TD(3, 7200))]


def nest(v, n):
    out = dict(a=v)
    for i in range(n):
        out = dict(a=v, b=out) if i % 2 else dict(b=[out, v])
    return out


def large(ctx):
    """long files"""
    kind = ctx.choose("kind", KINDS)
    v = ctx.choose("value", LONG).value
    data = ctx.choose("structure", LARGE)(v)
    fn = os.path.join(ctx.tmp, "c.yaml")
    with Quiet():
        cfg = kind.value(fn)
    cfg.update(deep(data))
    want = canon(data)
    for i in range(2):
        cfg.write()
        ctx.check(canon(dict(cfg)) == want, "write changed the data")
        cfg = kind.value(fn)
        got = canon(dict(cfg))
        ctx.check(got == want, lambda: "wrote %.300r, read %.300r"
                  % (want, got))
        ctx.step()
    ctx.state(want)
    ctx.observe(want)


def keys(ctx):
    """keys that look like something else"""
    kind = ctx.choose("kind", KINDS)
    v = ctx.choose("key", [u"1 GHz", u"10%", u"12:30", u"2 days", u"yes",
                           u"", u"\u00e5", u"a: b", u"null", u"10", 10, 2.5,
                           None, True, datetime.date(2014, 1, 2)])
    level = ctx.choose("level", ["top", "nested", "in list"])
    data = {v: u"value"}
    if level == "nested":
        data = {u"n": data}
    elif level == "in list":
        data = {u"n": [data]}
    fn = os.path.join(ctx.tmp, "c.yaml")
    with Quiet():
        cfg = kind.value(fn)
    cfg.update(deep(data))
    cfg.write()
    again = kind.value(fn)
    ctx.step()
    ctx.check(canon(dict(again)) == canon(data), lambda: "wrote %r, read %r"
              % (data, again))
    ctx.observe(repr(v))


BAD = [u"? [1, 2]\n: 3\n", u"? {a: 1}\n: 3\n", u"a: [1, 2\n", u"a: {b: 1\n",
       u"a: 'x\n", u"a: b: c\n", u"a: 1\n b: 2\n", u"a: *x\n", u"\t- a\n",
       u"a: !!python/object:os.system {}\n", u"a: !!map [1]\n",
       u"a: !!seq {b: 1}\n"]


def refused(ctx):
    """files that are not valid are refused as such by both classes, and are
    left alone"""
    kind = ctx.choose("kind", KINDS)
    text = ctx.choose("text", BAD)
    level = ctx.choose("level", ["top", "nested"])
    if level == "nested":
        text = u"n:\n" + u"".join(u"  %s\n" % x for x in text.splitlines())
    try:
        cfg = load(ctx, kind, text)
    except yaml.YAMLError as exc:
        ctx.observe(type(exc).__name__)
    else:
        ctx.fail("%r was read as %r" % (text, cfg))
    ctx.step()
    with io.open(os.path.join(ctx.tmp, "c.yaml"), encoding="utf-8") as fil:
        ctx.check(fil.read() == text, "the file was changed")
    ctx.state((repr(kind), text))


class Opaque(object):
    pass


def histories(ctx):
    """loads, changes, writes (some fail), changes by others"""
    kind = ctx.choose("kind", KINDS)
    fn = os.path.join(ctx.tmp, "c.yaml")
    disk = ctx.choose("file", [None, u"", u"# only a comment\n",
                               u"a: 1\nb: {c: 2 GHz}\n"])
    ondisk = {}
    if disk is not None:
        with io.open(fn, "w", encoding="utf-8") as f:
            f.write(disk)
        if "a" in disk.split(":")[0]:
            ondisk = {"a": 1, "b": {"c": SIValue("2 GHz")}}
    if disk and disk.startswith("#"):
        ondisk = {}
    with Quiet():
        cfg = kind.value(fn)
    mem = deep(ondisk)
    exists = disk is not None
    trail = []
    for i in range(ctx.choose("depth", [2, 4] if ctx.tier == "quick"
                              else [2, 5])):
        op = ctx.choose("op", ["set", "nest", "delete", "write", "reload",
                               "other program writes", "bad write",
                               "file removed"])
        trail.append(op)
        if op == "set":
            cfg["x"] = mem["x"] = i
        elif op == "nest":
            cfg["b"] = {"c": [i, {"d": u"\u00e5"}]}
            mem["b"] = {"c": [i, {"d": u"\u00e5"}]}
        elif op == "delete":
            if not mem:
                raise Prune("nothing to delete")
            k = sorted(mem)[0]
            del mem[k]
            del cfg[k]
        elif op == "write":
            cfg.write()
            ondisk = deep(mem)
            exists = True
        elif op == "reload":
            with Quiet():
                cfg.reload_settings()
            mem = deep(ondisk) if exists else {}
        elif op == "other program writes":
            with io.open(fn, "w", encoding="utf-8") as f:
                f.write(u"z: %d\n" % i)
            ondisk = {"z": i}
            exists = True
        elif op == "file removed":
            if not exists:
                raise Prune("no file")
            os.remove(fn)
            exists = False
        else:
            old = io.open(fn, "rb").read() if exists else None
            cfg["zzz"] = [1, Opaque()]
            try:
                cfg.write()
            except Exception:
                pass
            else:
                ctx.fail("an object that can not be written was written")
            del cfg["zzz"]
            ctx.check(os.path.exists(fn) == exists,
                      "failed write made a file")
            if exists:
                ctx.check(io.open(fn, "rb").read() == old,
                          lambda: "failed write changed the file: %r"
                          % trail)
        ctx.step()
        ctx.check(canon(dict(cfg)) == canon(mem), lambda: "%r: %r expected %r"
                  % (trail, cfg, mem))
        if exists:
            got = Config(fn)
            ctx.check(canon(dict(got)) == canon(ondisk), lambda: "%r: file "
                      "has %r expected %r" % (trail, got, ondisk))
        ctx.state((canon(mem), exists and canon(ondisk)))
    ctx.observe(trail)


def spaces(tier):
    return [
        Space("si_values", si_values, "prefix x unit x number x place x style",
              tmpdir=True),
        Space("ratios", ratios, "percent, ppm, ppb", tmpdir=True),
        Space("intervals", intervals, "all mixes of days/hours/minutes/seconds",
              tmpdir=True),
        Space("moments", moments, "time of day and dates", tmpdir=True),
        Space("plain", plain, "text that only resembles a value", tmpdir=True),
        Space("scope", scope, "lexical lookup in all small nested files",
              tmpdir=True),
        Space("merged", merged, "merged mappings"),
        Space("roundtrip", roundtrip, "write/reload twice, all values and "
              "places", tmpdir=True),
        Space("deep_scope", deep_scope, "lexical lookup through 12 levels",
              tmpdir=True),
        Space("large", large, "long keys, texts, lists, deep nesting",
              tmpdir=True),
        Space("keys", keys, "keys that look like values", tmpdir=True),
        Space("refused", refused, "invalid files", tmpdir=True),
        Space("histories", histories, "load/change/write/reload histories with "
              "failing writes", tmpdir=True),]
