# -*- coding: utf-8 -*-
"""C23: ordering of names, conversions of text, lists and the log."""
import io
import datetime
import itertools
import os
import re
import sys

import numpy as np

from mc.engine import Space, Prune, Named
import hftools.utils as hu
import hftools.logger as hl
from hftools.dataset import hfarray, DimSweep

ASSUMPTIONS = [
    "numbers in names are written with the digits 0-9",
    "text is converted by to_numeric, other objects than numbers and text "
    "are not considered"]


# -- order of names ---------------------------------------------------------
def before(a, b):
    """-1, 0, 1 by the first difference: numbers by value and before text"""
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i].isdigit() and b[j].isdigit():
            k = i
            while k < len(a) and a[k].isdigit():
                k += 1
            m = j
            while m < len(b) and b[m].isdigit():
                m += 1
            x, y = int(a[i:k]), int(b[j:m])
            if x != y:
                return -1 if x < y else 1
            i, j = k, m
        elif a[i].isdigit() != b[j].isdigit():
            return -1 if a[i].isdigit() else 1
        else:
            # text up to the next number is compared as a whole
            k = i
            while k < len(a) and not a[k].isdigit():
                k += 1
            m = j
            while m < len(b) and not b[m].isdigit():
                m += 1
            if a[i:k] != b[j:m]:
                return -1 if a[i:k] < b[j:m] else 1
            i, j = k, m
    if i < len(a):
        return 1
    if j < len(b):
        return -1
    return 0


CHARS = "a1029."


def words(n):
    for k in range(n + 1):
        for t in itertools.product(CHARS, repeat=k):
            yield "".join(t)


WORDS = {2: list(words(2)), 3: list(words(3))}


def order_pairs(ctx):
    """all pairs of short names"""
    a = ctx.choose("first", WORDS[3])
    others = WORDS[3]
    for b in others:
        got = hu.lex_order([a, b])
        c = before(a, b)
        want = [a, b] if c < 0 else [b, a] if c > 0 else sorted([a, b])
        ctx.check(list(got) == want, lambda: "lex_order(%r) is %r, expected "
                  "%r" % ([a, b], got, want))
        ctx.step()
    ctx.observe(a)


NAMES = ["a2", "a10", "a1b2", "b", "10", "9", "a01", "x_-5.s2p", "x_20.s2p"]


def order_lists(ctx):
    """every order of the same names gives the same list"""
    names = ctx.subset("names", NAMES)
    if not names or len(names) > 5:
        raise Prune("bound")
    ref = None
    for p in itertools.permutations(names):
        arg = list(p)
        got = list(hu.lex_order(arg))
        ctx.check(arg == list(p), "argument was modified")
        ctx.check(sorted(got) == sorted(names), lambda: "%r became %r"
                  % (p, got))
        for x, y in zip(got, got[1:]):
            ctx.check(before(x, y) <= 0, lambda: "%r before %r" % (x, y))
        ref = ref or got
        ctx.check(got == ref, lambda: "order depends on input: %r" % (p,))
        ctx.step()
    ctx.observe(ref)


def long_lists(ctx):
    """long lists of long names"""
    n = ctx.choose("names", [30, 257, 2000])
    kind = ctx.choose("kind", ["m%d.txt", "m%05d", "%d", "run %d of 9.s2p",
                               "x" * 200 + "%d", "10000000000000000000%d"])
    step = ctx.choose("step", [7, 13, 1])
    names = [kind % (k * step % n) for k in range(n)]
    want = [kind % k for k in range(n)]
    if kind.startswith("1000"):
        want.sort(key=int)
    if step == 1:
        names.reverse()
    got = list(hu.lex_order(names))
    ctx.check(got == want, lambda: "lex_order differs: %r"
              % [p for p in zip(got, want) if p[0] != p[1]][:3])
    ctx.step()
    twice = names + names[::-1]
    ctx.check(list(hu.uniq(twice)) == sorted(names), "uniq")
    ctx.check(list(hu.stable_uniq(twice)) == names, "stable_uniq")
    nested = [[x, (x, [x])] for x in names]
    ctx.check(hu.flatten(nested) == [x for x in names for _ in range(3)],
              "flatten")
    ctx.step(3)
    ctx.state((n, kind, step))
    ctx.observe((n, kind, step))


def digit_counts(ctx):
    """numbers of any length are compared by value"""
    pre = ctx.choose("before", ["", "m", "meas 2 of "])
    post = ctx.choose("after", ["", ".txt", "_3"])
    n = ctx.choose("digits", range(1, 26))
    ctx.step()
    for first in "19":
        a = first + "0" * (n - 1)
        for k in range(1, 26):
            for last in ("1", "9", "5" * k):
                b = last[0] + "0" * (k - 1) if len(last) == 1 else last
                x, y = pre + a + post, pre + b + post
                got = list(hu.lex_order([x, y]))
                want = [x, y] if int(a) <= int(b) else [y, x]
                ctx.check(got == want, lambda: "lex_order(%r) is %r"
                          % ([x, y], got))
                ctx.step()
    ctx.state((pre, post, n))
    ctx.observe((pre, post, n))


def globbing(ctx):
    """matching files in the order of their numbers"""
    have = ctx.subset("files", ["d1.txt", "d2.txt", "d10.txt", "e1.txt",
                                "d3.dat"])
    for fn in have:
        open(os.path.join(ctx.tmp, fn), "w").close()
    pat = ctx.choose("pattern", ["d*.txt", "*", "d?.txt", "d1.txt",
                                 "zzz*", "[de]1.txt"])
    got = [os.path.basename(x)
           for x in hu.glob(os.path.join(ctx.tmp, pat))]
    rx = re.compile("^" + pat.replace(".", "[.]").replace("*", ".*")
                    .replace("?", ".") + "$")
    rx = re.compile(rx.pattern.replace("[[de]", "[de"))
    rank = ["d1.txt", "d2.txt", "d3.dat", "d10.txt", "e1.txt"]
    want = [x for x in rank if x in have and rx.match(x)]
    ctx.check(got == want, lambda: "glob(%r) of %r is %r, expected %r"
              % (pat, have, got, want))
    ctx.step()
    ctx.observe((pat, got))


# -- text to numbers --------------------------------------------------------
def numeric(ctx):
    """text that is a number becomes that number"""
    sign = ctx.choose("sign", ["", "-", "+"])
    ipart = ctx.choose("digits", ["0", "7", "007", "10", "12345678901234567890"])
    frac = ctx.choose("fraction", ["", ".", ".5", ".000"])
    exp = ctx.choose("exponent", ["", "e3", "E-2", "e+05"])
    pad = ctx.choose("pad", ["", " ", "\t"])
    error = ctx.choose("error", [True, False, None])
    text = pad + sign + ipart + frac + exp + pad
    got = hu.to_numeric(text) if error is None else hu.to_numeric(text, error)
    if frac == "" and exp == "":
        want = int(sign + ipart)
        ctx.check(type(got) is int and got == want, lambda: "%r became %r"
                  % (text, got))
    else:
        want = float(sign + ipart + frac + exp)
        ctx.check(type(got) is float and got == want, lambda: "%r became %r"
                  % (text, got))
    ctx.step()
    ctx.observe(repr(got))


OTHER = ["", "abc", "1 2", "1.2.3", "e5", "--1", "1e", "12:30",
         "2010-13-45 10:00", "2010-02-31 10:00", "2010-10-10",
         "x2010-10-10 10:00", "2010-10-10 10:00 x", "1,5", "10 GHz",
         "1_2", "1_000.5", "2_1e3", "_1", "1_", "a_1", "2010-10-10 1_:00"]
DATES = [("2010-10-10 08:30", "2010-10-10T08:30"),
         ("2010-10-10 08:30:15", "2010-10-10T08:30:15"),
         ("1999-12-31 23:59:59", "1999-12-31T23:59:59")]
VALUES = [Named("int", 5), Named("float", -2.5), Named("complex", 1 + 2j),
          Named("ndarray", np.array([1, 2])), Named("True", True),
          Named("float64", np.float64(3)),
          Named("hfarray", hfarray([1., 2]))]


def calendar_dates(ctx):
    """every day of some years, several ways to write the time"""
    year = ctx.choose("year", [1970, 1999, 2000, 2014, 2024])
    month = ctx.choose("month", range(0, 14))
    day = ctx.choose("day", range(0, 33))
    space = ctx.choose("space", [" ", "  ", "\t", ""])
    time = ctx.choose("time", ["00:00", "08:30", "19:05:09", "23:59:59"])
    text = "%04d-%02d-%02d%s%s" % (year, month, day, space, time)
    got = hu.to_numeric(text, False)
    try:
        want = datetime.datetime(year, month, day,
                                 *[int(x) for x in time.split(":")])
    except ValueError:
        ctx.check(got == text and type(got) is str,
                  lambda: "%r became %r" % (text, got))
    else:
        if space == " ":
            ctx.check(isinstance(got, np.datetime64) and
                      got == np.datetime64(want),
                      lambda: "%r became %r" % (text, got))
        else:  # read as this date or left as text
            ctx.check(type(got) is str and got == text or
                      isinstance(got, np.datetime64) and
                      got == np.datetime64(want),
                      lambda: "%r became %r" % (text, got))
    ctx.step()
    ctx.observe(repr(got))


def not_numeric(ctx):
    """text that is no number is refused or returned, numbers are kept"""
    kind = ctx.choose("kind", ["other text", "date", "value"])
    error = ctx.choose("error", [True, False])
    if kind == "other text":
        t = ctx.choose("text", OTHER)
        try:
            got = hu.to_numeric(t, error)
        except ValueError:
            ctx.check(error, lambda: "%r was refused" % t)
        else:
            ctx.check(not error and got == t and type(got) is str,
                      lambda: "%r became %r" % (t, got))
    elif kind == "date":
        t, d = ctx.choose("text", DATES)
        got = hu.to_numeric(t, error)
        ctx.check(isinstance(got, np.datetime64) and got == np.datetime64(d),
                  lambda: "%r became %r" % (t, got))
    else:
        v = ctx.choose("value", VALUES).value
        got = hu.to_numeric(v, error)
        ctx.check(np.asarray(got).tolist() == np.asarray(v).tolist(),
                  lambda: "%r became %r" % (v, got))
        if isinstance(v, hfarray):
            ctx.check(isinstance(got, hfarray) and got.dims == v.dims,
                      "labels were lost")
    ctx.step()
    ctx.observe((kind, error))


# -- lists ------------------------------------------------------------------
def unique(ctx):
    """each element once"""
    n = ctx.choose("n", [0, 1, 2, 3, 4])
    pool = ctx.choose("pool", [[3, 1, 2], ["b", "a", "ab"], [2.5, -1.0, 0.0],
                               [(1, 2), (0,), (1,)]])
    data = [ctx.choose("x", pool) for _ in range(n)]
    kind = ctx.choose("kind", ["list", "tuple", "iterator", "ndarray",
                               "2-d ndarray", "hfarray"])
    if isinstance(pool[0], tuple) and kind not in ("list", "tuple",
                                                   "iterator"):
        raise Prune("arrays of tuples")
    if kind == "hfarray" and n == 0:
        raise Prune("empty")
    if kind == "2-d ndarray" and n != 4:
        raise Prune("shape")

    def make():
        if kind == "list":
            return list(data)
        if kind == "tuple":
            return tuple(data)
        if kind == "iterator":
            return iter(list(data))
        if kind == "ndarray":
            return np.array(data)
        if kind == "2-d ndarray":
            return np.array(data).reshape(2, 2)
        return hfarray(np.array(data), dims=(DimSweep("f", range(n)),))
    got = list(hu.uniq(make()))
    want = []
    for x in sorted(data):
        if x not in want:
            want.append(x)
    ctx.check(got == want, lambda: "uniq(%r) is %r" % (data, got))
    ctx.step()
    if kind in ("list", "tuple", "iterator", "ndarray"):
        got = list(hu.stable_uniq(make()))
        want = []
        for x in data:
            if x not in want:
                want.append(x)
        ctx.check(got == want, lambda: "stable_uniq(%r) is %r" % (data, got))
        ctx.step()
    ctx.observe((data, kind))


def tree(ctx, depth, label="node"):
    kind = ctx.choose(label, ["leaf", "text", "list", "tuple"]
                      if depth else ["leaf", "text"])
    if kind == "leaf":
        return 1, [1]
    if kind == "text":
        return "ab", ["ab"]
    n = ctx.choose("size", [0, 1, 2] if depth > 1 else [0, 1, 2, 3])
    out, flat = [], []
    for _ in range(n):
        x, f = tree(ctx, depth - 1)
        out.append(x)
        flat += f
    return (out if kind == "list" else tuple(out)), flat


def flat(ctx):
    """the leaves in order"""
    n = ctx.choose("size", [0, 1, 2])
    out, want = [], []
    for _ in range(n):
        x, f = tree(ctx, 2 if n < 2 else 1)
        out.append(x)
        want += f
    keep = repr(out)
    got = hu.flatten(out)
    ctx.check(type(got) is list and got == want, lambda: "flatten(%r) is %r, "
              "expected %r" % (out, got, want))
    ctx.check(repr(out) == keep, "argument was modified")
    ctx.step()
    ctx.observe(keep)


def chopping(ctx):
    """numbers below the tolerances become zero"""
    scale = ctx.choose("scale", [1., 1e-12, 1e9, 1e-16])
    vals = [scale * v for v in (1, -0.5, 1e-8, -1e-10, 1e-20, 0)]
    sel = ctx.subset("values", vals)
    if not sel:
        raise Prune("empty")
    cplx = ctx.choose("factor", [1, 1j, (1 + 1j)])
    kw = ctx.choose("tolerances", [{}, {"rtol": 0.1}, {"atol": 1e-9},
                                   {"rtol": 0., "atol": 0.}])
    kind = ctx.choose("kind", ["list", "ndarray", "column"])
    data = [v * cplx for v in sel]
    arg = list(data)
    if kind != "list":
        arg = np.array(data)
        if kind == "column":
            arg = arg.reshape(-1, 1)
    keep = repr(arg)
    got = np.asarray(hu.chop(arg, **kw)).ravel()
    ctx.check(repr(arg) == keep, "argument was modified")
    rtol, atol = kw.get("rtol", 1e-9), kw.get("atol", 1e-15)
    m = max(abs(v) for v in data)
    for g, v in zip(got, data):
        lim = max(atol, rtol * m)
        if abs(abs(v) - lim) <= 1e-12 * lim:
            continue
        want = 0 if abs(v) < lim else v
        ctx.check(g == want, lambda: "chop(%r, %r) is %r" % (data, kw, got))
        ctx.step()
    ctx.check(len(got) == len(data), "length")
    ctx.observe((sel, kw))


def kinds(ctx):
    """what is a number"""
    v, num, real, integer, like = ctx.choose("value", [
        (5, True, True, True, True), (-2.5, True, True, False, True),
        (1j, True, False, False, True), ("5", False, False, False, False),
        ([1, 2], False, False, False, True), (["a"], False, False, False,
                                              False),
        (np.array([1, 2]), False, False, True, True),
        (np.array([1., 2]), False, False, False, True),
        (np.array([1j]), False, False, False, True),
        (np.array(["a"]), False, False, False, False),
        (np.array([True]), False, False, False, False)])
    for f, want in ((hu.isnumber, num), (hu.isrealnumber, real),
                    (hu.is_integer, integer), (hu.is_numlike, like)):
        got = bool(f(v))
        ctx.check(got == want, lambda: "%s(%r) is %r" % (f.__name__, v, got))
        ctx.step()
    ctx.observe(repr(v))


def directories(ctx):
    """make_dirs makes what is missing and keeps what is there"""
    segs = ctx.choose("segments", [["a"], ["a", "b"], ["a/b", "c"],
                                   ["a", "b", "c d"]])
    pre = ctx.choose("exists", ["nothing", "first", "all", "file inside"])
    full = os.path.join(ctx.tmp, *segs)
    first = os.path.join(ctx.tmp, "a")
    if pre == "first":
        os.mkdir(first)
    elif pre != "nothing":
        os.makedirs(full)
    if pre == "file inside":
        with open(os.path.join(full, "f"), "w") as f:
            f.write("x")
    for _ in range(ctx.choose("times", [1, 2])):
        hu.make_dirs(ctx.tmp, *segs)
        ctx.check(os.path.isdir(full), "no directory")
        ctx.step()
    if pre == "file inside":
        ctx.check(open(os.path.join(full, "f")).read() == "x", "file lost")
    ctx.observe((segs, pre))


def stamps(ctx):
    """a time stamp tells the current time"""
    import datetime
    high = ctx.choose("highres", [None, False, True])
    t0 = datetime.datetime.now()
    s = hu.timestamp() if high is None else hu.timestamp(high)
    t1 = datetime.datetime.now()
    if high:
        ctx.check(re.match(r"^\d{8}T\d{6}\.\d{3}$", s), lambda: s)
        t = datetime.datetime.strptime(s + "000", "%Y%m%dT%H%M%S.%f")
        lo = t0.replace(microsecond=t0.microsecond // 1000 * 1000)
    else:
        ctx.check(re.match(r"^\d{8}T\d{6}$", s), lambda: s)
        t = datetime.datetime.strptime(s, "%Y%m%dT%H%M%S")
        lo = t0.replace(microsecond=0)
    ctx.check(lo <= t <= t1, lambda: "%r at %r" % (s, t0))
    ctx.step()
    ctx.observe(high)


# -- the log ----------------------------------------------------------------
def log(ctx):
    """messages are written to stderr once while the log is started"""
    old = sys.stderr
    handlers = list(hl.logger.handlers)
    err = io.StringIO()
    sys.stderr = err
    want = ""
    on = False
    trail = []
    try:
        hl.stop_log()
        base = list(hl.logger.handlers)
        for i in range(ctx.choose("depth", [3, 5] if ctx.tier == "quick"
                                  else [3, 7])):
            op = ctx.choose("op", ["start", "stop", "info", "debug",
                                   "error"])
            trail.append(op)
            if op == "start":
                hl.start_log()
                on = True
            elif op == "stop":
                hl.stop_log()
                on = False
            else:
                msg = "message %d" % i
                getattr(hl.logger, op)(msg)
                if on and op != "debug":
                    want += msg + "\n"
            ctx.check(err.getvalue() == want, lambda: "%r wrote %r, expected "
                      "%r" % (trail, err.getvalue(), want))
            if not on:
                ctx.check(hl.logger.handlers == base, lambda: "%r: handlers "
                          "%r left" % (trail, hl.logger.handlers))
            ctx.step()
            ctx.state((on, want.count("\n")))
    finally:
        hl.stop_log()
        sys.stderr = old
        hl.logger.handlers[:] = handlers
    ctx.observe(trail)


def spaces(tier):
    return [
        Space("order_pairs", order_pairs, "all pairs of short names"),
        Space("order_lists", order_lists, "all orders of 5 of 9 names"),
        Space("long_lists", long_lists, "up to 2000 names"),
        Space("digit_counts", digit_counts, "pairs of numbers of 1-25 digits "
              "in names"),
        Space("globbing", globbing, "patterns x directories", tmpdir=True),
        Space("numeric", numeric, "all spellings of numbers"),
        Space("calendar", calendar_dates, "every day of the year"),
        Space("not_numeric", not_numeric, "other text, dates, values"),
        Space("unique", unique, "all lists of up to 4 elements"),
        Space("flat", flat, "all nested lists up to depth 3"),
        Space("chopping", chopping, "subsets x scales x tolerances"),
        Space("kinds", kinds, "what is a number"),
        Space("directories", directories, "make_dirs", tmpdir=True),
        Space("stamps", stamps, "time stamps"),
        Space("log", log, "all start/stop/message histories of length 5")]
