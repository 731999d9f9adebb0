# -*- coding: utf-8 -*-
"""C18: the data cache never hands out anything but complete data."""
import os
import sys

import numpy as np

from mc.engine import Space, Prune
from mc.labelled import D
from mc.filemodel import Var, block, fingerprint
from hftools.dataset import DataBlock, hfarray, DimSweep
import hftools
import hftools.file_formats as ff
from hftools.file_formats import (read_to_cache, read_from_cache, read_data,
                                  save_spdata, read_hdf5)

ASSUMPTIONS = [
    "crash points are the lines executed in hftools code while a cache is "
    "made; at such a point the process either dies without closing files or "
    "an exception is raised",
    "the cache is named by the name of the file or explicitly; a file that "
    "changes after it was cached is re-read on demand (reread=True)"]

HFDIR = os.path.dirname(os.path.abspath(hftools.__file__))


def source(ctx, name, k):
    """SP-data file number *k*"""
    fn = os.path.join(ctx.tmp, name)
    db, _m = block([D("sweep", "freq", [1e9, 2e9, 3e9], "Hz")],
                   [Var("x", unit="V"), Var("c", "complex")],
                   ["No=%d" % k])
    db["x"] = db["x"] * (k + 1)
    db["x"].unit = "V"
    save_spdata(db, fn)
    return fn


def norm(db):
    """contents: names, values, units, labels, comments"""
    return (sorted((k, np.asarray(v).tolist(), [d.name for d in v.dims],
                    v.unit) for k, v in db.vardata.items()),
            sorted((k, np.asarray(d.data).tolist(), d.unit,
                    type(d).__name__) for k, d in db.ivardata.items()),
            list(db.comments.fullcomments))


def add_good(db):
    db["extra"] = db["x"] * 2
    db["note"] = hfarray(u"text \u00e5")


def add_unstorable(db):
    db["zbad"] = hfarray(np.array([None, 1, 2], dtype=object),
                         dims=db["x"].dims)


class Boom(Exception):
    pass


BODIES = ["nothing", "add variables", "raise", "add and raise",
          "unstorable variable"]


def histories(ctx):
    """sequences of uses: what is handed out and what is remembered"""
    files = ["a.txt", "b.txt"]
    version = {"a.txt": 0, "b.txt": 5}
    for name in files:
        source(ctx, name, version[name])
    cachedir = ctx.choose("cachedir", [None, "sub/cache"])
    if cachedir is None:
        os.chdir(ctx.tmp)
    else:
        cachedir = os.path.join(ctx.tmp, cachedir)
    cache = {}
    depth = ctx.choose("menu", [2, 3])
    small = depth == 3
    if ctx.tier == "thorough":
        depth += 1
    trail = []
    for step in range(depth):
        op = ctx.choose("op", ["use", "reread", "read_from_cache",
                               "file changes"])
        name = files[0]
        if op != "read_from_cache" and not small:
            name = ctx.choose("file", files)
        fn = os.path.join(ctx.tmp, name)
        trail.append((op, name))
        if op == "file changes":
            if step == depth - 1:
                raise Prune("nothing follows")
            version[name] += 1
            source(ctx, name, version[name])
            continue
        explicit = op == "use" and not small and ctx.flag("cachename given")
        key = "other" if explicit else name[:1]
        kw = dict(cachedir=cachedir)
        if op == "read_from_cache":
            try:
                got = read_from_cache(key, **kw)
            except Exception as exc:
                ctx.check(key not in cache, lambda: "cache is gone: %r" % exc)
            else:
                ctx.check(key in cache, "data that was never cached")
                ctx.check(norm(got) == cache[key], lambda: "cache holds %r, "
                          "expected %r" % (norm(got), cache[key]))
            ctx.step()
            continue
        body = ctx.choose("body", BODIES[:3] if small else BODIES)
        trail[-1] += (body, explicit)
        if explicit:
            kw["cachename"] = "other"
        hit = key in cache and op != "reread"
        want = cache[key] if hit else norm(read_data(fn, verbose=False))
        raised = None
        data = None
        try:
            with read_to_cache(fn, reread=op == "reread", verbose=False,
                               **kw) as (data, new):
                ctx.check(new is (not hit), lambda: "new is %r after %r"
                          % (new, trail))
                ctx.check(norm(data) == want, lambda: "got %r, expected %r"
                          % (norm(data), want))
                if body in ("add variables", "add and raise"):
                    add_good(data)
                elif body == "unstorable variable":
                    add_unstorable(data)
                if body in ("raise", "add and raise"):
                    raise Boom("body")
        except Boom:
            ctx.check("raise" in body, "exception out of nowhere")
            raised = "Boom"
        except Exception as exc:
            if isinstance(exc, ctx_violation):
                raise
            ctx.check(body == "unstorable variable" and not hit,
                      lambda: "unexpected %r" % exc)
            raised = repr(exc)
        ctx.check(raised == "Boom" or "raise" not in body,
                  "exception of the body was swallowed")
        if not hit and raised is None:
            cache[key] = norm(data)
        ctx.step()
        for k in cache:
            got = read_from_cache(k, cachedir)
            ctx.check(norm(got) == cache[k], lambda: "cache %s holds %r, "
                      "expected %r" % (k, norm(got), cache[k]))
        for k in ("a", "b", "other"):
            if k not in cache:
                try:
                    got = read_from_cache(k, cachedir)
                except Exception:
                    pass
                else:
                    ctx.fail("cache %s holds %r but nothing was cached"
                             % (k, norm(got)))
    ctx.state((trail, sorted(cache)))
    ctx.observe((trail, sorted(cache)))


from mc.engine import Violation as ctx_violation  # noqa: E402


class Tracer(object):
    """stop at line number *stop* executed in hftools"""

    def __init__(self, stop, action, where):
        self.n = 0
        self.where = tuple(os.path.join(HFDIR, x) for x in where)
        self.stop = stop
        self.action = action

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.where):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.stop:
                self.action()
        return self.local


def die():
    os._exit(9)


def interrupt():
    sys.settrace(None)
    raise KeyboardInterrupt("stopped here")


def use(fn, cachedir, reread, modify, trace=None):
    with read_to_cache(fn, cachedir=cachedir, reread=reread,
                       verbose=False) as (data, new):
        if modify:
            add_good(data)
        if trace is not None:
            sys.settrace(trace)
    return norm(data)


_POINTS = {}


def child(fn):
    """run *fn* in a child; returns (exit status, bytes written to pipe)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
            os.write(w, repr(out).encode("ascii"))
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return status, data.decode("ascii")


def crash(ctx):
    """every crash point of making a cache, with and without an old cache"""
    old = ctx.choose("cache before", ["none", "reread", "used"])
    modify = ctx.flag("body adds variables")
    how = ctx.choose("fault", ["process dies", "KeyboardInterrupt"])
    fn = source(ctx, "a.txt", 0)
    cachedir = os.path.join(ctx.tmp, "cache")
    before = None
    if old != "none":
        before = use(fn, cachedir, False, True)
        source(ctx, "a.txt", 1)
    reread = old == "reread"
    fresh = norm(read_data(fn, verbose=False))
    if ctx.tier == "thorough":
        phase = ctx.choose("phase", ["all", "leaving"])
        where = [""]
    else:
        phase = "leaving"
        where = ["file_formats", "_external"]
    if old == "used" and phase == "leaving":
        where = [""]

    def started(t, fn, cachedir):
        try:
            if phase == "all":
                sys.settrace(t.glob)
                use(fn, cachedir, reread, modify)
            else:
                use(fn, cachedir, reread, modify, t.glob)
        finally:
            sys.settrace(None)
    key = (old, modify, phase)
    if key not in _POINTS:
        copy = os.path.join(ctx.tmp, "copy")
        if before is not None:
            import shutil
            shutil.copytree(cachedir, copy)

        def dry():
            t = Tracer(-1, die, where)
            started(t, fn, copy)
            return t.n
        status, out = child(dry)
        ctx.check(status == 0, "uninterrupted use failed")
        _POINTS[key] = int(out)
    n = _POINTS[key]
    point = ctx.choose("crash point", range(1, n + 1))

    def run():
        t = Tracer(point, die if how == "process dies" else interrupt, where)
        try:
            started(t, fn, cachedir)
        except KeyboardInterrupt:
            return "interrupted"
        return "finished"
    if how == "process dies":
        status, out = child(run)
        ctx.check(os.WEXITSTATUS(status) == 9, lambda: "crash point %d of %d "
                  "not reached, status %r" % (point, n, status))
    else:
        run()
    ctx.step()
    # what is handed out afterwards
    with read_to_cache(fn, cachedir=cachedir, verbose=False) as (data, new):
        got = norm(data)
    if new:
        ctx.check(got == fresh, lambda: "after the crash read %r, expected %r"
                  % (got, fresh))
    else:
        target = fresh
        if modify:
            db = read_data(fn, verbose=False)
            add_good(db)
            target = norm(db)
        allowed = {"none": [target], "reread": [before, target],
                   "used": [before]}[old]
        ctx.check(got in allowed, lambda: "after the crash the cache holds %r"
                  % (got,))
    ctx.step()
    # and the cache works from here on
    with read_to_cache(fn, cachedir=cachedir, verbose=False) as (data, again):
        ctx.check(again is False, "cache was not made")
        ctx.check(norm(data) == got, lambda: "cache holds %r, expected %r"
                  % (norm(data), got))
    ctx.step()
    ctx.state((old, modify, how, point))
    ctx.observe((old, modify, how, new))


def overlap(ctx):
    """two or three users of one cache at a time, all interleavings"""
    n = 3 if ctx.tier == "thorough" else 2
    fn = source(ctx, "a.txt", 0)
    cachedir = os.path.join(ctx.tmp, "cache")
    plan = []
    for k in range(n):
        plan.append((ctx.flag("reread %d" % k),
                     ctx.choose("body %d" % k, ["nothing", "add variables",
                                                "raise"])))
    users = []
    seen = [norm(read_data(fn, verbose=False))]
    trail = []
    while True:
        todo = []
        if len(users) < n:
            todo.append("enter")
        todo += ["leave %d" % k for k, u in enumerate(users)
                 if u is not None]
        if not todo:
            break
        act = ctx.choose("next", todo)
        trail.append(act)
        if act == "enter":
            k = len(users)
            reread, body = plan[k]
            cm = read_to_cache(fn, cachedir=cachedir, reread=reread,
                               verbose=False)
            data, new = cm.__enter__()
            got = norm(data)
            ctx.check(got in seen, lambda: "user %d gets %r" % (k, got))
            if body == "add variables":
                add_good(data)
            users.append((cm, data, new, body))
        else:
            k = int(act.split()[1])
            cm, data, new, body = users[k]
            users[k] = None
            if body == "raise":
                exc = Boom("body")
                try:
                    ctx.check(not cm.__exit__(Boom, exc, None),
                              "exception swallowed")
                except Boom:
                    pass
            else:
                cm.__exit__(None, None, None)
                if new:
                    seen.append(norm(data))
                    got = norm(read_from_cache("a", cachedir))
                    ctx.check(got == norm(data), lambda: "cache holds %r, "
                              "expected %r" % (got, norm(data)))
        ctx.step()
    ctx.state((plan, trail))
    ctx.observe(trail)


def spaces(tier):
    return [
        Space("histories", histories, "sequences of uses, rereads, changed "
              "files and bodies that fail", tmpdir=True),
        Space("crash", crash, "every line of hftools.file_formats executed "
              "while a cache is saved (thorough: all lines of hftools) x process dies or KeyboardInterrupt", tmpdir=True),
        Space("overlap", overlap, "all interleavings of overlapping users",
              tmpdir=True)]
