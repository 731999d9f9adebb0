# -*- coding: utf-8 -*-
"""Bounded, exhaustive exploration of the real hftools code.

A *space* is a Python function ``fn(ctx)`` which runs ONE execution of the code
under test and compares it with a reference model.  Every source of
nondeterminism of the execution (operation picked next, argument, file content,
environment answer, crash point ...) is a call to ``ctx.choose(label, options)``.
The explorer enumerates *all* choice sequences of a space by stateless
depth-first search (each execution is replayed from a fresh initial state);
nothing is sampled and there is no cap.  If the set of options offered during
the replay of a prefix diverges from the recorded one, that is a hard error.

``ctx.step()``        one transition of the implementation checked against the model
``ctx.state(key)``    records the (canonical, hashable/repr-able) model state reached
``ctx.observe(x)``    folds an observation into the digest used for determinism
                      replays and the count of distinct outcomes
``ctx.fail(msg)``     property violated on this execution
"""
import hashlib
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings


class Violation(Exception):
    """The property does not hold on this execution.

    *key* names the finding (used by the known-findings file)."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Prune(Exception):
    """Execution is outside the stated domain: not counted."""


class Divergence(Exception):
    """The harness saw different options when replaying a prefix."""


class Hang(Exception):
    pass


def _digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"),
                           digest_size=8).digest()


class Ctx(object):
    def __init__(self, prefix=(), tier="quick", tmp=None):
        self.prefix = list(prefix)
        self.choices = []      # index chosen
        self.counts = []       # number of options
        self.trace = []        # (label, repr(option))
        self.tier = tier
        self.steps = 0
        self.states = []
        self._obs = hashlib.blake2b(digest_size=8)
        self.obs_parts = 0
        self.tmp = tmp
        self.notes = []

    # -- nondeterminism ----------------------------------------------------
    def choose(self, label, options):
        if isinstance(options, int):
            options = range(options)
        options = list(options)
        n = len(options)
        if n == 0:
            raise Prune("no option for %s" % label)
        i = len(self.choices)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise Divergence("choice %d of %r: %d options, wanted %d"
                                 % (i, label, n, k))
        else:
            k = 0
        self.choices.append(k)
        self.counts.append(n)
        self.trace.append((label, _short(options[k])))
        return options[k]

    def flag(self, label):
        return self.choose(label, [False, True])

    def subset(self, label, items):
        return [x for x in items if self.choose("%s:%s" % (label, _short(x)),
                                                [False, True])]

    def permutation(self, label, items):
        rest = list(items)
        out = []
        while len(rest) > 1:
            x = self.choose(label, list(range(len(rest))))
            out.append(rest.pop(x))
        return out + rest

    # -- bookkeeping -------------------------------------------------------
    def step(self, n=1):
        self.steps += n

    def state(self, key):
        self.states.append(_digest(key))

    def observe(self, x):
        self._obs.update(repr(x).encode("utf-8", "backslashreplace"))
        self.obs_parts += 1

    @property
    def outcome(self):
        return self._obs.digest()

    # -- oracle ------------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(msg, key)


def _short(x, n=160):
    r = getattr(x, "__mc_name__", None)
    if r is None:
        r = repr(x)
    return r if len(r) <= n else r[:n] + "..."


class Named(object):
    """An option with a readable name."""

    def __init__(self, name, value):
        self.__mc_name__ = name
        self.value = value

    def __call__(self, *k, **kw):
        return self.value(*k, **kw)


def named(name):
    def deco(f):
        f.__mc_name__ = name
        return f
    return deco


class Space(object):
    def __init__(self, name, fn, about="", thorough_only=False,
                 timeout=40, tmpdir=False):
        self.name = name
        self.fn = fn
        self.about = about
        self.thorough_only = thorough_only
        self.timeout = timeout
        self.tmpdir = tmpdir


def _alarm(signum, frame):
    raise Hang("execution did not finish in time")


_SCRATCH = None


def scratch():
    """Private scratch directory of this process (removed by the parent)."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ["MC_SCRATCH"]
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(dir=base))
    return _SCRATCH[1]


_counter = [0]


def run_one(space, prefix, tier):
    """Run a single execution; returns (ctx, violation or None, pruned)."""
    tmp = None
    if space.tmpdir:
        _counter[0] += 1
        tmp = os.path.join(scratch(), "x%d" % _counter[0])
        os.mkdir(tmp)
    ctx = Ctx(prefix, tier, tmp)
    viol = None
    pruned = False
    cwd = os.getcwd() if space.tmpdir else None
    rnd = random.getstate()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, space.timeout, 5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            space.fn(ctx)
    except Prune:
        pruned = True
    except Violation as exc:
        viol = (str(exc), exc.key, traceback.format_exc())
    except Divergence:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError) as exc:
        if isinstance(exc, KeyboardInterrupt):
            raise
        viol = ("%s escaped from the code under test: %s"
                % (type(exc).__name__, exc), None, traceback.format_exc())
    except BaseException as exc:
        viol = ("unexpected %s: %s" % (type(exc).__name__, exc), None,
                traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        random.setstate(rnd)
        if cwd is not None:
            try:
                if os.getcwd() != cwd:
                    os.chdir(cwd)
            except OSError:
                os.chdir(cwd)
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)
    return ctx, viol, pruned


def next_prefix(ctx, floor):
    """Lexicographic successor of the choice vector, keeping the first
    *floor* choices."""
    i = len(ctx.choices) - 1
    while i >= floor:
        if ctx.choices[i] + 1 < ctx.counts[i]:
            return ctx.choices[:i] + [ctx.choices[i] + 1]
        i -= 1
    return None


class Result(object):
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.steps = 0
        self.choice_points = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []   # (choices, trace, msg, key, tb)
        self.known = {}        # key -> (count, first violation)
        self.samples = []
        self.det = []          # (choices, outcome)
        self.maxdepth = 0
        self.cut = False       # stopped early (only after violations)

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.steps += o.steps
        self.choice_points += o.choice_points
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.violations += o.violations
        for k, (n, v) in o.known.items():
            n0, v0 = self.known.get(k, (0, v))
            self.known[k] = (n0 + n, min(v0, v, key=lambda x: x[0]))
        self.samples += o.samples
        self.det += o.det
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.cut = self.cut or o.cut


_STOP = None      # shared counter of violations: enough of them end the run
MAX_VIOLATIONS = 12


def explore(space, prefix, tier, known, max_viol=3):
    """Exhaust the subtree of *prefix*."""
    res = Result()
    cur = list(prefix)
    while cur is not None:
        if _STOP is not None and _STOP.value >= MAX_VIOLATIONS:
            res.cut = True
            break
        ctx, viol, pruned = run_one(space, cur, tier)
        if ctx.choices[:len(cur)] != cur:
            raise Divergence("space %s: prefix %r was not consumed (%r)"
                             % (space.name, cur, ctx.choices))
        if pruned:
            res.pruned += 1
        else:
            res.executions += 1
            res.steps += ctx.steps
            res.choice_points += len(ctx.choices)
            res.maxdepth = max(res.maxdepth, len(ctx.choices))
            res.states.update(ctx.states)
            res.outcomes.add(ctx.outcome)
            if len(res.samples) < 1 or res.executions in (7, 100):
                res.samples.append(ctx.trace)
            if res.executions == 1 or res.executions % 997 == 0:
                res.det.append((list(ctx.choices), ctx.outcome))
        if viol:
            v = (list(ctx.choices), ctx.trace, viol[0], viol[1], viol[2])
            if viol[1] is not None and viol[1] in known:
                n, v0 = res.known.get(viol[1], (0, v))
                res.known[viol[1]] = (n + 1, v0)
            else:
                res.violations.append(v)
                if _STOP is not None:
                    with _STOP.get_lock():
                        _STOP.value += 1
                if len(res.violations) >= max_viol:
                    res.cut = True
                    break
        cur = next_prefix(ctx, len(prefix))
    return res


def split(space, tier, target):
    """Prefixes that partition the space (breadth-first expansion)."""
    done = []
    level = [[]]
    for depth in range(6):
        if len(level) + len(done) >= target or not level:
            break
        nxt = []
        for p in level:
            ctx, viol, _pruned = run_one(space, p, tier)
            if len(ctx.choices) <= len(p) or (viol and "Hang" in viol[0]):
                done.append(p)
                continue
            n = ctx.counts[len(p)]
            for k in range(n):
                nxt.append(p + [k])
        level = nxt
    return done + level


def explore_parallel(spaces, tier, known, jobs, log):
    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing
    global _WORK, _STOP
    _WORK = (spaces, tier, known)
    results = dict((s.name, Result()) for s in spaces)
    walls = dict((s.name, 0.0) for s in spaces)
    tasks = []
    crashed = []
    mp = multiprocessing.get_context("fork")
    _STOP = mp.Value("i", 0)
    with ProcessPoolExecutor(jobs, mp_context=mp) as ex:
        splits = list(ex.map(_split_job, [(i, jobs * 6)
                                          for i in range(len(spaces))]))
        for i, prefixes in enumerate(splits):
            for p in prefixes:
                tasks.append((i, p))
        futs = dict((ex.submit(_explore_job, t), t) for t in tasks)
        for fut in as_completed(futs):
            i, p = futs[fut]
            try:
                r, wall = fut.result()
            except Exception as exc:       # worker died
                crashed.append((spaces[i].name, p, "%s: %s"
                                % (type(exc).__name__, exc)))
                continue
            results[spaces[i].name].merge(r)
            walls[spaces[i].name] += wall
    return results, walls, crashed


def _split_job(arg):
    i, target = arg
    spaces, tier, _known = _WORK
    return split(spaces[i], tier, target)


def _explore_job(arg):
    i, p = arg
    spaces, tier, known = _WORK
    t = time.time()
    r = explore(spaces[i], p, tier, known)
    return r, time.time() - t
