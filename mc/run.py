# -*- coding: utf-8 -*-
"""Run one check:  python -m mc.run C01 [--tier quick|thorough] [--replay F]"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("MC_EVIDENCE") or os.path.join(VERIF, "evidence")


def load_known(prop):
    """Known findings: lines 'finding: property=<id> key=<key> <text>'."""
    out = {}
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        with open(fn) as fil:
            for line in fil:
                line = line.strip()
                if not line.startswith("finding: "):
                    continue
                fields = line.split(None, 3)
                if fields[1] == "property=%s" % prop:
                    out[fields[2][4:]] = fields[3]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--space", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="hfmc_")
    os.environ["MC_SCRATCH"] = base
    os.environ["MPLCONFIGDIR"] = os.path.join(base, "mpl")
    os.environ["HOME"] = base
    rc = 1
    try:
        rc = check(args, seed, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def replay_dir():
    d = os.path.join(EVIDENCE, "replay")
    if not os.path.isdir(d):
        os.makedirs(d)
    return d


def write_replay(prop, tier, space, choices, trace, msg, tb):
    fn = os.path.join(replay_dir(), "%s.json" % prop)
    with open(fn, "w") as fil:
        json.dump(dict(property=prop, tier=tier, space=space, choices=choices,
                       trace=trace, message=msg, traceback=tb,
                       how="cd /verif && bin/check %s --replay %s"
                       % (prop, fn)), fil, indent=1)
    return fn


def check(args, seed, t0):
    from mc import engine
    prop = args.prop
    known = load_known(prop)
    try:
        mod = importlib.import_module("mc.props.%s" % prop.lower())
        spaces = mod.spaces(args.tier)
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        fn = write_replay(prop, args.tier, "import", [], [],
                          "the code under test can not be imported", tb)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    if args.space:
        spaces = [s for s in spaces if s.name == args.space]

    if args.replay:
        with open(args.replay) as fil:
            rep = json.load(fil)
        sp = [s for s in mod.spaces(rep["tier"]) if s.name == rep["space"]][0]
        ctx, viol, _ = engine.run_one(sp, rep["choices"], rep["tier"])
        for label, opt in ctx.trace:
            print("   %-28s %s" % (label, opt))
        if viol:
            print(viol[2])
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("no violation on this execution")
        return 0

    results, walls, crashed = engine.explore_parallel(
        spaces, args.tier, known, args.jobs, None)

    total = engine.Result()
    per_space = []
    diverged = 0
    replays = 0
    bad = []
    for s in spaces:
        r = results[s.name]
        # determinism: re-run recorded executions in this process
        for choices, outcome in r.det[:40]:
            replays += 1
            ctx, _viol, _p = engine.run_one(s, choices, args.tier)
            if ctx.outcome != outcome or ctx.choices != choices:
                diverged += 1
                bad.append((s.name, choices, ctx.trace,
                            "not deterministic: replaying the execution in a"
                            " fresh state gave different observations", None,
                            ""))
        per_space.append(dict(space=s.name, about=s.about,
                              executions=r.executions, pruned=r.pruned,
                              checked_steps=r.steps,
                              distinct_states=len(r.states),
                              distinct_outcomes=len(r.outcomes),
                              max_choice_depth=r.maxdepth,
                              cpu_s=round(walls[s.name], 2)))
        for v in r.violations:
            bad.append((s.name,) + v)
        total.merge(r)
        if args.v:
            print(json.dumps(per_space[-1]))
    for name, p, msg in crashed:
        bad.append((name, p, [], "interpreter crashed: %s" % msg, None, ""))

    level = getattr(mod, "LEVEL", "model_checking")
    samples = []
    for s in spaces:
        for t in results[s.name].samples[:2]:
            samples.append(dict(space=s.name,
                                choices=["%s=%s" % (a, b) for a, b in t]))
    cov = dict(exhaustive=not (total.cut or crashed),
               states=len(total.states), transitions=total.steps,
               traces_validated_against_impl=total.executions,
               distinct_outcomes=len(total.outcomes),
               spaces=per_space, determinism_replays=replays,
               determinism_divergences=diverged,
               samples=samples[:40])
    if level in ("fault_enumeration", "exploration"):
        cov["evaluations"] = total.steps
        cov["distinct_nontrivial"] = len(total.outcomes)
        cov["rule"] = getattr(mod, "RULE", "")
    ev = dict(property=prop, tier=args.tier, seed=seed, level=level,
              coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2),
              violations=len(bad))
    if not args.space:
        if not os.path.isdir(EVIDENCE):
            os.makedirs(EVIDENCE)
        with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as fil:
            json.dump(ev, fil, indent=1)
    for key, (n, _v) in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s (%d executions)"
              % (prop, known[key], n))
    print("%s %s: %d executions, %d transitions, %d states, %d outcomes, "
          "%.1f s" % (prop, args.tier, total.executions, total.steps,
                      len(total.states), len(total.outcomes),
                      time.time() - t0))
    if bad:
        # fewest choices first, then lexicographic
        bad.sort(key=lambda b: (len(b[1]), b[0], b[1]))
        if args.v:
            seen = set()
            for b in bad:
                if b[3][:90] not in seen:
                    seen.add(b[3][:90])
                    print("-- %s: %s | %s" % (b[0], b[3][:300], b[2]))
        name, choices, trace, msg, key, tb = bad[0]
        fn = write_replay(prop, args.tier, name, choices, trace, msg, tb)
        print("space %s: %s" % (name, msg))
        for label, opt in trace:
            print("   %-28s %s" % (label, opt))
        if tb:
            print("\n".join(tb.splitlines()[-12:]))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    return 0


if __name__ == "__main__":
    main()
