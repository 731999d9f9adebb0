#!/usr/bin/env python3
"""Assemble DESIGN.md: text, tables from evidence/, known-findings.txt and
tools/planted.txt (results of tools/seedcheck.sh)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def read(name):
    with open(os.path.join(HERE, name)) as fil:
        return fil.read().rstrip() + "\n"


out = [read("design_head.md"), read("design_props.md")]
out.append("## 3. Spaces and coverage (quick tier)\n")
for fn in sorted(glob.glob(os.path.join(VERIF, "evidence", "C*.json"))):
    d = json.load(open(fn))
    c = d["coverage"]
    out.append("**%s**: %d executions, %d transitions, %d model states, %d "
               "outcomes, about %d s\n"
               % (d["property"], c["traces_validated_against_impl"],
                  c["transitions"], c["states"], c["distinct_outcomes"],
                  round(d["wall_s"])))
    for s in c["spaces"]:
        out.append("* `%s`: %s (%d executions, depth %d)"
                   % (s["space"], s["about"], s["executions"],
                      s["max_choice_depth"]))
    out.append("")
out.append("## 4. Genuine defects found on the original tree\n")
out.append("All were repaired with `fix:` commits (listed in "
           "known-findings.txt); the checks report them again if they "
           "return.\n")
for line in open(os.path.join(VERIF, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        out.append("* %s `%s` %s" % m.groups())
    elif line.startswith("property="):
        out.append("* NOT REPAIRED: " + line.strip())
out.append("\n## 5. Cost\n")
out.append("Wall times of the quick tier on 8 unloaded cores are given in "
           "section 3; the thorough tier takes from one minute up to about "
           "half an hour per property.\n")
out.append("## 6. Planted bugs\n")
out.append("Each was written from the statement of the property and the code, "
           "confirmed in a scratch copy (demo 0 without and non-zero with "
           "it, no stable test lost), and then given to the property's quick "
           "check.  *first missed* means the check was extended in general "
           "terms (a larger alphabet or a further space) afterwards.\n")
out.append("| bug | property | what it breaks | needs | result |")
out.append("|---|---|---|---|---|")
missed = set(read("first_missed.txt").split())
res = {}
for line in read("planted.txt").splitlines():
    m = re.match(r"(S\w+): .*\| (C\d\d) rc=(\d)", line)
    if m:
        res[m.group(1)] = m.group(3)
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = {"1": "caught", "0": "NOT caught"}.get(res.get(i), "?")
    if i in missed:
        r += ", first missed"
    out.append("| %s | %s | %s | %s | %s |" % (
        i, m["property"], m["what_it_breaks"].replace("|", "/"),
        m["needs"].replace("|", "/"), r))
out.append("")
out.append(read("design_tail.md"))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as fil:
    fil.write("\n".join(out))
