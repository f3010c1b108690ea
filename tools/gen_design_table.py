#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and the log of try_seeds.sh (argument)."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
log = open(sys.argv[1]).read() if len(sys.argv) > 1 else ""
print("| planted bug | what it needs to manifest | caught by (quick tier) |")
print("|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    r = re.search(r"^(CAUGHT|MISSED) %s (\S+) (?:rc=\d+ )?\(\d+s\):? ?(?:\S+ \[([^\]]*)\])?" % re.escape(n), log, re.M)
    by = "?" if not r else (f"{r.group(2)} `{r.group(3)}`" if r.group(1) == "CAUGHT" else "**missed**")
    print(f"| {n} | {m['needs']} | {by} |")
