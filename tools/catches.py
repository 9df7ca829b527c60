"""Prints the table of planted bugs for DESIGN.md from the logs of seedtest.sh given on stdin."""
import json, os, re, sys
rows = {}
for ln in sys.stdin:
    m = re.match(r"(\S+): demo clean=(\d+) bug=(\d+) stable-missing=(\S+).* (C\d\d) -> (\d)", ln)
    if m:
        rows[m[1]] = (m[5], m[6], re.search(r"\] (\S+?):\d+ (\S+)", ln))
for i in sorted(os.listdir("/verif/seeded")):
    meta = json.load(open(f"/verif/seeded/{i}/meta.json"))
    p, c, w = rows.get(i, (meta["property"], "?", None))
    print(f"| {i} | {meta['needs']} | {'caught: ' + p + ' ' + w[1] + ' / ' + w[2].rstrip(':') if c == '1' and w else 'caught: ' + p if c == '1' else 'missed' if c == '0' else '?'} |")
