"""Known findings: defects of the library that are recorded, not repaired (see known_findings.txt)."""
import os
import re

import pool

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def listed(pid):
    out = []
    with open(FILE) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) id=(\w+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def probes(check, say):
    """Report the listed findings that still reproduce.  They suppress nothing: the specification
    describes the present behaviour in exactly those situations."""
    for ident, text in listed(check.pid):
        recs, errs = pool.run_items([{"kind": "probe", "id": ident}], check.scratch, 1, 60)
        if recs and recs[0]["reproduces"]:
            say(f"KNOWN-FINDING: property={check.pid} {ident} {text}")
