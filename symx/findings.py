"""known_findings.txt: lines
  known: property=<id> harness=<name> match=<text in the failure message> | <what fails>
  fixed: property=<id> <commit> <what failed>
Only `known:` lines affect a check, and each only the failure it describes."""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load():
    out = []
    if os.path.exists(PATH):
        for line in open(PATH):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=(.*?) \| (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def split(prop, violations):
    known, new = [], []
    ks = [k for k in load() if k[0] == prop]
    for v in violations:
        for _, h, match, what in ks:
            if v["harness"] == h and match in v["msg"]:
                known.append(f"KNOWN-FINDING: property={prop} {what}")
                break
        else:
            new.append(v)
    return known, new
