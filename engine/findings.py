"""The known-findings file: lines 'fixed: property=<id> <commit> <what failed>' (informative) and
'finding: property=<id> <what fails>' (a genuine defect recorded, not repaired)."""
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def known(pid):
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            p = 'finding: property=%s ' % pid
            if l.startswith(p):
                out.append(l[len(p):].strip())
    return out
