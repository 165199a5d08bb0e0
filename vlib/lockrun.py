"""Shared driver for the lock-discipline checks."""
from . import model, lockset


def is_root(an):
    def f(F):
        if F.is_lambda:
            # a lambda nobody in the program calls or passes on is started by someone we do not see
            return False
        acc = F.decl.get("acc")
        if acc not in (0, 3):
            return False
        return F.cls is not None or not an.callers[F.u]
    return f


def report(c, an, root, why, keyfmt="%s:%s:%s"):
    seen = {}
    for (sq, field, mode, node, su), roots in sorted(an.violations(root).items(), key=lambda x: x[0][:4]):
        F, path, chain = min(roots, key=lambda r: len(r[2]))
        sF = an.p.fns[su]
        key = keyfmt % (sq, field, "write" if mode == "W" else "read")
        loc = sF.loc(sF.nodes[node])
        c.report(key, loc, "%s of %s in %s without %s; reachable from %s via %s"
                 % ("modification" if mode == "W" else "read", field, sq, why.get(field, "its lock"), F.q, " -> ".join(chain)))
