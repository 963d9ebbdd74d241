"""registry: property -> contract modules; known findings"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
KF = os.path.join(HERE, "known-findings.txt")
PROPS = {p: dict(contracts=["arena"]) for p in ("A01", "A02", "A03", "A04", "A05", "A06", "A07", "A09")}
PROPS.update({p: dict(contracts=["vector"]) for p in ("V01", "V02", "V03", "V04", "V05", "V06")})


def _entries():
    if not os.path.exists(KF):
        return []
    return [l.strip() for l in open(KF) if l.startswith("known: ")]


def known(prop, rep):
    """is this failure one of the listed findings? none of the listed findings is reachable through a unit's
    precondition (they are excluded there by name), so a failing obligation is always new"""
    return False


def known_lines(prop):
    out = []
    for l in _entries():
        k = dict(x.split("=", 1) for x in l.split()[1:2])
        if k.get("property") == prop:
            out.append(f"KNOWN-FINDING: property={prop} " + " ".join(l.split()[2:]))
    return out
