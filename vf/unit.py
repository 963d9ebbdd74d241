"""Verification units: one public operation of /repo under its contract."""
import time
import traceback
import z3
from .core import *
from .engine import Engine, ToolLimit
from .ir import Unsupported
from . import models


class Unit:
    def __init__(self, name, mod, props, fn, fun=None, weight=1, must_reach=(), callee_contracts=False):
        self.name, self.mod, self.props, self.fn = name, mod, tuple(props), fn
        self.fun = fun or name
        self.weight = weight                # scheduling hint: expected seconds
        self.must_reach = must_reach        # exits the contract must be able to reach (vacuity guard)
        self.callee_contracts = callee_contracts


class Ctx:
    """what a contract sees"""

    def __init__(self, eng, unit, contracts=True, want=None):
        self.eng, self.unit = eng, unit
        self.contracts = contracts      # callee contracts on (else: inline everything)
        self.want = want
        self.canary = False
        self.reached = {}

    def call(self, name, args, st, then, label=None):
        """run the operation; `then(st, kind, value)` states the postcondition on every exit"""
        e = self.eng
        outs = e.call(name, args, st)
        if self.canary:
            for o in outs:
                e.oblige(o[1], FALSE, "canary", kind="post")
                e.obls[-1].name = "canary"
            raise ToolLimit("canary")
        for o in outs:
            kind = "return" if o[0] == "ret" else "throw"
            self.split(o[1], lambda s, o=o, kind=kind: then(s, kind, o[2]))
        return outs

    def split(self, st, f):
        e = self.eng
        work = [st]
        while work:
            s = work.pop()
            s2 = s.copy()
            mark = len(e.obls)
            try:
                f(s2)
            except Fork as fk:
                del e.obls[mark:]
                for c in (fk.cond, z3.Not(fk.cond)):
                    c = simp(c)
                    if e.feasible(s, c):
                        s3 = s.copy()
                        s3.assume(c)
                        work.append(s3)
            except Dead:
                pass

    def reach(self, st, label):
        """an exit of the contract; must be reachable for at least one path (vacuity guard)"""
        self.reached[label] = self.reached.get(label, 0) + 1

    def post(self, st, goal, name, props=None):
        if self.want and props and self.want not in props:
            return
        if not isinstance(goal, z3.ExprRef):
            goal = z3.BoolVal(bool(goal))
        self.eng.oblige(st, goal, name, kind="post", props=props)


def run_unit(unit, module, budget=600, full_ms=30000, verbose=0, contracts=True, want=None, canary=False):
    t0 = time.time()
    e = Engine(module, module.dem, verbose=verbose, full_ms=full_ms)
    models.install(e)
    e.cur = unit.name
    e.deadline = time.time() + budget
    c = Ctx(e, unit, contracts, want)
    c.canary = canary
    err = None
    try:
        unit.fn(c)
    except (Unsupported, ToolLimit) as x:
        err = f"{type(x).__name__}: {x}"
    except z3.Z3Exception as x:
        err = f"solver: {x} " + traceback.format_exc()[-1500:]
    except (KeyError, IndexError, AttributeError, TypeError, RecursionError, ValueError, AssertionError) as x:
        err = f"internal: {type(x).__name__}: {x} " + traceback.format_exc()[-1500:]
    obs = []
    for o in e.obls:
        obs.append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3),
                        model=o.model, taint=o.taint, detail=o.detail if o.status != "proved" else "",
                        props=sorted(o.props) if o.props else None))
    return dict(unit=unit.name, fun=unit.fun, error=err, obligations=obs, reached=c.reached, wall=time.time() - t0,
                queries=e.stats["queries"], qtime=e.stats["qtime"] + e.stats["fulltime"],
                inlined=sorted(e.stats["inlined"]), assumed=sorted(e.stats["assumed"]),
                loops=e.stats["loops"], summaries=e.stats["summaries"])
