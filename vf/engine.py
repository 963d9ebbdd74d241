"""Path-wise symbolic executor / verification-condition generator over LLVM IR."""
import os
import subprocess
import sys
import tempfile
import time
import z3
from .ir import Module, Unsupported, Type, I1, PTR
from .core import *
from .lia import Lia

sys.setrecursionlimit(30000)

LIMIT_ADDR = 1 << 47


class Obligation:
    __slots__ = ("name", "kind", "status", "backend", "time", "model", "path", "taint", "detail", "props")

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.path = ()
        self.taint = None
        self.detail = ""
        self.props = None      # None: every property of the unit


class ToolLimit(Exception):
    """the verifier could not decide (not a violation)"""


def shifted_lin(x, v):
    """x = (a + s*v) >> k seen as (a >> k) + (s >> k)*v: only a guess where to instantiate"""
    if x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and num(x.arg(0)) == 0 and x.arg(1).decl().kind() == z3.Z3_OP_EXTRACT:
        hi, k = x.arg(1).params()
        if hi == x.size() - 1:
            l = lin(x.arg(1).arg(0), v)
            s = snum(l[1]) if l is not None else None
            if s and s % (1 << k) == 0:
                return simpo(z3.LShR(l[0], k)), z3.BitVecVal(s >> k, x.size())
    return None


class Engine:
    def __init__(self, mod, dem=None, quick_ms=150, full_ms=60000, verbose=False):
        self.m = mod
        self.dem = dem or {}
        self.obls = []
        self.models = {}
        self.call_contracts = {}
        self.globals = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", quick_ms)
        self.stack = []
        self.full_ms = full_ms
        self.quick_ms = quick_ms
        self.verbose = verbose
        self.stats = {"queries": 0, "qtime": 0.0, "paths": 0, "loops": 0, "inlined": set(), "assumed": set(),
                      "summaries": 0, "external": set(), "fulltime": 0.0}
        self.inputs = {}        # name -> term: reported in counterexamples
        self.loop_templates = []   # f(eng, st, loopinfo) -> candidate invariants
        self.cur = "?"
        self.callstack = []
        self.ccache = {}
        self.deadline = None
        self.indirect = None
        self.on_bulk_copy = None   # contract hook: what a block copy means for its source
        self.hints = []
        self.invmemo = {}
        self.cores = {}
        self.known = {}
        self.goodmodels = []
        self.keep = {}
        self.lia = Lia()
        self.max_paths = 20000
        self.assumptions = []

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        s = self.stack
        i = 0
        n = min(len(s), len(pc))
        while i < n and (s[i] is pc[i] or s[i].eq(pc[i])):
            i += 1
        if i < len(s):
            self.solver.pop(len(s) - i)
            del s[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def chk(self, st, extra):
        """check pc + extra with the incremental solver"""
        if self.deadline and time.time() > self.deadline:
            raise ToolLimit("time budget exhausted")
        # answers carry over: unsat to every longer path condition, sat to every shorter one
        k = extra.get_id()
        ids = frozenset([c.get_id() for c in st.pc])
        known = self.known.setdefault(k, ([], [], extra))
        if any(x <= ids for x in known[0]):
            return z3.unsat
        if any(x >= ids for x in known[1]):
            return z3.sat
        for md, good in self.goodmodels:
            if not z3.is_true(md.eval(extra, model_completion=True)):
                continue
            ok = True
            for c in reversed(st.pc):
                i = c.get_id()
                if i not in good:
                    if not z3.is_true(md.eval(c, model_completion=True)):
                        ok = False
                        break
                    good.add(i)
            if ok:
                for c in st.pc:
                    self.keep.setdefault(c.get_id(), c)
                known[1].append(ids)
                return z3.sat
        self.sync(st.pc)
        t0 = time.time()
        r = self.solver.check(extra)
        if r == z3.unknown:
            t1 = time.time()
            if self.lia.query(st.pc + [extra], 1000) == z3.unsat:
                r = z3.unsat
            self.stats["lia"] = self.stats.get("lia", 0) + 1
            self.stats["liat"] = self.stats.get("liat", 0) + time.time() - t1
        elif r == z3.sat:
            known[1].append(ids)
            self.goodmodels.insert(0, (self.solver.model(), set(ids)))
            del self.goodmodels[4:]
        if r == z3.unsat:
            known[0].append(ids)
        if r != z3.unknown:
            for c in st.pc:
                self.keep.setdefault(c.get_id(), c)
        self.stats["queries"] += 1
        self.stats["qtime"] += time.time() - t0
        return r

    def feasible(self, st, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.chk(st, c) != z3.unsat

    def entails(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.chk(st, z3.Not(c)) == z3.unsat

    def decide(self, st, c):
        """True / False / None"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.chk(st, z3.Not(c)) == z3.unsat:
            return True
        if self.chk(st, c) == z3.unsat:
            return False
        return None

    # -------------------------------------------------- quantified facts
    def patterns(self, q):
        if q._pat is None:
            apps = []
            uf_apps(q.expr, apps, set())
            pats = []
            for a in apps:
                if not contains(a, q.var):
                    continue
                for i in range(a.num_args()):
                    x = a.arg(i)
                    if x.sort() == q.var.sort() and contains(x, q.var):
                        l = lin(x, q.var)
                        if l is None:
                            l = shifted_lin(x, q.var)
                        if l is not None:
                            s = snum(l[1])
                            if s:
                                pats.append((a.decl(), i, l[0], s))
            cross = []
            atoms = []
            cmp_atoms(q.expr, atoms, set())
            for at in atoms:
                l, r = at.arg(0), at.arg(1)
                if l.sort() != q.var.sort():
                    continue
                d = simpo(l - r)
                if not contains(d, q.var):
                    continue
                ll = lin(d, q.var)
                if ll is None:
                    continue
                s = snum(ll[1])
                if s:
                    cross.append(solve_lin(bv64(0), ll[0], s))
            q._pat = (pats, cross)
        return q._pat

    def instantiate(self, exprs, qfs, rounds=3, limit=400):
        facts = []
        done = {}
        seen = set()
        ground = {}
        keep = []

        def addg(es):
            apps = []
            for e in es:
                keep.append(e)
                uf_apps(e, apps, seen)
            new = False
            for a in apps:
                key = (a.decl().get_id(), tuple(a.arg(i).get_id() for i in range(a.num_args())))
                d = ground.setdefault(a.decl().get_id(), {})
                if key not in d:
                    d[key] = a
                    keep.append(a)
                    new = True
            return new
        addg(exprs)
        total = 0
        for r in range(rounds):
            newf = []
            for q in qfs:
                pats, cross = self.patterns(q)
                cands = []
                dq = done.setdefault(q.id, {})
                if r == 0:
                    for c in cross:
                        cands.append(c)
                        cands.append(simpo(c - 1))
                    cands += [h for h in q.hints if h.sort() == q.var.sort()]
                    cands += [h for h in self.hints if h.sort() == q.var.sort()]
                for decl, i, a, s in pats:
                    for g in list(ground.get(decl.get_id(), {}).values()):
                        cands.append(solve_lin(g.arg(i), a, s))
                for c in cands:
                    c = simpo(c)
                    if c.get_id() in dq:
                        continue
                    dq[c.get_id()] = c
                    f = simp(q.at(c))
                    if z3.is_true(f):
                        continue
                    newf.append(f)
                    total += 1
                    if total > limit:
                        break
                if total > limit:
                    break
            if not newf:
                break
            facts += newf
            if r < rounds - 1:
                addg(newf)
        return facts

    # -------------------------------------------------- obligations
    def full_check(self, st, neg):
        """decide pc /\\ qfacts /\\ neg; returns (status, backend, model)"""
        ex = list(st.pc) + [neg]
        if st.qf:
            facts = self.instantiate(ex, st.qf)
        else:
            facts = []
        t0 = time.time()
        if self.lia.query(ex + facts, 4000) == z3.unsat:
            self.stats["queries"] += 1
            self.stats["fulltime"] += time.time() - t0
            return "proved", "z3-5.3.2(LIA)", None
        s = z3.Solver()
        s.set("timeout", min(self.full_ms, 3000))
        track = {}
        for i, e in enumerate(ex[:-1] + facts):
            b = z3.Bool(f"trk!{i}")
            track[b.get_id()] = e
            s.assert_and_track(e, b)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            core = [track[b.get_id()] for b in s.unsat_core()]
            base = {c.get_id() for c in ex[:-1]}
            if all(c.get_id() in base for c in core):
                self.cores.setdefault(neg.get_id(), []).append((frozenset(c.get_id() for c in core), core, neg))
        else:
            s2 = z3.Solver()
            for e in ex + facts:
                s2.add(e)
            if r == z3.sat:
                pass
            else:
                s = s2
        self.stats["queries"] += 1
        self.stats["fulltime"] += time.time() - t0
        if r == z3.unsat:
            return "proved", "z3-5.3.2", None
        if r == z3.sat:
            return "sat", "z3-5.3.2", s.model()
        t0 = time.time()
        st2, be = self.external(s)
        self.stats["fulltime"] += time.time() - t0
        if st2 == "unsat":
            return "proved", be, None
        if st2 == "sat":
            return "sat", be, None
        return "unknown", be, None

    def external(self, s):
        """portfolio of the installed command line solvers"""
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        fd, path = tempfile.mkstemp(suffix=".smt2")
        os.write(fd, txt.encode())
        os.close(fd)
        sec = max(5, self.full_ms // 1000)
        cmds = [("cvc5-1.1.2", ["cvc5", f"--tlimit={sec * 1000}", path]),
                ("z3-4.8.12", ["/usr/bin/z3", f"-T:{sec}", path]),
                ("z3-new", ["z3-new", f"-T:{sec}", "tactic.default_tactic=smt", path])]
        procs = []
        for n, c in cmds:
            try:
                procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except FileNotFoundError:
                pass
        res = ("unknown", "portfolio")
        end = time.time() + sec + 5
        live = list(procs)
        while live and time.time() < end:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    out = p.stdout.read().strip().split("\n")[0]
                    if out in ("unsat", "sat"):
                        res = (out, n)
                        live = []
                        break
            time.sleep(0.02)
        for n, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        os.unlink(path)
        return res

    def oblige(self, st, goal, name, kind="safety", props=None):
        """record and discharge an obligation, then assume it"""
        g = simp(goal)
        if z3.is_true(g):
            if kind == "post" and not st.dry:
                o = Obligation(f"{self.cur}: {name}", kind)
                o.status, o.backend, o.props = "proved", "simplifier", props
                self.obls.append(o)
            return True
        if st.dry:
            guess = "#guess" in st.ghost
            if guess and kind == "life":
                return True
            if z3.is_false(g):
                raise Dead()
            if guess:
                st.ghost["#guess"] = st.ghost["#guess"] | {len(st.pc)}
            st.assume(g)
            return True
        o = Obligation(f"{self.cur}: {name}", kind)
        o.path = st.note
        o.props = props
        o.taint = st.taint
        t0 = time.time()
        neg = z3.Not(g)
        hit = False
        if neg.get_id() in self.cores:
            ids = {c.get_id() for c in st.pc}
            hit = any(core <= ids for core, _, _ in self.cores[neg.get_id()])
        if hit:
            o.status, o.backend = "proved", "z3-5.3.2(same core)"
        elif self.chk(st, neg) == z3.unsat:
            o.status, o.backend = "proved", "z3-5.3.2(inc)"
        else:
            stt, be, model = self.full_check(st, neg)
            o.status, o.backend = stt, be
            if stt == "sat":
                o.model = self.extract(model)
                o.detail = str(g)[:600]
                if st.taint or st.qf:
                    o.taint = st.taint or "quantified facts instantiated finitely"
                    o.status = "unknown"
        o.time = time.time() - t0
        self.obls.append(o)
        if self.verbose and (o.status != "proved" or o.time > 3):
            print(f"   [{o.status}] {o.name} {o.time:.1f}s {o.backend}", flush=True)
            if o.status != "proved" and self.verbose > 1:
                print("     ", o.detail[:500], o.model)
        if kind == "post":
            return o.status == "proved"
        if z3.is_false(g):
            raise Dead()
        st.assume(g)
        return o.status == "proved"

    def extract(self, model):
        if model is None:
            return None
        d = {}
        for k, v in self.inputs.items():
            try:
                x = model.eval(v, model_completion=True)
                d[k] = x.as_long() if z3.is_bv_value(x) else str(x)
            except z3.Z3Exception:
                pass
        return d

    # -------------------------------------------------- fresh names
    def fresh(self, st, site, sort=None):
        sort = sort or z3.BitVecSort(64)
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        name = f"{st.ghost.get('#L', '')}{site}#{n}"
        if st.taus:
            f = z3.Function(name, *[t.sort() for t in st.taus], sort)
            return f(*st.taus)
        return z3.Const(name, sort)

    def freshname(self, st, site):
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        return f"{st.ghost.get('#L', '')}{site}#{n}"

    # -------------------------------------------------- memory
    def new_cells(self, st, name, size, base=None, init=None, heap=False):
        b = base if base is not None else z3.BitVec("&" + name, 64)
        o = Obj(name, b, bv64(size), "cells", heap=heap)
        st.mem[o] = dict(init or {})
        st.assume(z3.And(z3.UGE(b, bv64(4096)), z3.ULT(b, bv64(LIMIT_ADDR)), (b & 15) == 0))
        return o

    def new_chain(self, st, name, size, gran=1, base_fn=None, heap=False, align=16):
        b = z3.BitVec("&" + name, 64)
        o = Obj(name, b, size, "chain", gran, base_fn=base_fn, heap=heap)
        st.mem[o] = None
        st.assume(z3.UGE(b, bv64(4096)), z3.ULT(b, bv64(LIMIT_ADDR)), (b & (align - 1)) == 0,
                  z3.ULE(size, bv64(LIMIT_ADDR)))
        return o

    def uf_base(self, name, gran):
        """initial content as an uninterpreted function of the byte offset"""
        f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * gran))

        def base(st, k, off, w):
            if w == gran:
                return f(simpo(off))
            if w > gran:
                n = w // gran
                return z3.Concat(*[f(simpo(off + i * gran)) for i in reversed(range(n))])
            # inside a granule
            r = num(z3.URem(off, bv64(gran)))
            if r is None:
                raise Unsupported(f"sub-granule access to {name}")
            return z3.Extract(8 * (r + w) - 1, 8 * r, f(simpo(off - r)))
        base.uf = f
        return base

    def sizeof(self, o, k):
        return o.size(k) if o.fam else o.size

    def check_access(self, st, p, w, what):
        """w: python int or 64-bit term"""
        o = p.obj
        if o is None or isinstance(o, FuncObj):
            self.oblige(st, FALSE, f"{what}: access through null or invalid pointer")
            raise Dead()
        if o in st.dead:
            self.oblige(st, FALSE, f"{what}: access to freed object {o.name}")
            raise Dead()
        if o.touch is not None:
            o.touch(st, p.idx)
        if o.live is not None:
            self.oblige(st, o.live(st, p.idx), f"{what}: access to live {o.name} only")
        size = self.sizeof(o, p.idx)
        wv = bv64(w) if isinstance(w, int) else w
        c = z3.And(z3.ULE(wv, size), z3.ULE(p.off, size - wv))
        c = simp(c)
        if z3.is_true(c):
            return
        # cheap syntactic memo
        self.oblige(st, c, f"{what}: in bounds of {o.name}")

    def load(self, st, p, w, what="load", isptr=False):
        self.check_access(st, p, w, what)
        return self.read(st, p.obj, p.idx, p.off, w)

    def store(self, st, p, w, val, what="store"):
        self.check_access(st, p, w, what)
        self.write(st, p.obj, p.idx, p.off, w, val)

    def read(self, st, o, k, off, w):
        if o.kind == "cells":
            return self.read_cells(st, o, off, w)
        return self.read_chain(st, o, st.mem[o], k, simpo(off), w)

    def write(self, st, o, k, off, w, val):
        if o.const:
            self.oblige(st, FALSE, f"write to constant {o.name}")
            raise Dead()
        if o.kind == "cells":
            self.write_cells(st, o, off, w, val)
        else:
            st.mem[o] = Chain(Point(k, simpo(off), w, val), st.mem[o])

    # cells -----------------------------------------------------
    def read_cells(self, st, o, off, w):
        d = st.mem[o]
        c = num(off)
        if c is None:
            # symbolic offset into a small object
            size = num(o.size)
            if size is None or size > 512:
                raise Unsupported(f"symbolic offset in {o.name}")
            res = None
            for i in range(0, size - w + 1):
                if w > 1 and i % w:
                    continue
                cond = off == i
                v = self.read_cells(st, o, bv64(i), w)
                res = v if res is None else vite(simp(cond), v, res)
            return res
        if (c, w) in d:
            v = d[(c, w)]
            if isinstance(v, Lazy):
                dd = self.decide(st, v.cond)
                if dd is None:
                    raise Fork(v.cond)
                return v.a if dd else v.b
            return v
        # narrower or wider cells
        for (c2, w2), v in d.items():
            if c2 <= c and c + w <= c2 + w2:
                b = asbv(v)
                if z3.is_bv(b) and b.size() < 8 * w2:
                    b = z3.ZeroExt(8 * w2 - b.size(), b)
                return simp(z3.Extract(8 * (c - c2 + w) - 1, 8 * (c - c2), b))
        over = [x for x in d if x[0] < c + w and c < x[0] + x[1]]
        if not over:
            v = z3.BitVec(f"uninit.{o.name}.{c}.{w}.{st.cnt.get('u', 0)}", 8 * w)
            if not o.const:
                st.mem[o] = dict(d)
                st.mem[o][(c, w)] = v
            return v
        if w == 1:
            raise Unsupported("cells read")
        parts = [asbv(self.read_cells(st, o, bv64(c + i), 1)) for i in range(w)]
        return simp(z3.Concat(*reversed(parts)))

    def split_cell(self, d, key):
        c, w = key
        v = d.pop(key)
        b = asbv(v)
        if b.size() < 8 * w:
            b = z3.ZeroExt(8 * w - b.size(), b)
        for i in range(w):
            d[(c + i, 1)] = simp(z3.Extract(8 * i + 7, 8 * i, b))

    def write_cells(self, st, o, off, w, val):
        d = dict(st.mem[o])
        c = num(off)
        if c is None:
            size = num(o.size)
            if size is None or size > 512:
                raise Unsupported(f"symbolic offset in {o.name}")
            vb = asbv(val)
            for i in range(0, size):
                old = asbv(self.read_cells(st, o, bv64(i), 1))
                d = dict(st.mem[o])
                for key in [x for x in d if x[0] <= i < x[0] + x[1] and x[1] > 1]:
                    self.split_cell(d, key)
                nv = old
                for j in range(w):
                    nv = z3.If(off == i - j, z3.Extract(8 * j + 7, 8 * j, vb), nv)
                d[(i, 1)] = simp(nv)
                st.mem[o] = d
            return
        if (c, w) not in d:
            for key in [x for x in d if x[0] < c + w and c < x[0] + x[1]]:
                if c <= key[0] and key[0] + key[1] <= c + w:
                    d.pop(key)
                else:
                    self.split_cell(d, key)
                    for i in range(key[0], key[0] + key[1]):
                        if c <= i < c + w:
                            d.pop((i, 1))
        d[(c, w)] = val
        st.mem[o] = d

    # chains ----------------------------------------------------
    def sub_read(self, val, w0, d, w):
        b = asbv(val)
        return simp(z3.Extract(8 * (d + w) - 1, 8 * d, b))

    def read_chain(self, st, o, ch, k, off, w):
        if ch is None:
            if o.base_fn is None:
                o.base_fn = self.uf_base("mem." + o.name, o.gran)
            return o.base_fn(st, k, off, w)
        e = ch.entry
        g = o.gran
        keq = TRUE
        if o.fam:
            if e.k is not None:
                keq = simp(k == e.k)
                if not z3.is_true(keq) and not z3.is_false(keq):
                    d = self.decide(st, keq)
                    if d is not None:
                        keq = z3.BoolVal(d)
            if z3.is_false(keq):
                return self.read_chain(st, o, ch.rest, k, off, w)
        rest = lambda: self.read_chain(st, o, ch.rest, k, off, w)
        if isinstance(e, Point):
            d = simpo(off - e.off)
            dn = snum(d)
            if dn is not None:
                if dn >= e.w or dn <= -w:
                    return rest()
                if dn == 0 and w == e.w:
                    return e.val if z3.is_true(keq) else vite(keq, e.val, rest())
                if 0 <= dn and dn + w <= e.w:
                    v = self.sub_read(e.val, e.w, dn, w)
                    return v if z3.is_true(keq) else vite(keq, v, rest())
                return self.bytewise(st, o, ch, k, off, w)
            # symbolic distance: hit iff 0 <= d < e.w (for granule-aligned accesses)
            if w == e.w or w < e.w:
                if w == e.w and (w == g):
                    hit = simp(z3.And(keq, off == e.off))
                    dec = self.decide(st, hit)
                    if dec is True:
                        return e.val
                    if dec is False:
                        return rest()
                    return vite(hit, e.val, rest())
            dis = z3.Or(z3.Not(keq), z3.And(z3.UGE(d, bv64(e.w)), z3.ULE(d, bv64(0) - w)))
            if self.entails(st, dis):
                return rest()
            if w == e.w and self.entails(st, z3.And(keq, d == 0)):
                return e.val
            if w < e.w:
                # w inside e at unknown granule position
                v = None
                b = asbv(e.val)
                base = rest()
                v = base
                for i in range(0, e.w - w + 1, w):
                    v = vite(simp(z3.And(keq, d == i)), simp(z3.Extract(8 * (i + w) - 1, 8 * i, b)), v)
                return v
            return self.bytewise(st, o, ch, k, off, w)
        if isinstance(e, Range):
            d = simpo(off - e.lo)
            inside = simp(z3.And(keq, z3.ULT(d, e.n)))
            if w > g or w != g:
                whole = z3.And(keq, z3.ULE(bv64(w), e.n), z3.ULE(d, e.n - w))
                if self.entails(st, whole):
                    return e.fn(st, off, w)
                dis = z3.Or(z3.Not(keq), z3.And(z3.UGE(d, e.n), z3.ULE(d, bv64(0) - w)), e.n == 0)
                if self.entails(st, dis):
                    return rest()
                if w > g:
                    return self.bytewise(st, o, ch, k, off, w)
            dec = self.decide(st, inside)
            if dec is True:
                return e.fn(st, off, w)
            if dec is False:
                return rest()
            return vite(inside, e.fn(st, off, w), rest())
        if isinstance(e, Lift):
            c = simp(z3.And(keq, e.cond(k, off, w)))
            dec = self.decide(st, c)
            if dec is True:
                return e.fn(st, k, off, w)
            if w > g and w != e.w0:
                return self.bytewise(st, o, ch, k, off, w)
            if dec is False:
                return rest()
            return vite(c, e.fn(st, k, off, w), rest())
        raise Unsupported("chain entry")

    def bytewise(self, st, o, ch, k, off, w, piece=None):
        g = piece or o.gran
        if w <= g:
            raise Unsupported(f"overlapping access of width {w} in {o.name} (granule {g})")
        parts = [asbv(self.read_chain(st, o, ch, k, simpo(off + i), g)) for i in range(0, w, g)]
        return simp(z3.Concat(*reversed(parts)))

    # block operations ------------------------------------------
    def bulk_copy(self, st, dst, src, n, what):
        """memmove semantics"""
        nn = num(n)
        if nn == 0:
            return
        if nn is None:
            d = self.decide(st, n == 0)
            if d is True:
                return
            if d is None:
                raise Fork(simp(n == 0))
        self.check_access(st, src, n, what + " source")
        self.check_access(st, dst, n, what + " destination")
        so, do = src.obj, dst.obj
        if do.const:
            self.oblige(st, FALSE, "write to constant")
            raise Dead()
        if nn is not None and so.kind == "cells" and do.kind == "cells" and num(src.off) is not None and num(dst.off) is not None:
            sc, dc = num(src.off), num(dst.off)
            raw = st.mem[so]
            vals = []
            for i, w in self.cell_pieces(st, so, sc, nn):
                v = raw.get((sc + i, w))
                vals.append((i, w, v if v is not None else self.read_cells(st, so, bv64(sc + i), w)))
            for i, w, v in vals:
                self.write_cells(st, do, bv64(dc + i), w, v)
            return
        if nn is not None and (so.kind == "cells" or do.kind == "cells") and nn <= 64:
            # copy cell-wise
            if so.kind == "cells" and num(src.off) is not None:
                pieces = self.cell_pieces(st, so, num(src.off), nn)
            elif nn % 8 == 0 and (so.kind == "chain"):
                pieces = [(i, 8) for i in range(0, nn, 8)]
            else:
                pieces = [(i, 1) for i in range(nn)]
            vals = [(i, w, self.read(st, so, src.idx, simpo(src.off + i), w)) for i, w in pieces]
            for i, w, v in vals:
                self.write(st, do, dst.idx, simpo(dst.off + i), w, v)
            return
        if do.kind == "chain":
            if nn is not None and nn <= do.gran:
                v = self.read(st, so, src.idx, src.off, nn)
                self.write(st, do, dst.idx, dst.off, nn, v)
                return
            snap = st.mem[so]
            soff, doff, sk = src.off, dst.off, src.idx
            if so.kind == "chain":
                def fn(st2, o, w):
                    return self.read_chain(st2, so, snap, sk, simpo(o - doff + soff), w)
            else:
                cells = dict(snap)

                def fn(st2, o, w):
                    tmp = st2.copy()
                    tmp.mem[so] = cells
                    return self.read_cells(tmp, so, simpo(o - doff + soff), w)
            if self.on_bulk_copy:
                self.on_bulk_copy(self, st, so, sk, soff, n)
            st.mem[do] = Chain(Range(dst.idx, simpo(doff), n, fn), st.mem[do])
            return
        # symbolic-length copy into a small cells object
        size = num(do.size)
        if size is None or size > 256:
            raise Unsupported("bulk copy into cells")
        snap_st = st.copy()
        nd = {}
        old = [asbv(self.read_cells(st, do, bv64(i), 1)) for i in range(size)]
        for i in range(size):
            rel = simpo(bv64(i) - dst.off)
            inside = simp(z3.ULT(rel, n))
            if z3.is_false(inside):
                nd[i] = old[i]
                continue
            try:
                sv = asbv(self.read(snap_st, so, src.idx, simpo(src.off + rel), 1))
            except Fork:
                raise
            nd[i] = simp(z3.If(inside, sv, old[i]))
        d = dict(st.mem[do])
        for i in range(size):
            if nd[i] is not old[i]:
                for key in [x for x in d if x[0] <= i < x[0] + x[1] and x[1] > 1]:
                    self.split_cell(d, key)
                d[(i, 1)] = nd[i]
        st.mem[do] = d

    def cell_pieces(self, st, o, c, n):
        d = st.mem[o]
        out, i = [], c
        end = c + n
        while i < end:
            best = None
            for (c2, w2) in d:
                if c2 == i and i + w2 <= end and (best is None or w2 > best):
                    best = w2
            if best is None:
                best = 8 if (i % 8 == 0 and i + 8 <= end and not any(
                    x[0] < i + 8 and i < x[0] + x[1] for x in d)) else 1
            out.append((i - c, best))
            i += best
        return out

    def bulk_set(self, st, dst, byte, n, what):
        nn = num(n)
        if nn == 0:
            return
        if nn is None:
            d = self.decide(st, n == 0)
            if d is True:
                return
            if d is None:
                raise Fork(simp(n == 0))
        self.check_access(st, dst, n, what)
        b = asbv(byte)
        do = dst.obj
        if do.kind == "cells":
            c = num(dst.off)
            if nn is not None and c is not None:
                i = 0
                while i < nn:
                    w = 8 if (c + i) % 8 == 0 and i + 8 <= nn else 1
                    v = b if w == 1 else simp(z3.Concat(*[b] * 8))
                    self.write_cells(st, do, bv64(c + i), w, v)
                    i += w
                return
            size = num(do.size)
            for i in range(size):
                old = asbv(self.read_cells(st, do, bv64(i), 1))
                inside = z3.ULT(simpo(bv64(i) - dst.off), n)
                self.write_cells(st, do, bv64(i), 1, simp(z3.If(inside, b, old)))
            return

        if nn is not None and nn <= 64 and nn % 8 == 0:
            for i in range(0, nn, 8):
                self.write(st, do, dst.idx, simpo(dst.off + i), 8, simp(z3.Concat(*[b] * 8)))
            return

        def fn(st2, o, w):
            return simp(z3.Concat(*[b] * w)) if w > 1 else b
        st.mem[do] = Chain(Range(dst.idx, simpo(dst.off), n, fn), st.mem[do])

    # -------------------------------------------------- values
    def const(self, v, ty):
        k = v[0]
        if k == "int":
            if ty.k == "ptr":
                return Ptr(None, bv64(v[1]))
            if ty.a == 1:
                return z3.BoolVal(v[1] & 1 == 1)
            return z3.BitVecVal(v[1], ty.a)
        if k == "null":
            return NULL
        if k == "glob":
            return self.global_ptr(v[1])
        if k == "undef":
            return self.zero(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            return [self.const(x, self.m.res(t)) for t, x in v[1]]
        if k == "bytes":
            return v[1]
        if k == "cgep":
            base = self.const(v[2][0][1], PTR)
            return self.gep(v[1], base, [(t, self.const(x, t)) for t, x in v[2][1:]])
        if k == "ccast":
            x = self.const(v[3], v[2])
            if v[1] in ("ptrtoint",):
                return x
            if v[1] == "inttoptr":
                return self.toptr(x)
            return x
        if k == "meta":
            return None
        raise Unsupported("const " + k)

    def zero(self, ty):
        ty = self.m.res(ty)
        if ty.k == "i":
            return FALSE if ty.a == 1 else z3.BitVecVal(0, ty.a)
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return [self.zero(t) for t in ty.a]
        if ty.k == "arr":
            return [self.zero(ty.b) for _ in range(ty.a)]
        raise Unsupported("zero " + ty.k)

    def global_ptr(self, name):
        if name in self.globals:
            return Ptr(self.globals[name], bv64(0))
        if name in self.m.funcs:
            o = FuncObj(name)
            self.globals[name] = o
            return Ptr(o, bv64(0))
        if name in self.m.globals:
            raw = self.m.globals[name]
            if isinstance(raw, str) and " alias " in raw:
                tgt = raw.split("@")[-1].strip().split(",")[0].strip('"')
                if tgt in self.m.funcs:
                    o = FuncObj(tgt)
                    self.globals[name] = o
                    return Ptr(o, bv64(0))
            t, init, const = self.m.glob(name)
            size = self.m.size(t) if t is not None else 8
            o = Obj("@" + name, z3.BitVec("&@" + name, 64), bv64(size), "cells", const=const)
            o.init = {}
            if init is not None:
                self.init_cells(o.init, 0, t, init)
            self.globals[name] = o
            return Ptr(o, bv64(0))
        raise Unsupported("global " + name)

    def init_cells(self, d, off, t, v):
        t = self.m.res(t)
        if v[0] in ("zero", "undef"):
            n = self.m.size(t)
            i = 0
            while i < n:
                w = 8 if i + 8 <= n and (off + i) % 8 == 0 else 1
                d[(off + i, w)] = z3.BitVecVal(0, 8 * w)
                i += w
        elif v[0] == "bytes":
            for i, b in enumerate(v[1]):
                d[(off + i, 1)] = z3.BitVecVal(b, 8)
        elif v[0] == "agg":
            if t.k == "struct":
                offs, _ = self.m.fields(t)
                for o2, (tt, x) in zip(offs, v[1]):
                    self.init_cells(d, off + o2, tt, x)
            else:
                es = self.m.size(t.b)
                for i, (tt, x) in enumerate(v[1]):
                    self.init_cells(d, off + i * es, tt, x)
        elif v[0] == "unsup" or v[0] == "fp":
            pass
        else:
            d[(off, self.m.size(t))] = self.const(v, t)

    def ensure_global(self, st, p):
        o = p.obj
        if isinstance(o, Obj) and o not in st.mem:
            if hasattr(o, "init"):
                st.mem[o] = dict(o.init)
                st.assume(z3.UGE(o.base, bv64(4096)), z3.ULT(o.base, bv64(LIMIT_ADDR)))

    def toptr(self, v):
        if isinstance(v, Ptr):
            return v
        if z3.is_bool(v):
            v = asbv(v)
        n = num(v)
        if n is not None:
            return Ptr(None, bv64(n))
        # recover provenance: v == base + off syntactically
        e = simpo(v)
        cands = []
        for o in list(self.basemap.values()) if hasattr(self, "basemap") else []:
            d = simpo(e - o.base)
            if not contains(d, o.base) and contains(e, o.base):
                cands.append((o, d))
        if cands:
            return Ptr(cands[0][0], cands[0][1])
        return Ptr(None, e)

    def gep(self, sty, base, idxs):
        off = bv64(0)
        t = sty
        first = True
        for it, iv in idxs:
            iv = asbv(iv)
            if iv.size() < 64:
                iv = z3.SignExt(64 - iv.size(), iv)
            if first:
                off = off + iv * self.m.size(t)
                first = False
                continue
            t = self.m.res(t)
            if t.k == "struct":
                j = num(iv)
                off = off + self.m.fields(t)[0][j]
                t = t.a[j]
            elif t.k in ("arr", "vec"):
                t = t.b
                off = off + iv * self.m.size(t)
            else:
                raise Unsupported("gep into " + t.k)
        p = self.toptr(base)
        return p.add(off)

    def val(self, env, v, ty):
        if v[0] == "loc":
            return env[v[1]]
        return self.const(v, self.m.res(ty) if ty.k == "named" else ty)

    # -------------------------------------------------- pointer comparison
    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj and a.obj is not None:
                if a.obj.fam:
                    if pred in ("eq", "ne"):
                        same = z3.And(a.idx == b.idx, a.off == b.off) if num(a.off) == 0 and num(b.off) == 0 else None
                        if same is not None:
                            return same if pred == "eq" else z3.Not(same)
                    if not z3.is_true(simp(a.idx == b.idx)):
                        d = self.decide(st, a.idx == b.idx)
                        if d is not True:
                            return self.int_cmp(pred, a.bits(), b.bits())
                if pred in ("eq", "ne") or a.obj.fam or isinstance(a.obj, FuncObj):
                    return self.int_cmp(pred, a.off, b.off)
                n = a.obj.size
                if self.entails(st, z3.And(z3.ULE(a.off, n), z3.ULE(b.off, n))):
                    return self.int_cmp(pred, a.off, b.off)
                lo, hi = bv64(-4096), bv64(1 << 47)      # below the object: addresses decide (no object lies in the first page)
                if pred[0] == "u" and self.entails(st, z3.And(a.off >= lo, a.off <= hi, b.off >= lo, b.off <= hi)):
                    return self.int_cmp("s" + pred[1:], a.off, b.off)
                return self.int_cmp(pred, a.bits(), b.bits())
            for x, y in ((a, b), (b, a)):
                if is_null(y) and x.obj is not None:
                    if pred in ("eq", "ne"):
                        if x.obj.fam:
                            c = x.obj.isnull(x.idx)
                        else:
                            c = FALSE
                        return c if pred == "eq" else z3.Not(c)
            if a.obj is not None and b.obj is not None:
                self.disjoint(st, a.obj, b.obj)
            return self.int_cmp(pred, a.bits(), b.bits())
        return self.int_cmp(pred, asbv(a), asbv(b))

    def disjoint(self, st, o1, o2):
        if isinstance(o1, FuncObj) or isinstance(o2, FuncObj) or o1.fam or o2.fam:
            return
        if o1 in st.dead or o2 in st.dead:
            return
        key = ("dis", min(o1.id, o2.id), max(o1.id, o2.id))
        if st.ghost.get(key):
            return
        st.ghost[key] = True
        # distinct live objects do not overlap (a zero-size object still has a unique address)
        s1 = z3.If(o1.size == 0, bv64(1), o1.size)
        s2 = z3.If(o2.size == 0, bv64(1), o2.size)
        st.assume(z3.Or(z3.ULE(o1.base + s1, o2.base), z3.ULE(o2.base + s2, o1.base)))

    def int_cmp(self, pred, a, b):
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = asbool(a), asbool(b)
            if pred == "eq":
                return simp(a == b)
            if pred == "ne":
                return simp(a != b)
            a, b = z3.If(a, BV(1, 1), BV(0, 1)), z3.If(b, BV(1, 1), BV(0, 1))
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
        return f()

    # -------------------------------------------------- execution
    def call(self, name, args, st, site="", rty=None, argtys=None):
        """returns list of ('ret', st, val) / ('unw', st, exc)"""
        mdl = self.models.get(name)
        if mdl is None:
            dn = self.dem.get(name, name)
            for pat, fn in self.model_pats:
                if pat.search(dn):
                    mdl = fn
                    break
            else:
                mdl = None
            self.models[name] = mdl if mdl is not None else False
        if mdl:
            return self.run_model(mdl, name, args, st, site, rty)
        cc = self.call_contracts.get(name)
        if cc is None and name not in self.ccache:
            dn = self.dem.get(name, name)
            for pat, fn in self.contract_pats:
                if pat.search(dn):
                    cc = fn
                    self.call_contracts[name] = fn
                    break
            self.ccache[name] = True
        if cc is not None and not (self.callstack and False) and self.top_func != name:
            return self.run_model(cc, name, args, st, site, rty)
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported("external function " + self.dem.get(name, name))
        if len(self.callstack) > 60 or self.callstack.count(name) > 3:
            raise Unsupported("recursion in " + self.dem.get(name, name))
        self.m.body(f)
        self.stats["inlined"].add(self.dem.get(name, name))
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        allocas_before = None
        self.callstack.append(name)
        try:
            outs = self.run(f, env, st, f.order[0], None, None, None)
            if self.on_local:
                for o in outs:
                    ls = o[1].ghost.get("locals", ())
                    if ls and o[0] in ("ret", "unw"):
                        for d, x in ls:
                            if d >= len(self.callstack):
                                self.on_local(self, o[1], x, None, False)
                        o[1].ghost["locals"] = tuple(y for y in ls if y[0] < len(self.callstack))
        finally:
            self.callstack.pop()
        return outs

    on_local = None
    top_func = None
    pow2 = ()
    model_pats = ()
    contract_pats = ()

    def run_model(self, mdl, name, args, st, site, rty):
        work = [st]
        outs = []
        while work:
            s = work.pop()
            s2 = s.copy()
            try:
                r = mdl(self, s2, args, site, name)
            except Fork as fk:
                for c in (fk.cond, z3.Not(fk.cond)):
                    c = simp(c)
                    if self.feasible(s, c):
                        s3 = s.copy()
                        s3.assume(c)
                        work.append(s3)
                continue
            except Dead:
                continue
            if isinstance(r, list):
                outs += r
            else:
                outs.append(("ret", s2, r))
        return outs

    def run(self, f, env, st, block, pred, region, header):
        """explore from `block`; region limits to a loop body (header = its header)"""
        outs = []
        work = [(env, st, block, pred, 0)]
        loops = self.m.loops(f)
        while work:
            env, st, block, pred, ip = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise ToolLimit("time budget exhausted")
            try:
                self.step_block(f, env, st, block, pred, ip, region, header, outs, work, loops)
            except Dead:
                continue
        return outs

    def goto(self, f, env, st, target, pred, region, header, outs, work, loops):
        if region is not None:
            if target == header:
                outs.append(("back", st, env, pred))
                return
            if target not in region:
                outs.append(("exit", st, env, target, pred))
                return
        if target in loops and not (region is not None and target == header) and (pred is None or pred not in loops[target]):
            for o in self.do_loop(f, env, st, target, pred):
                if o[0] == "exit":
                    _, s2, e2, tgt, prd = o
                    self.goto(f, e2, s2, tgt, prd, region, header, outs, work, loops)
                else:
                    outs.append(o)
            return
        work.append((env, st, target, pred, 0))

    def phis(self, f, env, block, pred):
        new = {}
        n = 0
        for ins in f.blocks[block]:
            if ins.op != "phi":
                break
            n += 1
            for v, b in ins.a:
                if b == pred:
                    new[ins.res] = self.val(env, v, ins.ty)
                    break
        env.update(new)
        return n

    def step_block(self, f, env, st, block, pred, ip, region, header, outs, work, loops):
        bl = f.blocks[block]
        if ip == 0:
            if pred is not None and bl and bl[0].op == "phi":
                ip = self.phis(f, env, block, pred)
        while True:
            ins = bl[ip]
            op = ins.op
            if op == "br":
                c = ins.a[0]
                if c is None:
                    return self.goto(f, env, st, ins.a[1], block, region, header, outs, work, loops)
                cv = simp(asbool(self.val(env, c, I1)))
                a, b = ins.a[1], ins.a[2]
                if a == b:
                    return self.goto(f, env, st, a, block, region, header, outs, work, loops)
                if region is not None and ((a in region) != (b in region)):
                    if (z3.is_true(cv) or z3.is_false(cv)) and (b if a in region else a) in self.m.live_blocks(f):
                        st.ghost["#lit"] = True
                if z3.is_true(cv):
                    return self.goto(f, env, st, a, block, region, header, outs, work, loops)
                if z3.is_false(cv):
                    return self.goto(f, env, st, b, block, region, header, outs, work, loops)
                fa = self.feasible(st, cv)
                fb = self.feasible(st, z3.Not(cv)) if fa else True
                if fa and fb:
                    s2 = st.copy()
                    s2.assume(simp(z3.Not(cv)))
                    st.assume(cv)
                    env2 = dict(env)
                    self.goto(f, env2, s2, b, block, region, header, outs, work, loops)
                    return self.goto(f, env, st, a, block, region, header, outs, work, loops)
                if fa:
                    return self.goto(f, env, st, a, block, region, header, outs, work, loops)
                return self.goto(f, env, st, b, block, region, header, outs, work, loops)
            if op == "switch":
                t, v, d, cases = ins.a
                x = asbv(self.val(env, v, t))
                nots = []
                for cv, tgt in cases:
                    c = simp(x == z3.BitVecVal(cv, t.a))
                    nots.append(z3.Not(c))
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        self.goto(f, dict(env), s2, tgt, block, region, header, outs, work, loops)
                c = simp(z3.And(*nots)) if nots else TRUE
                if self.feasible(st, c):
                    st.assume(c)
                    self.goto(f, env, st, d, block, region, header, outs, work, loops)
                return
            if op == "ret":
                v = None if ins.a is None else self.val(env, ins.a, ins.ty)
                outs.append(("ret", st, v))
                return
            if op == "unreachable":
                self.oblige(st, FALSE, f"{self.dem.get(f.name, f.name)}: unreachable reached")
                return
            if op == "resume":
                v = self.val(env, ins.a, Type("struct", [PTR, Type("i", 32)], False))
                outs.append(("unw", st, v))
                return
            if op in ("call", "invoke"):
                r = self.do_call(f, env, st, ins)
                # list of outcomes
                for o in r:
                    if o[0] == "ret":
                        e2 = dict(env) if len(r) > 1 else env
                        if ins.res is not None:
                            e2[ins.res] = o[2]
                        if op == "invoke":
                            self.goto(f, e2, o[1], ins.a[2], block, region, header, outs, work, loops)
                        else:
                            work.append((e2, o[1], block, pred, ip + 1))
                    elif o[0] == "unw":
                        if op == "invoke":
                            e2 = dict(env)
                            e2["#exc"] = o[2]
                            self.goto(f, e2, o[1], ins.a[3], block, region, header, outs, work, loops)
                        else:
                            outs.append(o)
                    else:
                        raise Unsupported("outcome " + o[0])
                return
            try:
                self.simple(f, env, st, ins)
            except Fork as fk:
                c = simp(fk.cond)
                if not z3.is_true(c) and not z3.is_false(c):
                    nc = simp(z3.Not(c))
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        work.append((dict(env), s2, block, pred, ip))
                    if self.feasible(st, nc):
                        s2 = st.copy()
                        s2.assume(nc)
                        work.append((dict(env), s2, block, pred, ip))
                    return
                raise Unsupported("degenerate fork")
            ip += 1

    def do_call(self, f, env, st, ins):
        callee, args, norm, unw = ins.a
        vals = []
        for t, v, byval in args:
            if t.k == "metadata":
                vals.append(None)
                continue
            x = self.val(env, v, t)
            if isinstance(x, Ptr):
                self.ensure_global(st, x)
            if byval is not None:
                sz = self.m.size(byval)
                o = self.new_cells(st, self.freshname(st, "byval." + ins.uid), sz)
                self.bulk_copy(st, Ptr(o, bv64(0)), x, bv64(sz), "byval")
                x = Ptr(o, bv64(0))
            vals.append(x)
        if callee[0] == "glob":
            name = callee[1]
            if name.startswith("llvm."):
                return self.intrinsic(f, env, st, ins, name, vals)
            if name not in self.m.funcs:
                p = self.global_ptr(name)
                if isinstance(p.obj, FuncObj):
                    name = p.obj.name
            return self.call(name, vals, st, ins.uid, ins.ty)
        if callee[0] == "loc":
            p = env[callee[1]]
            if isinstance(p, Ptr) and isinstance(p.obj, FuncObj) and num(p.off) == 0:
                return self.call(p.obj.name, vals, st, ins.uid, ins.ty)
            if self.indirect:
                return self.run_model(lambda e, s, a, site, nm: self.indirect(e, s, p, a, site), "indirect", vals, st,
                                      ins.uid, ins.ty)
            if is_null(p):
                self.oblige(st, FALSE, "call through null function pointer")
                raise Dead()
        raise Unsupported("indirect call " + repr(callee))

    def intrinsic(self, f, env, st, ins, name, a):
        n = name[5:]
        if n.startswith(("lifetime", "dbg", "experimental.noalias", "assume", "prefetch", "donothing", "stackrestore",
                         "invariant", "sideeffect")):
            return [("ret", st, None)]
        if n.startswith("stacksave"):
            return [("ret", st, NULL)]
        if n.startswith(("memcpy", "memmove")):
            what = n.split(".")[0]

            def mv(e, s, args, site, nm):
                d, sr = e.toptr(args[0]), e.toptr(args[1])
                e.ensure_global(s, d)
                e.ensure_global(s, sr)
                if what == "memcpy" and d.obj is sr.obj and d.obj is not None and num(args[2]) != 0:
                    ln = args[2]
                    dd = d.off - sr.off
                    e.oblige(s, z3.Or(ln == 0, dd == 0, z3.And(z3.UGE(dd, ln), z3.UGE(-dd, ln))), f"{e.dem.get(f.name, f.name)}: memcpy ranges do not overlap")
                e.bulk_copy(s, d, sr, args[2], f"{e.dem.get(f.name, f.name)}: {what}")
                return None
            return self.run_model(mv, name, a, st, ins.uid, None)
        if n.startswith("memset"):
            return self.run_model(
                lambda e, s, args, site, nm: e.bulk_set(s, e.toptr(args[0]), args[1], args[2], "memset"), name, a, st,
                ins.uid, None)
        x = [asbv(v) if not (z3.is_expr(v) and z3.is_bool(v)) else v for v in a]
        if ".with.overflow" in n:
            opn = n.split(".")[0]
            p, q = x[0], x[1]
            w = p.size()
            ext = z3.SignExt if opn[0] == "s" else z3.ZeroExt
            ew = w if opn[1:] == "mul" else 1
            pe, qe = ext(ew, p), ext(ew, q)
            if opn[1:] == "add":
                r, re_ = p + q, pe + qe
            elif opn[1:] == "sub":
                r, re_ = p - q, pe - qe
            else:
                r, re_ = p * q, pe * qe
            ov = simp(re_ != ext(ew, r))
            if opn == "uadd":
                ov = simp(z3.ULT(r, p))
            elif opn == "usub":
                ov = simp(z3.ULT(p, q))
            return [("ret", st, [simp(r), ov])]
        if n.startswith("umin"):
            return [("ret", st, simp(z3.If(z3.ULE(x[0], x[1]), x[0], x[1])))]
        if n.startswith("umax"):
            return [("ret", st, simp(z3.If(z3.UGE(x[0], x[1]), x[0], x[1])))]
        if n.startswith("smin"):
            return [("ret", st, simp(z3.If(x[0] <= x[1], x[0], x[1])))]
        if n.startswith("smax"):
            return [("ret", st, simp(z3.If(x[0] >= x[1], x[0], x[1])))]
        if n.startswith("abs"):
            return [("ret", st, simp(z3.If(x[0] < 0, -x[0], x[0])))]
        if n.startswith("expect"):
            return [("ret", st, a[0])]
        if n.startswith("is.constant"):
            return [("ret", st, FALSE)]
        if n.startswith("objectsize"):
            return [("ret", st, bv64(-1))]
        if n.startswith("eh.typeid.for"):
            p = a[0]
            return [("ret", st, self.typeid(p))]
        if n.startswith("trap"):
            self.oblige(st, FALSE, "trap")
            return []
        if n.startswith("bswap"):
            w = x[0].size()
            return [("ret", st, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x[0]) for i in range(w // 8)]))]
        if n.startswith("fshl") or n.startswith("fshr"):
            w = x[0].size()
            sh = z3.URem(x[2], z3.BitVecVal(w, w))
            c = z3.Concat(x[0], x[1])
            s2 = z3.ZeroExt(w, sh)
            if n.startswith("fshl"):
                r = z3.Extract(2 * w - 1, w, c << s2)
            else:
                r = z3.Extract(w - 1, 0, z3.LShR(c, s2))
            return [("ret", st, simp(r))]
        if n.startswith("ctlz"):
            w = x[0].size()
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, x[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return [("ret", st, r)]
        raise Unsupported("intrinsic " + name)

    typeids = None

    def typeid(self, p):
        if self.typeids is None:
            self.typeids = {}
        nm = p.obj.name if p.obj is not None else "null"
        return z3.BitVecVal(self.typeids.setdefault(nm, len(self.typeids) + 1), 32)

    def simple(self, f, env, st, ins):
        op = ins.op
        V = lambda v, t: self.val(env, v, t)
        m = self.m
        if op == "load":
            p = self.toptr(V(ins.a[0], PTR))
            self.ensure_global(st, p)
            t = m.res(ins.ty)
            fn = self.dem.get(f.name, f.name)
            if t.k in ("i", "ptr"):
                w = m.size(t)
                v = self.load(st, p, w, f"{fn}: load")
                if isinstance(v, (list, tuple)):
                    raise Unsupported("aggregate load")
                if t.k == "ptr":
                    v = self.toptr(v) if not isinstance(v, Ptr) else v
                    if isinstance(v.obj, Obj):
                        self.ensure_global(st, v)
                else:
                    if t.a == 1:
                        v = asbool(v) if not z3.is_bool(v) else v
                        if z3.is_bv(v):
                            v = v != 0
                    else:
                        if z3.is_bool(v):
                            v = asbv(v)
                        if not isinstance(v, Ptr) and v.size() > t.a:
                            v = z3.Extract(t.a - 1, 0, v)
                env[ins.res] = v
            elif t.k == "struct":
                offs, _ = m.fields(t)
                out = []
                for o2, ft in zip(offs, t.a):
                    ft = m.res(ft)
                    if ft.k not in ("i", "ptr"):
                        raise Unsupported("aggregate load")
                    v = self.load(st, p.add(bv64(o2)), m.size(ft), f"{fn}: load")
                    if ft.k == "ptr":
                        v = self.toptr(v)
                    out.append(v)
                env[ins.res] = out
            else:
                raise Unsupported("load of " + repr(t))
        elif op == "store":
            t, v, p, at = ins.a
            t = m.res(t)
            x = V(v, t)
            p = self.toptr(V(p, PTR))
            self.ensure_global(st, p)
            fn = self.dem.get(f.name, f.name)
            if t.k in ("i", "ptr"):
                if z3.is_expr(x) and z3.is_bv(x) and x.size() % 8:
                    x = z3.ZeroExt(8 * m.size(t) - x.size(), x)
                if z3.is_expr(x) and z3.is_bool(x):
                    x = asbv(x)
                if t.k == "i" and isinstance(x, Ptr) and m.size(t) != 8:
                    x = asbv(x)
                if v[0] == "undef":
                    x = self.fresh(st, "undef", z3.BitVecSort(8 * m.size(t)))
                self.store(st, p, m.size(t), x, f"{fn}: store")
            elif t.k == "struct":
                offs, _ = m.fields(t)
                for o2, ft, xv in zip(offs, t.a, x):
                    ft = m.res(ft)
                    if ft.k not in ("i", "ptr"):
                        raise Unsupported("aggregate store")
                    if z3.is_expr(xv) and z3.is_bool(xv):
                        xv = asbv(xv)
                    self.store(st, p.add(bv64(o2)), m.size(ft), xv, f"{fn}: store")
            else:
                raise Unsupported("store of " + repr(t))
        elif op == "getelementptr":
            sty, ops = ins.a
            base = V(ops[0][1], PTR)
            env[ins.res] = self.gep(sty, base, [(t, V(v, t)) for t, v in ops[1:]])
        elif op == "icmp":
            pred, t, x, y = ins.a
            a, b = V(x, t), V(y, t)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                a2 = self.toptr(a) if t.k == "ptr" else a
                b2 = self.toptr(b) if t.k == "ptr" else b
                for q in (a2, b2):
                    if isinstance(q, Ptr):
                        self.ensure_global(st, q)
                env[ins.res] = simp(self.ptr_cmp(st, pred, a2, b2))
            else:
                env[ins.res] = simp(self.int_cmp(pred, a, b))
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            x, y, flags = ins.a
            t = ins.ty
            if t.k != "i":
                raise Unsupported("vector op")
            a, b = V(x, t), V(y, t)
            if t.a == 1:
                a, b = asbool(a), asbool(b)
                if op == "and":
                    r = z3.And(a, b)
                elif op == "or":
                    r = z3.Or(a, b)
                elif op in ("xor", "add", "sub"):
                    r = z3.Xor(a, b)
                else:
                    raise Unsupported("i1 " + op)
                env[ins.res] = simp(r)
                return
            env[ins.res] = self.binop(st, op, a, b, t.a, flags)
        elif op in ("zext", "sext", "trunc"):
            t, x = ins.a
            v = V(x, t)
            n = ins.ty.a
            if t.a == 1:
                v = asbool(v)
                one = z3.BitVecVal(1 if op == "zext" else -1, n)
                env[ins.res] = simp(z3.If(v, one, z3.BitVecVal(0, n)))
                return
            v = asbv(v)
            if op == "zext":
                env[ins.res] = simp(z3.ZeroExt(n - t.a, v))
            elif op == "sext":
                env[ins.res] = simp(z3.SignExt(n - t.a, v))
            else:
                if n == 1:
                    env[ins.res] = simp(z3.Extract(0, 0, v) == 1)
                else:
                    env[ins.res] = simp(z3.Extract(n - 1, 0, v))
        elif op in ("ptrtoint", "bitcast", "freeze"):
            env[ins.res] = V(ins.a[1], ins.a[0])
            if op == "ptrtoint" and ins.ty.a != 64:
                env[ins.res] = z3.Extract(ins.ty.a - 1, 0, asbv(env[ins.res]))
        elif op == "inttoptr":
            env[ins.res] = self.toptr(V(ins.a[1], ins.a[0]))
        elif op == "alloca":
            t, cnt = ins.a
            sz = m.size(t)
            if cnt is not None:
                c = num(V(cnt[1], cnt[0]))
                if c is None:
                    raise Unsupported("vla")
                sz *= c
            o = self.new_cells(st, self.freshname(st, "alloca." + ins.uid), sz)
            env[ins.res] = Ptr(o, bv64(0))
            if self.on_local and self.on_local(self, st, o, repr(t), True):
                st.ghost["locals"] = st.ghost.get("locals", ()) + ((len(self.callstack), o),)
        elif op == "select":
            c, x, y = ins.a
            cv = simp(asbool(V(c, I1)))
            a, b = V(x, ins.ty), V(y, ins.ty)
            if z3.is_true(cv):
                env[ins.res] = a
            elif z3.is_false(cv):
                env[ins.res] = b
            elif isinstance(a, list):
                raise Fork(cv)
            else:
                if z3.is_expr(a) and z3.is_bool(a):
                    env[ins.res] = simp(z3.If(cv, a, b))
                else:
                    env[ins.res] = vite(cv, a, b)
        elif op == "extractvalue":
            t, v, idx = ins.a
            x = V(v, t)
            for j in idx:
                x = x[j]
            env[ins.res] = x
        elif op == "insertvalue":
            t, v, ev, idx = ins.a
            x = V(v, t)
            t2 = m.res(t)
            for j in idx:
                t2 = m.res(t2.a[j] if t2.k == "struct" else t2.b)
            e = V(ev, t2)

            def ins_(a, ix):
                a = list(a)
                a[ix[0]] = e if len(ix) == 1 else ins_(a[ix[0]], ix[1:])
                return a
            env[ins.res] = ins_(x, idx)
        elif op == "atomicrmw":
            sub, x, t, v = ins.a
            p = self.toptr(V(x, PTR))
            self.ensure_global(st, p)
            w = m.size(t)
            old = asbv(self.load(st, p, w, "atomicrmw"))
            b = asbv(V(v, t))
            if sub == "xchg":
                nv = b
            else:
                nv = self.binop(st, {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}[sub], old, b,
                                t.a, ())
            self.write(st, p.obj, p.idx, p.off, w, nv)
            env[ins.res] = old
        elif op == "cmpxchg":
            x, t, c, nv = ins.a
            p = self.toptr(V(x, PTR))
            w = m.size(t)
            old = asbv(self.load(st, p, w, "cmpxchg"))
            cv, n = asbv(V(c, t)), asbv(V(nv, t))
            eq = simp(old == cv)
            self.write(st, p.obj, p.idx, p.off, w, simp(z3.If(eq, n, old)))
            env[ins.res] = [old, eq]
        elif op == "landingpad":
            cleanup, cl = ins.a
            exc = env.get("#exc")
            if exc is None:
                raise Unsupported("landingpad without exception")
            env[ins.res] = self.landing(st, exc, cleanup, cl)
        elif op == "fence":
            pass
        else:
            raise Unsupported(f"{ins.text[:120]} ({ins.a if op == 'unsupported' else ''})")

    exc_types = {}

    def landing(self, st, exc, cleanup, cl):
        p = exc[0]
        tn = getattr(p.obj, "tname", None)
        if tn is None:
            raise Unsupported("exception of unknown type")
        for kind, v in cl:
            if kind != "catch":
                continue
            c = self.const(v, PTR)
            if is_null(c):
                return [p, z3.BitVecVal(0x7fff, 32)]
            if self.exc_isa(tn, c.obj.name):
                return [p, self.typeid(c)]
        return [p, z3.BitVecVal(0, 32)]

    EXC_PARENT = {"_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
                  "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt11logic_error": "_ZTISt9exception",
                  "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
                  "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception"}

    def exc_isa(self, tn, cn):
        cn = cn.lstrip("@")
        while tn:
            if tn == cn:
                return True
            tn = self.EXC_PARENT.get(tn)
        return False

    def binop(self, st, op, a, b, n, flags):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if a.obj is None or not a.obj.fam or z3.is_true(simp(a.idx == b.idx)):
                    return simpo(a.off - b.off)
            if op == "add" and n == 64:
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return a.add(b)
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return b.add(a)
            if op == "sub" and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return a.add(-b)
            a, b = asbv(a), asbv(b)
        if op == "add":
            return simpo(a + b)
        if op == "sub":
            return simpo(a - b)
        if op == "mul":
            return simpo(a * b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            d = num(b)
            if d is None:
                self.oblige(st, b != 0, "division by zero")
            elif d == 0:
                self.oblige(st, FALSE, "division by zero")
                raise Dead()
            if op == "udiv":
                if d and d & (d - 1) == 0:
                    if n == 64:
                        q = self.div_exact(st, a, d, True)
                        if q is not None:
                            return q
                    return simp(z3.LShR(a, z3.BitVecVal(d.bit_length() - 1, n)))
                return simp(z3.UDiv(a, b))
            if op == "urem" and not d and any(b.eq(x) for x in self.pow2):
                return simp(a & (b - 1))   # b is assumed to be a power of two by the contract
            if op == "urem":
                if d and d & (d - 1) == 0:
                    return simp(a & z3.BitVecVal(d - 1, n))
                return simp(z3.URem(a, b))
            if op == "sdiv":
                if d and "exact" in flags:
                    q = self.div_exact(st, a, d) if n == 64 else None
                    if q is not None:
                        return q
                    if d & (d - 1) == 0:
                        return simp(a >> z3.BitVecVal(d.bit_length() - 1, n))
                return simp(a / b)
            return simp(z3.SRem(a, b))
        if op == "shl":
            return simp(a << b)
        if op in ("lshr", "ashr") and n == 64 and num(b) is not None and 0 < num(b) < 16:
            q = self.div_exact(st, a, 1 << num(b), op == "lshr")
            if q is not None:
                return q
        if op == "lshr":
            return simp(z3.LShR(a, b))
        if op == "ashr":
            return simp(a >> b)
        if op == "and":
            return simp(a & b)
        if op == "or":
            return simp(a | b)
        if op == "xor":
            return simp(a ^ b)
        raise Unsupported(op)

    def div_exact(self, st, a, d, unsigned=False):
        """a / d when a is syntactically a multiple of d and cannot overflow: q with q*d = a, |q| small"""
        q = div_terms(a, d)
        if q is None:
            return None
        lim = bv64(((1 << 62) // d))
        if unsigned:
            return q if self.entails(st, z3.ULE(q, lim)) else None
        if self.entails(st, z3.And(q <= lim, q >= -lim)):
            return q
        return None

    # -------------------------------------------------- loops
    from .loops import (do_loop, do_loop1, candidates, holds, same_under, check_same_content, _cmp, first_nonphi,  # noqa
                        run_from, try_unroll)
