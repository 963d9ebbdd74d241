"""Loop handling: exact summaries (affine recurrences, lifted memory effects), inferred by running
the body on a symbolic iteration and then *checked* inductively; inductive invariants from
templates for everything that is not affine.  Nothing is assumed that is not checked:
  - closed forms and memory summaries are verified at the back edge (iteration t -> t+1),
  - invariants are checked on entry and at the back edge (Houdini),
  - "all earlier iterations took a back edge" is true by construction of t.
"""
import itertools
import z3
from .ir import Unsupported
from .core import *

MAX_UNROLL = 40


class Carried:
    def __init__(self, key, v0):
        self.key, self.v0 = key, v0
        self.mode = "free"     # free | affine
        self.delta = None      # for affine: (doff, didx) or d

    def __repr__(self):
        return f"{self.key}:{self.mode}:{self.delta}:{self.v0}"


def same(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj is not b.obj:
            return False
        return a.off.eq(b.off) and ((a.idx is None and b.idx is None) or (a.idx is not None and b.idx is not None and a.idx.eq(b.idx)))
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a is b or a == b


def try_unroll(self, f, env, st, header, pred, body):
    """complete unrolling of loops whose exit tests are decided by constants"""
    def attempt(dry):
        s = st.copy()
        s.dry = dry or st.dry
        res = []
        front = [(dict(env), s, pred)]
        for it in range(MAX_UNROLL + 1):
            nxt = []
            for e, s1, pr in front:
                self.phis(f, e, header, pr)
                s1.ghost["#lit"] = False
                ip = self.first_nonphi(f, header)
                outs = self.run_from(f, e, s1, header, ip, body)
                lit = False
                for o in outs:
                    if o[0] == "back":
                        if not o[1].ghost.get("#lit"):
                            return None
                        nxt.append((o[2], o[1], o[3]))
                    else:
                        res.append(o)
            front = nxt
            if not front:
                return res
            if len(front) > 64:
                return None
        return None
    d = attempt(True)
    if d is None:
        return None
    if st.dry:
        return d
    return attempt(False)


def first_nonphi(self, f, header):
    i = 0
    for ins in f.blocks[header]:
        if ins.op != "phi":
            return i
        i += 1
    return i


def run_from(self, f, env, st, header, ip, body):
    outs = []
    work = [(env, st, header, None, ip)]
    loops = self.m.loops(f)
    while work:
        env, st, block, pred, ip = work.pop()
        try:
            self.step_block(f, env, st, block, pred, ip, body, header, outs, work, loops)
        except Dead:
            continue
    return outs


def sub_tau(v, tau, term):
    return vsubst(v, [(tau, term)])


def lift_entry(self, st, o, e, tau, cond, T, free_fns):
    """entry written in iteration tau (under path condition cond(tau)) -> entry for 'all j < T'"""
    def solve(expr, what):
        l = lin(expr, tau)
        if l is None:
            raise Unsupported(f"loop writes {o.name} at a non-affine {what}: {expr}")
        s = snum(l[1])
        return l[0], s
    kj = None
    if o.fam and e.k is not None:
        a, s = solve(e.k, "index")
        if s:
            kj = (a, s)
    if isinstance(e, Point):
        a, s = solve(e.off, "offset") if kj is None else (None, None)
        w0 = e.w
        if kj is None:
            if not s:
                raise Unsupported(f"lift of loop-invariant write to {o.name}")
            if abs(s) < w0:
                raise Unsupported("overlapping strided writes")

        def jof(k, off):
            if kj is not None:
                return solve_lin(k, kj[0], kj[1])
            q = div_terms(off - a if s > 0 else a - off, abs(s))
            if q is not None:
                return q
            if s > 0:
                return simpo(udiv_const(simpo(off - a), s))
            return simpo(udiv_const(simpo(a + (w0 - 1) - off), -s))

        def cfn(k, off, w, e=e, cond=cond):
            j = jof(k, off)
            sub = [(tau, j)]
            lo = z3.substitute(e.off, *sub)
            d = simpo(off - lo)
            c = [z3.ULT(j, T), z3.substitute(cond, *sub)]
            if kj is not None:
                c.append(z3.substitute(e.k, *sub) == k)
            if w == w0:
                c.append(d == 0)
            elif w < w0:
                c.append(z3.ULE(d, bv64(w0 - w)))
            else:
                c.append(FALSE)
            if kj is None and o.fam and e.k is not None:
                c.append(e.k == k)
            return simp(z3.And(*c))

        def vfn(st2, k, off, w, e=e):
            j = jof(k, off)
            v = vsubst(e.val, [(tau, j)])
            if w == w0:
                return v
            lo = z3.substitute(e.off, (tau, j))
            d = simpo(off - lo)
            dn = snum(d)
            b = asbv(v)
            if dn is not None:
                return simp(z3.Extract(8 * (dn + w) - 1, 8 * dn, b))
            r = z3.Extract(8 * w - 1, 0, b)
            for i in range(w, w0, w):
                r = z3.If(d == i, z3.Extract(8 * (i + w) - 1, 8 * i, b), r)
            return simp(r)
        return Lift(None, cfn, vfn, w0)
    if isinstance(e, Range):
        if kj is None:
            a, s = solve(e.lo, "offset")
            n = num(e.n)
            if not s or n is None or abs(s) < n:
                raise Unsupported("block copy of symbolic length in a loop")
        else:
            s = None
            n = None

        def jof(k, off):
            if kj is not None:
                return solve_lin(k, kj[0], kj[1])
            q = div_terms(off - a if s > 0 else a - off, abs(s))
            if q is not None:
                return q
            if s > 0:
                return simpo(udiv_const(simpo(off - a), s))
            return simpo(udiv_const(simpo(a + (n - 1) - off), -s))

        def cfn(k, off, w, e=e, cond=cond):
            j = jof(k, off)
            sub = [(tau, j)]
            d = simpo(off - z3.substitute(e.lo, *sub))
            nn = z3.substitute(e.n, *sub)
            c = [z3.ULT(j, T), z3.substitute(cond, *sub), z3.ULE(bv64(w), nn), z3.ULE(d, nn - w)]
            if kj is not None:
                c.append(z3.substitute(e.k, *sub) == k)
            return simp(z3.And(*c))

        def vfn(st2, k, off, w, e=e):
            j = jof(k, off)
            return vsubst(e.fn(st2, off, w), [(tau, j)])
        return Lift(None, cfn, vfn, 1 << 30 if kj is not None or n is None else n)
    if isinstance(e, Lift):
        # nested summary: only for families indexed by the outer counter
        if e.k is None:
            kk = e.src
        kj2 = None
        if o.fam and e.k is not None:
            kj2 = kj
        if kj2 is None:
            raise Unsupported("nested loop summary on a non-family object")

        def cfn(k, off, w, e=e, cond=cond):
            j = solve_lin(k, kj2[0], kj2[1])
            sub = [(tau, j)]
            return simp(z3.And(z3.ULT(j, T), z3.substitute(cond, *sub), z3.substitute(e.k, *sub) == k,
                               z3.substitute(e.cond(k, off, w), *sub)))

        def vfn(st2, k, off, w, e=e):
            j = solve_lin(k, kj2[0], kj2[1])
            return vsubst(e.fn(st2, k, off, w), [(tau, j)])
        return Lift(None, cfn, vfn, e.w0)
    raise Unsupported("lift")


class Peel(Exception):
    """the first iterations differ in kind (e.g. a pointer changes object): peel one"""


def do_loop(self, f, env, st, header, pred, depth=0):
    try:
        return self.do_loop1(f, env.copy(), st.copy(), header, pred)
    except Peel as e:
        if depth >= 4:
            raise Unsupported(str(e))
    s = st.copy()
    e2 = dict(env)
    self.phis(f, e2, header, pred)
    out = []
    body = self.m.loops(f)[header]
    for o in run_from(self, f, e2, s, header, first_nonphi(self, f, header), body):
        if o[0] == "back":
            out += self.do_loop(f, o[2], o[1], header, o[3], depth + 1)
        else:
            out.append(o)
    return out


def do_loop1(self, f, env, st, header, pred):
    body = self.m.loops(f)[header]
    self.stats["loops"] += 1
    r = self.try_unroll(f, env, st, header, pred, body)
    if r is not None:
        for o in r:
            o[1].ghost.pop("#lit", None)
        return r
    site = f"loop:{f.name}:{header}"
    L = self.freshname(st, site)
    outerL = st.ghost.get("#L", "")
    entry = st
    entry_cnt = dict(st.cnt)
    phis = []
    for ins in f.blocks[header]:
        if ins.op != "phi":
            break
        phis.append(ins)
    carried = {}
    for ins in phis:
        for v, b in ins.a:
            if b == pred:
                carried[("phi", ins.res)] = Carried(("phi", ins.res), self.val(env, v, ins.ty))
    # syntactic induction variables: a guess, confirmed below like any other recurrence
    defs = {}
    for b in body:
        for ins in f.blocks[b]:
            if ins.res is not None:
                defs[ins.res] = ins
    for ins in phis:
        c = carried.get(("phi", ins.res))
        if c is None or z3.is_bool(c.v0) or isinstance(c.v0, (list, tuple)):
            continue
        ds = []
        for v, b in ins.a:
            if b not in body:
                continue
            d = None
            di = defs.get(v[1]) if v[0] == "loc" else None
            if v == ("loc", ins.res):
                d = 0
            elif di is not None and di.op == "getelementptr":
                sty, ops = di.a
                if ops[0][1] == ("loc", ins.res) and all(o[1][0] == "int" for o in ops[1:]):
                    g = self.gep(sty, NULL, [(tt, self.const(x, tt)) for tt, x in ops[1:]])
                    d = snum(g.off)
            elif di is not None and di.op in ("add", "sub") and di.a[0] == ("loc", ins.res) and di.a[1][0] == "int":
                d = di.a[1][1] if di.op == "add" else -di.a[1][1]
            ds.append(d)
        if ds and None not in ds and len(set(ds)) == 1:
            if isinstance(c.v0, Ptr):
                if c.v0.obj is None:
                    continue
                c.mode, c.delta = "affine", (bv64(ds[0]), bv64(0) if c.v0.idx is not None else None)
            elif z3.is_bv(c.v0):
                c.mode, c.delta = "affine", z3.BitVecVal(ds[0], c.v0.size())
    tau = z3.BitVec("tau@" + L, 64)
    t = z3.BitVec("t@" + L, 64)
    nip = first_nonphi(self, f, header)

    def name(c):
        k = c.key
        return "x@" + L + "." + ".".join(str(z.name if isinstance(z, Obj) else z) for z in k)

    def value(c, tm):
        v0 = c.v0
        if c.mode == "affine":
            if isinstance(v0, Ptr):
                do, di = c.delta
                return Ptr(v0.obj, simpo(v0.off + do * tm), None if v0.idx is None else simpo(v0.idx + di * tm))
            if z3.is_bool(v0):
                return v0
            w = v0.size()
            tt = tm if w == 64 else (z3.Extract(w - 1, 0, tm) if w < 64 else z3.ZeroExt(w - 64, tm))
            return simpo(v0 + c.delta * tt)
        taus = list(st.taus) + [tm]
        sorts = [x.sort() for x in taus]
        nm = name(c)
        if isinstance(v0, Ptr):
            off = z3.Function(nm + ".off", *sorts, z3.BitVecSort(64))(*taus)
            idx = None
            if v0.idx is not None:
                idx = z3.Function(nm + ".idx", *sorts, z3.BitVecSort(64))(*taus)
            if v0.obj is not None and v0.obj.fam:
                off = v0.off   # pointers into families move by index; offset stays fixed unless seen otherwise
                if c.delta == "offvar":
                    off = z3.Function(nm + ".off", *sorts, z3.BitVecSort(64))(*taus)
            return Ptr(v0.obj, off, idx)
        return z3.Function(nm, *sorts, v0.sort())(*taus)

    def start(tm, dry, lifted=None):
        s = entry.copy()
        s.cnt = {}
        s.ghost["#L"] = outerL + L + "/"
        s.dry = dry or entry.dry
        s.taus = tuple(entry.taus) + (tm,)
        if tm is tau:
            s.ghost["#guess"] = frozenset()
            s.assume(z3.ULT(tau, bv64(1 << 40)))   # discovery only guesses
        e = dict(env)
        for key, c in carried.items():
            v = value(c, tm)
            if key[0] == "phi":
                e[key[1]] = v
            elif key[0] == "cell":
                self.write_cells(s, key[1], bv64(key[2]), key[3], v)
            elif key[0] == "ghost":
                s.ghost[key[1]] = v
            elif key[0] == "pt":
                _, o, i, w = key
                k, off = pts[key]
                s.mem[o] = Chain(Point(k, off, w, v), s.mem[o])
        if lifted:
            for o, mk in lifted:
                s.mem[o] = Chain(mk(tm), s.mem[o])
        return e, s

    pts = {}

    def getval(c, o):
        """value of carried var at a back edge"""
        _, s, e, pr = o
        key = c.key
        if key[0] == "phi":
            for ins in phis:
                if ins.res == key[1]:
                    for v, b in ins.a:
                        if b == pr:
                            return self.val(e, v, ins.ty)
            raise Unsupported("phi")
        if key[0] == "cell":
            return self.read_cells(s, key[1], bv64(key[2]), key[3])
        if key[0] == "ghost":
            return s.ghost[key[1]]
        _, ob, i, w = key
        k, off = pts[key]
        return self.read_chain(s, ob, s.mem[ob], k, off, w)

    def find_new(base_s, backs, tm):
        """carried cells / ghosts / invariant points not yet known"""
        new = False
        for o in backs:
            s = o[1]
            for ob, content in s.mem.items():
                b = base_s.mem.get(ob)
                if b is None and ob not in base_s.mem:
                    if ob not in s.dead and ob.heap:
                        raise Unsupported("allocation inside a loop")
                    continue
                if content is b:
                    continue
                if ob.kind == "cells":
                    for key in set(content) | set(b):
                        if key in content and key in b and same(content[key], b[key]):
                            continue
                        if key in content and str(content[key]).startswith("uninit.") and key not in b:
                            continue
                        ck = ("cell", ob, key[0], key[1])
                        if ck not in carried:
                            v0 = self.read_cells(entry.copy(), ob, bv64(key[0]), key[1])
                            carried[ck] = Carried(ck, v0)
                            new = True
                else:
                    for e in appended(content, b):
                        if isinstance(e, Point) and not varies(e.off) and (e.k is None or not varies(e.k)):
                            known = any(kk[0] == "pt" and kk[1] is ob and kk[3] == e.w and pts[kk][1].eq(e.off) and
                                        (e.k is None or pts[kk][0].eq(e.k)) for kk in carried)
                            if not known:
                                ck = ("pt", ob, len(pts), e.w)
                                pts[ck] = (e.k, e.off)
                                v0 = self.read_chain(entry.copy(), ob, entry.mem[ob], e.k, e.off, e.w)
                                carried[ck] = Carried(ck, v0)
                                new = True
            for g, v in s.ghost.items():
                if isinstance(g, tuple) or (isinstance(g, str) and g.startswith("#")):
                    continue
                v1 = base_s.ghost.get(g)
                if not same(v, v1) and ("ghost", g) not in carried:
                    if not z3.is_expr(v):
                        raise Unsupported("ghost in loop " + str(g))
                    carried[("ghost", g)] = Carried(("ghost", g), entry.ghost[g])
                    new = True
            if s.dead - base_s.dead - {x for x in s.dead if x not in base_s.mem}:
                raise Unsupported("deallocation of a fixed object inside a loop")
        return new

    def varies(e):
        if contains(e, tau):
            return True
        apps = []
        uf_apps(e, apps, set())
        return any(("@" + L) in a.decl().name() for a in apps)

    def appended(ch, b):
        out = []
        while ch is not b:
            if ch is None:
                raise Unsupported("chain replaced in loop")
            out.append(ch.entry)
            ch = ch.rest
        return out

    # ---- 1. discover carried state and affine recurrences
    lifted = None
    for rnd in range(8):
        e, s0 = start(tau, True, lifted)
        base_s = s0.copy()
        npc = len(s0.pc)
        outs = run_from(self, f, e, s0, header, nip, body)
        backs = [o for o in outs if o[0] == "back"]
        if find_new(base_s, backs, tau):
            continue
        changed = False
        for c in carried.values():
            if c.mode == "affine":
                for o in backs:
                    nv = getval(c, o)
                    if not self.same_under(o[1], nv, value(c, tau + 1)):
                        raise Unsupported(f"recurrence of {c.key} unstable")
                continue
            cur = value(c, tau)
            deltas = []
            ok = True
            for o in backs:
                nv = getval(c, o)
                if isinstance(cur, Ptr):
                    if not isinstance(nv, Ptr):
                        nv = self.toptr(nv)
                    if is_null(nv) and cur.obj is not None and cur.obj.fam:
                        nv = Ptr(cur.obj, bv64(0), cur.obj.null_idx)
                    if nv.obj is not cur.obj:
                        raise Peel(f"loop variable {c.key} changes object {cur.obj} -> {nv.obj}")
                    if cur.obj is not None and cur.obj.fam and c.delta != "offvar" and not nv.off.eq(cur.off):
                        if num(simpo(nv.off - cur.off)) != 0:
                            c.delta = "offvar"
                            changed = True
                            ok = False
                            break
                    d = (simpo(nv.off - cur.off), None if cur.idx is None else simpo(nv.idx - cur.idx))
                    if varies(d[0]) or (d[1] is not None and varies(d[1])):
                        ok = False
                elif z3.is_bool(cur):
                    nvb = asbool(nv)
                    if not nvb.eq(cur):
                        ok = False
                    d = FALSE
                else:
                    nv = asbv(nv)
                    d = simpo(nv - cur)
                    if varies(d):
                        ok = False
                if not ok:
                    break
                deltas.append(d)
            if ok and deltas:
                d0 = deltas[0]
                if all((isinstance(d0, tuple) and d[0].eq(d0[0]) and (d[1] is None or d[1].eq(d0[1]))) or
                       (not isinstance(d0, tuple) and d.eq(d0)) for d in deltas):
                    c.mode = "affine"
                    c.delta = d0
                    changed = True
        if changed:
            continue
        break
    else:
        raise Unsupported("loop discovery did not converge: " + f.name)
    if not backs:
        # the body never reaches a back edge: run it once as straight-line code
        s = entry.copy()
        e2 = dict(env)
        self.phis(f, e2, header, pred)
        s.ghost["#once"] = True
        return [o for o in run_from(self, f, e2, s, header, nip, body)]

    # ---- 2. memory summaries (guess), refined once under the guess itself
    def path_cond(o, npc):
        return simp(z3.And(*o[1].pc[npc:])) if len(o[1].pc) > npc else TRUE

    def build_lift(backs, base_s, npc):
        res = []
        for o in backs:
            skip = o[1].ghost.get("#guess", ())
            pcnd = simp(z3.And(*[c for n, c in enumerate(o[1].pc) if n >= npc and n not in skip]))
            for ob, content in o[1].mem.items():
                if ob.kind != "chain" or ob not in base_s.mem or content is base_s.mem[ob]:
                    continue
                new = appended(content, base_s.mem[ob])      # latest first
                for n, ent in reversed(list(enumerate(new))):
                    if isinstance(ent, Point) and not varies(ent.off) and (ent.k is None or not varies(ent.k)):
                        continue
                    if isinstance(ent, Point) and any(isinstance(x, Point) and x.w == ent.w and x.off.eq(ent.off) and
                                                      (x.k is None) == (ent.k is None) and (x.k is None or x.k.eq(ent.k)) for x in new[:n]):
                        continue      # overwritten later in the same iteration
                    def mk(T, ob=ob, ent=ent, pcnd=pcnd):
                        return lift_entry(self, entry, ob, ent, tau, pcnd, T, None)
                    mk(tau)   # may raise Unsupported
                    res.append((ob, mk))
        return res

    def guess_rest(order):
        nonlocal lifted, backs, base_s, npc
        if lifted:
            # second look: path conditions and values as seen with earlier iterations' effects in place
            e, s0 = start(tau, True, lifted)
            base_s = s0.copy()
            npc = len(s0.pc)
            outs = run_from(self, f, e, s0, header, nip, body)
            backs2 = [o for o in outs if o[0] == "back"]
            if len(backs2) == len(backs):
                backs = backs2
            else:
                npc = len(base_s.pc)
                backs = backs2
                lifted2 = arrange(build_lift(backs, base_s, npc), order)
                lifted = lifted2

        # ---- 3. facts about earlier iterations
        free = [c for c in carried.values() if c.mode == "free"]
        jv = z3.BitVec("j@" + L, 64)
        disj = []
        for o in backs:
            cs = [path_cond(o, npc)]
            for c in free:
                nv = getval(c, o)
                nx = value(c, tau + 1)
                cs.append(eqv(nv, nx))
            disj.append(z3.And(*cs))
        cont = z3.substitute(z3.Or(*disj), (tau, jv))

        def facts(tm):
            q = QFact(jv, z3.Implies(z3.ULT(jv, tm), cont), "cont@" + L, hints=[simpo(tm - 1)])
            return q

        def init_facts(s):
            for c in free:
                v = value(c, bv64(0))
                s.assume(simp(eqv(v, c.v0)))

        # ---- 4. invariants for the rest
        cands = []
        if free or self.loop_templates:
            cands = self.candidates(entry, f, header, carried, free, value, L)

        atoms = []
        cmp_atoms(cont, atoms, set())
        seen_b = set()
        for at in atoms:
            if at.arg(0).sort() != jv.sort():
                continue
            d = simpo(at.arg(0) - at.arg(1))
            ll = lin(d, jv) if contains(d, jv) else None
            sl = snum(ll[1]) if ll is not None else None
            if not sl or varies(ll[0]):
                continue
            c0 = solve_lin(bv64(0), ll[0], sl)
            for b in (c0, simpo(c0 + 1)):
                if b.get_id() not in seen_b:
                    seen_b.add(b.get_id())
                    cands.insert(0, Inv(f"t<=bound{len(seen_b)}", lambda tm, b=b: z3.ULE(tm, b)))
        memo = self.invmemo.setdefault((f.name, header), {})
        cands = [iv for iv in cands if iv.name.startswith("t<=") or memo.get(iv.name, (0, 0))[0] or memo.get(iv.name, (0, 0))[1] < 2]

        def with_inv(tm, dry, inv):
            e, s = start(tm, dry, lifted)
            init_facts(s)
            if free and not s.taint:
                s.taint = f"inductive state in {self.dem.get(f.name, f.name)}"
            s.qf.append(facts(tm))
            for iv in inv:
                iv.assume(s, tm)
            return e, s

        inv = []
        for iv in cands:
            s = entry.copy()
            s.dry = True
            init_facts(s)
            if self.holds(s, iv.goal(s, bv64(0)), 1500):
                inv.append(iv)
        tried = list(inv)
        bad = set()
        while inv:
            e, s = with_inv(t, True, inv)
            outs = run_from(self, f, e, s, header, nip, body)
            bad = set()
            for o in outs:
                if o[0] != "back":
                    continue
                s2 = o[1]
                for c in free:
                    s2.assume(simp(eqv(value(c, simpo(t + 1)), getval(c, o))))
                for iv in inv:
                    if iv in bad:
                        continue
                    if not self.holds(s2, iv.goal(s2, simpo(t + 1)), 1500 if not memo.get(iv.name, (0, 0))[0] else 10000):
                        bad.add(iv)
            if not bad:
                break
            inv = [iv for iv in inv if iv not in bad]

        for iv in tried:
            g, b = memo.get(iv.name, (0, 0))
            memo[iv.name] = (g + 1, b) if iv in inv else (g, b + 1)
        return free, facts, inv, with_inv, lifted

    def check_content(s2, nl):
        for ob in list(s2.mem):
            if ob.kind != "chain" or ob not in entry.mem or s2.mem[ob] is entry.mem[ob]:
                continue
            chk = entry.mem[ob]
            for key in carried:
                if key[0] == "pt" and key[1] is ob:
                    k, off = pts[key]
                    chk = Chain(Point(k, off, key[3], value(carried[key], simpo(t + 1))), chk)
            for mk in nl.get(ob, ()):
                chk = Chain(mk(simpo(t + 1)), chk)
            self.check_same_content(s2, ob, s2.mem[ob], chk, f, L)
            self.stats["summaries"] += 1

    lifted0 = build_lift(backs, base_s, npc)
    by = {}
    for n, (ob, mk) in enumerate(lifted0):
        by.setdefault(ob, []).append(n)
    sizes = [len(x) for x in by.values()]
    # several entries for one object: in which order do they hide each other?
    orders = [None]
    if any(n > 1 for n in sizes) and all(n <= 3 for n in sizes):
        orders = list(itertools.product(*[list(itertools.permutations(x)) for x in by.values()]))[:12]
        omemo = self.invmemo.setdefault((f.name, header, "order"), {})
        best = omemo.get(tuple(sizes))
        if best is not None:
            orders = [orders[best]] + [x for n, x in enumerate(orders) if n != best]
    backs0, base0, npc0 = backs, base_s, npc

    def arrange(ls, order):
        if order is None:
            return ls
        ranks = {}
        k2 = {}
        for ob, mk in ls:
            k2.setdefault(ob, []).append(mk)
        out = []
        for ob, od in zip(by, order):
            ms = k2.get(ob, [])
            if len(ms) != len(od):
                raise Unsupported("loop effects vary")
            lo = min(od)
            srt = sorted(od)
            out += [(ob, ms[srt.index(x)]) for x in od]
        if sum(len(x) for x in k2.values()) != len(out):
            raise Unsupported("loop effects vary")
        return out

    for onum, order in enumerate(orders):
        try:
            lifted = arrange(lifted0, order)
            backs, base_s, npc = backs0, base0, npc0
            r5 = guess_rest(order)
        except Unsupported:
            if onum == len(orders) - 1:
                raise
            continue
        free, facts, inv, with_inv, lifted = r5
        if len(orders) > 1:
            ok = True
            e, s = with_inv(t, True, inv)
            nl = {}
            for ob, mk in lifted:
                nl.setdefault(ob, []).append(mk)
            for o in run_from(self, f, e, s, header, nip, body):
                if o[0] == "back":
                    try:
                        check_content(o[1], nl)
                    except Unsupported:
                        ok = False
                        break
            if not ok:
                continue
            omemo[tuple(sizes)] = (onum if best is None else ([best] + [n for n in range(len(orders)) if n != best])[onum])
        break

    # ---- 5. verification run
    e, s = with_inv(t, entry.dry, inv)
    nlift = {}
    for ob, mk in lifted or ():
        nlift.setdefault(ob, []).append(mk)
    if free and not inv:
        pass
    outs = run_from(self, f, e, s, header, nip, body)
    res = []
    for o in outs:
        if o[0] == "back":
            if entry.dry:
                continue
            s2 = o[1]
            for c in carried.values():
                nv = getval(c, o)
                if c.mode == "affine":
                    if not self.same_under(s2, nv, value(c, simpo(t + 1))):
                        raise Unsupported(f"loop closed form of {c.key} not inductive in {f.name}")
                else:
                    s2.assume(simp(eqv(value(c, simpo(t + 1)), nv)))
            for iv in inv:
                if not self.holds(s2, iv.goal(s2, simpo(t + 1))):
                    raise Unsupported(f"invariant {iv.name} lost in verification run")
            check_content(s2, nlift)
            continue
        s2 = o[1]
        s2.ghost["#L"] = outerL
        s2.taus = entry.taus
        s2.dry = entry.dry
        s2.cnt = dict(entry_cnt)
        s2.cnt[site] = entry_cnt.get(site, 0) + 1
        if free:
            s2.ghost["#free"] = True
        res.append(o)
    return res


def eqv(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            c = [a.off == b.off]
            if a.idx is not None:
                c.append(a.idx == b.idx)
            return z3.And(*c)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            for x, y in ((a, b), (b, a)):
                if is_null(x) and y.obj is not None and y.obj.fam:
                    return y.obj.isnull(y.idx)
        return asbv(a) == asbv(b)
    if z3.is_bool(a) != z3.is_bool(b):
        return asbv(a) == asbv(b)
    return a == b


class Inv:
    """invariant candidate; expr(t) -> Bool"""

    def __init__(self, name, expr):
        self.name, self.expr = name, expr

    def assume(self, s, tm):
        s.assume(simp(self.expr(tm)))

    def goal(self, s, tm):
        return self.expr(tm)


class QInv:
    """quantified invariant: forall v. body(t, v)"""

    def __init__(self, name, body, sort=None):
        self.name, self.body = name, body
        self.sort = sort or z3.BitVecSort(64)

    def assume(self, s, tm):
        v = z3.Const("qv!" + self.name, self.sort)
        s.qf.append(QFact(v, self.body(tm, v), self.name))

    def goal(self, s, tm):
        v = z3.FreshConst(self.sort, "sk")
        return self.body(tm, v)


def candidates(self, st, f, header, carried, free, value, L):
    out = []
    allv = list(carried.values())
    for c in free:
        if isinstance(c.v0, Ptr):
            if c.v0.obj is None:
                continue
            if c.v0.idx is not None:
                g = lambda tm, c=c: value(c, tm).idx
                z = c.v0.idx
            else:
                g = lambda tm, c=c: value(c, tm).off
                z = c.v0.off
        elif z3.is_bool(c.v0):
            continue
        else:
            g = lambda tm, c=c: value(c, tm)
            z = c.v0
        out.append(Inv(f"{c.key}>=init", lambda tm, g=g, z=z: z3.UGE(g(tm), z)))
        out.append(Inv(f"{c.key}<=init", lambda tm, g=g, z=z: z3.ULE(g(tm), z)))
        if isinstance(c.v0, Ptr) and c.v0.idx is None:
            for c2 in allv:
                if c2 is c or not isinstance(c2.v0, Ptr) or c2.v0.obj is not c.v0.obj or c2.v0.idx is not None:
                    continue
                out.append(Inv(f"{c.key}<={c2.key}", lambda tm, g=g, c2=c2: z3.ULE(g(tm), value(c2, tm).off)))
            sz = self.sizeof(c.v0.obj, None) if not c.v0.obj.fam else None
            if sz is not None:
                out.append(Inv(f"{c.key}<=size", lambda tm, g=g, sz=sz: z3.ULE(g(tm), sz)))
    for tpl in self.loop_templates:
        out += tpl(self, st, f, header, carried, free, value, L) or []
    return out


def holds(self, s, goal, ms=10000):
    g = simp(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return self.chk(s, TRUE) == z3.unsat
    if self.chk(s, z3.Not(g)) == z3.unsat:
        return True
    if s.qf:
        ex = list(s.pc) + [z3.Not(g)]
        facts = self.instantiate(ex, s.qf)
        sv = z3.Solver()
        sv.set("timeout", ms)
        for x in ex + facts:
            sv.add(x)
        return sv.check() == z3.unsat
    return False


def same_under(self, s, a, b):
    if same(a, b):
        return True
    g = simp(eqv(a, b))
    return self.holds(s, g)


def check_same_content(self, s, ob, ch1, ch2, f, L):
    o = z3.BitVec("skoff@" + L, 64)
    s3 = s.copy()
    k = None
    if ob.fam:
        k = z3.BitVec("skidx@" + L, 64)
        widths = ob.field_views
        for off, w, extra in widths:
            oo = off if off is not None else o
            if isinstance(oo, int):
                oo = bv64(oo)
            s4 = s3.copy()
            if extra is not None:
                s4.assume(extra(s4, k, oo))
            self._cmp(s4, ob, ch1, ch2, k, oo, w, f)
        return
    g = ob.gran
    if g > 1:
        s3.assume(z3.ULT(o, bv64(1 << 56)))
        o = simpo(o * g)      # every offset of a granule: sizes stay below 2^56
    s3.assume(z3.ULT(o, ob.size))
    self._cmp(s3, ob, ch1, ch2, k, o, g, f)


def _cmp(self, s, ob, ch1, ch2, k, o, w, f):
    work = [s]
    while work:
        x = work.pop()
        try:
            a = self.read_chain(x, ob, ch1, k, o, w)
            b = self.read_chain(x, ob, ch2, k, o, w)
        except Fork as fk:
            for c in (fk.cond, z3.Not(fk.cond)):
                c = simp(c)
                if self.feasible(x, c):
                    y = x.copy()
                    y.assume(c)
                    work.append(y)
            continue
        if not self.same_under(x, a, b):
            raise Unsupported(f"memory summary of a loop in {self.dem.get(f.name, f.name)} is not inductive for {ob.name}")
