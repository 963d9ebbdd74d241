"""Contracts for /repo/arena: Arena and Arena::Block."""
import re
import z3
from vf.core import *
from vf.engine import Engine
from vf.ir import Unsupported
from vf import models, build

HDR = 32
FIELDS = dict(prev=0, pos=8, size=16, limit=24)
LAY = ["SIZE", "last", "resource", "cookie", "space", "normal", "huge", "init", "block_alloc", "block_dealloc",
       "logger", "h_init", "h_reset", "h_allocation", "h_newblock", "h_destruction"]
HOOKS = ["h_init", "h_reset", "h_allocation", "h_newblock", "h_destruction"]
MAXB = 1 << 46


def layout(eng):
    p = eng.global_ptr("lay")
    return {n: num(p.obj.init[(8 * i, 8)]) for i, n in enumerate(LAY)}


class World:
    """an arbitrary well-formed arena: n >= 0 blocks, newest first"""

    def __init__(self, eng, st, n=None, hooks=None, resource=True):
        self.eng = eng
        self.L = layout(eng)
        B = z3.BitVecSort(64)
        self.n = z3.BitVec("nblocks", 64) if n is None else n
        self.ADDR = z3.Function("blk.addr", B, B)
        self.POS = z3.Function("blk.pos", B, B)
        self.SIZE = z3.Function("blk.size", B, B)
        self.LIMIT = z3.Function("blk.limit", B, B)
        self.ELEM = z3.Function("node.elem", B, B, B)
        self.FN = z3.Function("node.fn", B, B, B)
        self.WORD = z3.Function("blk.word", B, B, B)
        st.assume(z3.ULT(self.n, bv64(1 << 40)))
        eng.inputs["nblocks"] = self.n
        self.blk = Obj("block", lambda k: self.ADDR(k), lambda k: self.SIZE(k), "chain", 8, fam=True)
        b = self.blk
        b.isnull = lambda k: k == self.n
        b.null_idx = self.n
        b.base_fn = self.base_fn
        b.touch = self.touch
        b.live = lambda s, k: z3.And(z3.ULT(k, self.n), self.alive(s, k))
        b.field_views = [(0, 8, None), (8, 8, None), (16, 8, None), (24, 8, None),
                         (None, 8, lambda s, k, o: z3.And(z3.UGE(o, bv64(HDR)), (o & 7) == 0))]
        st.mem[b] = None
        # ghost: live flag and number of cleanups run, per block
        self.g_live = Obj("ghost.live", lambda k: bv64(0), lambda k: bv64(8), "chain", 8, fam=True)
        self.g_done = Obj("ghost.done", lambda k: bv64(0), lambda k: bv64(8), "chain", 8, fam=True)
        for g, init in ((self.g_live, 1), (self.g_done, 0)):
            g.base_fn = (lambda v: lambda s, k, o, w: bv64(v))(init)
            g.isnull = b.isnull
            g.null_idx = self.n
            g.field_views = [(0, 8, None)]
            st.mem[g] = None
        self.normal, self.huge, self.init = (z3.BitVec(x, 64) for x in ("normal_block_size", "huge_block_size", "suggested_init_block_size"))
        for x in (self.normal, self.huge, self.init):
            st.assume(z3.ULT(x, bv64(1 << 40)))
        # documented: block sizes are powers of two (page sizes)
        st.assume(z3.UGE(self.normal, bv64(64)), z3.ULE(self.normal, self.huge),
                  self.normal & (self.normal - 1) == 0, self.huge & (self.huge - 1) == 0, self.init & 7 == 0)
        eng.pow2 = (self.normal,)
        self.cookie = z3.BitVec("cookie", 64)
        self.space = z3.BitVec("space_allocated", 64)
        eng.inputs.update(normal_block_size=self.normal, huge_block_size=self.huge,
                          suggested_init_block_size=self.init, space_allocated=self.space)
        st.assume(z3.ULT(self.space, bv64(1 << 46)))
        L = self.L
        self.hook = {h: z3.Bool("has_" + h) for h in HOOKS}
        cells = {(L["normal"], 8): self.normal, (L["huge"], 8): self.huge, (L["init"], 8): self.init,
                 (L["block_alloc"], 8): self.fn("block_alloc"), (L["block_dealloc"], 8): self.fn("block_dealloc"),
                 (L["logger"], 8): self.fn("logger"), (L["cookie"], 8): Ptr(None, self.cookie),
                 (L["space"], 8): self.space, (L["last"], 8): Lazy(self.n == 0, NULL, Ptr(b, bv64(0), bv64(0)))}
        for h in HOOKS:
            cells[(L[h], 8)] = Lazy(self.hook[h], self.fn(h), NULL)
        self.arena = eng.new_cells(st, "arena", L["SIZE"], init=cells)
        self.res = None
        if resource:
            vt = eng.global_ptr("_ZTVN4stdb6memory5Arena15memory_resourceE")
            self.res = eng.new_cells(st, "resource", 16, init={(0, 8): vt.add(bv64(16)), (8, 8): Ptr(self.arena, bv64(0))}, heap=True)
            st.mem[self.arena][(L["resource"], 8)] = Ptr(self.res, bv64(0))
        else:
            st.mem[self.arena][(L["resource"], 8)] = NULL
        self.pre = dict(st.mem[self.arena])
        self.this = Ptr(self.arena, bv64(0))
        st.ghost["calls"] = ()
        eng.indirect = self.indirect
        self.install_models()

    def fn(self, name):
        o = FuncObj("EXT:" + name)
        return Ptr(o, bv64(0))

    # ---- representation invariant of block k
    def rep(self, k):
        return z3.And(
            z3.UGE(self.ADDR(k), bv64(4096)), z3.ULT(self.ADDR(k), bv64(1 << 47)), (self.ADDR(k) & 7) == 0,
            z3.UGE(self.POS(k), bv64(HDR)), (self.POS(k) & 7) == 0, z3.ULE(self.POS(k), self.LIMIT(k)),
            z3.ULE(self.LIMIT(k), self.SIZE(k)), ((self.SIZE(k) - self.LIMIT(k)) & 15) == 0,
            (self.LIMIT(k) & 7) == 0, z3.ULT(self.SIZE(k), bv64(MAXB)))

    def touch(self, st, k):
        c = simp(z3.ULT(k, self.n))
        key = ("touched", c.get_id(), simp(k).get_id())
        if key in st.ghost:
            return
        st.ghost[key] = (c, k)
        st.assume(simp(z3.Implies(c, self.rep(k))))

    def base_fn(self, st, k, off, w):
        self.touch(st, k)
        o = num(off)
        if w == 8 and o is not None and o < HDR:
            if o == 0:
                return Ptr(self.blk, bv64(0), simpo(k + 1))
            return {8: self.POS, 16: self.SIZE, 24: self.LIMIT}[o](k)
        if w == 8:
            # payload: cleanup nodes live in [limit, size): 16 bytes each {element, cleanup}
            node = z3.LShR(simpo(off - self.LIMIT(k)), bv64(4))
            sec = simp((off - self.LIMIT(k)) & 8 == 0)
            d = self.eng.decide(st, z3.And(z3.UGE(off, self.LIMIT(k)), z3.ULT(off, self.SIZE(k))))
            if d is True:
                ds = self.eng.decide(st, sec)
                if ds is True:
                    return self.ELEM(k, simpo(node))
                if ds is False:
                    return self.FN(k, simpo(node))
                return z3.If(sec, self.ELEM(k, node), self.FN(k, node))
            return self.WORD(k, off)
        raise Unsupported("block access width")

    def alive(self, st, k):
        ch = st.mem[self.g_live]
        if ch is None:
            return TRUE
        return self.eng.read_chain(st, self.g_live, ch, k, bv64(0), 8) == 1

    def done(self, st, k):
        return self.eng.read_chain(st, self.g_done, st.mem[self.g_done], k, bv64(0), 8)

    def ncleanups(self, k):
        return z3.LShR(self.SIZE(k) - self.LIMIT(k), bv64(4))

    # ---- environment: option callbacks, fmt/iostream noise
    def event(self, st, *ev):
        st.ghost["calls"] = st.ghost["calls"] + (ev,)

    def install_models(self):
        e = self.eng

        def ext(name, f):
            e.models["EXT:" + name] = f
        ext("block_alloc", self.m_block_alloc)
        ext("block_dealloc", self.m_block_dealloc)
        ext("logger", lambda en, s, a, site, nm: self.event(s, "logger"))
        for h in HOOKS:
            ext(h, (lambda h: lambda en, s, a, site, nm: self.m_hook(s, h, a))(h))
        e.model_pats.append((re.compile(r"fmt::v\d+::"), self.m_fmt))
        e.model_pats.append((re.compile(r"boost::core::|std::type_info::name"), self.m_fmt))
        e.model_pats.append((re.compile(r"std::__cxx11::basic_string<char.*>::~?basic_string"), models.m_nop))
        e.model_pats.append((re.compile(r"std::pmr::memory_resource::~memory_resource"), models.m_nop))

    def use_newblock_contract(self):
        """callers see newBlock through the contract proved by the unit arena.newblock"""
        self.eng.contract_pats.append((re.compile(r"^stdb::memory::Arena::newBlock\(unsigned long, stdb::memory::Arena::Block\*\)$"), self.m_newblock))

    def m_newblock(self, en, st, a, site, nm):
        this, minb, prev = en.toptr(a[0]), asbv(a[1]), en.toptr(a[2])
        if this.obj is not self.arena or num(this.off) != 0:
            raise Unsupported("newBlock of another arena")
        last = self.field(st, "last")
        from vf.loops import eqv
        if isinstance(last, Ptr) and last.obj is not prev.obj:
            raise Unsupported("newBlock: contract precondition (prev is the current block)")
        if not en.entails(st, eqv(last, prev)):
            raise Unsupported("newBlock: contract precondition (prev is the current block)")
        outs = []
        big = UGT(minb, bv64((1 << 64) - 1 - HDR))
        if en.feasible(st, big):
            s0 = st.copy()
            s0.assume(big)
            outs.append(("ret", s0, NULL))
        st.assume(simp(z3.Not(big)))
        size = simp(size_policy(self, minb, z3.BoolVal(is_null(prev))))
        s1 = st.copy()
        self.event(s1, "block_alloc", size, None)
        outs.append(("ret", s1, NULL))
        st.assume(z3.ULT(size, bv64(MAXB)))
        o = en.new_chain(st, en.freshname(st, "newblk." + site), size, gran=8, align=8)
        count = self.n + len(st.ghost.get("newblocks", ()))
        st.ghost["newblocks"] = st.ghost.get("newblocks", ()) + (o,)
        self.event(st, "block_alloc", size, o)
        for off, v in ((0, prev), (8, bv64(HDR)), (16, size), (24, size)):
            en.write(st, o, None, bv64(off), 8, v)
        en.write_cells(st, self.arena, bv64(self.L["space"]), 8, simpo(self.field(st, "space") + size))
        s2 = st.copy()
        h = self.hook["h_newblock"]
        for s, c in ((st, h), (s2, z3.Not(h))):
            if en.feasible(s, c):
                s.assume(c)
                if c is h:
                    self.event(s, "h_newblock", simpo(count), size, Ptr(None, self.cookie))
                outs.append(("ret", s, Ptr(o, bv64(0))))
        return outs

    def m_fmt(self, en, s, a, site, nm):
        models.used(en, "fmt::format: no effect on the arena")
        f = en.m.funcs[nm]
        if f.ret.k == "void":
            return None
        return [("ret", s, en.zero(f.ret))]

    def m_hook(self, st, h, a):
        models.used(self.eng, "arena hooks do not touch the arena's memory")
        self.event(st, h, *a)
        if h in ("h_init", "h_destruction"):
            v = z3.BitVec("ret." + h, 64)
            return Ptr(None, v)
        return None

    def m_block_alloc(self, en, st, a, site, nm):
        models.used(en, "Options.block_alloc: null, or a fresh 8-byte aligned region of the requested size")
        n = asbv(a[0])
        s1 = st.copy()
        self.event(s1, "block_alloc", n, None)
        outs = [("ret", s1, NULL)]
        st.assume(z3.ULT(n, bv64(MAXB)))
        o = en.new_chain(st, en.freshname(st, "newblk." + site), n, gran=8, align=8)
        st.ghost["newblocks"] = st.ghost.get("newblocks", ()) + (o,)
        self.event(st, "block_alloc", n, o)
        outs.append(("ret", st, Ptr(o, bv64(0))))
        return outs

    def m_block_dealloc(self, en, st, a, site, nm):
        models.used(en, "Options.block_dealloc: releases exactly the block passed")
        p = en.toptr(a[0])
        if p.obj is not self.blk:
            en.oblige(st, FALSE, "block_dealloc of something that is not a block of this arena")
            raise Dead()
        en.oblige(st, z3.And(p.off == 0, z3.ULT(p.idx, self.n)), "block_dealloc is given a block's start address")
        en.oblige(st, self.alive(st, p.idx), "each block is deallocated at most once")
        en.oblige(st, self.done(st, p.idx) == self.ncl_now(st, p.idx), "all cleanups of a block have run before it is deallocated")
        st.mem[self.g_live] = Chain(Point(p.idx, bv64(0), 8, bv64(0)), st.mem[self.g_live])
        return None

    def ncl_now(self, st, k):
        return self.ncleanups(k)

    def indirect(self, en, st, p, a, site):
        """call of a cleanup function loaded from a node"""
        models.used(en, "cleanup callbacks do not touch the arena's memory")
        b = asbv(p)
        apps = []
        uf_apps(b, apps, set())
        fa = [x for x in apps if x.decl().eq(self.FN)]
        if len(fa) != 1 or not en.entails(st, b == fa[0]):
            en.oblige(st, FALSE, "call through something that is not a registered cleanup")
            raise Dead()
        k, j = fa[0].arg(0), fa[0].arg(1)
        en.oblige(st, z3.And(z3.ULT(k, self.n), z3.ULT(j, self.ncleanups(k))), "only registered cleanups are called")
        en.oblige(st, asbv(a[0]) == self.ELEM(k, j), "a cleanup gets the element it was registered with")
        en.oblige(st, self.alive(st, k), "cleanups run before their block is deallocated")
        en.oblige(st, self.done(st, k) == j, "cleanups of a block run once each, newest first")
        kk = z3.FreshConst(z3.BitVecSort(64), "newer")
        g = z3.Implies(z3.ULT(kk, k), self.done(st, kk) == self.ncleanups(kk))
        en.oblige(st, g, "cleanups of newer blocks run before those of older blocks")
        st.mem[self.g_done] = Chain(Point(simpo(k), bv64(0), 8, simpo(self.done(st, k) + 1)), st.mem[self.g_done])
        return None

    # ---- reading the post state
    def field(self, st, name):
        return self.eng.read_cells(st, self.arena, bv64(self.L[name]), 8)

    def bfield(self, st, blkptr, name):
        return self.eng.read(st, blkptr.obj, blkptr.idx, bv64(FIELDS[name]), 8)

    def calls(self, st, name):
        return [c for c in st.ghost["calls"] if c[0] == name]


# ------------------------------------------------------------------ postconditions
ULE, ULT, UGE, UGT = z3.ULE, z3.ULT, z3.UGE, z3.UGT


class Arena(World):
    def __init__(self, c, st, **kw):
        self.c = c
        super().__init__(c.eng, st, **kw)

    def dec(self, st, g):
        """value of a condition on this path (splits it if undecided)"""
        d = self.eng.decide(st, g)
        if d is None:
            raise Fork(simp(g))
        return d

    def chainlist(self, st):
        """the block list of the post state: (new blocks newest first, reaches the old list intact)"""
        new = []
        p = self.field(st, "last")
        seen = 0
        while isinstance(p, Ptr) and p.obj is not None and p.obj is not self.blk:
            if p.obj.kind != "chain" or num(p.off) != 0 or p.obj not in st.ghost.get("newblocks", ()) or seen > 4:
                return new, None
            new.append(p.obj)
            seen += 1
            p = self.bfield(st, Ptr(p.obj, bv64(0)), "prev")
            if z3.is_expr(p):
                p = self.eng.toptr(p)
        return new, p

    def unchanged(self, st, props, name):
        """no block, field, node or option changed"""
        for nm in LAY[1:]:
            self.same_field(st, nm, props, name)
        self.frame(st, props, name, pos0=False)

    def same_field(self, st, nm, props, name):
        b = self.pre.get((self.L[nm], 8))
        if st.mem[self.arena].get((self.L[nm], 8)) is b:
            return self.c.post(st, TRUE, f"{name}: {nm} unchanged", props)
        a = self.field(st, nm)
        if isinstance(b, Lazy):
            b = b.a if self.dec(st, b.cond) else b.b
        from vf.loops import eqv
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not b.obj and not (a.obj is None and b.obj is None):
            ok = FALSE
            for x, y in ((a, b), (b, a)):
                if is_null(x) and y.obj is not None and y.obj.fam:
                    ok = y.obj.isnull(y.idx)
        else:
            ok = eqv(a, b)
        self.c.post(st, ok, f"{name}: {nm} unchanged", props)

    def frame(self, st, props, name, pos0=True, limit0=False):
        """old blocks keep their headers, used bytes and cleanup nodes (a skolem block and offset)"""
        e = self.eng
        k, o = z3.BitVec("sk.k", 64), z3.BitVec("sk.o", 64)
        s = st.copy()
        s.assume(ULT(k, self.n))
        self.touch(s, k)
        for f, off in FIELDS.items():
            def one(s1, f=f, off=off):
                a = e.read(s1, self.blk, k, bv64(off), 8)
                b = self.base_fn(s1, k, bv64(off), 8)
                from vf.loops import eqv
                g = eqv(a, b)
                if (f == "pos" and pos0) or (f == "limit" and limit0):
                    g = z3.Or(k == 0, g)
                self.c.post(s1, g, f"{name}: other blocks' {f} unchanged", props)
            self.c.split(s, one)
        s = s.copy()
        s.assume(o & 7 == 0, UGE(o, bv64(HDR)), ULT(o, self.SIZE(k)),
                 z3.Or(ULT(o, self.POS(k)), UGE(o, self.LIMIT(k))))

        def two(s1):
            a = e.read(s1, self.blk, k, o, 8)
            b = self.base_fn(s1, k, o, 8)
            self.c.post(s1, asbv(a) == asbv(b), f"{name}: earlier allocations and cleanup nodes keep their bytes", props)
        self.c.split(s, two)
        # ghost: no cleanup ran, no block released
        self.c.post(s, z3.And(self.alive(s, k), self.done(s, k) == 0), f"{name}: no block released, no cleanup run", props)

    def wf(self, st, props, name, nodes=()):
        """after an allocating operation: list intact, new blocks well formed, accounting exact; returns the top block.
        nodes: cleanup nodes registered (exactly one at most)"""
        c, e = self.c, self.eng
        new, end = self.chainlist(st)
        P = {"A01", "A03"} & set(props) or props
        if end is None:
            c.post(st, FALSE, f"{name}: block list intact", P)
            return None
        if is_null(end):
            c.post(st, self.n == 0, f"{name}: every block stays in the list", P)
        else:
            c.post(st, z3.And(end.idx == 0, end.off == 0, ULT(bv64(0), self.n)), f"{name}: every block stays in the list", P)
        c.post(st, z3.BoolVal(set(new) == set(st.ghost.get("newblocks", ()))), f"{name}: every new block is in the list", P)
        total = bv64(0)
        for b in new:
            p = Ptr(b, bv64(0))
            pos, size, limit = (self.bfield(st, p, f) for f in ("pos", "size", "limit"))
            c.post(st, z3.And(size == b.size, UGE(pos, bv64(HDR)), pos & 7 == 0, ULE(pos, limit), ULE(limit, size),
                              (size - limit) & 15 == 0, limit & 7 == 0), f"{name}: a new block's header is consistent", P)
            total = total + b.size
        c.post(st, self.field(st, "space") == self.space + total, f"{name}: SpaceAllocated grows by exactly the new blocks", P)
        if not is_null(end):
            self.touch(st, bv64(0))
            pos, limit = self.bfield(st, end, "pos"), self.bfield(st, end, "limit")
            c.post(st, z3.And(UGE(pos, self.POS(bv64(0))), ULE(limit, self.LIMIT(bv64(0))), ULE(pos, limit), pos & 7 == 0,
                              z3.Or(limit == self.LIMIT(bv64(0)), limit == self.LIMIT(bv64(0)) - 16)),
                   f"{name}: the current block's header stays consistent", P)
        self.frame(st, P, name, limit0=True)
        for nm in LAY[2:]:
            if nm not in ("space",):
                self.same_field(st, nm, P, name)
        # hooks on new blocks
        nb = self.calls(st, "h_newblock")
        ok = self.calls(st, "block_alloc")
        succ = [x for x in ok if x[2] is not None]
        if self.dec(st, self.hook["h_newblock"]):
            c.post(st, z3.BoolVal(len(nb) == len(succ)), f"{name}: block hook called once per new block", {"A07"})
            if len(nb) == len(succ):
                for i, (h, a) in enumerate(zip(nb, succ)):
                    c.post(st, z3.And(h[1] == self.n + i, h[2] == a[1], asbv(h[3]) == self.cookie),
                           f"{name}: block hook gets the number of earlier blocks, the size and the cookie", {"A07"})
        else:
            c.post(st, z3.BoolVal(len(nb) == 0), f"{name}: unset block hook is not called", {"A07"})
        for h in ("h_init", "h_reset", "h_destruction"):
            c.post(st, z3.BoolVal(not self.calls(st, h)), f"{name}: {h} not called", {"A07"})
        return new, end

    def alloc_hook(self, st, name, size, typ=None):
        c = self.c
        h = self.calls(st, "h_allocation")
        if self.dec(st, self.hook["h_allocation"]):
            c.post(st, z3.BoolVal(len(h) == 1), f"{name}: allocation hook called exactly once", {"A07"})
            if len(h) == 1:
                t = h[0][1]
                if typ is None:
                    c.post(st, z3.BoolVal(is_null(t)), f"{name}: allocation hook gets no type", {"A07"})
                elif typ:
                    c.post(st, z3.BoolVal(isinstance(t, Ptr) and t.obj is not None and t.obj.name.endswith(typ)),
                           f"{name}: allocation hook gets the created type", {"A07"})
                c.post(st, z3.And(asbv(h[0][2]) == size, asbv(h[0][3]) == self.cookie),
                       f"{name}: allocation hook gets the requested size and the cookie", {"A07"})
        else:
            c.post(st, z3.BoolVal(len(h) == 0), f"{name}: unset allocation hook is not called", {"A07"})

    def result_in(self, st, r, nbytes, al, name, props=("A01",)):
        """r: nbytes fresh bytes, inside one live block, below its position, above everything earlier"""
        c = self.c
        props = set(props)
        if not isinstance(r, Ptr) or r.obj is None or not (r.obj is self.blk or r.obj in st.ghost.get("newblocks", ())):
            c.post(st, FALSE, f"{name}: the result points into a block of the arena", props)
            return
        b = Ptr(r.obj, bv64(0), r.idx)
        pos, limit = self.bfield(st, b, "pos"), self.bfield(st, b, "limit")
        low = bv64(HDR)
        if r.obj is self.blk:
            c.post(st, r.idx == 0, f"{name}: allocation comes from the current block", props)
            low = self.POS(bv64(0))
        c.post(st, z3.And(UGE(r.off, low), ULE(r.off, pos), ULE(nbytes, pos - r.off), ULE(pos, limit)),
               f"{name}: result lies inside its block, past every earlier allocation, before the cleanup nodes", props)
        c.post(st, (r.bits() & (al - 1)) == 0, f"{name}: result is aligned as requested", props)

    def failed(self, st, name, bytes_, exact=True):
        """null result: the environment refused (or the size is unrepresentable) and nothing changed"""
        c = self.c
        P = {"A06"}
        ba = self.calls(st, "block_alloc")
        refused = bool(ba) and ba[-1][2] is None
        c.post(st, z3.Or(z3.BoolVal(refused), UGT(bytes_, bv64((1 << 64) - 256))), f"{name}: null only when block_alloc fails or the size is unrepresentable", P)
        c.post(st, z3.BoolVal(not self.calls(st, "h_allocation")), f"{name}: allocation hook not called on failure", P | {"A07"})
        if exact:
            self.unchanged(st, P, name + " (failed)")


def size_policy(w, minb, first):
    """the documented block size for a request of minb payload bytes (oracle, independent of the code)"""
    req = minb + HDR
    up = (minb + w.normal - 1) & ~(w.normal - 1)
    later = z3.If(ULE(req, w.normal), w.normal, z3.If(ULE(req, z3.LShR(w.huge, bv64(2))), up, z3.If(ULE(req, w.huge), w.huge, bv64(0))))
    base = z3.If(first, w.init, later)
    return z3.If(UGT(base, req), base, req)


def A(fn):
    def run(c):
        st = State()
        w = Arena(c, st)
        if c.contracts:
            w.use_newblock_contract()
        fn(c, st, w)
    return run


def alloc_unit(al):
    @A
    def f(c, st, w):
        n = z3.BitVec("bytes", 64)
        c.eng.inputs["bytes"] = n
        big = ULT(n, bv64(1 << 44))

        def post(s, kind, r):
            if kind != "return":
                return c.post(s, FALSE, "AllocateAligned does not throw")
            need = (n + 7) & ~bv64(7)
            for x in w.calls(s, "block_alloc"):
                c.post(s, UGE(x[1], need + HDR), "a new block has room for the request and its header", {"A01", "A04"})
                if al == 8:
                    c.post(s, x[1] == size_policy(w, need, w.n == 0), "block size follows the configured policy", {"A04"})
            if is_null(r):
                c.reach(s, "null")
                return w.failed(s, "AllocateAligned", n)
            c.reach(s, "ok")
            w.wf(s, {"A01", "A03"}, "AllocateAligned")
            w.result_in(s, r, n, al, "AllocateAligned")
            w.alloc_hook(s, "AllocateAligned", n)
            nb = len(w.calls(s, "block_alloc"))
            c.post(s, z3.BoolVal(nb <= 1), "at most one block is requested", {"A03"})
        c.call("d_alloc", [w.this, n, bv64(al)], st, post)
    return f


def node_post(c, w, s, new, end, elem, fnname, name):
    """exactly one cleanup node more, at the new limit of the current block, holding (elem, fn)"""
    P = {"A02"}
    top = Ptr(new[0], bv64(0)) if new else end
    limit = w.bfield(s, top, "limit")
    lim0 = bv64(0)
    cnt = bv64(0)
    for b in new:
        bp = Ptr(b, bv64(0))
        cnt = cnt + (w.bfield(s, bp, "size") - w.bfield(s, bp, "limit"))
    if not is_null(end):
        cnt = cnt + w.LIMIT(bv64(0)) - w.bfield(s, end, "limit")
    c.post(s, cnt == 16, f"{name}: exactly one cleanup node is added", P)
    e = c.eng.read(s, top.obj, top.idx, limit, 8)
    f = c.eng.read(s, top.obj, top.idx, simpo(limit + 8), 8)
    c.post(s, asbv(e) == asbv(elem), f"{name}: the node holds the element", P)
    if isinstance(fnname, str):
        c.post(s, z3.BoolVal(isinstance(f, Ptr) and isinstance(f.obj, FuncObj) and fnname in c.eng.dem.get(f.obj.name, f.obj.name)),
               f"{name}: the node holds the element's destructor", P)
    else:
        c.post(s, asbv(f) == asbv(fnname), f"{name}: the node holds the callback", P)


@A
def u_newblock(c, st, w):
    """newBlock's own contract, on its body"""
    minb = z3.BitVec("min_bytes", 64)
    c.eng.inputs["min_bytes"] = minb
    c.eng.contract_pats.clear()

    def go(s0):
        prev = w.field(s0, "last")

        def post(s, kind, r):
            ba = w.calls(s, "block_alloc")
            first = z3.BoolVal(is_null(prev))
            for x in ba:
                c.post(s, x[1] == size_policy(w, minb, first), "block size follows the configured policy", {"A01", "A04"})
            c.post(s, z3.BoolVal(len(ba) <= 1), "at most one block is requested", {"A03", "A01"})
            if is_null(r):
                c.reach(s, "null")
                c.post(s, z3.Or(z3.BoolVal(len(ba) == 1 and ba[0][2] is None), UGT(minb, bv64((1 << 64) - 1 - HDR))),
                       "newBlock: null only when block_alloc fails or the size is unrepresentable")
                c.post(s, z3.BoolVal(not w.calls(s, "h_newblock")), "newBlock: no hook on failure")
                return w.unchanged(s, None, "newBlock (failed)")
            c.reach(s, "ok")
            nb = s.ghost.get("newblocks", ())
            ok = isinstance(r, Ptr) and len(nb) == 1 and r.obj is nb[0] and num(r.off) == 0
            c.post(s, z3.BoolVal(ok), "newBlock: returns the block")
            if not ok:
                return
            fs = {f: w.bfield(s, r, f) for f in FIELDS}
            c.post(s, z3.And(fs["pos"] == HDR, fs["size"] == nb[0].size, fs["limit"] == nb[0].size), "newBlock: the header describes an empty block of the requested size")
            p = fs["prev"]
            p = p if isinstance(p, Ptr) else c.eng.toptr(p)
            from vf.loops import eqv
            c.post(s, eqv(p, prev) if p.obj is prev.obj else FALSE, "newBlock: linked to the previous block")
            c.post(s, w.field(s, "space") == w.space + nb[0].size, "SpaceAllocated grows by the block", None)
            for nmx in LAY[1:]:
                if nmx != "space":
                    w.same_field(s, nmx, None, "newBlock")
            w.frame(s, None, "newBlock", pos0=False)
            h = w.calls(s, "h_newblock")
            if w.dec(s, w.hook["h_newblock"]):
                c.post(s, z3.BoolVal(len(h) == 1), "block hook called once per new block")
                if len(h) == 1:
                    c.post(s, z3.And(h[0][1] == w.n, h[0][2] == nb[0].size, asbv(h[0][3]) == w.cookie), "block hook gets the number of earlier blocks, the size and the cookie")
            else:
                c.post(s, z3.BoolVal(len(h) == 0), "unset block hook is not called")
            for hk in ("h_init", "h_reset", "h_destruction", "h_allocation"):
                c.post(s, z3.BoolVal(not w.calls(s, hk)), f"newBlock: {hk} not called")
        c.call("d_new_block", [w.this, minb, prev], s0, post)
    c.split(st, lambda s: go(s))


@A
def u_add_cleanup(c, st, w):
    obj, fn = z3.BitVec("obj", 64), z3.BitVec("cleanup", 64)

    def post(s, kind, r):
        r = asbool(r)
        ok = w.dec(s, r)
        if not ok:
            c.reach(s, "null")
            return w.failed(s, "addCleanup", bv64(16))
        c.reach(s, "ok")
        x = w.wf(s, {"A01", "A03"}, "addCleanup")
        if x:
            node_post(c, w, s, x[0], x[1], obj, fn, "addCleanup")
        for b in w.calls(s, "block_alloc"):
            c.post(s, b[1] == size_policy(w, bv64(16), w.n == 0), "block size follows the configured policy", {"A04"})
    c.call("d_add_cleanup", [w.this, Ptr(None, obj), Ptr(None, fn)], st, post)


@A
def u_own(c, st, w):
    obj = z3.BitVec("obj", 64)

    def post(s, kind, r):
        if not w.dec(s, asbool(r)):
            c.reach(s, "null")
            return w.failed(s, "Own", bv64(16))
        c.reach(s, "ok")
        x = w.wf(s, {"A01", "A03"}, "Own")
        if x:
            node_post(c, w, s, x[0], x[1], obj, "arena_delete_object<unsigned long>", "Own")
    c.call("d_own", [w.this, Ptr(None, obj)], st, post)


@A
def u_alloc_cleanup(c, st, w):
    n, fn, el = z3.BitVec("bytes", 64), z3.BitVec("cleanup", 64), z3.BitVec("element", 64)
    c.eng.inputs["bytes"] = n

    def post(s, kind, r):
        if is_null(r):
            c.reach(s, "null")
            w.failed(s, "AllocateAlignedAndAddCleanup", n, exact=False)
            x = w.wf(s, {"A06"}, "AllocateAlignedAndAddCleanup (failed)")
            if x:
                cnt = bv64(0)
                for b in x[0]:
                    bp = Ptr(b, bv64(0))
                    cnt = cnt + (w.bfield(s, bp, "size") - w.bfield(s, bp, "limit"))
                if not is_null(x[1]):
                    cnt = cnt + w.LIMIT(bv64(0)) - w.bfield(s, x[1], "limit")
                c.post(s, cnt == 0, "AllocateAlignedAndAddCleanup (failed): no cleanup registered", {"A06", "A02"})
            return
        c.reach(s, "ok")
        x = w.wf(s, {"A01", "A03"}, "AllocateAlignedAndAddCleanup")
        w.result_in(s, r, n, 8, "AllocateAlignedAndAddCleanup")
        w.alloc_hook(s, "AllocateAlignedAndAddCleanup", n)
        if x:
            node_post(c, w, s, x[0], x[1], z3.If(el == 0, r.bits(), el), fn, "AllocateAlignedAndAddCleanup")
    c.call("d_alloc_cleanup", [w.this, n, Ptr(None, fn), Ptr(None, el)], st, post)


def create_unit(fun, size, typ, dtor):
    @A
    def f(c, st, w):
        arg = z3.BitVec("arg", 64)
        st.ghost["ctor"] = ()
        e = c.eng

        def ctor(en, s, a, site, nm):
            models.used(en, "element constructor: no effect outside the element, may not throw")
            s.ghost["ctor"] = s.ghost["ctor"] + (("ctor", a[0], a[1]),)

        def dt(en, s, a, site, nm):
            s.ghost["ctor"] = s.ghost["ctor"] + (("dtor", a[0], None),)
        e.models["_ZN4Obj3C1Em"] = e.models["_ZN4Obj3C2Em"] = ctor
        e.models["_ZN4Obj3D1Ev"] = e.models["_ZN4Obj3D2Ev"] = dt

        def post(s, kind, r):
            ev = s.ghost["ctor"]
            nc, nd = sum(x[0] == "ctor" for x in ev), sum(x[0] == "dtor" for x in ev)
            if is_null(r):
                c.reach(s, "null")
                w.failed(s, fun, bv64(size), exact=False)
                x = w.wf(s, {"A06"}, "Create (failed)")
                c.post(s, z3.BoolVal(nc == nd), "Create (failed): no constructed object is left behind", {"A06", "A02"})
                return
            c.reach(s, "ok")
            x = w.wf(s, {"A01", "A03"}, "Create")
            w.result_in(s, r, bv64(size), 8, "Create")
            w.alloc_hook(s, "Create", bv64(size), typ)
            if dtor:
                c.post(s, z3.BoolVal(nc == 1 and nd == 0), "Create: the object is constructed exactly once", {"A02"})
                if nc == 1:
                    c.post(s, z3.And(asbv(ev[0][1]) == r.bits(), ev[0][2] == arg), "Create: constructed in place with the arguments", {"A02"})
                if x:
                    node_post(c, w, s, x[0], x[1], r.bits(), dtor, "Create")
        c.call(fun, [w.this] + ([arg] if dtor else []), st, post)
    return f


def array_unit(fun, es):
    @A
    def f(c, st, w):
        n = z3.BitVec("num", 64)
        c.eng.inputs["num"] = n

        def post(s, kind, r):
            if is_null(r):
                c.reach(s, "null")
                ba = w.calls(s, "block_alloc")
                refused = bool(ba) and ba[-1][2] is None
                c.post(s, z3.Or(z3.BoolVal(refused), UGT(n, bv64(((1 << 64) - 256) // es))),
                       "CreateArray: null only when block_alloc fails or the size is unrepresentable", {"A06"})
                c.post(s, z3.BoolVal(not w.calls(s, "h_allocation")), "CreateArray: hook not called on failure", {"A06", "A07"})
                return w.unchanged(s, {"A06"}, "CreateArray (failed)")
            c.reach(s, "ok")
            c.post(s, ULE(n, bv64(((1 << 64) - 1) // es)), "CreateArray: the size does not wrap around", {"A01"})
            w.wf(s, {"A01", "A03"}, "CreateArray")
            w.result_in(s, r, n * es, 8, "CreateArray")
            w.alloc_hook(s, "CreateArray", n * es, "")
            i = z3.BitVec("sk.i", 64)
            s2 = s.copy()
            s2.assume(ULT(i, n))

            def el(s3):
                for j in range(0, es, 8):
                    v = c.eng.read(s3, r.obj, r.idx, simpo(r.off + i * es + j), 8)
                    c.post(s3, asbv(v) == 0, "CreateArray: every element is value-initialized", {"A01"})
            c.split(s2, el)
        c.call(fun, [w.this, n], st, post)
    return f


def pmr_unit(al):
    @A
    def f(c, st, w):
        n = z3.BitVec("bytes", 64)
        c.eng.inputs["bytes"] = n

        def post(s, kind, r):
            if kind != "return":
                return c.post(s, FALSE, "memory_resource::allocate does not throw")
            if is_null(r):
                c.reach(s, "null")
                return w.failed(s, "memory_resource::allocate", n)
            c.reach(s, "ok")
            w.wf(s, {"A01", "A03"}, "memory_resource::allocate")
            w.result_in(s, r, n, al, "memory_resource::allocate")
            for hk in HOOKS:
                if hk != "h_newblock":
                    c.post(s, z3.BoolVal(not w.calls(s, hk)), f"memory_resource::allocate: {hk} not called", {"A07"})
        c.call("d_pmr_alloc", [w.this, n, bv64(al)], st, post)
    return f


def sums(w, st, what):
    """prefix sums over the blocks: S(k) = sum over j < k (an uninterpreted function defined by recursion)"""
    S = z3.Function("SUM." + what, z3.BitVecSort(64), z3.BitVecSort(64))
    term = {"remain": lambda k: w.LIMIT(k) - w.POS(k), "cleanups": w.ncleanups}[what]
    st.assume(S(bv64(0)) == 0)
    v = z3.BitVec("sum.k", 64)
    st.qf.append(QFact(v, z3.Implies(ULT(v, w.n), S(v + 1) == S(v) + term(v)), "prefix sum"))

    def tpl(eng, s, f, header, carried, free, value, L):
        from vf.loops import Inv
        return [Inv(f"{cv.key}==SUM.{what}", lambda tm, cv=cv: value(cv, tm) == S(tm))
                for cv in free if z3.is_expr(cv.v0) and not z3.is_bool(cv.v0) and cv.v0.size() == 64]
    w.eng.loop_templates.append(tpl)
    return S


@A
def u_dtor(c, st, w):
    S = sums(w, st, "remain")

    def post(s, kind, r):
        c.reach(s, "ok")
        k = z3.BitVec("sk.k", 64)
        s2 = s.copy()
        s2.assume(ULT(k, w.n))
        w.touch(s2, k)
        c.post(s2, w.done(s2, k) == w.ncleanups(k), "destruction: every registered cleanup has run exactly once", {"A02"})
        c.post(s2, z3.Not(w.alive(s2, k)), "destruction: every block is released", {"A03"})
        c.post(s, z3.BoolVal(w.res in s.dead), "destruction: the memory resource is released", {"A03"})
        h = w.calls(s, "h_destruction")
        if w.dec(s, w.hook["h_destruction"]):
            c.post(s, z3.BoolVal(len(h) == 1), "destruction hook called exactly once", {"A07"})
            if len(h) == 1:
                c.post(s, z3.And(asbv(h[0][1]) == w.this.bits(), asbv(h[0][2]) == w.cookie, asbv(h[0][3]) == w.space),
                       "destruction hook gets the arena, the cookie and the space allocated", {"A07"})
                c.post(s, asbv(h[0][4]) == S(w.n), "destruction hook gets the total unused space", {"A07"})
        else:
            c.post(s, z3.BoolVal(len(h) == 0), "unset destruction hook is not called", {"A07"})
        for hk in ("h_init", "h_reset", "h_allocation", "h_newblock"):
            c.post(s, z3.BoolVal(not w.calls(s, hk)), f"destruction: {hk} not called", {"A07"})
    c.call("d_dtor", [w.this], st, post)


@A
def u_reset(c, st, w):
    st.assume(UGE(w.n, bv64(1)))
    S = sums(w, st, "remain")

    def post(s, kind, r):
        c.reach(s, "ok")
        first = simpo(w.n - 1)
        w.touch(s, first)
        k = z3.BitVec("sk.k", 64)
        s2 = s.copy()
        s2.assume(ULT(k, w.n))
        w.touch(s2, k)
        c.post(s2, w.done(s2, k) == w.ncleanups(k), "Reset: every registered cleanup has run exactly once", {"A02"})
        c.post(s2, w.alive(s2, k) == (k == first), "Reset: every block but the first is released", {"A03"})
        last = w.field(s, "last")
        ok = isinstance(last, Ptr) and last.obj is w.blk
        c.post(s, z3.And(z3.BoolVal(ok), last.idx == first, last.off == 0) if ok else FALSE, "Reset: the first block becomes the current one", {"A03"})
        if ok:
            fs = {f: w.bfield(s, last, f) for f in FIELDS}
            c.post(s, z3.And(fs["pos"] == HDR, fs["limit"] == w.SIZE(first), fs["size"] == w.SIZE(first)),
                   "Reset: the kept block is empty", {"A03", "A01"})
            p = fs["prev"]
            c.post(s, p.obj.isnull(p.idx) if isinstance(p, Ptr) and p.obj is w.blk else z3.BoolVal(is_null(p)),
                   "Reset: the kept block is the only one", {"A03"})
        c.post(s, w.field(s, "space") == w.SIZE(first), "Reset: SpaceAllocated is the size of the kept block", {"A03"})
        c.post(s, asbv(r) == w.space, "Reset returns the space allocated before", {"A03"})
        for nm in LAY[2:]:
            if nm != "space":
                w.same_field(s, nm, {"A03"}, "Reset")
        h = w.calls(s, "h_reset")
        if w.dec(s, w.hook["h_reset"]):
            c.post(s, z3.BoolVal(len(h) == 1), "reset hook called exactly once", {"A07"})
            if len(h) == 1:
                c.post(s, z3.And(asbv(h[0][1]) == w.this.bits(), asbv(h[0][2]) == w.cookie, asbv(h[0][3]) == w.space),
                       "reset hook gets the arena, the cookie and the space allocated", {"A07"})
                c.post(s, asbv(h[0][4]) == S(w.n), "reset hook gets the total unused space", {"A07"})
        else:
            c.post(s, z3.BoolVal(len(h) == 0), "unset reset hook is not called", {"A07"})
        for hk in ("h_init", "h_destruction", "h_allocation", "h_newblock"):
            c.post(s, z3.BoolVal(not w.calls(s, hk)), f"Reset: {hk} not called", {"A07"})
    c.call("d_reset", [w.this], st, post)


@A
def u_check(c, st, w):
    p = z3.BitVec("ptr", 64)
    st.assume(ULT(p, bv64(1 << 47)))
    c.eng.inputs["ptr"] = p
    k, v = z3.BitVec("sk.k", 64), z3.BitVec("v.k", 64)
    IN = lambda k: z3.And(UGE(p, w.ADDR(k)), ULT(p - w.ADDR(k), w.SIZE(k)))
    # blocks are disjoint: at most one contains p
    inside = z3.Bool("inside")
    st.assume(z3.Implies(inside, z3.And(ULT(k, w.n), IN(k))))
    w.touch(st, k)
    st.qf.append(QFact(v, z3.Implies(z3.And(ULT(v, w.n), z3.Or(v != k, z3.Not(inside))), z3.And(w.rep(v), z3.Not(IN(v)))), "disjoint"))
    c.eng.hints.append(k)

    def post(s, kind, r):
        c.reach(s, "ok")
        o = p - w.ADDR(k)
        cls = z3.If(z3.Not(inside), bv64(0), z3.If(ULT(o, bv64(HDR)), bv64(1), z3.If(ULT(o, w.POS(k)), bv64(3),
              z3.If(ULT(o, w.LIMIT(k)), bv64(4), bv64(2)))))
        rr = asbv(r)
        c.post(s, z3.ZeroExt(64 - rr.size(), rr) == cls, "check: exact classification", {"A05"})
        w.unchanged(s, {"A05"}, "check")
    c.call("d_check", [w.this, Ptr(None, p)], st, post)


@A
def u_space(c, st, w):
    def post(s, kind, r):
        c.reach(s, "ok")
        c.post(s, asbv(r) == w.space, "SpaceAllocated reports the accounted total", {"A03"})
    c.call("d_space_allocated", [w.this], st.copy(), post)
    st.assume(UGE(w.n, bv64(1)))
    w.touch(st, bv64(0))

    def post2(s, kind, r):
        c.reach(s, "remains")
        c.post(s, asbv(r) == w.LIMIT(bv64(0)) - w.POS(bv64(0)), "SpaceRemains reports the free part of the current block", {"A03"})
    c.call("d_space_remains", [w.this], st, post2)


@A
def u_cleanups(c, st, w):
    S = sums(w, st, "cleanups")

    def post(s, kind, r):
        c.reach(s, "ok")
        c.post(s, asbv(r) == S(w.n), "cleanups(): the number of registered cleanups", {"A02"})
        w.unchanged(s, {"A02"}, "cleanups()")
    c.call("d_cleanups", [w.this], st, post)


@A
def u_move(c, st, w):
    L = w.L
    dst = c.eng.new_cells(st, "dst", L["SIZE"])

    def post(s, kind, r):
        if kind != "return":
            return c.post(s, FALSE, "move does not throw")
        c.reach(s, "ok")
        P = {"A09"}
        from vf.loops import eqv

        def get(o, nm):
            return c.eng.read_cells(s, o, bv64(L[nm]), 8)
        for nm in LAY[1:]:
            b = w.pre[(L[nm], 8)]
            if isinstance(b, Lazy):
                b = b.a if w.dec(s, b.cond) else b.b
            a = get(dst, nm)
            same = isinstance(a, Ptr) == isinstance(b, Ptr) and (not isinstance(a, Ptr) or a.obj is b.obj)
            c.post(s, eqv(a, b) if same else FALSE, f"move: the target takes over {nm}", P)
        for nm in ("last", "resource", "cookie", "space"):
            a = get(w.arena, nm)
            c.post(s, asbv(a) == 0, f"move: the source no longer has {nm}", P)
        ra = c.eng.read_cells(s, w.res, bv64(8), 8)
        c.post(s, z3.BoolVal(isinstance(ra, Ptr) and ra.obj is dst and num(ra.off) == 0), "move: the memory resource serves the target", P)
        w.frame(s, P, "move", pos0=False)
        c.post(s, z3.BoolVal(len(s.ghost["calls"]) == 0), "move: no hook runs", P)
    c.call("d_move", [Ptr(dst, bv64(0)), w.this], st, post)


@A
def u_ctor(c, st, w):
    L = w.L
    # the options object: same content as the world's options
    off0 = min(L[x] for x in ("normal", "huge", "init"))
    cells = {(o - off0, wd): v for (o, wd), v in w.pre.items() if o >= off0 and o not in (L["last"], L["resource"], L["cookie"], L["space"])}
    cells = {k: v for k, v in cells.items() if k[0] < 200}
    ops = c.eng.new_cells(st, "ops", 88, init=cells)
    dst = c.eng.new_cells(st, "dst", L["SIZE"])

    def post(s, kind, r):
        if kind != "return":
            return c.post(s, FALSE, "construction does not throw")
        P = {"A03"}
        get = lambda nm: c.eng.read_cells(s, dst, bv64(L[nm]), 8)
        c.reach(s, "ok")
        c.post(s, asbv(get("last")) == 0, "a new arena has no block", P)
        c.post(s, asbv(get("space")) == 0, "a new arena has no space allocated", P)
        from vf.loops import eqv
        for nm in ("normal", "huge", "init", "block_alloc", "block_dealloc", "logger", *HOOKS):
            b = w.pre[(L[nm], 8)]
            if isinstance(b, Lazy):
                b = b.a if w.dec(s, b.cond) else b.b
            a = get(nm)
            same = isinstance(a, Ptr) == isinstance(b, Ptr) and (not isinstance(a, Ptr) or a.obj is b.obj)
            c.post(s, eqv(a, b) if same else FALSE, f"a new arena uses the option {nm}", {"A03", "A04", "A07"})
        h = w.calls(s, "h_init")
        if w.dec(s, w.hook["h_init"]):
            c.post(s, z3.BoolVal(len(h) == 1), "init hook called exactly once", {"A07"})
            if len(h) == 1:
                c.post(s, z3.BoolVal(isinstance(h[0][1], Ptr) and h[0][1].obj is dst), "init hook gets the arena", {"A07"})
            c.post(s, asbv(get("cookie")) == z3.BitVec("ret.h_init", 64), "the cookie is what the init hook returned", {"A07"})
        else:
            c.post(s, z3.BoolVal(len(h) == 0), "unset init hook is not called", {"A07"})
            c.post(s, asbv(get("cookie")) == 0, "no cookie without an init hook", {"A07"})
        res = get("resource")
        if not is_null(res):
            c.reach(s, "resource")
            ra = c.eng.read_cells(s, res.obj, bv64(8), 8)
            c.post(s, z3.BoolVal(isinstance(ra, Ptr) and ra.obj is dst), "the memory resource allocates from the arena", {"A01"})
        for hk in HOOKS[1:] + ["block_alloc"]:
            c.post(s, z3.BoolVal(not w.calls(s, hk)), f"construction: {hk} not called", {"A07"})
    c.call("d_ctor", [Ptr(dst, bv64(0)), Ptr(ops, bv64(0))], st, post)


MOD = ("arena", "arena.cc", ("arena/arena.cc",), (), False)


NATIVE = [("arena", ("arena/arena.cc",), (), (True,))]
ASSUMPTIONS = [
    "block sizes in Options are powers of two with 64 <= normal <= huge; suggested_init_block_size is a multiple of 8; all below 2^40",
    "Options.block_alloc returns null or a fresh 8-byte aligned region of the requested size, below 2^46 bytes; block_dealloc releases it",
    "option callbacks, cleanups and element constructors do not touch the arena, its blocks' headers or its cleanup nodes, and do not throw",
    "fmt::format, the logger and boost::core::demangle have no effect on the arena",
    "operator new for the memory resource succeeds or throws bad_alloc",
    "user addresses are below 2^47; the arena is used by one thread at a time",
    "representation invariant of a non-moved-from arena is the induction hypothesis: every public operation is proved to preserve it",
]


def units(thorough=False):
    from vf.unit import Unit

    def U(n, p, f, fun, weight=5, reach=("ok",), cc=True):
        return Unit("arena." + n, MOD, p, f, fun, weight, reach, cc)
    ALL = ("A01", "A03", "A04", "A06", "A07")
    ON = ("ok", "null")
    return [U("newblock", ALL + ("A02",), u_newblock, "Arena::newBlock", 15, ON, False),
            U("alloc8", ALL, alloc_unit(8), "Arena::AllocateAligned(n, 8)", 6, ON),
            U("alloc16", ALL, alloc_unit(16), "Arena::AllocateAligned(n, 16)", 20, ON),
            U("alloc32", ALL, alloc_unit(32), "Arena::AllocateAligned(n, 32)", 40, ON),
            U("alloc_cleanup", ALL + ("A02",), u_alloc_cleanup, "Arena::AllocateAlignedAndAddCleanup", 60, ON),
            U("add_cleanup", ALL + ("A02",), u_add_cleanup, "Arena::addCleanup", 5, ON),
            U("own", ALL + ("A02",), u_own, "Arena::Own<T>", 5, ON),
            U("create_pod", ALL, create_unit("d_create_pod", 16, "@_ZTI3Pod", None), "Arena::Create<trivial T>", 5, ON),
            U("create_obj", ALL + ("A02",), create_unit("d_create_obj", 24, "@_ZTI4Obj3", "arena_destruct_object<Obj3>"), "Arena::Create<T with destructor>", 15, ON),
            U("array8", ALL, array_unit("d_create_array8", 8), "Arena::CreateArray<uint64_t>", 50, ON),
            *[U(f"pmr{a}", ALL, pmr_unit(a), f"Arena::memory_resource::do_allocate(n, {a})", w, ON) for a, w in ((1, 6), (8, 6), (16, 20), (32, 40))],
            U("dtor", ("A02", "A03", "A07"), u_dtor, "Arena::~Arena", 45), U("reset", ("A01", "A02", "A03", "A07"), u_reset, "Arena::Reset", 90),
            U("check", ("A05",), u_check, "Arena::check", 13), U("space", ("A03",), u_space, "Arena::SpaceAllocated, SpaceRemains", 2),
            U("cleanups", ("A02",), u_cleanups, "Arena::cleanups", 3),
            U("move", ("A09",), u_move, "Arena::Arena(Arena&&)", 3), U("ctor", ("A01", "A03", "A04", "A07"), u_ctor, "Arena::Arena(const Options&)", 3)]
