"""Contracts for /repo/container/stdb_vector.hpp.

Element types: w = uint64_t, b = unsigned char (memset/memcpy paths); m, c, r = class types whose special
members are external (copy+move, copy only, byte-wise relocatable).  For these an element cell carries a life
state: 01|payload = alive, 10|payload = moved from, 0 = raw memory.  Constructors need raw memory and a live
source, destructors need an object; a memcpy/memmove of elements relocates them (leaves raw memory behind)."""
import z3
from vf.core import *
from vf.loops import eqv
from vf.ir import Unsupported
from vf import models

ULE, ULT, UGE, UGT, If, And, Or, Not, Implies = z3.ULE, z3.ULT, z3.UGE, z3.UGT, z3.If, z3.And, z3.Or, z3.Not, z3.Implies
TY = {"w": (8, False, "unsigned long"), "b": (1, False, "unsigned char"), "m": (8, True, "M"), "c": (8, True, "C"), "r": (8, True, "R")}
MAXE = 1 << 46
P1, P2, P3, P4, P5, P6 = ({f"V0{i}"} for i in range(1, 7))


def live(x):
    return z3.Concat(z3.BitVecVal(1, 2), x)


def tag(v):
    return z3.Extract(63, 62, v)


def pay(v):
    return z3.Extract(61, 0, v)


class World:
    def __init__(self, c, st, ty):
        self.c, self.eng, self.ty = c, c.eng, ty
        self.E, self.life, self.tn = TY[ty]
        e = self.eng
        self.vecs = []
        e.heap_gran = self.E
        if self.life:
            e.heap_base = lambda nm: (lambda s, k, off, w: bv64(0))
            e.on_free = self.on_free
            e.on_local = self.local
            if ty == "r":
                e.on_bulk_copy = self.relocate
            self.install()

    def lg(self, x):
        return x * self.E if self.E > 1 else x

    # ---- element types with external special members
    def install(self):
        N = {"m": "M", "c": "C", "r": "R"}[self.ty]
        md = self.eng.models
        for v in ("C1", "C2"):
            md[f"_ZN1{N}{v}Ev"] = lambda en, s, a, site, nm: self.construct(s, a[0], live(z3.BitVecVal(0, 62)))
            md[f"_ZN1{N}{v}Em"] = lambda en, s, a, site, nm: self.construct(s, a[0], live(z3.Extract(61, 0, asbv(a[1]))))
            md[f"_ZN1{N}{v}ERKS_"] = lambda en, s, a, site, nm: self.construct(s, a[0], self.source(s, a[1], "copy"))
            md[f"_ZN1{N}{v}EOS_"] = lambda en, s, a, site, nm: self.move_construct(s, a)
        for v in ("D1", "D2"):
            md[f"_ZN1{N}{v}Ev"] = lambda en, s, a, site, nm: self.destroy(s, a[0])
        md[f"_ZN1{N}aSERKS_"] = lambda en, s, a, site, nm: self.assign(s, a, False)
        md[f"_ZN1{N}aSEOS_"] = lambda en, s, a, site, nm: self.assign(s, a, True)
        for op, f in (("eq", lambda x, y: x == y), ("ne", lambda x, y: x != y), ("lt", ULT), ("gt", UGT)):
            md[f"_Z{op}RK1{N}S1_"] = lambda en, s, a, site, nm, f=f: simp(f(pay(self.source(s, a[0], "comparison")), pay(self.source(s, a[1], "comparison"))))

    def cell(self, s, p, what):
        p = self.eng.toptr(p)
        models.used(self.eng, "element constructors, destructors and comparisons do what their names say, do not throw and do not touch the vector")
        self.eng.check_access(s, p, 8, what)
        return p, asbv(self.eng.read(s, p.obj, p.idx, p.off, 8))

    def put(self, s, p, v):
        self.eng.write(s, p.obj, p.idx, p.off, 8, v)

    def construct(self, s, p, v):
        p, old = self.cell(s, p, "construction")
        self.eng.oblige(s, tag(old) == 0, "an element is constructed in raw memory only", kind="life", props=P2)
        self.put(s, p, v)
        return None

    def source(self, s, p, what):
        p, v = self.cell(s, p, what)
        self.eng.oblige(s, tag(v) == 1, f"the source of a {what} is alive", kind="life", props=P2)
        return v

    def move_construct(self, s, a):
        v = self.source(s, a[1], "move")
        self.construct(s, a[0], v)
        p = self.eng.toptr(a[1])
        self.put(s, p, simp(z3.Concat(z3.BitVecVal(2, 2), pay(v))))
        return None

    def assign(self, s, a, mv):
        v = self.source(s, a[1], "assignment")
        p, old = self.cell(s, a[0], "assignment")
        self.eng.oblige(s, tag(old) != 0, "the target of an assignment is an object", kind="life", props=P2)
        self.put(s, p, v)
        if mv:
            self.put(s, self.eng.toptr(a[1]), simp(z3.Concat(z3.BitVecVal(2, 2), pay(v))))
        return a[0]

    def destroy(self, s, p):
        p, old = self.cell(s, p, "destruction")
        self.eng.oblige(s, tag(old) != 0, "only an existing element is destroyed, once", kind="life", props=P2)
        self.put(s, p, bv64(0))
        return None

    def local(self, en, s, o, ty, begin):
        """local variables of element type start as raw memory and must be destroyed before the function returns"""
        if begin:
            if ty in ("%class.M", "%struct.M", "%class.C", "%struct.C", "%class.R", "%struct.R"):
                en.write_cells(s, o, bv64(0), 8, bv64(0))
                return True
            return False
        en.oblige(s, tag(asbv(en.read_cells(s, o, bv64(0), 8))) == 0, "local elements are destroyed when a function returns", kind="life", props=P2)

    def on_free(self, en, s, o):
        if o.kind != "chain":
            return
        j = en.fresh(s, "sk.freed")
        s2 = s.copy()
        s2.assume(ULT(self.lg(j), o.size), ULT(j, bv64(1 << 46)))
        self.c.split(s2, lambda s3: en.oblige(s3, tag(asbv(en.read(s3, o, None, self.lg(j), 8))) == 0, "no element is alive in a buffer that is freed", kind="life", props=P2))

    def relocate(self, en, s, so, sk, soff, n):
        """a byte-wise copy of elements moves them: raw memory stays behind"""
        if so.kind == "chain":
            s.mem[so] = Chain(Range(sk, simpo(soff), n, lambda s2, o, w: z3.BitVecVal(0, 8 * w)), s.mem[so])

    def index(self, s, off):
        if self.E == 1:
            return off
        q = self.eng.div_exact(s, off, self.E, True)
        return q if q is not None else simpo(z3.LShR(off, bv64(self.E.bit_length() - 1)))

    # ---- vectors and arguments
    def vec(self, st, name, null):
        return Vec(self, st, name, null)

    def value(self, st, name="value"):
        """an element of the caller"""
        x = z3.BitVec(name, 62 if self.life else 8 * self.E)
        v = live(x) if self.life else x
        self.eng.inputs[name] = x
        o = self.eng.new_cells(st, "arg." + name, self.E, init={(0, self.E): v})
        return Ptr(o, bv64(0)), v

    def array(self, st, name="src"):
        """an array of k elements of the caller: (first, last, k, elem(i))"""
        k = z3.BitVec(name + ".count", 64)
        self.eng.inputs[k.decl().name()] = k
        st.assume(ULT(k, bv64(MAXE // 8)))
        f = z3.Function(name + ".elem", z3.BitVecSort(64), z3.BitVecSort(62 if self.life else 8 * self.E))
        el = lambda i: live(f(simpo(i))) if self.life else f(simpo(i))
        sh = self.E.bit_length() - 1
        o = self.eng.new_chain(st, name, simpo(self.lg(k)), gran=self.E, base_fn=lambda s, kk, off, w: el(self.index(s, off)))
        self.caller = (o, k, el)
        return Ptr(o, bv64(0)), Ptr(o, simpo(self.lg(k))), k, el

    def caller_unchanged(self, s, label):
        o, k, el = self.caller
        i = z3.BitVec("sk.a", 64)
        s.assume(ULT(i, k))
        self.c.split(s, lambda s1: self.c.post(s1, asbv(self.eng.read(s1, o, None, simpo(self.lg(i)), self.E)) == el(i), f"{label}: the caller's elements stay as they are", P1 | P2))

    def zero(self):
        return live(z3.BitVecVal(0, 62)) if self.life else z3.BitVecVal(0, 8 * self.E)

    def init_cap(self):
        return 64 // self.E if self.E < 64 else 1

    def next(self, cap):
        th = 131072 // self.E
        return If(ULT(cap, bv64(self.init_cap())), bv64(self.init_cap()), If(ULT(cap, bv64(th)), z3.LShR(cap * 3 + 1, bv64(1)), cap * 2))

    def grow(self, v, need):
        nx = self.next(v.cap)
        return If(ULE(need, v.cap), v.cap, If(UGT(nx, need), nx, need))

    def owners(self, s, label, P=frozenset(("V02", "V04", "V06"))):
        """every live heap buffer belongs to exactly one vector"""
        owned = []
        for v in self.vecs:
            if v.dead:
                continue
            p = v.field(s, 0)
            if p.obj is not None:
                owned.append(p.obj)
        self.c.post(s, z3.BoolVal(len(owned) == len(set(owned))), f"{label}: no two vectors share a buffer", P)
        heap = [v.buf for v in self.vecs if v.buf is not None] + list(s.ghost.get("allocs", ()))
        for o in heap:
            if o not in s.dead and o.name.find("exc") < 0:
                self.c.post(s, z3.BoolVal(o in owned), f"{label}: no buffer is leaked", P)


class Vec:
    """an arbitrary well-formed vector (null: without buffer), or uninitialised storage for one (null=None)"""

    def __init__(self, w, st, name, null):
        self.w, self.name, self.dead = w, name, False
        e = w.eng
        self.buf = None
        w.vecs.append(self)
        if null is None:
            self.obj = e.new_cells(st, name, 24)
            self.n = self.cap = bv64(0)
        elif null:
            self.n = self.cap = bv64(0)
            self.obj = e.new_cells(st, name, 24, init={(o, 8): NULL for o in (0, 8, 16)})
        else:
            self.n, self.cap = z3.BitVec(name + ".size", 64), z3.BitVec(name + ".capacity", 64)
            e.inputs[name + ".size"], e.inputs[name + ".capacity"] = self.n, self.cap
            st.assume(UGE(self.cap, bv64(1)), ULE(self.n, self.cap), ULT(self.cap, bv64(MAXE // 8)))
            f = z3.Function(name + ".elem", z3.BitVecSort(64), z3.BitVecSort(62 if w.life else 8 * w.E))
            self.f = f
            self.buf = e.new_chain(st, name + ".buf", simpo(w.lg(self.cap)), gran=w.E, base_fn=self.base, heap=True)
            B = self.buf
            self.obj = e.new_cells(st, name, 24, init={(0, 8): Ptr(B, bv64(0)), (8, 8): Ptr(B, simpo(w.lg(self.n))), (16, 8): Ptr(B, simpo(w.lg(self.cap)))})
        self.this = Ptr(self.obj, bv64(0))

    def elem(self, i):
        if self.buf is None:
            return self.w.zero()
        i = simpo(i)
        return live(self.f(i)) if self.w.life else self.f(i)

    def base(self, s, k, off, w):
        w_ = self.w
        if w != w_.E:
            raise Unsupported("element access width")
        i = w_.index(s, off)
        if not w_.life:
            return self.f(i)
        d = w_.eng.decide(s, ULT(off, w_.lg(self.n)))
        if d is True:
            return live(self.f(i))
        if d is False:
            return bv64(0)
        return If(ULT(off, simpo(w_.lg(self.n))), live(self.f(i)), bv64(0))

    def field(self, s, off):
        p = self.w.eng.read_cells(s, self.obj, bv64(off), 8)
        return p if isinstance(p, Ptr) else self.w.eng.toptr(p)

    def start(self, s):
        return self.field(s, 0)

    def at(self, i):
        return Ptr(self.buf, simpo(self.w.lg(i)))

    def check(self, s, n2, exp, cap2, label, PC=P1, PK=P3, contents=True):
        """postcondition: n2 elements exp(i), capacity cap2"""
        w, c, e = self.w, self.w.c, self.w.eng
        a, f, g = (self.field(s, o) for o in (0, 8, 16))
        PA = {"V01", "V02", "V03", "V04", "V06"}
        if is_null(a):
            c.post(s, And(asbv(f) == 0, asbv(g) == 0), f"{label}: a vector without buffer has no size and capacity", PA)
            c.post(s, n2 == 0, f"{label}: size", PC | P6 | P4)
            if cap2 is not None:
                c.post(s, cap2 == 0, f"{label}: capacity", PK | P6)
            return
        o = a.obj
        if o is None or o.kind != "chain" or f.obj is not o or g.obj is not o or o in s.dead or not o.heap:
            c.post(s, FALSE, f"{label}: the vector owns one live buffer", PA)
            return
        c.post(s, And(a.off == 0, ULE(f.off, g.off), ULE(g.off, o.size)), f"{label}: begin, end and capacity lie in the buffer", PA)
        c.post(s, f.off == simpo(w.lg(n2)), f"{label}: size", PC | P6 | P4)
        if cap2 is not None:
            c.post(s, g.off == simpo(w.lg(cap2)), f"{label}: capacity", PK | P6)
        i = z3.BitVec("sk.i", 64)
        PP = PC | P4 | P6 | P2 if contents else P2
        if contents is not False and exp is not None and (c.want is None or c.want in PP):
            s1 = s.copy()
            s1.assume(ULT(i, n2), ULT(i, bv64(1 << 46)))

            def elem(s2):
                c.post(s2, asbv(e.read(s2, o, None, simpo(w.lg(i)), w.E)) == exp(i), f"{label}: elements", PC | P4 | P6 | P2)
            c.split(s1, elem)
        if w.life and (c.want is None or c.want == "V02"):
            s1 = s.copy()
            s1.assume(UGE(i, n2), ULT(i, bv64(1 << 46)), ULT(simpo(w.lg(i)), o.size))
            c.split(s1, lambda s2: c.post(s2, tag(asbv(e.read(s2, o, None, simpo(w.lg(i)), w.E))) == 0, f"{label}: no element is alive beyond the size", P2))

    def unchanged(self, s, label, P=frozenset()):
        self.check(s, self.n, self.elem, self.cap, label, P1 | set(P))
        self.same_buffer(s, label)

    def same_buffer(self, s, label, P=P3 | P6 | P4):
        a = self.field(s, 0)
        self.w.c.post(s, z3.BoolVal(a.obj is self.buf), f"{label}: the buffer stays (pointers remain valid)", P)


# ------------------------------------------------------------------ operations
def variants(c, ty, f, nulls=(False, True)):
    only = getattr(c, "variant", None)
    for null in nulls:
        if only is not None and only != ("null" if null else "value"):
            continue
        st = State()
        w = World(c, st, ty)
        v = w.vec(st, "v", null)
        f(w, st, v)


def outcome(w, st, v, fname, args, n2, exp, cap2, label=None, fail="strong", need=None, ret=None, extra=None, keep=True, nothrow=False, cond=None, contents=True):
    """call, then check: on return (n2, exp, cap2); on a throw the vector is as before (strong) or also empty (basic).
    need: capacity that must be available (no reallocation and no throw if it is there)"""
    c, e = w.c, w.eng
    label = label or fname[2:]
    case = getattr(c, "case", None)
    if case is not None:
        st.assume(ULE(need, v.cap) if case == "room" else UGT(need, v.cap))

    def post(s, kind, r):
        if kind == "throw":
            c.reach(s, "throw")
            if nothrow:
                return c.post(s, FALSE, f"{label}: does not throw", P6 | P1 | P2)
            tn = getattr(r[0].obj, "tname", None)
            c.post(s, z3.BoolVal(tn in ("_ZTISt9bad_alloc", "_ZTISt12length_error", "_ZTISt20bad_array_new_length")), f"{label}: failure is reported as bad_alloc or length_error", P6)
            oom = s.ghost.get("oom", 0) > 0
            if not oom:
                big = UGT(need, bv64((1 << 63) // w.E - 1)) if need is not None else FALSE
                c.post(s, big, f"{label}: throws only if memory is refused or the size is impossible", P6 | P1)
            if need is not None:
                c.post(s, UGT(need, v.cap), f"{label}: does not throw while the capacity suffices", P6)
            fl = fail
            if fl == "basic":
                fl = "empty" if is_null(v.field(s, 0)) and v.buf is not None else "strong"
            if fl == "empty":
                v.check(s, bv64(0), None, bv64(0), f"{label}, failed", P6, P6)
            elif fl == "strong":
                v.check(s, v.n, v.elem, v.cap, f"{label}, failed", P6, P6)
                v.same_buffer(s, f"{label}, failed", P6)
            if extra:
                extra(s, kind, r)
            w.owners(s, f"{label}, failed")
            return
        c.reach(s, "ok")
        if need is not None and keep:
            d = e.decide(s, ULE(need, v.cap))
            if d is None:
                raise Fork(simp(ULE(need, v.cap)))
            if d:
                v.same_buffer(s, label)
        v.check(s, n2, exp, cap2, label, contents=contents)
        if ret is not None:
            a = v.start(s)
            rp = e.toptr(r)
            if rp.obj is a.obj:
                c.post(s, rp.off == a.off + w.lg(ret), f"{label}: returned iterator", P1)
            else:
                c.post(s, FALSE, f"{label}: returned iterator", P1)
        if extra:
            extra(s, kind, r)
        w.owners(s, label)
    c.call(fname, args, st, post)


def arg_kept(w, p, v):
    """the caller's element is still alive with its value"""
    def f(s, kind, r):
        w.c.post(s, asbv(w.eng.read(s, p.obj, None, p.off, w.E)) == v, "the caller's value stays as it is", P1 | P2)
    return f


def arg_moved(w, p):
    def f(s, kind, r):
        if w.life:
            w.c.post(s, tag(asbv(w.eng.read(s, p.obj, None, p.off, w.E))) != 0, "the caller's object is not destroyed", P2)
    return f


def u_ctor(ty):
    def f(c):
        st = State()
        w = World(c, st, ty)
        v = w.vec(st, "v", None)
        outcome(w, st, v, ty + "_ctor", [v.this], bv64(0), None, bv64(0), nothrow=True)
    return f


def count(w, st, nm="count"):
    k = z3.BitVec(nm, 64)
    w.eng.inputs[nm] = k
    return k


def u_ctor_n(ty):
    def f(c):
        st = State()
        w = World(c, st, ty)
        v = w.vec(st, "v", None)
        k = count(w, st)
        outcome(w, st, v, ty + "_ctor_n", [v.this, k], k, lambda i: w.zero(), k, fail=None, need=k, keep=False)
    return f


def u_ctor_nv(ty):
    def f(c):
        st = State()
        w = World(c, st, ty)
        v = w.vec(st, "v", None)
        k = count(w, st)
        p, x = w.value(st)
        outcome(w, st, v, ty + "_ctor_nv", [v.this, k, p], k, lambda i: x, k, fail=None, need=k, keep=False, extra=arg_kept(w, p, x))
    return f


def u_ctor_range(ty):
    def f(c):
        st = State()
        w = World(c, st, ty)
        v = w.vec(st, "v", None)
        a, b, k, el = w.array(st)
        outcome(w, st, v, ty + "_ctor_range", [v.this, a, b], k, el, k, fail=None, need=k, keep=False, extra=lambda s, kd, r: w.caller_unchanged(s, "ctor_range"))
    return f


def other_same(o):
    return lambda s, kind, r: o.unchanged(s, "the other vector", P4)


def u_ctor_copy(ty):
    def f(c):
        for null in (False, True):
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", None)
            o = w.vec(st, "other", null)
            outcome(w, st, v, ty + "_ctor_copy", [v.this, o.this], o.n, o.elem if not null else None, o.n, fail=None, need=o.n, keep=False, extra=other_same(o))
    return f


def taken(w, v, o, label):
    """v has o's elements and buffer, o has none"""
    def f(s, kind, r):
        c = w.c
        a = v.start(s)
        c.post(s, z3.BoolVal(a.obj is o.buf), f"{label}: the buffer is handed over, no element is touched", P4 | P3)
        o.check(s, bv64(0), None, bv64(0), f"{label}: the source is empty", P4, P4)
    return f


def u_ctor_move(ty):
    def f(c):
        for null in (False, True):
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", None)
            o = w.vec(st, "other", null)
            outcome(w, st, v, ty + "_ctor_move", [v.this, o.this], o.n, None if null else o.elem, o.cap, nothrow=True, extra=taken(w, v, o, "ctor_move"))
    return f


def u_dtor(ty):
    def f(c):
        def g(w, st, v):
            v.dead = True

            def post(s, kind, r):
                if kind != "return":
                    return c.post(s, FALSE, "the destructor does not throw", P2)
                c.reach(s, "ok")
                if v.buf is not None:
                    c.post(s, z3.BoolVal(v.buf in s.dead), "dtor: the buffer is freed", P2)
                w.owners(s, "dtor")
            c.call(ty + "_dtor", [v.this], st, post)
        variants(c, ty, g)
    return f


def u_copy_assign(ty):
    def f(c):
        for n1 in (False, True):
            for n2 in (False, True):
                st = State()
                w = World(c, st, ty)
                v, o = w.vec(st, "v", n1), w.vec(st, "other", n2)
                outcome(w, st, v, ty + "_copy_assign", [v.this, o.this], o.n, None if n2 else o.elem, If(ULE(o.n, v.cap), v.cap, o.n), fail="basic", need=o.n, extra=other_same(o))
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", n1)
            outcome(w, st, v, ty + "_copy_assign", [v.this, v.this], v.n, None if n1 else v.elem, v.cap, label="copy_assign to itself", nothrow=True)
    return f


def u_move_assign(ty):
    def f(c):
        for n1 in (False, True):
            for n2 in (False, True):
                st = State()
                w = World(c, st, ty)
                v, o = w.vec(st, "v", n1), w.vec(st, "other", n2)
                outcome(w, st, v, ty + "_move_assign", [v.this, o.this], o.n, None if n2 else o.elem, o.cap, nothrow=True, extra=taken(w, v, o, "move_assign"))
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", n1)
            outcome(w, st, v, ty + "_move_assign", [v.this, v.this], v.n, None if n1 else v.elem, v.cap, label="move_assign to itself", nothrow=True)
    return f


def with_alias(c, ty, g, nulls=(False, True)):
    """g(w, st, v, argument pointer, its value, aliased?) for a separate argument and for one inside the vector"""
    def one(w, st, v):
        p, x = w.value(st)
        g(w, st, v, p, x, False)
    variants(c, ty, one, nulls)
    if getattr(c, "variant", None) not in (None, "alias"):
        return
    st = State()
    w = World(c, st, ty)
    v = w.vec(st, "v", False)
    a = z3.BitVec("alias", 64)
    c.eng.inputs["alias"] = a
    st.assume(ULT(a, v.n))
    g(w, st, v, v.at(a), v.elem(a), True)


def u_assign_nv(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            k = count(w, st)
            outcome(w, st, v, ty + "_assign_nv", [v.this, k, p], k, lambda i: x, If(ULE(k, v.cap), v.cap, k), fail="basic", need=k, extra=None if al else arg_kept(w, p, x),
                    label="assign_nv" + (" of an element" if al else ""))
        with_alias(c, ty, g)
    return f


def u_assign_range(ty):
    def f(c):
        def g(w, st, v):
            a, b, k, el = w.array(st)
            outcome(w, st, v, ty + "_assign_range", [v.this, a, b], k, el, If(ULE(k, v.cap), v.cap, k), fail="basic", need=k, extra=lambda s, kd, r: w.caller_unchanged(s, "assign_range"))
        variants(c, ty, g)
    return f


def u_observe(ty):
    def f(c):
        def g(w, st, v, op, args, want, nonempty=False, P=P1):
            if nonempty:
                if v.buf is None:
                    return
                st.assume(UGE(v.n, bv64(1)))

            def post(s, kind, r):
                if kind != "return":
                    return c.post(s, FALSE, f"{op}: does not throw")
                c.reach(s, "ok")
                x = want(s)
                if isinstance(x, Ptr):
                    rp = c.eng.toptr(r)
                    c.post(s, eqv(rp, x) if rp.obj is x.obj else FALSE, f"{op}: result", P)
                else:
                    c.post(s, (asbool(r) if z3.is_bool(x) else asbv(r)) == x, f"{op}: result", P)
                v.unchanged(s, op)
            c.call(ty + "_" + op, [v.this] + args, st, post)
        ptr = lambda v, i: v.at(i) if v.buf is not None else NULL
        for null in (False, True):
            for op, mk in (("size", lambda v: (lambda s: v.n)), ("capacity", lambda v: (lambda s: v.cap)), ("empty", lambda v: (lambda s: v.n == 0)),
                           ("max_size", lambda v: (lambda s: bv64(((1 << 63) - 1) // v.w.E))),
                           ("data", lambda v: (lambda s: ptr(v, bv64(0)))), ("begin", lambda v: (lambda s: ptr(v, bv64(0)))), ("end", lambda v: (lambda s: ptr(v, v.n)))):
                st = State()
                w = World(c, st, ty)
                v = w.vec(st, "v", null)
                g(w, st, v, op, [], mk(v), P=P3 if op in ("capacity", "max_size") else P1)
        for op, mk in (("front", lambda v: bv64(0)), ("cfront", lambda v: bv64(0)), ("back", lambda v: v.n - 1), ("cback", lambda v: v.n - 1)):
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", False)
            g(w, st, v, op, [], lambda s: v.at(mk(v)), nonempty=True)
        for op in ("at", "idx"):
            st = State()
            w = World(c, st, ty)
            v = w.vec(st, "v", False)
            k = count(w, st, "index")
            st.assume(ULT(k, v.n))
            g(w, st, v, op, [k], lambda s: v.at(k))
    return f


def u_shrink(ty):
    def f(c):
        variants(c, ty, lambda w, st, v: outcome(w, st, v, ty + "_shrink", [v.this], v.n, v.elem, v.n, keep=False))
    return f


def u_reserve(ty):
    def f(c):
        def g(w, st, v):
            k = count(w, st)
            outcome(w, st, v, ty + "_reserve", [v.this, k], v.n, v.elem, If(ULE(k, v.cap), v.cap, k), need=k)
        variants(c, ty, g)
    return f


def appended(v, x):
    return lambda i: If(i == v.n, x, v.elem(i)) if v.buf is not None else x


def u_push_c(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            outcome(w, st, v, ty + "_push_c", [v.this, p], v.n + 1, appended(v, x), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1,
                    extra=None if al else arg_kept(w, p, x), label="push_back" + (" of an element" if al else ""))
        with_alias(c, ty, g)
    return f


def u_push_unsafe(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            st.assume(ULT(v.n, v.cap))
            outcome(w, st, v, ty + "_push_c_unsafe", [v.this, p], v.n + 1, appended(v, x), v.cap, need=v.n + 1, nothrow=True, label="push_back<Unsafe>")
        with_alias(c, ty, g, (False,))
    return f


def u_push_m(ty):
    def f(c):
        def g(w, st, v):
            p, x = w.value(st)
            outcome(w, st, v, ty + "_push_m", [v.this, p], v.n + 1, appended(v, x), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1, extra=arg_moved(w, p), label="push_back(T&&)")
        variants(c, ty, g)
    return f


def made(w, x):
    return live(z3.Extract(61, 0, x)) if w.life else z3.Extract(8 * w.E - 1, 0, x)


def u_emplace_back(ty):
    def f(c):
        def g(w, st, v):
            x = count(w, st, "x")
            outcome(w, st, v, ty + "_emplace_back", [v.this, x], v.n + 1, appended(v, made(w, x)), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1, ret=v.n)
        variants(c, ty, g)
    return f


def u_clear(ty):
    def f(c):
        variants(c, ty, lambda w, st, v: outcome(w, st, v, ty + "_clear", [v.this], bv64(0), None, v.cap, nothrow=True, need=bv64(0)))
    return f


def u_pop(ty):
    def f(c):
        def g(w, st, v):
            st.assume(UGE(v.n, bv64(1)))
            outcome(w, st, v, ty + "_pop", [v.this], v.n - 1, v.elem, v.cap, nothrow=True, need=bv64(0))
        variants(c, ty, g, (False,))
    return f


def u_erase(ty, op):
    def f(c):
        def g(w, st, v):
            i = count(w, st, "index")
            st.assume(ULT(i, v.n))
            outcome(w, st, v, ty + op, [v.this, i], v.n - 1, lambda j: v.elem(If(ULT(j, i), j, j + 1)), v.cap, nothrow=True, need=bv64(0), ret=i)
        variants(c, ty, g, (False,))
    return f


def u_erase_r(ty, op):
    def f(c):
        def g(w, st, v):
            i, j = count(w, st, "first"), count(w, st, "last")
            st.assume(ULE(i, j), ULE(j, v.n))
            outcome(w, st, v, ty + op, [v.this, i, j], v.n - (j - i), lambda k: v.elem(If(ULT(k, i), k, k + (j - i))), v.cap, nothrow=True, need=bv64(0))
        variants(c, ty, g, (False, True))
    return f


def u_resize(ty):
    def f(c):
        def g(w, st, v):
            k = count(w, st)
            outcome(w, st, v, ty + "_resize", [v.this, k], k, lambda i: If(ULT(i, v.n), v.elem(i), w.zero()) if v.buf is not None else w.zero(), If(ULE(k, v.cap), v.cap, k), need=k)
        variants(c, ty, g)
    return f


def u_resize_v(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            k = count(w, st)
            if al:
                st.assume(UGT(k, v.n))
            outcome(w, st, v, ty + "_resize_v", [v.this, k, p], k, lambda i: If(ULT(i, v.n), v.elem(i), x) if v.buf is not None else x, If(ULE(k, v.cap), v.cap, k), need=k,
                    extra=None if al else arg_kept(w, p, x), label="resize_v" + (" with an element" if al else ""))
        with_alias(c, ty, g)
    return f


def u_swap(ty, op):
    def f(c):
        for n1 in (False, True):
            for n2 in (False, True):
                st = State()
                w = World(c, st, ty)
                v, o = w.vec(st, "v", n1), w.vec(st, "other", n2)

                def other(s, kind, r, v=v, o=o, n1=n1):
                    o.check(s, v.n, None if n1 else v.elem, v.cap, "swap, other", P4, P4)
                    c.post(s, z3.BoolVal(o.start(s).obj is v.buf and v.start(s).obj is o.buf), "swap: the buffers change hands", P4 | P3)
                outcome(w, st, v, ty + op, [v.this, o.this], o.n, None if n2 else o.elem, o.cap, nothrow=True, extra=other)
    return f


def opened(v, i, k, x):
    """sequence with k elements x(0..k) inserted before position i"""
    if v.buf is None:
        return lambda j: x(j)
    return lambda j: If(ULT(j, i), v.elem(j), If(ULT(j - i, k), x(j - i), v.elem(j - k)))


def u_insert_c(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            i = count(w, st, "index")
            st.assume(ULE(i, v.n))
            outcome(w, st, v, ty + "_insert_c", [v.this, i, p], v.n + 1, opened(v, i, bv64(1), lambda j: x), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1, ret=i,
                    extra=None if al else arg_kept(w, p, x), label="insert" + (" of an element" if al else ""))
        with_alias(c, ty, g)
    return f


def u_insert_m(ty):
    def f(c):
        def g(w, st, v):
            p, x = w.value(st)
            i = count(w, st, "index")
            st.assume(ULE(i, v.n))
            outcome(w, st, v, ty + "_insert_m", [v.this, i, p], v.n + 1, opened(v, i, bv64(1), lambda j: x), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1, ret=i,
                    extra=arg_moved(w, p), label="insert(T&&)")
        variants(c, ty, g)
    return f


def u_insert_n(ty):
    def f(c):
        def g(w, st, v, p, x, al):
            i, k = count(w, st, "index"), count(w, st)
            st.assume(ULE(i, v.n), UGE(k, bv64(1)))
            need = If(UGT(k, bv64((1 << 63) - 1) - v.n), bv64((1 << 64) - 1), v.n + k)
            outcome(w, st, v, ty + "_insert_n", [v.this, i, k, p], v.n + k, opened(v, i, k, lambda j: x), w.grow(v, v.n + k), need=need, ret=i,
                    extra=None if al else arg_kept(w, p, x), label="insert_n" + (" of an element" if al else ""))
        with_alias(c, ty, g)
    return f


def u_insert_r(ty):
    def f(c):
        def g(w, st, v):
            a, b, k, el = w.array(st)
            i = count(w, st, "index")
            st.assume(ULE(i, v.n))
            outcome(w, st, v, ty + "_insert_r", [v.this, i, a, b], v.n + k, opened(v, i, k, el), w.grow(v, v.n + k), need=v.n + k, ret=i if v.buf is not None else None,
                    extra=lambda s, kd, r: w.caller_unchanged(s, "insert_r"), label="insert_range")
        variants(c, ty, g)
    return f


def u_emplace(ty, op):
    def f(c):
        def g(w, st, v):
            x = count(w, st, "x")
            i = count(w, st, "index")
            st.assume(ULE(i, v.n))
            outcome(w, st, v, ty + op, [v.this, i, x], v.n + 1, opened(v, i, bv64(1), lambda j: made(w, x)), If(ULT(v.n, v.cap), v.cap, w.next(v.cap)), need=v.n + 1, ret=i)
        variants(c, ty, g)
    return f


def u_resize_unsafe(ty):
    def f(c):
        def g(w, st, v):
            k = count(w, st)
            m = If(ULT(k, v.n), k, v.n)

            def more(s, kind, r):
                if kind == "return" and v.buf is not None:
                    i = z3.BitVec("sk.k", 64)
                    s.assume(ULT(i, m))
                    c.split(s, lambda s1: c.post(s1, asbv(c.eng.read(s1, v.start(s1).obj, None, simpo(w.lg(i)), w.E)) == v.elem(i), "resize<Unsafe>: kept elements", P1))
            outcome(w, st, v, ty + "_resize_unsafe", [v.this, k], k, None, If(ULE(k, v.cap), v.cap, k), need=k, contents=False, extra=more)
        variants(c, ty, g)
    return f


def kept(w, v, label):
    """the old elements are all there, in place"""
    def f(s, kind, r):
        if kind == "return" and v.buf is not None:
            c = w.c
            i = z3.BitVec("sk.k", 64)
            s.assume(ULT(i, v.n))
            c.split(s, lambda s1: c.post(s1, asbv(c.eng.read(s1, v.start(s1).obj, None, simpo(w.lg(i)), w.E)) == v.elem(i), f"{label}: earlier elements stay", P1))
    return f


def u_writebuffer(ty, op):
    def f(c):
        def g(w, st, v):
            k = count(w, st)
            unsafe = op.endswith("unsafe")
            if unsafe:
                st.assume(ULE(k, v.cap - v.n))
            need = If(UGT(k, bv64((1 << 63) - 1) - v.n), bv64((1 << 64) - 1), v.n + k)
            kk = kept(w, v, op[1:])

            def more(s, kind, r):
                kk(s.copy(), kind, r)
                if kind == "return" and op == "_writebuffer_size":
                    c.post(s, asbv(r) == k, "get_writebuffer: the span has the requested size", P1)
            outcome(w, st, v, ty + op, [v.this, k], v.n + k, None, v.cap if unsafe else w.grow(v, v.n + k), need=need, contents=False, nothrow=unsafe,
                    ret=None if op == "_writebuffer_size" or v.buf is None else v.n, extra=more)
        variants(c, ty, g)
    return f


def u_fill(ty, op):
    def f(c):
        def g(w, st, v):
            unsafe = op.endswith("unsafe")
            room, wrote = z3.BitVec("filler.announces", 64), z3.BitVec("filler.writes", 64)
            c.eng.inputs["filler.announces"], c.eng.inputs["filler.writes"] = room, wrote
            st.assume(ULE(wrote, room))
            if unsafe:
                st.assume(ULE(room, v.cap - v.n))
            fo = FuncObj("EXT:filler")
            new = z3.Function("filler.elem", z3.BitVecSort(64), z3.BitVecSort(8 * w.E))

            def filler(en, s, a, site, nm):
                p = en.toptr(a[0])
                if is_null(p) and not (v.buf is None and s.ghost.get("asked")) and not (unsafe and v.buf is None):
                    s.ghost["asked"] = True
                    return room
                if is_null(p):
                    return wrote if en.entails(s, room == 0) else None
                e0 = s.mem[v.obj]
                c.post(s, And(ULE(simpo(w.lg(room)), p.obj.size - p.off), p.off == simpo(w.lg(v.n))), "fill: the filler writes behind the last element, with the room it announced", P1 | P3)
                s.mem[p.obj] = Chain(Range(None, p.off, simpo(w.lg(room)), lambda s2, o, ww: new(simpo(o - p.off))), s.mem[p.obj])
                s.ghost["filled"] = s.ghost.get("filled", 0) + 1
                return wrote
            c.eng.models["EXT:filler"] = filler
            need = If(UGT(room, bv64((1 << 63) - 1) - v.n), bv64((1 << 64) - 1), v.n + room)
            cap2 = v.cap if unsafe else w.grow(v, v.n + room)

            def more(s, kind, r):
                if kind != "return":
                    return
                kept(w, v, "fill")(s.copy(), kind, r)
                if v.start(s).obj is None:
                    return
                i = z3.BitVec("sk.k", 64)
                s.assume(ULT(i, wrote))
                c.split(s, lambda s1: c.post(s1, asbv(c.eng.read(s1, v.start(s1).obj, None, simpo(w.lg(i + v.n)), w.E)) == new(simpo(w.lg(i))), "fill: the new elements are the ones the filler wrote", P1))
            outcome(w, st, v, ty + op, [v.this, Ptr(fo, bv64(0))], v.n + wrote, None, cap2, need=need, contents=False, nothrow=unsafe, extra=more)
        variants(c, ty, g, (False,) if op.endswith("unsafe") else (False, True))
    return f


def u_compare(ty, op):
    """lexicographic order, by cases on the first position where the sequences differ"""
    def f(c):
        P = P5
        for n1, n2, case in [(False, False, k) for k in ("smaller", "greater", "prefix")] + [(x, y, "prefix") for x in (False, True) for y in (False, True) if x or y]:
            for rel in ((ULT, z3.UGT, lambda x, y: x == y) if case == "prefix" else (None,)):
                st = State()
                w = World(c, st, ty)
                v, o = w.vec(st, "v", n1), w.vec(st, "other", n2)
                m = If(ULT(v.n, o.n), v.n, o.n)
                if not n1 and not n2:
                    d = z3.BitVec("first.difference", 64)
                    c.eng.inputs["first.difference"] = d
                    j = z3.BitVec("j@first", 64)
                    if case == "prefix":
                        st.qf.append(QFact(j, Implies(And(ULT(j, v.n), ULT(j, o.n)), v.f(j) == o.f(j)), "equal up to the end of the shorter one"))
                    else:
                        a, b = v.elem(d), o.elem(d)
                        if w.life:
                            a, b = pay(a), pay(b)
                        st.qf.append(QFact(j, Implies(ULT(j, d), v.f(j) == o.f(j)), "equal up to the first difference"))
                        st.assume(ULT(d, v.n), ULT(d, o.n), ULT(a, b) if case == "smaller" else UGT(a, b))
                if rel is not None:
                    st.assume(rel(v.n, o.n))
                    if not c.eng.feasible(st, z3.BoolVal(True)):
                        continue
                    case2 = {ULT: "smaller", z3.UGT: "greater"}.get(rel, "equal")
                else:
                    case2 = case

                def post(s, kind, r, v=v, o=o, case2=case2):
                    if kind != "return":
                        return c.post(s, FALSE, f"{op}: does not throw", P)
                    c.reach(s, "ok")
                    if op == "cmp":
                        want = {"smaller": -1, "greater": 1, "equal": 0}[case2]
                        c.post(s, asbv(r) == z3.BitVecVal(want, 32), "<=>: lexicographic order", P)
                    else:
                        want = {"eq": case2 == "equal", "ne": case2 != "equal", "lt": case2 == "smaller"}[op]
                        c.post(s, asbool(r) == z3.BoolVal(want), f"{op}: result", P)
                    v.unchanged(s, op, P)
                    o.unchanged(s, op, P)
                c.call(f"{ty}_{op}", [v.this, o.this], st, post)
    return f


MOD = ("vector", "vector.cc", (), (), False)
NATIVE = [("vector", (), (), (True,))]
BOUNDED = [("stdb_vector::erase(value), erase_if, std::erase, std::erase_if", ("V01", "V02"), "vector", ("--focus", "erase"), 8)]
ASSUMPTIONS = [
    "vectors hold fewer than 2^43 elements; allocations of 2^46 bytes and more always fail",
    "element constructors, destructors, assignments and comparisons do what their names say, do not throw and do not touch the vector",
    "arguments do not refer into the vector, except the const reference values of push_back, insert, resize and assign",
    "Unsafe variants are called with enough capacity; positions and indices are in range",
    "a filler passed to fill() writes at most the number of elements it announced, and returns how many it wrote",
    "representation invariant of a vector (owns one buffer or none, size <= capacity) is the induction hypothesis: every operation is proved to preserve it",
]


def units(thorough=False):
    from vf.unit import Unit
    out = []

    def part(f, variant):
        def g(c):
            c.variant, _, case = variant.partition(".")
            c.case = case or None
            return f(c)
        return g

    def U(ty, n, fun, f, p, weight=5, reach=("ok",), parts=()):
        if parts:
            for x in parts:
                U(ty, n + "." + x, fun, part(f, x), p, weight if x != "null" else 5, ("ok",) if x.endswith("room") else reach)
            return
        out.append(Unit(f"vector.{TY[ty][2].replace('unsigned ', 'u')}.{n}", MOD, p, f, f"stdb_vector<{TY[ty][2]}>::{fun}", weight, reach, False))
    OT = ("ok", "throw")
    ALL = ("V01", "V02", "V03", "V06")
    for ty in TY:
        life = TY[ty][1]
        V = lambda *p: tuple(x for x in p if (x != "V02" or life) and (x not in ("V03",) or ty in "wb") and (x != "V01" or ty in "wbm") and (x != "V06" or ty in "wbm") and (x != "V04" or ty in "wm"))
        U(ty, "ctor", "stdb_vector()", u_ctor(ty), V("V01", "V03"))
        U(ty, "ctor_n", "stdb_vector(n)", u_ctor_n(ty), V(*ALL), reach=OT)
        U(ty, "ctor_nv", "stdb_vector(n, value)", u_ctor_nv(ty), V(*ALL), reach=OT)
        U(ty, "ctor_range", "stdb_vector(first, last)", u_ctor_range(ty), V(*ALL), reach=OT)
        U(ty, "ctor_copy", "stdb_vector(const stdb_vector&)", u_ctor_copy(ty), V("V02", "V03", "V04", "V06"), reach=OT)
        U(ty, "ctor_move", "stdb_vector(stdb_vector&&)", u_ctor_move(ty), V("V02", "V04"))
        U(ty, "dtor", "~stdb_vector", u_dtor(ty), V("V02"))
        U(ty, "copy_assign", "operator=(const stdb_vector&)", u_copy_assign(ty), V("V02", "V03", "V04", "V06"), reach=OT)
        U(ty, "move_assign", "operator=(stdb_vector&&)", u_move_assign(ty), V("V02", "V04"))
        U(ty, "swap", "swap", u_swap(ty, "_swap"), V("V04"))
        U(ty, "std_swap", "std::swap", u_swap(ty, "_std_swap"), V("V04"))
        U(ty, "assign_nv", "assign(n, value)", u_assign_nv(ty), V(*ALL), reach=OT)
        U(ty, "assign_range", "assign(first, last)", u_assign_range(ty), V(*ALL), reach=OT)
        U(ty, "observe", "size, capacity, empty, max_size, data, begin, end, front, back, at, operator[]", u_observe(ty), V("V01", "V03"))
        U(ty, "shrink", "shrink_to_fit", u_shrink(ty), V(*ALL), reach=OT)
        U(ty, "reserve", "reserve", u_reserve(ty), V(*ALL), reach=OT)
        U(ty, "push_c", "push_back(const T&)", u_push_c(ty), V(*ALL), reach=OT)
        U(ty, "push_unsafe", "push_back<Unsafe>", u_push_unsafe(ty), V("V01", "V02"))
        U(ty, "emplace_back", "emplace_back", u_emplace_back(ty), V(*ALL), reach=OT)
        U(ty, "clear", "clear", u_clear(ty), V("V01", "V02", "V03"))
        U(ty, "pop", "pop_back", u_pop(ty), V("V01", "V02", "V03"))
        for o in ("_erase", "_erase_c"):
            U(ty, o[1:], "erase(pos)", u_erase(ty, o), V("V01", "V02", "V03"))
        for o in ("_erase_r", "_erase_rc"):
            U(ty, o[1:], "erase(first, last)", u_erase_r(ty, o), V("V01", "V02", "V03"), weight=20)
        U(ty, "resize", "resize(n)", u_resize(ty), V(*ALL), reach=OT)
        U(ty, "resize_v", "resize(n, value)", u_resize_v(ty), V(*ALL), reach=OT)
        U(ty, "insert_c", "insert(pos, const T&)", u_insert_c(ty), V(*ALL), reach=OT, weight=60, parts=("alias", "value", "null") if ty in "wb" else ("alias.room", "alias.grow", "value.room", "value.grow", "null"))
        U(ty, "insert_n", "insert(pos, n, value)", u_insert_n(ty), V(*ALL), reach=OT, weight=200, parts=("alias", "value", "null") if ty == "b" else ("alias.room", "alias.grow", "value.room", "value.grow", "null"))
        U(ty, "insert_r", "insert(pos, first, last)", u_insert_r(ty), V(*ALL), reach=OT, weight=80, parts=("value", "null") if ty in "wb" else ("value.room", "value.grow", "null"))
        U(ty, "emplace", "emplace(iterator, args)", u_emplace(ty, "_emplace"), V(*ALL), reach=OT, weight=30)
        U(ty, "emplace_i", "emplace(index, args)", u_emplace(ty, "_emplace_i"), V(*ALL), reach=OT, weight=30)
        if ty != "c":
            U(ty, "push_m", "push_back(T&&)", u_push_m(ty), V(*ALL), reach=OT)
            U(ty, "insert_m", "insert(pos, T&&)", u_insert_m(ty), V(*ALL), reach=OT, weight=40, parts=("value", "null"))
        if ty in "wb":
            U(ty, "resize_unsafe", "resize<Unsafe>", u_resize_unsafe(ty), V("V01", "V03", "V06"), reach=OT)
            for o in ("_writebuffer", "_writebuffer_size", "_writebuffer_unsafe"):
                U(ty, o[1:], "get_writebuffer", u_writebuffer(ty, o), V("V01", "V03", "V06"))
            for o in ("_fill", "_fill_unsafe"):
                U(ty, o[1:], "fill", u_fill(ty, o), V("V01", "V03", "V06"))
        if ty in "wbm":
            for o in ("eq", "ne", "cmp", "lt"):
                U(ty, o, f"operator {o}", u_compare(ty, o), ("V05",), weight=30)
    return [u for u in out if u.props]
