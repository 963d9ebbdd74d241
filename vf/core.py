"""Symbolic values, memory and path states for the deductive verifier.

Pointers are (object, index, offset): `object` a memory region with its own base address and
size, `index` used only by region families (e.g. the arena's block chain: one region per
k < n for a symbolic n), `offset` a 64-bit term.  Region contents are functional update chains
over an uninterpreted initial content, so reads after any number of symbolic-length writes
stay quantifier free.
"""
import z3

BV = z3.BitVecVal
bv64 = lambda v: z3.BitVecVal(v, 64)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp(e):
    return z3.simplify(e)


def simpo(e):
    """normal form for offsets"""
    return z3.simplify(e, som=True, mul_to_power=False)


def num(e):
    """python int if e is a literal (unsigned)"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    e = simpo(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def snum(e):
    v = num(e)
    if v is None:
        return None
    return v - (1 << 64) if v >= 1 << 63 else v


class Fork(Exception):
    """the current instruction needs a case split on cond"""

    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """the current path ends here (an obligation has been recorded)"""


class Obj:
    """memory region. kind 'cells': constant size, concrete offsets; 'chain': symbolic"""
    n = 0
    touch = None
    tname = None

    def __init__(self, name, base, size, kind, gran=1, fam=False, base_fn=None, live=None, heap=False, const=False):
        self.name, self.base, self.size, self.kind, self.gran = name, base, size, kind, gran
        self.fam = fam          # family: base(k), size(k), live(st,k)
        self.base_fn = base_fn  # initial content: f(st, k, off, w) -> value
        self.live = live
        self.heap = heap
        self.const = const
        Obj.n += 1
        self.id = Obj.n

    def __repr__(self):
        return f"<{self.name}>"


class FuncObj:
    def __init__(self, name):
        self.name = name
        self.fam = False
        self.base = z3.BitVec("fnaddr." + name, 64)

    def __repr__(self):
        return f"<fn {self.name}>"


class Ptr:
    __slots__ = ("obj", "off", "idx")

    def __init__(self, obj, off, idx=None):
        self.obj, self.off, self.idx = obj, off, idx

    def bits(self):
        if self.obj is None:
            return self.off
        b = self.obj.base(self.idx) if self.obj.fam else self.obj.base
        return b + self.off

    def add(self, d):
        return Ptr(self.obj, simpo(self.off + d), self.idx)

    def __repr__(self):
        return f"Ptr({self.obj},{self.off},{self.idx})" if self.obj is not None else f"Raw({self.off})"


NULL = Ptr(None, bv64(0))


def is_null(p):
    return isinstance(p, Ptr) and p.obj is None and num(p.off) == 0


def asbv(v, w=None):
    if isinstance(v, Ptr):
        return v.bits()
    if z3.is_bool(v):
        return z3.If(v, BV(1, 8), BV(0, 8))
    return v


def asbool(v):
    if z3.is_bool(v):
        return v
    if isinstance(v, Ptr):
        v = v.bits()
    return v != 0


def vsubst(v, pairs):
    if isinstance(v, Ptr):
        return Ptr(v.obj, z3.substitute(v.off, *pairs), None if v.idx is None else z3.substitute(v.idx, *pairs))
    if isinstance(v, (list, tuple)):
        return [vsubst(x, pairs) for x in v]
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    return v


def vite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            idx = None
            if a.idx is not None:
                idx = simp(z3.If(c, a.idx, b.idx))
            return Ptr(a.obj, simp(z3.If(c, a.off, b.off)), idx)
        raise Fork(c)
    if z3.is_bool(a) != z3.is_bool(b):
        a, b = asbv(a), asbv(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class Lazy:
    """cell value decided by a case split when it is first read"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


# ---------------------------------------------------------------- chain entries
class Point:
    __slots__ = ("k", "off", "w", "val")

    def __init__(self, k, off, w, val):
        self.k, self.off, self.w, self.val = k, off, w, val


class Range:
    """[lo, lo+n): value fn(st, o, w)"""
    __slots__ = ("k", "lo", "n", "fn")

    def __init__(self, k, lo, n, fn):
        self.k, self.lo, self.n, self.fn = k, lo, n, fn


class Lift:
    """cond(k, o): value fn(st, k, o, w); accesses are of width w0 or smaller pieces of it"""
    __slots__ = ("k", "cond", "fn", "w0", "src")

    def __init__(self, k, cond, fn, w0, src=None):
        self.k, self.cond, self.fn, self.w0, self.src = k, cond, fn, w0, src


class Chain:
    """persistent list of entries, newest first"""
    __slots__ = ("entry", "rest", "depth")

    def __init__(self, entry, rest):
        self.entry, self.rest = entry, rest
        self.depth = (rest.depth + 1) if rest is not None else 0


class QFact:
    """forall v. guard(v) => body(v), as an expr over placeholder var"""
    n = 0

    def __init__(self, var, expr, name="", hints=()):
        self.var, self.expr, self.name = var, expr, name
        self.hints = list(hints)
        self._pat = None
        QFact.n += 1
        self.id = QFact.n

    def at(self, term):
        return z3.substitute(self.expr, (self.var, term))


class State:
    def __init__(self):
        self.pc = []
        self.qf = []
        self.mem = {}      # Obj -> dict (cells) | Chain (chain)
        self.dead = frozenset()
        self.ghost = {}
        self.cnt = {}
        self.taint = None
        self.taus = ()
        self.dry = False
        self.note = ()

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.qf = list(self.qf)
        s.mem = dict(self.mem)
        s.dead = self.dead
        s.ghost = dict(self.ghost)
        s.cnt = dict(self.cnt)
        s.taint = self.taint
        s.taus = self.taus
        s.dry = self.dry
        s.note = self.note
        return s

    def assume(self, *cs):
        for c in cs:
            if z3.is_true(c):
                continue
            self.pc.append(c)


# ---------------------------------------------------------------- term utilities
def lin(e, var):
    """e = a + s*var (mod 2^64) with s, a free of var; returns (a, s) or None"""
    if not contains(e, var):
        return e, bv64(0)
    a = simpo(z3.substitute(e, (var, bv64(0))))
    s = simpo(z3.substitute(e, (var, var + 1)) - e)
    if contains(s, var):
        return None
    return a, s


_cc = {}


def contains(e, var):
    if isinstance(e, Ptr):
        return contains(e.off, var) or (e.idx is not None and contains(e.idx, var))
    if isinstance(e, (list, tuple)):
        return any(contains(x, var) for x in e)
    if not z3.is_expr(e):
        return False
    vid = var.get_id()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def uf_apps(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())


def cmp_atoms(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ,
                     z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and z3.is_bv(x.arg(0)):
                out.append(x)
            st.extend(x.children())


def udiv_const(e, s):
    """e / s for a positive python int s, as a cheap term"""
    if s == 1:
        return e
    if s & (s - 1) == 0:
        return z3.LShR(e, bv64(s.bit_length() - 1))
    return z3.UDiv(e, bv64(s))


def div_terms(a, d):
    """q with d*q = a (mod 2^64) if a is syntactically a multiple of d, else None"""
    a = simpo(a)
    terms = a.children() if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BADD else [a]
    q = z3.BitVecVal(0, a.size())
    for t in terms:
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            if v % d:
                return None
            q = q + z3.BitVecVal(v // d, a.size())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_signed_long()
            if v % d:
                return None
            rest = t.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            q = q + z3.BitVecVal(v // d, a.size()) * r
            continue
        return None
    return simpo(q)


def solve_lin(g, a, s):
    """candidate v with a + s*v = g, s python int nonzero (signed); a guess if the equation has several solutions"""
    q = div_terms(g - a if s > 0 else a - g, abs(s))
    if q is not None:
        return q
    if s > 0:
        return simpo(udiv_const(simpo(g - a), s))
    return simpo(udiv_const(simpo(a - g), -s))
