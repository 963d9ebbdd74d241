"""Models (assumed contracts) of the C/C++ runtime functions the library calls.

These are the trusted external contracts; every one that is used in a run is listed in the
evidence as an assumption.
"""
import re
import z3
from .core import *
from .ir import Unsupported


def used(eng, what):
    eng.stats["assumed"].add(what)


def alloc(eng, st, site, n, zero=False):
    """fresh region of n bytes disjoint from every live object"""
    nm = eng.freshname(st, "heap." + site)
    if st.taus:
        raise Unsupported("allocation inside a loop")
    o = eng.new_chain(st, nm, n, gran=eng.heap_gran, base_fn=eng.heap_base(nm) if eng.heap_base else None, heap=True)
    st.ghost["allocs"] = st.ghost.get("allocs", ()) + (o,)
    return o


def m_malloc(eng, st, a, site, name):
    used(eng, "malloc/realloc: null, or a fresh 16-byte aligned object of the requested size")
    n = asbv(a[0])
    st1 = st.copy()
    st1.ghost["oom"] = st1.ghost.get("oom", 0) + 1
    outs = []
    if eng.malloc_may_fail:
        outs.append(("ret", st1, NULL))
    lim = z3.ULT(n, bv64(1 << 46))
    if eng.feasible(st, lim):
        st.assume(lim)
        o = alloc(eng, st, site, n)
        outs.append(("ret", st, Ptr(o, bv64(0))))
    return outs


def do_free(eng, st, p, what):
    if is_null(p):
        return
    if p.obj is None or isinstance(p.obj, FuncObj) or p.obj.fam:
        eng.oblige(st, FALSE, f"{what} of a pointer that was not allocated")
        raise Dead()
    o = p.obj
    if o in st.dead:
        eng.oblige(st, FALSE, f"{what}: double free of {o.name}")
        raise Dead()
    if not o.heap:
        eng.oblige(st, FALSE, f"{what} of non-heap object {o.name}")
        raise Dead()
    eng.oblige(st, p.off == 0, f"{what} of an interior pointer")
    if eng.on_free:
        eng.on_free(eng, st, o)
    st.dead = st.dead | {o}
    st.ghost["frees"] = st.ghost.get("frees", ()) + (o,)


def m_free(eng, st, a, site, name):
    used(eng, "free: releases one live heap object, by its start address")
    do_free(eng, st, eng.toptr(a[0]), "free")
    return None


def m_realloc(eng, st, a, site, name):
    used(eng, "malloc/realloc: null, or a fresh 16-byte aligned object of the requested size")
    p = eng.toptr(a[0])
    n = asbv(a[1])
    if is_null(p):
        return m_malloc(eng, st, [n], site, name)
    o = p.obj
    if o is None or isinstance(o, FuncObj) or not o.heap or o in st.dead:
        eng.oblige(st, FALSE, "realloc of an invalid pointer")
        raise Dead()
    eng.oblige(st, p.off == 0, "realloc of an interior pointer")
    if eng.on_realloc:
        eng.on_realloc(eng, st, o)
    outs = []
    if eng.malloc_may_fail:
        st1 = st.copy()
        st1.ghost["oom"] = st1.ghost.get("oom", 0) + 1
        outs.append(("ret", st1, NULL))
    lim = z3.ULT(n, bv64(1 << 46))
    if eng.feasible(st, lim):
        st.assume(lim)
        r = alloc(eng, st, site, n)
        r_snap = st.mem[o]
        m = simp(z3.If(z3.ULT(n, o.size), n, o.size))
        d = eng.decide(st, z3.ULE(o.size, n))
        if d is True:
            m = o.size
        elif d is False:
            m = n
        mv = z3.Const("m." + r.name, z3.BitVecSort(64)) if False else m

        def fn(st2, off, w):
            return eng.read_chain(st2, o, r_snap, None, off, w)
        st.mem[r] = Chain(Range(None, bv64(0), mv, fn), st.mem[r])
        st.dead = st.dead | {o}
        st.ghost["frees"] = st.ghost.get("frees", ()) + (o,)
        outs.append(("ret", st, Ptr(r, bv64(0))))
    return outs


class ExcObj(Obj):
    pass


def throw(eng, st, tname, site):
    o = Obj("exc." + tname, z3.BitVec("&exc", 64), bv64(128), "cells", heap=False)
    o.tname = tname
    st.mem[o] = {}
    return [("unw", st, [Ptr(o, bv64(0)), z3.BitVecVal(0, 32)])]


def m_new(eng, st, a, site, name):
    used(eng, "operator new: throws bad_alloc, or a fresh object")
    n = asbv(a[0])
    outs = []
    if eng.malloc_may_fail:
        outs += throw(eng, st.copy(), "_ZTISt9bad_alloc", site)
    st.assume(z3.ULT(n, bv64(1 << 46)))
    c = num(n)
    if c is not None and c <= 256:
        o = eng.new_cells(st, eng.freshname(st, "new." + site), c, heap=True)
        st.ghost["allocs"] = st.ghost.get("allocs", ()) + (o,)
    else:
        o = alloc(eng, st, site, n)
    outs.append(("ret", st, Ptr(o, bv64(0))))
    return outs


def m_delete(eng, st, a, site, name):
    do_free(eng, st, eng.toptr(a[0]), "operator delete")
    return None


def cstr(eng, p):
    try:
        d = p.obj.init
        s = b""
        i = num(p.off)
        while True:
            c = num(d[(i, 1)])
            if c == 0:
                break
            s += bytes([c])
            i += 1
        return s.decode("latin1")
    except Exception:
        return "?"


def m_assert_fail(eng, st, a, site, name):
    eng.oblige(st, FALSE, "assertion: " + cstr(eng, a[0])[:150], kind="assert")
    raise Dead()


def m_terminate(eng, st, a, site, name):
    eng.oblige(st, FALSE, "std::terminate reached (exception leaves a noexcept function)", kind="terminate")
    raise Dead()


def m_abort(eng, st, a, site, name):
    eng.oblige(st, FALSE, "abort reached", kind="terminate")
    raise Dead()


def m_cxa_alloc(eng, st, a, site, name):
    o = eng.new_cells(st, eng.freshname(st, "excobj"), 128, heap=False)
    return Ptr(o, bv64(0))


def m_cxa_throw(eng, st, a, site, name):
    return throw(eng, st, a[1].obj.name.lstrip("@"), site)


def m_begin_catch(eng, st, a, site, name):
    return a[0]


def m_nop(eng, st, a, site, name):
    return None


def m_ret0(eng, st, a, site, name):
    return a[0]


THROWERS = {
    "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error",
    "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
    "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range",
    "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
    "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
    "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt9bad_alloc",
    "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast",
}


def m_thrower(eng, st, a, site, name):
    return throw(eng, st, THROWERS[name], site)


def byte_at(eng, st, p, off):
    return asbv(eng.read(st, p.obj, p.idx, simpo(p.off + off), 1))


def cases(eng, st, fn, depth=0):
    """fn(state) as one expression: case distinctions it asks for become if-then-else terms"""
    try:
        return fn(st.copy())
    except Fork as fk:
        if depth > 12:
            raise Unsupported("too many cases in a quantified read")
        c = simp(fk.cond)
        r = []
        for g in (c, simp(z3.Not(c))):
            s2 = st.copy()
            if not eng.feasible(s2, g):
                r.append(None)
                continue
            s2.assume(g)
            r.append(cases(eng, s2, fn, depth + 1))
        if r[0] is None or r[1] is None:
            return r[0] if r[1] is None else r[1]
        return simp(z3.If(c, r[0], r[1]))


def compare_memory(eng, st, p, q, n, site):
    """(r, d): r as memcmp returns it, d the offset of the first difference (in units of the common granularity)"""
    g = 1
    if p.obj.kind == "chain" and q.obj.kind == "chain" and p.obj.gran == q.obj.gran and p.obj.gran in (2, 4, 8):
        g = p.obj.gran
        for x in (p.off, q.off, n):
            if eng.decide(st, x & (g - 1) == 0) is not True:
                g = 1
    d = eng.fresh(st, "memcmp.d." + site)
    r = eng.fresh(st, "memcmp.r." + site, z3.BitVecSort(32))
    j = z3.BitVec("j@" + str(d.decl().name()), 64)
    sh = g.bit_length() - 1
    m = n if g == 1 else simpo(z3.LShR(n, sh))
    up = (lambda x: x) if g == 1 else (lambda x: simpo(x << sh))
    st.assume(z3.ULE(d, m), z3.ULT(d, bv64(1 << 60)))

    def rd(x, ptr):
        return lambda s: asbv(eng.read(s, ptr.obj, ptr.idx, simpo(ptr.off + up(x)), g))

    def be(x):
        return x if g == 1 else z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(g)])
    s1 = st.copy()
    s1.assume(z3.ULT(d, m))
    if eng.feasible(s1, TRUE):
        xa, xb = cases(eng, s1, rd(d, p)), cases(eng, s1, rd(d, q))
        st.assume(z3.Implies(z3.ULT(d, m), z3.And(xa != xb, z3.If(z3.ULT(be(xa), be(xb)), r < 0, r > 0))))
    st.assume(z3.Implies(d == m, r == 0))
    s1 = st.copy()
    s1.assume(z3.ULT(j, d))
    if eng.feasible(s1, TRUE):
        ya, yb = cases(eng, s1, rd(j, p)), cases(eng, s1, rd(j, q))
        st.qf.append(QFact(j, z3.Implies(z3.ULT(j, d), ya == yb), "memcmp"))
    return r, d


def m_memcmp(eng, st, a, site, name):
    used(eng, "memcmp/memchr/strlen: the C standard's definition")
    p, q, n = eng.toptr(a[0]), eng.toptr(a[1]), asbv(a[2])
    d0 = eng.decide(st, n == 0)
    if d0 is True:
        return z3.BitVecVal(0, 32)
    if d0 is None:
        raise Fork(simp(n == 0))
    eng.ensure_global(st, p)
    eng.ensure_global(st, q)
    eng.check_access(st, p, n, "memcmp")
    eng.check_access(st, q, n, "memcmp")
    return compare_memory(eng, st, p, q, n, site)[0]


def m_memchr(eng, st, a, site, name):
    used(eng, "memcmp/memchr/strlen: the C standard's definition")
    p, c, n = eng.toptr(a[0]), asbv(a[1]), asbv(a[2])
    d0 = eng.decide(st, n == 0)
    if d0 is True:
        return NULL
    if d0 is None:
        raise Fork(simp(n == 0))
    eng.ensure_global(st, p)
    eng.check_access(st, p, n, "memchr")
    ch = simp(z3.Extract(7, 0, c))
    d = eng.fresh(st, "memchr.d." + site)
    j = z3.BitVec("j@" + str(d.decl().name()), 64)
    tmp = st.copy()
    tmp.assume(z3.ULT(j, n))
    yj = cases(eng, tmp, lambda s: byte_at(eng, s, p, j))
    s1, s2 = st.copy(), st
    # found at d
    s1.assume(z3.ULT(d, n))
    s1.assume(cases(eng, s1, lambda s: byte_at(eng, s, p, d)) == ch)
    s1.qf.append(QFact(j, z3.Implies(z3.ULT(j, d), yj != ch), "memchr"))
    s2.qf.append(QFact(j, z3.Implies(z3.ULT(j, n), yj != ch), "memchr"))
    outs = []
    if eng.feasible(s1, TRUE):
        outs.append(("ret", s1, p.add(d)))
    if eng.feasible(s2, TRUE):
        outs.append(("ret", s2, NULL))
    return outs


def m_strlen(eng, st, a, site, name):
    used(eng, "memcmp/memchr/strlen: the C standard's definition")
    p = eng.toptr(a[0])
    eng.ensure_global(st, p)
    if p.obj is not None and isinstance(p.obj, Obj) and p.obj.const and num(p.off) is not None:
        i = num(p.off)
        k = 0
        while num(eng.read_cells(st, p.obj, bv64(i + k), 1)) != 0:
            k += 1
        return bv64(k)
    d = eng.fresh(st, "strlen.d." + site)
    j = z3.BitVec("j@" + str(d.decl().name()), 64)
    # a terminator must exist inside the object: contract-supplied (ghost 'cstr' length of the object)
    cl = st.ghost.get(("cstr", p.obj.id if p.obj is not None else None))
    if cl is None:
        raise Unsupported("strlen of an object without a known terminator")
    eng.oblige(st, z3.ULE(p.off, cl), "strlen: terminator after the pointer")
    st.assume(z3.ULE(d, simpo(cl - p.off)))
    st.assume(cases(eng, st, lambda s: byte_at(eng, s, p, d)) == 0)
    tmp = st.copy()
    tmp.assume(z3.ULT(j, d))
    if eng.feasible(tmp, TRUE):
        st.qf.append(QFact(j, z3.Implies(z3.ULT(j, d), cases(eng, tmp, lambda s: byte_at(eng, s, p, j)) != 0), "strlen"))
    return d


BASE_MODELS = {
    "malloc": m_malloc, "free": m_free, "realloc": m_realloc, "_Znwm": m_new, "_ZdlPv": m_delete, "_ZdlPvm": m_delete,
    "__assert_fail": m_assert_fail, "_ZSt9terminatev": m_terminate, "__clang_call_terminate": m_terminate,
    "abort": m_abort, "__cxa_allocate_exception": m_cxa_alloc, "__cxa_free_exception": m_nop,
    "__cxa_throw": m_cxa_throw, "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": m_nop,
    "memcmp": m_memcmp, "bcmp": m_memcmp, "memchr": m_memchr, "strlen": m_strlen,
}
for _n in THROWERS:
    BASE_MODELS[_n] = m_thrower

BASE_PATS = [
    (re.compile(r"^std::(length_error|out_of_range|logic_error|bad_alloc|invalid_argument|exception|runtime_error|overflow_error)::(~)?\w+\("), m_nop),
]


def install(eng):
    eng.models.update(BASE_MODELS)
    eng.model_pats = list(BASE_PATS)
    eng.contract_pats = []
    eng.heap_gran = 1
    eng.heap_base = None
    eng.malloc_may_fail = True
    eng.on_free = None
    eng.on_realloc = None
