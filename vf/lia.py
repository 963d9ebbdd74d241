"""Exact translation of bit-vector queries to linear integer arithmetic with uninterpreted functions.

Every 64-bit sum is represented by the integer sum, minus k * 2^64 with a fresh integer k where it can leave
the range; shifts, masks and divisions by constants by quotient and remainder.  What has no linear counterpart
becomes an unconstrained value of its width.  The translation only over-approximates, so `unsat` carries over."""
import z3

K = {n: getattr(z3, n) for n in dir(z3) if n.startswith("Z3_OP_")}
OPS = {v: k[6:] for k, v in K.items()}


def _mask(c, w):
    """(lo, hi) if c is one run of ones"""
    if c == 0:
        return None
    lo = (c & -c).bit_length() - 1
    r = c >> lo
    if r & (r + 1):
        return None
    return lo, lo + r.bit_length() - 1


class Lia:
    def __init__(self):
        self.raws, self.norms, self.bools, self.keep = {}, {}, {}, []
        self.side = {}           # term id -> constraints that define its integer variables
        self.resets = 0
        self.ctr = 0
        self.funs = {}
        self.bounds = {}

    def fresh(self, cons, lo, hi, why="q"):
        self.ctr += 1
        v = z3.Int(f"{why}!{self.ctr}")
        cons.append(v >= lo)
        cons.append(v <= hi)
        return v

    # per query: constraints of all terms used
    def query(self, exprs, ms):
        # one-variable bounds first (they tighten the intervals); caches depend on them
        b = {}
        for e in exprs:
            self.bound(e, b)
        stale = any(i not in b for i in self.bounds)
        for i, v in b.items():
            if self.bounds.get(i) != v[1:]:
                if i in self.bounds or i in self.raws:
                    stale = True
                else:
                    self.bounds[i] = v[1:]
                    self.keep.append(v[0])
        self.resets += stale
        if stale:
            # keep caches if the new bounds are the same as or extend the old ones on unseen terms
            self.raws, self.norms, self.bools, self.keep = {}, {}, {}, list(exprs)
            self.bounds = {i: v[1:] for i, v in b.items()}
            self.keep += [v[0] for v in b.values()]
        s = z3.SolverFor("QF_UFLIA")
        s.set("timeout", ms)
        used = []
        seen = set()
        for e in exprs:
            f, cs = self.boolean(e)
            s.add(f)
            for c in cs:
                if id(c) not in seen:
                    seen.add(id(c))
                    used.append(c)
        for c in used:
            s.add(c)
        return s.check()

    def bound(self, e, b):
        neg = False
        if z3.is_and(e):
            for x in e.children():
                self.bound(x, b)
            return
        if z3.is_not(e):
            e, neg = e.arg(0), True
        if not z3.is_app(e) or e.num_args() != 2:
            return
        k = OPS.get(e.decl().kind())
        x, y = e.arg(0), e.arg(1)
        if not z3.is_bv(x):
            return
        lo = hi = None
        if k in ("ULEQ", "ULT", "UGEQ", "UGT"):
            if k in ("UGEQ", "UGT"):
                x, y = y, x
                k = {"UGEQ": "ULEQ", "UGT": "ULT"}[k]
            # x <= y
            if z3.is_bv_value(y) and not neg:
                hi = y.as_long() - (k == "ULT")
            elif z3.is_bv_value(x) and neg:      # not (c <= y)  ->  y < c
                hi = x.as_long() - (0 if k == "ULT" else 1)
                x = y
            elif z3.is_bv_value(x) and not neg:
                lo, x = x.as_long() + (k == "ULT"), y
            elif z3.is_bv_value(y) and neg:
                lo = y.as_long() + (0 if k == "ULT" else 1)
            else:
                return
        elif k == "EQ" and not neg:
            if z3.is_bv_value(x):
                x, y = y, x
            if not z3.is_bv_value(y):
                return
            if OPS.get(x.decl().kind()) == "EXTRACT" and y.as_long() == 0:
                h, l = x.params()
                if h == x.arg(0).size() - 1:
                    hi, x = (1 << l) - 1, x.arg(0)
            else:
                lo = hi = y.as_long()
        if lo is None and hi is None:
            return
        if not (x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return
        w = x.size()
        _, l0, h0 = b.get(x.get_id(), (x, 0, (1 << w) - 1))
        l1, h1 = max(l0, lo if lo is not None else 0), min(h0, hi if hi is not None else (1 << w) - 1)
        if l1 <= h1:
            b[x.get_id()] = (x, l1, h1)

    def opaque(self, t):
        w = t.size()
        cons = []
        lo, hi = self.bounds.get(t.get_id(), (0, (1 << w) - 1))
        v = self.fresh(cons, lo, hi, "o")
        return v, lo, hi, cons

    def raw(self, t):
        i = t.get_id()
        if i in self.raws:
            return self.raws[i]
        r = self.raw1(t)
        self.raws[i] = r
        self.keep.append(t)
        return r

    def norm(self, t):
        """(int expr equal to the unsigned value, lo, hi, constraints)"""
        i = t.get_id()
        if i in self.norms:
            return self.norms[i]
        e, lo, hi, cs = self.raw(t)
        r = self.reduce(e, lo, hi, cs, t.size(), False)
        self.norms[i] = r
        return r

    def reduce(self, e, lo, hi, cs, w, signed):
        m = 1 << w
        a, b = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        if lo >= a and hi <= b:
            return e, lo, hi, cs
        k0, k1 = (lo - a) // m, (hi - a) // m
        if k0 == k1:
            return e - k0 * m, lo - k0 * m, hi - k0 * m, cs
        cs = list(cs)
        k = self.fresh(cs, k0, k1, "k")
        v = e - k * m
        cs.append(v >= a)
        cs.append(v <= b)
        return v, a, b, cs

    def divmod(self, t, d):
        e, lo, hi, cs = self.norm(t)
        cs = list(cs)
        q = self.fresh(cs, lo // d, hi // d, "q")
        r = self.fresh(cs, 0, d - 1, "r")
        cs.append(e == q * d + r)
        return (q, lo // d, hi // d), (r, 0, min(d - 1, hi)), cs

    def dm(self, t, d):
        key = ("dm", t.get_id(), d)
        if key not in self.norms:
            self.norms[key] = self.divmod(t, d)
            self.keep.append(t)
        return self.norms[key]

    def raw1(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            c = t.as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            return z3.IntVal(c), c, c, []
        k = OPS.get(t.decl().kind(), "?")
        ch = t.children()
        if k == "UNINTERPRETED":
            if not ch:
                lo, hi = self.bounds.get(t.get_id(), (0, (1 << w) - 1))
                cs = []
                v = self.fresh(cs, lo, hi, t.decl().name())
                return v, lo, hi, cs
            args, cs = [], []
            for x in ch:
                if z3.is_bv(x):
                    e, _, _, c = self.norm(x)
                    args.append(e)
                    cs += c
                elif z3.is_bool(x):
                    e, c = self.boolean(x)
                    args.append(z3.If(e, z3.IntVal(1), z3.IntVal(0)))
                    cs += c
                else:
                    return self.opaque(t)
            key = t.decl().get_id()
            if key not in self.funs:
                self.funs[key] = (t.decl(), z3.Function(f"{t.decl().name()}!f{len(self.funs)}", *[z3.IntSort()] * len(ch), z3.IntSort()))
            v = self.funs[key][1](*args)
            lo, hi = self.bounds.get(t.get_id(), (0, (1 << w) - 1))
            cs.append(v >= lo)
            cs.append(v <= hi)
            return v, lo, hi, cs
        if k == "BADD":
            es, lo, hi, cs = [], 0, 0, []
            for x in ch:
                e, l, h, c = self.raw(x)
                es.append(e)
                lo += l
                hi += h
                cs += c
            return z3.Sum(es), lo, hi, cs
        if k == "BSUB":
            e, lo, hi, cs = self.raw(ch[0])
            for x in ch[1:]:
                f, l, h, c = self.raw(x)
                e, lo, hi, cs = e - f, lo - h, hi - l, cs + c
            return e, lo, hi, cs
        if k == "BNEG":
            e, lo, hi, cs = self.raw(ch[0])
            return -e, -hi, -lo, cs
        if k == "BNOT":
            e, lo, hi, cs = self.raw(ch[0])
            return -1 - e, -1 - hi, -1 - lo, cs
        if k == "BMUL" and len(ch) == 2:
            if z3.is_bv_value(ch[1]):
                ch = [ch[1], ch[0]]
            if z3.is_bv_value(ch[0]):
                c = ch[0].as_long()
                if c >= 1 << (w - 1):
                    c -= 1 << w
                e, lo, hi, cs = self.raw(ch[1])
                return (e * c, lo * c, hi * c, cs) if c >= 0 else (e * c, hi * c, lo * c, cs)
            return self.opaque(t)
        if k == "ITE":
            c, cs = self.boolean(ch[0])
            e, lo, hi, c1 = self.raw(ch[1])
            f, l, h, c2 = self.raw(ch[2])
            return z3.If(c, e, f), min(lo, l), max(hi, h), cs + c1 + c2
        if k == "ZERO_EXT":
            return self.norm(ch[0])
        if k == "SIGN_EXT":
            e, lo, hi, cs = self.raw(ch[0])
            return self.reduce(e, lo, hi, cs, ch[0].size(), True)
        if k == "CONCAT":
            e, lo, hi, cs = z3.IntVal(0), 0, 0, []
            sh = w
            for x in ch:
                sh -= x.size()
                f, l, h, c = self.norm(x)
                e, lo, hi, cs = e + f * (1 << sh), lo + (l << sh), hi + (h << sh), cs + c
            return e, lo, hi, cs
        if k == "EXTRACT":
            h, l = t.params()
            if l == 0:
                return self.raw(ch[0])
            q, r, cs = self.dm(ch[0], 1 << l)
            return q[0], q[1], q[2], cs
        if k in ("BLSHR", "BSHL", "BUDIV", "BUDIV_I", "BUREM", "BUREM_I") and z3.is_bv_value(ch[1]):
            c = ch[1].as_long()
            if k in ("BLSHR", "BSHL"):
                if c >= w:
                    return z3.IntVal(0), 0, 0, []
                if k == "BSHL":
                    e, lo, hi, cs = self.raw(ch[0])
                    return e * (1 << c), lo << c, hi << c, cs
                q, r, cs = self.dm(ch[0], 1 << c)
                return q[0], q[1], q[2], cs
            if c == 0:
                return self.opaque(t)
            q, r, cs = self.dm(ch[0], c)
            x = q if "DIV" in k else r
            return x[0], x[1], x[2], cs
        if k == "BAND" and len(ch) == 2:
            if z3.is_bv_value(ch[1]):
                ch = [ch[1], ch[0]]
            if z3.is_bv_value(ch[0]):
                m = _mask(ch[0].as_long(), w)
                if m:
                    lo, hi = m
                    e, l, h, cs = self.norm(ch[1])
                    if hi < w - 1 and h >= 1 << (hi + 1):
                        _, r, cs = self.dm(ch[1], 1 << (hi + 1))
                        e, l, h = r
                        if lo:
                            # r = q*2^lo + r2
                            cs = list(cs)
                            r2 = self.fresh(cs, 0, (1 << lo) - 1, "r")
                            q2 = self.fresh(cs, 0, h >> lo, "q")
                            cs.append(e == q2 * (1 << lo) + r2)
                            e = e - r2
                            l = 0
                        return e, l, h, cs
                    if lo:
                        _, r, cs2 = self.dm(ch[1], 1 << lo)
                        return e - r[0], max(0, l - (1 << lo) + 1), h, cs + cs2
                    return e, l, h, cs
        return self.opaque(t)

    def boolean(self, e):
        i = e.get_id()
        if i in self.bools:
            return self.bools[i]
        r = self.bool1(e)
        self.bools[i] = r
        self.keep.append(e)
        return r

    def bool1(self, e):
        k = OPS.get(e.decl().kind(), "?")
        ch = e.children()
        if k in ("TRUE", "FALSE"):
            return e, []
        if k in ("AND", "OR", "NOT", "IMPLIES", "XOR") or (k in ("EQ", "ITE", "IFF") and z3.is_bool(ch[-1])):
            xs, cs = [], []
            for x in ch:
                f, c = self.boolean(x)
                xs.append(f)
                cs += c
            if k == "AND":
                return z3.And(*xs), cs
            if k == "OR":
                return z3.Or(*xs), cs
            if k == "NOT":
                return z3.Not(xs[0]), cs
            if k == "IMPLIES":
                return z3.Implies(*xs), cs
            if k == "XOR":
                return z3.Xor(*xs), cs
            if k == "ITE":
                return z3.If(*xs), cs
            return xs[0] == xs[1], cs
        if k in ("EQ", "DISTINCT", "ULEQ", "ULT", "UGEQ", "UGT") and z3.is_bv(ch[0]) and len(ch) == 2:
            if k == "EQ" or k == "DISTINCT":
                # difference = multiple of 2^w: avoids two reductions
                a, b = self.norm(ch[0]), self.norm(ch[1])
                f = a[0] == b[0]
                return (f if k == "EQ" else z3.Not(f)), a[3] + b[3]
            a, b = self.norm(ch[0]), self.norm(ch[1])
            f = {"ULEQ": a[0] <= b[0], "ULT": a[0] < b[0], "UGEQ": a[0] >= b[0], "UGT": a[0] > b[0]}[k]
            return f, a[3] + b[3]
        if k in ("SLEQ", "SLT", "SGEQ", "SGT"):
            v = []
            cs = []
            for x in ch:
                r, lo, hi, c = self.raw(x)
                r = self.reduce(r, lo, hi, c, x.size(), True)
                v.append(r[0])
                cs += r[3]
            a, b = v
            return {"SLEQ": a <= b, "SLT": a < b, "SGEQ": a >= b, "SGT": a > b}[k], cs
        if k == "UNINTERPRETED" and not ch:
            return e, []
        self.ctr += 1
        return z3.Bool(f"b!{self.ctr}"), []
