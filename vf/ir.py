"""Parser for the textual LLVM 18 IR produced by clang++-18 from /repo's sources.

Only the subset of the language that clang emits for the code under contract is supported;
anything else raises Unsupported when it is *executed* (not when it is parsed), so that an
unsupported construct in an unrelated function is harmless.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == "i":
            return f"i{self.a}"
        if self.k == "arr":
            return f"[{self.a} x {self.b}]"
        if self.k == "struct":
            return "{" + ", ".join(map(repr, self.a)) + "}"
        if self.k == "named":
            return "%" + self.a
        return self.k


I1, I8, I16, I32, I64 = (Type("i", n) for n in (1, 8, 16, 32, 64))
PTR, VOID = Type("ptr"), Type("void")

TOK = re.compile(
    r'\s+|;[^\n]*|(?P<str>c"(?:[^"\\]|\\..)*")|(?P<loc>%(?:"(?:[^"\\]|\\..)*"|[-\w$.]+))'
    r'|(?P<glob>@(?:"(?:[^"\\]|\\..)*"|[-\w$.]+))|(?P<meta>!(?:"[^"]*"|[-\w.]*))|(?P<attr>#\d+)'
    r'|(?P<q>"(?:[^"\\]|\\..)*")|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w]))|(?P<hex>0x[0-9A-Fa-fKLMHR]+)'
    r'|(?P<word>[A-Za-z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[][{}()<>,=*|:])|(?P<cm>\$[-\w$.]+)')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("token: " + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group()))
    return out


def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


ATTR_WORDS = set(
    """noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext returned
    inreg nofree nest immarg allocptr allocalign noext dead_on_unwind writable swiftself inrange nocallback""".split())
ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "elementtype",
              "preallocated", "nofpclass", "initializes", "captures", "range", "align"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported(f"expected {v} got {x} near {self.t[max(0, self.i - 6):self.i + 6]}")

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                if self.peek()[1] == "addrspace":
                    self.next(); self.expect("("); self.next(); self.expect(")")
                t = PTR
            elif re.fullmatch(r"i\d+", v):
                t = Type("i", int(v[1:]))
            elif v == "void":
                t = VOID
            elif v in ("float", "double", "x86_fp80", "half", "fp128"):
                t = Type("fp", v)
            elif v in ("label", "metadata", "token", "opaque"):
                t = Type(v)
            else:
                raise Unsupported("type " + v)
        elif k == "loc":
            t = Type("named", unq(v))
        elif v == "[":
            n = int(self.next()[1]); self.expect("x")
            e = self.type(); self.expect("]")
            t = Type("arr", n, e)
        elif v == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type()); self.accept(",")
            t = Type("struct", fs, False)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                fs = []
                while not self.accept("}"):
                    fs.append(self.type()); self.accept(",")
                self.expect(">")
                t = Type("struct", fs, True)
            else:
                n = int(self.next()[1]); self.expect("x")
                e = self.type(); self.expect(">")
                t = Type("vec", n, e)
        else:
            raise Unsupported(f"type token {v}")
        while self.peek()[1] == "(" and t.k != "x":  # function type: skip
            if self.is_fnty():
                self.skip_paren()
                t = Type("fn", t)
            else:
                break
        return t

    def is_fnty(self):
        # "(" after a type in a call: either a function type 'ret (args) %f' or never a call arg list
        return True

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTR_WORDS:
                self.next()
            elif k == "word" and v in ATTR_PAREN:
                self.next()
                if self.peek()[1] == "(":
                    self.skip_paren()
                elif v == "align":
                    self.next()
            elif k == "attr" or k == "q":
                self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("loc", unq(v))
        if k == "glob":
            return ("glob", unq(v))
        if k == "num":
            if ty.k == "fp":
                return ("fp", v)
            return ("int", int(v), ty)
        if k == "hex":
            return ("fp", v)
        if k == "str":
            return ("bytes", parse_cstr(v[2:-1]))
        if k == "word":
            if v in ("null", "none"):
                return ("null",)
            if v == "true":
                return ("int", 1, ty)
            if v == "false":
                return ("int", 0, ty)
            if v in ("undef", "poison"):
                return ("undef", ty)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "getelementptr":
                inb = self.accept("inbounds")
                if self.accept("inrange"):
                    self.skip_paren()
                self.expect("(")
                sty = self.type(); self.expect(",")
                ops = []
                while True:
                    self.accept("inrange")
                    t = self.type(); self.skip_attrs()
                    ops.append((t, self.value(t)))
                    if not self.accept(","):
                        break
                self.expect(")")
                return ("cgep", sty, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "addrspacecast"):
                self.expect("(")
                t = self.type(); x = self.value(t)
                self.expect("to"); t2 = self.type(); self.expect(")")
                return ("ccast", v, t, x, t2)
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "icmp", "select"):
                depth = 0
                while self.peek()[1] != "(":
                    self.next()
                self.skip_paren()
                return ("unsup", v)
            if v == "asm":
                while self.peek()[0] in ("word",):
                    self.next()
                self.next(); self.expect(","); self.next()
                return ("asm",)
            if v == "blockaddress" or v == "dso_local_equivalent" or v == "no_cfi":
                return ("unsup", v)
            raise Unsupported("const " + v)
        if v == "{" or v == "[" or v == "<":
            close = {"{": "}", "[": "]", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next(); packed = True; close = "}"
            els = []
            while not self.accept(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.accept(",")
            if packed:
                self.expect(">")
            return ("agg", els)
        if k == "meta":
            # metadata operand: skip to matching end
            if self.peek()[1] == "(":
                self.skip_paren()
            return ("meta",)
        raise Unsupported(f"value {k} {v}")

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def parse_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "text", "uid")

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name, ret, params, decl, vararg=False):
        self.name, self.ret, self.params, self.decl = name, ret, params, decl
        self.lines = []      # raw
        self.blocks = None   # name -> [Instr]
        self.order = None
        self.vararg = vararg
        self.dem = name


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (type, init, isconst) lazily parsed
        self.funcs = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                self.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
                self.globals[unq(m.group(1))] = m.group(2)
            elif ln.startswith("define") or ln.startswith("declare"):
                f = self.fhead(ln)
                if ln.startswith("define"):
                    i += 1
                    while lines[i] != "}":
                        f.lines.append(lines[i])
                        i += 1
                old = self.funcs.get(f.name)
                if old is None or old.decl:
                    self.funcs[f.name] = f
            i += 1

    def fhead(self, ln):
        decl = ln.startswith("declare")
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
        name = unq(m.group(1))
        # return type: tokens right before the name, skipping attributes from the front
        pre = tokenize(ln[:m.start()])[1:]
        p = P(pre, self)
        ret = None
        while p.i < len(pre):
            k, v = p.peek()
            save = p.i
            if k == "word" and v not in ("ptr", "void", "float", "double", "x86_fp80") and not re.fullmatch(r"i\d+", v):
                p.next()
                if p.peek()[1] == "(":
                    p.skip_paren()
                if v == "align":
                    p.next()
                continue
            if k in ("attr", "q"):
                p.next(); continue
            ret = p.type()
            break
        # params
        j = m.end()
        depth, k = 1, j
        while depth:
            c = ln[k]
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
            elif c == '"':
                k = ln.index('"', k + 1)
            k += 1
        toks = tokenize(ln[j:k - 1])
        p = P(toks, self)
        params = []
        vararg = False
        cnt = 0
        while p.i < len(toks):
            if p.accept("..."):
                vararg = True
                break
            t = p.type()
            p.skip_attrs()
            nm = None
            if p.peek()[0] == "loc":
                nm = unq(p.next()[1])
            else:
                nm = str(cnt)
            cnt += 1
            params.append((t, nm))
            p.accept(",")
        f = Func(name, ret, params, decl, vararg)
        return f

    # ---- lazily parsed bodies
    def body(self, f):
        if f.blocks is not None:
            return f
        f.blocks, f.order = {}, []
        cur = None
        lines = f.lines
        # entry label: first block is numbered after params unless labelled
        numbered = [int(nm) for _, nm in f.params if nm.isdigit()]
        entry = str(len(f.params)) if all(nm.isdigit() for _, nm in f.params) else "0"
        i = 0
        started = False
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
            if m and not ln.startswith(" "):
                nm = m.group(1).strip('"')
                cur = []
                f.blocks[nm] = cur
                f.order.append(nm)
                started = True
                continue
            if not started:
                cur = []
                f.blocks[entry] = cur
                f.order.append(entry)
                started = True
            # multi-line instrs: switch, landingpad, invoke
            if s.startswith("switch") or " = switch" in s:
                while not lines[i - 1].strip().endswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
            while i < len(lines) and re.match(r"^\s+(to label|catch |cleanup|filter )", lines[i]):
                s += " " + lines[i].strip()
                i += 1
            ins = self.instr(s)
            if ins is not None:
                ins.uid = f"{f.name}:{f.order[-1]}:{len(cur)}"
                cur.append(ins)
        return f

    def instr(self, s):
        s = re.sub(r", !(\w|\.)+ !.*$", "", s)
        s = re.sub(r"(, )?!(srcloc|dbg|tbaa|noalias|alias\.scope|llvm\.loop|prof|nosanitize|range|noundef) !\d+", "", s)
        ins = Instr()
        ins.text = s
        ins.res = None
        ins.ty = None
        try:
            p = P(tokenize(s), self)
            if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
                ins.res = unq(p.next()[1])
                p.next()
            op = p.next()[1]
            ins.op = op
            self.pi(ins, op, p)
        except Unsupported as e:
            ins.op = "unsupported"
            ins.a = str(e)
        return ins

    def pi(self, ins, op, p):
        BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
        if op in BIN:
            flags = set()
            while p.peek()[1] in ("nuw", "nsw", "exact", "disjoint"):
                flags.add(p.next()[1])
            t = p.type()
            x = p.value(t); p.expect(","); y = p.value(t)
            ins.ty = t
            ins.a = (x, y, flags)
        elif op == "icmp":
            pred = p.next()[1]
            t = p.type(); x = p.value(t); p.expect(","); y = p.value(t)
            ins.ty = I1
            ins.a = (pred, t, x, y)
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "uitofp", "sitofp", "fptoui",
                    "fptosi", "fpext", "fptrunc"):
            while p.peek()[1] in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type(); x = p.value(t)
            if op == "freeze":
                ins.ty = t
            else:
                p.expect("to")
                ins.ty = p.type()
            ins.a = (t, x)
        elif op == "alloca":
            p.accept("inalloca")
            t = p.type()
            cnt = None
            while p.accept(","):
                if p.peek()[1] == "align":
                    p.next(); p.next()
                else:
                    cnt = p.tv()
            ins.ty = PTR
            ins.a = (t, cnt)
        elif op == "load":
            at = p.accept("atomic")
            p.accept("volatile")
            t = p.type(); p.expect(",")
            pt, x = p.tv()
            ins.ty = t
            ins.a = (x, at)
        elif op == "store":
            at = p.accept("atomic")
            p.accept("volatile")
            t, v = p.tv(); p.expect(",")
            pt, x = p.tv()
            ins.a = (t, v, x, at)
        elif op == "getelementptr":
            while p.peek()[1] in ("inbounds", "nuw", "nusw"):
                p.next()
            sty = p.type(); p.expect(",")
            ops = [p.tv()]
            while p.accept(","):
                ops.append(p.tv())
            ins.ty = PTR
            ins.a = (sty, ops)
        elif op == "br":
            if p.peek()[1] == "label":
                p.next()
                ins.a = (None, unq(p.next()[1]))
            else:
                t = p.type(); c = p.value(t)
                p.expect(","); p.expect("label"); a = unq(p.next()[1])
                p.expect(","); p.expect("label"); b = unq(p.next()[1])
                ins.a = (c, a, b)
        elif op == "switch":
            t = p.type(); v = p.value(t)
            p.expect(","); p.expect("label"); d = unq(p.next()[1])
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct)
                p.expect(","); p.expect("label")
                cases.append((cv[1], unq(p.next()[1])))
            ins.a = (t, v, d, cases)
        elif op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t); p.expect(",")
                inc.append((v, unq(p.next()[1]))); p.expect("]")
                if not p.accept(","):
                    break
            ins.ty = t
            ins.a = inc
        elif op == "ret":
            t = p.type()
            if t.k == "void":
                ins.a = None
            else:
                ins.a = p.value(t)
                ins.ty = t
        elif op in ("tail", "musttail", "notail", "call", "invoke"):
            inv = op == "invoke"
            if op in ("tail", "musttail", "notail"):
                p.next()
            ins.op = "invoke" if inv else "call"
            # cc / attrs
            while True:
                k, v = p.peek()
                if k == "word" and (v in ATTR_WORDS or v in ("fastcc", "ccc", "coldcc", "nnan", "ninf", "nsz", "arcp",
                                                            "contract", "afn", "reassoc", "fast")):
                    p.next()
                elif k == "word" and v in ATTR_PAREN:
                    p.next()
                    if p.peek()[1] == "(":
                        p.skip_paren()
                    elif v == "align":
                        p.next()
                else:
                    break
            t = p.type()
            if t.k == "fn":
                t = t.a
            callee = p.value(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                at = p.type()
                byval = None
                # attrs
                while True:
                    k, v = p.peek()
                    if k == "word" and v in ATTR_WORDS:
                        p.next()
                    elif k == "word" and v in ATTR_PAREN:
                        p.next()
                        if v == "byval":
                            p.expect("("); byval = p.type(); p.expect(")")
                        elif p.peek()[1] == "(":
                            p.skip_paren()
                        elif v == "align":
                            p.next()
                    else:
                        break
                if at.k == "metadata":
                    # swallow
                    while p.peek()[1] not in (",", ")"):
                        if p.peek()[1] == "(":
                            p.skip_paren()
                        else:
                            p.next()
                    args.append((at, ("meta",), None))
                else:
                    args.append((at, p.value(at), byval))
                p.accept(",")
            ins.ty = t
            norm = unw = None
            if inv:
                while p.peek()[1] not in ("to", None):
                    if p.peek()[1] == "[":
                        while p.next()[1] != "]":
                            pass
                    else:
                        p.next()
                p.expect("to"); p.expect("label"); norm = unq(p.next()[1])
                p.expect("unwind"); p.expect("label"); unw = unq(p.next()[1])
            ins.a = (callee, args, norm, unw)
        elif op == "landingpad":
            ins.ty = p.type()
            cleanup = False
            cl = []
            while p.peek()[0]:
                v = p.next()[1]
                if v == "cleanup":
                    cleanup = True
                elif v == "catch":
                    t = p.type()
                    cl.append(("catch", p.value(t)))
                elif v == "filter":
                    t = p.type()
                    cl.append(("filter", p.value(t)))
            ins.a = (cleanup, cl)
        elif op == "resume":
            t = p.type()
            ins.a = p.value(t)
        elif op == "unreachable":
            ins.a = None
        elif op == "extractvalue":
            t, v = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            ins.a = (t, v, idx)
            for j in idx:
                t = self.res(t)
                t = t.a[j] if t.k == "struct" else t.b
            ins.ty = t
        elif op == "insertvalue":
            t, v = p.tv(); p.expect(",")
            et, ev = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            ins.ty = t
            ins.a = (t, v, ev, idx)
        elif op == "select":
            ct = p.type(); c = p.value(ct); p.expect(",")
            t, x = p.tv(); p.expect(","); t2, y = p.tv()
            ins.ty = t
            ins.a = (c, x, y)
        elif op == "atomicrmw":
            p.accept("volatile")
            sub = p.next()[1]
            pt, x = p.tv(); p.expect(",")
            t, v = p.tv()
            ins.ty = t
            ins.a = (sub, x, t, v)
        elif op == "cmpxchg":
            p.accept("weak"); p.accept("volatile")
            pt, x = p.tv(); p.expect(",")
            t, c = p.tv(); p.expect(",")
            t2, nv = p.tv()
            ins.ty = Type("struct", [t, I1], False)
            ins.a = (x, t, c, nv)
        elif op == "fence":
            ins.a = None
        else:
            raise Unsupported("instr " + op)

    # ---- layout
    def res(self, t):
        while t.k == "named":
            d = self.types[t.a]
            if isinstance(d, str):
                if d == "opaque":
                    raise Unsupported("opaque type " + t.a)
                d = P(tokenize(d), self).type()
                self.types[t.a] = d
            t = d
        return t

    def align(self, t):
        t = self.res(t)
        if t.k == "i":
            b = (t.a + 7) // 8
            r = 1
            while r < b:
                r *= 2
            return min(r, 16)
        if t.k == "ptr":
            return 8
        if t.k == "fp":
            return {"float": 4, "double": 8, "half": 2}.get(t.a, 16)
        if t.k == "arr":
            return self.align(t.b)
        if t.k == "struct":
            if t.b:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        if t.k == "vec":
            return self.size(t)
        raise Unsupported("align " + repr(t))

    def size(self, t):
        t = self.res(t)
        if t.k == "i":
            b = (t.a + 7) // 8
            al = self.align(t)
            return (b + al - 1) // al * al
        if t.k == "ptr":
            return 8
        if t.k == "fp":
            return {"float": 4, "double": 8, "half": 2}.get(t.a, 16)
        if t.k == "arr":
            return t.a * self.size(t.b)
        if t.k == "struct":
            return self.fields(t)[1]
        if t.k == "vec":
            return t.a * self.size(t.b)
        raise Unsupported("size " + repr(t))

    def fields(self, t):
        off, offs, al = 0, [], 1
        for x in t.a:
            a = 1 if t.b else self.align(x)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        off = (off + al - 1) // al * al
        return offs, off

    # ---- loops
    def live_blocks(self, f):
        """blocks from which the function can still return or unwind"""
        if hasattr(f, "_live"):
            return f._live
        self.body(f)
        pred = {}
        work = []
        for b in f.order:
            last = f.blocks[b][-1]
            for t in self.succ(last):
                pred.setdefault(t, []).append(b)
            if last.op in ("ret", "resume"):
                work.append(b)
        live = set(work)
        while work:
            for p in pred.get(work.pop(), ()):
                if p not in live:
                    live.add(p)
                    work.append(p)
        f._live = live
        return live

    def loops(self, f):
        """natural loops: header -> set of blocks"""
        if hasattr(f, "_loops"):
            return f._loops
        self.body(f)
        succ = {b: self.succ(f.blocks[b][-1]) for b in f.order}
        entry = f.order[0]
        # reachable
        seen, st = set(), [entry]
        rpo = []

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    rpo.append(x)
                    stack.pop()
        dfs(entry)
        rpo.reverse()
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry:
                    continue
                nd = set.intersection(*[dom[p_] for p_ in pred[b]]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        f._loops = loops
        return loops

    @staticmethod
    def succ(ins):
        if ins.op == "br":
            return list(ins.a[1:]) if ins.a[0] is not None else [ins.a[1]]
        if ins.op == "switch":
            return [ins.a[2]] + [c[1] for c in ins.a[3]]
        if ins.op == "invoke":
            return [ins.a[2], ins.a[3]]
        return []

    def glob(self, name):
        g = self.globals[name]
        if isinstance(g, str):
            toks = tokenize(re.sub(r", (comdat|align|section|!).*$", "", g) if False else g)
            p = P(toks, self)
            ext = False
            const = False
            while True:
                k, v = p.peek()
                if k == "word" and v in ("external", "extern_weak"):
                    ext = True
                if k == "word" and v in ("constant", "global"):
                    const = v == "constant"
                    p.next()
                    break
                if k is None:
                    self.globals[name] = (None, None, False)
                    return self.globals[name]
                p.next()
                if p.peek()[1] == "(":
                    p.skip_paren()
            t = p.type()
            init = None
            if not ext:
                try:
                    init = p.value(t)
                except Unsupported:
                    init = ("unsup", "init")
            g = (t, init, const)
            self.globals[name] = g
        return g
