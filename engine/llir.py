"""Lazy parser for the textual LLVM IR that rustc emits."""
import re

RE_DEFINE = re.compile(r'^define .*? @("[^"]+"|[\w.$]+)\((.*)$')
RE_GLOBAL = re.compile(r'^@("[^"]+"|[\w.$]+) = (.*)$')


class Ty:
    __slots__ = ("k", "w", "el", "n", "size", "align", "offs", "s")

    def __repr__(self):
        return self.s


def _mk(k, s, size, align, w=0, el=None, n=0, offs=None):
    t = Ty()
    t.k, t.s, t.size, t.align, t.w, t.el, t.n, t.offs = k, s, size, align, w, el, n, offs
    return t


VOID = _mk("void", "void", 0, 1)
PTR = _mk("ptr", "ptr", 8, 8, 64)
_ints = {}


def IntTy(w):
    t = _ints.get(w)
    if t is None:
        sz = 1
        while sz * 8 < w:
            sz *= 2
        t = _mk("int", "i%d" % w, sz, min(sz, 16), w)
        _ints[w] = t
    return t


class Lexer:
    """Cursor over a piece of text."""

    def __init__(self, s, mod):
        self.s = s
        self.i = 0
        self.mod = mod

    def ws(self):
        s, i = self.s, self.i
        n = len(s)
        while i < n and s[i] in " \t\n":
            i += 1
        self.i = i

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def eat(self, lit):
        self.ws()
        if self.s.startswith(lit, self.i):
            self.i += len(lit)
            return True
        return False

    def expect(self, lit):
        if not self.eat(lit):
            raise SyntaxError("expected %r at %r" % (lit, self.s[self.i:self.i + 60]))

    RE_WORD = re.compile(r'[\w.$\-]+')
    RE_NAME = re.compile(r'"[^"]*"|[\w.$\-]+')

    def word(self):
        self.ws()
        m = self.RE_WORD.match(self.s, self.i)
        if not m:
            raise SyntaxError("word at %r" % self.s[self.i:self.i + 60])
        self.i = m.end()
        return m.group()

    def name(self):
        m = self.RE_NAME.match(self.s, self.i)
        self.i = m.end()
        g = m.group()
        if g[0] == '"':
            g = g[1:-1]
        return g

    def type(self):
        self.ws()
        s = self.s
        c = s[self.i]
        if c == "i":
            m = re.compile(r'i(\d+)').match(s, self.i)
            if m:
                self.i = m.end()
                t = IntTy(int(m.group(1)))
                return t
        if c == "p" and s.startswith("ptr", self.i):
            self.i += 3
            return PTR
        if c == "v" and s.startswith("void", self.i):
            self.i += 4
            return VOID
        if c == "%":
            self.i += 1
            return self.mod.named(self.name())
        if c == "[":
            self.i += 1
            n = int(self.word())
            self.expect("x")
            el = self.type()
            self.expect("]")
            return _mk("arr", "[%d x %s]" % (n, el.s), n * el.size, el.align, el=el, n=n)
        if c == "{" or s.startswith("<{", self.i):
            packed = c == "<"
            self.i += 2 if packed else 1
            els = []
            if not self.peek("}"):
                while True:
                    els.append(self.type())
                    if not self.eat(","):
                        break
            self.expect("}>" if packed else "}")
            return struct(els, packed)
        if c == "<":
            self.i += 1
            n = int(self.word())
            self.expect("x")
            el = self.type()
            self.expect(">")
            return _mk("vec", "<%d x %s>" % (n, el.s), n * el.size, n * el.size, el=el, n=n)
        if s.startswith("metadata", self.i):
            self.i += 8
            return VOID
        raise SyntaxError("type at %r" % s[self.i:self.i + 80])


def struct(els, packed):
    off = 0
    offs = []
    al = 1
    for t in els:
        a = 1 if packed else t.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += t.size
        al = max(al, a)
    size = (off + al - 1) // al * al
    return _mk("struct", "{%s}" % ",".join(t.s for t in els), size, al, el=els, n=len(els), offs=offs)


class Func:
    __slots__ = ("name", "pretty", "mod", "text", "params", "ret", "blocks", "nreg", "attrs", "internal", "header", "entry", "steps")


class Module:
    def __init__(self, path, only=None):
        self.path = path
        self.types = {}
        self.typetext = {}
        self.globals = {}
        self.funcs = {}
        self.pretty = {}
        self.meta = {}
        data = open(path).read()
        self.data = data
        self.index(data, only)

    def index(self, data, only):
        for m in re.finditer(r'^%("[^"]+"|[\w.$]+) = type (.*)$', data, re.M):
            n = m.group(1).strip('"')
            self.typetext[n] = m.group(2)
        for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = ([^\n]*)$', data, re.M):
            self.globals[m.group(1).strip('"')] = m.group(2)
        pos = 0
        while True:
            j = data.find("\ndefine ", pos)
            if j < 0:
                break
            eol = data.find("\n", j + 1)
            head = data[j + 1:eol]
            end = data.find("\n}", eol)
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
            name = m.group(1).strip('"')
            f = Func()
            f.name = name
            f.mod = self
            f.header = head
            f.text = (eol + 1, end)
            f.blocks = None
            f.internal = " internal " in head
            # pretty comment is on the line(s) before
            k = data.rfind("\n", 0, j)
            prev = data[k + 1:j]
            if prev.startswith("; Function Attrs"):
                k2 = data.rfind("\n", 0, k)
                prev = data[k2 + 1:k]
            f.pretty = prev[2:].strip() if prev.startswith("; ") else name
            self.funcs[name] = f
            self.pretty.setdefault(f.pretty, []).append(f)
            pos = end

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            txt = self.typetext[n]
            t = Lexer(txt, self).type()
            self.types[n] = t
        return t

    # ---- debug info: struct layouts --------------------------------------
    def layout(self, path):
        """Field offsets {name: (offset, size)} and size in bytes of a struct such as
        'curve::edwards::extended::ExtendedPoint' (crate-relative path)."""
        parts = path.split("::")
        name = parts[-1]
        if not self.meta:
            for m in re.finditer(r'^!(\d+) = (?:distinct )?(!DI(?:CompositeType|DerivedType|Namespace|BasicType)\(.*|!\{.*)$', self.data, re.M):
                self.meta[int(m.group(1))] = m.group(2)
        for k, v in self.meta.items():
            if v.startswith("!DICompositeType(tag: DW_TAG_structure_type") and ', name: "%s"' % name in v:
                sc = re.search(r'scope: !(\d+)', v)
                chain = []
                s = int(sc.group(1)) if sc else None
                while s is not None and s in self.meta:
                    d = self.meta[s]
                    n = re.search(r'name: "([^"]+)"', d)
                    if n:
                        chain.append(n.group(1))
                    sc = re.search(r'scope: !(\d+)', d)
                    s = int(sc.group(1)) if sc else None
                chain.reverse()
                if chain[-len(parts) + 1:] != parts[:-1]:
                    continue
                size = int(re.search(r'size: (\d+)', v).group(1)) // 8
                els = re.search(r'elements: !(\d+)', v)
                out = {}
                if els:
                    for e in re.findall(r'!(\d+)', self.meta[int(els.group(1))]):
                        d = self.meta[int(e)]
                        if "DW_TAG_member" not in d:
                            continue
                        nm = re.search(r'name: "([^"]+)"', d).group(1)
                        off = re.search(r'offset: (\d+)', d)
                        sz = re.search(r'size: (\d+)', d)
                        out[nm] = ((int(off.group(1)) if off else 0) // 8, int(sz.group(1)) // 8 if sz else 0)
                return out, size
        raise KeyError("no debug layout for " + path)

    # ---- function bodies ---------------------------------------------------
    def parse(self, f):
        if f.blocks is not None:
            return f
        regs = {}

        def reg(n):
            i = regs.get(n)
            if i is None:
                i = len(regs)
                regs[n] = i
            return i
        L = Lexer(f.header, self)
        i = f.header.index("@")
        # return type: text before @name
        pre = f.header[len("define"):i]
        L.i = len("define")
        while True:
            L.ws()
            save = L.i
            try:
                f.ret = L.type()
                L.ws()
                if L.i <= i:
                    break
            except (SyntaxError, KeyError, ValueError):
                pass
            L.i = save
            L.ws()
            # skip attribute word with optional parens
            m = re.compile(r'[\w.\-]+').match(f.header, L.i)
            if not m:
                L.i += 1
                continue
            L.i = m.end()
            if L.i < len(f.header) and f.header[L.i] == "(":
                L.i = _match(f.header, L.i) + 1
        L.i = i + 1
        L.name()
        L.expect("(")
        f.params = []
        if not L.peek(")"):
            while True:
                t = L.type()
                self._attrs(L)
                L.ws()
                if f.header[L.i] == "%":
                    L.i += 1
                    n = L.name()
                else:
                    n = str(len(f.params))
                f.params.append((reg(n), t))
                if not L.eat(","):
                    break
        body = self.data[f.text[0]:f.text[1]]
        lines = []
        for ln in body.split("\n"):
            s = ln.strip()
            if not s or s.startswith(";") or s.startswith("#dbg"):
                continue
            lines.append(s)
        # join continuations (invoke "to label", switch tables, landingpad clauses)
        joined = []
        for s in lines:
            if joined and (s.startswith("to label") or s.startswith("filter ") or s.startswith("cleanup") or s.startswith("catch ")
                           or joined[-1].startswith("switch") and not joined[-1].rstrip().endswith("]") and "]" not in joined[-1].split("[", 1)[-1]):
                joined[-1] += " " + s
            else:
                joined.append(s)
        blocks = {}
        cur = None
        first = None
        for s in joined:
            m = re.match(r'^("[^"]+"|[\w.$\-]+):', s)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                if first is None:
                    first = cur
                continue
            if cur is None:
                cur = first = "entry$"
                blocks[cur] = []
            blocks[cur].append(self._inst(s, reg))
        f.blocks = blocks
        f.entry = first
        f.nreg = len(regs)
        return f

    ATTR = re.compile(r'(?:align \d+|sret\(|byval\(|dereferenceable(?:_or_null)?\(|range\(|captures\(|noundef|zeroext|signext|noalias|readonly|readnone|writeonly|nonnull|inreg|immarg|returned|nocapture|allocalign|allocptr|allocsize|initializes\(|dead_on_unwind|writable|dead_on_return|nofree|swiftself|inalloca\(|nofpclass\()')

    def _attrs(self, L):
        while True:
            L.ws()
            m = self.ATTR.match(L.s, L.i)
            if not m:
                return
            L.i = m.end()
            if m.group().endswith("("):
                L.i = _match(L.s, L.i - 1) + 1

    # operand encodings: ("r", idx) / ("c", value)
    def _val(self, L, ty, reg):
        L.ws()
        s = L.s
        c = s[L.i]
        if c == "%":
            L.i += 1
            return ("r", reg(L.name()))
        if c == "@":
            L.i += 1
            return ("g", L.name())
        if c == "{" or c == "[" or s.startswith("<{", L.i) or c == "c" and s[L.i + 1] == '"':
            return ("k", self._const(L, ty))
        m = re.compile(r'-?\d+').match(s, L.i)
        if m:
            L.i = m.end()
            v = int(m.group())
            return ("c", v & ((1 << ty.w) - 1))
        w = L.word()
        if w == "true":
            return ("c", 1)
        if w == "false":
            return ("c", 0)
        if w == "null":
            return ("c", 0)
        if w in ("undef", "poison"):
            return ("u", ty)
        if w == "zeroinitializer":
            return ("z", ty)
        if w == "getelementptr" or w in ("inttoptr", "ptrtoint"):
            return ("x", self._constexpr(L, w, ty, reg))
        raise SyntaxError("value at %r" % s[L.i - 20:L.i + 60])

    def _constexpr(self, L, w, ty, reg):
        if w == "getelementptr":
            for a in ("inbounds", "nuw", "nusw"):
                L.eat(a)
            L.expect("(")
            bt = L.type()
            L.expect(",")
            t = L.type()
            b = self._val(L, t, reg)
            idx = []
            while L.eat(","):
                it = L.type()
                idx.append(self._val(L, it, reg))
            L.expect(")")
            return ("gep", bt, b, idx)
        L.expect("(")
        t = L.type()
        v = self._val(L, t, reg)
        L.expect("to")
        t2 = L.type()
        L.expect(")")
        return (w, t, v, t2)

    def _const(self, L, ty):
        """Nested constant -> python structure of (ty, value) leaves."""
        L.ws()
        s = L.s
        if s[L.i] == "c" and s[L.i + 1] == '"':
            j = L.i + 2
            out = bytearray()
            while s[j] != '"':
                if s[j] == "\\" and s[j + 1] == "\\":
                    out.append(0x5c)
                    j += 2
                elif s[j] == "\\":
                    out.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    out.append(ord(s[j]))
                    j += 1
            L.i = j + 1
            return ("bytes", bytes(out))
        close = None
        if s.startswith("<{", L.i):
            L.i += 2
            close = "}>"
        elif s[L.i] == "{":
            L.i += 1
            close = "}"
        elif s[L.i] == "[":
            L.i += 1
            close = "]"
        if close:
            els = []
            if not L.peek(close):
                while True:
                    t = L.type()
                    els.append((t, self._const(L, t)))
                    if not L.eat(","):
                        break
            L.expect(close)
            return ("agg", els)
        return self._val(L, ty, lambda n: None)

    def _inst(self, s, reg):
        L = Lexer(s, self)
        dst = None
        if s[0] == "%":
            L.i = 1
            dst = reg(L.name())
            L.expect("=")
        op = L.word()
        V = self._val
        if op in ("tail", "musttail", "notail"):
            op = L.word()
        if op == "load":
            L.eat("volatile")
            t = L.type()
            L.expect(",")
            L.type()
            return ("load", dst, t, V(L, PTR, reg))
        if op == "store":
            L.eat("volatile")
            t = L.type()
            v = V(L, t, reg)
            L.expect(",")
            L.type()
            return ("store", t, v, V(L, PTR, reg))
        if op == "alloca":
            t = L.type()
            return ("alloca", dst, t.size)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            while True:
                if not (L.eat("nuw") or L.eat("nsw") or L.eat("exact") or L.eat("disjoint")):
                    break
            t = L.type()
            a = V(L, t, reg)
            L.expect(",")
            b = V(L, t, reg)
            return ("bin", dst, op, t, a, b)
        if op == "icmp":
            L.eat("samesign")
            c = L.word()
            t = L.type()
            a = V(L, t, reg)
            L.expect(",")
            b = V(L, t, reg)
            return ("icmp", dst, c, t, a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            while L.eat("nneg") or L.eat("nuw") or L.eat("nsw"):
                pass
            t = L.type()
            a = V(L, t, reg)
            L.expect("to")
            t2 = L.type()
            return (op, dst, t, a, t2)
        if op == "getelementptr":
            while L.eat("inbounds") or L.eat("nuw") or L.eat("nusw"):
                pass
            bt = L.type()
            L.expect(",")
            L.type()
            b = V(L, PTR, reg)
            idx = []
            while L.eat(","):
                if L.peek("!"):
                    break
                it = L.type()
                idx.append((it, V(L, it, reg)))
            return ("gep", dst, bt, b, idx)
        if op in ("call", "invoke"):
            return self._call(L, op, dst, reg)
        if op == "br":
            if L.eat("label"):
                L.ws()
                L.i += 1
                return ("jmp", L.name())
            t = L.type()
            c = V(L, t, reg)
            L.expect(",")
            L.expect("label")
            L.ws(); L.i += 1
            a = L.name()
            L.expect(",")
            L.expect("label")
            L.ws(); L.i += 1
            b = L.name()
            return ("br", c, a, b)
        if op == "switch":
            t = L.type()
            c = V(L, t, reg)
            L.expect(",")
            L.expect("label")
            L.ws(); L.i += 1
            d = L.name()
            L.expect("[")
            cases = []
            while not L.peek("]"):
                ct = L.type()
                cv = V(L, ct, reg)
                L.expect(",")
                L.expect("label")
                L.ws(); L.i += 1
                cases.append((cv[1], L.name()))
            return ("switch", t, c, d, cases)
        if op == "ret":
            t = L.type()
            if t.k == "void":
                return ("ret", None, None)
            return ("ret", t, V(L, t, reg))
        if op == "unreachable":
            return ("unreachable",)
        if op == "extractvalue":
            t = L.type()
            v = V(L, t, reg)
            idx = []
            while L.eat(","):
                if L.peek("!"):
                    break
                idx.append(int(L.word()))
            return ("extractvalue", dst, v, idx)
        if op == "insertvalue":
            t = L.type()
            v = V(L, t, reg)
            L.expect(",")
            et = L.type()
            e = V(L, et, reg)
            idx = []
            while L.eat(","):
                if L.peek("!"):
                    break
                idx.append(int(L.word()))
            return ("insertvalue", dst, t, v, e, idx)
        if op == "select":
            ct = L.type()
            c = V(L, ct, reg)
            L.expect(",")
            t = L.type()
            a = V(L, t, reg)
            L.expect(",")
            L.type()
            b = V(L, t, reg)
            return ("select", dst, t, c, a, b)
        if op == "phi":
            t = L.type()
            inc = []
            while True:
                L.expect("[")
                v = V(L, t, reg)
                L.expect(",")
                L.ws(); L.i += 1
                inc.append((v, L.name()))
                L.expect("]")
                if not L.eat(","):
                    break
                if L.peek("!"):
                    break
            return ("phi", dst, t, dict((b, v) for v, b in inc))
        if op == "freeze":
            t = L.type()
            return ("copy", dst, V(L, t, reg))
        if op in ("landingpad", "resume", "cleanupret", "fence"):
            return (op, dst)
        return ("unknown", op, s)

    def _call(self, L, op, dst, reg):
        # skip attributes up to the return type
        while True:
            L.ws()
            save = L.i
            try:
                t = L.type()
                break
            except (SyntaxError, KeyError, ValueError):
                L.i = save
                m = re.compile(r'[\w.\-]+').match(L.s, L.i)
                L.i = m.end()
                if L.i < len(L.s) and L.s[L.i] == "(":
                    L.i = _match(L.s, L.i) + 1
                else:
                    # e.g. "align 4"
                    if m.group() == "align":
                        L.word()
        L.ws()
        if L.s[L.i] == "(":   # function type
            L.i = _match(L.s, L.i) + 1
            L.ws()
        if L.s.startswith("asm ", L.i):
            return ("asm", dst, t, L.s)
        callee = self._val(L, PTR, reg)
        L.expect("(")
        args = []
        if not L.peek(")"):
            while True:
                at = L.type()
                if at is VOID:  # metadata argument
                    L.i = L.s.index(")", L.i)
                    break
                self._attrs(L)
                args.append((at, self._val(L, at, reg)))
                if not L.eat(","):
                    break
        L.expect(")")
        nxt = None
        if op == "invoke":
            m = re.search(r'to label %("[^"]+"|[\w.$\-]+)', L.s[L.i:])
            nxt = m.group(1).strip('"')
        return ("call", dst, t, callee, args, nxt)


def _match(s, i):
    d = 0
    j = i
    q = False
    while True:
        c = s[j]
        if c == '"':
            q = not q
        elif not q:
            if c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    return j
        j += 1


class Program:
    """A set of modules linked by symbol name."""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.funcs = {}
        self.pretty = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if n not in self.funcs or not f.internal:
                    self.funcs[n] = f
            for p, fs in m.pretty.items():
                self.pretty.setdefault(p, []).extend(fs)

    def by_pretty(self, p):
        fs = self.pretty.get(p)
        return fs[0] if fs else None

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.funcs.get(name)

    def layout(self, path):
        for m in self.mods:
            try:
                return m.layout(path)
            except KeyError:
                pass
        raise KeyError(path)
