"""Parser for the subset of textual LLVM IR (opaque pointers, LLVM 18) that clang emits for the harnesses."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"[^"]*")
 |(?P<id>[%@]"[^"]*"|[%@][-\w.$]+)
 |(?P<meta>![-\w.]*|\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>-?\d+\.\d*(?:[eE][+-]?\d+)?)
 |(?P<int>-?\d+)
 |(?P<word>[A-Za-z_$][\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|^])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            rest = s[pos:].strip()
            if not rest or rest.startswith(";"):
                break
            raise ParseError("token at %r" % s[pos:pos + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


VOID = ("v",)
PTR = ("p",)
F64 = ("d",)
F32 = ("s",)
F80 = ("x",)
LABEL = ("label",)
META = ("metadata",)

PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "immarg", "signext",
               "zeroext", "inreg", "returned", "nest", "swiftself", "swifterror", "dead_on_unwind", "writable", "noreturn",
               "nofree", "allocalign", "allocptr", "captures", "inalloca", "preallocated", "nofpclass", "range"}
PAREN_ATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype",
               "inalloca", "preallocated", "nofpclass", "range", "captures", "memory"}


class P:
    """Token cursor."""
    __slots__ = ("t", "i")

    def __init__(self, s):
        self.t = tokenize(s) if isinstance(s, str) else s
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError("expected %r at %r" % (v, self.t[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.next()
        t = None
        if k == "word":
            if v == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace":
                    self.i += 4
            elif v == "void":
                t = VOID
            elif v == "double":
                t = F64
            elif v == "float":
                t = F32
            elif v == "x86_fp80":
                t = F80
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "opaque":
                t = ("t", (), False)
            elif v in ("token", "half", "fp128"):
                t = (v,)
            elif v[0] == "i" and v[1:].isdigit():
                t = ("i", int(v[1:]))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("a", n, e)
        elif v == "{":
            t = ("t", tuple(self.types("}")), False)
        elif v == "<":
            if self.accept("{"):
                t = ("t", tuple(self.types("}")), True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif k == "id" and v[0] == "%":
            t = ("n", v)
        if t is None:
            raise ParseError("type at %r in %r" % (v, self.t[:12]))
        # function type: T (args)
        if self.peek()[1] == "(" and self._looks_like_fntype():
            self.i += 1
            args = []
            while not self.accept(")"):
                if self.peek()[0] == "dots":
                    self.i += 1
                    args.append(("...",))
                else:
                    args.append(self.type())
                self.accept(",")
            t = ("fn", t, tuple(args))
        return t

    def _looks_like_fntype(self):
        # After a return type in a call: "(T, T...)" followed by a callee; types have no values after them.
        j = self.i + 1
        depth = 1
        while j < len(self.t) and depth:
            if self.t[j][1] == "(":
                depth += 1
            elif self.t[j][1] == ")":
                depth -= 1
            j += 1
        return j < len(self.t) and self.t[j][0] == "id"

    def types(self, close):
        out = []
        while not self.accept(close):
            out.append(self.type())
            self.accept(",")
        return out

    def attrs(self):
        """Skips parameter/return attributes; returns dict of interesting ones."""
        r = {}
        while True:
            k, v = self.peek()
            if k == "str":
                self.i += 1
                if self.accept("="):
                    self.i += 1
                continue
            if k != "word":
                return r
            if v in PAREN_ATTRS and self.peek(1)[1] == "(":
                self.i += 2
                if v in ("byval", "sret"):
                    r[v] = self.type()
                    self.expect(")")
                else:
                    depth = 1
                    while depth:
                        x = self.next()[1]
                        depth += (x == "(") - (x == ")")
                continue
            if v == "align":
                self.i += 2
                continue
            if v in PARAM_ATTRS:
                self.i += 1
                continue
            return r


LABELRE = re.compile(r'^("[^"]*"|[-\w.$]+):')


class FnText:
    __slots__ = ("name", "header", "lines", "parsed", "weak")


class ModuleText:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self.fns = {}
        self.decls = set()
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = FnText()
                f.header = l
                f.lines = lines[i + 1:j]
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                f.name = m.group(1).strip('"')
                f.parsed = None
                self.fns[f.name] = f
                i = j + 1
                continue
            if l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                name, rest = m.group(1).strip('"'), m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]) and " alias " in " " + rest:
                    self.aliases[name] = rest
                else:
                    self.globals[name] = rest
            elif l.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', l)
                self.types[m.group(1)] = m.group(2)
            i += 1
        self._tcache = {}
        self._sz = {}

    def resolve(self, t):
        while t[0] == "n":
            r = self._tcache.get(t[1])
            if r is None:
                if t[1] not in self.types:
                    raise ParseError("unknown type " + t[1])
                r = self._tcache[t[1]] = P(self.types[t[1]]).type()
            t = r
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is not None:
            return r
        u = self.resolve(t)
        k = u[0]
        if k == "i":
            w = u[1]
            b = (w + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == "p" or k == "d":
            r = (8, 8)
        elif k == "s":
            r = (4, 4)
        elif k == "x":
            r = (16, 16)
        elif k == "a":
            s, a = self.size_align(u[2])
            r = (s * u[1], a)
        elif k == "vec":
            s, a = self.size_align(u[2])
            s *= u[1]
            r = (s, s)
        elif k == "t":
            off = 0
            al = 1
            for e in u[1]:
                s, a = self.size_align(e)
                if u[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise ParseError("size of %r" % (u,))
        self._sz[t] = r
        return r

    def field_offsets(self, u):
        off = 0
        out = []
        for e in u[1]:
            s, a = self.size_align(e)
            if u[2]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        return out


def join_lines(lines):
    """Joins continuation lines of switch, invoke and landingpad; yields logical lines (labels keep no indent)."""
    out = []
    in_switch = False
    for l in lines:
        if not l.strip():
            continue
        if in_switch:
            out[-1] += " " + l.strip()
            if l.strip() == "]" or l.strip().startswith("], "):
                in_switch = False
            continue
        if l.startswith("   ") and out:
            out[-1] += " " + l.strip()
            continue
        out.append(l)
        if l.startswith("  switch ") and "]" not in l.split("[", 1)[-1]:
            in_switch = True
    return out
