"""LLVM IR, as rustc prints it, turned into Python generators that run it one thread at a time.

Every value is a Python int (unsigned, truncated to its width), an opaque symbol, or UNDEF. Memory
accesses go through the object M; a thread yields before every atomic access to a block another
thread can know of (those made before the threads started), so that a scheduler decides who goes
first. Anything unknown raises
Unsupported, which is no answer rather than a verdict.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'\s*(?:(c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|([%@](?:"[^"]*"|[-A-Za-z0-9_.$]+))|(![-A-Za-z0-9_.]*(?:\([^)]*\))?)|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|([A-Za-z_][A-Za-z0-9_.]*)|(#\d+)|(\.\.\.|[^\s]))')


def tokens(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


M64 = (1 << 64) - 1


class Type:
    """kind: int ptr array struct void other; bits, elements."""

    def __init__(self, kind, bits=0, elems=None, n=0, packed=False):
        self.kind, self.bits, self.elems, self.n, self.packed = kind, bits, elems, n, packed

    def align(self):
        if self.kind == "int":
            return 1 if self.bits <= 8 else 2 if self.bits <= 16 else 4 if self.bits <= 32 else 8 if self.bits <= 64 else 16
        if self.kind == "ptr":
            return 8
        if self.kind in ("array", "vector"):
            return self.elems[0].align()
        if self.kind == "struct":
            return 1 if self.packed else max([e.align() for e in self.elems] or [1])
        raise Unsupported("alignment of " + self.kind)

    def size(self):
        if self.kind == "int":
            b = (self.bits + 7) // 8
            a = self.align()
            return (b + a - 1) // a * a
        if self.kind == "ptr":
            return 8
        if self.kind in ("array", "vector"):
            return self.n * self.elems[0].size()
        if self.kind == "struct":
            o = self.offset(len(self.elems))
            a = self.align()
            return (o + a - 1) // a * a
        raise Unsupported("size of " + self.kind)

    def offset(self, i):
        o = 0
        for k, e in enumerate(self.elems):
            if not self.packed:
                a = e.align()
                o = (o + a - 1) // a * a
            if k == i:
                return o
            o += e.size()
        return o


CONSTS = {"null", "true", "false", "undef", "poison", "zeroinitializer", "inttoptr", "getelementptr", "ptrtoint", "none", "asm", "trunc", "add", "sub", "bitcast", "splat"}


class P:
    """A cursor over the tokens of one instruction."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x!r} at {' '.join(self.t[max(0, self.i - 4):self.i + 6])}")

    def balanced(self):
        d = 0
        while True:
            x = self.next()
            d += x == "("
            d -= x == ")"
            if d == 0:
                return
            if x == "":
                raise Unsupported("unbalanced")

    def type(self):
        x = self.next()
        if x == "ptr":
            t = Type("ptr")
            if self.peek() == "addrspace":
                self.next()
                self.balanced()
            return t
        if x == "void":
            return Type("void")
        if re.fullmatch(r"i\d+", x):
            return Type("int", int(x[1:]))
        if x == "[":
            n = int(self.next())
            self.want("x")
            e = self.type()
            self.want("]")
            return Type("array", elems=[e], n=n)
        if x in ("{", "<"):
            packed = x == "<"
            if packed and self.peek() != "{":
                n = int(self.next())
                self.want("x")
                e = self.type()
                self.want(">")
                return Type("vector", elems=[e], n=n)
            if packed:
                self.want("{")
            el = []
            while not self.eat("}"):
                el.append(self.type())
                self.eat(",")
            if packed:
                self.want(">")
            return Type("struct", elems=el, packed=packed)
        if x.startswith("%") and x[1:].strip('"') in self.mod.types:
            return self.mod.types[x[1:].strip('"')]
        return Type("other:" + x)

    def attrs(self):
        """Skip parameter attributes."""
        while True:
            x = self.peek()
            if x == "" or x in CONSTS or not re.match(r"[a-z]", x) or x.startswith("c\""):
                return
            self.next()
            if x == "align" and re.fullmatch(r"\d+", self.peek()):
                self.next()
            elif self.peek() == "(":
                self.balanced()

    def operand(self, ty, fn):
        """Python source of an operand of the given type."""
        x = self.next()
        if x.startswith("%"):
            return fn.local(x)
        if x.startswith("@"):
            return f"M.glob({x[1:].strip(chr(34))!r})"
        if re.fullmatch(r"-?\d+", x):
            v = int(x)
            if ty.kind == "int":
                v &= (1 << ty.bits) - 1
            return repr(v)
        if x in ("true",):
            return "1"
        if x in ("false", "null"):
            return "0"
        if x in ("undef", "poison"):
            if ty.kind == "struct":
                return "(" + "UNDEF," * len(ty.elems) + ")"
            return "UNDEF"
        if x == "zeroinitializer":
            if ty.kind == "struct":
                return "(" + "0," * len(ty.elems) + ")"
            return "0"
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            self.want("(")
            t = self.type()
            v = self.operand(t, fn)
            self.want("to")
            t2 = self.type()
            self.want(")")
            return v if t2.kind != "int" else f"({v} & {(1 << t2.bits) - 1})"
        if x == "getelementptr":
            while self.peek() != "(":
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.balanced()
            self.want("(")
            r = self.gep(fn)
            self.want(")")
            return r
        if x in ("add", "sub"):
            while self.peek() != "(":
                self.next()
            self.want("(")
            t = self.type()
            a = self.operand(t, fn)
            self.want(",")
            self.type()
            b = self.operand(t, fn)
            self.want(")")
            return f"({a} {'+' if x == 'add' else '-'} {b} & {(1 << t.bits) - 1})"
        if x == "{":
            el = []
            while not self.eat("}"):
                t = self.type()
                el.append(self.operand(t, fn))
                self.eat(",")
            return "(" + "".join(e + "," for e in el) + ")"
        raise Unsupported("operand " + x)

    def gep(self, fn):
        ty = self.type()
        self.want(",")
        self.type()
        self.attrs()
        base = self.operand(Type("ptr"), fn)
        terms = []
        const = 0
        first = True
        while self.eat(","):
            if self.peek().startswith("!"):
                break
            it = self.type()
            if it.kind != "int":
                raise Unsupported("gep index")
            self.attrs()
            ix = self.operand(it, fn)
            if first:
                sz = ty.size()
            elif ty.kind in ("array", "vector"):
                ty = ty.elems[0]
                sz = ty.size()
            else:
                k = int(ix)
                const += ty.offset(k)
                ty = ty.elems[k]
                continue
            first = False
            if it.bits < 64 and not re.fullmatch(r"\d+", ix):
                ix = f"sx({ix},{it.bits})"
            if re.fullmatch(r"\d+", ix):
                v = int(ix)
                if it.bits < 64 and v >> (it.bits - 1):
                    v -= 1 << it.bits
                const += v * sz
            else:
                terms.append(ix if sz == 1 else f"{ix}*{sz}")
        if const % (1 << 64):
            terms.append(str(const))
        if not terms:
            return base
        return f"({base} + {' + '.join(terms)} & {M64})"


class Fn:
    def __init__(self, name, params, ret, lines, mod):
        self.name, self.params, self.ret, self.lines, self.mod = name, params, ret, lines, mod
        self.names = {}

    def local(self, x):
        x = x.strip('%"') if x.startswith('%"') else x[1:]
        if x not in self.names:
            self.names[x] = f"v{len(self.names)}"
        return self.names[x]


SIGNED = {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}
UNSIGNED = {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}
PANICS = ("panicking", "unwrap_failed", "expect_failed", "handle_alloc_error", "capacity_overflow", "slice_index_fail", "_fail", "panic")


NAME = r'(?:"[^"]*"|[-A-Za-z0-9_.$]+)'


def own_names(text, k):
    """The same module with the names only it knows made different from every other's."""
    mine = set()
    for m in re.finditer(r"^(?:define[^@\n]* (?:internal|private) [^@\n]*|define (?:internal|private) [^@\n]*)?(@" + NAME + r")( = (?:internal|private) )?", text, re.M):
        if m.group(0).startswith("define") or m.group(2):
            mine.add(m.group(1))
    for m in re.finditer(r"^(%" + NAME + r") = type ", text, re.M):
        mine.add(m.group(1))

    def f(m):
        x = m.group(0)
        if x not in mine:
            return x
        return f'{x[0]}"{k}:' + x[1:].strip('"') + '"'
    return re.sub("[@%]" + NAME, f, text)


class Module:
    def __init__(self, texts):
        self.types, self.globals, self.fns, self.decls = {}, {}, {}, set()
        for k, text in enumerate(texts):
            self.read(own_names(text, k) if k else text)

    def read(self, text):
        lines = text.split("\n")
        named = {}
        for l in lines:
            m = re.match(r'%("[^"]*"|[-A-Za-z0-9_.$]+) = type (.*)', l)
            if m and not m.group(2).startswith("opaque"):
                n = m.group(1).strip('"')
                named[n], self.types[n] = m.group(2), Type("named")
        for n, d in named.items():      # one may mention another that comes later
            self.types[n].__dict__.update(P(tokens(d), self).type().__dict__)
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.define(l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-A-Za-z0-9_.$]+) = (.*)', l)
                if " external " not in " " + m.group(2) or m.group(1).strip('"') not in self.globals:
                    self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("%"):
                i += 1      # read already
                continue
            i += 1

    def define(self, head, body):
        p = P(tokens(head), self)
        while not p.peek().startswith("@"):
            p.next()
        # the return type is what precedes the name
        k = p.i
        name = p.next()[1:].strip('"')
        r = k - 1
        if p.t[r] == "}":
            d = 0
            while True:
                d += p.t[r] == "}"
                d -= p.t[r] == "{"
                if d == 0:
                    break
                r -= 1
        elif p.t[r] == "]":
            while p.t[r] != "[":
                r -= 1
        ret = P(p.t[r:k], self).type()
        p.want("(")
        params = []
        f = Fn(name, params, ret, body, self)
        while not p.eat(")"):
            if p.eat("..."):
                continue
            p.type()
            p.attrs()
            if p.peek().startswith("%"):
                params.append(f.local(p.next()))
            else:
                params.append(f"a{len(params)}")
            p.eat(",")
        self.fns.setdefault(name, f)

    def symbol(self, n):
        return "f_" + re.sub(r"\W", "_", n)

    def compile(self, name):
        """Python source of one function."""
        f = self.fns[name]
        blocks, cur = [], None
        joined = []
        for l in f.lines:
            l = l.split(" ;")[0] if l.startswith(";") is False and " ; preds" in l else l
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if joined and (joined[-1].count("[") > joined[-1].count("]")) and ("switch" in joined[-1]):
                joined[-1] += " " + l.strip()
                continue
            joined.append(l)
        for l in joined:
            m = re.match(r'("[^"]*"|[-A-Za-z0-9_.$]+):', l)
            if m and not l.startswith(" "):
                cur = (m.group(1).strip('"'), [])
                blocks.append(cur)
            else:
                if cur is None:
                    cur = ("%entry", [])
                    blocks.append(cur)
                cur[1].append(l.strip())
        # an unnamed entry block is referred to by number
        index = {b[0]: i for i, b in enumerate(blocks)}
        phis = {}
        for b, ins in blocks:
            for s in ins:
                m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = phi (.*)', s)
                if m:
                    p = P(tokens(m.group(2)), self)
                    while p.peek() in ("fast", "nnan", "nsz"):
                        p.next()
                    t = p.type()
                    while p.eat("["):
                        v = p.operand(t, f)
                        p.want(",")
                        src = p.next()[1:].strip('"')
                        p.want("]")
                        p.eat(",")
                        phis.setdefault((src, b), []).append((f.local(m.group(1)), v))

        def goto(src, dst, ind):
            src = src if src != "%entry" else None
            ph = phis.get((src, dst), [])
            if src is None:
                ph = [x for (s, d), xs in phis.items() if d == dst and s not in index for x in xs]
            out = ""
            if ph:
                out += f"{ind}{', '.join(x[0] for x in ph)} = {', '.join(x[1] for x in ph)}\n"
            return out + f"{ind}bb = {index[dst]}; continue\n"

        src = [f"def {self.symbol(name)}(T{''.join(', ' + x for x in f.params)}):\n", "  frame = []\n" if any(" = alloca " in s for _, i in blocks for s in i) else "  frame = None\n", "  bb = 0\n", "  while True:\n"]
        for bi, (b, ins) in enumerate(blocks):
            src.append(f"    {'if' if bi == 0 else 'elif'} bb == {bi}:\n")
            ind = "      "
            done = False
            for s in ins:
                try:
                    code = self.instr(f, s, ind, b, goto)
                except (Unsupported, ValueError, KeyError, IndexError) as e:
                    code = f"{ind}raise Unsupported({('in ' + name + ': ' + s[:160] + ' -- ' + str(e))!r})\n"
                src.append(code)
            if not ins:
                src.append(ind + "pass\n")
        src.append("  yield None\n")
        return "".join(src)

    def instr(self, f, s, ind, b, goto):
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = (.*)', s)
        if m:
            dst, s = f.local(m.group(1)), m.group(2)
        p = P(tokens(s), self)
        op = p.next()
        setd = f"{ind}{dst} = "
        if op == "phi":
            return f"{ind}pass\n"
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "br":
            if p.eat("label"):
                return goto(b, p.next()[1:].strip('"'), ind)
            p.type()
            c = p.operand(Type("int", 1), f)
            p.want(",")
            p.want("label")
            x = p.next()[1:].strip('"')
            p.want(",")
            p.want("label")
            y = p.next()[1:].strip('"')
            return f"{ind}if {c}:\n" + goto(b, x, ind + "  ") + goto(b, y, ind)
        if op == "switch":
            t = p.type()
            c = p.operand(t, f)
            p.want(",")
            p.want("label")
            d = p.next()[1:].strip('"')
            p.want("[")
            out = f"{ind}known({c})\n"
            while not p.eat("]"):
                p.type()
                v = p.operand(t, f)
                p.want(",")
                p.want("label")
                x = p.next()[1:].strip('"')
                out += f"{ind}if {c} == {v}:\n" + goto(b, x, ind + "  ")
            return out + goto(b, d, ind)
        if op == "ret":
            t = p.type()
            free = f"{ind}M.pop_frame(frame)\n{ind}" if True else ind
            if t.kind == "void":
                return f"{free}return None\n"
            return f"{free}return {p.operand(t, f)}\n"
        if op == "resume":
            return f"{ind}M.unreachable(T)\n"
        if op == "unreachable":
            return f"{ind}M.unreachable(T)\n"
        if op == "alloca":
            t = p.type()
            n = 1
            if p.eat(",") and p.peek() != "align":
                raise Unsupported("variable alloca")
            return f"{setd}M.alloca(T, frame, {t.size()})\n"
        if op == "load":
            atomic = p.eat("atomic")
            p.eat("volatile")
            t = p.type()
            p.want(",")
            p.type()
            a = p.operand(Type("ptr"), f)
            if atomic:
                if p.peek() == "syncscope":
                    p.next(); p.balanced()
                o = p.next()
                return f"{ind}if {a} >> 50 < 2: yield ({a}, 0)\n{setd}M.aload(T, {a}, {t.size()}, {o!r})\n"
            if t.kind == "struct":
                return f"{setd}({''.join(f'M.load(T, {a} + {t.offset(i)}, {e.size()}),' for i, e in enumerate(t.elems))})\n"
            if t.kind not in ("int", "ptr"):
                raise Unsupported("load of " + t.kind)
            tail = f" & {(1 << t.bits) - 1}" if t.kind == "int" and t.bits < 8 else ""
            return f"{setd}M.load(T, {a}, {t.size()}){tail}\n"
        if op == "store":
            atomic = p.eat("atomic")
            p.eat("volatile")
            t = p.type()
            v = p.operand(t, f)
            p.want(",")
            p.type()
            a = p.operand(Type("ptr"), f)
            if atomic:
                if p.peek() == "syncscope":
                    p.next(); p.balanced()
                o = p.next()
                return f"{ind}if {a} >> 50 < 2: yield ({a}, 1)\n{ind}M.astore(T, {a}, {v}, {t.size()}, {o!r})\n"
            if t.kind == "struct":
                return "".join(f"{ind}M.store(T, {a} + {t.offset(i)}, {v}[{i}], {e.size()})\n" for i, e in enumerate(t.elems))
            if t.kind not in ("int", "ptr"):
                raise Unsupported("store of " + t.kind)
            return f"{ind}M.store(T, {a}, {v}, {t.size()})\n"
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                p.next()
                if p.peek() == "(":
                    p.balanced()
            return f"{setd}{p.gep(f)}\n"
        if op == "icmp":
            p.eat("samesign")
            pred = p.next()
            t = p.type()
            x = p.operand(t, f)
            p.want(",")
            y = p.operand(t, f)
            if pred in ("eq", "ne"):
                return f"{setd}{x} {'==' if pred == 'eq' else '!='} {y}\n"
            if pred in UNSIGNED:
                return f"{setd}{x} {UNSIGNED[pred]} {y}\n"
            return f"{setd}sx({x},{t.bits}) {SIGNED[pred]} sx({y},{t.bits})\n"
        if op == "select":
            p.type()
            c = p.operand(Type("int", 1), f)
            p.want(",")
            t = p.type()
            x = p.operand(t, f)
            p.want(",")
            p.type()
            y = p.operand(t, f)
            return f"{setd}{x} if {c} else {y}\n"
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.next()
            t = p.type()
            if t.kind != "int":
                raise Unsupported("vector arithmetic")
            x = p.operand(t, f)
            p.want(",")
            y = p.operand(t, f)
            mask = (1 << t.bits) - 1
            if op in ("add", "sub", "mul"):
                return f"{setd}({x} {dict(add='+', sub='-', mul='*')[op]} {y}) & {mask}\n"
            if op in ("and", "or", "xor"):
                return f"{setd}{x} {dict([('and', '&'), ('or', '|'), ('xor', '^')])[op]} {y}\n"
            if op == "shl":
                return f"{setd}({x} << {y}) & {mask}\n"
            if op == "lshr":
                return f"{setd}{x} >> {y}\n"
            if op == "ashr":
                return f"{setd}(sx({x},{t.bits}) >> {y}) & {mask}\n"
            if op in ("udiv", "urem"):
                return f"{setd}{x} {'//' if op == 'udiv' else '%'} {y}\n"
            return f"{setd}sdiv({x}, {y}, {t.bits}, {op == 'srem'})\n"
        if op in ("zext", "sext", "trunc", "inttoptr", "ptrtoint", "bitcast", "freeze", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            x = p.operand(t, f)
            if op == "freeze":
                return f"{setd}freeze({x})\n"
            p.want("to")
            t2 = p.type()
            if op == "sext":
                return f"{setd}sx({x},{t.bits}) & {(1 << t2.bits) - 1}\n"
            if op == "trunc":
                return f"{setd}{x} & {(1 << t2.bits) - 1}\n"
            return f"{setd}+{x}\n" if t.kind == "int" and t.bits == 1 else f"{setd}{x}\n"
        if op == "extractvalue":
            t = p.type()
            x = p.operand(t, f)
            ix = ""
            while p.eat(","):
                ix += f"[{p.next()}]"
            return f"{setd}{x}{ix}\n"
        if op == "insertvalue":
            t = p.type()
            x = p.operand(t, f)
            p.want(",")
            t2 = p.type()
            v = p.operand(t2, f)
            p.want(",")
            i = p.next()
            if p.eat(",") and re.fullmatch(r"\d+", p.peek()):
                j = p.next()
                if p.eat(",") and re.fullmatch(r"\d+", p.peek()):
                    raise Unsupported("nested insertvalue")
                e = t.elems[int(i) if t.kind == "struct" else 0]
                return f"{setd}put({x}, {i}, put(UNDEF if {x} is UNDEF else {x}[{i}], {j}, {v}, {e.n or len(e.elems)}), {t.n or len(t.elems)})\n"
            return f"{setd}put({x}, {i}, {v}, {t.n or len(t.elems)})\n"
        if op == "atomicrmw":
            p.eat("volatile")
            k = p.next()
            p.type()
            a = p.operand(Type("ptr"), f)
            p.want(",")
            t = p.type()
            v = p.operand(t, f)
            if p.peek() == "syncscope":
                p.next(); p.balanced()
            o = p.next()
            return f"{ind}if {a} >> 50 < 2: yield ({a}, 1)\n{setd}M.rmw(T, {k!r}, {a}, {v}, {t.size()}, {o!r})\n" if dst else f"{ind}if {a} >> 50 < 2: yield ({a}, 1)\n{ind}M.rmw(T, {k!r}, {a}, {v}, {t.size()}, {o!r})\n"
        if op == "cmpxchg":
            weak = p.eat("weak")
            p.eat("volatile")
            p.type()
            a = p.operand(Type("ptr"), f)
            p.want(",")
            t = p.type()
            x = p.operand(t, f)
            p.want(",")
            p.type()
            y = p.operand(t, f)
            if p.peek() == "syncscope":
                p.next(); p.balanced()
            o1, o2 = p.next(), p.next()
            return f"{ind}if {a} >> 50 < 2: yield ({a}, 1)\n{ind}{dst or '_'} = M.cmpxchg(T, {a}, {x}, {y}, {t.size()}, {o1!r}, {o2!r}, {weak})\n"
        if op == "fence":
            if p.peek() == "syncscope":
                p.next(); p.balanced()
            return f"{ind}M.fence(T, {p.next()!r})\n"
        if op in ("call", "invoke"):
            while p.peek() in ("fastcc", "coldcc", "ccc", "preserve_mostcc", "cc", "fast", "tailcc") or p.peek() in ("noundef", "nonnull", "noalias", "zeroext", "signext", "range", "align", "dereferenceable", "dereferenceable_or_null"):
                x = p.next()
                if p.peek() == "(":
                    p.balanced()
                elif x in ("align", "cc"):
                    p.next()
            ret = p.type()
            if p.peek() == "(":
                p.balanced()
            callee = p.next()
            if callee == "asm":
                raise Unsupported("inline assembly")
            p.want("(")
            args = []
            while not p.eat(")"):
                if p.peek() == "metadata":
                    while p.peek() not in (",", ")"):
                        p.next()
                        if p.peek() == "(":
                            p.balanced()
                    p.eat(",")
                    continue
                t = p.type()
                p.attrs()
                args.append(p.operand(t, f))
                p.eat(",")
            tail = ""
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.want("label")
                tail = goto(b, p.next()[1:].strip('"'), ind)
            return self.call(f, callee, args, ret, ind, dst) + tail
        raise Unsupported(op)

    def call(self, f, callee, args, ret, ind, dst):
        lhs = f"{ind}{dst} = " if dst else ind
        if callee.startswith("%"):
            return f"{lhs}yield from M.indirect(T, {f.local(callee)}{''.join(', ' + a for a in args)})\n"
        n = callee[1:].strip('"')
        a = ", ".join(args)
        if n.startswith("llvm."):
            k = n.split(".")[1]
            if k in ("lifetime", "experimental", "prefetch", "dbg", "donothing", "invariant"):
                return f"{ind}pass\n"
            if k == "assume":
                return f"{ind}M.assume(T, {args[0]})\n"
            if k in ("memcpy", "memmove"):
                return f"{ind}M.copy(T, {args[0]}, {args[1]}, {args[2]})\n"
            if k == "memset":
                return f"{ind}M.fill(T, {args[0]}, {args[1]}, {args[2]})\n"
            if k == "trap":
                return f"{ind}M.abort(T)\n"
            if k == "expect":
                return f"{lhs}{args[0]}\n"
            bits = ret.bits if ret.kind == "int" else 64
            if k in ("umax", "umin"):
                return f"{lhs}{k[1:]}({a})\n"
            if k in ("smax", "smin"):
                return f"{lhs}{k[1:]}(sx({args[0]},{bits}), sx({args[1]},{bits})) & {(1 << bits) - 1}\n"
            if k == "ucmp":
                return f"{lhs}(({args[0]} > {args[1]}) - ({args[0]} < {args[1]})) & {(1 << bits) - 1}\n"
            if k == "scmp":
                w = int(n.split(".")[3][1:])
                return f"{lhs}((sx({args[0]},{w}) > sx({args[1]},{w})) - (sx({args[0]},{w}) < sx({args[1]},{w}))) & {(1 << bits) - 1}\n"
            if k in ("uadd", "usub", "umul") and "with.overflow" in n:
                w = int(n.split(".")[-1][1:])
                o = dict(uadd="+", usub="-", umul="*")[k]
                return f"{lhs}ovf({args[0]} {o} {args[1]}, {w})\n"
            if k == "usub":  # usub.sat
                return f"{lhs}max(0, {args[0]} - {args[1]})\n"
            if k == "uadd":
                return f"{lhs}min({(1 << bits) - 1}, {args[0]} + {args[1]})\n"
            if k in ("sadd", "ssub", "smul") and "with.overflow" in n:
                w = int(n.split(".")[-1][1:])
                o = dict(sadd="+", ssub="-", smul="*")[k]
                return f"{lhs}sovf(sx({args[0]},{w}) {o} sx({args[1]},{w}), {w})\n"
            if k == "abs":
                return f"{lhs}abs(sx({args[0]},{bits})) & {(1 << bits) - 1}\n"
            if k in ("fshl", "fshr"):
                return f"{lhs}{k}({a}, {bits})\n"
            if k == "bswap":
                return f"{lhs}int.from_bytes(({args[0]}).to_bytes({bits // 8}, 'little'), 'big')\n"
            if k == "bitreverse":
                return f"{lhs}int(format({args[0]}, '0{bits}b')[::-1], 2)\n"
            if k == "threadlocal":
                return f"{lhs}M.local(T, {args[0]})\n"
            if k == "ctpop":
                return f"{lhs}({args[0]}).bit_count()\n"
            if k in ("ctlz", "cttz"):
                return f"{lhs}{k}({args[0]}, {bits})\n"
            raise Unsupported(n)
        if n in self.fns:
            return f"{lhs}yield from {self.symbol(n)}(T{''.join(', ' + x for x in args)})\n"
        return f"{lhs}M.external(T, {n!r}, ({a}{',' if args else ''}))\n"
