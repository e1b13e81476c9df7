"""Memory, threads, schedules and symbolic keys for programs translated by ir.py.

Memory is made of blocks of 8-byte words. Plain accesses are checked for data races with vector
clocks (C11 happens-before, as in the Rust memory model); atomic locations keep their modification
order, from which a load may read anything coherence and happens-before allow. Schedules are explored
by dynamic partial order reduction over accesses to shared atomics, key orders by asking Z3 which
outcomes of a comparison the path condition leaves.
"""
import time
import z3
import ir
from ir import Unsupported

SHIFT = 20
LOW = (1 << SHIFT) - 1
M64 = ir.M64


class Violation(Exception):
    pass


class Stop(Exception):
    """This path is finished or was cut off by another worker's share."""


class Undef:
    def _same(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _same
    __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __floordiv__ = __rfloordiv__ = _same
    __mod__ = __rmod__ = __pos__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = _same
    __hash__ = object.__hash__

    def __bool__(self):
        raise Violation("a decision depends on uninitialised memory")

    def __repr__(self):
        return "uninitialised"


UNDEF = Undef()


class Sym:
    """A symbolic key: it can be moved, and compared through `order` only."""
    __slots__ = ("name", "z", "chain", "pos")

    def __init__(self, name, chain=None, pos=0):
        self.name, self.z, self.chain, self.pos = name, z3.Int(name), chain, pos

    def __repr__(self):
        return self.name

    def _no(self, *a):
        if len(a) == 1 and a[0] is UNDEF:
            return UNDEF
        raise Unsupported("arithmetic on a symbolic key")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _no
    __xor__ = __rxor__ = __lshift__ = __rshift__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __pos__ = _no
    __hash__ = object.__hash__

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of a symbolic key outside Ord")

    def __ne__(self, o):
        return not self == o


class Mixed(tuple):
    """Eight (or fewer) separate bytes: an int, None, or (Sym, index)."""
    __slots__ = ()


class Block:
    __slots__ = ("size", "w", "alive", "wt", "wc", "rd", "at", "kind", "owner", "addr")

    def __init__(self, size, kind, owner, addr):
        n = (size + 7) >> 3
        self.size, self.kind, self.owner, self.addr = size, kind, owner, addr
        self.w = [None] * n
        self.alive = True
        self.wt = [owner] * n      # last writer and its clock
        self.wc = [0] * n
        self.rd = [None] * n       # {thread: clock} of reads since
        self.at = None             # word -> modification order

    def copy(self):
        b = Block.__new__(Block)
        b.size, b.kind, b.owner, b.addr, b.alive = self.size, self.kind, self.owner, self.addr, self.alive
        b.w, b.wt, b.wc = self.w[:], self.wt[:], self.wc[:]
        b.rd = [dict(x) if x else None for x in self.rd]
        b.at = {k: v.copy() for k, v in self.at.items()} if self.at else None
        return b


class Order:
    """Modification order of one atomic word: (value, view released with it, writer, its clock)."""
    __slots__ = ("h", "seen", "plain")

    def copy(self):
        o = Order.__new__(Order)
        o.h, o.seen = self.h[:], dict(self.seen)
        return o


class Thread:
    def __init__(self, i, n):
        self.id = i
        self.vc = [0] * n
        self.acq = None      # views read by relaxed loads, taken by an acquire fence
        self.rel = None      # view published by relaxed stores after a release fence
        self.nblocks = 0
        self.gen = None
        self.pending = None
        self.log = []

    def tick(self):
        self.vc[self.id] += 1


def join(a, b):
    return [x if x > y else y for x, y in zip(a, b)]


ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


class Values:
    """Every value that exists, by token: what it was copied from, and whether it still is."""

    def __init__(self):
        self.live, self.origin, self.made = {}, {}, {}

    def copy(self):
        v = Values()
        v.live, v.origin, v.made = dict(self.live), dict(self.origin), dict(self.made)
        return v

    def new(self, t, origin=None):
        n = self.made[t] = self.made.get(t, 0) + 1
        tok = (t + 1) << 32 | n
        self.live[tok] = True
        self.origin[tok] = tok if origin is None else origin
        return tok

    def known(self, v, what):
        if v is UNDEF or v.__class__ is Mixed or v.__class__ is Sym or v not in self.live:
            raise Violation(f"{what} of something that is not a value")
        if not self.live[v]:
            raise Violation(f"{what} of a destroyed value")
        return v

    def clone(self, T, v):
        return self.new(T.id, self.origin[self.known(v, "clone")])

    def drop(self, v):
        self.live[self.known(v, "destruction")] = False


class Machine:
    MAXT = 5

    def __init__(self, module, namespace_extra=None):
        self.mod = module
        self.blocks = {}
        self.globals = {}
        self.fn_addr = {}
        self.base_globals = {}
        self.values = Values()
        self.ctl = None
        self.ns = dict(M=self, UNDEF=UNDEF, Unsupported=Unsupported, sx=sx, known=known, freeze=freeze, put=put, ovf=ovf, ctlz=ctlz, cttz=cttz, sdiv=sdiv, sovf=sovf, fshl=fshl, fshr=fshr, abs=abs, format=format, max=max, min=min, int=int)
        src = []
        for f in module.fns:
            src.append(module.compile(f))
        exec(compile("".join(src), "<llvm ir>", "exec"), self.ns)
        self.used = set()
        self.stale = True
        self.concrete = None

    def fn(self, name):
        return self.ns[self.mod.symbol(name)]

    # ---- blocks ----
    def new_block(self, T, size, kind):
        T.nblocks += 1
        bid = (T.id + 1) << 30 | T.nblocks
        b = Block(size, kind, T.id, bid << SHIFT)
        if size > LOW:
            raise Unsupported("a very large allocation")
        c = T.vc[T.id]
        b.wc = [c] * len(b.w)
        self.blocks[bid] = b
        return b.addr

    def alloca(self, T, frame, size):
        a = self.new_block(T, max(size, 1), "stack")
        frame.append(a >> SHIFT)
        return a

    def pop_frame(self, frame):
        if frame:
            for b in frame:
                del self.blocks[b]

    def at(self, T, addr, size):
        try:
            b = self.blocks.get(addr >> SHIFT)
        except TypeError:
            raise Violation(f"access through {addr!r}")
        if b is None:
            raise Violation(f"access to memory that does not exist (address {addr:#x})")
        if not b.alive:
            raise Violation("access to released memory")
        if b.kind == "unknown":
            raise Unsupported("memory whose contents are not known")
        if (addr & LOW) + size > b.size:
            raise Violation(f"access beyond the end of a block of {b.size} bytes")
        return b

    # ---- race detection ----
    def race(self, T, what, b, i, other):
        raise Violation(f"data race: {what} by thread {T.id} and an access by thread {other} to the same {b.kind} word, unordered")

    def rd_ok(self, T, b, i):
        t = b.wt[i]
        vc = T.vc
        if t != T.id and vc[t] < b.wc[i]:
            self.race(T, "a read", b, i, t)
        if b.at is not None and i in b.at:
            self.plain_after_atomic(T, b, i, False)
        r = b.rd[i]
        if r is None:
            b.rd[i] = {T.id: vc[T.id]}
        else:
            r[T.id] = vc[T.id]

    def wr_ok(self, T, b, i):
        t = b.wt[i]
        vc = T.vc
        if t != T.id and vc[t] < b.wc[i]:
            self.race(T, "a write", b, i, t)
        r = b.rd[i]
        if r is not None:
            for u, c in r.items():
                if u != T.id and vc[u] < c:
                    self.race(T, "a write", b, i, u)
            b.rd[i] = None
        if b.at is not None and i in b.at:
            self.plain_after_atomic(T, b, i, True)
        b.wt[i] = T.id
        b.wc[i] = vc[T.id]

    def plain_after_atomic(self, T, b, i, write):
        o = b.at[i]
        for (v, view, t, c) in o.h:
            if t is not None and t != T.id and T.vc[t] < c:
                self.race(T, "a plain access", b, i, t)
        if write:
            for u, (pos, c) in o.seen.items():
                if u != T.id and T.vc[u] < c:
                    self.race(T, "a plain write", b, i, u)
            del b.at[i]
        else:
            # the value every atomic write ordered before left there
            b.w[i] = o.h[-1][0]

    # ---- plain accesses ----
    def load(self, T, addr, size):
        b = self.at(T, addr, size)
        off = addr & LOW
        i = off >> 3
        if size == 8 and not off & 7:
            if b.kind != "stack":
                self.rd_ok(T, b, i)
            v = b.w[i]
            if v is None:
                return UNDEF
            if v.__class__ is Mixed:
                return unmix(v)
            return v
        j = (off + size - 1) >> 3
        if b.kind != "stack":
            for k in range(i, j + 1):
                self.rd_ok(T, b, k)
        return unmix(Mixed(self.bytes(b, off, size)))

    def bytes(self, b, off, size):
        out = []
        for k in range(off, off + size):
            w = b.w[k >> 3]
            c = w.__class__
            if w is None:
                out.append(None)
            elif c is int:
                out.append(w >> (k & 7) * 8 & 255)
            elif c is Mixed:
                out.append(w[k & 7])
            else:
                out.append((w, k & 7))
        return out

    def store(self, T, addr, v, size):
        b = self.at(T, addr, size)
        off = addr & LOW
        i = off >> 3
        if v is True or v is False:
            v = int(v)
        if size == 8 and not off & 7:
            if b.kind != "stack":
                self.wr_ok(T, b, i)
            b.w[i] = None if v is UNDEF else v
            return
        j = (off + size - 1) >> 3
        if b.kind != "stack":
            for k in range(i, j + 1):
                self.wr_ok(T, b, k)
        self.put_bytes(b, off, spread(v, size))

    def put_bytes(self, b, off, bs):
        k = 0
        n = len(bs)
        while k < n:
            o = off + k
            i = o >> 3
            if not o & 7 and k + 8 <= n:
                b.w[i] = pack(bs[k:k + 8])
                k += 8
                continue
            w = spread(b.w[i] if b.w[i] is not None else UNDEF, 8)
            while k < n and (off + k) >> 3 == i:
                w[(off + k) & 7] = bs[k]
                k += 1
            b.w[i] = pack(w)

    def copy(self, T, d, s, n):
        if n == 0:
            return
        if n.__class__ is not int:
            raise Violation("copy of an uninitialised length")
        x = self.at(T, s, n)
        y = self.at(T, d, n)
        so, do = s & LOW, d & LOW
        if not (so | do | n) & 7:
            i, j, m = so >> 3, do >> 3, n >> 3
            if x.kind != "stack":
                for k in range(i, i + m):
                    self.rd_ok(T, x, k)
            vals = x.w[i:i + m]
            if y.kind != "stack":
                for k in range(j, j + m):
                    self.wr_ok(T, y, k)
            y.w[j:j + m] = vals
            return
        if x.kind != "stack":
            for k in range(so >> 3, (so + n + 7) >> 3):
                self.rd_ok(T, x, k)
        bs = self.bytes(x, so, n)
        if y.kind != "stack":
            for k in range(do >> 3, (do + n + 7) >> 3):
                self.wr_ok(T, y, k)
        self.put_bytes(y, do, bs)

    def fill(self, T, d, v, n):
        if n == 0:
            return
        y = self.at(T, d, n)
        do = d & LOW
        if y.kind != "stack":
            for k in range(do >> 3, (do + n + 7) >> 3):
                self.wr_ok(T, y, k)
        self.put_bytes(y, do, [None if v is UNDEF else v] * n)

    # ---- atomics ----
    def order(self, T, addr, size):
        if size != 8 and size not in (1, 2, 4):
            raise Unsupported("atomic of %d bytes" % size)
        b = self.at(T, addr, size)
        off = addr & LOW
        i = off >> 3
        if size != 8:
            # smaller atomics: the whole word is one location
            if off & 7:
                raise Unsupported("packed small atomics")
        if b.owner != T.id and addr >> 50 >= 2 and T.id:
            raise Unsupported("an atomic made by one thread and used by another")
        if b.at is None:
            b.at = {}
        o = b.at.get(i)
        if o is None:
            t = b.wt[i]
            if t != T.id and T.vc[t] < b.wc[i]:
                self.race(T, "an atomic access", b, i, t)
            o = Order.__new__(Order)
            v = b.w[i]
            if size != 8 and v is not None:
                w = spread(v, 8)
                if any(x is not None for x in w[size:]) and b.size > size:
                    raise Unsupported("an atomic that shares its word")
                v = unmix(Mixed(w[:size]))
            o.h = [(UNDEF if v is None else v, None, None, 0)]
            o.seen = {}
            b.at[i] = o
        return b, i, o

    def wr_race(self, T, b, i):
        r = b.rd[i]
        if r:
            for u, c in r.items():
                if u != T.id and T.vc[u] < c:
                    self.race(T, "an atomic write", b, i, u)

    def read_view(self, T, o, view):
        if view is None:
            return
        if o in ACQ:
            T.vc = join(T.vc, view)
        else:
            T.acq = view if T.acq is None else join(T.acq, view)

    def oldest(self, T, o):
        """The oldest value this thread may still read."""
        lo = 0
        h = o.h
        for k in range(len(h) - 1, 0, -1):
            t, c = h[k][2], h[k][3]
            if t == T.id or T.vc[t] >= c:
                lo = k
                break
        s = o.seen.get(T.id)
        if s and s[0] > lo:
            lo = s[0]
        return lo

    def aload(self, T, addr, size, mo):
        b, i, o = self.order(T, addr, size)
        k = len(o.h) - 1
        if self.stale and len(o.h) > 1 and mo != "seq_cst":
            lo = self.oldest(T, o)
            if lo < k:
                k -= self.ctl.data(k - lo + 1, "reads from")
        o.seen[T.id] = (k, T.vc[T.id])
        v, view = o.h[k][:2]
        self.read_view(T, mo, view)
        return v

    def publish(self, T, mo):
        if mo in REL:
            return T.vc[:]
        return T.rel

    def astore(self, T, addr, v, size, mo):
        b, i, o = self.order(T, addr, size)
        self.wr_race(T, b, i)
        o.h.append((v, self.publish(T, mo), T.id, T.vc[T.id]))
        o.seen[T.id] = (len(o.h) - 1, T.vc[T.id])
        b.w[i] = v
        T.tick()

    def rmw_view(self, T, mo, old):
        v = self.publish(T, mo)
        if old is None:
            return v
        return old if v is None else join(v, old)     # continues the release sequence

    def rmw(self, T, op, addr, v, size, mo):
        b, i, o = self.order(T, addr, size)
        self.wr_race(T, b, i)
        old, view = o.h[-1][:2]
        self.read_view(T, mo, view)
        mask = (1 << size * 8) - 1
        new = dict(add=lambda: old + v & mask, sub=lambda: old - v & mask, xchg=lambda: v, umax=lambda: max(old, v), umin=lambda: min(old, v))
        new["and"], new["or"], new["xor"] = lambda: old & v, lambda: old | v, lambda: old ^ v
        if op not in new:
            raise Unsupported("atomicrmw " + op)
        n = new[op]()
        o.h.append((n, self.rmw_view(T, mo, view), T.id, T.vc[T.id]))
        o.seen[T.id] = (len(o.h) - 1, T.vc[T.id])
        b.w[i] = n
        T.tick()
        return old

    def cmpxchg(self, T, addr, exp, new, size, mo, fail, weak):
        b, i, o = self.order(T, addr, size)
        old, view = o.h[-1][:2]
        if old is UNDEF:
            raise Violation("compare-exchange on uninitialised memory")
        if old != exp:
            o.seen[T.id] = (len(o.h) - 1, T.vc[T.id])
            self.read_view(T, fail, view)
            return (old, False)
        self.wr_race(T, b, i)
        self.read_view(T, mo, view)
        o.h.append((new, self.rmw_view(T, mo, view), T.id, T.vc[T.id]))
        o.seen[T.id] = (len(o.h) - 1, T.vc[T.id])
        b.w[i] = new
        T.tick()
        return (old, True)

    def fence(self, T, mo):
        if mo in ACQ and T.acq is not None:
            T.vc = join(T.vc, T.acq)
            T.acq = None
        if mo in REL:
            T.rel = T.vc[:]
            T.tick()

    # ---- everything else ----
    def free(self, T, addr, size=None):
        b = self.at(T, addr, 0)
        if addr & LOW or b.kind != "heap":
            raise Violation("release of something that was not allocated")
        if size is not None and size != b.size:
            raise Violation(f"a block of {b.size} bytes released as {size}")
        for i in range(len(b.w)):
            self.wr_ok(T, b, i)
        b.alive = False

    def external(self, T, name, a):
        self.used.add(name)
        if "___rust_alloc_zeroed" in name or name.endswith("__rust_alloc_zeroed"):
            p = self.new_block(T, a[0], "heap")
            b = self.blocks[p >> SHIFT]
            b.w = [0] * len(b.w)
            return p
        if name.endswith("___rust_alloc") or name == "__rust_alloc":
            return self.new_block(T, a[0], "heap")
        if name.endswith("___rust_dealloc") or name == "__rust_dealloc":
            return self.free(T, a[0], a[1])
        if name.endswith("___rust_realloc"):
            old = self.at(T, a[0], 0)
            p = self.new_block(T, a[3], "heap")
            n = min(old.size, a[3])
            self.copy(T, p, a[0], n)
            self.free(T, a[0], a[1])
            return p
        if name == "val_clone":
            return self.values.clone(T, a[0])
        if name == "val_drop":
            return self.values.drop(a[0])
        if "no_alloc_shim" in name:
            return None
        if name.endswith("arcinner_layout_for_value_layout") or name.endswith("rc_inner_layout_for_value_layout"):
            # (align, size) of a value -> of two words followed by it
            al, sz = a
            al2 = max(al, 8)
            off = (16 + al - 1) // al * al
            return (al2, (off + sz + al2 - 1) // al2 * al2)
        if name == "sym_cmp":
            return self.ctl.cmp(a[0], a[1]) & 0xFF
        if name in ("memcmp", "bcmp"):
            x, y = self.at(T, a[0], a[2]), self.at(T, a[1], a[2])
            for k in range(a[2]):
                p, q = self.load(T, a[0] + k, 1), self.load(T, a[1] + k, 1)
                if p != q:
                    return (p - q) & 0xFFFFFFFF
            return 0
        if any(w in name for w in ir.PANICS):
            raise Violation("panicked (" + short(name) + ")")
        raise Unsupported("call of " + name)

    def indirect(self, T, addr, *args):
        n = self.fn_addr.get(addr)
        if n is None:
            raise Unsupported("an indirect call")
        r = yield from self.fn(n)(T, *args)
        return r

    def glob(self, name):
        a = self.globals.get(name)
        if a is None:
            bid = 1 << 20 | len(self.globals) + 1
            a = bid << SHIFT
            self.globals[name] = a
            if name in self.mod.fns:
                self.fn_addr[a] = name
                b = Block(1, "function", 0, a)
            else:
                b = Block(1 << 12, "global", 0, a)
                if not self.init_global(b, self.mod.globals.get(name, "")):
                    b.kind = "unknown"
            self.blocks[bid] = b
            self.base_globals[bid] = b
        return a

    def local(self, T, addr):
        """A thread's own copy of a thread-local global."""
        bid = (T.id + 1) << 30 | 1 << 29 | addr >> SHIFT & (1 << 20) - 1
        if bid not in self.blocks:
            b = self.base_globals[addr >> SHIFT].copy()
            b.kind, b.owner, b.addr = "stack", T.id, bid << SHIFT
            self.blocks[bid] = b
        return bid << SHIFT

    def init_global(self, b, text):
        import re
        m = re.search(r"(?:constant|global) (.*)", text)
        if not m or text.startswith("external"):
            return False
        p = ir.P(ir.tokens(m.group(1)), self.mod)
        try:
            t = p.type()
            bs = self.const_bytes(p, t)
        except (Unsupported, ValueError):
            return False
        b.size = max(len(bs), 1)
        self.put_bytes(b, 0, bs)
        return True

    def const_bytes(self, p, t):
        x = p.peek()
        if x.startswith('c"'):
            p.next()
            out, s, i = [], x[2:-1], 0
            while i < len(s):
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return out
        if x == "zeroinitializer":
            p.next()
            return [0] * t.size()
        if x in ("undef", "poison"):
            p.next()
            return [None] * t.size()
        if t.kind in ("struct", "array"):
            close = "}" if t.kind == "struct" else "]"
            opened = p.eat("<")
            p.next()
            out, k = [], 0
            while not p.eat(close):
                e = p.type()
                if t.kind == "struct":
                    out += [None] * (t.offset(k) - len(out))
                out += self.const_bytes(p, e)
                k += 1
                p.eat(",")
            if opened:
                p.eat(">")
            return out + [None] * (t.size() - len(out))
        v = eval(p.operand(t, None), self.ns) if not x.startswith("@") else self.glob(p.next()[1:].strip('"'))
        return spread(v, t.size())

    def assume(self, T, c):
        if c is UNDEF or c:
            return
        raise Violation("undefined behaviour: an assumption of the optimiser is false")

    def unreachable(self, T):
        raise Violation("undefined behaviour: unreachable code reached")

    def abort(self, T):
        raise Violation("aborted")

    def snapshot(self):
        return {k: b.copy() for k, b in self.blocks.items() if b.alive and k >> 30}, self.values.copy()

    def restore(self, snap):
        self.blocks = {k: b.copy() for k, b in snap[0].items()}
        self.values = snap[1].copy()
        for k, b in self.base_globals.items():
            self.blocks[k] = b.copy()


def short(name):
    import re
    m = re.findall(r"\d+([a-z_]{3,})", name)
    return m[-1] if m else name


def sx(v, bits):
    return v - (1 << bits) if v is not UNDEF and v >> (bits - 1) & 1 else v


def known(v):
    if v is UNDEF:
        raise Violation("a decision depends on uninitialised memory")


def freeze(v):
    return 0 if v is UNDEF else v


def put(t, i, v, n):
    if t is UNDEF:
        t = (UNDEF,) * n
    return t[:i] + (v,) + t[i + 1:]


def ovf(v, w):
    r = v & ((1 << w) - 1)
    return (r, r != v)


def sovf(v, w):
    r = v & ((1 << w) - 1)
    return (r, sx(r, w) != v)


def sdiv(x, y, w, rem):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    x, y = sx(x, w), sx(y, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    return (x - q * y if rem else q) & ((1 << w) - 1)


def fshl(x, y, n, w):
    return ((x << w | y) << n % w) >> w & ((1 << w) - 1)


def fshr(x, y, n, w):
    return (x << w | y) >> n % w & ((1 << w) - 1)


def ctlz(v, w):
    return w - v.bit_length()


def cttz(v, w):
    return w if v == 0 else (v & -v).bit_length() - 1


def spread(v, size):
    if v is UNDEF or v is None:
        return [None] * size
    if v.__class__ is Mixed:
        return list(v)[:size]
    if v.__class__ is Sym:
        return [(v, k) for k in range(size)]
    return [v >> 8 * k & 255 for k in range(size)]


def pack(bs):
    if all(x.__class__ is int for x in bs):
        return int.from_bytes(bytes(bs), "little")
    if all(x is None for x in bs):
        return None
    s = bs[0]
    if s.__class__ is tuple and s[1] == 0 and all(x.__class__ is tuple and x[0] is s[0] and x[1] == k for k, x in enumerate(bs)):
        return s[0]
    return Mixed(bs)


def unmix(v):
    p = pack(list(v)) if v else 0
    if p is None:
        return UNDEF
    if p.__class__ is Mixed:
        if any(x is None for x in p):
            return p if any(x is not None for x in p) else UNDEF
        raise Unsupported("part of a symbolic key")
    return p


class Node:
    __slots__ = ("kind", "n", "i", "vals", "enabled", "todo", "done", "what")


class Control:
    """The decisions of one path, replayed and then extended depth first."""

    def __init__(self, machine):
        self.m = machine
        self.stack = []
        self.depth = 0
        self.solver = z3.SimpleSolver()
        self.solver.push()
        self.queries = 0
        self.paths = 0
        self.events = 0
        self.memo = {}
        self.syms = []
        self.model = None
        self.forced = None
        self.cache, self.sat, self.solver_s, self.log = {}, 0, 0.0, []

    # ---- choices over data ----
    def node(self):
        n = self.stack[self.depth] if self.depth < len(self.stack) else None
        self.depth += 1
        return n

    def data(self, n, what=""):
        if n == 1:
            return 0
        if self.forced is not None:
            return self.forced.pop(0)[1]
        x = self.node()
        if x is None:
            x = Node()
            x.kind, x.n, x.i, x.vals, x.what = "data", n, 0, None, what
            self.stack.append(x)
        elif x.kind != "data" or x.n != n:
            raise Unsupported("the program is not deterministic")
        self.log.append(("data", x.i))
        return x.i

    def cmp(self, a, b):
        if a is b:
            return 0
        if a is UNDEF or b is UNDEF or a.__class__ is Mixed or b.__class__ is Mixed:
            raise Violation("comparison of an uninitialised key")
        if self.model is not None:
            a, b = self.val(a), self.val(b)
        if a.__class__ is int and b.__class__ is int:
            return (a > b) - (a < b)
        if a.__class__ is int or b.__class__ is int:
            raise Violation("comparison of a key that was never stored")
        if a.chain is not None and a.chain is b.chain:
            return (a.pos > b.pos) - (a.pos < b.pos)
        k = (a.name, b.name)
        r = self.memo.get(k)
        if r is not None:
            return r
        x = self.node()
        if x is None:
            x = Node()
            x.kind, x.i, x.vals, x.what = "cmp", 0, [], k
            known = (frozenset(self.memo.items()), k)
            x.vals = self.cache.get(known)
            if x.vals is None:
                x.vals = []
                for o, c in ((-1, a.z < b.z), (0, a.z == b.z), (1, a.z > b.z)):
                    self.solver.push()
                    self.solver.add(c)
                    self.queries += 1
                    t0 = time.perf_counter()
                    ok = self.solver.check()
                    self.solver_s += time.perf_counter() - t0
                    self.solver.pop()
                    if ok == z3.unknown:
                        raise Unsupported("solver gave up")
                    self.sat += ok == z3.sat
                    if ok == z3.sat:
                        x.vals.append((o, c))
                self.cache[known] = x.vals
            x.n = len(x.vals)
            self.stack.append(x)
            self.solver.push()
            self.solver.add(x.vals[0][1])
        elif x.kind != "cmp" or x.what != k:
            raise Unsupported("the program is not deterministic")
        r = x.vals[x.i][0]
        self.memo[k] = r
        self.memo[(b.name, a.name)] = -r
        return r

    def val(self, a):
        return self.model[a.name] if a.__class__ is Sym else a

    # ---- schedules ----
    def pick(self, enabled):
        x = self.node()
        if x is None:
            x = Node()
            x.kind, x.enabled, x.i, x.what = "sched", tuple(sorted(enabled)), min(enabled), None
            x.todo, x.done = {x.i}, {x.i}
            self.stack.append(x)
        elif x.kind != "sched" or x.enabled != tuple(sorted(enabled)):
            raise Unsupported("the program is not deterministic")
        self.log.append(("thread", x.i))
        return x, x.i

    def begin(self):
        self.depth = 0
        self.memo = {}
        self.log = []

    def backtrack(self):
        """Move on to the next path; False when all are done."""
        while self.stack:
            x = self.stack[-1]
            if x.kind == "sched":
                more = x.todo - x.done
                if more:
                    x.i = min(more)
                    x.done.add(x.i)
                    return True
            elif x.kind == "cmp":
                self.solver.pop()
                x.i += 1
                if x.i < x.n:
                    self.solver.push()
                    self.solver.add(x.vals[x.i][1])
                    return True
            else:
                x.i += 1
                if x.i < x.n:
                    return True
            self.stack.pop()
        return False


def run_threads(m, ctl, threads):
    """Run the threads' generators to the end under the schedule the control picks."""
    n = len(threads)
    events = []          # (thread, location, write, clock vector over events, node)
    clock = {t.id: {} for t in threads}   # happens-before over dependent events: thread -> last index seen
    last = {}            # location -> list of event indices

    def advance(t):
        try:
            t.pending = next(t.gen)
        except StopIteration:
            t.pending = None

    for t in threads:
        advance(t)
    while True:
        en = [t.id for t in threads if t.pending is not None]
        if not en:
            break
        by = {t.id: t for t in threads}
        if ctl.forced is not None:
            tid = ctl.forced.pop(0)[1]
            node = None
        else:
            node, tid = ctl.pick(en)
        t = by[tid]
        loc, wr = t.pending
        me = len(events)
        ctl.events += 1
        # races reversible by running this thread earlier
        c = clock[tid]
        hist = last.setdefault(loc, [])
        for e in reversed(hist):
            et, _, ew, ec, en_node = events[e]
            if et == tid or not (wr or ew):
                continue
            if c.get(et, -1) >= e:
                break          # ordered already, and everything before it
            if en_node is not None:
                if tid in en_node.enabled:
                    en_node.todo.add(tid)
                else:
                    en_node.todo.update(en_node.enabled)
            if ew:
                break
        for e in hist:
            et, _, ew, ec, _ = events[e]
            if wr or ew:
                for u, k in ec.items():
                    if c.get(u, -1) < k:
                        c[u] = k
        c[tid] = me
        events.append((tid, loc, wr, dict(c), node))
        hist.append(me)
        advance(t)
    return [e[0] for e in events]
