#!/usr/bin/env python3
"""threads.py explore|replay: clones of a thread-safe tree in several threads.

Compiles src/lib.rs against /repo, takes the LLVM IR rustc makes of it, and executes that
symbolically: every schedule of the threads up to the order of independent operations, every value a
relaxed load may see, every order of the operations' keys and the tree's (Z3 decides which are left).
"""
import glob, itertools, json, multiprocessing, os, re, shutil, subprocess, sys, time
import z3
import ir
from ir import Unsupported
from machine import Machine, Control, Thread, Violation, Sym, UNDEF, Block, Values, run_threads, SHIFT, join

HERE = os.path.dirname(os.path.abspath(__file__))
STABLE = "stable-x86_64-unknown-linux-gnu"
# nothing that moves a load to where the program does not make it
PASSES = "cgscc(inline),function(sroa,early-cse,instsimplify,dce),globaldce"


def build(native):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    t = os.path.join(HERE, "target")
    if native:
        t = os.path.join(t, "native")
        for f in glob.glob(t + "/release/*.so"):
            os.unlink(f)
        cmd = ["cargo", "rustc", "--release", "--offline", "--quiet", "--features", "native", "--crate-type", "cdylib", "--target-dir", t]
    else:
        cmd = ["cargo", "rustc", "--release", "--offline", "--quiet", "--target-dir", t]
        # the crates they use too: a function of theirs that is not generic is nowhere else
        env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(["--emit=llvm-ir", "-Cno-prepopulate-passes", "-Cpasses=" + PASSES])
        for f in glob.glob(t + "/release/deps/*.ll"):
            os.unlink(f)
        # cargo does not know that the files it would keep are gone
        shutil.rmtree(os.path.join(t, "release", ".fingerprint"), ignore_errors=True)
    r = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if native:
        out = glob.glob(t + "/release/*.so")
    else:
        out = glob.glob(t + "/release/deps/threads*.ll") + sorted(glob.glob(t + "/release/deps/palmtree*.ll"))
    if r.returncode or len(out) != (1 if native else 2):
        raise SystemExit(f"build failed ({out}):\n" + r.stdout[-3000:])
    return out[0] if native else out


# ---- the tree under test, as a thread uses it ----

def call(m, T, name, *a):
    r = yield from m.fn("t_" + name)(T, *a)
    return r


def finish(g):
    """Run a generator to its end with nobody else around."""
    try:
        while True:
            next(g)
    except StopIteration as e:
        return e.value


class Harness:
    def __init__(self, m):
        self.m = m
        self.ctl = m.ctl

    def block(self, T, words, kind="driver"):
        return self.m.new_block(T, 8 * words, kind)

    def word(self, T, a, i=0):
        return self.m.load(T, a + 8 * i, 8)

    def pairs(self, T, a, n):
        return [(self.word(T, a, 2 * i), self.word(T, a, 2 * i + 1)) for i in range(n)]

    def op(self, T, handle, op, key, log, room):
        """One operation on a handle; appends (op, key, token given, result) to the log."""
        m = self.m
        if op in ("insert", "write", "entry"):
            v = m.values.new(T.id)
            old = self.block(T, 1)
            if op == "write":
                r = yield from call(m, T, op, handle, key, v)
                res = bool(r)
            else:
                r = yield from call(m, T, op, handle, key, v, old)
                res = self.taken(self.word(T, old)) if r else None
            log.append((op, key, v, res))
        elif op in ("remove", "remove_lowest", "remove_highest"):
            out = self.block(T, 2)
            a = (handle, key, out) if op == "remove" else (handle, out)
            r = yield from call(m, T, op, *a)
            log.append((op, key, None, (self.word(T, out), self.taken(self.word(T, out, 1))) if r else None))
        elif op == "get":
            out = self.block(T, 1)
            r = yield from call(m, T, op, handle, key, out)
            log.append((op, key, None, self.seen(self.word(T, out)) if r else None))
        elif op in ("iter", "iter_back", "range"):
            out = self.block(T, 2 * room)
            n = yield from (call(m, T, op, handle, out) if op != "range" else call(m, T, op, handle, key, out))
            log.append((op, key, None, [(k, self.seen(v)) for k, v in self.pairs(T, out, n)]))
        elif op == "rewrite":
            src = self.block(T, room)
            vs = [m.values.new(T.id) for _ in range(room)]
            for i, v in enumerate(vs):
                m.store(T, src + 8 * i, v, 8)
            n = yield from call(m, T, op, handle, src)
            for v in vs[n:]:
                m.values.drop(v)
            log.append((op, key, vs, n))
        elif op.startswith("consume"):
            limit = int(op[7:] or 1 << 10)
            out = self.block(T, 2 * room + 2)
            n = yield from call(m, T, "consume", handle, limit, out)
            log.append((op, key, None, [(k, self.taken(v)) for k, v in self.pairs(T, out, n)]))
        elif op == "drop":
            yield from call(m, T, op, handle)
            log.append((op, key, None, None))
        elif op == "len":
            r = yield from call(m, T, op, handle)
            log.append((op, key, None, r))
        elif op.startswith("clone+"):
            h2 = self.block(T, self.size, "handle")
            yield from call(m, T, "clone", handle, h2)
            sub = []
            if op == "clone+append":
                log.append(("clone", sub))
                yield from call(m, T, "append", handle, h2)
            else:
                for o in op.split("+")[1:]:
                    yield from self.op(T, h2, o, key, sub, room)
                log.append(("clone", sub))
        else:
            raise Unsupported(op)

    def seen(self, v):
        return self.m.values.origin[self.m.values.known(v, "reading")]

    def taken(self, v):
        o = self.seen(v)
        self.m.values.drop(v)
        return o

    # ---- what a map would do ----
    def cmp(self, a, b):
        return self.ctl.cmp(a, b)

    def find(self, model, key):
        for i, (k, _) in enumerate(model):
            c = self.cmp(key, k)
            if c <= 0:
                return i, c == 0
        return len(model), False

    def same(self, what, got, want):
        ok = (got is None) == (want is None)
        if ok and got is not None:
            if isinstance(got, list):
                ok = len(got) == len(want) and all(g[1] == w[1] and self.samekey(g[0], w[0]) for g, w in zip(got, want))
            elif isinstance(got, tuple):
                ok = got[1] == want[1] and self.samekey(got[0], want[0])
            else:
                ok = got == want
        if not ok:
            raise Violation(f"{what} gave {show(got)}, a tree of its own would give {show(want)}")

    def samekey(self, a, b):
        return a is b or self.cmp(a, b) == 0

    def judge(self, model, log, who):
        """Compare what the operations returned with a map; what the map holds in the end."""
        org = self.m.values.origin
        for e in log:
            if e[0] == "clone":
                self.judge(list(model), e[1], who + " (its clone)")
                continue
            op, key, v, res = e
            what = f"{op}({key}) by {who}"
            if op in ("insert", "write", "entry", "get", "remove"):
                i, hit = self.find(model, key)
                have = model[i] if hit else None
                if op == "insert":
                    self.same(what, res, have and have[1])
                    model[i:i + hit] = [(key, v)]
                elif op == "write":
                    self.same(what, res, hit)
                    if hit:
                        model[i] = (have[0], v)
                elif op == "entry":
                    self.same(what, res, have and have[1])
                    model[i:i + hit] = [] if hit else [(key, v)]
                elif op == "get":
                    self.same(what, res, have and have[1])
                else:
                    self.same(what, res, have)
                    if hit:
                        del model[i]
            elif op in ("remove_lowest", "remove_highest"):
                self.same(what, res, model.pop(0 if op == "remove_lowest" else -1) if model else None)
            elif op == "iter":
                self.same(what, res, model)
            elif op == "iter_back":
                self.same(what, res, model[::-1])
            elif op == "range":
                i, _ = self.find(model, key)
                self.same(what, res, model[i:])
            elif op == "rewrite":
                self.same(what, res, len(model))
                model[:] = [(k, v[i]) for i, (k, _) in enumerate(model)]
            elif op.startswith("consume"):
                limit = int(op[7:] or 1 << 10)
                want = model[:limit]
                if len(model) > limit:
                    want.append(model[-1])
                self.same(what, res, want)
                model = None
            elif op == "drop":
                model = None
            elif op == "len":
                self.same(what, res, len(model))
        return model

    # ---- one path ----
    def prepare(self, n, handles):
        m = self.m
        self.main = T = Thread(0, 5)
        T.vc[0] = 1
        m.blocks, m.values = {}, Values()
        for b in m.base_globals.values():
            m.blocks[b.addr >> SHIFT] = b.copy()
        m.ctl.begin()
        self.size = (finish(call(m, T, "size")) + 7) // 8
        chain = object()
        self.keys = [Sym(f"k{i}", chain, i) for i in range(n)]
        src = self.block(T, max(1, 2 * n))
        self.model0 = []
        for i, k in enumerate(self.keys):
            v = m.values.new(0)
            m.store(T, src + 16 * i, k, 8)
            m.store(T, src + 16 * i + 8, v, 8)
            self.model0.append((k, v))
        self.handles = [self.block(T, self.size, "handle")]
        finish(call(m, T, "load", self.handles[0], src, n))
        for _ in range(handles - 1):
            h = self.block(T, self.size, "handle")
            finish(call(m, T, "clone", self.handles[0], h))
            self.handles.append(h)
        self.snap = m.snapshot()
        self.mstate = (T.vc[:], T.nblocks)

    def path(self, scn):
        m, T = self.m, self.main
        m.restore(self.snap)
        T.vc, T.nblocks = self.mstate[0][:], self.mstate[1]
        T.acq = T.rel = None
        T.tick()
        threads, logs = [], []
        room = len(self.keys) + 4
        for i, ops in enumerate(scn["threads"]):
            t = Thread(i + 1, 5)
            t.vc = T.vc[:]
            t.vc[t.id] = 1
            log = []
            h = self.handles[0 if scn["shared"] else i]

            def prog(t=t, h=h, ops=ops, log=log, i=i):
                for j, op in enumerate(ops):
                    yield from self.op(t, h, op, self.opkeys[i][j], log, room)
            t.gen = prog()
            threads.append(t)
            logs.append(log)
        T.tick()
        run_threads(m, self.ctl, threads)
        for t in threads:
            T.vc = join(T.vc, t.vc)
        T.tick()
        left = []
        if scn["shared"]:
            for i, log in enumerate(logs):
                self.judge(list(self.model0), log, f"thread {i + 1}")
            left = [(self.handles[0], list(self.model0))]
        else:
            for i, log in enumerate(logs):
                mod = self.judge(list(self.model0), log, f"thread {i + 1}")
                if mod is not None:
                    left.append((self.handles[i], mod))
            for h in self.handles[len(logs):]:
                left.append((h, list(self.model0)))
        for h, mod in left:
            log = []
            finish(self.op(T, h, "iter", None, log, room))
            finish(self.op(T, h, "len", None, log, room))
            self.judge(mod, log, "the main thread afterwards")
        for h, mod in left:
            finish(self.op(T, h, "drop", None, [], room))
        for b in m.blocks.values():
            if b.kind == "heap" and b.alive:
                raise Violation(f"a block of {b.size} bytes is never released")
        for v, live in m.values.live.items():
            if live:
                raise Violation("a value is never destroyed")

    def explore(self, scn, deadline, limit=10 ** 9):
        ctl = self.ctl = self.m.ctl = Control(self.m)
        self.prepare(scn["n"], scn["handles"])
        for a, b in zip(self.keys, self.keys[1:]):
            ctl.solver.add(a.z < b.z)
        self.opkeys = [[Sym(f"q{i + 1}{chr(97 + j)}") for j in range(len(ops))] for i, ops in enumerate(scn["threads"])]
        if scn.get("mask"):
            for (x, y) in scn["mask"]:
                ctl.solver.add(self.opkeys[x[0]][x[1]].z == self.opkeys[y[0]][y[1]].z)
        ctl.cache = {}
        while True:
            ctl.begin()
            try:
                self.path(scn)
            except Violation as e:
                return dict(violation=str(e), decisions=ctl.log, model=self.concrete(), **self.stats())
            ctl.paths += 1
            if ctl.paths >= limit or time.time() > deadline:
                return dict(cut=True, **self.stats())
            if not ctl.backtrack():
                return self.stats()

    def stats(self):
        c = self.ctl
        return dict(paths=c.paths, events=c.events, queries=c.queries, sat=c.sat, solver_s=c.solver_s, used=sorted(self.m.used))

    def concrete(self):
        s = self.ctl.solver
        assert s.check() == z3.sat
        mod = s.model()
        out = {}
        for k in self.keys + [q for r in self.opkeys for q in r]:
            v = mod.eval(k.z, model_completion=True)
            out[k.name] = v.as_long()
        return out

    def again(self, scn, model, decisions):
        """The same path with the solver's keys in place of symbols."""
        ctl = self.ctl = self.m.ctl = Control(self.m)
        ctl.model = None
        self.prepare(scn["n"], scn["handles"])
        self.opkeys = [[Sym(f"q{i + 1}{chr(97 + j)}") for j in range(len(ops))] for i, ops in enumerate(scn["threads"])]
        ctl.model, ctl.forced = dict(model), [tuple(d) for d in decisions]
        try:
            self.path(scn)
        except Violation as e:
            return str(e)
        return None


def show(x):
    if isinstance(x, list):
        return "[" + ", ".join(show(y) for y in x) + "]"
    if isinstance(x, tuple):
        return f"({x[0]!r}, value {x[1] & 0xffffffff} of {x[1] >> 32})"
    return repr(x) if x is None or isinstance(x, bool) or x < 1 << 32 else f"value {x & 0xffffffff} of {x >> 32}"


# ---- scenarios ----

OPS = ["insert", "remove", "get", "write", "entry", "iter", "iter_back", "range", "rewrite", "remove_lowest", "remove_highest", "consume", "consume1", "drop", "clone+drop", "clone+insert+drop", "clone+consume", "clone+append"]
FINAL = ("drop", "consume", "consume1")
READS = ["get", "iter", "iter_back", "range", "len", "clone+drop", "clone+insert+drop", "clone+remove+iter+drop", "clone+rewrite+drop", "clone+consume", "clone+consume1"]


def scenarios(tier):
    out = []

    def add(n, threads, shared=False, extra=0):
        name = f"n{n}{'-ref' if shared else ''}{'-kept' * extra}: " + " | ".join(", ".join(t) for t in threads)
        out.append(dict(name=name, n=n, threads=threads, shared=shared, handles=1 if shared else len(threads) + extra))

    quick = tier == "quick"
    # two threads, one operation each, on a clone of their own
    for n in ([0, 3, 6] if quick else [0, 1, 3, 4, 6, 9, 22]):
        for a, b in itertools.combinations_with_replacement(OPS, 2):
            add(n, [[a], [b]])
    # the same, each then letting go of its clone
    live = [o for o in OPS if o not in FINAL]
    for n in ([3] if quick else [0, 1, 3, 6]):
        for a, b in itertools.combinations_with_replacement(live, 2):
            add(n, [[a, "drop"], [b, "drop"]])
        for a in live:
            for b in FINAL:
                add(n, [[a, "drop"], [b]])
    # a third clone stays behind
    for n in ([3] if quick else [1, 3, 6]):
        for a, b in itertools.combinations_with_replacement(OPS if not quick else ["insert", "remove", "rewrite", "consume", "drop", "clone+insert+drop"], 2):
            add(n, [[a], [b]], extra=1)
    # one tree behind a shared reference
    for n in ([0, 3, 6] if quick else [0, 1, 3, 6, 9]):
        for a, b in itertools.combinations_with_replacement(READS, 2):
            add(n, [[a], [b]], shared=True)
    # two operations each
    two = ["insert", "remove", "write", "rewrite", "drop", "consume", "clone+drop", "clone+insert+drop"] if not quick else ["insert", "remove", "drop"]
    seqs = [[a, b] for a in two for b in two if a not in FINAL]
    for n in ([1] if quick else [1, 3]):
        for a, b in itertools.combinations_with_replacement(seqs, 2):
            add(n, [a, b])
    # three threads
    three = ["insert", "get", "write", "drop", "consume1", "clone+drop"] if quick else ["insert", "remove", "get", "write", "rewrite", "drop", "consume1", "consume", "clone+drop", "clone+insert+drop", "remove_lowest"]
    for n in ([1] if quick else [1, 3]):
        for t in itertools.combinations_with_replacement(three, 3):
            add(n, [[o] for o in t])
    return out


# ---- the executor against the machine code ----

class Disagree(Exception):
    pass


def validate(m, so, rounds=60):
    """The same concrete calls, single threaded, to the executor and to the compiled library."""
    import ctypes, random
    lib = ctypes.CDLL(so)
    rng = random.Random(7)
    h = Harness(m)
    calls = 0
    u64 = ctypes.c_uint64
    for r in range(rounds):
        ctl = m.ctl = h.ctl = Control(m)
        ctl.model = {}
        h.prepare(0, 1)
        T = h.main
        T.nblocks = h.mstate[1]
        finish(call(m, T, "drop", h.handles[0]))
        lib.t_size.restype = ctypes.c_size_t
        size = lib.t_size()
        assert (size + 7) // 8 == h.size
        nat = [ctypes.create_string_buffer(size + 8) for _ in range(3)]
        sim = [h.block(T, h.size, "handle") for _ in range(3)]
        alive = [False] * 3
        toks = {}      # native value -> executor's
        nlog = (u64 * 4000)()

        def sync():
            n = lib.native_log(nlog, 2000)
            return [(nlog[2 * i], nlog[2 * i + 1]) for i in range(n)]

        def value():
            v = m.values.new(0)
            return v

        def check(what, a, b):
            if a != b:
                raise Disagree(f"executor and machine code disagree on {what}: {a} and {b}")
        n0 = rng.choice([0, 0, 3, 6, 13, 40])
        items = []
        for i in range(n0):
            items += [2 * i + 10, value()]
        src = h.block(T, max(2, 2 * n0))
        for i, x in enumerate(items):
            m.store(T, src + 8 * i, x, 8)
        lib.t_load(nat[0], (u64 * max(2, 2 * n0))(*items), n0)
        finish(call(m, T, "load", sim[0], src, n0))
        alive[0] = True
        org = lambda v: m.values.origin[v]
        norg = {}
        no = lambda v: norg.get(v, v)
        for step in range(30):
            i = rng.choice([k for k in range(3) if alive[k]] or [0])
            if not alive[i]:
                break
            k = rng.randrange(8, 2 * n0 + 14)
            o = rng.choice(["insert"] * 4 + ["remove"] * 4 + ["get", "iter", "range", "write", "entry", "clone", "rewrite", "drop", "consume", "remove_lowest", "remove_highest", "append", "iter_back", "len"])
            before = {t for t, l in m.values.live.items() if not l}
            calls += 1
            if o in ("insert", "entry", "write"):
                v = value()
                out = (u64 * 2)()
                ob = h.block(T, 1)
                a = getattr(lib, "t_" + o)
                a.restype = ctypes.c_bool
                args = (nat[i], u64(k), u64(v)) + (() if o == "write" else (out,))
                x = a(*args)
                y = finish(call(m, T, o, sim[i], k, v, *(() if o == "write" else (ob,))))
                check(o, x, bool(y))
            elif o in ("remove", "remove_lowest", "remove_highest", "get"):
                out = (u64 * 2)()
                ob = h.block(T, 2)
                a = getattr(lib, "t_" + o)
                a.restype = ctypes.c_bool
                ks = (u64(k),) if o in ("remove", "get") else ()
                x = a(nat[i], *ks, out)
                y = finish(call(m, T, o, sim[i], *((k,) if ks else ()), ob))
                check(o, x, bool(y))
                if x and o != "get":
                    check(o, out[0], h.word(T, ob))
            elif o in ("iter", "iter_back", "range"):
                out = (u64 * 400)()
                ob = h.block(T, 400)
                a = getattr(lib, "t_" + o)
                a.restype = ctypes.c_size_t
                ks = (u64(k),) if o == "range" else ()
                x = a(nat[i], *ks, out)
                y = finish(call(m, T, o, sim[i], *((k,) if ks else ()), ob))
                check(o, x, y)
                for sync_ in [sync()]:
                    for f, t in sync_:
                        if t:
                            norg[t] = no(f)
                check(o, [(out[2 * j], no(out[2 * j + 1])) for j in range(x)], [(p, org(q)) for p, q in h.pairs(T, ob, y)])
            elif o == "clone":
                j = next((k for k in range(3) if not alive[k]), None)
                if j is None:
                    continue
                lib.t_clone(nat[i], nat[j])
                finish(call(m, T, "clone", sim[i], sim[j]))
                alive[j] = True
            elif o == "rewrite":
                n = lib.t_len(nat[i])
                vs = [value() for _ in range(n)]
                src = h.block(T, n + 1)
                for q, v in enumerate(vs):
                    m.store(T, src + 8 * q, v, 8)
                x = lib.t_rewrite(nat[i], (u64 * (n + 1))(*vs))
                check(o, x, finish(call(m, T, "rewrite", sim[i], src)))
            elif o == "drop":
                lib.t_drop(nat[i])
                finish(call(m, T, "drop", sim[i]))
                alive[i] = False
            elif o == "consume":
                out = (u64 * 400)()
                ob = h.block(T, 400)
                lim = rng.randrange(6)
                x = lib.t_consume(nat[i], lim, out)
                y = finish(call(m, T, "consume", sim[i], lim, ob))
                check(o, [out[2 * j] for j in range(x)], [p for p, _ in h.pairs(T, ob, y)])
                alive[i] = False
            elif o == "append":
                j = next((k for k in range(3) if alive[k] and k != i), None)
                if j is None:
                    continue
                lib.t_append(nat[i], nat[j])
                finish(call(m, T, "append", sim[i], sim[j]))
                alive[j] = False
            elif o == "len":
                check(o, lib.t_len(nat[i]), finish(call(m, T, "len", sim[i])))
            dead = []
            for f, t in sync():
                if t:
                    norg[t] = no(f)
                else:
                    dead.append(no(f))
            gone = sorted(org(t) for t, l in m.values.live.items() if not l and t not in before)
            check(f"values destroyed by {o}", sorted(dead), gone)
        for i in range(3):
            if alive[i]:
                lib.t_drop(nat[i])
        sync()
    return calls


def validated(m, so):
    """validate, where a crash of the machine code is only an answer."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                r = ["ok", validate(m, so)]
            except Disagree as e:
                r = ["disagree", str(e)]
            except Unsupported as e:
                r = ["unsupported", str(e)]
            except Violation as e:
                r = ["violation", str(e)]
            os.write(wr, json.dumps(r).encode())
        finally:
            os._exit(0)
    os.close(wr)
    s = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        s += b
    os.waitpid(pid, 0)
    return json.loads(s) if s else ["crash", "the machine code, or the executor, stopped"]


# ---- running them ----

M = None


def worker(a):
    scn, deadline, limit = a
    t0 = time.time()
    h = Harness(M)
    M.used = set()
    try:
        r = h.explore(scn, deadline, limit)
        if "violation" in r:
            r["again"] = h.again(scn, r["model"], r["decisions"])
    except Unsupported as e:
        r = dict(unsupported=str(e), paths=0, events=0, queries=0, sat=0, solver_s=0, used=[])
    except RecursionError as e:
        r = dict(unsupported="recursion too deep", paths=0, events=0, queries=0, sat=0, solver_s=0, used=[])
    r["scenario"], r["s"] = scn, time.time() - t0
    return r


def main():
    global M
    sys.setrecursionlimit(20000)
    mode, tier, js, secs = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    only = sys.argv[5] if len(sys.argv) > 5 else ""
    t0 = time.time()
    ll = build(False)
    so = build(True)
    tb = time.time() - t0
    M = Machine(ir.Module([open(f).read() for f in ll]))
    out = dict(build_s=tb, ir_functions=len(M.mod.fns), ir_names=sorted(M.mod.fns), solver="z3 " + z3.get_version_string())
    ss = [s for s in scenarios(tier) if only in s["name"]]
    # the longest first
    ss.sort(key=lambda s: -sum(3.0 * (1 + s["n"]) ** any(w in o for w in ("insert", "remove", "get", "write", "entry", "range")) for t in s["threads"] for o in t))
    deadline = t0 + secs
    res = []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 8)) as pool:
        for r in pool.imap_unordered(worker, [(s, deadline, 10 ** 9) for s in ss], chunksize=1):
            res.append(r)
            if "violation" in r:
                pool.terminate()
                break
    bad = [r for r in res if "violation" in r]
    kind, calls = validated(M, so)
    if kind == "unsupported" or kind == "disagree" or (kind != "ok" and not bad):
        raise SystemExit(f"no answer: {kind}: {calls}")
    out["validated_calls"] = calls if kind == "ok" else 0
    out["results"] = res
    out["scenarios"] = len(ss)
    out["wall_s"] = time.time() - t0
    json.dump(out, open(js, "w"), indent=1)
    if bad:
        r = bad[0]
        print("scenario", r["scenario"]["name"], "-", r["violation"], "- again:", r["again"])
        sys.exit(1)
    odd = [r for r in res if "unsupported" in r or "cut" in r]
    for r in odd[:5]:
        print("no answer:", r["scenario"]["name"], r.get("unsupported", "time limit"))
    print(len(res), "scenarios", sum(r["paths"] for r in res), "paths", sum(r["events"] for r in res), "events", sum(r["queries"] for r in res), "queries", round(time.time() - t0), "s")
    sys.exit(2 if odd else 0)


if __name__ == "__main__":
    main()
