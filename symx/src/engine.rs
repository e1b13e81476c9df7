//! Path-exploring symbolic execution of the compiled code under test.
//!
//! Keys and values handed to palmtree are symbolic terms. The code under test can observe a
//! key only through `Ord`/`Clone`/`Drop` (and `Debug`/`Hash` where it asks for them), so each
//! comparison reaches `cmp` below, which asks Z3 which outcomes are possible under the current
//! path condition and explores each of them (depth first, by re-execution). Whatever is
//! asserted at the end of a path is decided for all values satisfying its path condition.
use crate::z3::{Ast, Z3};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Term = i64;
const VAR: i64 = 1 << 60;
pub fn is_var(t: Term) -> bool {
    t >= VAR
}
pub fn var_ix(t: Term) -> u32 {
    (t - VAR) as u32
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_i64(&mut self, v: i64) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
}
type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

// ---- decision trail ---------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Choose,
    Cmp,
    Implied,
    Assume,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub cur: u32,
    /// Choose: number of options (0 = alternatives belong to someone else). Cmp: bit mask of outcomes left.
    pub rem: u32,
    pub applied: bool,
    pub pushed: bool,
}

// ---- log shared with the master (to rebuild a path after a crash) ------------------------

pub const L_CHAIN: u64 = 1; // a = first var index, b = count
pub const L_CHOOSE: u64 = 2; // a = choice
pub const L_LT: u64 = 3; // a < b
pub const L_EQ: u64 = 4; // a = b
pub const L_VARS: u64 = 5; // a = number of vars so far
pub const L_NE: u64 = 6; // a != b (negated obligation)
pub const L_NLT: u64 = 7; // !(a < b) (negated obligation)

#[repr(C)]
#[derive(Clone, Copy)]
pub struct LogEnt {
    pub tag: u64,
    pub a: i64,
    pub b: i64,
}
#[repr(C)]
pub struct Shared {
    pub count: u64,
    pub want_work: u64,
    pub hang: u64,
    pub msg_len: u64,
    pub msg: [u8; 4096],
    pub ents: [LogEnt; LOG_CAP],
}
pub const LOG_CAP: usize = 1 << 19;

// ---- statistics -------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub implied: u64,
    pub fast: u64,
    pub cmps: u64,
    pub calls: u64,
    pub obligations: u64,
    pub vcs: u64,
    pub validated: u64,
    pub max_depth: u64,
    pub max_vars: u64,
}

pub enum Mode {
    Sym,
    /// Concrete re-run: values of the variables and the recorded choices.
    Conc { vals: Vec<i64>, choices: Vec<u32>, next: usize },
}

pub struct Engine {
    pub mode: Mode,
    pub z3: Option<Z3>,
    vars: Vec<Ast>,
    pub nvars: u32,
    pub trail: Vec<Node>,
    pub pos: usize,
    memo: FxMap<(i64, i64), Ordering>,
    chain_of: Vec<(u32, i64)>, // per var: (chain id, rank); chain id 0 = none
    nchains: u32,
    chains: Vec<Vec<Term>>,
    ival: FxMap<(u32, u32), (i64, i64, i64)>, // (var, chain) -> (lo, hi, eq or MIN)
    pend: Vec<(Term, Term, bool)>, // obligations: (a, b, true: a<b / false: a=b)
    pub st: Stats,
    pub shared: *mut Shared,
    pub log_on: bool,
    pub trace: Option<Vec<String>>,
    pub cmp_hash: u64,
    pub labels: Vec<(&'static str, u64)>,
    pub no_fast: bool,
    // fault injection (P17): user callbacks may panic, at most once per path
    pub fault_armed: bool,
    pub fault_fired: bool,
    // arbitrary ordering (P18)
    pub chaos: bool,
    pub chaos_budget: u32,
}

static mut ENG: *mut Engine = std::ptr::null_mut();
#[inline(always)]
pub fn eng() -> &'static mut Engine {
    unsafe { &mut *ENG }
}
pub fn install(shared: *mut Shared) {
    let e = Engine {
        mode: Mode::Sym,
        z3: None,
        vars: Vec::new(),
        nvars: 0,
        trail: Vec::new(),
        pos: 0,
        memo: Default::default(),
        chain_of: Vec::new(),
        nchains: 0,
        chains: Vec::new(),
        ival: Default::default(),
        pend: Vec::new(),
        st: Stats::default(),
        shared,
        log_on: true,
        trace: None,
        cmp_hash: 0,
        labels: Vec::new(),
        no_fast: false,
        fault_armed: false,
        fault_fired: false,
        chaos: false,
        chaos_budget: 0,
    };
    unsafe { ENG = Box::into_raw(Box::new(e)) }
}

/// Payload used to abandon a path whose assumption is false.
pub struct Infeasible;
/// Payload of an injected callback panic.
pub struct Injected;

impl Engine {
    fn log(&mut self, tag: u64, a: i64, b: i64) {
        if self.log_on && !self.shared.is_null() {
            unsafe {
                let s = &mut *self.shared;
                let i = s.count as usize;
                if i >= LOG_CAP {
                    eprintln!("decision log overflow");
                    std::process::exit(4);
                }
                s.ents[i] = LogEnt { tag, a, b };
                s.count = (i + 1) as u64;
            }
        }
    }

    pub fn begin_path(&mut self) {
        self.pos = 0;
        self.nvars = 0;
        self.memo.clear();
        self.chain_of.clear();
        self.nchains = 0;
        self.chains.clear();
        self.chains.push(Vec::new());
        self.ival.clear();
        self.pend.clear();
        self.cmp_hash = 0;
        self.fault_armed = false;
        self.fault_fired = false;
        self.chaos = false;
        if self.log_on && !self.shared.is_null() {
            unsafe { (*self.shared).count = 0 }
        }
    }

    fn ast(&mut self, t: Term) -> Ast {
        let z = self.z3.as_ref().unwrap();
        if is_var(t) {
            let i = var_ix(t);
            while self.vars.len() <= i as usize {
                let n = self.vars.len() as u32;
                let v = z.var(n);
                self.vars.push(v);
            }
            self.vars[i as usize]
        } else {
            z.int(t)
        }
    }

    fn new_var(&mut self, chain: u32, rank: i64) -> Term {
        let t = VAR + self.nvars as i64;
        self.nvars += 1;
        self.chain_of.push((chain, rank));
        if self.nvars as u64 > self.st.max_vars {
            self.st.max_vars = self.nvars as u64;
        }
        self.log(L_VARS, self.nvars as i64, 0);
        t
    }

    /// An unconstrained symbolic variable.
    pub fn fresh(&mut self) -> Term {
        self.new_var(0, 0)
    }

    /// n symbolic variables v0 < v1 < ... (asserted to the solver).
    pub fn chain(&mut self, n: usize) -> Vec<Term> {
        self.nchains += 1;
        let id = self.nchains;
        let first = self.nvars;
        let v: Vec<Term> = (0..n).map(|i| self.new_var(id, i as i64)).collect();
        self.chains.push(v.clone());
        self.log(L_CHAIN, first as i64, n as i64);
        if let Mode::Sym = self.mode {
            if self.step_node(Kind::Assume) {
                self.trail.push(Node { kind: Kind::Assume, cur: 0, rem: 0, applied: true, pushed: false });
                self.assert_chain(&v);
            } else {
                let p = self.pos - 1;
                if !self.trail[p].applied {
                    self.trail[p].applied = true;
                    self.assert_chain(&v);
                }
            }
        }
        v
    }

    fn assert_chain(&mut self, v: &[Term]) {
        for w in v.windows(2) {
            let (a, b) = (self.ast(w[0]), self.ast(w[1]));
            let z = self.z3.as_mut().unwrap();
            let l = z.lt(a, b);
            z.assert(l);
        }
    }

    /// Advance to the next trail position; true if a node has to be created there.
    fn step_node(&mut self, kind: Kind) -> bool {
        let p = self.pos;
        self.pos += 1;
        if p < self.trail.len() {
            let k = self.trail[p].kind;
            let same = k == kind || (kind == Kind::Cmp && k == Kind::Implied);
            if !same {
                eprintln!("nondeterministic execution: trail {k:?} vs {kind:?} at {p}");
                std::process::exit(4);
            }
            false
        } else {
            true
        }
    }

    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let c = match &mut self.mode {
            Mode::Conc { choices, next, .. } => {
                let c = choices.get(*next).copied().unwrap_or(0) as usize;
                *next += 1;
                c.min(n - 1)
            }
            Mode::Sym => {
                if self.step_node(Kind::Choose) {
                    let z = self.z3.as_mut().unwrap();
                    z.push();
                    self.trail.push(Node { kind: Kind::Choose, cur: 0, rem: n as u32, applied: true, pushed: true });
                    self.st.forks += 1;
                    0
                } else {
                    let p = self.pos - 1;
                    if !self.trail[p].applied {
                        self.z3.as_mut().unwrap().push();
                        self.trail[p].applied = true;
                        self.trail[p].pushed = true;
                    }
                    self.trail[p].cur as usize
                }
            }
        };
        self.log(L_CHOOSE, c as i64, 0);
        c
    }

    fn conc_val(vals: &[i64], t: Term) -> i64 {
        if is_var(t) {
            vals.get(var_ix(t) as usize).copied().unwrap_or(1_000_000 + t)
        } else {
            t
        }
    }

    fn chain_rank(&self, t: Term) -> Option<(u32, i64)> {
        if is_var(t) {
            let (c, r) = self.chain_of[var_ix(t) as usize];
            if c == 0 {
                None
            } else {
                Some((c, r))
            }
        } else {
            Some((0, t))
        }
    }

    /// Order facts that follow from already asserted ones by transitivity with a chain.
    fn fast(&self, a: Term, b: Term) -> Option<Ordering> {
        match (self.chain_rank(a), self.chain_rank(b)) {
            (Some((ca, ra)), Some((cb, rb))) if ca == cb => Some(ra.cmp(&rb)),
            (None, Some((c, r))) => self.fast_iv(var_ix(a), c, r),
            (Some((c, r)), None) => self.fast_iv(var_ix(b), c, r).map(Ordering::reverse),
            (Some((ca, ra)), Some((cb, rb))) => {
                // two chains: each chain variable also has intervals against the other chain
                if is_var(a) {
                    if let Some(o) = self.fast_iv(var_ix(a), cb, rb) {
                        return Some(o);
                    }
                }
                if is_var(b) {
                    if let Some(o) = self.fast_iv(var_ix(b), ca, ra) {
                        return Some(o.reverse());
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn fast_iv(&self, x: u32, c: u32, r: i64) -> Option<Ordering> {
        let &(lo, hi, eq) = self.ival.get(&(x, c))?;
        if eq != i64::MIN {
            return Some(eq.cmp(&r));
        }
        if r <= lo {
            Some(Ordering::Greater)
        } else if r >= hi {
            Some(Ordering::Less)
        } else {
            None
        }
    }
    fn note(&mut self, x: Term, y: Term, o: Ordering) {
        // x (o) y, record x against y's chain
        if !is_var(x) {
            return;
        }
        if let Some((c, r)) = self.chain_rank(y) {
            let e = self.ival.entry((var_ix(x), c)).or_insert((i64::MIN + 1, i64::MAX, i64::MIN));
            match o {
                Ordering::Less => e.1 = e.1.min(r),
                Ordering::Greater => e.0 = e.0.max(r),
                Ordering::Equal => e.2 = r,
            }
        }
    }

    pub fn cmp(&mut self, a: Term, b: Term) -> Ordering {
        self.st.cmps += 1;
        let o = self.cmp0(a, b);
        self.cmp_hash = (self.cmp_hash.rotate_left(7) ^ ((o as i8 + 2) as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        o
    }

    fn cmp0(&mut self, a: Term, b: Term) -> Ordering {
        if let Mode::Conc { vals, .. } = &self.mode {
            return Self::conc_val(vals, a).cmp(&Self::conc_val(vals, b));
        }
        if a == b {
            return Ordering::Equal;
        }
        if !is_var(a) && !is_var(b) {
            return a.cmp(&b);
        }
        let (x, y, sw) = if a <= b { (a, b, false) } else { (b, a, true) };
        let back = |o: Ordering| if sw { o.reverse() } else { o };
        if let Some(&o) = self.memo.get(&(x, y)) {
            return back(o);
        }
        if !self.no_fast {
            if let Some(o) = self.fast(x, y) {
                self.st.fast += 1;
                return back(o);
            }
        }
        const ORD: [Ordering; 3] = [Ordering::Less, Ordering::Equal, Ordering::Greater];
        let o;
        if self.step_node(Kind::Cmp) {
            let (ax, ay) = (self.ast(x), self.ast(y));
            let mut feas = 0u32;
            for (i, &k) in ORD.iter().enumerate() {
                // the path condition is satisfiable, so the last outcome is if the others are not
                if i == 2 && feas == 0 {
                    feas = 4;
                    break;
                }
                let z = self.z3.as_mut().unwrap();
                let at = atom(z, ax, ay, k);
                z.push();
                z.assert(at);
                if z.check() {
                    feas |= 1 << i;
                }
                z.pop(1);
            }
            let first = feas.trailing_zeros();
            let rem = feas & !(1 << first);
            o = ORD[first as usize];
            if rem == 0 {
                self.trail.push(Node { kind: Kind::Implied, cur: first, rem: 0, applied: true, pushed: false });
                self.st.implied += 1;
            } else {
                let z = self.z3.as_mut().unwrap();
                let at = atom(z, ax, ay, o);
                z.push();
                z.assert(at);
                self.trail.push(Node { kind: Kind::Cmp, cur: first, rem, applied: true, pushed: true });
                self.st.forks += 1;
            }
        } else {
            let p = self.pos - 1;
            o = ORD[self.trail[p].cur as usize];
            if !self.trail[p].applied {
                if self.trail[p].kind == Kind::Cmp {
                    let (ax, ay) = (self.ast(x), self.ast(y));
                    let z = self.z3.as_mut().unwrap();
                    let at = atom(z, ax, ay, o);
                    z.push();
                    z.assert(at);
                    self.trail[p].pushed = true;
                }
                self.trail[p].applied = true;
            }
        }
        self.memo.insert((x, y), o);
        self.note(x, y, o);
        self.note(y, x, o.reverse());
        match o {
            Ordering::Less => self.log(L_LT, x, y),
            Ordering::Equal => self.log(L_EQ, x, y),
            Ordering::Greater => self.log(L_LT, y, x),
        }
        back(o)
    }

    /// Restrict the path to a OP b (prunes the alternatives).
    pub fn assume_lt(&mut self, a: Term, b: Term) {
        if self.cmp(a, b) != Ordering::Less {
            std::panic::resume_unwind(Box::new(Infeasible));
        }
    }

    // ---- obligations -------------------------------------------------------------------
    pub fn must_eq(&mut self, a: Term, b: Term) {
        self.st.obligations += 1;
        if let Mode::Conc { vals, .. } = &self.mode {
            let (x, y) = (Self::conc_val(vals, a), Self::conc_val(vals, b));
            if x != y {
                violation(&format!("expected equal: {} vs {}", show(a), show(b)));
            }
            return;
        }
        if a != b {
            self.pend.push((a, b, false));
        }
    }
    pub fn must_lt(&mut self, a: Term, b: Term) {
        self.st.obligations += 1;
        if let Mode::Conc { vals, .. } = &self.mode {
            let (x, y) = (Self::conc_val(vals, a), Self::conc_val(vals, b));
            if x >= y {
                violation(&format!("expected ascending: {} < {}", show(a), show(b)));
            }
            return;
        }
        if is_var(a) || is_var(b) {
            self.pend.push((a, b, true));
        } else if a >= b {
            violation(&format!("expected ascending: {} < {}", show(a), show(b)));
        }
    }
    /// Decide the collected obligations under the path condition.
    pub fn discharge(&mut self) {
        if self.pend.is_empty() {
            return;
        }
        self.pend.sort();
        self.pend.dedup();
        let pend = std::mem::take(&mut self.pend);
        let mut neg = Vec::with_capacity(pend.len());
        for &(a, b, lt) in &pend {
            let (x, y) = (self.ast(a), self.ast(b));
            let z = self.z3.as_mut().unwrap();
            let p = if lt { z.lt(x, y) } else { z.eq(x, y) };
            neg.push(z.not(p));
        }
        let z = self.z3.as_mut().unwrap();
        let o = z.or(&neg);
        z.push();
        z.assert(o);
        let bad = z.check();
        self.st.vcs += 1;
        if bad {
            let n = self.nvars;
            let vals = self.z3.as_mut().unwrap().model(n);
            for &(a, b, lt) in &pend {
                let (x, y) = (Self::conc_val(&vals, a), Self::conc_val(&vals, b));
                if (lt && x >= y) || (!lt && x != y) {
                    self.log(if lt { L_NLT } else { L_NE }, a, b);
                    violation(&format!(
                        "obligation fails: {} {} {}",
                        show(a),
                        if lt { "<" } else { "==" },
                        show(b)
                    ));
                }
            }
            violation("obligation fails");
        }
        self.z3.as_mut().unwrap().pop(1);
        self.pend = pend;
        self.pend.clear();
    }

    // ---- backtracking ------------------------------------------------------------------
    /// Move to the next unexplored alternative. False when the subtree is exhausted.
    pub fn backtrack(&mut self) -> bool {
        while let Some(mut n) = self.trail.pop() {
            if n.pushed {
                self.z3.as_mut().unwrap().pop(1);
            }
            let next = match n.kind {
                Kind::Choose if n.cur + 1 < n.rem => Some((n.cur + 1, n.rem)),
                Kind::Cmp if n.rem != 0 => {
                    let f = n.rem.trailing_zeros();
                    Some((f, n.rem & !(1 << f)))
                }
                _ => None,
            };
            if let Some((cur, rem)) = next {
                n.cur = cur;
                n.rem = rem;
                n.applied = false;
                n.pushed = false;
                self.trail.push(n);
                return true;
            }
        }
        false
    }

    pub fn reset_trail(&mut self) {
        let n = self.trail.iter().filter(|n| n.pushed).count() as u32;
        if let Some(z) = self.z3.as_mut() {
            z.pop(n);
            // assumptions made before the first push live at level 0: wrap each job in a level
        }
        self.trail.clear();
    }

    /// Give away the alternatives of the shallowest open node.
    pub fn split(&mut self) -> Vec<Vec<(Kind, u32)>> {
        for i in 0..self.trail.len() {
            let n = self.trail[i].clone();
            let mut alts = Vec::new();
            match n.kind {
                Kind::Choose => alts.extend(n.cur + 1..n.rem),
                Kind::Cmp => alts.extend((0..3).filter(|b| n.rem >> b & 1 == 1)),
                _ => {}
            }
            if alts.is_empty() {
                continue;
            }
            self.trail[i].rem = 0;
            let base: Vec<(Kind, u32)> = self.trail[..i].iter().map(|n| (n.kind, n.cur)).collect();
            return alts
                .into_iter()
                .map(|a| {
                    let mut p = base.clone();
                    p.push((n.kind, a));
                    p
                })
                .collect();
        }
        Vec::new()
    }

    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn reach(&mut self, l: &'static str) {
        for e in self.labels.iter_mut() {
            if std::ptr::eq(e.0, l) || e.0 == l {
                e.1 += 1;
                return;
            }
        }
        self.labels.push((l, 1));
    }
}

pub fn atom(z: &Z3, a: Ast, b: Ast, o: Ordering) -> Ast {
    match o {
        Ordering::Less => z.lt(a, b),
        Ordering::Equal => z.eq(a, b),
        Ordering::Greater => z.lt(b, a),
    }
}

pub fn show(t: Term) -> String {
    if let Mode::Conc { vals, .. } = &eng().mode {
        return format!("{}", Engine::conc_val(vals, t));
    }
    if is_var(t) {
        format!("v{}", var_ix(t))
    } else {
        format!("{t}")
    }
}

/// Called on any property violation: reports it (with the current path) and ends the process.
pub fn violation(msg: &str) -> ! {
    (hooks().violation)(msg)
}
pub struct Hooks {
    pub violation: fn(&str) -> !,
}
static mut HOOKS: Hooks = Hooks { violation: default_violation };
fn default_violation(m: &str) -> ! {
    eprintln!("violation: {m}");
    std::process::exit(1)
}
pub fn hooks() -> &'static mut Hooks {
    unsafe { &mut *std::ptr::addr_of_mut!(HOOKS) }
}

// ---- conveniences -----------------------------------------------------------------------
pub fn choose(n: usize) -> usize {
    eng().choose(n)
}
pub fn choose_in(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}
pub fn fresh() -> Term {
    eng().fresh()
}
pub fn cmp(a: Term, b: Term) -> Ordering {
    eng().cmp(a, b)
}
pub fn reach(l: &'static str) {
    eng().reach(l)
}

#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => { if $crate::engine::eng().tracing() { let s = format!($($a)*); $crate::engine::eng().trace.as_mut().unwrap().push(s); } }
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { { $crate::engine::eng().st.obligations += 1; if !($c) { $crate::engine::violation(&format!($($a)*)); } } }
}
