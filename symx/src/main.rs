#![allow(static_mut_refs, dead_code, unused_imports)]
mod alloc;
mod engine;
mod scen;
mod sys;
mod types;
mod z3;

use engine::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::os::fd::RawFd;
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Track = alloc::Track;

pub struct Scen {
    pub name: String,
    pub bounds: String,
    /// Labels that must be reached on some feasible path (vacuity guard).
    pub labels: Vec<&'static str>,
    pub f: Box<dyn Fn()>,
}

const HANG_TICKS: u32 = 20;
/// Solver time does not count towards the progress limit of the code under test.
pub static IN_SOLVER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut PATHNO: u64 = 0;
static mut LAST_PATHNO: u64 = 0;
static mut TICKS: u32 = 0;
static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut OUT_FD: RawFd = -1;
static mut EXPECT_PANIC: bool = false;
static mut LAST_PANIC: String = String::new();

pub fn expect_panic(v: bool) -> bool {
    unsafe { std::mem::replace(&mut EXPECT_PANIC, v) }
}
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

extern "C" fn on_tick(_: libc::c_int) {
    unsafe {
        if IN_SOLVER.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        if PATHNO == LAST_PATHNO {
            TICKS += 1;
            if TICKS >= HANG_TICKS {
                if !SHARED.is_null() {
                    (*SHARED).hang = 1;
                }
                libc::_exit(97);
            }
        } else {
            LAST_PATHNO = PATHNO;
            TICKS = 0;
        }
    }
}
fn start_watchdog() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_tick as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
        let tv = libc::timeval { tv_sec: 1, tv_usec: 0 };
        let it = libc::itimerval { it_interval: tv, it_value: tv };
        #[cfg(target_os = "linux")]
        libc::syscall(libc::SYS_setitimer, 1, &it, 0);
    }
}

fn panic_text(info: &std::panic::PanicHookInfo<'_>) -> String {
    let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    format!("panic: {m} at {l}")
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = alloc::Set::to(false);
        let t = panic_text(info);
        unsafe {
            if EXPECT_PANIC {
                LAST_PANIC = t;
                return;
            }
        }
        violation(&t);
    }));
}

/// Run one path. True if it was feasible.
fn run_once(f: &dyn Fn()) -> bool {
    types::reset_instances();
    sys::reset_vals();
    alloc::forget();
    eng().begin_path();
    expect_panic(false);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    eng().fault_armed = false;
    eng().chaos = false;
    match r {
        Ok(()) => {
            alloc::check_released();
            if let Mode::Sym = eng().mode {
                eng().discharge();
            }
            true
        }
        Err(p) => {
            if p.is::<Infeasible>() {
                false
            } else if p.is::<Injected>() {
                violation("injected panic escaped the scenario")
            } else {
                violation("unexpected unwinding")
            }
        }
    }
}

// ---- worker ------------------------------------------------------------------------------

fn worker_violation(m: &str) -> ! {
    unsafe {
        let b = m.as_bytes();
        let n = b.len().min(4096);
        (&mut (*SHARED).msg)[..n].copy_from_slice(&b[..n]);
        (*SHARED).msg_len = n as u64;
        libc::_exit(98)
    }
}
fn send(s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.push(b'\n');
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(OUT_FD, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            unsafe { libc::_exit(96) }
        }
        o += n as usize;
    }
}
fn job_text(scen: usize, p: &[(Kind, u32)]) -> String {
    let mut s = format!("{scen}");
    for (k, c) in p {
        let l = match k {
            Kind::Choose => 'h',
            Kind::Cmp => 'c',
            Kind::Implied => 'i',
            Kind::Assume => 'a',
        };
        s.push_str(&format!(" {l}{c}"));
    }
    s
}
fn parse_job(s: &str) -> (usize, Vec<(Kind, u32)>) {
    let mut it = s.split(' ');
    let scen = it.next().unwrap().parse().unwrap();
    let p = it
        .map(|w| {
            let k = match w.as_bytes()[0] {
                b'h' => Kind::Choose,
                b'c' => Kind::Cmp,
                b'i' => Kind::Implied,
                _ => Kind::Assume,
            };
            (k, w[1..].parse().unwrap())
        })
        .collect();
    (scen, p)
}

fn worker(scens: &[Scen], in_fd: RawFd, out_fd: RawFd, shared: *mut Shared, opt: &Opt) -> ! {
    unsafe {
        SHARED = shared;
        OUT_FD = out_fd;
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install(shared);
    eng().z3 = Some(z3::Z3::new());
    eng().no_fast = opt.no_fast;
    hooks().violation = worker_violation;
    install_panic_hook();
    start_watchdog();
    let mut rd = LineReader::new(in_fd);
    loop {
        let line = match rd.read_blocking() {
            Some(l) => l,
            // runs the exit handlers, which write the profile of a coverage build
            None => std::process::exit(0),
        };
        let (si, prefix) = parse_job(&line);
        let t0 = Instant::now();
        run_job(si, &scens[si], &prefix, shared, opt);
        let e = eng();
        let s = std::mem::take(&mut e.st);
        let z = e.z3.as_mut().unwrap();
        let mut l = format!(
            "D {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
            si, s.paths, s.infeasible, s.forks, s.implied, s.fast, s.cmps, s.calls, s.obligations, s.vcs, s.validated,
            s.max_depth, s.max_vars, z.queries, z.sat, z.unsat, z.nanos,
            t0.elapsed().as_nanos()
        );
        z.queries = 0;
        z.sat = 0;
        z.unsat = 0;
        z.nanos = 0;
        for (n, c) in std::mem::take(&mut e.labels) {
            l.push_str(&format!(" {n}={c}"));
        }
        send(&l);
    }
}

fn run_job(si: usize, sc: &Scen, prefix: &[(Kind, u32)], shared: *mut Shared, opt: &Opt) {
    eng().z3.as_mut().unwrap().push();
    eng().trail.clear();
    for &(kind, cur) in prefix {
        eng().trail.push(Node { kind, cur, rem: 0, applied: false, pushed: false });
    }
    let t0 = Instant::now();
    let mut last_split = t0;
    loop {
        unsafe { PATHNO += 1 }
        let ok = run_once(&*sc.f);
        let e = eng();
        e.st.max_depth = e.st.max_depth.max(e.pos as u64);
        if e.pos < e.trail.len() {
            eprintln!("nondeterministic execution: path ended early");
            std::process::exit(4);
        }
        if ok {
            e.st.paths += 1;
            if unsafe { PATHNO } % opt.sample == 1 {
                validate(si, sc, opt);
            }
        } else {
            e.st.infeasible += 1;
        }
        if !eng().backtrack() {
            break;
        }
        unsafe {
            if std::ptr::read_volatile(&(*shared).want_work) != 0 && last_split.elapsed().as_millis() >= 30 {
                last_split = Instant::now();
                for p in eng().split() {
                    send(&format!("S {}", job_text(si, &p)));
                }
            }
        }
    }
    eng().z3.as_mut().unwrap().pop(1);
}

/// Take a model of the finished path and run the same scenario natively on those integers.
fn validate(si: usize, sc: &Scen, opt: &Opt) {
    let e = eng();
    let z = e.z3.as_mut().unwrap();
    if !z.check() {
        eprintln!("path condition of a completed path is unsatisfiable");
        std::process::exit(4);
    }
    let n = e.nvars;
    let vals = z.model(n);
    if opt.dump_smt {
        send(&format!("Q {}", z.to_smt2().replace('\n', "\u{1}")));
    }
    let choices: Vec<u32> = e.trail.iter().filter(|n| n.kind == Kind::Choose).map(|n| n.cur).collect();
    let (h, calls) = (e.cmp_hash, e.st.calls);
    let st = e.st.clone();
    let pos = e.pos;
    e.mode = Mode::Conc { vals: vals.clone(), choices: choices.clone(), next: 0 };
    e.log_on = false;
    let c0 = e.st.calls;
    let ok = run_once(&*sc.f);
    let e = eng();
    let dc = e.st.calls - c0;
    let h2 = e.cmp_hash;
    e.mode = Mode::Sym;
    e.log_on = true;
    e.st = st;
    e.pos = pos;
    let _ = calls;
    if !ok || h2 != h || dc == 0 && c0 != 0 && false {
        eprintln!("symbolic and concrete execution disagree in {} (model {:?}, choices {:?})", sc.name, vals, choices);
        std::process::exit(4);
    }
    e.st.validated += 1;
    let _ = si;
}

// ---- master ------------------------------------------------------------------------------

struct LineReader {
    fd: RawFd,
    buf: Vec<u8>,
    eof: bool,
}
impl LineReader {
    fn new(fd: RawFd) -> Self {
        LineReader { fd, buf: Vec::new(), eof: false }
    }
    fn fill(&mut self) {
        let mut t = [0u8; 65536];
        let n = unsafe { libc::read(self.fd, t.as_mut_ptr() as *mut _, t.len()) };
        if n <= 0 {
            self.eof = true;
        } else {
            self.buf.extend_from_slice(&t[..n as usize]);
        }
    }
    fn pop(&mut self) -> Option<String> {
        let i = self.buf.iter().position(|b| *b == b'\n')?;
        let l: Vec<u8> = self.buf.drain(..=i).collect();
        Some(String::from_utf8_lossy(&l[..l.len() - 1]).into_owned())
    }
    fn read_blocking(&mut self) -> Option<String> {
        loop {
            if let Some(l) = self.pop() {
                return Some(l);
            }
            if self.eof {
                return None;
            }
            self.fill();
        }
    }
}

struct Worker {
    pid: libc::pid_t,
    to: RawFd,
    rd: LineReader,
    shared: *mut Shared,
    job: Option<(usize, String)>,
}

struct Opt {
    sample: u64,
    no_fast: bool,
    dump_smt: bool,
    workers: usize,
    max_secs: u64,
}

fn spawn(scens: &[Scen], opt: &Opt) -> Worker {
    unsafe {
        let sh = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut Shared;
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        libc::pipe(a.as_mut_ptr());
        libc::pipe(b.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(a[1]);
            libc::close(b[0]);
            worker(scens, a[0], b[1], sh, opt);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        Worker { pid, to: a[1], rd: LineReader::new(b[0]), shared: sh, job: None }
    }
}

struct Violation {
    scen: usize,
    msg: String,
    choices: Vec<u32>,
    vals: Vec<i64>,
}

/// Rebuild the path condition of a worker's last path from its decision log and solve it.
fn solve_log(sh: *mut Shared) -> (Vec<u32>, Vec<i64>) {
    let mut z = z3::Z3::new();
    let s = unsafe { &*sh };
    let mut choices = Vec::new();
    let mut nv = 0u32;
    let t = |z: &z3::Z3, x: i64| if is_var(x) { z.var(var_ix(x)) } else { z.int(x) };
    for e in &s.ents[..s.count as usize] {
        match e.tag {
            L_VARS => nv = e.a as u32,
            L_CHOOSE => choices.push(e.a as u32),
            L_CHAIN => {
                for i in e.a + 1..e.a + e.b {
                    let l = z.lt(z.var(i as u32 - 1), z.var(i as u32));
                    z.assert(l);
                }
            }
            L_LT | L_NLT => {
                let mut l = z.lt(t(&z, e.a), t(&z, e.b));
                if e.tag == L_NLT {
                    l = z.not(l);
                }
                z.assert(l);
            }
            L_EQ | L_NE => {
                let mut l = z.eq(t(&z, e.a), t(&z, e.b));
                if e.tag == L_NE {
                    l = z.not(l);
                }
                z.assert(l);
            }
            _ => {}
        }
    }
    if !z.check() {
        eprintln!("path condition of the failing path is unsatisfiable");
        std::process::exit(4);
    }
    let vals = z.model(nv);
    (choices, vals)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn explore(scens: &[Scen], opt: &Opt, json: &str, replay_path: &str) -> i32 {
    let t0 = Instant::now();
    let mut queue: VecDeque<(usize, String)> = (0..scens.len()).map(|i| (i, format!("{i}"))).collect();
    let mut ws: Vec<Worker> = (0..opt.workers).map(|_| spawn(scens, opt)).collect();
    let mut per: Vec<[u64; 17]> = vec![[0; 17]; scens.len()];
    let mut labels: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); scens.len()];
    let mut smt: Vec<String> = Vec::new();
    let mut viol: Option<Violation> = None;
    let mut error: Option<String> = None;
    let mut timed_out = false;
    'outer: loop {
        // hand out work
        for w in ws.iter_mut() {
            if w.job.is_none() {
                if let Some((si, j)) = queue.pop_front() {
                    let mut b = j.clone().into_bytes();
                    b.push(b'\n');
                    let n = unsafe { libc::write(w.to, b.as_ptr() as *const _, b.len()) };
                    assert_eq!(n, b.len() as isize);
                    w.job = Some((si, j));
                }
            }
        }
        let idle = ws.iter().filter(|w| w.job.is_none()).count();
        if idle == ws.len() && queue.is_empty() {
            break;
        }
        let hungry = queue.len() < ws.len();
        for w in ws.iter() {
            unsafe { std::ptr::write_volatile(&mut (*w.shared).want_work, hungry as u64) }
        }
        let mut fds: Vec<libc::pollfd> =
            ws.iter().map(|w| libc::pollfd { fd: w.rd.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, 1000) };
        if t0.elapsed().as_secs() > opt.max_secs {
            timed_out = true;
            break;
        }
        for i in 0..ws.len() {
            if fds[i].revents == 0 {
                continue;
            }
            ws[i].rd.fill();
            while let Some(l) = ws[i].rd.pop() {
                if let Some(r) = l.strip_prefix("S ") {
                    let si: usize = r.split(' ').next().unwrap().parse().unwrap();
                    queue.push_back((si, r.to_string()));
                } else if let Some(r) = l.strip_prefix("Q ") {
                    if smt.len() < 200 {
                        smt.push(r.replace('\u{1}', "\n"));
                    }
                } else if let Some(r) = l.strip_prefix("D ") {
                    let mut it = r.split(' ');
                    let si: usize = it.next().unwrap().parse().unwrap();
                    for k in 0..17 {
                        let v: u64 = it.next().unwrap().parse().unwrap();
                        if k == 10 || k == 11 {
                            per[si][k] = per[si][k].max(v);
                        } else {
                            per[si][k] += v;
                        }
                    }
                    for w in it {
                        let (n, c) = w.split_once('=').unwrap();
                        *labels[si].entry(n.to_string()).or_insert(0) += c.parse::<u64>().unwrap();
                    }
                    ws[i].job = None;
                }
            }
            if ws[i].rd.eof {
                let mut status = 0;
                unsafe { libc::waitpid(ws[i].pid, &mut status, 0) };
                let sh = ws[i].shared;
                let si = ws[i].job.as_ref().map(|j| j.0).unwrap_or(0);
                let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { -libc::WTERMSIG(status) };
                let msg = if code == 98 {
                    let s = unsafe { &*sh };
                    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
                } else if code == 97 {
                    "does not terminate (no progress within the CPU limit of one path)".to_string()
                } else if code == -libc::SIGKILL {
                    error = Some("worker killed (out of memory?)".into());
                    break 'outer;
                } else if code < 0 {
                    format!("crashed with signal {}", -code)
                } else if code == 77 {
                    "memory error reported by AddressSanitizer".to_string()
                } else {
                    error = Some(format!("worker exited with {code} in {}", scens[si].name));
                    break 'outer;
                };
                let (choices, vals) = solve_log(sh);
                viol = Some(Violation { scen: si, msg, choices, vals });
                break 'outer;
            }
        }
    }
    let graceful = std::env::var_os("LLVM_PROFILE_FILE").is_some() && viol.is_none() && error.is_none() && !timed_out;
    if graceful {
        // every worker holds copies of the pipes of the earlier ones: close all, then wait
        for w in ws.iter().rev() {
            unsafe {
                libc::close(w.to);
                libc::waitpid(w.pid, std::ptr::null_mut(), 0);
            }
        }
    }
    for w in ws.iter() {
        if graceful {
            break;
        }
        unsafe {
            libc::kill(w.pid, libc::SIGKILL);
            libc::waitpid(w.pid, std::ptr::null_mut(), 0);
        }
    }
    if error.is_none() && timed_out {
        error = Some(format!("time limit of {} s reached before the bound was exhausted", opt.max_secs));
    }
    if viol.is_none() && error.is_none() {
        for (i, s) in scens.iter().enumerate() {
            for l in &s.labels {
                if !labels[i].contains_key(*l) {
                    error = Some(format!("vacuous: {} never reached {l}", s.name));
                }
            }
        }
    }
    // ---- report
    let names = [
        "paths", "infeasible_paths", "branch_decisions", "implied_decisions", "chain_decisions", "comparisons", "api_calls",
        "obligations", "vc_queries", "paths_replayed_natively", "max_depth", "max_symbolic_vars", "solver_queries",
        "sat", "unsat", "solver_ns", "worker_ns",
    ];
    let mut o = String::from("{");
    o.push_str(&format!("\"wall_s\": {:.2}, \"solver\": {}, \"workers\": {}, ", t0.elapsed().as_secs_f64(), jstr(&z3::Z3::version()), opt.workers));
    o.push_str("\"scenarios\": [");
    for (i, s) in scens.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("\n {{\"name\": {}, \"bounds\": {}", jstr(&s.name), jstr(&s.bounds)));
        for (k, n) in names.iter().enumerate() {
            o.push_str(&format!(", \"{n}\": {}", per[i][k]));
        }
        o.push_str(", \"reached\": {");
        for (j, (l, c)) in labels[i].iter().enumerate() {
            o.push_str(&format!("{}{}: {}", if j > 0 { ", " } else { "" }, jstr(l), c));
        }
        o.push_str("}}");
    }
    o.push_str("\n], \"total\": {");
    for (k, n) in names.iter().enumerate() {
        let t: u64 = if k == 10 || k == 11 { per.iter().map(|p| p[k]).max().unwrap_or(0) } else { per.iter().map(|p| p[k]).sum() };
        o.push_str(&format!("{}\"{n}\": {}", if k > 0 { ", " } else { "" }, t));
    }
    o.push('}');
    let mut rc = 0;
    if let Some(v) = &viol {
        rc = 1;
        let f = format!(
            "# {}\nscenario {}\nmessage {}\nchoices {}\nvals {}\n",
            "solver counterexample: scenario, choices and a model of the path condition",
            scens[v.scen].name,
            v.msg.replace('\n', " "),
            v.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
            v.vals.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
        );
        std::fs::write(replay_path, f).unwrap();
        o.push_str(&format!(", \"violation\": {{\"scenario\": {}, \"message\": {}}}", jstr(&scens[v.scen].name), jstr(&v.msg)));
    }
    if let Some(e) = &error {
        eprintln!("error: {e}");
        o.push_str(&format!(", \"error\": {}", jstr(e)));
        rc = 2;
    }
    o.push_str("}\n");
    std::fs::write(json, o).unwrap();
    if !smt.is_empty() {
        let mut f = std::fs::File::create(format!("{json}.smt2s")).unwrap();
        for s in smt {
            writeln!(f, "{s}\n(check-sat)\n;----").unwrap();
        }
    }
    rc
}

// ---- native replay -----------------------------------------------------------------------

fn replay_violation(m: &str) -> ! {
    let e = eng();
    if let Some(t) = e.trace.take() {
        for l in t {
            println!("  {l}");
        }
    }
    println!("REPRODUCED: {m}");
    std::process::exit(1)
}
extern "C" fn replay_tick(_: libc::c_int) {
    unsafe {
        TICKS += 1;
        if TICKS >= HANG_TICKS + 5 {
            let m = b"REPRODUCED: does not terminate\n";
            libc::write(1, m.as_ptr() as *const _, m.len());
            libc::_exit(1);
        }
    }
}
extern "C" fn replay_sig(s: libc::c_int) {
    unsafe {
        let m = b"REPRODUCED: crashed with a fatal signal\n";
        libc::write(1, m.as_ptr() as *const _, m.len());
        let _ = s;
        libc::_exit(1);
    }
}
fn replay(prop: &str, tier: &str, file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).or(if l == k { Some("") } else { None })).unwrap_or("").to_string();
    let name = get("scenario");
    let nums = |s: String| -> Vec<i64> { s.split_whitespace().map(|x| x.parse().unwrap()).collect() };
    let vals = nums(get("vals"));
    let choices: Vec<u32> = nums(get("choices")).into_iter().map(|x| x as u32).collect();
    let scens = scen::scenarios(prop, tier);
    let sc = match scens.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no scenario {name}");
            return 3;
        }
    };
    install(std::ptr::null_mut());
    hooks().violation = replay_violation;
    install_panic_hook();
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = replay_tick as *const () as usize;
        libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
        let tv = libc::timeval { tv_sec: 1, tv_usec: 0 };
        let it = libc::itimerval { it_interval: tv, it_value: tv };
        libc::syscall(libc::SYS_setitimer, 1, &it, 0);
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = replay_sig as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    let e = eng();
    e.trace = Some(Vec::new());
    e.mode = Mode::Conc { vals, choices, next: 0 };
    run_once(&*sc.f);
    if let Some(t) = eng().trace.take() {
        for l in t {
            println!("  {l}");
        }
    }
    println!("NOT REPRODUCED");
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let val = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = val("--property").unwrap_or_default();
    let tier = val("--tier").unwrap_or("quick".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("explore") => {
            let mut scens = if prop == "ALL" {
                // every property in one run, for experiments
                let mut v = Vec::new();
                for i in 1..=18 {
                    let p = format!("P{i:02}");
                    v.extend(scen::scenarios(&p, &tier).into_iter().map(|mut s| {
                        s.name = format!("{p}:{}", s.name);
                        s
                    }));
                }
                v
            } else {
                scen::scenarios(&prop, &tier)
            };
            if let Some(f) = val("--only") {
                scens.retain(|s| s.name.contains(&f));
            }
            if let Some(f) = val("--names") {
                let t = std::fs::read_to_string(f).unwrap();
                let at: BTreeMap<&str, usize> = t.lines().enumerate().map(|(i, l)| (l, i)).collect();
                scens.retain(|s| at.contains_key(s.name.as_str()));
                scens.sort_by_key(|s| at[s.name.as_str()]);
            }
            if scens.is_empty() {
                eprintln!("no scenarios");
                std::process::exit(2);
            }
            let opt = Opt {
                sample: val("--sample").map(|s| s.parse().unwrap()).unwrap_or(997),
                no_fast: a.iter().any(|x| x == "--no-fast"),
                dump_smt: a.iter().any(|x| x == "--dump-smt"),
                workers: val("--workers").map(|s| s.parse().unwrap()).unwrap_or(8),
                max_secs: val("--max-secs").map(|s| s.parse().unwrap()).unwrap_or(700),
            };
            let rc = explore(&scens, &opt, &val("--json").unwrap_or("/dev/null".into()), &val("--replay-out").unwrap_or("/dev/null".into()));
            std::process::exit(rc);
        }
        Some("replay") => std::process::exit(replay(&prop, &tier, &a[2])),
        Some("list") => {
            for s in scen::scenarios(&prop, &tier) {
                println!("{} | {}", s.name, s.bounds);
            }
        }
        _ => {
            eprintln!("usage: symx explore|replay|list --property P01 --tier quick");
            std::process::exit(2);
        }
    }
}
