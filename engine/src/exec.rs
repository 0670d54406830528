//! Symbolic executor over the parsed IR.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[path = "merge.rs"]
mod merge;
#[path = "threads.rs"]
mod threads;

pub const UNINIT: T = u32::MAX;

#[derive(Clone, Debug)]
pub enum Val {
    U,
    S(T),
    V(Rc<Vec<T>>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    GlobalConst,
    GlobalMut,
    Stack,
    Heap,
    Buf,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Rc<Vec<T>>,
}

#[derive(Clone)]
pub struct Frame<'m> {
    f: &'m Func,
    body: &'m Body,
    bb: u32,
    ip: usize,
    prev: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret_dst: Option<u32>,
    ret_bb: Option<u32>,
}

#[derive(Clone)]
pub enum Ev {
    Sym(Vec<T>),
    Choose(u64),
    /// the events that follow belong to this thread
    Thread(u8),
}

#[derive(Clone)]
pub struct State<'m> {
    frames: Vec<Frame<'m>>,
    mem: FMap<u32, Rc<Obj>>,
    freed: Rc<BTreeSet<u32>>,
    next: u32,
    /// vf_alloc calls so far
    buffers: u32,
    /// the other thread, in jobs with two
    thr: Option<Box<threads::Threads<'m>>>,
    pc: Vec<(T, Rc<Vec<u32>>)>,
    pcset: HashSet<T, FxB>,
    /// changes whenever the path condition grows
    pcver: u64,
    /// terms with only one value under the path condition
    known: FMap<T, T>,
    /// terms that were compared, with an outcome the path condition implies
    settled: FMap<T, u32>,
    model: Rc<FMap<u32, u128>>,
    trace: Vec<Ev>,
    tpos: usize,
    run: usize,
    results: Vec<Vec<Vec<T>>>,
    panic_ok: Option<T>,
    steps: u64,
    covers: BTreeSet<u32>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(String, String),
    Unsupported(String),
    Inconclusive(String),
    /// re-execute the current instruction (after forking)
    Retry,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub cache_words: Vec<u64>,
    pub run: usize,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Outcome {
    pub paths: u64,
    pub panics_ok: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub joins: u64,
    /// stopped because it forks too often without joins
    pub again: bool,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_syntactic: u64,
    pub mem_checks: u64,
    pub covers: BTreeSet<u32>,
    pub violation: Option<Violation>,
    pub witness: Option<(Vec<String>, Vec<String>)>,
    /// cpu -> words of the feature detection cache after detection
    pub caches: BTreeMap<String, Vec<u64>>,
    pub error: Option<String>,
    pub funcs: BTreeMap<String, u64>,
    pub intrinsics: BTreeSet<String>,
}

/// Which violations a job judges, written `a1+a18+r+m+p+f`: `aN` the assertions of property N
/// (`a` all of them), `r` results that differ between the CPUs of the job, `m` memory and other
/// undefined behaviour, `p` panics, `f` instructions the CPU lacks.
#[derive(Clone, Debug, Default)]
pub struct Judge {
    pub all: bool,
    pub props: Vec<u64>,
    pub r: bool,
    pub m: bool,
    pub p: bool,
    pub f: bool,
    /// every buffer starts at `off` times its alignment after a page boundary
    pub off: u64,
}

impl Judge {
    pub fn parse(s: &str) -> Judge {
        let mut j = Judge { off: 1, ..Judge::default() };
        for t in s.split('+') {
            match t {
                "a" => j.all = true,
                "r" => j.r = true,
                "m" => j.m = true,
                "p" => j.p = true,
                "f" => j.f = true,
                _ if t.starts_with('o') => j.off = t[1..].parse().expect("offset"),
                _ => match t.strip_prefix('a').and_then(|x| x.parse().ok()) {
                    Some(n) => j.props.push(n),
                    None => panic!("judge {s}"),
                },
            }
        }
        j
    }
    pub fn assert(&self, id: u64) -> bool {
        self.all || self.props.contains(&(id / 1000))
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub harness: String,
    pub params: Vec<u64>,
    pub cpus: Vec<String>,
    /// which violations count
    pub judge: Judge,
    pub inputs: Option<Vec<Vec<u8>>>,
    pub max_paths: u64,
    pub max_steps: u64,
}

/// result register of the instruction being executed
fn here(st: &State) -> Option<u32> {
    let f = st.frames.last().unwrap();
    f.body.blocks[f.bb as usize][f.ip].dst
}

pub fn cpu_features(name: &str) -> Option<Vec<&'static str>> {
    let base = vec!["x87", "cmov", "cx8", "fxsr", "mmx", "sse", "sse2"];
    let add: &[&str] = match name {
        "sse2" => &[],
        "sse3" => &["sse3"],
        "ssse3" => &["sse3", "ssse3"],
        "sse41" => &["sse3", "ssse3", "sse4.1"],
        "avx" => &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "xsave", "avx"],
        "avx2" => &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "xsave", "avx", "avx2", "crc32"],
        // AVX2 reported by the processor but the operating system does not save the upper halves
        "avx2noos" => &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"],
        "neon" => return Some(vec!["neon", "fp-armv8", "v8a", "outline-atomics"]),
        "simd128" => return Some(vec!["simd128", "bulk-memory", "mutable-globals", "nontrapping-fptoint", "sign-ext", "reference-types", "multivalue"]),
        _ => return None,
    };
    let mut v = base;
    v.extend_from_slice(add);
    Some(v)
}

fn cpuid(cpu: &str, leaf: u32, sub: u32) -> [u32; 4] {
    let has = |f: &str| cpu_features(cpu).unwrap().contains(&f);
    let noos = cpu == "avx2noos";
    match leaf {
        0 => [7, 0x756e6547, 0x6c65746e, 0x49656e69],
        1 => {
            let mut c = 0u32;
            for (f, b) in [("sse3", 0), ("ssse3", 9), ("sse4.1", 19), ("sse4.2", 20), ("popcnt", 23), ("xsave", 26), ("avx", 28)] {
                if has(f) {
                    c |= 1 << b;
                }
            }
            if has("xsave") {
                c |= 1 << 27;
            }
            if noos {
                c |= 1 << 28;
            }
            let d = 1 << 0 | 1 << 8 | 1 << 15 | 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26;
            [0x000306a9, 0, c, d]
        }
        7 if sub == 0 => {
            let mut b = 0u32;
            if has("avx2") || noos {
                b |= 1 << 5;
            }
            [0, b, 0, 0]
        }
        0x8000_0000 => [0x8000_0001, 0, 0, 0],
        _ => [0, 0, 0, 0],
    }
}

pub struct Exec<'m, 's> {
    pub c: Ctx,
    pub m: &'m Module,
    pub sol: Solver<'s>,
    pub job: &'s Job,
    pub out: Outcome,
    globals: HashMap<(usize, u32), Rc<Obj>>,
    work: Vec<State<'m>>,
    fcount: HashMap<(usize, u32), u64>,
    ms: &'m [Module],
    mi: usize,
    support_memo: FMap<T, Rc<Vec<u32>>>,
    simp_memo: FMap<T, T>,
    simp_ver: u64,
    pc_versions: u64,
    has_undef: bool,
    feats: Vec<&'static str>,
    pub trace_on: bool,
    /// join the arms of branches
    pub joining: bool,
    join_fail: HashMap<(usize, u32, u32), u32>,
    cfgs: HashMap<(usize, u32), Rc<merge::Cfg>>,
}

fn simp_rec(c: &mut Ctx, pc: &HashSet<T, FxB>, known: &FMap<T, T>, memo: &mut FMap<T, T>, t: T) -> T {
    if let Some(r) = memo.get(&t) {
        return *r;
    }
    if matches!(c.op(t), Op::Const(_)) {
        return t;
    }
    let mut r = t;
    let mut done = false;
    if let Some(k) = known.get(&t) {
        r = *k;
        done = true;
    } else if c.w(t) == 1 {
        if pc.contains(&t) {
            r = c.tt;
            done = true;
        } else {
            let n = c.not(t);
            if pc.contains(&n) {
                r = c.ff;
                done = true;
            }
        }
    }
    if !done {
        r = c.rebuild(t, &mut |c, x| simp_rec(c, pc, known, memo, x));
        if r != t && c.w(r) == 1 && pc.contains(&r) {
            r = c.tt;
        }
    }
    memo.insert(t, r);
    r
}

type E<X> = Result<X, Stop>;

fn uns<X>(s: impl Into<String>) -> E<X> {
    Err(Stop::Unsupported(s.into()))
}

impl<'m, 's> Exec<'m, 's> {
    pub fn new(ms: &'m [Module], sh: &'s Shared, job: &'s Job) -> Self {
        Exec {
            c: Ctx::new(),
            m: &ms[0],
            ms,
            mi: 0,
            sol: Solver::new(sh),
            job,
            out: Outcome::default(),
            globals: HashMap::new(),
            work: Vec::new(),
            fcount: HashMap::new(),
            support_memo: FMap::default(),
            simp_memo: FMap::default(),
            simp_ver: 0,
            pc_versions: 0,
            has_undef: false,
            feats: vec![],
            trace_on: false,
            joining: false,
            join_fail: HashMap::new(),
            cfgs: HashMap::new(),
        }
    }

    /// processor and, after @, module of the current run
    fn spec(&self, st: &State) -> &'s str {
        &self.job.cpus[st.run.min(self.job.cpus.len() - 1)]
    }

    fn cpu(&self, st: &State) -> &'s str {
        self.spec(st).split(['@', '+']).next().unwrap()
    }

    /// the letter after + in the processor's name: w, called before; tN, two threads with N switches
    fn mode(&self, st: &State) -> (char, u32) {
        let s = self.spec(st).split('@').next().unwrap();
        match s.split_once('+') {
            Some((_, m)) => (m.chars().next().unwrap_or(' '), m[1..].trim_end_matches('x').parse().unwrap_or(0)),
            None => (' ', 0),
        }
    }

    fn enter(&mut self, st: &State) -> E<()> {
        self.mi = self.spec(st).split('@').nth(1).map_or(0, |x| x.parse().unwrap_or(usize::MAX));
        match self.ms.get(self.mi) {
            Some(m) => self.m = m,
            None => return uns("no such module"),
        }
        Ok(())
    }

    fn start_frame(&self, st: &mut State<'m>) -> E<()> {
        let f = match self.m.funcs.get(self.job.harness.as_str()) {
            Some(f) => f,
            None => return uns(format!("no harness {}", self.job.harness)),
        };
        let body = match self.m.body(f) {
            Ok(b) => b,
            Err(e) => return uns(e.clone()),
        };
        let frame = |f, body: &'m Body, ip| Frame { f, body, bb: 0, ip, prev: 0, regs: vec![Val::U; body.nregs as usize], allocas: vec![], ret_dst: None, ret_bb: None };
        st.buffers = 0;
        st.frames = vec![frame(f, body, 0)];
        let (mode, num) = self.mode(st);
        st.thr = if mode == 't' { Some(Box::new(threads::Threads::new(vec![frame(f, body, 0)], num))) } else { None };
        if mode == 'w' {
            // the functions have been called before: `h_warm` runs first, in the same memory
            let f = match self.m.funcs.get("h_warm") {
                Some(f) => f,
                None => return uns("no harness h_warm"),
            };
            let body = match self.m.body(f) {
                Ok(b) => b,
                Err(e) => return uns(e.clone()),
            };
            // as often as the number says; each frame starts when the one above it returns
            st.frames[0].ip = usize::MAX;
            for _ in 1..num {
                st.frames.push(frame(f, body, usize::MAX));
            }
            st.frames.push(frame(f, body, 0));
        }
        Ok(())
    }

    pub fn run(mut self) -> Outcome {
        let mut st = State {
            frames: vec![],
            mem: FMap::default(),
            freed: Rc::new(BTreeSet::new()),
            next: first_id(),
            buffers: 0,
            thr: None,
            pc: vec![],
            pcset: HashSet::default(),
            pcver: 0,
            known: FMap::default(),
            settled: FMap::default(),
            model: Rc::new(FMap::default()),
            trace: vec![],
            tpos: 0,
            run: 0,
            results: vec![vec![]],
            panic_ok: None,
            steps: 0,
            covers: BTreeSet::new(),
        };
        if let Err(Stop::Unsupported(e)) = self.enter(&st).and_then(|_| self.start_frame(&mut st)) {
            self.out.error = Some(e);
            return self.out;
        }
        self.work.push(st);
        let threads = self.job.cpus.iter().any(|c| c.contains("+t"));
        while let Some(mut st) = self.work.pop() {
            let r = self.run_path(&mut st);
            self.out.steps += st.steps;
            match r {
                Stop::Done => {
                    self.out.paths += 1;
                    if self.out.paths <= 3 && st.thr.is_none() {
                        self.take_witness(&st);
                    }
                    self.out.covers.extend(st.covers.iter());
                }
                Stop::Infeasible => self.out.infeasible += 1,
                Stop::Violation(k, m) => {
                    if !self.judged(&k) {
                        // not this check's business: the path ends here
                        self.out.paths += 1;
                        continue;
                    }
                    let v = self.make_violation(&st, k, m);
                    self.out.violation = Some(v);
                    break;
                }
                Stop::Unsupported(e) => {
                    let loc = self.where_am_i(&st);
                    self.out.error = Some(format!("unsupported: {e} at {}", loc.join(" < ")));
                    break;
                }
                Stop::Inconclusive(e) => {
                    let loc = self.where_am_i(&st);
                    self.out.error = Some(format!("inconclusive: {e} at {}", loc.join(" < ")));
                    break;
                }
                Stop::Retry => unreachable!(),
            }
            if !self.joining && !threads && self.out.forks > merge::FORKS {
                self.out.again = true;
                break;
            }
            if self.out.paths + self.out.infeasible > self.job.max_paths {
                self.out.error = Some(format!("inconclusive: more than {} paths", self.job.max_paths));
                break;
            }
        }
        let fc: Vec<((usize, u32), u64)> = self.fcount.iter().map(|(a, b)| (*a, *b)).collect();
        for ((mi, id), n) in fc {
            *self.out.funcs.entry(self.ms[mi].by_id[id as usize].to_string()).or_insert(0) += n;
        }
        self.out
    }

    fn judged(&self, kind: &str) -> bool {
        let mut it = kind.split(':');
        let k = it.next().unwrap_or("");
        let j = &self.job.judge;
        match k {
            "assert" => j.assert(it.next().and_then(|x| x.parse().ok()).unwrap_or(0)),
            "result" => j.r,
            "memory" | "ub" => j.m,
            "panic" | "abort" => j.p,
            "cpu" => j.f,
            _ => true,
        }
    }

    fn where_am_i(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(6)
            .map(|f| {
                let l = f.body.blocks[f.bb as usize].get(f.ip.saturating_sub(0)).map(|i| self.m.line(i.line as usize).trim().chars().take(110).collect::<String>()).unwrap_or_default();
                format!("{} [{}]", demangle(&f.f.name), l)
            })
            .collect()
    }

    /// contents of std's run-time feature detection cache
    fn cache_words(&self, st: &State<'m>) -> Vec<u64> {
        let mut words = Vec::new();
        for (n, g) in self.m.globals.iter() {
            if n.contains("std_detect") && n.ends_with("5CACHE") {
                if let Some(o) = st.mem.get(&g.id) {
                    for ch in o.data.chunks(8) {
                        let mut w = 0u64;
                        for (i, b) in ch.iter().enumerate() {
                            w |= (self.c.cv(*b).unwrap_or(0) as u64) << (8 * i);
                        }
                        words.push(w);
                    }
                }
            }
        }
        words
    }

    fn make_violation(&mut self, st: &State<'m>, kind: String, msg: String) -> Violation {
        let mut memo = FMap::default();
        let tr = self.concrete_trace(st, &mut memo);
        let words = self.cache_words(st);
        let stack = self.where_am_i(st);
        Violation { kind, msg, trace: tr, cache_words: words, run: st.run, stack }
    }

    fn concrete_trace(&mut self, st: &State<'m>, memo: &mut FMap<T, u128>) -> Vec<String> {
        let mut tr = Vec::new();
        for e in &st.trace {
            match e {
                Ev::Sym(v) => {
                    let mut s = String::from("S ");
                    for t in v {
                        let x = self.c.eval(*t, &st.model, memo);
                        s.push_str(&format!("{x:02x}"));
                    }
                    tr.push(s);
                }
                Ev::Choose(k) => tr.push(format!("C {k}")),
                Ev::Thread(t) => tr.push(format!("T {t}")),
            }
        }
        tr
    }

    /// the inputs and results of a finished path under its model, for replay on the compiled code
    fn take_witness(&mut self, st: &State<'m>) {
        let n: usize = st.trace.iter().map(|e| if let Ev::Sym(v) = e { v.len() } else { 1 }).sum();
        if n > 4096 {
            return;
        }
        let mut memo = FMap::default();
        let tr = self.concrete_trace(st, &mut memo);
        let mut rs = Vec::new();
        for r in st.results[0].clone() {
            if r.len() == 1 && self.c.w(r[0]) == 64 {
                rs.push(format!("={}", self.c.eval(r[0], &st.model, &mut memo)));
            } else {
                rs.push(r.iter().map(|t| format!("{:02x}", self.c.eval(*t, &st.model, &mut memo))).collect::<String>());
            }
        }
        self.out.witness = Some((tr, rs));
    }

    fn run_path(&mut self, st: &mut State<'m>) -> Stop {
        if let Err(e) = self.enter(st) {
            return e;
        }
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(s) => {
                    if matches!(s, Stop::Done | Stop::Violation(..)) {
                        let (mut cpu, m) = (self.cpu(st).to_string(), self.spec(st).split_once('@').map_or("", |x| x.1));
                        if !m.is_empty() {
                            cpu = format!("{cpu}@{m}");
                        }
                        let cpu = &cpu;
                        if !self.out.caches.contains_key(cpu) {
                            let w = self.cache_words(st);
                            if w.iter().any(|x| *x != 0) {
                                self.out.caches.insert(cpu.to_string(), w);
                            }
                        }
                    }
                    if let Stop::Done = s {
                        if st.thr.as_ref().map_or(false, |t| t.other.is_some()) {
                            self.swap(st);
                            continue;
                        }
                        if st.run + 1 < self.job.cpus.len() {
                            // relational mode: run again on the next processor
                            st.run += 1;
                            st.tpos = 0;
                            st.mem.clear();
                            st.freed = Rc::new(BTreeSet::new());
                            st.next = first_id();
                            st.results.push(vec![]);
                            st.panic_ok = None;
                            if let Err(e) = self.enter(st).and_then(|_| self.start_frame(st)) {
                                return e;
                            }
                            continue;
                        }
                        if self.job.cpus.len() > 1 {
                            if let Err(e) = self.compare_results(st) {
                                return e;
                            }
                        }
                    }
                    return s;
                }
            }
            if st.steps > self.job.max_steps {
                return Stop::Inconclusive(format!("more than {} steps on one path", self.job.max_steps));
            }
        }
    }

    fn compare_results(&mut self, st: &mut State<'m>) -> E<()> {
        for r in 1..st.results.len() {
            let (a, b) = (st.results[0].clone(), st.results[r].clone());
            if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.len() != y.len()) {
                return Err(Stop::Violation("result:shape".into(), format!("results on {} and {} differ in shape", self.job.cpus[0], self.job.cpus[r])));
            }
            for (x, y) in a.iter().zip(&b) {
                for (p, q) in x.iter().zip(y) {
                    let e = self.c.eq(*p, *q);
                    self.assert_term(st, e, || ("result:value".into(), "results differ between processors".into()))?;
                }
            }
        }
        Ok(())
    }

    // ---- path condition ----

    fn support(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(r) = self.support_memo.get(&t) {
            return r.clone();
        }
        let mut seen = HashSet::default();
        let mut v = Vec::new();
        self.c.support(&[t], &mut seen, &mut v);
        v.sort_unstable();
        let r = Rc::new(v);
        self.support_memo.insert(t, r.clone());
        r
    }

    fn flatten(&mut self, t: T, out: &mut Vec<T>) {
        match *self.c.op(t) {
            Op::And(a, b) if self.c.w(t) == 1 => {
                self.flatten(a, out);
                self.flatten(b, out);
            }
            Op::Not(x) => match *self.c.op(x) {
                Op::Or(a, b) => {
                    let na = self.c.not(a);
                    let nb = self.c.not(b);
                    self.flatten(na, out);
                    self.flatten(nb, out);
                }
                _ => out.push(t),
            },
            Op::Const(1) => {}
            _ => out.push(t),
        }
    }

    fn add_pc(&mut self, st: &mut State<'m>, t: T) {
        let mut v = Vec::new();
        self.flatten(t, &mut v);
        for x in v {
            if st.pcset.insert(x) {
                let s = self.support(x);
                st.pc.push((x, s));
                self.pc_versions += 1;
                st.pcver = self.pc_versions;
            }
        }
    }

    /// rewrite a term using the conjuncts of the path condition
    fn simp(&mut self, st: &State<'m>, t: T) -> T {
        if st.pcset.is_empty() && st.known.is_empty() {
            return t;
        }
        if self.simp_ver != st.pcver {
            self.simp_ver = st.pcver;
            self.simp_memo.clear();
        }
        let mut memo = std::mem::take(&mut self.simp_memo);
        let r = simp_rec(&mut self.c, &st.pcset, &st.known, &mut memo, t);
        self.simp_memo = memo;
        r
    }

    fn slice(&mut self, st: &State<'m>, extra: &[T]) -> Vec<T> {
        let nv = self.c.vars.len();
        let mut bits = vec![false; nv];
        for &t in extra {
            for &v in self.support(t).iter() {
                bits[v as usize] = true;
            }
        }
        let mut take = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, (_, s)) in st.pc.iter().enumerate() {
                if !take[i] && s.iter().any(|v| bits[*v as usize]) {
                    take[i] = true;
                    for &v in s.iter() {
                        if !bits[v as usize] {
                            bits[v as usize] = true;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<T> = extra.to_vec();
        for (i, (t, _)) in st.pc.iter().enumerate() {
            if take[i] {
                r.push(*t);
            }
        }
        r
    }

    /// is pc and t satisfiable? Some(updated model)
    fn feasible(&mut self, st: &State<'m>, t: T) -> E<Option<Rc<FMap<u32, u128>>>> {
        if let Some(v) = self.c.cv(t) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        let mut ex = Vec::new();
        self.flatten(t, &mut ex);
        if ex.iter().any(|x| *x == self.c.ff) {
            return Ok(None);
        }
        for x in &ex {
            let n = self.c.not(*x);
            if st.pcset.contains(&n) {
                return Ok(None);
            }
        }
        let q = self.slice(st, &ex);
        if q.len() > 12 {
            // often the newest part of the path condition alone refutes it
            if let Some((l, sup)) = st.pc.last().cloned() {
                let mut q0 = vec![];
                for x in &ex {
                    let s = self.support(*x);
                    if s.iter().any(|v| sup.binary_search(v).is_ok()) {
                        q0.push(*x);
                    }
                }
                if !q0.is_empty() {
                    q0.push(l);
                    if q0.len() + 6 < q.len() {
                        if let Res::Unsat = self.sol.check(&self.c, &q0) {
                            return Ok(None);
                        }
                    }
                }
            }
        }
        match self.sol.check(&self.c, &q) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut n = (*st.model).clone();
                for (k, v) in m {
                    n.insert(k, v);
                }
                Ok(Some(Rc::new(n)))
            }
            Res::Unknown(e) => Err(Stop::Inconclusive(format!("solver: {e}"))),
        }
    }

    fn eval_model(&self, st: &State, t: T) -> u128 {
        let mut memo = FMap::default();
        self.c.eval(t, &st.model, &mut memo)
    }

    fn has_undef_var(&mut self, t: T) -> bool {
        let s = self.support(t);
        s.iter().any(|v| self.c.vars[*v as usize].undef)
    }

    fn check_undef(&mut self, st: &State<'m>, t: T, what: &str) -> E<()> {
        if !self.has_undef || !self.has_undef_var(t) {
            return Ok(());
        }
        if self.joining {
            // after joins the undefined arm may be out of reach: does the value really depend on it?
            let t = self.simp(st, t);
            if !self.has_undef_var(t) {
                return Ok(());
            }
            let mut ren: FMap<T, T> = FMap::default();
            let mut ts = vec![t];
            let sl = self.slice(st, &[t]);
            ts.extend(sl);
            for v in self.support(t).to_vec() {
                if self.c.vars[v as usize].undef {
                    let w = self.c.vars[v as usize].w;
                    let x = self.c.var_term(v);
                    let n = self.undef(w);
                    ren.insert(x, n);
                }
            }
            let mut memo = FMap::default();
            let u = simp_rec(&mut self.c, &HashSet::default(), &ren, &mut memo, t);
            let e = self.c.eq(t, u);
            let ne = self.c.not(e);
            // what the path condition says about the copies
            let mut st2 = st.clone();
            for x in ts.into_iter().skip(1) {
                if self.has_undef_var(x) && x != t {
                    let y = simp_rec(&mut self.c, &HashSet::default(), &ren, &mut memo, x);
                    self.add_pc(&mut st2, y);
                }
            }
            if self.feasible(&st2, ne)?.is_none() {
                return Ok(());
            }
        }
        Err(Stop::Violation("memory:uninit".into(), format!("{what} depends on uninitialised memory")))
    }

    /// decide a condition, forking when both outcomes are possible
    fn decide(&mut self, st: &mut State<'m>, c: T) -> E<bool> {
        if let Some(v) = self.c.cv(c) {
            return Ok(v == 1);
        }
        if st.pcset.contains(&c) {
            return Ok(true);
        }
        let nc = self.c.not(c);
        if st.pcset.contains(&nc) {
            return Ok(false);
        }
        self.check_undef(st, c, "a branch")?;
        let c = self.simp(st, c);
        if let Some(v) = self.c.cv(c) {
            return Ok(v == 1);
        }
        let nc = self.c.not(c);
        let here = self.eval_model(st, c) == 1;
        let other = if here { nc } else { c };
        if let Some(m) = self.feasible(st, other)? {
            self.out.forks += 1;
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, other);
            self.work.push(o);
            let t = if here { c } else { nc };
            self.add_pc(st, t);
        } else {
            self.pin(st, c)?;
        }
        Ok(here)
    }

    /// `c` has one possible outcome: if its operands keep being compared, see whether they have one value only
    fn pin(&mut self, st: &mut State<'m>, c: T) -> E<()> {
        let mut c = c;
        if let Op::Not(x) = self.c.op(c) {
            c = *x;
        }
        let ops = match self.c.op(c) {
            Op::Eq(a, b) | Op::Ult(a, b) | Op::Slt(a, b) => [*a, *b],
            _ => return Ok(()),
        };
        for a in ops {
            if self.c.cv(a).is_some() || self.c.w(a) < 8 || self.support(a).len() < 2 {
                continue;
            }
            let n = st.settled.entry(a).or_insert(0);
            *n += 1;
            if *n != 2 {
                continue;
            }
            let v = self.eval_model(st, a);
            let k = self.c.konst(v, self.c.w(a));
            let e = self.c.eq(a, k);
            let ne = self.c.not(e);
            if self.feasible(st, ne)?.is_none() {
                st.known.insert(a, k);
                self.pc_versions += 1;
                st.pcver = self.pc_versions;
            }
        }
        Ok(())
    }

    /// concretise a term, forking over its feasible values
    fn concretize(&mut self, st: &mut State<'m>, t: T) -> E<u128> {
        if let Some(v) = self.c.cv(t) {
            return Ok(v);
        }
        self.check_undef(st, t, "an address or size")?;
        let t = self.simp(st, t);
        if let Some(v) = self.c.cv(t) {
            return Ok(v);
        }
        let v = self.eval_model(st, t);
        let w = self.c.w(t);
        let k = self.c.konst(v, w);
        let e = self.c.eq(t, k);
        if st.pcset.contains(&e) {
            return Ok(v);
        }
        let ne = self.c.not(e);
        if let Some(m) = self.feasible(st, ne)? {
            self.out.forks += 1;
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, ne);
            self.work.push(o);
        }
        self.add_pc(st, e);
        Ok(v)
    }

    fn assert_term(&mut self, st: &mut State<'m>, t: T, why: impl FnOnce() -> (String, String)) -> E<()> {
        self.out.asserts += 1;
        if let Some(1) = self.c.cv(t) {
            self.out.asserts_syntactic += 1;
            return Ok(());
        }
        let t = self.simp(st, t);
        if let Some(1) = self.c.cv(t) {
            self.out.asserts_syntactic += 1;
            return Ok(());
        }
        let mut parts = Vec::new();
        self.flatten(t, &mut parts);
        parts.retain(|p| !st.pcset.contains(p));
        // parts that depend on the same inputs are one query
        let mut groups: Vec<(Vec<u32>, Vec<T>)> = Vec::new();
        for p in parts {
            let mut vs: Vec<u32> = Vec::new();
            for x in self.slice(st, &[p]) {
                vs.extend(self.support(x).iter().copied());
            }
            vs.sort_unstable();
            vs.dedup();
            match groups.iter_mut().find(|g| g.0 == vs && g.1.len() < 64) {
                Some(g) => g.1.push(p),
                None => groups.push((vs, vec![p])),
            }
        }
        for (_, ps) in groups {
            let mut n = self.c.ff;
            for p in ps {
                let np = self.c.not(p);
                n = self.c.or(n, np);
            }
            if let Some(m) = self.feasible(st, n)? {
                st.model = m;
                let (a, b) = why();
                return Err(Stop::Violation(a, b));
            }
        }
        Ok(())
    }

    // ---- memory ----

    fn global_obj(&mut self, id: u32) -> E<Option<Rc<Obj>>> {
        if let Some(o) = self.globals.get(&(self.mi, id)) {
            return Ok(Some(o.clone()));
        }
        let name = match self.m.by_id.get(id as usize) {
            Some(n) => n.clone(),
            None => return Ok(None),
        };
        let g = match self.m.globals.get(&name) {
            Some(g) => g,
            None => return Ok(None),
        };
        let (ty, cst, al) = match self.m.global_init(g) {
            Ok(x) => x.clone(),
            Err(e) => return uns(format!("global {name}: {e}")),
        };
        let mut data = Vec::new();
        self.init_bytes(&ty, &cst, &mut data)?;
        let o = Rc::new(Obj {
            base: self.gaddr(id),
            size: data.len() as u64,
            align: al,
            kind: if g.konst { Kind::GlobalConst } else { Kind::GlobalMut },
            ro: g.konst,
            data: Rc::new(data),
        });
        self.globals.insert((self.mi, id), o.clone());
        Ok(Some(o))
    }

    fn gaddr(&self, id: u32) -> u64 {
        ((id as u64) << sh()) + 0x1000
    }

    fn init_bytes(&mut self, ty: &Ty, c: &Cst, out: &mut Vec<T>) -> E<()> {
        let start = out.len();
        match c {
            Cst::Bytes(b) => {
                for x in b.iter() {
                    let t = self.c.byte(*x);
                    out.push(t);
                }
            }
            Cst::Zero(_) => {
                let z = self.c.byte(0);
                out.resize(start + ty.size() as usize, z);
            }
            Cst::Undef(_) => out.resize(start + ty.size() as usize, UNINIT),
            Cst::Arr(l) => {
                let e = match ty {
                    Ty::Arr(_, e) => e.clone(),
                    _ => return uns("array constant"),
                };
                for x in l {
                    self.init_bytes(&e, x, out)?;
                }
            }
            Cst::Vec(l) => {
                let e = match ty {
                    Ty::Vec(_, e) => e.clone(),
                    _ => return uns("vector constant"),
                };
                for x in l {
                    self.init_bytes(&e, x, out)?;
                }
            }
            Cst::Struct(l, _) => {
                let (offs, size) = ty.struct_layout();
                let f = match ty {
                    Ty::Struct(f, _) => f.clone(),
                    _ => return uns("struct constant"),
                };
                for (i, x) in l.iter().enumerate() {
                    out.resize(start + offs[i] as usize, UNINIT);
                    self.init_bytes(&f[i], x, out)?;
                }
                out.resize(start + size as usize, UNINIT);
            }
            _ => {
                let v = self.cval(c, ty)?;
                match v {
                    Val::S(t) => {
                        let n = ty.size() as u16;
                        let z = self.c.zext(t, n * 8);
                        for i in 0..n {
                            let b = self.c.extract(z, i * 8, 8);
                            out.push(b);
                        }
                    }
                    _ => return uns("global initialiser"),
                }
            }
        }
        Ok(())
    }

    fn get_obj(&mut self, st: &mut State<'m>, addr: u64) -> E<Option<Rc<Obj>>> {
        let id = (addr >> sh()) as u32;
        if let Some(o) = st.mem.get(&id) {
            return Ok(Some(o.clone()));
        }
        if st.thr.is_some() && id >= threads::TLS && id < first_id() {
            // the second thread's copy of a thread-local
            if let Some(o) = self.global_obj(id - threads::TLS)? {
                let mut o = (*o).clone();
                o.base += (threads::TLS as u64) << sh();
                let o = Rc::new(o);
                st.mem.insert(id, o.clone());
                return Ok(Some(o));
            }
        }
        if id != 0 && id < first_id() {
            if let Some(o) = self.global_obj(id)? {
                st.mem.insert(id, o.clone());
                return Ok(Some(o));
            }
        }
        Ok(None)
    }

    fn describe(&self, st: &State, addr: u64) -> String {
        let id = (addr >> sh()) as u32;
        if let Some(o) = st.mem.get(&id) {
            format!("offset {} of a {:?} object of {} bytes", addr as i64 - o.base as i64, o.kind, o.size)
        } else if st.freed.contains(&id) {
            "memory already freed".to_string()
        } else if id == 0 {
            format!("invalid address {addr:#x}")
        } else {
            format!("no object at {addr:#x}")
        }
    }

    fn access(&mut self, st: &mut State<'m>, addr: u64, n: u64, align: u64, write: bool) -> E<Rc<Obj>> {
        self.out.mem_checks += 1;
        let what = if write { "write" } else { "read" };
        let o = match self.get_obj(st, addr)? {
            Some(o) if addr >= o.base && addr.wrapping_add(n) <= o.base + o.size => o,
            _ => {
                let d = self.describe(st, addr);
                return Err(Stop::Violation("memory:bounds".into(), format!("{what} of {n} bytes at {d}")));
            }
        };
        if align > 1 && addr % align != 0 {
            return Err(Stop::Violation("memory:align".into(), format!("{what} of {n} bytes needs alignment {align}")));
        }
        if st.thr.is_some() && matches!(o.kind, Kind::GlobalMut | Kind::Heap) {
            self.race(st, addr, n, write)?;
        }
        if write && o.ro {
            return Err(Stop::Violation("memory:readonly".into(), format!("write of {n} bytes to read-only memory, {}", self.describe(st, addr))));
        }
        Ok(o)
    }

    fn undef_byte(&mut self) -> T {
        self.undef(8)
    }
    fn undef(&mut self, w: u16) -> T {
        self.has_undef = true;
        let n = self.c.vars.len();
        self.c.var(format!("undef{n}"), w, true)
    }

    fn read_bytes(&mut self, st: &mut State<'m>, addr: u64, n: u64, align: u64) -> E<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.access(st, addr, n, align, false)?;
        let off = (addr - o.base) as usize;
        Ok(o.data[off..off + n as usize].to_vec())
    }

    fn write_bytes(&mut self, st: &mut State<'m>, addr: u64, b: &[T], align: u64) -> E<()> {
        if b.is_empty() {
            return Ok(());
        }
        let o = self.access(st, addr, b.len() as u64, align, true)?;
        let off = (addr - o.base) as usize;
        let id = (addr >> sh()) as u32;
        drop(o);
        let o = Rc::make_mut(st.mem.get_mut(&id).unwrap());
        let d = Rc::make_mut(&mut o.data);
        d[off..off + b.len()].copy_from_slice(b);
        Ok(())
    }

    fn alloc(&mut self, st: &mut State<'m>, size: u64, align: u64, kind: Kind) -> E<u64> {
        self.alloc_at(st, size, align, kind, 1)
    }

    fn alloc_at(&mut self, st: &mut State<'m>, size: u64, align: u64, kind: Kind, off: u64) -> E<u64> {
        if size > 1 << 26 {
            return Err(Stop::Inconclusive(format!("allocation of {size} bytes")));
        }
        if size >= (1 << sh()) - 0x2000 || (st.next as u64) >> (pw() as u32 - sh()) != 0 {
            return Err(Stop::Inconclusive(format!("allocation of {size} bytes, number {}", st.next)));
        }
        let id = st.next;
        st.next += 1;
        // aligned to exactly `align`, never more, unless the job asks for another placement
        let base = ((id as u64) << sh()) + 0x1000 + if align < 4096 { if off == 1 { align } else { align * off % 4096 } } else { 0 };
        if let Some(t) = st.thr.as_mut() {
            if t.cur == 1 && kind == Kind::Heap {
                t.second_heap.insert(id);
            }
        }
        st.mem.insert(id, Rc::new(Obj { base, size, align, kind, ro: false, data: Rc::new(vec![UNINIT; size as usize]) }));
        Ok(base)
    }

    fn bytes_to_val(&mut self, ty: &Ty, b: &[T]) -> E<Val> {
        match ty {
            Ty::Int(w) => {
                let t = self.join(b);
                let tw = self.c.w(t);
                let t = if tw > *w { self.c.extract(t, 0, *w) } else { t };
                Ok(Val::S(t))
            }
            Ty::Ptr => Ok(Val::S(self.join(b))),
            Ty::Float(_) => Ok(Val::S(self.join(b))),
            Ty::Vec(n, e) => {
                let eb = e.bits();
                let mut v = Vec::with_capacity(*n as usize);
                if eb % 8 == 0 {
                    let k = (eb / 8) as usize;
                    for i in 0..*n as usize {
                        v.push(self.join(&b[i * k..(i + 1) * k]));
                    }
                } else {
                    let all = self.join(b);
                    for i in 0..*n {
                        v.push(self.c.extract(all, (i * eb) as u16, eb as u16));
                    }
                }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let s = e.size() as usize;
                let mut v = Vec::new();
                for i in 0..*n as usize {
                    v.push(self.bytes_to_val(e, &b[i * s..i * s + e.store_size() as usize])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let (offs, _) = ty.struct_layout();
                let mut v = Vec::new();
                for (i, t) in f.iter().enumerate() {
                    let o = offs[i] as usize;
                    v.push(self.bytes_to_val(t, &b[o..o + t.store_size() as usize])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => uns(format!("load of {ty:?}")),
        }
    }

    fn join(&mut self, b: &[T]) -> T {
        // little endian
        let mut v: Vec<T> = Vec::with_capacity(b.len());
        for &x in b.iter().rev() {
            let x = if x == UNINIT { self.undef_byte() } else { x };
            v.push(x);
        }
        self.c.concat(&v)
    }

    fn val_to_bytes(&mut self, ty: &Ty, v: &Val, out: &mut Vec<T>) -> E<()> {
        match (ty, v) {
            (_, Val::U) => {
                out.resize(out.len() + ty.store_size() as usize, UNINIT);
            }
            (Ty::Int(_), Val::S(t)) | (Ty::Ptr, Val::S(t)) | (Ty::Float(_), Val::S(t)) => {
                let n = ty.store_size() as u16;
                if let Op::Var(x) = self.c.op(*t) {
                    if self.c.vars[*x as usize].undef {
                        out.resize(out.len() + n as usize, UNINIT);
                        return Ok(());
                    }
                }
                let z = self.c.zext(*t, n * 8);
                for i in 0..n {
                    let b = self.c.extract(z, i * 8, 8);
                    // an undefined byte copied around stays undefined
                    let b = match self.c.op(b) {
                        Op::Var(x) if self.c.vars[*x as usize].undef => UNINIT,
                        _ => b,
                    };
                    out.push(b);
                }
            }
            (Ty::Vec(_, e), Val::V(l)) => {
                if e.bits() % 8 == 0 {
                    for x in l.iter() {
                        self.val_to_bytes(e, &Val::S(*x), out)?;
                    }
                } else {
                    let mut p: Vec<T> = l.to_vec();
                    p.reverse();
                    let all = self.c.concat(&p);
                    let n = ty.store_size() as u16;
                    let z = self.c.zext(all, n * 8);
                    for i in 0..n {
                        let b = self.c.extract(z, i * 8, 8);
                        out.push(b);
                    }
                }
            }
            (Ty::Arr(_, e), Val::A(l)) => {
                for x in l.iter() {
                    let s = out.len();
                    self.val_to_bytes(e, x, out)?;
                    out.resize(s + e.size() as usize, UNINIT);
                }
            }
            (Ty::Struct(f, _), Val::A(l)) => {
                let (offs, size) = ty.struct_layout();
                let s = out.len();
                for (i, x) in l.iter().enumerate() {
                    out.resize(s + offs[i] as usize, UNINIT);
                    self.val_to_bytes(&f[i], x, out)?;
                }
                out.resize(s + size as usize, UNINIT);
            }
            _ => return uns(format!("store of {ty:?} from {v:?}")),
        }
        Ok(())
    }

    fn load(&mut self, st: &mut State<'m>, ty: &Ty, addr: T, align: u64) -> E<Val> {
        let n = ty.store_size();
        if let Some(a) = self.c.cv(addr) {
            let b = self.read_bytes(st, a as u64, n, align)?;
            return self.bytes_to_val(ty, &b);
        }
        // symbolic address
        self.check_undef(st, addr, "an address")?;
        let v = self.eval_model(st, addr) as u64;
        let o = self.access(st, v, n, 1, false)?;
        let base = self.c.konst(o.base as u128, pw());
        let off = self.c.sub(addr, base);
        let lim = self.c.konst((o.size - n + 1) as u128, pw());
        let inb = self.c.ult(off, lim);
        let d = format!("read of {n} bytes with a data-dependent offset outside its {:?} object of {} bytes", o.kind, o.size);
        self.assert_term(st, inb, || ("memory:bounds".into(), d))?;
        if align > 1 {
            let k = self.c.konst((align - 1) as u128, pw());
            let r = self.c.and(addr, k);
            let z = self.c.konst(0, pw());
            let e = self.c.eq(r, z);
            self.assert_term(st, e, || ("memory:align".into(), "misaligned read".into()))?;
        }
        let cnt = (o.size - n + 1) as usize;
        let hi = self.c.n(off).hi;
        let cnt = if hi < cnt as u128 { hi as usize + 1 } else { cnt };
        let simple = matches!(ty, Ty::Int(_) | Ty::Ptr) && n <= 16;
        if simple && cnt <= 1 << 16 && o.data.iter().take(cnt + n as usize - 1).all(|x| *x != UNINIT && self.c.cv(*x).is_some()) {
            let mut tab = Vec::with_capacity(cnt);
            for i in 0..cnt {
                let mut x = 0u128;
                for j in (0..n as usize).rev() {
                    x = (x << 8) | self.c.cv(o.data[i + j]).unwrap();
                }
                tab.push(x);
            }
            let t = self.c.lut(tab, (n * 8) as u16, off);
            let w = ty.bits() as u16;
            let t = if w < (n * 8) as u16 { self.c.extract(t, 0, w) } else { t };
            return Ok(Val::S(t));
        }
        if simple && cnt <= 64 && o.data.iter().take(cnt + n as usize - 1).all(|x| *x != UNINIT) {
            let mut acc: Option<T> = None;
            for i in 0..cnt {
                let x = self.join(&o.data[i..i + n as usize]);
                acc = Some(match acc {
                    None => x,
                    Some(a) => {
                        let k = self.c.konst(i as u128, pw());
                        let e = self.c.eq(off, k);
                        self.c.ite(e, x, a)
                    }
                });
            }
            let t = acc.unwrap();
            let w = ty.bits() as u16;
            let t = if w < (n * 8) as u16 { self.c.extract(t, 0, w) } else { t };
            return Ok(Val::S(t));
        }
        let a = self.concretize(st, addr)?;
        let b = self.read_bytes(st, a as u64, n, align)?;
        self.bytes_to_val(ty, &b)
    }

    fn store(&mut self, st: &mut State<'m>, ty: &Ty, v: &Val, addr: T, align: u64) -> E<()> {
        let mut b = Vec::new();
        self.val_to_bytes(ty, v, &mut b)?;
        b.truncate(ty.store_size() as usize);
        let a = self.concretize(st, addr)?;
        self.write_bytes(st, a as u64, &b, align)
    }

    // ---- values ----

    fn cval(&mut self, c: &Cst, ty: &Ty) -> E<Val> {
        Ok(match c {
            Cst::Int(v, w) => Val::S(self.c.konst(*v, *w)),
            Cst::Undef(t) => self.undef_val(t),
            Cst::Zero(t) => self.zero_val(t)?,
            Cst::Global(n) => Val::S(self.addr_of(n)?),
            Cst::Off(b, o) => match self.cval(b, &Ty::Ptr)? {
                Val::S(t) => {
                    let k = self.c.konst(*o as i128 as u128, pw());
                    Val::S(self.c.add(t, k))
                }
                _ => return uns("constant offset"),
            },
            Cst::Cast(x, t) => {
                let v = self.cval(x, &Ty::Int(64))?;
                match (v, t) {
                    (Val::S(a), Ty::Int(w)) => {
                        let aw = self.c.w(a);
                        Val::S(if aw > *w { self.c.extract(a, 0, *w) } else { self.c.zext(a, *w) })
                    }
                    (Val::S(a), Ty::Ptr) => Val::S(self.c.zext(a, pw())),
                    _ => return uns("constant cast"),
                }
            }
            Cst::Bin(op, a, b, w) => {
                let (a, b) = (self.cval(a, &Ty::Int(*w))?, self.cval(b, &Ty::Int(*w))?);
                match (a, b) {
                    (Val::S(a), Val::S(b)) => Val::S(match op {
                        BinOp::Add => self.c.add(a, b),
                        BinOp::Sub => self.c.sub(a, b),
                        BinOp::Mul => self.c.mul(a, b),
                        BinOp::And => self.c.and(a, b),
                        BinOp::Or => self.c.or(a, b),
                        _ => self.c.xor(a, b),
                    }),
                    _ => return uns("constant expression"),
                }
            }
            Cst::Vec(l) => {
                let e = match ty {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => Ty::Int(8),
                };
                let mut v = Vec::new();
                for x in l {
                    match self.cval(x, &e)? {
                        Val::S(t) => v.push(t),
                        _ => return uns("vector constant"),
                    }
                }
                Val::V(Rc::new(v))
            }
            Cst::Arr(l) => {
                let e = match ty {
                    Ty::Arr(_, e) => (**e).clone(),
                    _ => return uns("array constant"),
                };
                let mut v = Vec::new();
                for x in l {
                    v.push(self.cval(x, &e)?);
                }
                Val::A(Rc::new(v))
            }
            Cst::Struct(l, t) => {
                let f = match t {
                    Ty::Struct(f, _) => f.clone(),
                    _ => return uns("struct constant"),
                };
                let mut v = Vec::new();
                for (x, t) in l.iter().zip(&f) {
                    v.push(self.cval(x, t)?);
                }
                Val::A(Rc::new(v))
            }
            Cst::Bytes(b) => match ty {
                Ty::Arr(..) => Val::A(Rc::new(b.iter().map(|x| Val::S(self.c.byte(*x))).collect())),
                _ => Val::V(Rc::new(b.iter().map(|x| self.c.byte(*x)).collect())),
            },
            Cst::Unsupported(s) => return uns(s.clone()),
        })
    }

    fn addr_of(&mut self, n: &str) -> E<T> {
        let id = if let Some(g) = self.m.globals.get(n) {
            g.id
        } else if let Some(f) = self.m.funcs.get(n) {
            f.id
        } else if let Some(i) = self.m.by_id.iter().position(|x| &**x == n) {
            i as u32
        } else {
            return uns(format!("unknown symbol {n}"));
        };
        let a = self.gaddr(id);
        Ok(self.c.konst(a as u128, pw()))
    }

    fn undef_val(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::S(self.undef(*w)),
            Ty::Ptr => Val::S(self.undef(pw())),
            Ty::Vec(n, e) => {
                let w = e.bits() as u16;
                Val::V(Rc::new((0..*n).map(|_| self.undef(w)).collect()))
            }
            Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| self.undef_val(e)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|e| self.undef_val(e)).collect())),
            _ => Val::U,
        }
    }
    fn zero_val(&mut self, t: &Ty) -> E<Val> {
        Ok(match t {
            Ty::Int(w) => Val::S(self.c.konst(0, *w)),
            Ty::Float(w) => Val::S(self.c.konst(0, *w)),
            Ty::Ptr => Val::S(self.c.konst(0, pw())),
            Ty::Vec(n, e) => {
                let z = self.c.konst(0, e.bits() as u16);
                Val::V(Rc::new(vec![z; *n as usize]))
            }
            Ty::Arr(n, e) => {
                let z = self.zero_val(e)?;
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::new();
                for e in f {
                    v.push(self.zero_val(e)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return uns("zero"),
        })
    }

    fn get(&mut self, st: &State<'m>, v: &V, ty: &Ty) -> E<Val> {
        match v {
            V::Reg(r) => {
                let x = st.frames.last().unwrap().regs[*r as usize].clone();
                if let Val::U = x {
                    return uns(format!("unset register of type {ty:?}"));
                }
                Ok(x)
            }
            V::C(c) => self.cval(c, ty),
        }
    }
    fn gets(&mut self, st: &State<'m>, v: &V, ty: &Ty) -> E<T> {
        match self.get(st, v, ty)? {
            Val::S(t) => Ok(t),
            Val::V(l) => {
                // scalar view of a vector value (bit cast)
                let mut p = l.to_vec();
                p.reverse();
                Ok(self.c.concat(&p))
            }
            x => uns(format!("scalar expected, got {x:?}")),
        }
    }
    fn getv(&mut self, st: &State<'m>, v: &V, ty: &Ty) -> E<Rc<Vec<T>>> {
        match self.get(st, v, ty)? {
            Val::V(l) => Ok(l),
            x => uns(format!("vector expected, got {x:?}")),
        }
    }
    fn set(&mut self, st: &mut State<'m>, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn bin(&mut self, st: &mut State<'m>, op: BinOp, a: T, b: T) -> E<T> {
        Ok(match op {
            BinOp::Add => self.c.add(a, b),
            BinOp::Sub => self.c.sub(a, b),
            BinOp::Mul => self.c.mul(a, b),
            BinOp::And => self.c.and(a, b),
            BinOp::Or => self.c.or(a, b),
            BinOp::Xor => self.c.xor(a, b),
            BinOp::Shl => self.c.shl(a, b),
            BinOp::LShr => self.c.lshr(a, b),
            BinOp::AShr => self.c.ashr(a, b),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                let w = self.c.w(b);
                let z = self.c.konst(0, w);
                let e = self.c.eq(b, z);
                let ne = self.c.not(e);
                self.assert_term(st, ne, || ("ub:div".into(), "division by zero".into()))?;
                match op {
                    BinOp::UDiv => self.c.udiv(a, b),
                    BinOp::URem => self.c.urem(a, b),
                    BinOp::SDiv => self.c.sdiv(a, b),
                    _ => self.c.srem(a, b),
                }
            }
        })
    }

    fn icmp(&mut self, p: Pred, a: T, b: T) -> T {
        match p {
            Pred::Eq => self.c.eq(a, b),
            Pred::Ne => {
                let e = self.c.eq(a, b);
                self.c.not(e)
            }
            Pred::Ult => self.c.ult(a, b),
            Pred::Ugt => self.c.ult(b, a),
            Pred::Ule => self.c.ule(a, b),
            Pred::Uge => self.c.ule(b, a),
            Pred::Slt => self.c.slt(a, b),
            Pred::Sgt => self.c.slt(b, a),
            Pred::Sle => self.c.sle(a, b),
            Pred::Sge => self.c.sle(b, a),
        }
    }

    fn goto(&mut self, st: &mut State<'m>, bb: u32) -> E<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.bb;
        let blk: &'m Vec<Inst> = &fr.body.blocks[bb as usize];
        // phis in parallel
        let mut vals: Vec<(u32, Val)> = Vec::new();
        let mut n = 0;
        for i in blk {
            if let K::Phi(l) = &i.k {
                n += 1;
                let (v, _) = match l.iter().find(|x| x.1 == from) {
                    Some(x) => x,
                    None => return uns("phi without matching edge"),
                };
                let x = match v {
                    V::Reg(r) => fr_reg(st, *r),
                    V::C(c) => {
                        let ty = cst_ty(c);
                        self.cval(c, &ty)?
                    }
                };
                vals.push((i.dst.unwrap(), x));
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.prev = from;
        fr.bb = bb;
        fr.ip = n;
        Ok(())
    }

    fn step(&mut self, st: &mut State<'m>) -> E<()> {
        st.steps += 1;
        let fr = st.frames.last().unwrap();
        let body: &'m Body = fr.body;
        let inst: &'m Inst = match body.blocks[fr.bb as usize].get(fr.ip) {
            Some(i) => i,
            None => return uns("fell off a block"),
        };
        let fid = fr.f.id;
        *self.fcount.entry((self.mi, fid)).or_insert(0) += 1;
        if self.trace_on {
            eprintln!("{}", self.m.line(inst.line as usize));
        }
        let d = inst.dst;
        if st.thr.is_some() {
            self.at_atomic(st, inst)?;
        }
        match &inst.k {
            K::Bin(op, ty, a, b) => {
                let x = self.get(st, a, ty)?;
                let y = self.get(st, b, ty)?;
                let r = match (x, y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.bin(st, *op, x, y)?),
                    (Val::V(x), Val::V(y)) => {
                        let mut v = Vec::with_capacity(x.len());
                        for (p, q) in x.iter().zip(y.iter()) {
                            v.push(self.bin(st, *op, *p, *q)?);
                        }
                        Val::V(Rc::new(v))
                    }
                    _ => return uns("binary operands"),
                };
                self.set(st, d, r);
            }
            K::Icmp(p, ty, a, b) => {
                let x = self.get(st, a, ty)?;
                let y = self.get(st, b, ty)?;
                let r = match (x, y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.icmp(*p, x, y)),
                    (Val::V(x), Val::V(y)) => Val::V(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| self.icmp(*p, *a, *b)).collect())),
                    _ => return uns("icmp operands"),
                };
                self.set(st, d, r);
            }
            K::Select(ty, c, a, b) => {
                let c = self.get(st, c, &Ty::Int(1))?;
                let r = match c {
                    Val::S(c) => {
                        if let Some(v) = self.c.cv(c) {
                            if v == 1 {
                                self.get(st, a, ty)?
                            } else {
                                self.get(st, b, ty)?
                            }
                        } else {
                            let x = self.get(st, a, ty)?;
                            let y = self.get(st, b, ty)?;
                            let nc = self.c.not(c);
                            // keep addresses concrete and undefined arms apart: treat as a branch
                            if st.pcset.contains(&c) || st.pcset.contains(&nc) || *ty == Ty::Ptr || self.undef_in(&x) || self.undef_in(&y) {
                                if self.decide(st, c)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite_val(c, &x, &y)?
                            }
                        }
                    }
                    Val::V(c) => {
                        let x = self.get(st, a, ty)?;
                        let y = self.get(st, b, ty)?;
                        match (x, y) {
                            (Val::V(x), Val::V(y)) => Val::V(Rc::new((0..c.len()).map(|i| self.c.ite(c[i], x[i], y[i])).collect())),
                            _ => return uns("select"),
                        }
                    }
                    _ => return uns("select condition"),
                };
                self.set(st, d, r);
            }
            K::Phi(_) => {
                // only reached at function entry, which has none
                return uns("phi");
            }
            K::Alloca(n, al) => {
                let a = self.alloc(st, *n, *al, Kind::Stack)?;
                st.frames.last_mut().unwrap().allocas.push((a >> sh()) as u32);
                let t = self.c.konst(a as u128, pw());
                self.set(st, d, Val::S(t));
            }
            K::AllocaDyn(n, v, al) => {
                let t = self.gets(st, v, &Ty::Int(64))?;
                let k = self.concretize(st, t)?;
                let a = self.alloc(st, *n * k as u64, *al, Kind::Stack)?;
                st.frames.last_mut().unwrap().allocas.push((a >> sh()) as u32);
                let t = self.c.konst(a as u128, pw());
                self.set(st, d, Val::S(t));
            }
            K::Load(ty, p, al) => {
                let a = self.gets(st, p, &Ty::Ptr)?;
                let v = self.load(st, ty, a, *al)?;
                self.set(st, d, v);
            }
            K::Store(ty, v, p, al) => {
                let a = self.gets(st, p, &Ty::Ptr)?;
                let v = self.get(st, v, ty)?;
                self.store(st, ty, &v, a, *al)?;
            }
            K::Gep(b, off, terms) => {
                let mut t = self.gets(st, b, &Ty::Ptr)?;
                for (v, w, sc) in terms {
                    let mut i = self.gets(st, v, &Ty::Int(*w))?;
                    if *w < pw() {
                        i = self.c.sext(i, pw());
                    } else if *w > pw() {
                        i = self.c.extract(i, 0, pw());
                    }
                    if *sc != 1 {
                        let k = self.c.konst(*sc as i128 as u128, pw());
                        i = self.c.mul(i, k);
                    }
                    t = self.c.add(t, i);
                }
                if *off != 0 {
                    let k = self.c.konst(*off as i128 as u128, pw());
                    t = self.c.add(t, k);
                }
                self.set(st, d, Val::S(t));
            }
            K::ExtractValue(v, ix) => {
                let mut x = self.get(st, v, &Ty::Other)?;
                for i in ix {
                    x = match x {
                        Val::A(l) => l[*i as usize].clone(),
                        _ => return uns("extractvalue"),
                    };
                }
                self.set(st, d, x);
            }
            K::InsertValue(v, x, ix) => {
                let agg = self.get(st, v, &Ty::Other)?;
                let ty = match x {
                    V::C(c) => cst_ty(c),
                    _ => Ty::Other,
                };
                let x = self.get(st, x, &ty)?;
                fn ins(a: Val, x: Val, ix: &[u32]) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(x);
                    }
                    match a {
                        Val::A(l) => {
                            let mut l = (*l).clone();
                            let i = ix[0] as usize;
                            l[i] = ins(l[i].clone(), x, &ix[1..])?;
                            Some(Val::A(Rc::new(l)))
                        }
                        _ => None,
                    }
                }
                match ins(agg, x, ix) {
                    Some(r) => self.set(st, d, r),
                    None => return uns("insertvalue"),
                }
            }
            K::ExtractElt(v, i) => {
                let l = self.getv(st, v, &Ty::Other)?;
                let i = self.gets(st, i, &Ty::Int(64))?;
                if let Some(k) = self.c.cv(i) {
                    if k as usize >= l.len() {
                        return Err(Stop::Violation("ub:lane".into(), "lane index out of range".into()));
                    }
                    self.set(st, d, Val::S(l[k as usize]));
                } else {
                    let w = self.c.w(i);
                    let mut acc = l[0];
                    for (k, x) in l.iter().enumerate().skip(1) {
                        let kk = self.c.konst(k as u128, w);
                        let e = self.c.eq(i, kk);
                        acc = self.c.ite(e, *x, acc);
                    }
                    self.set(st, d, Val::S(acc));
                }
            }
            K::InsertElt(v, x, i) => {
                let l = match v {
                    V::C(c) => {
                        let ty = cst_ty(c);
                        self.cval(c, &ty)?
                    }
                    _ => self.get(st, v, &Ty::Other)?,
                };
                let l = match l {
                    Val::V(l) => l,
                    _ => return uns("insertelement"),
                };
                let ty = match x {
                    V::C(c) => cst_ty(c),
                    _ => Ty::Other,
                };
                let x = self.gets(st, x, &ty)?;
                let i = self.gets(st, i, &Ty::Int(64))?;
                let mut n = (*l).clone();
                if let Some(k) = self.c.cv(i) {
                    if k as usize >= n.len() {
                        return Err(Stop::Violation("ub:lane".into(), "lane index out of range".into()));
                    }
                    n[k as usize] = x;
                } else {
                    let w = self.c.w(i);
                    for (k, y) in n.iter_mut().enumerate() {
                        let kk = self.c.konst(k as u128, w);
                        let e = self.c.eq(i, kk);
                        *y = self.c.ite(e, x, *y);
                    }
                }
                self.set(st, d, Val::V(Rc::new(n)));
            }
            K::Shuffle(a, b, mask, ty) => {
                let x = match self.get(st, a, ty)? {
                    Val::V(l) => l,
                    _ => return uns("shuffle"),
                };
                let need_b = mask.iter().any(|m| *m >= x.len() as i32);
                let y = if need_b {
                    match self.get(st, b, ty)? {
                        Val::V(l) => l,
                        _ => return uns("shuffle"),
                    }
                } else {
                    Rc::new(vec![])
                };
                let w = self.c.w(x[0]);
                let mut r = Vec::with_capacity(mask.len());
                for m in mask {
                    r.push(if *m < 0 {
                        self.undef(w)
                    } else if (*m as usize) < x.len() {
                        x[*m as usize]
                    } else {
                        y[*m as usize - x.len()]
                    });
                }
                self.set(st, d, Val::V(Rc::new(r)));
            }
            K::Cast(op, from, to, v) => {
                let x = self.get(st, v, from)?;
                let r = self.cast(*op, from, to, x)?;
                self.set(st, d, r);
            }
            K::Freeze(v) => {
                let ty = match v {
                    V::C(c) => cst_ty(c),
                    _ => Ty::Other,
                };
                let x = self.get(st, v, &ty)?;
                self.set(st, d, x);
            }
            K::Br(b) => return self.goto(st, *b),
            K::CondBr(c, a, b) => {
                let c = self.gets(st, c, &Ty::Int(1))?;
                let base = self.work.len();
                let (depth, fid, from) = (st.frames.len(), st.frames[st.frames.len() - 1].f.id, st.frames[st.frames.len() - 1].bb);
                let r = self.decide(st, c)?;
                self.goto(st, if r { *a } else { *b })?;
                if self.joining && st.thr.is_none() && self.work.len() > base {
                    return self.join_arms(st, base, depth, fid, body, from);
                }
                return Ok(());
            }
            K::Switch(v, def, cs) => {
                let w0 = match v {
                    V::C(c) => cst_ty(c),
                    _ => Ty::Other,
                };
                let x = self.gets(st, v, &w0)?;
                let w = self.c.w(x);
                let base = self.work.len();
                let (depth, fid, from) = (st.frames.len(), st.frames[st.frames.len() - 1].f.id, st.frames[st.frames.len() - 1].bb);
                let mut to = *def;
                for (k, b) in cs {
                    let kk = self.c.konst(*k, w);
                    let e = self.c.eq(x, kk);
                    if self.decide(st, e)? {
                        to = *b;
                        break;
                    }
                }
                self.goto(st, to)?;
                if self.joining && st.thr.is_none() && self.work.len() > base {
                    return self.join_arms(st, base, depth, fid, body, from);
                }
                return Ok(());
            }
            K::Ret(v) => {
                let r = match v {
                    Some((t, v)) => Some(self.get(st, v, t)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.remove(&a);
                    Rc::make_mut(&mut st.freed).insert(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let Some(r) = r {
                    self.set(st, fr.ret_dst, r);
                }
                if let Some(b) = fr.ret_bb {
                    return self.goto(st, b);
                }
                let ip = &mut st.frames.last_mut().unwrap().ip;
                *ip = ip.wrapping_add(1);
                return Ok(());
            }
            K::Unreachable => return Err(Stop::Violation("ub:unreachable".into(), "code marked unreachable was reached".into())),
            K::Call(call) => return self.call(st, call, d, None),
            K::Invoke(call, b) => return self.call(st, call, d, Some(*b)),
            K::CmpXchg(ty, p, e, n) => {
                let a = self.gets(st, p, &Ty::Ptr)?;
                let old = self.load(st, ty, a, 1)?;
                let e = self.gets(st, e, ty)?;
                let n = self.get(st, n, ty)?;
                let o = match &old {
                    Val::S(t) => *t,
                    _ => return uns("cmpxchg"),
                };
                let c = self.c.eq(o, e);
                if self.decide(st, c)? {
                    self.store(st, ty, &n, a, 1)?;
                    let t = self.c.tt;
                    self.set(st, d, Val::A(Rc::new(vec![old, Val::S(t)])));
                } else {
                    let t = self.c.ff;
                    self.set(st, d, Val::A(Rc::new(vec![old, Val::S(t)])));
                }
            }
            K::AtomicRmw(op, ty, p, v) => {
                let a = self.gets(st, p, &Ty::Ptr)?;
                let old = self.load(st, ty, a, 1)?;
                let v = self.gets(st, v, ty)?;
                let o = match &old {
                    Val::S(t) => *t,
                    _ => return uns("atomicrmw"),
                };
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.c.add(o, v),
                    "sub" => self.c.sub(o, v),
                    "and" => self.c.and(o, v),
                    "or" => self.c.or(o, v),
                    "xor" => self.c.xor(o, v),
                    _ => return uns(format!("atomicrmw {op}")),
                };
                self.store(st, ty, &Val::S(n), a, 1)?;
                self.set(st, d, old);
            }
            K::Nop => {}
            K::Unsupported(s) => return uns(s.clone()),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn undef_in(&mut self, v: &Val) -> bool {
        if !self.has_undef {
            return false;
        }
        match v {
            Val::U => true,
            Val::S(t) => {
                let s = self.support(*t);
                s.iter().any(|v| self.c.vars[*v as usize].undef)
            }
            Val::V(l) => l.iter().any(|t| self.undef_in(&Val::S(*t))),
            Val::A(l) => l.iter().any(|x| self.undef_in(x)),
        }
    }

    fn ite_val(&mut self, c: T, x: &Val, y: &Val) -> E<Val> {
        Ok(match (x, y) {
            (Val::S(a), Val::S(b)) => Val::S(self.c.ite(c, *a, *b)),
            (Val::V(a), Val::V(b)) => Val::V(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| self.c.ite(c, *p, *q)).collect())),
            (Val::A(a), Val::A(b)) => {
                let mut v = Vec::new();
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.ite_val(c, p, q)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return uns("select of mixed values"),
        })
    }

    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, x: Val) -> E<Val> {
        let one = |s: &mut Self, t: T, w: u16| -> T {
            let tw = s.c.w(t);
            match op {
                CastOp::Trunc => s.c.extract(t, 0, w),
                CastOp::ZExt => s.c.zext(t, w),
                CastOp::SExt => s.c.sext(t, w),
                _ => {
                    if tw > w {
                        s.c.extract(t, 0, w)
                    } else {
                        s.c.zext(t, w)
                    }
                }
            }
        };
        if op == CastOp::Bitcast {
            // flatten to one bit string, then cut
            let lanes: Vec<T> = match &x {
                Val::S(t) => vec![*t],
                Val::V(l) => l.to_vec(),
                _ => return uns("bitcast"),
            };
            return Ok(match to {
                Ty::Vec(n, e) => {
                    let ew = e.bits() as u16;
                    let lw = self.c.w(lanes[0]);
                    if lw == ew {
                        return Ok(Val::V(Rc::new(lanes)));
                    }
                    let mut v = Vec::with_capacity(*n as usize);
                    if lw > ew && lw % ew == 0 {
                        for t in &lanes {
                            for k in 0..lw / ew {
                                v.push(self.c.extract(*t, k * ew, ew));
                            }
                        }
                    } else if ew % lw == 0 {
                        for ch in lanes.chunks((ew / lw) as usize) {
                            let mut p = ch.to_vec();
                            p.reverse();
                            v.push(self.c.concat(&p));
                        }
                    } else {
                        let mut p = lanes.clone();
                        p.reverse();
                        let all = self.c.concat(&p);
                        for k in 0..*n as u16 {
                            v.push(self.c.extract(all, k * ew, ew));
                        }
                    }
                    Val::V(Rc::new(v))
                }
                _ => {
                    let mut p = lanes;
                    p.reverse();
                    Val::S(self.c.concat(&p))
                }
            });
        }
        let _ = from;
        Ok(match (x, to) {
            (Val::S(t), Ty::Int(w)) => Val::S(one(self, t, *w)),
            (Val::S(t), Ty::Ptr) => Val::S(one(self, t, pw())),
            (Val::V(l), Ty::Vec(_, e)) => {
                let w = e.bits() as u16;
                Val::V(Rc::new(l.iter().map(|t| one(self, *t, w)).collect()))
            }
            _ => return uns("cast"),
        })
    }

    fn panic(&mut self, st: &mut State<'m>, name: &str, args: &[Val]) -> E<()> {
        let dn = demangle(name);
        let mut msg = String::new();
        if let (Some(Val::S(p)), Some(Val::S(n))) = (args.first(), args.get(1)) {
            if let (Some(p), Some(n)) = (self.c.cv(*p), self.c.cv(*n)) {
                if n < 200 {
                    if let Ok(b) = self.read_bytes(st, p as u64, n as u64, 1) {
                        msg = b.iter().map(|t| self.c.cv(*t).map(|x| x as u8 as char).unwrap_or('?')).filter(|c| !c.is_control()).collect();
                    }
                }
            }
        }
        if let Some(c) = st.panic_ok {
            self.assert_term(st, c, || ("panic:cond".into(), format!("panic outside the documented condition: {dn} {msg}")))?;
            self.out.panics_ok += 1;
            // a documented panic ends the run; later runs of the relational mode still compare
            return Err(Stop::Done);
        }
        Err(Stop::Violation("panic:".to_string() + &dn, format!("panic: {dn} {msg}")))
    }

    fn call(&mut self, st: &mut State<'m>, call: &'m Call, d: Option<u32>, ret_bb: Option<u32>) -> E<()> {
        let name: std::sync::Arc<str> = match &call.callee {
            Callee::Asm(s) => {
                let r = self.asm(st, s, call)?;
                self.set(st, d, r);
                return self.after(st, ret_bb);
            }
            Callee::Val(V::C(c)) => match &**c {
                Cst::Global(n) => n.clone(),
                _ => return uns("call of a constant expression"),
            },
            Callee::Val(v) => {
                let t = self.gets(st, v, &Ty::Ptr)?;
                let a = self.concretize(st, t)?;
                let id = (a >> sh()) as usize;
                if id == 0 || id >= self.m.by_id.len() || a as u64 != self.gaddr(id as u32) {
                    return Err(Stop::Violation("memory:call".into(), "call through an invalid function pointer".into()));
                }
                self.m.by_id[id].clone()
            }
        };
        if name.starts_with("llvm.") || name.starts_with("vf_") {
            let mut args = Vec::with_capacity(call.args.len());
            for (t, v) in &call.args {
                args.push(self.get(st, v, t)?);
            }
            let r = if name.starts_with("vf_") { self.vf(st, &name, &args)? } else { self.intrinsic(st, &name, call, &args)? };
            if let Some(r) = r {
                self.set(st, d, r);
            }
            return self.after(st, ret_bb);
        }
        let mut args = Vec::with_capacity(call.args.len());
        for (t, v) in &call.args {
            args.push(match v {
                V::Reg(r) => fr_reg(st, *r),
                V::C(c) => self.cval(c, t)?,
            });
        }
        if let Some(f) = self.m.funcs.get(&name) {
            let f: &'m Func = f;
            if f.noreturn || call.noreturn {
                return self.panic(st, &name, &args);
            }
            // instruction-set check
            if !f.features.is_empty() {
                self.feats = cpu_features(self.cpu(st)).unwrap_or_default();
                for x in &f.features {
                    if let Some(n) = x.strip_prefix('+') {
                        if !self.feats.contains(&n) {
                            return Err(Stop::Violation("cpu:feature".into(), format!("{} needs {n}, which the processor ({}) lacks", demangle(&name), self.cpu(st))));
                        }
                    }
                }
            }
            let body = match self.m.body(f) {
                Ok(b) => b,
                Err(e) => return uns(format!("{name}: {e}")),
            };
            if st.frames.len() > 200 {
                return Err(Stop::Inconclusive("call depth".into()));
            }
            let mut regs = vec![Val::U; body.nregs as usize];
            for (p, a) in body.params.iter().zip(args) {
                regs[*p as usize] = a;
            }
            st.frames.push(Frame { f, body, bb: 0, ip: 0, prev: 0, regs, allocas: vec![], ret_dst: d, ret_bb });
            return Ok(());
        }
        // external
        if call.noreturn || self.m.decls.get(&name).copied().unwrap_or(false) {
            return self.panic(st, &name, &args);
        }
        let r = self.external(st, &name, &args)?;
        if let Some(r) = r {
            self.set(st, d, r);
        }
        self.after(st, ret_bb)
    }

    fn after(&mut self, st: &mut State<'m>, ret_bb: Option<u32>) -> E<()> {
        if let Some(b) = ret_bb {
            return self.goto(st, b);
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn need(&mut self, st: &State<'m>, feat: &str, what: &str) -> E<()> {
        if feat != "sse2" && feat != "sse" {
            let f = cpu_features(self.cpu(st)).unwrap_or_default();
            if !f.contains(&feat) {
                return Err(Stop::Violation("cpu:feature".into(), format!("{what} needs {feat}, which the processor ({}) lacks", self.cpu(st))));
            }
        }
        Ok(())
    }

    fn asm(&mut self, st: &mut State<'m>, s: &str, call: &'m Call) -> E<Val> {
        let mut args = Vec::new();
        for (t, v) in &call.args {
            args.push(self.get(st, v, t)?);
        }
        self.out.intrinsics.insert(format!("asm {}", s.split_whitespace().next().unwrap_or("")));
        if s.contains("cpuid") && args.len() == 2 {
            let (a, b) = match (&args[0], &args[1]) {
                (Val::S(a), Val::S(b)) => (self.c.cv(*a), self.c.cv(*b)),
                _ => (None, None),
            };
            if let (Some(a), Some(b)) = (a, b) {
                let r = cpuid(self.cpu(st), a as u32, b as u32);
                // outputs: rbx copy, eax, ecx, edx (in the order of the constraint string)
                let o = [r[1], r[0], r[2], r[3]];
                return Ok(Val::A(Rc::new(o.iter().enumerate().map(|(i, x)| {
                    let w = match &call.ret { Ty::Struct(f, _) => f[i].bits() as u16, _ => 32 };
                    Val::S(self.c.konst(*x as u128, w))
                }).collect())));
            }
            return uns("cpuid operands");
        }
        if s.starts_with("vpavgb") && args.len() == 2 {
            self.need(st, if s.contains(":t}") { "avx2" } else { "avx" }, "vpavgb")?;
            if let (Val::V(a), Val::V(b)) = (&args[0], &args[1]) {
                let ew = self.c.w(a[0]);
                let a8 = self.cast(CastOp::Bitcast, &Ty::Other, &Ty::Vec((a.len() as u32) * ew as u32 / 8, Ty::Int(8).into()), Val::V(a.clone()))?;
                let b8 = self.cast(CastOp::Bitcast, &Ty::Other, &Ty::Vec((b.len() as u32) * ew as u32 / 8, Ty::Int(8).into()), Val::V(b.clone()))?;
                if let (Val::V(x), Val::V(y)) = (a8, b8) {
                    let r: Vec<T> = x.iter().zip(y.iter()).map(|(p, q)| self.avg(*p, *q)).collect();
                    let (n, e) = match &call.ret {
                        Ty::Vec(n, e) => (*n, e.clone()),
                        _ => return uns("vpavgb"),
                    };
                    return self.cast(CastOp::Bitcast, &Ty::Other, &Ty::Vec(n, e), Val::V(Rc::new(r)));
                }
            }
            return uns("vpavgb operands");
        }
        if s.trim().is_empty() {
            // compiler barrier (e.g. black_box): value passes through
            return Ok(args.into_iter().next().unwrap_or(Val::U));
        }
        uns(format!("inline asm: {s}"))
    }

    fn avg(&mut self, a: T, b: T) -> T {
        let w = self.c.w(a);
        let x = self.c.zext(a, w + 1);
        let y = self.c.zext(b, w + 1);
        let s = self.c.add(x, y);
        let one = self.c.konst(1, w + 1);
        let s = self.c.add(s, one);
        self.c.extract(s, 1, w)
    }

    fn num(&mut self, st: &mut State<'m>, v: &Val) -> E<u64> {
        match v {
            Val::S(t) => Ok(self.concretize(st, *t)? as u64),
            _ => uns("number expected"),
        }
    }
    fn sc(&self, v: &Val) -> E<T> {
        match v {
            Val::S(t) => Ok(*t),
            _ => uns("scalar expected"),
        }
    }
    fn ve(&self, v: &Val) -> E<Rc<Vec<T>>> {
        match v {
            Val::V(t) => Ok(t.clone()),
            _ => uns("vector expected"),
        }
    }

    // ---- harness interface ----

    fn vf(&mut self, st: &mut State<'m>, name: &str, a: &[Val]) -> E<Option<Val>> {
        match name {
            "vf_param" => {
                let i = self.num(st, &a[0])? as usize;
                let mut v = *self.job.params.get(i).ok_or_else(|| Stop::Unsupported(format!("job parameter {i} missing")))?;
                // the other thread may use another alphabet
                if i == 0 && st.thr.as_ref().map_or(false, |t| t.cur == 1) && self.spec(st).split('@').next().unwrap().ends_with('x') {
                    v ^= 1;
                }
                Ok(Some(Val::S(self.c.konst(v as u128, 64))))
            }
            "vf_nparams" => Ok(Some(Val::S(self.c.konst(self.job.params.len() as u128, 64)))),
            "vf_sym" => {
                let p = self.num(st, &a[0])?;
                let n = self.num(st, &a[1])?;
                let t = self.sym(st, n as usize)?;
                self.write_bytes(st, p, &t, 1)?;
                Ok(None)
            }
            "vf_sym_u64" => {
                let t = self.sym(st, 8)?;
                let v = self.join(&t);
                Ok(Some(Val::S(v)))
            }
            "vf_choose" => {
                let n = self.num(st, &a[0])?;
                if st.tpos < st.trace.len() {
                    let k = match &st.trace[st.tpos] {
                        Ev::Choose(k) => *k,
                        _ => return uns("choice order differs between runs"),
                    };
                    st.tpos += 1;
                    return Ok(Some(Val::S(self.c.konst(k as u128, 64))));
                }
                let d = st.frames.last().unwrap();
                let inst = &d.body.blocks[d.bb as usize][d.ip];
                let dst = inst.dst;
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.trace.push(Ev::Choose(k));
                    o.tpos += 1;
                    let v = self.c.konst(k as u128, 64);
                    self.set(&mut o, dst, Val::S(v));
                    o.frames.last_mut().unwrap().ip += 1;
                    self.work.push(o);
                }
                st.trace.push(Ev::Choose(0));
                st.tpos += 1;
                Ok(Some(Val::S(self.c.konst(0, 64))))
            }
            "vf_assume" => {
                let t = self.bool_arg(&a[0])?;
                if self.c.cv(t) == Some(1) {
                    return Ok(None);
                }
                if self.c.cv(t).is_none() && self.eval_model(st, t) == 1 {
                    self.add_pc(st, t);
                    return Ok(None);
                }
                match self.feasible(st, t)? {
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, t);
                        Ok(None)
                    }
                    None => Err(Stop::Infeasible),
                }
            }
            "vf_assert" => {
                let t = self.bool_arg(&a[0])?;
                let id = self.num(st, &a[1])?;
                if self.job.judge.assert(id) {
                    self.assert_term(st, t, || (format!("assert:{id}"), format!("assertion {id} fails")))?;
                }
                Ok(None)
            }
            "vf_assert_eq" => {
                let p = self.num(st, &a[0])?;
                let q = self.num(st, &a[1])?;
                let n = self.num(st, &a[2])?;
                let id = self.num(st, &a[3])?;
                if self.job.judge.assert(id) {
                    let x = self.read_bytes(st, p, n, 1)?;
                    let y = self.read_bytes(st, q, n, 1)?;
                    for i in 0..n as usize {
                        let l = self.join(&x[i..i + 1]);
                        let r = self.join(&y[i..i + 1]);
                        let e = self.c.eq(l, r);
                        self.assert_term(st, e, || (format!("assert:{id}"), format!("assertion {id} fails: byte {i} of {n} differs")))?;
                    }
                }
                Ok(None)
            }
            "vf_ite" => {
                let c = self.bool_arg(&a[0])?;
                let x = self.sc(&a[1])?;
                let y = self.sc(&a[2])?;
                Ok(Some(Val::S(self.c.ite(c, x, y))))
            }
            "vf_cover" => {
                let id = self.num(st, &a[0])?;
                st.covers.insert(id as u32);
                Ok(None)
            }
            "vf_alloc" => {
                let n = self.num(st, &a[0])?;
                let al = self.num(st, &a[1])?;
                // every other buffer is placed by the upper half of the offset, if there is one
                let o = self.job.judge.off;
                let o = if st.buffers % 2 == 1 && o >> 16 != 0 { (o >> 16) - 1 } else { o & 0xffff };
                st.buffers += 1;
                let p = self.alloc_at(st, n, al.max(1), Kind::Buf, o)?;
                Ok(Some(Val::S(self.c.konst(p as u128, pw()))))
            }
            "vf_protect" => {
                let p = self.num(st, &a[0])?;
                let id = (p >> sh()) as u32;
                if let Some(o) = st.mem.get_mut(&id) {
                    Rc::make_mut(o).ro = true;
                }
                Ok(None)
            }
            "vf_galloc" => {
                let n = self.num(st, &a[0])?;
                let al = self.num(st, &a[1])?;
                let p = self.alloc(st, n, al, Kind::Heap)?;
                Ok(Some(Val::S(self.c.konst(p as u128, pw()))))
            }
            "vf_gdealloc" => {
                let p = self.num(st, &a[0])?;
                let n = self.num(st, &a[1])?;
                let al = self.num(st, &a[2])?;
                self.free(st, p, n, al)?;
                Ok(None)
            }
            "vf_grealloc" => {
                let p = self.num(st, &a[0])?;
                let n = self.num(st, &a[1])?;
                let al = self.num(st, &a[2])?;
                let nn = self.num(st, &a[3])?;
                let old = self.free(st, p, n, al)?;
                let q = self.alloc(st, nn, al, Kind::Heap)?;
                let k = n.min(nn) as usize;
                let d: Vec<T> = old.data[..k].to_vec();
                self.write_bytes(st, q, &d, 1)?;
                Ok(Some(Val::S(self.c.konst(q as u128, pw()))))
            }
            "vf_live" => {
                let n = match &st.thr {
                    None => st.mem.values().filter(|o| o.kind == Kind::Heap).count(),
                    Some(t) => st.mem.iter().filter(|(id, o)| o.kind == Kind::Heap && t.second_heap.contains(id) == (t.cur == 1)).count(),
                };
                Ok(Some(Val::S(self.c.konst(n as u128, 64))))
            }
            "vf_panic_ok" => {
                let c = self.bool_arg(&a[0])?;
                st.panic_ok = Some(c);
                Ok(None)
            }
            "vf_panic_end" => {
                // reached without a panic although one was announced?
                if let Some(c) = st.panic_ok.take() {
                    let n = self.c.not(c);
                    self.assert_term(st, n, || ("panic:missing".into(), "the documented panic did not happen".into()))?;
                }
                Ok(None)
            }
            "vf_result" => {
                let p = self.num(st, &a[0])?;
                let n = self.num(st, &a[1])?;
                let b = self.read_bytes(st, p, n, 1)?;
                let v: Vec<T> = b.iter().map(|x| self.join(&[*x])).collect();
                st.results[st.run].push(v);
                Ok(None)
            }
            "vf_result_u64" => {
                let t = self.sc(&a[0])?;
                st.results[st.run].push(vec![t]);
                Ok(None)
            }
            "vf_mode" => Ok(Some(Val::S(self.c.konst(0, 64)))),
            _ => uns(format!("harness function {name}")),
        }
    }

    fn free(&mut self, st: &mut State<'m>, p: u64, n: u64, al: u64) -> E<Rc<Obj>> {
        let id = (p >> sh()) as u32;
        match st.mem.get(&id) {
            Some(o) if o.kind == Kind::Heap && o.base == p => {
                if o.size != n || o.align != al {
                    return Err(Stop::Violation("memory:dealloc".into(), format!("allocation of size {} align {} freed with size {n} align {al}", o.size, o.align)));
                }
                let o = o.clone();
                st.mem.remove(&id);
                Rc::make_mut(&mut st.freed).insert(id);
                Ok(o)
            }
            _ => {
                let d = self.describe(st, p);
                Err(Stop::Violation("memory:dealloc".into(), format!("free of {d}")))
            }
        }
    }

    fn bool_arg(&mut self, v: &Val) -> E<T> {
        let t = self.sc(v)?;
        if self.c.w(t) == 1 {
            Ok(t)
        } else {
            let w = self.c.w(t);
            let z = self.c.konst(0, w);
            let e = self.c.eq(t, z);
            Ok(self.c.not(e))
        }
    }

    fn sym(&mut self, st: &mut State<'m>, n: usize) -> E<Vec<T>> {
        if st.tpos < st.trace.len() {
            let v = match &st.trace[st.tpos] {
                Ev::Sym(v) if v.len() == n => v.clone(),
                _ => return uns("input order differs between runs"),
            };
            st.tpos += 1;
            return Ok(v);
        }
        let k = st.trace.len();
        let mut v = Vec::with_capacity(n);
        let fixed = self.job.inputs.as_ref().map(|x| {
            let i = st.trace.iter().filter(|e| matches!(e, Ev::Sym(_))).count();
            x.get(i).cloned().unwrap_or_default()
        });
        for i in 0..n {
            let t = match &fixed {
                Some(b) => self.c.byte(b.get(i).copied().unwrap_or(0)),
                None => self.c.var(format!("s{k}_{i}"), 8, false),
            };
            v.push(t);
        }
        st.trace.push(Ev::Sym(v.clone()));
        st.tpos += 1;
        Ok(v)
    }

    fn external(&mut self, st: &mut State<'m>, name: &str, a: &[Val]) -> E<Option<Val>> {
        self.out.intrinsics.insert(name.to_string());
        match name {
            "sched_yield" if st.thr.is_some() => {
                let z = self.c.konst(0, 32);
                let d = here(st);
                self.set(st, d, Val::S(z));
                st.frames.last_mut().unwrap().ip += 1;
                self.wait(st);
                Err(Stop::Retry)
            }
            "syscall" if a.len() >= 3 && self.num(st, &a[0])? == 202 => {
                let op = self.num(st, &a[2])? & 127;
                let z = self.c.konst(0, 64);
                match op {
                    // wait: the other thread has to go on
                    0 | 9 => {
                        if st.thr.as_ref().map_or(true, |t| t.other.is_none()) {
                            return uns("waits for ever");
                        }
                        let d = here(st);
                        self.set(st, d, Val::S(z));
                        st.frames.last_mut().unwrap().ip += 1;
                        self.wait(st);
                        Err(Stop::Retry)
                    }
                    1 | 10 => Ok(Some(Val::S(z))),
                    _ => uns("futex"),
                }
            }
            "memcmp" | "bcmp" => {
                let p = self.num(st, &a[0])?;
                let q = self.num(st, &a[1])?;
                let n = self.num(st, &a[2])?;
                let x = self.read_bytes(st, p, n, 1)?;
                let y = self.read_bytes(st, q, n, 1)?;
                let mut acc = self.c.konst(0, 32);
                for i in (0..n as usize).rev() {
                    let l = self.join(&x[i..i + 1]);
                    let r = self.join(&y[i..i + 1]);
                    let e = self.c.eq(l, r);
                    let dif = if name == "bcmp" {
                        self.c.konst(1, 32)
                    } else {
                        let u = self.c.ult(l, r);
                        let m1 = self.c.konst(u32::MAX as u128, 32);
                        let p1 = self.c.konst(1, 32);
                        self.c.ite(u, m1, p1)
                    };
                    acc = self.c.ite(e, acc, dif);
                }
                Ok(Some(Val::S(acc)))
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2], name == "memmove")?;
                Ok(Some(a[0].clone()))
            }
            _ => uns(format!("external function {name}")),
        }
    }

    fn memcpy(&mut self, st: &mut State<'m>, d: &Val, s: &Val, n: &Val, overlap_ok: bool) -> E<()> {
        let n = self.num(st, n)?;
        if n == 0 {
            return Ok(());
        }
        let d = self.num(st, d)?;
        let s = self.num(st, s)?;
        if !overlap_ok && d != s && d < s.wrapping_add(n) && s < d.wrapping_add(n) {
            return Err(Stop::Violation("ub:overlap".into(), format!("memcpy of {n} overlapping bytes")));
        }
        let b = self.read_bytes(st, s, n, 1)?;
        self.write_bytes(st, d, &b, 1)
    }

    // ---- LLVM intrinsics ----

    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, T, T) -> T) -> E<Option<Val>> {
        Ok(Some(match (a, b) {
            (Val::S(x), Val::S(y)) => Val::S(f(self, *x, *y)),
            (Val::V(x), Val::V(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(f(self, *p, *q));
                }
                Val::V(Rc::new(v))
            }
            _ => return uns("intrinsic operands"),
        }))
    }
    fn lanes1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, T) -> T) -> E<Option<Val>> {
        Ok(Some(match a {
            Val::S(x) => Val::S(f(self, *x)),
            Val::V(x) => {
                let mut v = Vec::with_capacity(x.len());
                for p in x.iter() {
                    v.push(f(self, *p));
                }
                Val::V(Rc::new(v))
            }
            _ => return uns("intrinsic operands"),
        }))
    }

    fn clamp_s(&mut self, t: T, w: u16) -> T {
        // t: wider signed value, saturate to w bits signed
        let tw = self.c.w(t);
        let max = self.c.konst((1u128 << (w - 1)) - 1, tw);
        let min = self.c.konst((mask(tw) << (w - 1)) & mask(tw), tw);
        let g = self.c.slt(max, t);
        let l = self.c.slt(t, min);
        let lo = self.c.extract(t, 0, w);
        let mx = self.c.extract(max, 0, w);
        let mn = self.c.extract(min, 0, w);
        let r = self.c.ite(l, mn, lo);
        self.c.ite(g, mx, r)
    }
    fn clamp_u(&mut self, t: T, w: u16) -> T {
        // t: wider signed value, saturate to w bits unsigned
        let tw = self.c.w(t);
        let max = self.c.konst(mask(w), tw);
        let z = self.c.konst(0, tw);
        let g = self.c.slt(max, t);
        let l = self.c.slt(t, z);
        let lo = self.c.extract(t, 0, w);
        let mx = self.c.konst(mask(w), w);
        let mn = self.c.konst(0, w);
        let r = self.c.ite(l, mn, lo);
        self.c.ite(g, mx, r)
    }

    fn pshufb(&mut self, tab: &[T], idx: T) -> T {
        let allc = tab.iter().all(|t| self.c.cv(*t).is_some());
        if let Some(i) = self.c.cv(idx) {
            return if i & 0x80 != 0 { self.c.byte(0) } else { tab[(i & 15) as usize] };
        }
        if allc {
            let tv: Vec<u128> = tab.iter().map(|t| self.c.cv(*t).unwrap()).collect();
            let hi = self.c.n(idx).hi;
            let n = if hi < 16 { 16 } else { 256 };
            let d: Vec<u128> = (0..n).map(|i| if i & 0x80 != 0 { 0 } else { tv[i & 15] }).collect();
            return self.c.lut(d, 8, idx);
        }
        let low = self.c.extract(idx, 0, 4);
        let mut acc = tab[0];
        for (k, t) in tab.iter().enumerate().skip(1) {
            let kk = self.c.konst(k as u128, 4);
            let e = self.c.eq(low, kk);
            acc = self.c.ite(e, *t, acc);
        }
        let m = self.c.extract(idx, 7, 1);
        let z = self.c.byte(0);
        self.c.ite(m, z, acc)
    }

    fn intrinsic(&mut self, st: &mut State<'m>, name: &str, call: &'m Call, a: &[Val]) -> E<Option<Val>> {
        let base = &name[5..];
        let key: String = {
            // strip type suffixes for reporting
            base.split('.').take_while(|p| !(p.len() > 1 && (p.starts_with('i') || p.starts_with('v')) && p[1..].bytes().all(|c| c.is_ascii_digit() || c == b'i'))).collect::<Vec<_>>().join(".")
        };
        if !self.out.intrinsics.contains(&key) {
            self.out.intrinsics.insert(key.clone());
        }
        if let Some(x) = base.strip_prefix("x86.") {
            return self.x86(st, x, call, a);
        }
        if let Some(x) = base.strip_prefix("aarch64.neon.") {
            return self.neon(st, x.split('.').next().unwrap(), a);
        }
        if let Some(x) = base.strip_prefix("wasm.") {
            return self.wasm(x, a);
        }
        if base.starts_with("lifetime.") || base.starts_with("experimental.noalias") || base.starts_with("dbg.") || base.starts_with("prefetch") || base.starts_with("donothing") || base.starts_with("sideeffect") {
            return Ok(None);
        }
        if base.starts_with("assume") {
            let t = self.bool_arg(&a[0])?;
            if self.c.cv(t) == Some(1) {
                return Ok(None);
            }
            self.assert_term(st, t, || ("ub:assume".into(), "a condition the code promises to the compiler is violated".into()))?;
            return Ok(None);
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            self.memcpy(st, &a[0], &a[1], &a[2], base.starts_with("memmove"))?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let n = self.num(st, &a[2])?;
            if n > 0 {
                let d = self.num(st, &a[0])?;
                let v = self.sc(&a[1])?;
                let b = vec![v; n as usize];
                self.write_bytes(st, d, &b, 1)?;
            }
            return Ok(None);
        }
        if base.starts_with("trap") || base.starts_with("ubsantrap") || base.starts_with("debugtrap") {
            return Err(Stop::Violation("abort:trap".into(), "the program aborts".into()));
        }
        match key.as_str() {
            "umin" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.c.ult(x, y);
                s.c.ite(c, x, y)
            }),
            "umax" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.c.ult(x, y);
                s.c.ite(c, y, x)
            }),
            "smin" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.c.slt(x, y);
                s.c.ite(c, x, y)
            }),
            "smax" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let c = s.c.slt(x, y);
                s.c.ite(c, y, x)
            }),
            "uadd.sat" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.c.w(x);
                let p = s.c.zext(x, w + 1);
                let q = s.c.zext(y, w + 1);
                let t = s.c.add(p, q);
                let o = s.c.extract(t, w, 1);
                let l = s.c.extract(t, 0, w);
                let m = s.c.konst(mask(w), w);
                s.c.ite(o, m, l)
            }),
            "usub.sat" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.c.w(x);
                let l = s.c.ult(x, y);
                let d = s.c.sub(x, y);
                let z = s.c.konst(0, w);
                s.c.ite(l, z, d)
            }),
            "sadd.sat" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.c.w(x);
                let p = s.c.sext(x, w + 1);
                let q = s.c.sext(y, w + 1);
                let t = s.c.add(p, q);
                s.clamp_s(t, w)
            }),
            "ssub.sat" => self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                let w = s.c.w(x);
                let p = s.c.sext(x, w + 1);
                let q = s.c.sext(y, w + 1);
                let t = s.c.sub(p, q);
                s.clamp_s(t, w)
            }),
            "abs" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let m = s.c.extract(x, w - 1, 1);
                let n = s.c.neg(x);
                s.c.ite(m, n, x)
            }),
            "bswap" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let p: Vec<T> = (0..w / 8).map(|i| s.c.extract(x, i * 8, 8)).collect();
                s.c.concat(&p)
            }),
            "bitreverse" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let p: Vec<T> = (0..w).map(|i| s.c.extract(x, i, 1)).collect();
                s.c.concat(&p)
            }),
            "ctpop" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let mut acc = s.c.konst(0, w);
                for i in 0..w {
                    let b = s.c.extract(x, i, 1);
                    let z = s.c.zext(b, w);
                    acc = s.c.add(acc, z);
                }
                acc
            }),
            "cttz" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let mut acc = s.c.konst(w as u128, w);
                for i in (0..w).rev() {
                    let b = s.c.extract(x, i, 1);
                    let k = s.c.konst(i as u128, w);
                    acc = s.c.ite(b, k, acc);
                }
                acc
            }),
            "ctlz" => self.lanes1(&a[0], &mut |s, x| {
                let w = s.c.w(x);
                let mut acc = s.c.konst(w as u128, w);
                for i in 0..w {
                    let b = s.c.extract(x, i, 1);
                    let k = s.c.konst((w - 1 - i) as u128, w);
                    acc = s.c.ite(b, k, acc);
                }
                acc
            }),
            "fshl" | "fshr" => {
                let (x, y, z) = (self.sc(&a[0]), self.sc(&a[1]), self.sc(&a[2]));
                let left = key == "fshl";
                let one = |s: &mut Self, x: T, y: T, z: T| -> E<T> {
                    let w = s.c.w(x);
                    let k = match s.c.cv(z) {
                        Some(k) => (k % w as u128) as u16,
                        None => return uns("funnel shift by a variable"),
                    };
                    let all = s.c.concat(&[x, y]);
                    Ok(if left { s.c.extract(all, w - k, w) } else { s.c.extract(all, k, w) })
                };
                match (x, y, z) {
                    (Ok(x), Ok(y), Ok(z)) => Ok(Some(Val::S(one(self, x, y, z)?))),
                    _ => {
                        let (x, y, z) = (self.ve(&a[0])?, self.ve(&a[1])?, self.ve(&a[2])?);
                        let mut v = Vec::new();
                        for i in 0..x.len() {
                            v.push(one(self, x[i], y[i], z[i])?);
                        }
                        Ok(Some(Val::V(Rc::new(v))))
                    }
                }
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (x, y) = (self.sc(&a[0])?, self.sc(&a[1])?);
                let w = self.c.w(x);
                let (r, o) = match key.as_str() {
                    "uadd.with.overflow" => {
                        let t = self.c.add(x, y);
                        (t, self.c.ult(t, x))
                    }
                    "usub.with.overflow" => (self.c.sub(x, y), self.c.ult(x, y)),
                    "umul.with.overflow" if self.c.cv(x).is_some() || self.c.cv(y).is_some() => {
                        let (k, z) = if let Some(k) = self.c.cv(x) { (k, y) } else { (self.c.cv(y).unwrap(), x) };
                        let t = self.c.mul(x, y);
                        let max = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                        let o = if k == 0 {
                            self.c.konst(0, 1)
                        } else {
                            let l = self.c.konst(max / k, w);
                            self.c.ult(l, z)
                        };
                        (t, o)
                    }
                    "umul.with.overflow" => {
                        let p = self.c.zext(x, 2 * w);
                        let q = self.c.zext(y, 2 * w);
                        let t = self.c.mul(p, q);
                        let h = self.c.extract(t, w, w);
                        let z = self.c.konst(0, w);
                        let e = self.c.eq(h, z);
                        (self.c.extract(t, 0, w), self.c.not(e))
                    }
                    k => {
                        let ew = if k.starts_with("smul") { 2 * w } else { w + 1 };
                        let p = self.c.sext(x, ew);
                        let q = self.c.sext(y, ew);
                        let t = match &k[..4] {
                            "sadd" => self.c.add(p, q),
                            "ssub" => self.c.sub(p, q),
                            _ => self.c.mul(p, q),
                        };
                        let l = self.c.extract(t, 0, w);
                        let b = self.c.sext(l, ew);
                        let e = self.c.eq(b, t);
                        (l, self.c.not(e))
                    }
                };
                Ok(Some(Val::A(Rc::new(vec![Val::S(r), Val::S(o)]))))
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.sc(&a[0])?, self.sc(&a[1])?);
                let w = call.ret.bits() as u16;
                let l = if key == "ucmp" { self.c.ult(x, y) } else { self.c.slt(x, y) };
                let e = self.c.eq(x, y);
                let m = self.c.konst(mask(w), w);
                let z = self.c.konst(0, w);
                let o = self.c.konst(1, w);
                let t = self.c.ite(e, z, o);
                Ok(Some(Val::S(self.c.ite(l, m, t))))
            }
            "threadlocal.address.p0" if st.thr.as_ref().map_or(false, |t| t.cur == 1) => {
                let x = self.num(st, &a[0])?;
                Ok(Some(Val::S(self.c.konst((x + ((threads::TLS as u64) << sh())) as u128, pw()))))
            }
            "expect" | "expect.with.probability" | "ssa.copy" | "launder.invariant.group.p0" | "threadlocal.address.p0" => Ok(Some(a[0].clone())),
            "is.constant" => Ok(Some(Val::S(self.c.ff))),
            k if k.starts_with("vector.reduce.") => {
                let op = &k["vector.reduce.".len()..];
                let v = self.ve(&a[0])?;
                let mut acc = v[0];
                for x in v.iter().skip(1) {
                    acc = match op {
                        "and" => self.c.and(acc, *x),
                        "or" => self.c.or(acc, *x),
                        "xor" => self.c.xor(acc, *x),
                        "add" => self.c.add(acc, *x),
                        "mul" => self.c.mul(acc, *x),
                        "umin" | "umax" | "smin" | "smax" => {
                            let c = if op.starts_with('u') { self.c.ult(acc, *x) } else { self.c.slt(acc, *x) };
                            if op.ends_with("min") {
                                self.c.ite(c, acc, *x)
                            } else {
                                self.c.ite(c, *x, acc)
                            }
                        }
                        _ => return uns(format!("intrinsic {name}")),
                    };
                }
                Ok(Some(Val::S(acc)))
            }
            _ => uns(format!("intrinsic {name}")),
        }
    }

    fn cast_lanes(&mut self, v: &Val, w: u16) -> E<Rc<Vec<T>>> {
        let l = self.ve(v)?;
        let lw = self.c.w(l[0]);
        let n = l.len() as u32 * lw as u32 / w as u32;
        match self.cast(CastOp::Bitcast, &Ty::Other, &Ty::Vec(n, Ty::Int(w).into()), Val::V(l))? {
            Val::V(r) => Ok(r),
            _ => uns("lanes"),
        }
    }

    /// bytes of `t` selected by each index byte; zero where the index is past the table
    fn table(&mut self, t: &[T], ix: &[T]) -> Vec<T> {
        let zero = self.c.konst(0, 8);
        let mut v = Vec::with_capacity(ix.len());
        for i in ix {
            if let Some(k) = self.c.cv(*i) {
                v.push(t.get(k as usize).copied().unwrap_or(zero));
                continue;
            }
            let x = if t.iter().all(|x| self.c.cv(*x).is_some()) {
                let mut tab: Vec<u128> = t.iter().map(|x| self.c.cv(*x).unwrap()).collect();
                tab.resize(256, 0);
                self.c.lut(tab, 8, *i)
            } else {
                let mut acc = zero;
                for (k, x) in t.iter().enumerate() {
                    let kk = self.c.konst(k as u128, 8);
                    let e = self.c.eq(*i, kk);
                    acc = self.c.ite(e, *x, acc);
                }
                acc
            };
            v.push(x);
        }
        v
    }

    fn neon(&mut self, st: &mut State<'m>, op: &str, a: &[Val]) -> E<Option<Val>> {
        match op {
            "tbl1" | "tbl2" | "tbl3" | "tbl4" => {
                let n = a.len() - 1;
                let mut t = Vec::new();
                for x in &a[..n] {
                    t.extend(self.ve(x)?.iter().copied());
                }
                let ix = self.ve(&a[n])?;
                Ok(Some(Val::V(Rc::new(self.table(&t, &ix)))))
            }
            "urhadd" => self.lanes2(&a[0], &a[1], &mut |e, x, y| e.avg(x, y)),
            "uhadd" => self.lanes2(&a[0], &a[1], &mut |e, x, y| {
                let w = e.c.w(x);
                let p = e.c.zext(x, w + 1);
                let q = e.c.zext(y, w + 1);
                let s = e.c.add(p, q);
                e.c.extract(s, 1, w)
            }),
            "st1x2" | "st1x3" | "st1x4" => {
                let n = a.len() - 1;
                let mut p = self.num(st, &a[n])?;
                for x in &a[..n] {
                    let l = self.ve(x)?;
                    let w = self.c.w(l[0]);
                    let ty = Ty::Vec(l.len() as u32, Ty::Int(w).into());
                    let at = self.c.konst(p as u128, pw());
                    self.store(st, &ty, &Val::V(l.clone()), at, 1)?;
                    p += ty.store_size();
                }
                Ok(None)
            }
            "umaxp" | "uminp" | "addp" => {
                let mut l: Vec<T> = self.ve(&a[0])?.to_vec();
                l.extend(self.ve(&a[1])?.iter().copied());
                let mut v = Vec::new();
                for p in l.chunks(2) {
                    v.push(match op {
                        "addp" => self.c.add(p[0], p[1]),
                        _ => {
                            let lt = self.c.ult(p[0], p[1]);
                            if op == "uminp" {
                                self.c.ite(lt, p[0], p[1])
                            } else {
                                self.c.ite(lt, p[1], p[0])
                            }
                        }
                    });
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            _ => uns(format!("intrinsic llvm.aarch64.neon.{op}")),
        }
    }

    fn wasm(&mut self, n: &str, a: &[Val]) -> E<Option<Val>> {
        match n.split(".v").next().unwrap() {
            "swizzle" => {
                let t = self.ve(&a[0])?;
                let ix = self.ve(&a[1])?;
                Ok(Some(Val::V(Rc::new(self.table(&t, &ix)))))
            }
            "avgr.unsigned" => self.lanes2(&a[0], &a[1], &mut |e, x, y| e.avg(x, y)),
            "bitmask" => {
                let mut p: Vec<T> = vec![];
                for t in self.ve(&a[0])?.iter() {
                    let w = self.c.w(*t);
                    p.push(self.c.extract(*t, w - 1, 1));
                }
                p.reverse();
                let t = self.c.concat(&p);
                Ok(Some(Val::S(self.c.zext(t, 32))))
            }
            "anytrue" | "alltrue" => {
                let any = n.starts_with("any");
                let mut acc = if any { self.c.ff } else { self.c.tt };
                for t in self.ve(&a[0])?.iter() {
                    let w = self.c.w(*t);
                    let z = self.c.konst(0, w);
                    let e = self.c.eq(*t, z);
                    let ne = self.c.not(e);
                    acc = if any { self.c.or(acc, ne) } else { self.c.and(acc, ne) };
                }
                Ok(Some(Val::S(self.c.zext(acc, 32))))
            }
            "narrow.unsigned" | "narrow.signed" => {
                let mut l: Vec<T> = self.ve(&a[0])?.to_vec();
                l.extend(self.ve(&a[1])?.iter().copied());
                let w = self.c.w(l[0]) / 2;
                let us = n.starts_with("narrow.u");
                let mut v = Vec::new();
                for t in l {
                    v.push(if us { self.clamp_u(t, w) } else { self.clamp_s(t, w) });
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            _ => uns(format!("intrinsic llvm.wasm.{n}")),
        }
    }

    fn x86(&mut self, st: &mut State<'m>, n: &str, call: &'m Call, a: &[Val]) -> E<Option<Val>> {
        let mut it = n.splitn(2, '.');
        let isa = it.next().unwrap();
        let op = it.next().unwrap_or("");
        let feat = match isa {
            "sse2" => "sse2",
            "sse3" => "sse3",
            "ssse3" => "ssse3",
            "sse41" => "sse4.1",
            "sse42" => "sse4.2",
            "avx" => "avx",
            "avx2" => "avx2",
            "xgetbv" => {
                return Ok(Some(Val::S(self.c.konst(7, 64))));
            }
            "sse" => "sse",
            _ => return uns(format!("intrinsic llvm.x86.{n}")),
        };
        if n == "sse2.pause" {
            if st.thr.is_some() {
                st.frames.last_mut().unwrap().ip += 1;
                self.wait(st);
                return Err(Stop::Retry);
            }
            return Ok(None);
        }
        self.need(st, feat, n)?;
        let opb = op.trim_end_matches(".128").trim_end_matches(".256");
        match opb {
            "pshuf.b" => {
                let t = self.ve(&a[0])?;
                let x = self.ve(&a[1])?;
                let mut v = Vec::with_capacity(x.len());
                for (i, ix) in x.iter().enumerate() {
                    let h = i / 16 * 16;
                    v.push(self.pshufb(&t[h..h + 16], *ix));
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "pmadd.ub.sw" => {
                let x = self.cast_lanes(&a[0], 8)?;
                let y = self.cast_lanes(&a[1], 8)?;
                let mut v = Vec::new();
                for i in 0..x.len() / 2 {
                    let mut acc = self.c.konst(0, 18);
                    for j in [2 * i, 2 * i + 1] {
                        let p = self.c.zext(x[j], 18);
                        let q = self.c.sext(y[j], 18);
                        let t = self.c.mul(p, q);
                        acc = self.c.add(acc, t);
                    }
                    v.push(self.clamp_s(acc, 16));
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "pmadd.wd" => {
                let x = self.cast_lanes(&a[0], 16)?;
                let y = self.cast_lanes(&a[1], 16)?;
                let mut v = Vec::new();
                for i in 0..x.len() / 2 {
                    let mut acc = self.c.konst(0, 32);
                    for j in [2 * i, 2 * i + 1] {
                        let p = self.c.sext(x[j], 32);
                        let q = self.c.sext(y[j], 32);
                        let t = self.c.mul(p, q);
                        acc = self.c.add(acc, t);
                    }
                    v.push(acc);
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "pmulh.w" | "pmulhu.w" => {
                let s = opb == "pmulh.w";
                self.lanes2(&a[0], &a[1], &mut |e, x, y| {
                    let (p, q) = if s { (e.c.sext(x, 32), e.c.sext(y, 32)) } else { (e.c.zext(x, 32), e.c.zext(y, 32)) };
                    let t = e.c.mul(p, q);
                    e.c.extract(t, 16, 16)
                })
            }
            "pmul.hr.sw" => self.lanes2(&a[0], &a[1], &mut |e, x, y| {
                let p = e.c.sext(x, 32);
                let q = e.c.sext(y, 32);
                let t = e.c.mul(p, q);
                let t = e.c.extract(t, 14, 18);
                let one = e.c.konst(1, 18);
                let t = e.c.add(t, one);
                e.c.extract(t, 1, 16)
            }),
            "pavg.b" | "pavg.w" => self.lanes2(&a[0], &a[1], &mut |e, x, y| e.avg(x, y)),
            "packuswb" | "packsswb" | "packusdw" | "packssdw" => {
                let x = self.ve(&a[0])?;
                let y = self.ve(&a[1])?;
                let w = self.c.w(x[0]) / 2;
                let per = 128 / (w as usize * 2);
                let us = opb.starts_with("packus");
                let mut v = Vec::new();
                for h in 0..x.len() / per {
                    for src in [&x, &y] {
                        for i in 0..per {
                            let t = src[h * per + i];
                            v.push(if us { self.clamp_u(t, w) } else { self.clamp_s(t, w) });
                        }
                    }
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "pmovmskb" | "movmsk.ps" | "movmsk.pd" => {
                let x = self.ve(&a[0])?;
                let mut p: Vec<T> = x
                    .iter()
                    .map(|t| {
                        let w = self.c.w(*t);
                        self.c.extract(*t, w - 1, 1)
                    })
                    .collect();
                p.reverse();
                let t = self.c.concat(&p);
                Ok(Some(Val::S(self.c.zext(t, 32))))
            }
            "ptestz" | "ptestc" | "ptestnzc" => {
                let x = self.cast_lanes(&a[0], 64)?;
                let y = self.cast_lanes(&a[1], 64)?;
                let mut z = self.c.tt;
                let mut cc = self.c.tt;
                let zero = self.c.konst(0, 64);
                for (p, q) in x.iter().zip(y.iter()) {
                    let t = self.c.and(*p, *q);
                    let e = self.c.eq(t, zero);
                    z = self.c.and(z, e);
                    let np = self.c.not(*p);
                    let t = self.c.and(np, *q);
                    let e = self.c.eq(t, zero);
                    cc = self.c.and(cc, e);
                }
                let r = match opb {
                    "ptestz" => z,
                    "ptestc" => cc,
                    _ => {
                        let a = self.c.not(z);
                        let b = self.c.not(cc);
                        self.c.and(a, b)
                    }
                };
                Ok(Some(Val::S(self.c.zext(r, 32))))
            }
            "pslli.w" | "pslli.d" | "pslli.q" | "psrli.w" | "psrli.d" | "psrli.q" | "psrai.w" | "psrai.d" => {
                let k = self.num(st, &a[1])?.min(1000) as u16;
                let o = &opb[..4];
                let o = o.to_string();
                self.lanes1(&a[0], &mut |e, x| match o.as_str() {
                    "psll" => e.c.shl_c(x, k),
                    "psrl" => e.c.lshr_c(x, k),
                    _ => e.c.ashr_c(x, k),
                })
            }
            "psll.w" | "psll.d" | "psll.q" | "psrl.w" | "psrl.d" | "psrl.q" | "psra.w" | "psra.d" => {
                let y = self.cast_lanes(&a[1], 64)?;
                let k = self.concretize(st, y[0])?.min(1000) as u16;
                let o = opb[..4].to_string();
                self.lanes1(&a[0], &mut |e, x| match o.as_str() {
                    "psll" => e.c.shl_c(x, k),
                    "psrl" => e.c.lshr_c(x, k),
                    _ => e.c.ashr_c(x, k),
                })
            }
            "psllv.d" | "psllv.q" | "psrlv.d" | "psrlv.q" | "psrav.d" => {
                let o = opb[..4].to_string();
                self.lanes2(&a[0], &a[1], &mut |e, x, y| match o.as_str() {
                    "psll" => e.c.shl(x, y),
                    "psrl" => e.c.lshr(x, y),
                    _ => e.c.ashr(x, y),
                })
            }
            "permd" => {
                let x = self.ve(&a[0])?;
                let ix = self.ve(&a[1])?;
                let mut v = Vec::new();
                for i in ix.iter() {
                    let k = self.c.extract(*i, 0, 3);
                    let mut acc = x[0];
                    for (j, t) in x.iter().enumerate().skip(1) {
                        let kk = self.c.konst(j as u128, 3);
                        let e = self.c.eq(k, kk);
                        acc = self.c.ite(e, *t, acc);
                    }
                    v.push(acc);
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "pblendvb" => {
                let (x, y, m) = (self.ve(&a[0])?, self.ve(&a[1])?, self.ve(&a[2])?);
                let mut v = Vec::new();
                for i in 0..x.len() {
                    let b = self.c.extract(m[i], 7, 1);
                    v.push(self.c.ite(b, y[i], x[i]));
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "psad.bw" => {
                let (x, y) = (self.ve(&a[0])?, self.ve(&a[1])?);
                let mut v = Vec::new();
                for h in 0..x.len() / 8 {
                    let mut acc = self.c.konst(0, 64);
                    for i in 0..8 {
                        let (p, q) = (x[h * 8 + i], y[h * 8 + i]);
                        let l = self.c.ult(p, q);
                        let d1 = self.c.sub(p, q);
                        let d2 = self.c.sub(q, p);
                        let d = self.c.ite(l, d2, d1);
                        let z = self.c.zext(d, 64);
                        acc = self.c.add(acc, z);
                    }
                    v.push(acc);
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "psign.b" | "psign.w" | "psign.d" => self.lanes2(&a[0], &a[1], &mut |e, x, y| {
                let w = e.c.w(x);
                let z = e.c.konst(0, w);
                let neg = e.c.extract(y, w - 1, 1);
                let iz = e.c.eq(y, z);
                let nx = e.c.neg(x);
                let t = e.c.ite(neg, nx, x);
                e.c.ite(iz, z, t)
            }),
            "phadd.w" | "phadd.d" | "phsub.w" | "phsub.d" => {
                let (x, y) = (self.ve(&a[0])?, self.ve(&a[1])?);
                let w = self.c.w(x[0]) as usize;
                let per = 128 / w;
                let sub = opb.starts_with("phsub");
                let mut v = Vec::new();
                for h in 0..x.len() / per {
                    for s in [&x, &y] {
                        for i in 0..per / 2 {
                            let (p, q) = (s[h * per + 2 * i], s[h * per + 2 * i + 1]);
                            v.push(if sub { self.c.sub(p, q) } else { self.c.add(p, q) });
                        }
                    }
                }
                Ok(Some(Val::V(Rc::new(v))))
            }
            "vperm2i128" | "vinserti128" | "vextracti128" => uns(format!("intrinsic llvm.x86.{n}")),
            _ => {
                let _ = call;
                uns(format!("intrinsic llvm.x86.{n}"))
            }
        }
    }
}

fn fr_reg(st: &State, r: u32) -> Val {
    st.frames.last().unwrap().regs[r as usize].clone()
}

fn cst_ty(c: &Cst) -> Ty {
    match c {
        Cst::Int(_, w) => Ty::Int(*w),
        Cst::Undef(t) | Cst::Zero(t) => t.clone(),
        Cst::Struct(_, t) => t.clone(),
        Cst::Global(_) | Cst::Off(..) => Ty::Ptr,
        Cst::Vec(l) => Ty::Vec(l.len() as u32, std::sync::Arc::new(l.first().map(cst_ty).unwrap_or(Ty::Other))),
        Cst::Arr(l) => Ty::Arr(l.len() as u64, std::sync::Arc::new(l.first().map(cst_ty).unwrap_or(Ty::Other))),
        Cst::Bytes(b) => Ty::Arr(b.len() as u64, std::sync::Arc::new(Ty::Int(8))),
        Cst::Bin(_, _, _, w) => Ty::Int(*w),
        Cst::Cast(_, t) => t.clone(),
        Cst::Unsupported(_) => Ty::Other,
    }
}

/// rough readable form of a mangled name: the identifiers it contains
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = if n.starts_with("_ZN") { 3 } else { 2 };
    let mut parts: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if k > 0 {
                if j < b.len() && b[j] == b'_' && j + 1 + k <= b.len() && n.starts_with("_R") {
                    j += 1;
                }
                if j + k <= b.len() {
                    parts.push(n[j..j + k].to_string());
                    i = j + k;
                    continue;
                }
            }
            i = j;
            continue;
        }
        i += 1;
    }
    parts.retain(|p| !(p.len() == 17 && p.starts_with('h')));
    parts.join("::")
}
