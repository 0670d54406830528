//! SMT-LIB back end: printing, a persistent solver process, an alpha-renaming query cache.
use crate::term::*;
use std::collections::{HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown(String),
}

enum Cached {
    Unsat,
    Sat(Vec<u128>),
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub micros: AtomicU64,
    pub max_micros: AtomicU64,
    pub cross: AtomicU64,
    pub cross_none: AtomicU64,
    pub trivial: AtomicU64,
}

pub struct Shared {
    cache: Vec<Mutex<HashMap<u128, Cached>>>,
    pub stats: Stats,
    pub solver_cmd: Vec<String>,
    pub cross_cmd: Option<Vec<String>>,
    pub timeout_ms: u64,
    pub dump: Option<String>,
}

impl Shared {
    pub fn new(solver_cmd: Vec<String>, cross_cmd: Option<Vec<String>>, timeout_ms: u64, dump: Option<String>) -> Self {
        Shared { cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), stats: Stats::default(), solver_cmd, cross_cmd, timeout_ms, dump }
    }
}

struct Proc {
    child: Child,
    sin: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Proc {
    fn spawn(cmd: &[String]) -> std::io::Result<Proc> {
        let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let sin = c.stdin.take().unwrap();
        let out = BufReader::new(c.stdout.take().unwrap());
        Ok(Proc { child: c, sin, out })
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Solver<'a> {
    pub sh: &'a Shared,
    main: Option<Proc>,
    cross: Option<Proc>,
}

struct Canon {
    key: u128,
    order: Vec<T>,
    vars: Vec<u32>,
}

fn mix(h: &mut (u64, u64), x: u64) {
    h.0 = (h.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    h.1 = (h.1.rotate_left(23) ^ x ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0xff51_afd7_ed55_8ccd);
    h.1 ^= h.1 >> 32;
}

/// structural key of a list of terms, variables renamed by first visit
fn canon(c: &Ctx, ts: &[T]) -> Canon {
    let mut num: FMap<T, u32> = FMap::default();
    let mut order = Vec::new();
    let mut vars = Vec::new();
    let mut h = (0x1234u64, 0xabcdu64);
    let mut st: Vec<(T, bool)> = Vec::new();
    for &t in ts.iter().rev() {
        st.push((t, false));
    }
    while let Some((x, done)) = st.pop() {
        if num.contains_key(&x) {
            continue;
        }
        if !done {
            st.push((x, true));
            let mut ch = Vec::new();
            c.children(x, &mut |y| ch.push(y));
            for y in ch.into_iter().rev() {
                st.push((y, false));
            }
            continue;
        }
        num.insert(x, order.len() as u32);
        order.push(x);
        let n = c.n(x);
        let tag: u64 = match &n.op {
            Op::Const(_) => 1,
            Op::Var(_) => 2,
            Op::Not(_) => 3,
            Op::And(..) => 4,
            Op::Or(..) => 5,
            Op::Xor(..) => 6,
            Op::Add(..) => 7,
            Op::Sub(..) => 8,
            Op::Mul(..) => 9,
            Op::UDiv(..) => 10,
            Op::URem(..) => 11,
            Op::SDiv(..) => 12,
            Op::SRem(..) => 13,
            Op::Shl(..) => 14,
            Op::LShr(..) => 15,
            Op::AShr(..) => 16,
            Op::Concat(_) => 17,
            Op::Extract(..) => 18,
            Op::Eq(..) => 19,
            Op::Ult(..) => 20,
            Op::Slt(..) => 21,
            Op::Ite(..) => 22,
            Op::Lut(..) => 23,
        };
        mix(&mut h, tag << 32 | n.w as u64);
        match &n.op {
            Op::Const(v) => {
                mix(&mut h, *v as u64);
                mix(&mut h, (*v >> 64) as u64);
            }
            Op::Var(v) => {
                mix(&mut h, vars.len() as u64);
                vars.push(*v);
            }
            Op::Extract(_, l) => mix(&mut h, *l as u64),
            Op::Lut(tb, _) => {
                let t = &c.tables[*tb as usize];
                mix(&mut h, t.data.len() as u64);
                for v in &t.data {
                    mix(&mut h, *v as u64 ^ ((*v >> 64) as u64).rotate_left(17));
                }
            }
            _ => {}
        }
        c.children(x, &mut |y| mix(&mut h, num[&y] as u64 | 1 << 40));
    }
    for &t in ts {
        mix(&mut h, num[&t] as u64 | 1 << 41);
    }
    Canon { key: (h.0 as u128) << 64 | h.1 as u128, order, vars }
}

/// One output bit of a table as a shared multiplexer graph over the index bits
/// (`name`_0 is the least significant one).  Returns the name of the root.
fn lut_bit(s: &mut String, data: &[bool], bits: usize, name: &str, memo: &mut HashMap<Vec<bool>, String>) -> String {
    if data.iter().all(|x| *x) {
        return "true".into();
    }
    if data.iter().all(|x| !*x) {
        return "false".into();
    }
    let (lo, hi) = data.split_at(data.len() / 2);
    if lo == hi {
        return lut_bit(s, lo, bits - 1, name, memo);
    }
    if let Some(r) = memo.get(data) {
        return r.clone();
    }
    let l = lut_bit(s, lo, bits - 1, name, memo);
    let h = lut_bit(s, hi, bits - 1, name, memo);
    let r = format!("{name}n{}", memo.len());
    let x = format!("{name}_{}", bits - 1);
    let e = match (l.as_str(), h.as_str()) {
        ("false", "true") => {
            memo.insert(data.to_vec(), x.clone());
            return x;
        }
        ("true", "false") => format!("(not {x})"),
        ("false", _) => format!("(and {x} {h})"),
        (_, "false") => format!("(and (not {x}) {l})"),
        ("true", _) => format!("(or (not {x}) {h})"),
        (_, "true") => format!("(or {x} {l})"),
        _ => format!("(ite {x} {h} {l})"),
    };
    let _ = writeln!(s, "(define-fun {r} () Bool {e})");
    memo.insert(data.to_vec(), r.clone());
    r
}

fn bvc(s: &mut String, v: u128, w: u16) {
    if w == 1 {
        s.push_str(if v == 1 { "true" } else { "false" });
    } else if w % 4 == 0 {
        let _ = write!(s, "#x{:0width$x}", v, width = (w / 4) as usize);
    } else {
        let _ = write!(s, "#b{:0width$b}", v, width = w as usize);
    }
}

fn sort(w: u16) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {w})")
    }
}

fn script(c: &Ctx, cn: &Canon, ts: &[T]) -> String {
    let mut s = String::new();
    let mut name: FMap<T, String> = FMap::default();
    let vix: FMap<u32, usize> = cn.vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for (i, v) in cn.vars.iter().enumerate() {
        let _ = writeln!(s, "(declare-const v{i} {})", sort(c.vars[*v as usize].w));
    }
    for (k, &t) in cn.order.iter().enumerate() {
        let n = c.n(t);
        let w = n.w;
        let nm = |y: T| -> &str { name[&y].as_str() };
        let bv = |y: T| -> String {
            if c.w(y) == 1 {
                format!("(ite {} #b1 #b0)", nm(y))
            } else {
                nm(y).to_string()
            }
        };
        let e = match &n.op {
            Op::Const(v) => {
                let mut q = String::new();
                bvc(&mut q, *v, w);
                name.insert(t, q);
                continue;
            }
            Op::Var(v) => {
                name.insert(t, format!("v{}", vix[v]));
                continue;
            }
            Op::Not(a) => {
                if w == 1 {
                    format!("(not {})", nm(*a))
                } else {
                    format!("(bvnot {})", nm(*a))
                }
            }
            Op::And(a, b) => format!("({} {} {})", if w == 1 { "and" } else { "bvand" }, nm(*a), nm(*b)),
            Op::Or(a, b) => format!("({} {} {})", if w == 1 { "or" } else { "bvor" }, nm(*a), nm(*b)),
            Op::Xor(a, b) => format!("({} {} {})", if w == 1 { "xor" } else { "bvxor" }, nm(*a), nm(*b)),
            Op::Add(a, b) | Op::Sub(a, b) if w == 1 => format!("(xor {} {})", nm(*a), nm(*b)),
            Op::Mul(a, b) if w == 1 => format!("(and {} {})", nm(*a), nm(*b)),
            Op::Add(a, b) => format!("(bvadd {} {})", nm(*a), nm(*b)),
            Op::Sub(a, b) => format!("(bvsub {} {})", nm(*a), nm(*b)),
            Op::Mul(a, b) => format!("(bvmul {} {})", nm(*a), nm(*b)),
            Op::UDiv(a, b) if w > 1 => format!("(bvudiv {} {})", nm(*a), nm(*b)),
            Op::URem(a, b) if w > 1 => format!("(bvurem {} {})", nm(*a), nm(*b)),
            Op::SDiv(a, b) if w > 1 => format!("(bvsdiv {} {})", nm(*a), nm(*b)),
            Op::SRem(a, b) if w > 1 => format!("(bvsrem {} {})", nm(*a), nm(*b)),
            Op::Shl(a, b) if w > 1 => format!("(bvshl {} {})", nm(*a), nm(*b)),
            Op::LShr(a, b) if w > 1 => format!("(bvlshr {} {})", nm(*a), nm(*b)),
            Op::AShr(a, b) if w > 1 => format!("(bvashr {} {})", nm(*a), nm(*b)),
            Op::Concat(p) => {
                let mut q = String::from("(concat");
                for y in p.iter() {
                    q.push(' ');
                    q.push_str(&bv(*y));
                }
                q.push(')');
                q
            }
            Op::Extract(a, l) => {
                let h = l + w - 1;
                if w == 1 {
                    format!("(= ((_ extract {h} {l}) {}) #b1)", nm(*a))
                } else {
                    format!("((_ extract {h} {l}) {})", nm(*a))
                }
            }
            Op::Eq(a, b) => format!("(= {} {})", nm(*a), nm(*b)),
            Op::Ult(a, b) => format!("(bvult {} {})", bv(*a), bv(*b)),
            Op::Slt(a, b) => format!("(bvslt {} {})", bv(*a), bv(*b)),
            Op::Ite(a, b, d) => format!("(ite {} {} {})", nm(*a), nm(*b), nm(*d)),
            Op::Lut(tb, ix) => {
                let iw = c.w(*ix);
                let tab = &c.tables[*tb as usize];
                // 2^k entries with k index bits; higher index bits are known to be zero
                let mut bits = 0u16;
                while (1usize << bits) < tab.data.len() {
                    bits += 1;
                }
                let bits = bits.min(iw);
                let pre = format!("l{k}");
                for i in 0..bits {
                    if iw == 1 {
                        let _ = writeln!(s, "(define-fun {pre}_0 () Bool {})", nm(*ix));
                    } else {
                        let _ = writeln!(s, "(define-fun {pre}_{i} () Bool (= ((_ extract {i} {i}) {}) #b1))", nm(*ix));
                    }
                }
                let mut memo = HashMap::new();
                let mut roots = Vec::new();
                for o in (0..tab.w).rev() {
                    let col: Vec<bool> = (0..1usize << bits).map(|i| tab.data.get(i).copied().unwrap_or(0) >> o & 1 == 1).collect();
                    roots.push(lut_bit(&mut s, &col, bits as usize, &pre, &mut memo));
                }
                if roots.len() == 1 {
                    roots.pop().unwrap()
                } else {
                    let mut q = String::from("(concat");
                    for r in &roots {
                        match r.as_str() {
                            "true" => q.push_str(" #b1"),
                            "false" => q.push_str(" #b0"),
                            r => {
                                let _ = write!(q, " (ite {r} #b1 #b0)");
                            }
                        }
                    }
                    q.push(')');
                    q
                }
            }
            _ => format!("(unsupported-{k})"),
        };
        let _ = writeln!(s, "(define-fun t{k} () {} {e})", sort(w));
        name.insert(t, format!("t{k}"));
    }
    for &t in ts {
        let _ = writeln!(s, "(assert {})", name[&t]);
    }
    s
}

fn parse_vals(txt: &str, n: usize) -> Option<Vec<u128>> {
    // ((v0 #x00) (v1 true) ...)
    let mut r = vec![0u128; n];
    let b = txt.as_bytes();
    let mut i = 0;
    let mut cnt = 0;
    while i < b.len() {
        if b[i] == b'v' && i > 0 && (b[i - 1] == b'(') {
            let s = i + 1;
            let mut j = s;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let ix: usize = txt[s..j].parse().ok()?;
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            let st = j;
            while j < b.len() && b[j] != b')' {
                j += 1;
            }
            let v = txt[st..j].trim();
            let val = if v == "true" {
                1
            } else if v == "false" {
                0
            } else if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else if let Some(h) = v.strip_prefix("#b") {
                u128::from_str_radix(h, 2).ok()?
            } else {
                return None;
            };
            *r.get_mut(ix)? = val;
            cnt += 1;
            i = j;
        }
        i += 1;
    }
    if cnt == n {
        Some(r)
    } else {
        None
    }
}

fn ask(p: &mut Proc, sc: &str, nvars: usize) -> Result<Option<Vec<u128>>, String> {
    let mut q = String::with_capacity(sc.len() + 64);
    q.push_str("(set-logic QF_BV)\n");
    q.push_str(sc);
    q.push_str("(check-sat)\n");
    p.sin.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
    p.sin.flush().map_err(|e| e.to_string())?;
    let l = p.line().ok_or("solver died")?;
    let r = match l.as_str() {
        "unsat" => Ok(None),
        "sat" => {
            if nvars == 0 {
                Ok(Some(vec![]))
            } else {
                let mut g = String::from("(get-value (");
                for i in 0..nvars {
                    let _ = write!(g, "v{i} ");
                }
                g.push_str("))\n");
                p.sin.write_all(g.as_bytes()).map_err(|e| e.to_string())?;
                p.sin.flush().map_err(|e| e.to_string())?;
                let mut txt = String::new();
                let mut depth = 0i32;
                loop {
                    let l = p.line().ok_or("solver died")?;
                    if l.contains("(error") {
                        return Err(l);
                    }
                    depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                    txt.push_str(&l);
                    txt.push(' ');
                    if depth <= 0 {
                        break;
                    }
                }
                parse_vals(&txt, nvars).map(Some).ok_or_else(|| format!("cannot parse model: {}", &txt[..txt.len().min(200)]))
            }
        }
        _ => Err(l),
    };
    if r.is_ok() {
        p.sin.write_all(b"(reset)\n").map_err(|e| e.to_string())?;
    }
    r
}

impl<'a> Solver<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        Solver { sh, main: None, cross: None }
    }
    fn run(&mut self, cross: bool, sc: &str, nvars: usize) -> Result<Option<Vec<u128>>, String> {
        let cmd = if cross { self.sh.cross_cmd.as_ref().unwrap() } else { &self.sh.solver_cmd };
        let slot = if cross { &mut self.cross } else { &mut self.main };
        if slot.is_none() {
            *slot = Some(Proc::spawn(cmd).map_err(|e| e.to_string())?);
        }
        let r = ask(slot.as_mut().unwrap(), sc, nvars);
        if r.is_err() {
            // restart after anything unusual
            *slot = None;
        }
        r
    }

    /// satisfiability of the conjunction
    pub fn check(&mut self, c: &Ctx, ts: &[T]) -> Res {
        let mut v: Vec<T> = Vec::with_capacity(ts.len());
        for &t in ts {
            match c.cv(t) {
                Some(0) => {
                    self.sh.stats.trivial.fetch_add(1, Ordering::Relaxed);
                    return Res::Unsat;
                }
                Some(_) => {}
                None => v.push(t),
            }
        }
        if v.is_empty() {
            self.sh.stats.trivial.fetch_add(1, Ordering::Relaxed);
            return Res::Sat(vec![]);
        }
        let st = &self.sh.stats;
        st.queries.fetch_add(1, Ordering::Relaxed);
        let cn = canon(c, &v);
        let shard = &self.sh.cache[(cn.key as usize) & 63];
        if let Some(e) = shard.lock().unwrap().get(&cn.key) {
            st.hits.fetch_add(1, Ordering::Relaxed);
            return match e {
                Cached::Unsat => Res::Unsat,
                Cached::Sat(m) => Res::Sat(cn.vars.iter().copied().zip(m.iter().copied()).collect()),
            };
        }
        let sc = script(c, &cn, &v);
        if let Some(d) = &self.sh.dump {
            let _ = std::fs::write(format!("{d}/{:032x}.smt2", cn.key), format!("(set-logic QF_BV)\n{sc}(check-sat)\n"));
        }
        let t0 = Instant::now();
        let mut r = self.run(false, &sc, cn.vars.len());
        if r.is_err() {
            r = self.run(false, &sc, cn.vars.len());
        }
        let us = t0.elapsed().as_micros() as u64;
        let st = &self.sh.stats;
        st.micros.fetch_add(us, Ordering::Relaxed);
        st.max_micros.fetch_max(us, Ordering::Relaxed);
        match r {
            Ok(m) => {
                if self.sh.cross_cmd.is_some() {
                    match self.run(true, &sc, cn.vars.len()) {
                        Ok(m2) => {
                            st_cross(&self.sh.stats);
                            if m.is_some() != m2.is_some() {
                                return Res::Unknown("solvers disagree".into());
                            }
                        }
                        // no answer in its time: the first solver's stands, and the number of these is reported
                        Err(_) => {
                            self.sh.stats.cross_none.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                }
                match m {
                    None => {
                        self.sh.stats.unsat.fetch_add(1, Ordering::Relaxed);
                        shard.lock().unwrap().insert(cn.key, Cached::Unsat);
                        Res::Unsat
                    }
                    Some(m) => {
                        self.sh.stats.sat.fetch_add(1, Ordering::Relaxed);
                        let out: Vec<(u32, u128)> = cn.vars.iter().copied().zip(m.iter().copied()).collect();
                        // a model the evaluator does not confirm means printer or solver is wrong
                        let env: FMap<u32, u128> = out.iter().copied().collect();
                        let mut memo = FMap::default();
                        for &t in &v {
                            if c.eval(t, &env, &mut memo) != 1 {
                                return Res::Unknown("model does not evaluate to true".into());
                            }
                        }
                        shard.lock().unwrap().insert(cn.key, Cached::Sat(m));
                        Res::Sat(out)
                    }
                }
            }
            Err(e) => {
                self.sh.stats.unknown.fetch_add(1, Ordering::Relaxed);
                Res::Unknown(e)
            }
        }
    }
}
fn st_cross(s: &Stats) {
    s.cross.fetch_add(1, Ordering::Relaxed);
}
