mod exec;
mod ir;
mod solver;
mod term;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut modules: Vec<String> = vec![];
    let mut jobs_file = String::new();
    let mut out = String::from("/dev/stdout");
    let mut threads = 8usize;
    let mut solver = vec!["z3".to_string(), "-in".to_string(), "-smt2".to_string()];
    let mut cross: Option<Vec<String>> = None;
    let mut timeout = 60000u64;
    let mut dump = None;
    let mut trace = false;
    // VF_JOINS=1: join from the start
    let join = std::env::var("VF_JOINS").map_or(false, |x| x == "1");
    let mut deadline = 1e9f64;
    let mut keep_going = false;
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--module" => modules.push(nx()),
            "--jobs" => jobs_file = nx(),
            "--out" => out = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--solver" => solver = nx().split_whitespace().map(String::from).collect(),
            "--cross" => cross = Some(nx().split_whitespace().map(String::from).collect()),
            "--timeout-ms" => timeout = nx().parse().unwrap(),
            "--dump" => dump = Some(nx()),
            "--deadline" => deadline = nx().parse().unwrap(),
            "--trace" => {
                trace = true;
                i -= 1;
            }
            "--keep-going" => {
                keep_going = true;
                i -= 1;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(3);
            }
        }
        i += 2;
    }
    if solver[0].ends_with("z3") || solver[0].ends_with("z3-new") {
        solver.push(format!("-t:{timeout}"));
    }
    let t0 = Instant::now();
    let mut ms = vec![];
    for module in &modules {
        let text = std::fs::read_to_string(module).expect("module");
        // one pointer width per run
        ir::set_pw(if text.lines().take(10).any(|l| l.starts_with("target datalayout") && l.contains("-p:32:32")) { 32 } else { 64 });
        match ir::Module::parse(text) {
            Ok(m) => ms.push(m),
            Err(e) => {
                eprintln!("IR parse error: {e}");
                std::process::exit(3);
            }
        }
    }
    let parse_s = t0.elapsed().as_secs_f64();
    // job line: harness params(comma) cpus(comma) judge max_paths [inputs hex;hex]
    let jobs: Vec<Job> = std::fs::read_to_string(&jobs_file)
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            Job {
                harness: f[0].to_string(),
                params: if f[1] == "-" { vec![] } else { f[1].split(',').map(|x| x.parse().unwrap()).collect() },
                cpus: f[2].split(',').map(String::from).collect(),
                judge: Judge::parse(f[3]),
                max_paths: f[4].parse().unwrap(),
                max_steps: 200_000_000,
                inputs: f.get(5).map(|s| s.split(';').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()),
            }
        })
        .collect();
    let shared = solver::Shared::new(solver, cross, timeout, dump);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        jobs_done: u64,
        paths: u64,
        panics_ok: u64,
        infeasible: u64,
        forks: u64,
        joins: u64,
        again: u64,
        steps: u64,
        asserts: u64,
        asserts_syn: u64,
        mem_checks: u64,
        skipped: u64,
        covers: BTreeMap<String, BTreeSet<u32>>,
        funcs: BTreeMap<String, u64>,
        intr: BTreeSet<String>,
        viol: Vec<String>,
        wit: Vec<String>,
        caches: BTreeMap<String, Vec<u64>>,
        errors: Vec<String>,
        slow: Vec<(f64, String)>,
    }
    let agg = Mutex::new(Agg {
        jobs_done: 0,
        paths: 0,
        panics_ok: 0,
        infeasible: 0,
        forks: 0,
        joins: 0,
        again: 0,
        steps: 0,
        asserts: 0,
        asserts_syn: 0,
        mem_checks: 0,
        skipped: 0,
        covers: BTreeMap::new(),
        funcs: BTreeMap::new(),
        intr: BTreeSet::new(),
        viol: vec![],
        wit: vec![],
        caches: BTreeMap::new(),
        errors: vec![],
        slow: vec![],
    });
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > deadline {
                        agg.lock().unwrap().skipped += 1;
                        continue;
                    }
                    let job = &jobs[k];
                    let label = format!("{}({}) on {}", job.harness, job.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), job.cpus.join("/"));
                    let t1 = Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut e = Exec::new(&ms, &shared, job);
                        e.trace_on = trace;
                        e.joining = join;
                        let o = e.run();
                        if !o.again {
                            return o;
                        }
                        let mut e = Exec::new(&ms, &shared, job);
                        e.trace_on = trace;
                        e.joining = true;
                        e.run()
                    }));
                    let dt = t1.elapsed().as_secs_f64();
                    let mut a = agg.lock().unwrap();
                    match r {
                        Err(_) => a.errors.push(format!("{label}: engine panic")),
                        Ok(o) => {
                            a.jobs_done += 1;
                            a.paths += o.paths;
                            a.panics_ok += o.panics_ok;
                            a.infeasible += o.infeasible;
                            a.forks += o.forks;
                            a.joins += o.joins;
                            a.again += (o.joins > 0) as u64;
                            a.steps += o.steps;
                            a.asserts += o.asserts;
                            a.asserts_syn += o.asserts_syntactic;
                            a.mem_checks += o.mem_checks;
                            a.covers.entry(job.harness.clone()).or_default().extend(o.covers.iter());
                            for (f, n) in &o.funcs {
                                *a.funcs.entry(f.clone()).or_insert(0) += n;
                            }
                            for (c, w) in &o.caches {
                                a.caches.insert(c.clone(), w.clone());
                            }
                            if let Some((t, r)) = &o.witness {
                                a.wit.push(format!(
                                    "{{\"harness\":{},\"params\":{},\"cpu\":{},\"trace\":{},\"results\":{}}}",
                                    js(&job.harness),
                                    jl(job.params.iter().map(|x| x.to_string())),
                                    js(&job.cpus[0]),
                                    jl(t.iter().map(|x| js(x))),
                                    jl(r.iter().map(|x| js(x)))
                                ));
                            }
                            a.intr.extend(o.intrinsics.iter().cloned());
                            a.slow.push((dt, label.clone()));
                            if let Some(e) = o.error {
                                a.errors.push(format!("{label}: {e}"));
                            } else if o.paths == 0 && o.violation.is_none() {
                                a.errors.push(format!("{label}: vacuous (no feasible path)"));
                            }
                            if let Some(v) = o.violation {
                                a.viol.push(format!(
                                    "{{\"harness\":{},\"params\":{},\"cpus\":{},\"kind\":{},\"msg\":{},\"run\":{},\"trace\":{},\"cache\":{},\"stack\":{}}}",
                                    js(&job.harness),
                                    jl(job.params.iter().map(|x| x.to_string())),
                                    jl(job.cpus.iter().map(|x| js(x))),
                                    js(&v.kind),
                                    js(&v.msg),
                                    v.run,
                                    jl(v.trace.iter().map(|x| js(x))),
                                    jl(v.cache_words.iter().map(|x| x.to_string())),
                                    jl(v.stack.iter().map(|x| js(x)))
                                ));
                                if a.viol.len() >= 24 && !keep_going {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.slow.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    a.slow.truncate(8);
    let st = &shared.stats;
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Ordering::Relaxed);
    let s = format!(
        "{{\"jobs\":{},\"jobs_done\":{},\"skipped\":{},\"paths\":{},\"panics_ok\":{},\"infeasible\":{},\"forks\":{},\"joins\":{},\"joined_jobs\":{},\"steps\":{},\"asserts\":{},\"asserts_syntactic\":{},\"mem_checks\":{},\"queries\":{},\"cache_hits\":{},\"solver_sat\":{},\"solver_unsat\":{},\"solver_unknown\":{},\"cross_checked\":{},\"cross_no_answer\":{},\"trivial\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"parse_s\":{:.3},\"wall_s\":{:.3},\"covers\":{{{}}},\"funcs\":{{{}}},\"intrinsics\":{},\"slow\":{},\"caches\":{{{}}},\"witnesses\":{},\"violations\":{},\"errors\":{}}}\n",
        jobs.len(),
        a.jobs_done,
        a.skipped,
        a.paths,
        a.panics_ok,
        a.infeasible,
        a.forks,
        a.joins,
        a.again,
        a.steps,
        a.asserts,
        a.asserts_syn,
        a.mem_checks,
        g(&st.queries),
        g(&st.hits),
        g(&st.sat),
        g(&st.unsat),
        g(&st.unknown),
        g(&st.cross),
        g(&st.cross_none),
        g(&st.trivial),
        g(&st.micros) as f64 / 1e6,
        g(&st.max_micros) as f64 / 1e6,
        parse_s,
        t0.elapsed().as_secs_f64(),
        a.covers.iter().map(|(k, v)| format!("{}:{}", js(k), jl(v.iter().map(|x| x.to_string())))).collect::<Vec<_>>().join(","),
        a.funcs.iter().map(|(k, v)| format!("{}:{}", js(&demangle(k)), v)).collect::<Vec<_>>().join(","),
        jl(a.intr.iter().map(|x| js(x))),
        jl(a.slow.iter().map(|(t, l)| format!("[{t:.2},{}]", js(l)))),
        a.caches.iter().map(|(k, v)| format!("{}:{}", js(k), jl(v.iter().map(|x| x.to_string())))).collect::<Vec<_>>().join(","),
        jl(a.wit.iter().cloned()),
        jl(a.viol.iter().cloned()),
        jl(a.errors.iter().take(40).map(|x| js(x))),
    );
    std::fs::File::create(&out).and_then(|mut f| f.write_all(s.as_bytes())).expect("out");
}
