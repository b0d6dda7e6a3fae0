//! rsym FILE.ll HARNESS --out RESULT.json [options]
mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jl<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}

fn report(e: &Engine, wall: f64) -> String {
    let r = &e.rep;
    let s = &e.solver.stats;
    let mut locs: std::collections::BTreeSet<(String, u32, String)> = Default::default();
    for (w, bits) in e.touched.iter().enumerate() {
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                for (f, l, n) in debug_loc(e.m, (w * 64 + b) as u32) {
                    if f.contains("/repo/") {
                        locs.insert((f, l, n));
                    }
                }
            }
        }
    }
    let mut funcs: std::collections::BTreeSet<String> = Default::default();
    for (i, c) in e.funcs_called.iter().enumerate() {
        if *c && e.m.funcs[i].name.contains("3vt6") {
            funcs.insert(e.m.funcs[i].name.clone());
        }
    }
    let inp = |v: &Vec<(u16, u64)>| jl(v, |(w, x)| format!("[{},{}]", w, x));
    let mut sites: Vec<(u64, String)> = Vec::new();
    for (d, n) in &r.fork_sites {
        let l = debug_loc(e.m, *d).into_iter().take(3).map(|(f, l, n)| format!("{}:{} {}", f, l, n)).collect::<Vec<_>>().join(" <- ");
        sites.push((*n, l));
    }
    sites.sort();
    sites.reverse();
    sites.truncate(40);
    format!(
        "{{\"paths\":{},\"panicked_paths\":{},\"forks\":{},\"steps\":{},\"assumed_out\":{},\"violation_count\":{},\"aborted\":{},\"max_depth\":{},\"max_pc\":{},\"concretized\":{},\"nodes\":{},\"wall\":{:.3},\"solver\":{{\"version\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"seconds\":{:.3},\"max_seconds\":{:.3}}},\"violations\":{},\"inconclusive\":{},\"errors\":{},\"covers\":{{{}}},\"samples\":{},\"functions\":{},\"lines\":{},\"fork_sites\":{}}}",
        r.paths, r.panicked_paths, r.forks, r.steps, r.assumed_out, r.violation_count, r.aborted, r.max_depth, r.max_pc, r.concretized,
        expr::ar().nodes.len(), wall, js(&solver::version()), s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time.as_secs_f64(), s.max.as_secs_f64(),
        jl(&r.violations, |v| format!("{{\"kind\":{},\"location\":{},\"inputs\":{},\"trace\":{}}}", js(&v.kind), js(&v.location), inp(&v.inputs), jl(&v.trace, |t| js(t)))),
        jl(&r.inconclusive, |t| js(t)),
        jl(&r.errors, |t| js(t)),
        r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        jl(&r.samples, |s| format!("{{\"inputs\":{},\"events\":{},\"panicked\":{}}}", inp(&s.inputs), jl(&s.events, |t| js(t)), s.panicked)),
        jl(&funcs, |t| js(t)),
        jl(&locs, |(f, l, n)| format!("[{},{},{}]", js(f), l, js(n))),
        jl(&sites, |(n, l)| format!("[{},{}]", n, js(l)))
    )
}

fn main() {
    // deep recursion over expressions
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: rsym FILE.ll HARNESS --out FILE [--params a,b,..] [--timeout S] [--jobs N] [--samples N] [--max-steps N] [--max-depth N] [--rlimit N] [--seed N] [--profile] [--dump DIR,EVERY,MAX]");
        return 2;
    }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    if a.iter().any(|x| x == "--selftest") {
        match expr::selftest(num("--rounds", 2000) as u32) {
            Ok(n) => {
                println!("{} term evaluations agree", n);
                return 0;
            }
            Err(e) => {
                eprintln!("{}", e);
                return 3;
            }
        }
    }
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let t0 = Instant::now();
    let m = match ir::Module::load(&a[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("rsym: {}", e);
            return 3;
        }
    };
    let jobs = num("--jobs", 1) as usize;
    let opts = Opts {
        max_steps: num("--max-steps", 50_000_000),
        max_depth: num("--max-depth", 400) as usize,
        samples: num("--samples", 0) as usize,
        deadline: t0 + Duration::from_secs(num("--timeout", 600)),
        params: get("--params").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("param")).collect()).unwrap_or_default(),
        seed: num("--seed", 1),
        max_violations: num("--max-violations", 12) as usize,
        profile: a.iter().any(|x| x == "--profile"),
    };
    let mut s = solver::Solver::new(num("--rlimit", 60_000_000) as u32);
    if let Some(d) = get("--dump") {
        let p: Vec<&str> = d.split(',').collect();
        s.dump = Some((p[0].into(), p[1].parse().unwrap(), p[2].parse().unwrap()));
    }
    let mut e = Engine::new(&m, s, opts);
    if let Err(x) = e.start(&a[2]) {
        eprintln!("rsym: {}", x);
        return 3;
    }
    let write = |k: usize, e: &Engine| -> bool {
        let r = report(e, t0.elapsed().as_secs_f64());
        let f = if k == 0 { out.clone() } else { format!("{}.{}", out, k) };
        std::fs::write(&f, r + "\n").is_ok()
    };
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const exec::Pool;
    let pool: &'static exec::Pool = unsafe { &*shared };
    pool.idle.store(jobs.max(1) - 1, std::sync::atomic::Ordering::SeqCst);
    e.pool = Some(pool);
    // Busy processes hand half of their pending paths to a fork of themselves while a slot is idle.
    e.run();
    let me = e.worker;
    let mut ok = me == 0 || write(me, &e);
    pool.idle.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    for p in &e.kids {
        let mut st = 0;
        unsafe { waitpid(*p, &mut st, 0) };
        ok &= st == 0;
    }
    if me != 0 {
        unsafe { _exit(if ok { 0 } else { 3 }) };
    }
    if !ok {
        e.rep.errors.push("a worker process died".into());
    }
    if write(0, &e) {
        0
    } else {
        3
    }
}
