mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use ir::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering::*;
use std::sync::{Condvar, Mutex, RwLock};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    let mut a: HashMap<String, String> = HashMap::new();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < argv.len() { a.insert(argv[i].trim_start_matches('-').to_string(), argv[i + 1].clone()); i += 2; }
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    std::panic::set_hook(Box::new(|_| {}));
    let src = std::fs::read_to_string(get("ll", "")).expect("ll file");
    let t0 = std::time::Instant::now();
    let m = ir::parse(&src);
    drop(src);
    let _ = std::panic::take_hook();
    let tparse = t0.elapsed().as_secs_f64();
    let ext: Vec<Option<Ext>> = m.funcs.iter().map(|f| classify(&f.name, f.body)).collect();
    let mut mem = Mem::new();
    for g in &m.globals {
        let data = g.init.clone().unwrap_or_else(|| vec![0; g.size as usize]);
        mem.add(Obj { data, ro: g.constant, ..Default::default() });
    }
    let entry = get("entry", "");
    let Some(ei) = m.fix.get(&entry).cloned() else { eprintln!("no entry {entry}"); std::process::exit(3) };
    let threads: usize = get("threads", "8").parse().unwrap();
    let known: Vec<String> = std::fs::read_to_string(get("known", "/dev/null")).unwrap_or_default().lines().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect();
    let sh = Shared {
        m, ext, queue: Mutex::new(vec![]), cv: Condvar::new(), idle: 0.into(), stop: false.into(), done: false.into(),
        cache: (0..64).map(|_| RwLock::new(HashMap::new())).collect(), reports: Mutex::new(vec![]), samples: Mutex::new((0, vec![])), stats: Mutex::new(Stats::default()),
        unsup: Mutex::new(HashMap::new()), nworkers: threads, step_limit: get("steps", "20000000").parse().unwrap(), known,
        max_samples: get("samples", "200").parse().unwrap(), paths: 0.into(), covers: 0.into(), max_reports: get("reports", "3").parse().unwrap(),
        forkprof: Mutex::new(HashMap::new()), profile: a.contains_key("profile"), seed: get("seed", "1").parse().unwrap_or(1), trace: a.contains_key("trace"),
    };
    let mut st = State { frames: vec![], mem, cons: vec![], doms: vec![], births: vec![], wit: vec![0; expr::MAXVARS], steps: 0, obs: vec![], notes: vec![], covers: 0, hashtab: None, depth: 0, vfs: vec![], fds: vec![], out: [vec![], vec![]], dirs: vec![], errno: 0 };
    let nparams = sh.m.funcs[ei as usize].nparams;
    let mut args = vec![];
    for k in 0..nparams { args.push(Val::I(get(&format!("arg{k}"), "0").parse().unwrap())); }
    W::new(&sh).enter(&mut st, ei, args, None).ok();
    sh.queue.lock().unwrap().push(st);
    let budget: f64 = get("budget", "60").parse().unwrap();
    let t1 = std::time::Instant::now();
    let mut timed_out = false;
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                let mut w = W::new(&sh);
                w.work();
                let mut g = sh.stats.lock().unwrap();
                let x = &w.st;
                g.paths += x.paths; g.assume_dead += x.assume_dead; g.steps += x.steps; g.forks += x.forks; g.checks_concrete += x.checks_concrete; g.checks_sym += x.checks_sym;
                g.queries += x.queries; g.solver_time += x.solver_time; g.cache_hits += x.cache_hits; g.dom_hits += x.dom_hits; g.wit_hits += x.wit_hits; g.unknown += x.unknown;
                g.slowest = g.slowest.max(x.slowest); g.concretized += x.concretized; g.maxvars = g.maxvars.max(x.maxvars); g.maxsteps = g.maxsteps.max(x.maxsteps);
                g.funcs.extend(x.funcs.iter());
                sh.done.load(Relaxed);
            }).unwrap();
        }
        let mut last = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if sh.done.load(Relaxed) || sh.stop.load(Relaxed) { break; }
            let e = t1.elapsed().as_secs_f64();
            if e > budget { timed_out = true; sh.stop.store(true, Relaxed); break; }
            if a.contains_key("verbose") && e as u64 / 5 > last { last = e as u64 / 5; eprintln!("[{:.0}s] paths {} queue {}", e, sh.paths.load(Relaxed), sh.queue.lock().unwrap().len()); }
        }
    });
    let wall = t1.elapsed().as_secs_f64();
    let g = sh.stats.lock().unwrap();
    let unsup = sh.unsup.lock().unwrap();
    let reports = sh.reports.lock().unwrap();
    let stopped = sh.stop.load(Relaxed);
    let complete = !stopped && unsup.is_empty();
    let mut fns: Vec<&str> = g.funcs.iter().map(|f| sh.m.funcs[*f as usize].name.as_str()).collect();
    fns.sort();
    let mut o = String::from("{");
    o.push_str(&format!("\"complete\":{complete},\"timed_out\":{timed_out},\"parse_s\":{tparse:.3},\"explore_s\":{wall:.3},\"paths\":{},\"assume_dead\":{},\"instructions\":{},\"forks\":{},\"checks_concrete\":{},\"checks_symbolic\":{},\"solver_queries\":{},\"solver_s\":{:.3},\"solver_slowest_s\":{:.3},\"solver_unknown\":{},\"cache_hits\":{},\"domain_decisions\":{},\"witness_hits\":{},\"concretisations\":{},\"max_symbolic_bytes\":{},\"max_path_instructions\":{},\"covers\":{},",
        g.paths, g.assume_dead, g.steps, g.forks, g.checks_concrete, g.checks_sym, g.queries, g.solver_time, g.slowest, g.unknown, g.cache_hits, g.dom_hits, g.wit_hits, g.concretized, g.maxvars, g.maxsteps, sh.covers.load(Relaxed)));
    o.push_str(&format!("\"module_functions\":{},\"functions\":[{}],", sh.m.funcs.iter().filter(|f| f.body).count(), fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    let mut u: Vec<_> = unsup.iter().collect();
    u.sort_by_key(|x| std::cmp::Reverse(*x.1));
    o.push_str(&format!("\"unsupported\":[{}],", u.iter().take(20).map(|(k, v)| format!("{{\"what\":{},\"count\":{}}}", js(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"reports\":[{}],", reports.iter().map(|r| format!("{{\"kind\":{},\"msg\":{},\"bytes\":\"{}\",\"notes\":[{}],\"stack\":[{}]}}", js(&r.kind), js(&r.msg), hex(&r.bytes), r.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(","), r.stack.iter().map(|n| js(n)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    let smp = sh.samples.lock().unwrap();
    o.push_str(&format!("\"samples\":[{}]}}", smp.1.iter().map(|s| format!("{{\"bytes\":\"{}\",\"obs\":[{}]}}", hex(&s.bytes), s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    std::fs::write(get("out", "/dev/stdout"), o + "\n").unwrap();
    if sh.profile {
        let p = sh.forkprof.lock().unwrap();
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.iter().take(25) { eprintln!("{n:8} forks at {}:{}", sh.m.funcs[*f as usize].name, pc); }
    }
    std::process::exit(0);
}
