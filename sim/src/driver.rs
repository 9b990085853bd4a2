// Runs many simulated executions in forked children, collects, minimises, reports.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::time::Instant;
use crate::ffi::{self, SimShared, Decision, NKINDS, KIND_NAMES};
use crate::plan::Plan;
use crate::rng::{Rng, mix, hash_str};

extern "C" {
    fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn alarm(s: u32) -> u32; fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn pipe(p: *mut i32) -> i32; fn close(fd: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32; fn setrlimit(w: i32, l: *const u64) -> i32; fn open(p: *const u8, f: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub struct Scn {
    pub prop: &'static str,
    pub gen: fn(&mut Rng, &mut Plan),
    pub run: fn(&Plan),
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    pub probes: &'static [&'static str],
    pub warm: fn(),
}

#[derive(Clone)]
pub struct Outcome {
    pub status: u32, pub class: String, pub msg: String,
    pub ticks: u64, pub points: u64, pub switches: u64, pub preempts: u64, pub sim_ns: u64, pub trace: u64, pub order: u64, pub edges: u64, pub threads: u64,
    pub fired: [u64; NKINDS], pub probes: [u64; 64], pub escapes: u64, pub ops: u64, pub decisions: Vec<Decision>,
}

pub unsafe fn shared_alloc(n: usize) -> *mut u8 { let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0); assert!(p as isize != -1); p }

pub static mut PANICS: Vec<(i32, String)> = Vec::new();
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m: String = m.chars().take(600).collect();
        if ffi::active() { unsafe { PANICS.push((ffi::tid(), format!("{} at {}", m, loc))); } }
        else { eprintln!("harness panic: {} at {}", m, loc) }
    }));
}
pub fn panics() -> Vec<(i32, String)> { unsafe { PANICS.clone() } }

pub fn child_body(scn: &Scn, plan: &Plan, sh: *mut SimShared, trace: u32) -> ! {
    unsafe {
        { let n = open(b"/dev/null\0".as_ptr(), 1); if n >= 0 { dup2(n, 1); } } // stray prints of the code under test
        alarm(400);
        let lim = [40u64, 50u64]; setrlimit(0, lim.as_ptr()); // CPU seconds: a busy machine cannot trip it
        let mut cfg = plan.cfg;
        cfg.trace = trace;
        if let Some(d) = &plan.decisions { cfg.replay = 1; cfg.table = d.as_ptr(); cfg.ntable = d.len() as u64; }
        ffi::sim_arena_on = 1;
        ffi::SHARED = sh;
        ffi::sim_start(&cfg, sh, plan.num("hash_seed") + 1);
        let run = scn.run;
        let p = plan.clone();
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(&p)).unwrap();
        if h.join().is_err() {
            let m = PANICS.last().map(|x| x.1.clone()).unwrap_or_default();
            ffi::fail(&format!("panic: {}", m));
        }
        ffi::sim_end();
        _exit(0)
    }
}

pub fn execute(scn: &Scn, plan: &Plan, sh: *mut SimShared, trace: u32) -> Outcome {
    unsafe {
        std::ptr::write_bytes(sh as *mut u8, 0, std::mem::size_of::<SimShared>() - std::mem::size_of::<Decision>() * ffi::LOGCAP);
        std::io::stdout().flush().ok();
        let pid = fork();
        if pid == 0 { child_body(scn, plan, sh, trace); }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let s = &*sh;
        let sig = st & 0x7f;
        let end = s.msg.iter().position(|&c| c == 0).unwrap_or(s.msg.len());
        let mut msg = String::from_utf8_lossy(&s.msg[..end]).into_owned();
        let mut status = s.status;
        let class = if status == ffi::RUNNING || status == ffi::OK && sig != 0 {
            status = ffi::VIOLATION;
            if sig == 24 { msg = "hang: the run used 40 s of CPU time without finishing".into(); "hang".to_string() }
            else if sig == 14 || sig == 9 || sig == 15 { status = ffi::HARNESS; msg = format!("run ended by signal {} (wall clock limit or memory)", sig); "harness".to_string() }
            else { msg = format!("crash: the process died of signal {} ({})", sig, if sig == 11 { "invalid access or stack overflow" } else if sig == 6 { "abort" } else { "?" }); if plan.flag("capture") { msg += " in the capture probe"; } "crash".to_string() }
        } else { match status { 0 => String::new(), 2 => { msg = format!("deadlock: {}", msg); "deadlock".into() } 3 => { msg = format!("livelock: {}", msg); "livelock".into() } 5 => "harness".into(), _ => msg.split(':').next().unwrap_or("").to_string() } };
        if status == ffi::DEADLOCK || status == ffi::LIVELOCK { status = ffi::VIOLATION; }
        Outcome { status, class, msg, ticks: s.ticks, points: s.points, switches: s.switches, preempts: s.preempts, sim_ns: s.sim_ns, trace: s.trace_hash, order: s.order_hash, edges: s.edges, threads: s.nthreads,
            fired: s.fired, probes: s.probes, escapes: s.escapes, ops: s.opcount, decisions: if status == 0 { Vec::new() } else { s.log[..s.nlog as usize].to_vec() } }
    }
}

pub fn make_plan(scn: &Scn, master: u64, index: u64) -> Plan {
    let seed = mix(mix(master, hash_str(scn.prop)), index) >> 1;
    let mut p = Plan::new(scn.prop, seed);
    let mut r = Rng::new(seed);
    (scn.gen)(&mut r, &mut p);
    p
}

// ---- aggregated statistics, sent from workers as text lines ----
#[derive(Default)]
struct Agg { runs: u64, ticks: u64, points: u64, switches: u64, preempts: u64, sim_ns: u64, threads: u64, ops: u64, escapes: u64, fired: BTreeMap<String, u64>, fired_runs: BTreeMap<String, u64>, probes: BTreeMap<usize, u64>, orders: BTreeSet<u64>, traces: BTreeSet<u64>, max_ticks: u64, max_points: u64 }

pub struct Known { pub property: String, pub class: String, pub pat: String, pub what: String }
pub fn load_known() -> Vec<Known> {
    let t = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.trim(); if !l.starts_with("known:") { return None }
        let mut k = Known { property: String::new(), class: String::new(), pat: String::new(), what: String::new() };
        for f in l["known:".len()..].split('|') { let f = f.trim(); let mut it = f.splitn(2, '='); match (it.next(), it.next()) { (Some("property"), Some(v)) => k.property = v.into(), (Some("class"), Some(v)) => k.class = v.into(), (Some("match"), Some(v)) => k.pat = v.into(), (Some("what"), Some(v)) => k.what = v.into(), _ => {} } }
        Some(k)
    }).collect()
}
fn known_for<'a>(ks: &'a [Known], prop: &str, o: &Outcome) -> Option<&'a Known> { ks.iter().find(|k| k.property == prop && k.class == o.class && (k.pat.is_empty() || o.msg.contains(&k.pat))) }

pub fn workers() -> usize { std::env::var("FALLSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) }

pub fn check(scn: &Scn, tier: &str, master: u64) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let runs = std::env::var("FALLSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { scn.thorough } else { scn.quick });
    let cap_s: u64 = std::env::var("FALLSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 330 });
    println!("fallsim check property={} tier={} VERIF_SEED={} runs={} workers={}", scn.prop, tier, master, runs, workers());
    unsafe { ffi::sim_arena_on = 1; }
    (scn.warm)();
    unsafe { ffi::sim_arena_on = 0; ffi::sim_edges_prepare(); }
    let known = load_known();
    let total_edges = unsafe { ffi::sim_edges_total() } as usize;
    let counter = unsafe { shared_alloc(4096) } as *mut std::sync::atomic::AtomicU64; // [0] next index, [1] lowest violating index + 1
    let edges = unsafe { shared_alloc(total_edges + 64) };
    unsafe { (*counter.add(1)).store(u64::MAX, std::sync::atomic::Ordering::SeqCst); ffi::sim_edges_share(edges, total_edges as u64); }
    let nw = workers();
    let mut pipes = Vec::new(); let mut pids = Vec::new();
    for _w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe { assert!(pipe(fds.as_mut_ptr()) == 0); }
        let pid = unsafe { fork() };
        if pid == 0 { unsafe { close(fds[0]); prctl(1, 9, 0, 0, 0); } worker(scn, master, runs, counter, fds[1], &known, t0, cap_s); }
        unsafe { close(fds[1]); }
        pipes.push(fds[0]); pids.push(pid);
    }
    let mut agg = Agg::default();
    let mut viols: BTreeMap<u64, String> = BTreeMap::new();
    let mut knowns: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut harness_err = Vec::new();
    let mut nondet = 0u64; let mut twice = 0u64;
    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
    let mut by_class: BTreeMap<String, u64> = BTreeMap::new();
    for (fd, pid) in pipes.into_iter().zip(pids) {
        let mut text = String::new();
        { let mut f = unsafe { std::fs::File::from_raw_fd(fd) }; f.read_to_string(&mut text).ok(); }
        let mut st = 0; unsafe { waitpid(pid, &mut st, 0); }
        if st != 0 { harness_err.push(format!("worker died: status {}", st)); }
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap_or(0);
            match w[0] {
                "agg" => { agg.runs += n(1); agg.ticks += n(2); agg.points += n(3); agg.switches += n(4); agg.preempts += n(5); agg.sim_ns += n(6); agg.threads += n(7); agg.ops += n(8); agg.escapes += n(9); agg.max_ticks = agg.max_ticks.max(n(10)); agg.max_points = agg.max_points.max(n(11)); }
                "fired" => { *agg.fired.entry(w[1].into()).or_insert(0) += n(2); *agg.fired_runs.entry(w[1].into()).or_insert(0) += n(3); }
                "probe" => { *agg.probes.entry(n(1) as usize).or_insert(0) += n(2); }
                "order" => { agg.orders.insert(n(1)); }
                "trace" => { agg.traces.insert(n(1)); }
                "viol" => { viols.insert(n(1), w[2..].join(" ")); *by_class.entry(w[2].trim_end_matches(':').into()).or_insert(0) += 1; }
                "known" => { let e = knowns.entry(w[1].into()).or_insert((0, String::new())); e.0 += 1; e.1 = w[2..].join(" "); }
                "harness" => harness_err.push(w[1..].join(" ")),
                "nondet" => { nondet += 1; eprintln!("nondeterminism in run {}", l); }
                "twice" => twice += n(1),
                "sample" => { samples.insert(n(1), w[2..].join(" ")); }
                _ => {}
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let nedges = unsafe { std::slice::from_raw_parts(edges, total_edges).iter().filter(|x| **x != 0).count() };
    let mut code = 0;
    let mut replay_path = String::new();
    for k in &known { if k.property == scn.prop { println!("KNOWN-FINDING: property={} {}", scn.prop, k.what); } }
    if !harness_err.is_empty() { for e in harness_err.iter().take(5) { eprintln!("HARNESS ERROR: {}", e); } code = 2; }
    if let Some((&idx, msg)) = viols.iter().next() {
        println!("run {} violates {}: {}", idx, scn.prop, crate::plan::unesc(msg));
        if let Some(n) = std::env::var("FALLSIM_SHOW").ok().and_then(|s| s.parse::<usize>().ok()) { for (i, m) in viols.iter().take(n) { println!("  {} {}", i, m.chars().take(300).collect::<String>()); } }
        println!("violating runs: {} of {} ({:?})", viols.len(), agg.runs, by_class);
        replay_path = minimise_and_write(scn, master, idx, &known);
        println!("VIOLATION property={} replay={}", scn.prop, replay_path);
        code = 1;
    }
    println!("runs={} wall={:.1}s runs/h={:.0} sim_time={:.1}s points={} switches={} preemptions={} distinct_orders={} distinct_traces={} edges={}/{} rerun_checked={} nondeterministic={}",
        agg.runs, wall, agg.runs as f64 / wall * 3600.0, agg.sim_ns as f64 / 1e9, agg.points, agg.switches, agg.preempts, agg.orders.len(), agg.traces.len(), nedges, total_edges, twice, nondet);
    println!("faults fired: {:?}", agg.fired);
    let named: Vec<String> = agg.probes.iter().map(|(i, n)| format!("{}={}", scn.probes.get(*i).copied().unwrap_or(match i { 60 => "inotify_overflow", 61 => "bad_file_hit", _ => "?" }), n)).collect();
    println!("probes: {}", named.join(" "));
    if std::env::var("FALLSIM_NO_EVIDENCE").is_err() {
        let ev = evidence(scn, tier, master, &agg, wall, nedges, total_edges, twice, nondet, viols.len() as u64, &knowns, &samples, &replay_path);
        std::fs::create_dir_all("/verif/evidence").ok();
        std::fs::write(format!("/verif/evidence/{}.json", scn.prop), ev).ok();
    }
    if agg.runs == 0 && code == 0 { eprintln!("HARNESS ERROR: no run finished"); code = 2; }
    code
}

fn worker(scn: &Scn, master: u64, runs: u64, counter: *mut std::sync::atomic::AtomicU64, fd: i32, known: &[Known], t0: Instant, cap_s: u64) -> ! {
    use std::sync::atomic::Ordering::SeqCst;
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let sh = unsafe { shared_alloc(std::mem::size_of::<SimShared>()) } as *mut SimShared;
    let mut a = Agg::default();
    let mut buf = String::new();
    let mut twice = 0;
    loop {
        let i = unsafe { (*counter).fetch_add(1, SeqCst) };
        if i >= runs || t0.elapsed().as_secs() >= cap_s { break }
        if unsafe { (*counter.add(1)).load(SeqCst) } < i { break } // a lower index already failed
        let plan = make_plan(scn, master, i);
        let o = execute(scn, &plan, sh, 0);
        a.runs += 1; a.ticks += o.ticks; a.points += o.points; a.switches += o.switches; a.preempts += o.preempts; a.sim_ns += o.sim_ns; a.threads += o.threads; a.ops += o.ops; a.escapes += o.escapes;
        a.max_ticks = a.max_ticks.max(o.ticks); a.max_points = a.max_points.max(o.points);
        for k in 0..NKINDS { if o.fired[k] > 0 { *a.fired.entry(KIND_NAMES[k].into()).or_insert(0) += o.fired[k]; *a.fired_runs.entry(KIND_NAMES[k].into()).or_insert(0) += 1; } }
        for k in 0..64 { if o.probes[k] > 0 { *a.probes.entry(k).or_insert(0) += o.probes[k]; } }
        a.orders.insert(o.order); if o.probes[63] > 0 { a.traces.insert(o.trace); }
        if i % 97 == 3 || (i < 16 && i % 4 == 1) {
            twice += 1;
            let o2 = execute(scn, &plan, sh, 0);
            if o2.trace != o.trace || o2.ticks != o.ticks || o2.class != o.class { buf += &format!("nondet {} {} {} ticks {} {}\n", i, o.trace, o2.trace, o.ticks, o2.ticks); }
        }
        if i < 4 { buf += &format!("sample {} {}\n", i, crate::plan::esc(&format!("seed={} ops={} params={:?}", plan.seed, plan.ops.len(), plan.params).chars().take(300).collect::<String>())); }
        if o.status == ffi::HARNESS { buf += &format!("harness run {}: {}\n", i, crate::plan::esc(&o.msg)); }
        else if o.status != 0 {
            if let Some(k) = known_for(known, scn.prop, &o) { buf += &format!("known {}/{} run {}: {}\n", k.class.replace(' ', "_"), k.pat.replace(' ', "_"), i, crate::plan::esc(&o.msg).chars().take(300).collect::<String>()); }
            else {
                buf += &format!("viol {} {}\n", i, crate::plan::esc(&o.msg));
                if std::env::var("FALLSIM_KEEP_GOING").is_err() {
                    let c = unsafe { &*counter.add(1) };
                    let mut cur = c.load(SeqCst);
                    while i < cur { match c.compare_exchange(cur, i, SeqCst, SeqCst) { Ok(_) => break, Err(x) => cur = x } }
                }
            }
        }
    }
    buf += &format!("agg {} {} {} {} {} {} {} {} {} {} {}\n", a.runs, a.ticks, a.points, a.switches, a.preempts, a.sim_ns, a.threads, a.ops, a.escapes, a.max_ticks, a.max_points);
    for (k, v) in &a.fired { buf += &format!("fired {} {} {}\n", k, v, a.fired_runs[k]); }
    for (k, v) in &a.probes { buf += &format!("probe {} {}\n", k, v); }
    for v in &a.orders { buf += &format!("order {}\n", v); }
    for v in &a.traces { buf += &format!("trace {}\n", v); }
    buf += &format!("twice {}\n", twice);
    out.write_all(buf.as_bytes()).ok();
    drop(out);
    unsafe { _exit(0) }
}

fn same(o: &Outcome, class: &str, known: &[Known], prop: &str) -> bool { o.status == ffi::VIOLATION && o.class == class && known_for(known, prop, o).is_none() }

fn minimise_and_write(scn: &Scn, master: u64, idx: u64, known: &[Known]) -> String {
    let t0 = Instant::now();
    let sh = unsafe { shared_alloc(std::mem::size_of::<SimShared>()) } as *mut SimShared;
    let base = make_plan(scn, master, idx);
    let o = execute(scn, &base, sh, 0);
    let class = o.class.clone();
    let mut best = base.clone();
    best.decisions = Some(o.decisions.clone());
    best.class = class.clone();
    let r = execute(scn, &best, sh, 0);
    let mut msg = o.msg.clone();
    if !same(&r, &class, known, scn.prop) {
        println!("note: the decision trace alone does not reproduce ({}); the replay file keeps the seed", r.msg);
        best.decisions = None;
    } else { msg = r.msg }
    let budget = 60;
    let mut tries = 0;
    let mut attempt = |cand: &Plan, tries: &mut u64| -> Option<(Plan, String)> {
        *tries += 1;
        let o = execute(scn, cand, sh, 0);
        if same(&o, &class, known, scn.prop) { let mut c = cand.clone(); if c.decisions.is_some() { c.decisions = Some(o.decisions); } Some((c, o.msg)) } else { None }
    };
    // 1. no schedule or fault decisions at all
    if best.decisions.is_some() { let mut c = best.clone(); c.decisions = Some(vec![]); if let Some((p, m)) = attempt(&c, &mut tries) { best = p; msg = m; } }
    for _round in 0..4 {
        let before = (best.ops.len(), best.decisions.as_ref().map(|d| d.len()));
        // 2. drop operations
        let mut chunk = (best.ops.len() + 1) / 2;
        while chunk >= 1 && t0.elapsed().as_secs() < budget {
            let mut i = 0;
            while i < best.ops.len() && t0.elapsed().as_secs() < budget {
                let mut c = best.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if let Some((p, m)) = attempt(&c, &mut tries) { best = p; msg = m; } else { i += chunk; }
            }
            if chunk == 1 { break }
            chunk /= 2;
        }
        // 3. drop decisions
        if best.decisions.is_some() {
            let mut chunk = (best.decisions.as_ref().unwrap().len() + 1) / 2;
            while chunk >= 1 && t0.elapsed().as_secs() < budget {
                let mut i = 0;
                while i < best.decisions.as_ref().unwrap().len() && t0.elapsed().as_secs() < budget {
                    let mut c = best.clone();
                    { let d = c.decisions.as_mut().unwrap(); let e = (i + chunk).min(d.len()); d.drain(i..e); }
                    let want = c.decisions.as_ref().unwrap().len();
                    match attempt(&c, &mut tries) { Some((p, m)) if p.decisions.as_ref().unwrap().len() <= want => { best = p; msg = m; } _ => i += chunk }
                }
                if chunk == 1 { break }
                chunk /= 2;
            }
        }
        if before == (best.ops.len(), best.decisions.as_ref().map(|d| d.len())) || t0.elapsed().as_secs() >= budget { break }
    }
    let a = execute(scn, &best, sh, 0);
    let b = execute(scn, &best, sh, 0);
    best.note = format!("{}\nfound by VERIF_SEED={} run {}; minimised in {} re-runs; two replays agree: {} (trace {:016x})", msg, master, idx, tries, a.trace == b.trace && a.class == b.class, a.trace);
    std::fs::create_dir_all("/verif/replays").ok();
    let path = format!("/verif/replays/{}-{}-{}.replay", scn.prop, master, idx);
    std::fs::write(&path, best.to_text()).ok();
    println!("minimised: {} operations, {} decisions -> {}", best.ops.len(), best.decisions.as_ref().map(|d| d.len() as i64).unwrap_or(-1), msg);
    path
}

pub fn replay(scn: &Scn, plan: &Plan, trace: u32) -> i32 {
    install_hook();
    unsafe { ffi::sim_arena_on = 1; }
    (scn.warm)();
    unsafe { ffi::sim_arena_on = 0; ffi::sim_edges_prepare(); }
    let sh = unsafe { shared_alloc(std::mem::size_of::<SimShared>()) } as *mut SimShared;
    let o = execute(scn, plan, sh, trace);
    println!("status={} class={} trace={:016x} points={} ticks={} sim_ms={}\n{}", o.status, o.class, o.trace, o.points, o.ticks, o.sim_ns / 1000000, o.msg);
    if o.status != 0 && std::env::var("FALLSIM_MIN").is_ok() { let mut i = 0; while i < 1 << 40 { if make_plan(scn, 1, i).seed == plan.seed { break } i += 1; } println!("{}", minimise_and_write(scn, 1, i, &[])); }
    if o.status == ffi::HARNESS { return 2 }
    if o.status != 0 { println!("VIOLATION property={} replay=-", plan.property); 1 } else { 0 }
}

/// Runs every index twice (in this process) and prints one line per run: used to compare event logs between processes.
pub fn hashes(scn: &Scn, master: u64, from: u64, n: u64) -> i32 {
    install_hook();
    unsafe { ffi::sim_arena_on = 1; }
    (scn.warm)();
    unsafe { ffi::sim_arena_on = 0; ffi::sim_edges_prepare(); }
    let sh = unsafe { shared_alloc(std::mem::size_of::<SimShared>()) } as *mut SimShared;
    for i in from..from + n { let p = make_plan(scn, master, i); let o = execute(scn, &p, sh, 0); println!("{} {} {} {:016x} {:016x} {} {} {}", scn.prop, i, o.status, o.trace, o.order, o.ticks, o.points, o.class); }
    0
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }

fn evidence(scn: &Scn, tier: &str, master: u64, a: &Agg, wall: f64, nedges: usize, total_edges: usize, twice: u64, nondet: u64, viols: u64, knowns: &BTreeMap<String, (u64, String)>, samples: &BTreeMap<u64, String>, replay: &str) -> String {
    let fired: Vec<String> = a.fired.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let fruns: Vec<String> = a.fired_runs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let probes: Vec<String> = a.probes.iter().map(|(i, v)| format!("{}: {}", js(scn.probes.get(*i).copied().unwrap_or(match i { 60 => "inotify_overflow", 61 => "bad_file_hit", _ => "other" })), v)).collect();
    let kn: Vec<String> = knowns.iter().map(|(k, v)| js(&format!("{} hit in {} runs, e.g. {}", k, v.0, v.1))).collect();
    let sm: Vec<String> = samples.values().map(|s| js(s)).collect();
    let asm: Vec<String> = scn.assumptions.iter().map(|s| js(s)).collect();
    format!("{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {}, \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"runs_per_hour\": {:.0}, \"simulated_seconds\": {:.3},\n    \"scheduling_points\": {}, \"context_switches\": {}, \"preemptions_in_straight_line_code\": {}, \"instrumented_steps\": {}, \"threads_created\": {}, \"simulated_io_calls\": {},\n    \"faults_fired\": {{{}}}, \"runs_with_fault\": {{{}}}, \"probes\": {{{}}},\n    \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash of the sequence of (thread switched to, kind of point it was switched from)\",\n    \"code_edges_reached\": {}, \"code_edges_instrumented\": {},\n    \"determinism\": {{\"runs_executed_twice\": {}, \"mismatches\": {}}}, \"refused_real_filesystem_writes\": {},\n    \"longest_run_steps\": {}, \"longest_run_points\": {},\n    \"real_components\": {}, \"stub_components\": {},\n    \"known_findings_hit\": [{}], \"replay\": {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(scn.prop), js(tier), master, js(scn.level), a.runs, a.traces.len(), js(scn.rule), sm.join(", "), a.runs as f64 / wall.max(0.001) * 3600.0, a.sim_ns as f64 / 1e9,
        a.points, a.switches, a.preempts, a.ticks, a.threads, a.ops, fired.join(", "), fruns.join(", "), probes.join(", "), a.orders.len(), nedges, total_edges, twice, nondet, a.escapes, a.max_ticks, a.max_points,
        js(scn.real), js(scn.stub), kn.join(", "), js(replay), asm.join(", "), wall, viols)
}
