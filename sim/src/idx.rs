// Workspace index: the real indxr watcher (real notify, mio, inotify wrappers and walkdir) over a
// simulated file system, with concurrent editors of the tree and concurrent queries.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use indxr::{FileIndex, IndexableFileSet};
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;

const ROOTS: [&str; 2] = ["/sim/ws/one", "/sim/ws/two"];
const FILES: [&str; 14] = ["a.rs", "b.rs", "c.rs", "n.txt", "rs", "d.rs.bak", "e.rs", "r.rs", "p", "a.rs.rs", "A.RS", ".rs", ".h.rs", "жé.rs"];
const DIRS: [&str; 4] = ["p", "q", "r.rs", "p2"];

fn any_path(r: &mut Rng, roots: usize, deep: bool) -> String {
    let mut s = ROOTS[r.below(roots)].to_string();
    let d = if deep { r.below(3) } else { r.below(2) };
    for _ in 0..d { s += "/"; s += DIRS[r.below(4)]; }
    s
}
fn any_file(r: &mut Rng, roots: usize) -> String { format!("{}/{}", any_path(r, roots, true), if r.chance(4, 5) { FILES[[0, 1, 2, 6, 9, 12, 13][r.below(7)]] } else { FILES[r.below(FILES.len())] }) }
fn any_dir(r: &mut Rng, roots: usize) -> String { format!("{}/{}", any_path(r, roots, false), DIRS[r.below(4)]) }

/// Builds the tree and the edit script. Lines: "init|<actor> <op> <args>".
pub fn gen_tree_ops(r: &mut Rng, p: &mut Plan, roots: usize, actors: usize, nops: usize, dirs: bool, wild: bool) {
    let mut ver = 0;
    for _ in 0..r.range(0, 8) { ver += 1; p.ops.push(format!("init write {} {}", any_file(r, roots), ver)); }
    for _ in 0..r.below(3) { p.ops.push(format!("init mkdir {}", any_dir(r, roots))); }
    // far down
    let down = if r.chance(1, 6) { let mut d = ROOTS[r.below(roots)].to_string(); for _ in 0..r.range(6, 24) { d += "/"; d += DIRS[r.below(4)]; } ver += 1; p.ops.push(format!("init write {}/a.rs {}", d, ver)); Some(d) } else { None };
    let fast = r.chance(1, 2);
    for _ in 0..nops {
        ver += 1;
        let a = r.below(actors);
        let op = match r.below(if dirs { 14 } else { 9 }) {
            0 | 1 | 2 => format!("write {} {}", any_file(r, roots), ver),
            3 => format!("slow {} {}", any_file(r, roots), ver),
            4 => format!("atomic {} {}", any_file(r, roots), ver),
            5 => format!("rm {}", any_file(r, roots)),
            6 => format!("mv {} {}", any_file(r, roots), any_file(r, roots)),
            7 => format!("skip {} {}", any_file(r, roots), ver),
            8 => format!("append {} {}", any_file(r, roots), ver),
            9 => format!("mkdir {}", any_dir(r, roots)),
            10 | 11 => format!("rmtree {}", any_dir(r, roots)),
            12 => format!("{} {} {}", if wild { "mvdir" } else { "calmmv" }, any_dir(r, roots), any_dir(r, roots)),
            _ => format!("mktree {} {}", any_dir(r, roots), ver),
        };
        let op = match &down { Some(d) if r.chance(1, 6) => match r.below(3) { 0 => format!("write {}/{} {}", d, FILES[[0, 1, 2][r.below(3)]], ver), 1 => format!("rm {}/a.rs", d), _ => format!("atomic {}/b.rs {}", d, ver) }, _ => op };
        p.ops.push(format!("{} {}", a, op));
        if !fast || r.chance(1, 4) { p.ops.push(format!("{} sleep {}", a, *r.pick(&[1u64, 5, 30, 300, 1900, 2500, 6000]))); }
    }
}
fn content(ver: &str, path: &str) -> String { format!("ver={}\npath={}\n{}", ver, path, "x".repeat(ver.parse::<usize>().unwrap_or(1) % 7 * 40)) }

lazy_static::lazy_static! { static ref CALM: std::sync::RwLock<()> = std::sync::RwLock::new(()); }
pub fn do_op(w: &[&str], content: &dyn Fn(&str, &str) -> String) {
    use std::fs; use std::io::Write;
    let _g = if w[0] != "calmmv" && w[0] != "sleep" { Some(CALM.read().unwrap()) } else { None };
    let mkparent = |p: &str| { let _ = fs::create_dir_all(Path::new(p).parent().unwrap()); };
    let r: std::io::Result<()> = (|| { match w[0] {
        "write" => { mkparent(w[1]); fs::write(w[1], content(w[2], w[1])) }
        "skip" => { mkparent(w[1]); fs::write(w[1], format!("SKIP {}", w[2])) }
        "slow" => { mkparent(w[1]); let t = content(w[2], w[1]); let (a, b) = t.as_bytes().split_at(t.len() / 2); let mut f = fs::File::create(w[1])?; f.write_all(a)?; ffi::sleep_ms(700); f.write_all(b)?; Ok(()) }
        "append" => { let mut f = fs::OpenOptions::new().append(true).open(w[1])?; f.write_all(format!("+{}\n", w[2]).as_bytes()) }
        "atomic" => { mkparent(w[1]); let tmp = format!("{}.tmp{}", w[1], w[2]); fs::write(&tmp, content(w[2], w[1]))?; fs::rename(&tmp, w[1]) }
        "rm" => fs::remove_file(w[1]),
        "mv" => { mkparent(w[2]); fs::rename(w[1], w[2]) }
        "mvdir" => { mkparent(w[2]); fs::rename(w[1], w[2]) }
        // a directory renamed while nothing else happens
        "calmmv" => { mkparent(w[2]); let _g = CALM.write().unwrap(); ffi::sleep_ms(300_000); let r = fs::rename(w[1], w[2]); ffi::sleep_ms(300_000); r }
        "mkdir" => fs::create_dir_all(w[1]),
        "rmtree" => rmtree(Path::new(w[1])),
        "mktree" => { fs::create_dir_all(format!("{}/q", w[1]))?; fs::write(format!("{}/q/a.rs", w[1]), content(w[2], w[1]))?; fs::write(format!("{}/b.rs", w[1]), content(w[2], w[1])) }
        "sleep" => { ffi::sleep_ms(w[1].parse().unwrap_or(1)); Ok(()) }
        "bad" => { ffi::fs_bad(w[1], w[2].parse().unwrap_or(1)); Ok(()) }
        "badwrite" => { mkparent(w[1]); if ffi::fs_type(w[1]) == 0 && ffi::fs_type(Path::new(w[1]).parent().unwrap().to_str().unwrap()) == 2 { ffi::fs_put(w[1], b""); } ffi::fs_bad(w[1], 2); fs::write(w[1], content(w[2], w[1])) }
        "burst" => { for i in 0..w[3].parse::<u32>().unwrap_or(4) { let p = format!("{}/f{}.rs", w[1], i); mkparent(&p); fs::write(&p, content(w[2], &p))?; } Ok(()) }
        _ => Ok(()),
    } })();
    ffi::note(&format!("{} -> {}", w.join(" "), match r { Ok(()) => "ok".to_string(), Err(e) => format!("{}", e) }));
}
fn rmtree(p: &Path) -> std::io::Result<()> {
    for e in std::fs::read_dir(p)? { let e = e?; if e.file_type()?.is_dir() { rmtree(&e.path())? } else { std::fs::remove_file(e.path())? } }
    std::fs::remove_dir(p)
}

struct Val { serial: u64, path: PathBuf, text: String }
/// What the mapper was asked and answered; touched only inside `ffi::atomically`.
#[derive(Default)]
struct Book { serial: u64, maps: BTreeMap<PathBuf, Vec<(u64, Option<String>)>>, seen: BTreeMap<PathBuf, u64>, mapping_now: u32, queries: u64, max_query_ns: u64, entries_seen: u64 }
struct Shared(std::cell::UnsafeCell<Book>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
fn book<T>(s: &Shared, f: impl FnOnce(&mut Book) -> T) -> T { ffi::atomically(|| f(unsafe { &mut *s.0.get() })) }

fn is_match(p: &Path) -> bool { p.extension().map(|e| e == "rs").unwrap_or(false) }

pub fn setup(plan: &Plan, content: &dyn Fn(&str, &str) -> String) -> Vec<PathBuf> {
    ffi::set_faults(&[]);
    let roots = plan.num("roots").max(1) as usize;
    for r in &ROOTS[..roots] { ffi::fs_mkdir(r); }
    for o in &plan.ops {
        let w: Vec<&str> = o.split(' ').collect();
        if w[0] != "init" { continue }
        match w[1] {
            "write" => { let d = Path::new(w[2]).parent().unwrap().to_str().unwrap().to_string(); ffi::fs_mkdir(&d); if ffi::fs_type(w[2]) == 0 && ffi::fs_type(&d) == 2 { ffi::fs_put(w[2], content(w[3], w[2]).as_bytes()) } }
            "mkdir" => ffi::fs_mkdir(w[2]),
            "bad" => ffi::fs_bad(w[2], w[3].parse().unwrap_or(1)),
            "noroot" => ffi::fs_remove(w[2]),
            _ => {}
        }
    }
    if plan.flag("keep") { for p in KEEP.iter() { ffi::fs_mkdir(Path::new(p).parent().unwrap().to_str().unwrap()); ffi::fs_put(p, b"kept") } }
    ROOTS[..roots].iter().map(PathBuf::from).collect()
}
/// Files no actor ever touches: once shown, they have to stay.
const KEEP: [&str; 3] = ["/sim/ws/one/keep.rs", "/sim/ws/one/keep/a.rs", "/sim/ws/one/keep/deep/b.rs"];
pub fn spawn_actors(plan: &Plan, content: fn(&str, &str) -> String) -> Vec<std::thread::JoinHandle<()>> {
    let n = plan.num("actors").max(1);
    (0..n).map(|a| {
        let ops: Vec<String> = plan.ops.iter().filter(|o| o.starts_with(&format!("{} ", a))).map(|o| o[2..].to_string()).collect();
        std::thread::spawn(move || { ffi::set_faults(&[]); for o in ops { let w: Vec<&str> = o.split(' ').collect(); do_op(&w, &content); } })
    }).collect()
}

fn query_once(index: &FileIndex<Val>, bk: &Shared, stop_after: usize) -> Vec<(PathBuf, String)> {
    let t0 = ffi::now();
    // what earlier, finished queries have shown
    let seen_before = book(bk, |b| b.seen.clone());
    let mut out = Vec::new();
    let mut n = 0;
    index.process_files(&mut |f| {
        n += 1;
        out.push((f.path.clone(), f.value.serial, f.value.path.clone(), f.value.text.clone()));
        stop_after != 0 && n >= stop_after
    });
    let dt = ffi::now() - t0;
    if stop_after != 0 && n > stop_after { ffi::fail(&format!("query-stop: a query that asked to stop after {} files was called {} times", stop_after, n)); }
    book(bk, |b| {
        b.queries += 1; b.entries_seen += out.len() as u64;
        if dt > b.max_query_ns { b.max_query_ns = dt; }
        let mut names: Vec<&PathBuf> = out.iter().map(|x| &x.0).collect(); names.sort();
        let before = names.len(); names.dedup();
        if names.len() != before { ffi::fail("phantom: one query returned the same file twice"); }
        for (p, serial, vp, text) in &out {
            if vp != p { ffi::fail(&format!("phantom: entry for {} carries the value computed for {}", p.display(), vp.display())); }
            if !is_match(p) { ffi::fail(&format!("phantom: {} is in the index but does not match the file set", p.display())); }
            if !ROOTS.iter().any(|r| p.starts_with(r)) { ffi::fail(&format!("phantom: {} is outside the roots", p.display())); }
            let ok = b.maps.get(p).map(|v| v.iter().any(|(s, t)| s == serial && t.as_deref() == Some(text.as_str()))).unwrap_or(false);
            if !ok { ffi::fail(&format!("phantom: entry for {} has a value that was never computed from its content", p.display())); }
            let last = seen_before.get(p).copied().unwrap_or(0);
            if *serial < last { ffi::fail(&format!("went-back: {} was reported with value #{} after value #{} had been visible", p.display(), serial, last)); }
            let e = b.seen.entry(p.clone()).or_insert(0); if *serial > *e { *e = *serial; }
        }
    });
    if stop_after == 0 || n < stop_after { for k in KEEP.iter() { let k = Path::new(k); if seen_before.contains_key(k) && !out.iter().any(|x| x.0 == k) { ffi::fail(&format!("vanished: {} has not been touched and was in the index before, but is not now", k.display())); } } }
    out.into_iter().map(|x| (x.0, x.3)).collect()
}

fn make_index(roots: Vec<PathBuf>, bk: Arc<Shared>, slow_ms: u64) -> FileIndex<Val> {
    FileIndex::new(IndexableFileSet::new(roots, "rs"), Box::new(move |p: &Path| {
        let serial = book(&bk, |b| { b.mapping_now += 1; b.serial += 1; b.serial });
        let t = std::fs::read_to_string(p);
        if slow_ms > 0 { ffi::sleep_ms(slow_ms); }
        let t = t.ok().filter(|t| !t.starts_with("SKIP"));
        book(&bk, |b| { b.mapping_now -= 1; b.maps.entry(p.to_path_buf()).or_insert_with(Vec::new).push((serial, t.clone())); });
        t.map(|text| Val { serial, path: p.to_path_buf(), text })
    }))
}

/// The files the index has to contain now, from the simulated disk itself. Files that cannot be
/// read, or lie under a directory that cannot, are left out of the comparison.
pub fn expected(roots: &[PathBuf]) -> (BTreeMap<PathBuf, String>, Vec<PathBuf>) {
    let mut m = BTreeMap::new(); let mut skip = Vec::new();
    for r in roots {
        for f in ffi::fs_list(r.to_str().unwrap(), true) {
            let p = PathBuf::from(&f);
            if p.ancestors().any(|a| ffi::fs_isbad(a.to_str().unwrap())) { skip.push(p); continue }
            if !is_match(&p) { continue }
            if let Ok(t) = String::from_utf8(ffi::fs_get(&f).unwrap_or_default()) { if !t.starts_with("SKIP") { m.insert(p, t); } }
        }
    }
    (m, skip)
}

fn compare(roots: &[PathBuf], got: &[(PathBuf, String)], when: &str) {
    let (exp, skip) = expected(roots);
    // a root that was not there at first may or may not be followed once it appears
    let got: BTreeMap<PathBuf, String> = got.iter().filter(|x| roots.iter().any(|r| x.0.starts_with(r))).cloned().collect();
    let short = |s: &str| s.chars().take(60).collect::<String>().replace('\n', "\\n");
    for (p, t) in &exp { match got.get(p) {
        None => ffi::fail(&format!("missing: {} {} is not in the index, its content is '{}'", when, p.display(), short(t))),
        Some(g) if g != t => ffi::fail(&format!("stale: {} the index has '{}' for {} which now contains '{}'", when, short(g), p.display(), short(t))),
        _ => {}
    } }
    for p in got.keys() { if !exp.contains_key(p) && !skip.contains(p) {
        if ffi::fs_type(p.to_str().unwrap()) == 1 { ffi::fail(&format!("stale: {} {} is in the index though its content is not indexable", when, p.display())); }
        ffi::fail(&format!("leftover: {} {} is in the index but does not exist", when, p.display()));
    } }
    ffi::probe(if exp.is_empty() { 1 } else { 0 });
    if exp.len() >= 2 { ffi::probe(63); }
}

const SETTLE_MS: u64 = 90_000;

pub fn sut_faults(plan: &Plan) -> u64 { let mut m = 0; for k in 0..ffi::NKINDS { if plan.cfg.prob[k] > 0 || plan.decisions.is_some() { m |= 1 << k; } } m }

const BOUND_MS: u64 = 60;
fn run_index(plan: &Plan) {
    let roots = setup(plan, &content);
    let live: Vec<PathBuf> = roots.iter().filter(|r| ffi::fs_type(r.to_str().unwrap()) == 2).cloned().collect();
    let bk = Arc::new(Shared(Default::default()));
    let blocking = plan.property == "I04";
    let settled = plan.flag("compare");
    ffi::set_fault_mask(sut_faults(plan));
    let t0 = ffi::now();
    let index = Arc::new(make_index(roots.clone(), bk.clone(), plan.num("slow_ms")));
    if blocking && ffi::now() - t0 > BOUND_MS * 1_000_000 { ffi::fail(&format!("blocked: creating the index took {} ms of simulated time", (ffi::now() - t0) / 1_000_000)); }
    ffi::set_faults(&[]);
    if plan.num("head_start") > 0 { ffi::sleep_ms(plan.num("head_start")); }
    let actors = spawn_actors(plan, content);
    let clients: Vec<_> = (0..plan.num("clients")).map(|c| {
        let index = index.clone(); let bk = bk.clone(); let n = plan.num("queries"); let seed = plan.seed + c;
        std::thread::spawn(move || {
            ffi::set_faults(&[]);
            let mut r = Rng::new(seed);
            for _ in 0..n {
                let stop = if r.chance(1, 4) { r.range(1, 3) } else { 0 };
                let busy = book(&bk, |b| b.mapping_now);
                let t0 = ffi::now();
                query_once(&index, &bk, stop);
                if busy > 0 { ffi::probe(2); }
                if blocking && ffi::now() - t0 > BOUND_MS * 1_000_000 { ffi::fail(&format!("blocked: a query took {} ms of simulated time while a file was being processed", (ffi::now() - t0) / 1_000_000)); }
                ffi::sleep_ms(*r.pick(&[0, 1, 17, 230, 2100]));
            }
        })
    }).collect();
    for a in actors { if a.join().is_err() { ffi::harness_error(&format!("actor panicked: {:?}", crate::driver::panics())); } }
    for c in clients { if c.join().is_err() { ffi::fail(&format!("query-panic: a query panicked: {:?}", crate::driver::panics())); } }
    ffi::faults_off_all();
    ffi::note("settle");
    ffi::sleep_ms(SETTLE_MS);
    let got = query_once(&index, &bk, 0);
    if settled { compare(&live, &got, "90 simulated seconds after the last change"); } else if got.len() >= 2 { ffi::probe(63); }
    // one more change after the storm: the index must still be following the tree
    if plan.flag("epilogue") {
        let p = live[0].join("zz.rs");
        do_op(&["write", p.to_str().unwrap(), "999"], &content);
        ffi::sleep_ms(SETTLE_MS);
        let got = query_once(&index, &bk, 0);
        if settled { compare(&live, &got, "90 simulated seconds after one more file was created"); }
    }
    book(&bk, |b| { for _ in 0..b.queries.min(1000) { ffi::probe(3); } });
}

pub fn gen_common(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 10_000, 1_000, 200]);
    p.set("roots", if r.chance(1, 3) { 2 } else { 1 });
    p.set("actors", r.range(1, 2));
    p.set("clients", r.below(3));
    p.set("queries", r.range(1, 12));
    p.set("epilogue", r.below(2)); p.set("compare", 1);
    p.set("head_start", *r.pick(&[0u64, 0, 1, 100, 5000]));
    if r.chance(1, 2) { p.cfg.prob[ffi::READ_SHORT] = 6000; }
    if r.chance(1, 2) { p.cfg.prob[ffi::READ_EINTR] = 3000; }
    if r.chance(1, 3) { p.cfg.prob[ffi::DISK_STALL] = *r.pick(&[200, 2000, 8000]); p.cfg.max[ffi::DISK_STALL] = 60; }
    if r.chance(1, 4) { p.cfg.prob[ffi::CLOCK_JUMP] = 2000; }
}
fn gen_i01(r: &mut Rng, p: &mut Plan) {
    gen_common(r, p);
    let n = if r.chance(1, 3) { r.range(1, 4) } else { r.range(4, 30) };
    gen_tree_ops(r, p, p.num("roots") as usize, p.num("actors") as usize, n, r.clone().chance(2, 3), false);
    if r.chance(1, 5) { p.cfg.inotify_queue = *r.pick(&[2, 4, 12]); }
}
fn gen_i02(r: &mut Rng, p: &mut Plan) {
    gen_common(r, p);
    p.set("clients", r.range(1, 3)); p.set("queries", r.range(10, 60)); p.set("epilogue", 0); p.set("compare", 0); p.set("keep", 1);
    if r.chance(1, 3) { p.set("slow_ms", *r.pick(&[1u64, 50, 900])); }
    gen_tree_ops(r, p, p.num("roots") as usize, p.num("actors") as usize, r.clone().range(5, 30), true, true);
    if r.chance(1, 4) { p.cfg.inotify_queue = *r.pick(&[2, 4, 12]); }
}
/// Files and directories that cannot be read, roots that are not there, watches that fail.
fn gen_i03(r: &mut Rng, p: &mut Plan) {
    gen_common(r, p);
    let roots = p.num("roots") as usize;
    let n = r.range(2, 20);
    gen_tree_ops(r, p, roots, p.num("actors") as usize, n, r.clone().chance(1, 2), false);
    let mut extra = Vec::new();
    for _ in 0..r.range(1, 4) { let f = any_file(r, roots); extra.push(format!("init write {} 1", f)); extra.push(format!("init bad {} {}", f, r.range(1, 2))); }
    for _ in 0..r.below(3) { let d = any_dir(r, roots); extra.push(format!("init mkdir {}", d)); if r.chance(1, 2) { extra.push(format!("init write {}/a.rs 1", d)); } extra.push(format!("init bad {} 1", d)); }
    if roots == 2 && r.chance(1, 2) { extra.push(format!("init noroot {}", ROOTS[r.below(2)])); p.set("epilogue", 1); }
    p.ops.splice(0..0, extra);
    for o in p.ops.iter_mut() { if !o.starts_with("init") && r.chance(1, 6) { let w: Vec<&str> = o.split(' ').collect(); if w[1] == "write" { *o = format!("{} badwrite {} {}", w[0], w[2], w[3]); } } }
    if r.chance(1, 3) { p.cfg.prob[ffi::WATCH_ERR] = *r.pick(&[3000, 12000]); p.cfg.max[ffi::WATCH_ERR] = 4; }
    if r.chance(1, 4) { p.cfg.inotify_queue = *r.pick(&[2, 4, 12]); }
}
/// A mapper that takes seconds and a disk that stalls: nobody who asks may notice.
fn gen_i04(r: &mut Rng, p: &mut Plan) {
    gen_common(r, p);
    p.cfg.prob[ffi::STALL] = 0;
    p.set("clients", r.range(1, 3)); p.set("queries", r.range(10, 60)); p.set("epilogue", 0); p.set("compare", 0);
    p.set("slow_ms", *r.pick(&[0u64, 700, 4000]));
    if p.num("slow_ms") == 0 || r.chance(1, 2) { p.cfg.prob[ffi::DISK_STALL] = 20000; p.cfg.max[ffi::DISK_STALL] = 60; }
    gen_tree_ops(r, p, p.num("roots") as usize, p.num("actors") as usize, r.clone().range(3, 20), true, false);
}

fn warm() {}
const REAL: &str = "indxr FileIndex and its watcher thread, notify 4.0.15 with its debouncer, mio 0.6, mio-extras, inotify, walkdir, std threads/mutexes/channels: all real code";
const STUB: &str = "kernel: file system, inotify queues, epoll, pipes, futexes and clocks are simulated (csrc/); the value computed per file is a harness closure";

pub fn scenarios() -> Vec<Scn> {
    vec![
        Scn { prop: "I01", gen: gen_i01, run: run_index, quick: 18_000, thorough: 200_000, level: "exploration",
            rule: "one run = one seeded tree, edit script by 1-2 actors, query clients, scheduler policy and fault mix; non-trivial when at least two indexable files exist at the final comparison",
            real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "I02", gen: gen_i02, run: run_index, quick: 18_000, thorough: 150_000, level: "exploration",
            rule: "one run = one seeded tree, edit script by 1-2 actors (including directories renamed at any moment), 1-3 query clients whose every answer is judged, scheduler policy and fault mix; non-trivial when the last query saw at least two files",
            real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "I03", gen: gen_i03, run: run_index, quick: 18_000, thorough: 150_000, level: "exploration",
            rule: "one run = one seeded tree with unreadable files and directories, failing watches or a missing root, edit script, scheduler policy and fault mix; non-trivial when at least two readable indexable files exist at the final comparison",
            real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "I04", gen: gen_i04, run: run_index, quick: 18_000, thorough: 100_000, level: "exploration",
            rule: "one run = one seeded tree, edit script, a mapper that sleeps or a disk that stalls, 1-3 query clients timed on the simulated clock; non-trivial when the last query saw at least two files",
            real: REAL, stub: STUB, assumptions: &["a query is called blocked when it takes more than 60 ms of simulated time; disk stalls and slow mappers in these runs take seconds"], probes: PROBES, warm },
    ]
}
const PROBES: &[&str] = &["compared_nonempty", "compared_empty", "query_during_mapping", "queries"];
