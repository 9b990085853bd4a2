// Workspace symbols: the real SymbolIndex (real Rust parser, real fst, real indxr) over the
// simulated tree. The sources are generated from a specification, so the symbols a query must
// return are known by construction.
use std::collections::BTreeMap;
use std::path::PathBuf;
use lang_rust::editor::SymbolIndex;
use lang_rust::syntax::{FN_DEF, STRUCT_DEF, ENUM_DEF, TYPE_DEF, TRAIT_DEF, MOD_DEF};
use fall_tree::NodeType;
use crate::driver::Scn;
use crate::ffi;
use crate::idx;
use crate::plan::Plan;
use crate::rng::Rng;

pub struct Sym { pub ty: NodeType, pub name: String, pub start: usize, pub end: usize, pub prev_end: usize }

const NAMES: [&str; 19] = ["İxA", "ÉTÉ", "ｆｕｌｌ", "Alpha", "alpha", "AlphaBeta", "beta", "ab", "a", "HashMap", "hash_map", "mapHash", "Straße", "äther", "жук", "x1", "_priv", "Zed", "zzz_top"];

fn gap(r: &mut Rng) -> &'static str { *r.pick(&["\n", "\n", "\n\n", " ", "\n// words: struct NotASymbol;\n", " /* fn nope() {} */ ", "\n    ", "\r\n", "\n// \u{2028} é\u{85}\u{b}\n", " /* жук\n\r\n\u{2029} */\t"]) }
fn gen_items(r: &mut Rng, out: &mut String, syms: &mut Vec<Sym>, n: usize, depth: usize) {
    let mut prev = if depth == 0 { 0 } else { out.len() };
    for _ in 0..n {
        let g = gap(r); out.push_str(g);
        let name = if r.chance(3, 4) { NAMES[r.below(NAMES.len())].to_string() } else { format!("n{}", r.below(40)) };
        if depth < 2 && r.chance(1, 10) {
            // methods are functions, an impl is no symbol
            out.push_str(*r.pick(&["impl Alpha {", "impl<T> Beta for Alpha<T> {", "impl Alpha { const X: u8 = 1;"]));
            for _ in 0..r.below(3) { let prev = out.len(); let g = gap(r); out.push_str(g); let name = NAMES[r.below(NAMES.len())].to_string(); let start = out.len(); out.push_str(&format!("{}fn {}(&self) {{ self.x() }}", if r.chance(1, 2) { "pub " } else { "" }, name)); syms.push(Sym { ty: FN_DEF, name, start, end: out.len(), prev_end: prev }); }
            out.push_str("\n}"); prev = out.len(); continue
        }
        let start = out.len();
        if r.chance(1, 4) { out.push_str("pub "); }
        let ty;
        match r.below(if depth < 2 { 7 } else { 6 }) {
            0 | 1 if depth < 2 && r.chance(1, 5) => { ty = FN_DEF; out.push_str("fn "); out.push_str(&name); out.push_str("() {"); let k = r.below(3); gen_items(r, out, syms, k, depth + 1); out.push_str("\n}"); }
            0 | 1 => { ty = FN_DEF; out.push_str("fn "); out.push_str(&name); out.push_str(*r.pick(&["() {}", "(x: i32) -> i32 { x + 1 }", "() { let s = \"struct Quoted;\"; }", "<T>(t: T) { call(t); }"])); }
            2 => { ty = STRUCT_DEF; out.push_str("struct "); out.push_str(&name); out.push_str(*r.pick(&[";", " { a: u32, b: u32 }", "(i32);"])); }
            3 => { ty = ENUM_DEF; out.push_str("enum "); out.push_str(&name); out.push_str(*r.pick(&[" {}", " { A, B }", " { A(i32), B { x: u8 } }"])); }
            4 => { ty = TYPE_DEF; out.push_str("type "); out.push_str(&name); out.push_str(" = Vec<u32>;"); }
            5 => { ty = TRAIT_DEF; out.push_str("trait "); out.push_str(&name); out.push_str(" {}"); }
            _ => { ty = MOD_DEF; out.push_str("mod "); out.push_str(&name); out.push_str(" {"); let k = r.below(4); gen_items(r, out, syms, k, depth + 1); out.push_str("\n}"); }
        }
        let end = out.len();
        syms.push(Sym { ty, name, start, end, prev_end: prev });
        prev = end;
    }
}
pub fn source(spec: u64) -> (String, Vec<Sym>) {
    let mut r = Rng::new(spec * 7919 + 5);
    let mut out = format!("// spec {}\n", spec); let mut syms = Vec::new();
    if spec % 80 == 39 { for i in 0..540 { let prev = out.len(); out.push('\n'); let start = out.len(); out.push_str(&format!("struct Big{};", i)); let end = out.len(); syms.push(Sym { ty: STRUCT_DEF, name: format!("Big{}", i), start, end, prev_end: prev }); } }
    else if spec % 10 == 7 { for i in 0..90 + spec % 150 { let prev = out.len(); out.push('\n'); let start = out.len(); out.push_str(&format!("enum Mid{} {{}}", i)); let end = out.len(); syms.push(Sym { ty: ENUM_DEF, name: format!("Mid{}", i), start, end, prev_end: prev }); } }
    else { let n = r.below(7); gen_items(&mut r, &mut out, &mut syms, n, 0); }
    out.push_str("\n");
    (out, syms)
}
fn content(ver: &str, _p: &str) -> String { source(ver.parse().unwrap_or(0)).0 }

fn starts(t: &str) -> Vec<usize> { std::iter::once(0).chain(t.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect() }
fn line_col(st: &[usize], off: usize) -> (u32, u32) { let l = match st.binary_search(&off) { Ok(i) => i, Err(i) => i - 1 }; (l as u32, (off - st[l]) as u32) }
fn subseq(q: &str, name: &str) -> bool { let q: Vec<char> = q.chars().flat_map(|c| c.to_lowercase()).collect(); let mut i = 0; for c in name.chars().flat_map(|c| c.to_lowercase()) { if i < q.len() && q[i] == c { i += 1; } } i == q.len() }
fn is_type(t: NodeType) -> bool { t == STRUCT_DEF || t == ENUM_DEF || t == TRAIT_DEF || t == TYPE_DEF }
fn kind(t: NodeType) -> &'static str { if t == FN_DEF { "fn" } else if t == STRUCT_DEF { "struct" } else if t == ENUM_DEF { "enum" } else if t == TYPE_DEF { "type" } else if t == TRAIT_DEF { "trait" } else if t == MOD_DEF { "mod" } else { "?" } }

fn check_query(index: &SymbolIndex, roots: &[PathBuf], q: &str) {
    let (files, _) = idx::expected(roots);
    let mut want: BTreeMap<PathBuf, (String, Vec<Sym>)> = BTreeMap::new();
    for (p, t) in files {
        let spec = t.lines().next().and_then(|l| l.strip_prefix("// spec ").and_then(|n| n.parse().ok()));
        match spec { Some(s) => { let (text, syms) = source(s); if text != t { ffi::probe(3); return; /* two writers mixed their halves */ } want.insert(p, (text, syms)); } None => { ffi::probe(3); return } }
    }
    let bare: String = q.chars().filter(|c| *c != '#').collect();
    let any_type = want.values().any(|(_, s)| s.iter().any(|s| is_type(s.ty) && subseq(&bare, &s.name)));
    let all = q.contains('#') || !any_type;
    let hits = |p: &PathBuf| -> Vec<&Sym> { want.get(p).map(|(_, s)| s.iter().filter(|s| (all || is_type(s.ty)) && subseq(&bare, &s.name)).collect()).unwrap_or_default() };
    let total: usize = want.keys().map(|p| hits(p).len()).sum();
    let got = index.query(q);
    ffi::probe(if total == 0 { 0 } else if total > 512 { 2 } else { 1 });
    if got.len() > 0 { ffi::probe(63); }
    let mut by_file: BTreeMap<PathBuf, Vec<_>> = BTreeMap::new();
    let ngot = got.len();
    for (p, s) in got { by_file.entry(p).or_insert_with(Vec::new).push(s); }
    for (p, ss) in &by_file {
        let (text, _) = match want.get(p) { Some(x) => x, None => ffi::fail(&format!("symbol-leftover: query {:?} returned {} which does not exist", q, p.display())) };
        let mut exp = hits(p);
        let st = starts(text);
        for s in ss {
            let a: u32 = s.range.start().into(); let b: u32 = s.range.end().into(); let (a, b) = (a as usize, b as usize);
            let at = exp.iter().position(|e| e.ty == s.ty && e.name == s.name && a <= e.start && a >= e.prev_end && b == e.end);
            match at {
                Some(i) => { exp.remove(i); }
                None => ffi::fail(&format!("symbol-wrong: query {:?} returned {} {} at {}..{} of {} which is no matching symbol there; text {:?}", q, kind(s.ty), s.name, a, b, p.display(), text.get(a.min(text.len())..b.min(text.len())).unwrap_or("").chars().take(60).collect::<String>())),
            }
            for (o, lc) in &[(a, s.lc_range[0]), (b, s.lc_range[1])] { if (lc.line, lc.col) != line_col(&st, *o) { ffi::fail(&format!("symbol-line: offset {} of {} was given as line {} column {}, it is {:?}", o, p.display(), lc.line, lc.col, line_col(&st, *o))); } }
        }
        if let Some(e) = exp.first() { ffi::fail(&format!("symbol-missing: query {:?} did not return {} {} of {}", q, kind(e.ty), e.name, p.display())); }
    }
    if ngot <= 512 { for p in want.keys() { if !by_file.contains_key(p) { if let Some(e) = hits(p).first() { ffi::fail(&format!("symbol-missing: query {:?} did not return {} {} of {}", q, kind(e.ty), e.name, p.display())); } } } }
}

fn run(plan: &Plan) {
    let roots = idx::setup(plan, &content);
    ffi::set_fault_mask(idx::sut_faults(plan));
    let index = std::sync::Arc::new(SymbolIndex::new(roots.clone()));
    ffi::set_faults(&[]);
    if plan.num("head_start") > 0 { ffi::sleep_ms(plan.num("head_start")); }
    let actors = idx::spawn_actors(plan, content);
    let clients: Vec<_> = (0..plan.num("clients")).map(|c| { let index = index.clone(); let n = plan.num("queries"); let seed = plan.seed + c; std::thread::spawn(move || { ffi::set_faults(&[]); let mut r = Rng::new(seed);
        for _ in 0..n { let q = query(&mut r); let got = index.query(&q);
            // while the tree changes, each hit must still be a symbol of some version
            for (p, s) in &got { let bare: String = q.chars().filter(|c| *c != '#').collect(); if !subseq(&bare, &s.name) { ffi::fail(&format!("symbol-wrong: query {:?} returned {} of {}", q, s.name, p.display())); } }
            ffi::sleep_ms(*r.pick(&[0, 3, 400, 2100])); } }) }).collect();
    for a in actors { if a.join().is_err() { ffi::harness_error(&format!("actor panicked: {:?}", crate::driver::panics())); } }
    for c in clients { if c.join().is_err() { ffi::fail(&format!("query-panic: {:?}", crate::driver::panics())); } }
    ffi::faults_off_all();
    ffi::sleep_ms(90_000);
    let mut r = Rng::new(plan.seed ^ 77);
    for _ in 0..6 { let q = query(&mut r); check_query(&index, &roots, &q); }
    check_query(&index, &roots, "");
    check_query(&index, &roots, "#");
}
fn query(r: &mut Rng) -> String {
    let base: String = match r.below(6) {
        0 => String::new(), 1 => NAMES[r.below(NAMES.len())].to_string(), 2 => NAMES[r.below(NAMES.len())].to_uppercase().replace("SS", "ß"),
        3 => NAMES[r.below(NAMES.len())].chars().filter(|_| r.chance(1, 2)).collect(), 4 => if r.chance(1, 3) { "mid".to_string() } else { format!("n{}", r.below(40)) }, _ => (0..r.range(1, 3)).map(|_| *r.pick(&['a', 'b', 'h', 'm', 'p', 'z', 'ä', 'ж', 'B', 'q', '_'])).collect(),
    };
    match r.below(4) { 0 => format!("#{}", base), 1 => format!("{}#", base), _ => base }
}
fn gen(r: &mut Rng, p: &mut Plan) {
    idx::gen_common(r, p);
    p.cfg.max_ticks = 2_500_000_000;
    p.set("queries", r.range(1, 5)); 
    let n = r.range(0, 12);
    idx::gen_tree_ops(r, p, p.num("roots") as usize, p.num("actors") as usize, n, r.clone().chance(1, 2), false);
    for o in p.ops.iter_mut() { let w: Vec<String> = o.split(' ').map(|s| s.to_string()).collect(); if w[1] == "skip" || w[1] == "append" { *o = format!("{} write {} {}", w[0], w[2], w[3]); }
        let w: Vec<String> = o.split(' ').map(|s| s.to_string()).collect();
        // versions name specifications
        if ["write", "slow", "atomic", "mktree"].contains(&w[1].as_str()) { let k = r.below(4000); *o = format!("{} {} {} {}", w[0], w[1], w[2], k); } }
}
fn warm() { let _ = lang_rust::syntax::lang_rust().parse("fn f() { x }"); }
pub fn scenarios() -> Vec<Scn> {
    vec![Scn { prop: "I05", gen, run, quick: 5000, thorough: 60_000, level: "exploration",
        rule: "one run = one seeded tree of generated Rust sources, edit script, query clients, scheduler policy and fault mix, then 8 queries at rest judged against the generator's own list of symbols; non-trivial when a query returned something",
        real: "SymbolIndex, FileSymbols, FstSubSeq, LineIndex, the Rust lexer and parser, indxr, notify, mio, walkdir, fst: all real code",
        stub: "kernel: file system, inotify, epoll, pipes, futexes and clocks are simulated (csrc/)", assumptions: &["names whose lower-case form depends on their position in a word (Greek final sigma) are not generated"], probes: &["query_without_hits", "query_with_hits", "query_over_512", "writers_collided"], warm }]
}
