// Grammar analysis: many threads ask one analysed grammar concurrently, while it is edited.
use std::collections::BTreeMap;
use std::sync::Arc;
use fall_editor::EditorFileImpl;
use fall_tree::{AstNode, TextRange, tu};
use fall_tree::search::ast;
use lang_fall::{FileWithAnalysis, Analysis, RefKind, CallKind, PratVariant, MethodKind, ChildKind, Arity};
use lang_fall::syntax::{RefExpr, CallExpr, SynRule, MethodDef, AstNodeDef};
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;

// ---- grammar texts ----
fn expr(r: &mut Rng, rules: &[String], toks: &[String], depth: usize, out: &mut String) {
    match r.below(if depth > 3 { 4 } else { 12 }) {
        0 | 1 => out.push_str(&rules[r.below(rules.len())]),
        2 => out.push_str(&toks[r.below(toks.len())]),
        3 => out.push_str(*r.pick(&["nobody", "'?'", "<eof>", "<any>", "<commit>"])),
        4 => { out.push_str("{ "); for i in 0..r.range(1, 3) { if i > 0 { out.push_str(" | "); } for _ in 0..r.range(1, 2) { expr(r, rules, toks, depth + 1, out); out.push(' '); } } out.push('}'); }
        5 => { expr(r, rules, toks, depth + 1, out); out.push('?'); }
        6 => { expr(r, rules, toks, depth + 1, out); out.push('*'); }
        7 => { out.push_str(*r.pick(&["<enter 'c1' ", "<exit 'c1' ", "<enter 'c2' ", "<enter nobody "])); expr(r, rules, toks, depth + 1, out); out.push('>'); }
        8 => { out.push_str(*r.pick(&["<is_in 'c1'>", "<is_in 'c3'>", "<is_in zed>", "<is_in>", "<prev_is r0>", "<prev_is r1 r2>", "<prev_is>"])); }
        9 => { out.push_str(*r.pick(&["<not ", "<m1 ", "<eof ", "<r0 ", "<unknown "])); expr(r, rules, toks, depth + 1, out); out.push('>'); }
        10 => { out.push_str(*r.pick(&["<layer ", "<with_skip ", "<inject ", "<m2 ", "<m1 "])); expr(r, rules, toks, depth + 1, out); out.push(' '); expr(r, rules, toks, depth + 1, out); out.push('>'); }
        _ => { expr(r, rules, toks, depth + 1, out); out.push(' '); expr(r, rules, toks, depth + 1, out); }
    }
}
pub fn grammar(r: &mut Rng) -> String {
    let mut s = String::new();
    let nt = r.range(1, 5);
    let toks: Vec<String> = (0..nt).map(|i| if r.chance(1, 3) { format!("'{}'", *r.pick(&["+", "-", "kw", "*"])) } else { format!("t{}", i) }).collect();
    if r.chance(9, 10) {
        s.push_str("tokenizer {\n  #[skip] ws r\"\\s+\"\n");
        for (i, t) in toks.iter().enumerate() { if t.starts_with('\'') { s.push_str(&format!("  {} {}\n", if r.chance(1, 5) { "t0".to_string() } else { format!("k{}", i) }, t)); } else { s.push_str(&format!("  {} r\"[{}]+\"\n", if r.chance(1, 5) { "t0" } else { t }, *r.pick(&["a-z", "0-9", "xy"]))); } }
        s.push_str("}\n");
    }
    let n = r.range(1, 6);
    let mut rules: Vec<String> = (0..n).map(|i| format!("r{}", i)).collect();
    rules.push("x".into());
    for i in 0..n {
        if r.chance(1, 4) { s.push_str(*r.pick(&["#[atom]\n", "#[atom(3)]\n", "#[bin(1)]\n", "#[bin]\n", "#[prefix]\n", "#[postfix]\n", "#[pratt]\n", "#[cached]\n", "// a comment\n"])); }
        if r.chance(1, 2) { s.push_str("pub "); }
        s.push_str(&format!("rule {}{} {{ ", if r.chance(1, 8) { "r0".to_string() } else { format!("r{}", i) }, if r.chance(1, 5) { "(x)" } else { "" }));
        for a in 0..r.range(1, 2) { if a > 0 { s.push_str(" | "); } for _ in 0..r.range(1, 3) { expr(r, &rules, &toks, 0, &mut s); s.push(' '); } }
        s.push_str("}\n");
    }
    if r.chance(1, 2) { s.push_str("rule m1(x) { x }\n"); }
    if r.chance(1, 2) { s.push_str("rule m2(x, y) { x <not y> }\n"); }
    if r.chance(1, 3) { s.push_str("test r\"\n a b c\n\"\n"); }
    if r.chance(1, 2) {
        s.push_str("ast {\n  trait named { name t0.text }\n");
        for i in 0..n { if r.chance(1, 2) { s.push_str(&format!("  node r{}{} {{ {} }}\n", i, *r.pick(&["", ": named", ": named, lost", ": lost"]), *r.pick(&["", "a r0", "b r1?", "c t0.text", "d r0* e t1?.text", "f nothing", "g cls", "h r0.text", "g cls? h cls* i cls.text", "a t0 b t1? c t0*", "a r1 a r0 r1 t0"]))); } }
        if r.chance(1, 2) { s.push_str("  class cls { r0 r1 }\n"); }
        // one name for things of several kinds
        if r.chance(1, 3) { s.push_str(*r.pick(&["  class t0 { r0 }\n", "  class t1 { t0 r1 }\n  class t1 { }\n", "  class r0 { r0 t0 }\n", "  node t0 { a t0 b r0? }\n", "  node cls { a cls }\n", "  trait t0 { name t0 }\n", "  trait cls { a cls }\n", "  trait r0 { t1 t1.text }\n  class named { named }\n"])); }
        s.push_str("}\n");
    }
    s
}

// ---- requests: each gives one line of text that depends only on the grammar ----
fn rg(t: TextRange) -> String { let a: u32 = t.start().into(); let b: u32 = t.end().into(); format!("{}..{}", a, b) }
fn ref_kind(k: Option<RefKind>) -> String { match k { None => "-".into(), Some(RefKind::Token(t)) => format!("token {}", rg(t.node().range())), Some(RefKind::RuleReference(t)) => format!("rule {}", rg(t.node().range())), Some(RefKind::Param(t)) => format!("param {}", rg(t.node().range())) } }
fn call_kind(k: Option<CallKind>) -> String {
    let r = |e: &lang_fall::syntax::Expr| rg(e.node().range());
    match &k {
        None => "-".into(), Some(CallKind::Eof) => "eof".into(), Some(CallKind::Any) => "any".into(), Some(CallKind::Commit) => "commit".into(),
        Some(CallKind::Not(e)) => format!("not {}", r(e)), Some(CallKind::Layer(a, b)) => format!("layer {} {}", r(a), r(b)), Some(CallKind::WithSkip(a, b)) => format!("with_skip {} {}", r(a), r(b)), Some(CallKind::Inject(a, b)) => format!("inject {} {}", r(a), r(b)),
        Some(CallKind::Enter(c, e)) => format!("enter {} {}", c, r(e)), Some(CallKind::Exit(c, e)) => format!("exit {} {}", c, r(e)), Some(CallKind::IsIn(c)) => format!("is_in {}", c),
        Some(CallKind::PrevIs(v)) => format!("prev_is {:?}", v.iter().map(|x| rg(x.node().range())).collect::<Vec<_>>()),
        Some(CallKind::RuleCall(rule, args)) => format!("call {} {:?}", rg(rule.node().range()), args.iter().map(|(p, e)| format!("{}={}", rg(p.node().range()), rg(e.node().range()))).collect::<Vec<_>>()),
    }
}
fn pratt_kind(k: Option<PratVariant>) -> String { match k { None => "-".into(), Some(PratVariant::Atom(e)) => format!("atom {}", rg(e.node().range())), Some(PratVariant::Bin(o)) => format!("bin {} {}", rg(o.op.node().range()), o.priority), Some(PratVariant::Postfix(o)) => format!("postfix {} {}", rg(o.op.node().range()), o.priority), Some(PratVariant::Prefix(o)) => format!("prefix {} {}", rg(o.op.node().range()), o.priority) } }
fn method_kind(k: Option<MethodKind>) -> String {
    let ck = |c: ChildKind| match c { ChildKind::AstNode(n) => format!("node {}", rg(n.node().range())), ChildKind::AstClass(n) => format!("class {}", rg(n.node().range())), ChildKind::Token(n) => format!("token {}", rg(n.node().range())) };
    let ar = |a: Arity| match a { Arity::Single => "one", Arity::Optional => "opt", Arity::Many => "many" };
    match k { None => "-".into(), Some(MethodKind::NodeAccessor(c, a)) => format!("node {} {}", ck(c), ar(a)), Some(MethodKind::TextAccessor(c, a)) => format!("text {} {}", rg(c.node().range()), ar(a)) }
}
pub const NREQ: usize = 16;
/// Kind 0 is diagnostics. `order` only changes in which order parts of the answer are computed.
pub fn ask(f: &FileWithAnalysis, kind: usize, arg: u32, order: &mut Rng) -> String {
    let (off, end) = span(f, arg);
    let range = TextRange::from_to(off, end);
    fn shuffled<T>(mut v: Vec<T>, r: &mut Rng) -> Vec<T> { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } v }
    fn each<'f, N: AstNode<'f> + Copy, G: Fn(&Analysis<'f>, N) -> String>(a: &Analysis<'f>, r: &mut Rng, g: G) -> String {
        let mut m = BTreeMap::new();
        for n in shuffled(ast::descendants_of_type::<N>(a.ast().node()), r) { let s = g(a, n); let k: (u32, u32) = (n.node().range().start().into(), n.node().range().end().into()); m.entry(k).or_insert_with(Vec::new).push(s); }
        for v in m.values_mut() { v.sort(); }
        format!("{:?}", m)
    }
    match kind {
        0 => diags(f),
        1 => f.highlight().iter().map(|(r, t)| format!("{} {}", rg(*r), t.0)).collect::<Vec<_>>().join(","),
        2 => format!("{:?}", f.structure()),
        3 => format!("{:?}", f.resolve_reference(off)),
        4 => f.find_usages(off).iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>().join(","),
        5 => f.analyse(|a| each::<RefExpr, _>(a, order, |a, n| ref_kind(a.resolve_reference(n)))),
        6 => f.analyse(|a| each::<CallExpr, _>(a, order, |a, n| call_kind(a.resolve_call(n)))),
        7 => f.analyse(|a| each::<SynRule, _>(a, order, |a, n| pratt_kind(a.resolve_pratt_variant(n)))),
        8 => f.analyse(|a| each::<MethodDef, _>(a, order, |a, n| method_kind(a.resolve_method(n)))),
        9 => f.analyse(|a| each::<AstNodeDef, _>(a, order, |a, n| a.ast_node_traits(n).iter().map(|t| rg(t.node().range())).collect::<Vec<_>>().join(","))),
        10 => { let ids = f.context_actions(range); let mut s = format!("{:?}", ids); for id in ids { match f.apply_context_action(range, id) { Some(e) => { s.push_str(&format!(" {} => {}", id, e.apply(f.file().text()))); } None => ffi::fail(&format!("action-lost: action {} was offered for {} but could not be applied", id, rg(range))) } } s }
        11 => f.reformat().apply(f.file().text()).to_string(),
        12 => format!("{:?}", f.extend_selection(range)),
        13 => format!("{:?}", f.test_at_offset(off)),
        14 => f.syntax_tree(),
        _ => { let m = f.metrics(); if m.lines().all(|l| l.contains(": ")) { "metrics".into() } else { m } }
    }
}
fn diags(f: &FileWithAnalysis) -> String { f.diagnostics().iter().map(|d| format!("{:?} {} {}", d.severity, rg(d.range), d.message)).collect::<Vec<_>>().join("\n") }
const NAMES: [&str; NREQ] = ["diagnostics", "highlighting", "structure", "go to definition", "usages", "references", "calls", "operators", "methods", "traits", "context actions", "reformat", "extend selection", "test at", "syntax tree", "metrics"];

fn fresh(text: &str) -> FileWithAnalysis { <FileWithAnalysis as EditorFileImpl>::parse(text) }

/// The answer compared with the one computed from the tree alone (`anaref`).
fn check_meaning(f: &FileWithAnalysis, t: &crate::anaref::T, kind: usize, arg: u32, got: &str, ctx: &str) {
    let (off, end) = span(f, arg);
    let parts = |s: &str, sep: char| -> Vec<String> { let mut v: Vec<String> = s.split(sep).map(|x| x.to_string()).collect(); v.sort(); v };
    if kind == 11 {
        // formatting changes nothing but blanks, and once is enough
        let text = f.file().text().to_string(); let bare = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        if bare(&text) != bare(got) { ffi::fail(&format!("wrong-format: {}formatting changes more than white space:\n{}\nbecomes\n{}", ctx, text, got)); }
    }
    let want = match t.answer(kind, u32::from(off) as usize, u32::from(end) as usize) { Some(w) => w, None => return };
    let same = match kind { 1 | 4 => parts(&want, ',') == parts(got, ','), 0 => parts(&want, '\n') == parts(got, '\n'), _ => want == got };
    ffi::probe(3); if !want.is_empty() && want != "None" && want != "[]" && want != "{}" { ffi::probe(4 + kind); }
    if !same { let class = if kind == 0 { "wrong-diagnostics" } else { "wrong-answer" }; ffi::fail(&format!("{}: {}{} (at {}..{}) of\n{}\nshould be {}\nis        {}", class, ctx, NAMES[kind], u32::from(off), u32::from(end), f.file().text().to_string(), want, got)); }
}
fn span(f: &FileWithAnalysis, arg: u32) -> (fall_tree::TextUnit, fall_tree::TextUnit) { let len: u32 = f.file().text().len().into(); let off = if len == 0 { 0 } else { arg % (len + 1) }; (tu(off), tu((off + arg / 7919 % 12).min(len))) }

fn explain(what: &str, want: &str, got: &str) -> String {
    let a: Vec<&str> = want.split(|c| c == '\n' || c == ',').collect(); let b: Vec<&str> = got.split(|c| c == '\n' || c == ',').collect();
    let lost: Vec<&&str> = a.iter().filter(|x| !b.contains(x)).take(3).collect(); let extra: Vec<&&str> = b.iter().filter(|x| !a.contains(x)).take(3).collect();
    format!("{}: alone {} items, here {}; missing {:?}; extra {:?}", what, a.len(), b.len(), lost, extra)
}

/// Ops: "<client> <kind> <arg>"; param text: the grammar.
fn run_concurrent(plan: &Plan) {
    let text = plan.get("text").to_string();
    let ops: Vec<(usize, usize, u32)> = plan.ops.iter().map(|o| { let w: Vec<&str> = o.split(' ').collect(); (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap()) }).collect();
    // the answers when nobody else ever asked: a fresh instance for each
    let mut want: BTreeMap<(usize, u32), String> = BTreeMap::new();
    for (_, k, a) in &ops { want.entry((*k, *a)).or_insert_with(|| ask(&fresh(&text), *k, *a, &mut Rng::new(1))); }
    want.entry((0, 0)).or_insert_with(|| ask(&fresh(&text), 0, 0, &mut Rng::new(1)));
    if want[&(0, 0)].lines().count() >= 2 { ffi::probe(0); }
    if plan.num("meaning") == 1 { let f = fresh(&text); let t = crate::anaref::T::new(f.file()); for ((k, a), w) in &want { check_meaning(&f, &t, *k, *a, w, ""); } }
    let want = Arc::new(want);
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let f = Arc::new(fresh(&text));
    let n = plan.num("clients");
    let class = |k: usize| if k == 0 { "diagnostics-differ" } else { "answer-differs" };
    let hs: Vec<_> = (0..n).map(|c| { let f = f.clone(); let want = want.clone(); let mine: Vec<(usize, u32)> = ops.iter().filter(|o| o.0 as u64 == c).map(|o| (o.1, o.2)).collect(); let seed = plan.seed + c;
        std::thread::spawn(move || { let mut r = Rng::new(seed); for (k, a) in mine { let got = ask(&f, k, a, &mut r); ffi::probe(1); if got != want[&(k, a)] { ffi::fail(&format!("{}: {}", class(k), explain(NAMES[k], &want[&(k, a)], &got))); } } }) }).collect();
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: a request panicked that does not panic alone: {:?}", crate::driver::panics())); } }
    for k in [0usize, 1, 0].iter() { let got = ask(&f, *k, 0, &mut Rng::new(9)); let w = want.get(&(*k, 0)).cloned().unwrap_or_else(|| ask(&fresh(&text), *k, 0, &mut Rng::new(1))); if got != w { ffi::fail(&format!("{}: at the end, {}", class(*k), explain(NAMES[*k], &w, &got))); } }
    // every measured request was recorded once, and took no longer than there was time
    let m = f.metrics();
    let count = |name: &str| m.lines().filter(|l| l.starts_with(&format!("{}:", name))).count();
    let asked = |k: usize| ops.iter().filter(|o| o.1 == k).count();
    if count("diagnostics") != asked(0) + 2 { ffi::fail(&format!("metrics: {} diagnostics requests, {} recorded", asked(0) + 2, count("diagnostics"))); }
    if count("highlight") != asked(1) + 1 { ffi::fail(&format!("metrics: {} highlighting requests, {} recorded", asked(1) + 1, count("highlight"))); }
    ffi::probe(63);
}
fn gen_concurrent(r: &mut Rng, p: &mut Plan, diag: bool) {
    swarm_sched(r, p, &[0, 40_000, 4_000, 1_000, 250]);
    if r.chance(1, 3) { p.cfg.prob[ffi::CLOCK_JUMP] = 4000; }
    p.set("text", grammar(r));
    let n = r.range(2, 4); p.set("clients", n);
    for c in 0..n { for _ in 0..r.range(1, 5) { let k = if diag && r.chance(1, 2) { 0 } else { r.below(NREQ) }; let a = if k == 0 { 0 } else { r.below(1 << 20) }; p.ops.push(format!("{} {} {}", c, k, a)); } }
}
fn gen_a01(r: &mut Rng, p: &mut Plan) { gen_concurrent(r, p, false); for o in p.ops.iter_mut() { let w: Vec<String> = o.split(' ').map(|s| s.to_string()).collect(); if w[1] == "0" { *o = format!("{} 5 7", w[0]); } } }
fn gen_a02(r: &mut Rng, p: &mut Plan) { gen_concurrent(r, p, true); p.set("meaning", 1); }
fn gen_a04(r: &mut Rng, p: &mut Plan) {
    p.set("meaning", 1);
    if r.chance(1, 4) { gen_concurrent(r, p, false) } else { gen_a03(r, p); for o in p.ops.iter_mut() { if r.chance(1, 3) { *o = format!("ask {} {} {}", if r.chance(1, 3) { *r.pick(&[3, 3, 4, 4, 10, 13]) } else { r.below(14) }, r.below(1 << 24), r.below(2)); } } p.set("session", 1); }
    match r.below(8) { 0 | 1 => { let t = crate::peg::gen(r.next()).text(); p.set("text", t) } 2 => { let c = crate::edit::corpus("fall"); let t = r.pick(&c).to_string(); p.set("text", t) } 3 => { let t = tiny(r); p.set("text", t) } _ => {} }
    if r.chance(1, 2) { let mut t = String::new(); for c in p.get("text").chars() { let x = "|<>".contains(c) && r.chance(1, 2); if x && r.chance(1, 2) { if r.chance(1, 2) { while t.ends_with(' ') { t.pop(); } } else { t.push_str(*r.pick(&[" ", "  ", "\n"])); } } t.push(c); if x { t.push_str(*r.pick(&["", " ", "  ", "\n"])); } } p.set("text", t); }
    if r.chance(1, 4) { let mut t = String::new(); let rate = r.range(2, 12); for c in p.get("text").chars() { t.push(c); if ",|(){}: ".contains(c) && r.chance(1, rate) { t.push_str(*r.pick(&["// c\n", " // c\n  ", "\n", "  "])); } } p.set("text", t); }
    // mostly ask at the beginning or the end of a word or a sign
    let text = p.get("text").to_string();
    let b = text.as_bytes(); let word = |i: usize| b[i].is_ascii_alphanumeric() || b[i] == b'_';
    let ends: Vec<usize> = (1..b.len()).filter(|i| text.is_char_boundary(*i) && (word(i - 1) != word(*i) || b"|,<>".contains(&b[*i]))).collect();
    if !ends.is_empty() { for o in p.ops.iter_mut() { let w: Vec<String> = o.split(' ').map(|x| x.to_string()).collect(); if w[0] == "edit" || !r.chance(2, 3) { continue } let a = *r.pick(&ends) + (text.len() + 1) * r.below(40); *o = format!("{} {} {}{}", w[0], w[1], a, if w.len() > 3 { format!(" {}", w[3]) } else { String::new() }); } }
}
/// A grammar of few pieces.
fn tiny(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 5) { s.push_str(*r.pick(&["rule a { }\n", "pub rule a {}\n", "pub rule b { }", "rule b { a }\n", "rule c { <enter 'x'> }\n", "rule c { <is_in 'x'> }\n", "rule d { <is_in 'y' 'y'> <exit 'x' a> }\n", "rule m(p, a) { a p }\n", "rule e { <m a> <m a b> <m> }\n", "tokenizer { a 'a' a r\"b\" b 'a' }\n", "tokenizer { }\n", "rule f { 'a' 'b' b }\n", "#[atom(1)] rule g { }\n", "#[bin] rule h { a a a }\n", "#[bin(2)] rule h { a a a | a }\n", "#[prefix(x)] rule i { a b }\n", "#[postfix(3)] rule j { a b }\n", "#[pratt] pub rule k { <prev_is a b k> }\n", "#[type(zed)] pub rule l { <prev_is l> a | b , c , }\n", "ast { node a: t, u { x b.text y a? z c* } }\n", "ast { trait t {} class c { a b } }\n", "test r\"a\"\n", "rule n { {a | b} | | c }\n", "rule", "rule {", "// c\n"])); }
    s
}
fn run_meaning(plan: &Plan) { if plan.num("session") == 1 { run_session(plan) } else { run_concurrent(plan) } }

// ---- an editing session: versions of one grammar, each asked by clients while the next is typed ----
pub const SNIPS: [&str; 44] = ["rule ", "pub ", "pub rule z { r0 }\n", "{", "}", "<", ">", "'c1'", "'", "r\"", "\"", "#", "r#\"x\"#", "|", "*", "?", "(", ")", "(x)", "[", "]", "ast {", "node ", "node n { a b }", "class ", "class c", "trait ", "trait t", "tokenizer {", "tokenizer", "verbatim", "test ", "verbatim r\"fn f() {}\"", "// c\n", "\n", " ", "<is_in 'c'>", "<enter >", "<prev_is >", "#[bin(1)]", "#[atom]", "é", ":", "x."];
/// The answer of a thread that was never asked before, after an unrelated grammar was asked the same.
fn alone(g: FileWithAnalysis, k: usize, a: u32) -> String {
    std::thread::spawn(move || { let _ = ask(&fresh("tokenizer { q 'q' } pub rule f { nothing <is_in 'q'> } rule g { f } ast { node f : t { q q.text } trait t { } }"), k, 17, &mut Rng::new(2)); ask(&g, k, a, &mut Rng::new(1)) }).join().unwrap_or_else(|_| ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())))
}
fn run_session(plan: &Plan) {
    use fall_tree::TextEditBuilder;
    let mut cur = Arc::new(fresh(plan.get("text")));
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let mut hs = Vec::new(); let meaning = plan.num("meaning") == 1;
    let mut version = 0u32;
    for o in &plan.ops {
        let w: Vec<&str> = o.split(' ').collect();
        let n = |i: usize| -> u32 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        if w[0] == "edit" {
            let text = cur.file().text().to_string();
            let mut a = n(1) as usize % (text.len() + 1); let mut b = (a + n(2) as usize).min(text.len());
            while !text.is_char_boundary(a) { a -= 1; } while !text.is_char_boundary(b) { b += 1; }
            let new = match n(3) {
                // two words, or the characters of one, change places; a word becomes another of its length
                100 | 101 => { let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_'; let t = text.as_bytes(); while a < t.len() && !word(t[a]) { a += 1; } while a > 0 && word(t[a - 1]) { a -= 1; } b = a; while b < t.len() && word(t[b]) { b += 1; }
                    if n(3) == 101 { let mut w: Vec<u8> = t[a..b].to_vec(); let l = w.len(); if l > 1 { let i = n(2) as usize % (l - 1); w.swap(i, i + 1); } else if l == 1 { w[0] = b'a' + (w[0] % 26); } String::from_utf8(w).unwrap() }
                    else { let mut c = b; while c < t.len() && !word(t[c]) { c += 1; } let mut d = c; while d < t.len() && word(t[d]) { d += 1; } let s = format!("{}{}{}", &text[c..d], &text[b..c], &text[a..b]); b = d; s } }
                k => SNIPS.get(k as usize).copied().unwrap_or("").to_string(),
            };
            let e = { let mut e = TextEditBuilder::new(cur.file().text()); e.replace(TextRange::from_to(tu(a as u32), tu(b as u32)), new); e.build() };
            let next = cur.edit(&e);
            version += 1;
            cur = Arc::new(next);
        } else {
            let f = cur.clone(); let k = n(1) as usize % NREQ; let a = n(2); let seed = plan.seed ^ a as u64; let async_ = n(3) != 0;
            let job = move || {
                let m = ffi::fault_mask();
                let got = ask(&f, k, a, &mut Rng::new(seed));
                ffi::set_faults(&[]);
                if meaning { check_meaning(&f, &crate::anaref::T::new(f.file()), k, a, &got, &format!("version {}: ", version)); ffi::set_fault_mask(m); return }
                // the same request to a new analysis of the same text (only when the trees agree: see E01)
                let g = fresh(&f.file().text().to_string());
                if g.syntax_tree() == f.syntax_tree() { let w = alone(g, k, a); ffi::probe(2); if w != got { ffi::fail(&format!("answer-differs: version {}: {}", version, explain(NAMES[k], &w, &got))); } }
                ffi::set_fault_mask(m);
            };
            if async_ { hs.push(std::thread::spawn(job)); } else { job(); }
        }
    }
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); } }
    ffi::probe(63);
}
fn gen_a03(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 1_500_000_000;
    p.set("text", if r.chance(1, 12) { String::new() } else { grammar(r) });
    for _ in 0..r.range(1, 12) { if r.chance(2, 3) { p.ops.push(format!("edit {} {} {}", r.below(4000), if r.chance(1, 2) { 0 } else { r.below(20) }, if r.chance(1, 4) { 99 } else if r.chance(1, 4) { r.range(100, 101) } else { r.below(SNIPS.len()) })); } else { p.ops.push(format!("ask {} {} {}", if r.chance(1, 3) { 0 } else { r.below(NREQ) }, r.below(1 << 20), r.below(2))); } }
    for _ in 0..3 { p.ops.push(format!("ask {} {} {}", if r.chance(1, 3) { 0 } else { r.below(NREQ) }, r.below(1 << 20), r.below(2))); }
}
fn warm() { let f = fresh("tokenizer { a r\"x\" } rule r { a <eof> }"); for k in 0..NREQ { ask(&f, k, 3, &mut Rng::new(1)); } }

const REAL: &str = "lang_fall analysis (query database with its caches and locks), editor services, fall grammar lexer and parser, std threads and mutexes: all real code";
const STUB: &str = "kernel: threads, futexes and clocks are scheduled by the simulator (csrc/)";
pub fn scenarios() -> Vec<Scn> {
    vec![
        Scn { prop: "A01", gen: gen_a01, run: run_concurrent, quick: 8000, thorough: 200_000, level: "exploration", rule: "one run = one generated grammar, 2-4 clients asking one analysed instance concurrently, every answer compared with a fresh instance asked only that; non-trivial always", real: REAL, stub: STUB, assumptions: &[], probes: &["grammar_with_several_diagnostics", "answers_compared"], warm },
        Scn { prop: "A02", gen: gen_a02, run: run_concurrent, quick: 8000, thorough: 200_000, level: "exploration", rule: "as A01 with half of the requests asking for diagnostics, compared as whole lists", real: REAL, stub: STUB, assumptions: &[], probes: &["grammar_with_several_diagnostics", "answers_compared"], warm },
        Scn { prop: "A03", gen: gen_a03, run: run_session, quick: 10_000, thorough: 300_000, level: "exploration", rule: "one run = one generated grammar, up to 12 edits (mostly breaking it) and requests to the versions, some asked while the next version is typed; non-trivial always", real: REAL, stub: STUB, assumptions: &[], probes: &["", "", "answers_compared"], warm },
        Scn { prop: "A04", gen: gen_a04, run: run_meaning, quick: 16_000, thorough: 300_000, level: "exploration", rule: "one run = one generated, edited or shipped grammar asked by concurrent clients or while it is typed, every answer compared with the one an independent analysis of the syntax tree gives; non-trivial always", real: REAL, stub: STUB, assumptions: &["the syntax tree of the grammar is right (P01, E01)"], probes: &["grammar_with_several_diagnostics", "answers_compared", "", "answers_compared_with_the_reference", "diagnostics", "highlighting", "structure", "definition", "usages", "references", "calls", "operators", "methods", "traits", "actions", "", "extend", "test"], warm },
    ]
}
