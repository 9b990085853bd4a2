// How much of a file is looked at again after an edit: the same edits are made in a block of two files which differ only in
// what the rest of the file contains, and the work is counted in the parser's own deterministic units.
use std::sync::{Arc, Mutex};
use crate::driver::Scn;
use crate::edit::Doc;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;
use fall_tree::{File, TextEditBuilder, TextRange, tu};

#[derive(Clone, Copy, Debug)]
struct Work { ticks: u64, relexed: u64, full: Option<u64>, len: u64 }
fn metric(f: &File, name: &'static str) -> u64 { f.metrics().get(name).unwrap_or_else(|| ffi::fail(&format!("metrics: `{}` is not recorded", name))) }
/// Ops: "edit <versions back> <from> <to>:<text>...", offsets in the item.
fn session(plan: &Plan, which: &str) -> Vec<(String, Work)> {
    let lang = plan.get("lang"); let (pre, suf) = (plan.get(&format!("pre_{}", which)), plan.get(&format!("suf_{}", which)));
    let mut items = vec![plan.get("item").to_string()]; let mut docs = vec![Doc::open(lang, &format!("{}{}{}", pre, items[0], suf))]; let mut out = Vec::new();
    for o in &plan.ops {
        let mut w = o.splitn(3, ' '); w.next(); let back: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let k = items.len() - 1 - back % items.len(); let (item, doc) = (&items[k], &docs[k]); let mut e = TextEditBuilder::new(doc.file().text()); let mut typed = String::new(); let mut at = 0; let mut ok = true; let mut says = Vec::new();
        for c in w.next().unwrap_or("").split('\x01') {
            let mut w = c.splitn(2, ':'); let mut n = w.next().unwrap_or("").split(' ').map(|x| x.parse().unwrap_or(0)); let (a, b): (usize, usize) = (n.next().unwrap_or(0), n.next().unwrap_or(0)); let text = w.next().unwrap_or("");
            if a < at || b < a || b > item.len() || !item.is_char_boundary(a) || !item.is_char_boundary(b) { ok = false; break }
            let range = TextRange::from_to(tu((pre.len() + a) as u32), tu((pre.len() + b) as u32));
            if a == b { e.insert(range.start(), text.to_string()) } else if text.is_empty() { e.delete(range) } else { e.replace(range, text.to_string()) }
            typed += &item[at..a]; typed += text; at = b; says.push(format!("{:?} for {}..{}", text, a, b));
        }
        if !ok { continue } typed += &item[at..];
        let new = doc.edit(&e.build()); let item = typed; ffi::probe(0); if says.len() > 1 { ffi::probe(2); }
        let whole = format!("{}{}{}", pre, item, suf);
        if new.file().text().to_string() != whole { ffi::fail("edit-lost: the text is not what was typed"); }
        let full = if which == "small" || out.is_empty() { Some(metric(&crate::edit::language(lang).parse(whole.clone()), "parsing ticks")) } else { None };
        let w = Work { ticks: metric(new.file(), "parsing ticks"), relexed: metric(new.file(), "relexed region"), full, len: whole.len() as u64 };
        if w.ticks > w.full.unwrap_or(u64::max_value()) { ffi::fail(&format!("more-work: parsing anew takes {} steps, after the edit {} were made: {:?}", full.unwrap(), w.ticks, whole)); }
        if w.relexed > w.len { ffi::fail(&format!("more-work: {} bytes of {} were looked at: {:?}", w.relexed, w.len, whole)); }
        out.push((format!("{} of version {}", says.join(" and "), k), w));
        items.push(item); docs.push(new);
    }
    out
}
/// Pieces which open something, again and again, deeper and deeper: the steps grow no faster than the square of the length.
fn nested(plan: &Plan) {
    let lang = plan.get("lang").to_string(); let unit = plan.get("unit").to_string(); let head = plan.get("head").to_string(); let tail = plan.get("tail").to_string(); let max = plan.num("depth");
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut doc: Option<(Doc, usize)> = None;
        for k in (1..=max).filter(|k| *k < 8 || k % 2 == 0) {
            let text = format!("{}{}{}", head, unit.repeat(k as usize), tail);
            let f = crate::edit::language(&lang).parse(text.clone());
            let leaves = { fn go(n: fall_tree::Node) -> u64 { let mut any = false; let mut c = 0; for x in n.children() { any = true; c += go(x) } if any { c } else { 1 } } go(f.root()) };
            let ticks = metric(&f, "parsing ticks"); ffi::probe(4);
            if std::env::var("FALLSIM_WORK").is_ok() { eprintln!("{} {} {:?} {} {}", lang, k, unit, ticks, ticks as f64 / ((leaves + 20) * (leaves + 20)) as f64); }
            if ticks > 1_000 * (leaves + 20) * (leaves + 20) { ffi::fail(&format!("too-much-work: parsing {} pieces of {} takes {} steps: {:?}", leaves, lang, ticks, text)); }
            // typed one after another, the piece which is not closed yet is where the cursor is
            doc = Some(match doc { None => (Doc::open(&lang, &text), head.len() + unit.len() * k as usize), Some((d, at)) => {
                let grown = head.len() + unit.len() * k as usize; let mut e = TextEditBuilder::new(d.file().text()); e.insert(tu(at as u32), unit.repeat((grown - at) / unit.len().max(1)));
                let new = d.edit(&e.build()); ffi::probe(0); let t = metric(new.file(), "parsing ticks");
                if new.file().text().to_string() != text { ffi::fail("edit-lost: the text is not what was typed"); }
                if t > ticks { ffi::fail(&format!("more-work: parsing anew takes {} steps, after the edit {} were made: {:?}", ticks, t, text)); }
                (new, grown)
            } });
        }
    }).unwrap();
    if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); }
    ffi::probe(63);
}
fn gen_nested(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000]);
    p.cfg.max_ticks = 6_000_000_000;
    let lang = *r.pick(&["rust", "rust", "rust", "rust", "fall", "fall", "fall", "json", "bnf"]);
    let pool: &[&str] = match lang {
        "rust" => &["{ ", "( ", "[ ", "< ", "<A ", "if x { ", "if let A(", "match x { ", "match x { A => ", "while x ", "loop { ", "a::{ ", "use a::{", "fn f() { ", "mod m { ", "impl A { ", "impl<T> ", "trait T { ", "struct S { a: ", "enum E { A(", "let x = ", "let (", "&", "*", "!", "-", "..", "|x| ", "x + ", "x.", "x.f(", "x as ", "f(", "S { a: ", "A::<", "&mut ", "Box<", "dyn ", "Fn(", "-> ", "for x in ", "where T: ", "#[a(", "return ", "break ", "'a: ", "unsafe ", "ref ", "a, ", "=> ", ":: ", "else ", "x!(", "vec![", "type X = ", "const X: ", "pub ", "1 ", "\"s\" ", "; ", "=", "} ", ") ", "] ", "> "],
        "fall" => &["{ ", "<", "<a ", "<not ", "<layer ", "<opt ", "<inject ", "<with_skip ", "<commit> ", "a ", "'x' ", "| ", "* ", "? ", "rule a { ", "rule a(", "pub rule ", "#[pratt] ", "tokenizer { ", "ast { ", "ast { node a { ", "verbatim ", "node ", "traits { ", "<a, ", "= ", "{ a | ", "r\"x\" ", "} ", "> ", "( ", "<eof> ", "<a { ", ", "],
        "json" => &["[", "{", "{ \"a\": ", "[1, ", "[[", "{ \"a\": [", "1 ", ", ", ": ", "\"a\" ", "] "],
        _ => &["a ::= ", "<", "| ", "a ", "'x' ", "( ", "{ ", "[ "],
    };
    p.set("lang", lang); p.set("nested", 1); p.set("depth", r.range(20, 40));
    p.set("unit", &(0..*r.pick(&[1, 1, 1, 2, 2, 3, 4])).map(|_| *r.pick(pool)).collect::<String>());
    let heads: &[&str] = match lang { "rust" => &["", "fn main() { ", "fn main() { x = ", "fn f(a: ", "struct S<T: ", "type X = ", "fn main() { let ", "use a::", "fn main() { match x { "], "fall" => &["", "rule a { ", "tokenizer { a 'a' }\nrule a { ", "ast { "], _ => &[""] };
    p.set("head", *r.pick(heads)); p.set("tail", if r.chance(2, 3) { "" } else { *r.pick(&["}", " x", ")", "]", ">", " ;", "1", " fn g() {}"]) });
}
fn run(plan: &Plan) {
    if plan.flag("nested") { return nested(plan) }
    if plan.flag("docs") { return crate::edit::run(plan) }
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let res: Arc<Mutex<Vec<(usize, Vec<(String, Work)>)>>> = Default::default(); let mut hs = Vec::new();
    for (i, which) in ["small", "big"].iter().enumerate() {
        let (plan, res) = (plan.clone(), res.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let v = session(&plan, which); res.lock().unwrap().push((i, v)); }).unwrap());
    }
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); } }
    let mut v = res.lock().unwrap().clone(); v.sort_by_key(|x| x.0);
    let lang = plan.get("lang");
    let grown = match (v[0].1.first(), v[1].1.first()) { (Some(s), Some(b)) => b.1.full.unwrap_or(0).saturating_sub(s.1.full.unwrap_or(0)), _ => 0 };
    for ((what, s), (_, b)) in v[0].1.iter().zip(v[1].1.iter()) {
        if grown > 0 { ffi::probe(1); }
        if std::env::var("FALLSIM_WORK").is_ok() { eprintln!("{:?} {:?} {}", s, b, what); }
        if lang != "json" && b.ticks > s.ticks + 10 + grown / 300 { ffi::fail(&format!("reparsed: typing {} takes {} steps in a file, and {} when other items of the file are larger:\n{}\n-- the item:\n{}\n-- and the rest:\n{}", what, s.ticks, b.ticks, format!("{}<item>{}", plan.get("pre_small"), plan.get("suf_small")), plan.get("item"), format!("{}<item>{}", plan.get("pre_big"), plan.get("suf_big")))); }
        if b.relexed > s.relexed + 10 + b.len.saturating_sub(s.len) / 50 { ffi::fail(&format!("relexed: typing {} looks at {} bytes of {} in a file, and at {} of {} when other items of the file are larger:\n{}\n-- the item:\n{}\n-- and the rest:\n{}", what, s.relexed, s.len, b.relexed, b.len, format!("{}<item>{}", plan.get("pre_small"), plan.get("suf_small")), plan.get("item"), format!("{}<item>{}", plan.get("pre_big"), plan.get("suf_big")))); }
    }
    ffi::probe(63);
}
// ---- texts ----
fn piece(r: &mut Rng, lang: &str) -> String {
    let v: &[&str] = if lang == "rust" { &["let x = 1;", "foo(a, b);", "x", "y1", "+", "if a { b } else { c }", "match x { A => 1, _ => { 2 } }", ";", "1.5", "\"str\"", "'c'", "(1, 2)", "[x; 3]", "while x { y(); }", "fn inner(a: u8) { a }", "struct S { a: u8 }", "return x;", "S { a: 1 }", "|x| x + 1", "x.y().z", "&mut x", "#", "::", "use a::b;", "// note\n", "\n", "let", ",", ".", "é"] }
        else if lang == "json" { &["1", "\"str\"", "[1, 2]", "{ \"a\": 1 }", ",", ":", "null", "true", "[", "}", "-1.5e3", "\n", "\"a b\"", "12"] }
        else { &["ident", "'x'", "ident*", "'x'?", "{ a b }", "|", "<commit>", "<layer a b>", "<not 'x'>", "{ a | b }*", "rec", "// note\n", "\n", "<", ">", "*", "?", "x", "<eof>", ",", "ast", "=", "a_b"] };
    r.pick(v).to_string()
}
/// An item of the file which is not edited; `k` makes it larger.
fn filler(r: &mut Rng, lang: &str, i: usize) -> (String, String) {
    let k = r.range(2, 8);
    let two = |f: &dyn Fn(&str) -> String, part: &str| (f(part), f(&part.repeat(k)));
    if lang == "fall" {
        return match r.below(3) {
            0 => two(&|b| format!("pub rule f{} {{ {} }}\n", i, b), "'x' ident { a | b }* <not c> "),
            1 => two(&|b| format!("#[pratt]\nrule f{} {{ a {} | b }}\n\n", i, b), "| {c d}? "),
            _ => two(&|b| format!("rule f{}(x) {{ <layer {{ {} }} x> }}\n// text\n", i, b), "'(' x ')' "),
        };
    }
    if lang == "json" { return two(&|b| format!("\"k{}\": [{}0],\n", i, b), *r.pick(&["1, \"two\", ", "{ \"a\": null }, ", "\"long string of words\",\n  ", "[],"])) }
    match r.below(8) {
        0 | 1 => two(&|b| format!("fn f{}(a: u8) -> u8 {{ {} a }}\n", i, b), "let x = foo(1, a); if x > 1 { bar(); } "),
        2 => two(&|b| format!("struct S{} {{ {} }}\n\n", i, b), "a: u8, b: Vec<u8>, "),
        3 => two(&|b| format!("impl S{} {{ {} }}\n", i, b), "pub fn m(&self) -> u8 { self.x + 1 } "),
        4 => two(&|b| format!("#[cfg(test)]\nmod m{} {{ {} }}\n", i, b), "fn t() { assert!(x); } use a::b; "),
        5 => two(&|b| format!("pub enum E{} {{ {} }}\n", i, b), "A(u8), B { x: u8 }, "),
        6 => two(&|b| format!("/// doc\npub trait T{} {{ {} }}\n", i, b), "fn m(&self) { let x = 1; } type X; "),
        _ => two(&|b| format!("pub fn g{}<T>(x: T) where T: Copy {{ match x {{ {} }} }}\n", i, b), "A::B(x) => { x + 1 } "),
    }
}
fn gen(r: &mut Rng, p: &mut Plan) {
    if r.chance(1, 5) { return gen_nested(r, p) }
    if r.chance(1, 4) { return crate::edit::gen_work(r, p) }
    swarm_sched(r, p, &[0, 0, 40_000]);
    p.cfg.max_ticks = 6_000_000_000;
    let lang = *r.pick(&["rust", "rust", "rust", "fall", "json"]); p.set("lang", lang);
    let (n, m) = (r.range(0, 5), r.range(0, 5)); let mut t = [String::new(), String::new(), String::new(), String::new()];
    for i in 0..n + m { let (s, b) = filler(r, lang, i); let at = if i < n { 0 } else { 1 }; t[at] += &s; t[2 + at] += &b; }
    if lang == "fall" { let tok = "tokenizer { ident r\"\\w+\" }\n"; t[0] = format!("{}{}", tok, t[0]); t[2] = format!("{}{}", tok, t[2]); }
    if lang == "json" { t[0].insert(0, '{'); t[2].insert(0, '{'); t[1] += "\"z\": 0}"; t[3] += "\"z\": 0}"; }
    for (k, v) in ["pre_small", "suf_small", "pre_big", "suf_big"].iter().zip(&t) { p.set(k, v); }
    let (head, tail) = if lang == "json" { ("\"target\": [", "],\n") } else if lang == "fall" { (*r.pick(&["pub rule target {", "rule target(a, b) {", "#[cached]\nrule target {"]), "}\n") } else { *r.pick(&[("fn target(a: u8) -> u8 {", "}\n"), ("pub unsafe fn target<T: Copy>() {", "}\n"), ("impl A for B { fn target() {", "} }\n"), ("mod m { fn before() { x } fn target() {", "} struct S; }\n"), ("trait T { fn target(&self) {", "} }\n"), ("#[test]\nfn target() {", "}\n\n")]) };
    let mut vs: Vec<Vec<String>> = vec![(0..r.below(6)).map(|_| piece(r, lang)).collect()];
    let text = |v: &Vec<String>| format!("{} {}{}", head, v.iter().map(|s| format!("{} ", s)).collect::<String>(), tail);
    p.set("item", text(&vs[0]));
    for _ in 0..r.range(1, 8) {
        let back = if r.chance(4, 5) { 0 } else { r.range(1, 3) }; let mut v = vs[vs.len() - 1 - back % vs.len()].clone();
        let offs: Vec<usize> = { let mut o = head.len() + 1; let mut f = vec![o]; for x in &v { o += x.len() + 1; f.push(o); } f };
        let mut ix: Vec<usize> = (0..if r.chance(3, 4) { 1 } else { r.range(2, 3) }).map(|_| r.below(v.len() + 1)).collect(); ix.sort(); ix.dedup(); let mut cuts = Vec::new();
        for &i in ix.iter().rev() {
            let o = offs[i]; let k = if i == v.len() { 3 } else { r.below(5) };
            match k {
                0 => { cuts.push(format!("{} {}:", o, o + v[i].len() + 1)); v.remove(i); }
                1 => { let n = piece(r, lang); cuts.push(format!("{} {}:{}", o, o + v[i].len(), n)); v[i] = n; }
                2 if v[i].chars().all(|c| c.is_alphanumeric()) => { let c = *r.pick(&['a', 'b', '1']); cuts.push(format!("{} {}:{}", o + v[i].len(), o + v[i].len(), c)); v[i].push(c); }
                _ => { let n = piece(r, lang); cuts.push(format!("{} {}:{} ", o, o, n)); v.insert(i, n); }
            }
        }
        cuts.reverse(); p.ops.push(format!("edit {} {}", back, cuts.join("\x01"))); vs.push(v);
    }
}
const RULE: &str = "one run = one session of up to 8 edits in a block (undo to older versions and branches), made in two files which differ in the other blocks, by two threads, or one text which opens 20-40 things, one in another, typed piece by piece; non-trivial always";
pub fn scenarios() -> Vec<Scn> {
    vec![Scn { prop: "E05", gen, run, quick: 6_000, thorough: 200_000, level: "exploration", rule: RULE, real: "lexer and relexer, parser with its cache, editor files, metrics, std threads and mutexes: all real code", stub: "kernel: threads, futexes and clocks are scheduled by the simulator (csrc/)", assumptions: &["work is counted in the parser's own steps and the lexer's own bytes, as each version's metrics report them"], probes: &["edits", "edits_compared_with_a_larger_file", "multi_part_edits", "reads_by_others", "nested_texts"], warm: || { let _ = crate::edit::language("rust").parse("fn f() {}".to_string()); let _ = crate::edit::language("fall").parse("rule f {}".to_string()); } }]
}
