// The parser generator as a program: simulated processes run `fall_gen::process` over grammar files on a simulated
// disk that fails, fills up and loses the process in the middle of a write.
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;

const NAMES: [&str; 4] = ["/sim/w/one.fall", "/sim/w/two.fall", "/sim/w/dir/three.fall", "/sim/w/four.v2.fall"];
fn output(p: &str) -> String { PathBuf::from(p).with_extension("rs").to_str().unwrap().to_string() }

/// A source is "peg <seed>", "cut <seed> <n>" (a grammar with a piece missing), "bytes" (not UTF-8), "text <k>".
fn source(spec: &str) -> Vec<u8> {
    let w: Vec<&str> = spec.split(' ').collect();
    let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
    match w[0] {
        "peg" => crate::peg::gen(n(1)).text().into_bytes(),
        "cut" => { let mut t = crate::peg::gen(n(1)).text(); let a = at(&t, n(2) as usize % (t.len() + 1)); let b = at(&t, (a + n(3) as usize).min(t.len())); t.replace_range(a..b, ""); t.into_bytes() }
        "snip" => { let mut t = crate::peg::gen(n(1)).text(); let mut r = Rng::new(n(2)); for _ in 0..r.range(1, 4) { let a = at(&t, r.below(t.len() + 1)); let b = at(&t, if r.chance(1, 2) { a } else { (a + r.below(12)).min(t.len()) }); t.replace_range(a..b, *r.pick::<&str>(&crate::ana::SNIPS[..])); } t.into_bytes() }
        "words" => { let mut t = crate::peg::gen(n(1)).text(); let mut r = Rng::new(n(2)); for _ in 0..r.range(1, 4) { let ws: Vec<(usize, usize)> = words(&t); if ws.len() < 2 { break } let (x, y) = (*r.pick(&ws), *r.pick(&ws)); let w = t[y.0..y.1].to_string(); let extra = if r.chance(1, 4) { r.pick(&["_a", "a__b", "__", "commit", "any", "eof", "prev_is", "replaces", "cached", "pratt", "atom"]).to_string() } else { w }; t.replace_range(x.0..x.1, &extra); } t.into_bytes() }
        "ana" => { let mut r = Rng::new(n(1)); crate::ana::grammar(&mut r).into_bytes() }
        "ast" => { let g = crate::peg::gen(n(1)); let mut t = g.text(); t += &ast(&t.clone(), &mut Rng::new(n(2))); t.into_bytes() }
        "bad" | "good" => { let (_, token, extra) = DOUBT[n(2) as usize % DOUBT.len()]; let t = crate::peg::gen(n(1)).text(); let t = if w[0] == "bad" { with(t, token.0, extra.0) } else { with(t, token.1, extra.1) }; t.into_bytes() }
        "bytes" => { let mut t = crate::peg::gen(n(1)).text().into_bytes(); let i = n(2) as usize % t.len(); t[i] = 0xff; t }
        _ => { let c = crate::edit::corpus("fall"); c[n(1) as usize % c.len()].as_bytes().to_vec() }
    }
}
/// One thing that makes a grammar mean nothing, beside its nearest neighbour that means something: (name, lines of the tokenizer, rules).
const DOUBT: [(&str, (&str, &str), (&str, &str)); 79] = [
    ("reference", ("", ""), ("rule zz { zt znone }\n", "rule zz { zt zu }\n")),
    ("reference inside", ("", ""), ("pub rule zz { zt | { <not znone> <any> }* }\n", "pub rule zz { zt | { <not zu> <any> }* }\n")),
    ("call", ("", ""), ("rule zz { <znone zt> }\n", "rule zz { <zf zt> }\nrule zf(p) { p zu }\n")),
    ("call of a rule without parameters", ("", ""), ("rule zz { <zf zt> }\nrule zf { zu }\n", "rule zz { zf zt }\nrule zf { zu }\n")),
    ("another rule's parameter", ("", ""), ("rule zz { zp }\nrule zf(zp) { zp zu }\n", "rule zz(zp) { zp zp }\nrule zf(zp) { zp zu }\n")),
    ("private replaces", ("", ""), ("#[replaces]\nrule zz { zt }\n", "#[replaces]\npub rule zz { zt }\n")),
    ("commit in an option", ("", ""), ("rule zz { zt <commit>? zu }\n", "rule zz { zt <commit> zu? }\n")),
    ("commit in an argument", ("", ""), ("rule zz { <not <commit>> zu }\n", "rule zz { <not zt> <commit> zu }\n")),
    ("no body", ("", ""), ("pub rule zz\n", "pub rule zz { }\n")),
    ("contextual pattern", ("  #[contextual] zc r\"zc\"\n", "  #[contextual] zc 'zc'\n"), ("rule zz { zc }\n", "rule zz { 'zc' }\n")),
    ("contextual pattern with hashes", ("  #[contextual] zc r#\"zc\"#\n", "  #[contextual] zc 'zc'\n"), ("rule zz { zt | zc }\n", "rule zz { zt | 'zc' }\n")),
    ("token without pattern", ("  zd\n", "  zd 'zd'\n"), ("rule zz { zt }\n", "rule zz { 'zd' }\n")),
    ("pratt of a token", ("", ""), ("#[pratt]\nrule zz { zt }\n", "#[pratt]\nrule zz { zz1 }\n#[atom]\npub rule zz1 { zt }\n")),
    ("pratt of a private rule", ("", ""), ("#[pratt]\nrule zz { zz1 }\n#[atom]\nrule zz1 { zt }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[prefix]\npub rule zz2 { zu zz }\n")),
    ("pratt of a plain rule", ("", ""), ("#[pratt]\nrule zz { zz1 }\npub rule zz1 { zt }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(1)]\npub rule zz2 { zz zu zz }\n")),
    ("pratt of a call", ("", ""), ("#[pratt]\nrule zz { <not zt> }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[postfix]\npub rule zz2 { zz zu }\n")),
    ("pratt operator", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(1)]\npub rule zz2 { zz zu }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(1)]\npub rule zz2 { zz { zu | zt } zz }\n")),
    ("binary without priority", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin]\npub rule zz2 { zz zu zz }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(3)]\npub rule zz2 { zz zu zz }\n")),
    ("binary whose priority is a word", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(high)]\npub rule zz2 { zz zu zz }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(0)]\npub rule zz2 { zz zu zz }\n")),
    ("postfix of three", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[postfix]\npub rule zz2 { zz zu zu }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[postfix]\npub rule zz2 { zz { zu zu } }\n")),
    ("prefix of one", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[prefix]\npub rule zz2 { zu }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[prefix(2)]\npub rule zz2 { zu zz }\n")),
    ("binary of two alternatives", ("", ""), ("#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(1)]\npub rule zz2 { zz zu zz | zz zt zz }\n", "#[pratt]\nrule zz { zz1 | zz2 }\n#[atom]\npub rule zz1 { zt }\n#[bin(1)]\npub rule zz2 { zz { zu | zt } zz }\n")),
    ("context that is no string", ("", ""), ("rule zz { <is_in zt> zu }\n", "rule zz { <is_in 'zt'> zu }\n")),
    ("entering no context", ("", ""), ("rule zz { <enter zt zu> }\n", "rule zz { <enter 'zt' zu> }\n")),
    ("not of nothing", ("", ""), ("rule zz { <not> zu }\n", "rule zz { <not zt> zu }\n")),
    ("one layer", ("", ""), ("rule zz { <layer zt> }\n", "rule zz { <layer zt zu> }\n")),
    ("repeated token accessor", ("", ""), ("pub rule zz { zt zt }\nast { node zz { m zt* } }\n", "pub rule zz { zt zt }\nast { node zz { m zt? } }\n")),
    ("repeated text accessor", ("", ""), ("pub rule zz { zt zt }\nast { node zz { m zt*.text } }\n", "pub rule zz { zt zt }\nast { node zz { m zt?.text } }\n")),
    ("accessor of nothing", ("", ""), ("pub rule zz { zt zt }\nast { node zz { m znone } }\n", "pub rule zz { zt zz1 }\npub rule zz1 { zu }\nast { node zz { m zz1 } node zz1 { } }\n")),
    ("argument missing", ("", ""), ("rule zz { <zf zt> }\nrule zf(p, q) { p q }\n", "rule zz { <zf zt zu> }\nrule zf(p, q) { p q }\n")),
    ("argument too many", ("", ""), ("pub rule zz { <zf zt zu> }\nrule zf(p) { p zu }\n", "pub rule zz { <zf zt> }\nrule zf(p) { p zu }\n")),
    ("no arguments", ("", ""), ("rule zz { zt zf }\nrule zf(p) { p zu }\n", "rule zz { zt <zf zu> }\nrule zf(p) { p zu }\n")),
    ("pratt of a rule with parameters", ("", ""), ("#[pratt]\nrule zz { zz1 }\n#[atom]\npub rule zz1(p) { zt p }\n", "#[pratt]\nrule zz { zz1 }\n#[atom]\npub rule zz1 { zt }\n")),
    ("token twice", ("  zd r\"zd\"\n  zd r\"ze\"\n", "  zd r\"zd\"\n  ze r\"ze\"\n"), ("rule zz { zt }\n", "rule zz { ze }\n")),
    ("rule twice", ("", ""), ("pub rule zz { zt }\npub rule zz { zu }\n", "pub rule zz { zt }\npub rule zz1 { zu }\n")),
    ("rule named like a token", ("", ""), ("pub rule zt { zu }\n", "pub rule zz { zu }\n")),
    ("rule named like the error", ("", ""), ("pub rule error { zu }\n", "pub rule errors { zu }\n")),
    ("parameters without end", ("", ""), ("rule zz { <zf zt zt zt zt zt zt zt zt zt> }\nrule zf(a, b, c, d, e, f, g, h, i) { a i }\nrule zg(a, b, c, d, e, f, g, h) { a h }\n", "rule zz { <zf zt zt> }\nrule zf(a, b) { a b }\n")),
    ("contexts without end", ("", ""), ("rule zz { <is_in 'a'> | <is_in 'b'> | <is_in 'c'> | <is_in 'd'> | <is_in 'e'> | <is_in 'f'> | <is_in 'g'> | <is_in 'h'> | <is_in 'i'> | <is_in 'j'> | <is_in 'k'> | <is_in 'l'> | <is_in 'm'> | <is_in 'n'> | <is_in 'o'> | <is_in 'p'> | <is_in 'q'> }\n", "rule zz { <is_in 'a'> | <is_in 'b'> | <enter 'b' zt> }\n")),
    ("private start", ("", ""), ("@rule file ", "@pub rule file ")),
    ("start that replaces", ("", ""), ("@#[replaces]\npub rule file ", "@#[replaceable]\npub rule file ")),
    ("start with a parameter", ("", ""), ("@pub rule file(p) ", "@pub rule file ")),
    ("token of a reserved name", ("  lang r\"zd\"\n", "  langs r\"zd\"\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("token whose name is a number", ("  1a r\"zd\"\n", "  a1 r\"zd\"\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("contextual token without a name", ("  #[contextual] _ 'zd'\n", "  #[contextual] _z 'zd'\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("rule without a name", ("", ""), ("pub rule _ { zt }\n", "pub rule _z { zt }\n")),
    ("rule of a reserved name", ("", ""), ("pub rule lang { zt }\n", "rule lang { zt }\n")),
    ("pattern that is none", ("  zd r\"(z\"\n", "  zd r\"(z)\"\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("pattern of nothing", ("  zd r\"z*\"\n", "  zd r\"zz*\"\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("text of nothing", ("  zd ''\n", "  zd 'zd'\n"), ("rule zz { zt }\n", "rule zz { zt }\n")),
    ("contextual text of nothing", ("  #[contextual] zd ''\n", "  #[contextual] zd 'zd'\n"), ("rule zz { zt '' }\n", "rule zz { zt 'zd' }\n")),
    ("type of no rule", ("", ""), ("#[type(znone)]\npub rule zz { zt }\n", "#[type(zz1)]\npub rule zz { zt }\npub rule zz1 { zu }\n")),
    ("type of a private rule", ("", ""), ("#[type(zz1)]\npub rule zz { zt }\nrule zz1 { zu }\n", "#[type(zt)]\npub rule zz { zt }\nrule zz1 { zu }\n")),
    ("type without a name", ("", ""), ("#[type]\npub rule zz { zt }\n", "#[types]\npub rule zz { zt }\n")),
    ("pratt start", ("", ""), ("@#[pratt]\npub rule file { zz1 }\n#[atom]\npub rule zz1 { zt }\npub rule zfile ", "@pub rule file { zz }\n#[pratt]\nrule zz { zz1 }\n#[atom]\npub rule zz1 { zt }\npub rule zfile ")),
    ("node twice", ("", ""), ("pub rule zz { zt }\nast { node zz { } node zz { } }\n", "pub rule zz { zt }\nast { node zz { } node file { } }\n")),
    ("class named like a node", ("", ""), ("pub rule zz { zt }\nast { node zz { } node zt { } class zz { zt } }\n", "pub rule zz { zt }\nast { node zz { } node zt { } class zc { zt } }\n")),
    ("class twice", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz } class zc { zz } }\n", "pub rule zz { zt }\nast { node zz { } class zc { zz } class zd { zz } }\n")),
    ("trait twice", ("", ""), ("pub rule zz { zt }\nast { node zz: ze { } trait ze { m zt } trait ze { m zu } }\n", "pub rule zz { zt }\nast { node zz: ze { } trait ze { m zt } trait zf { m zu } }\n")),
    ("trait named like a node", ("", ""), ("pub rule zz { zt }\nast { node zz { } trait zz { m zt } }\n", "pub rule zz { zt }\nast { node zz { } trait zy { m zt } }\n")),
    ("accessor twice", ("", ""), ("pub rule zz { zt }\nast { node zz { m zt m zu } }\n", "pub rule zz { zt }\nast { node zz { m zt n zu } }\n")),
    ("accessor of a trait twice", ("", ""), ("pub rule zz { zt }\nast { node zz: ze { } trait ze { m zt m zt } }\n", "pub rule zz { zt }\nast { node zz: ze { m zt } trait ze { m zt n zt } }\n")),
    ("accessor named like a keyword", ("", ""), ("pub rule zz { zt }\nast { node zz { type zt } }\n", "pub rule zz { zt }\nast { node zz { types zt } }\n")),
    ("accessor named like a new keyword", ("", ""), ("pub rule zz { zt }\nast { node zz { async zt? } }\n", "pub rule zz { zt }\nast { node zz { union zt? } }\n")),
    ("accessor named node", ("", ""), ("pub rule zz { zt }\nast { node zz { node zt.text } }\n", "pub rule zz { zt }\nast { node zz { nodes zt.text } }\n")),
    ("accessor whose name is a number", ("", ""), ("pub rule zz { zt }\nast { node zz { 2m zt.text } }\n", "pub rule zz { zt }\nast { node zz { m2 zt.text } }\n")),
    ("accessor of a trait named like a keyword", ("", ""), ("pub rule zz { zt }\nast { node zz: ze { } trait ze { loop zt } }\n", "pub rule zz { zt }\nast { node zz: ze { } trait ze { looped zt } }\n")),
    ("node of nothing", ("", ""), ("pub rule zz { zt }\nast { node zz { } node zy { } }\n", "pub rule zz { zt }\nast { node zz { } node zu { } }\n")),
    ("class with an unknown node", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz zy } }\n", "pub rule zz { zt }\nast { node zz { } node zu { } class zc { zz zu } }\n")),
    ("class with a token", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz zt } }\n", "pub rule zz { zt }\nast { node zz { } node zt { } class zc { zz zt } }\n")),
    ("class with a node twice", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz zz } }\n", "pub rule zz { zt }\nast { node zz { } node zt { } class zc { zt zz } }\n")),
    ("empty class", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { } }\n", "pub rule zz { zt }\nast { node zz { } class zc { zz } }\n")),
    ("class in itself", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz zc } }\n", "pub rule zz { zt }\nast { node zz { } class zc { zz } class zd { zc zz } }\n")),
    ("class in itself through another", ("", ""), ("pub rule zz { zt }\nast { node zz { } class zc { zz zd } class zd { zc } }\n", "pub rule zz { zt }\nast { node zz { } class zc { zz zd } class zd { zz } }\n")),
    ("class of a reserved name", ("", ""), ("pub rule zz { zt }\nast { node zz { } class self { zz } }\n", "pub rule zz { zt }\nast { node zz { } class selfs { zz } }\n")),
    ("trait of a reserved name", ("", ""), ("pub rule zz { zt }\nast { node zz: default { } trait default { m zt } }\n", "pub rule zz { zt }\nast { node zz: defaults { } trait defaults { m zt } }\n")),
    ("node of a private rule", ("", ""), ("rule zz { zt }\nast { node zz { } }\n", "#[pratt]\npub rule zz { zz1 }\n#[atom]\npub rule zz1 { zt }\nast { node zz { } }\n")),
    ("node of a reserved name", ("", ""), ("pub rule box { zt }\nast { node box { } }\n", "pub rule box { zt }\npub rule boxs { zt }\nast { node boxs { } }\n")),
    ("nodes with one name", ("", ""), ("pub rule za_b { zt }\npub rule za__b { zu }\nast { node za_b { } node za__b { } }\n", "pub rule za_b { zt }\npub rule za_bb { zu }\nast { node za_b { } node za_bb { } }\n")),
];
pub fn doubts() -> usize { DOUBT.len() * 2 }
/// A small grammar with one of the above.
pub fn doubt(i: usize) -> (String, String) {
    let (name, token, extra) = DOUBT[i / 2 % DOUBT.len()]; let base = "tokenizer {\n  #[skip] whitespace r\"\\s+\"\n}\npub rule file { zt? zu? }\n".to_string();
    if i % 2 == 0 { (format!("{}, wrong", name), with(base, token.0, extra.0)) } else { (format!("{}, right", name), with(base, token.1, extra.1)) }
}
fn with(mut t: String, token: &str, extra: &str) -> String {
    t = t.replacen("tokenizer {\n", &format!("tokenizer {{\n  zt r\"zt\"\n  zu r\"zu\"\n{}", token), 1);
    if extra.starts_with('@') { t.replacen("pub rule file ", &extra[1..], 1) } else { t + extra }
}
/// Whether there is a parser for this source, as far as its making says.
fn expected(spec: &str) -> Option<bool> { match spec.split(' ').next().unwrap() { "peg" | "good" => Some(true), "bad" | "bytes" => Some(false), _ => None } }
fn refuse(spec: &str, r: &Option<String>, src: &[u8]) {
    match (expected(spec), r) {
        (Some(true), None) => ffi::fail(&format!("refuses-good: no parser for the grammar {}\n{}", spec, String::from_utf8_lossy(src))),
        (Some(false), Some(_)) => ffi::fail(&format!("accepts-broken: {} ({}) has no meaning, but a parser was made\n{}", spec, if spec.starts_with("bad") { DOUBT[spec.split(' ').nth(2).unwrap().parse::<usize>().unwrap() % DOUBT.len()].0 } else { "not UTF-8" }, String::from_utf8_lossy(src))),
        _ => {}
    }
}
fn words(t: &str) -> Vec<(usize, usize)> { let b = t.as_bytes(); let w = |i: usize| i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_'); let mut v = Vec::new(); let mut i = 0; while i < b.len() { if w(i) { let s = i; while w(i) { i += 1; } v.push((s, i)); } else { i += 1; } } v }
/// An `ast` block over the names of the grammar, mostly right.
fn ast(g: &str, r: &mut Rng) -> String {
    let after = |k: &str| -> Vec<String> { g.match_indices(k).map(|(i, _)| g[i + k.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()).collect() };
    let rules = after("pub rule "); let toks: Vec<String> = g.lines().skip(1).take_while(|l| !l.starts_with('}')).filter_map(|l| { let l = l.trim().trim_start_matches("#[skip] ").trim_start_matches("#[contextual] "); l.split(' ').next().map(|s| s.to_string()) }).collect();
    let mut s = String::from("ast {\n"); let mut nodes = Vec::new();
    for n in &rules { if r.chance(2, 3) { nodes.push(n.clone()); } } if r.chance(1, 12) { nodes.push(r.pick(&["_x", "a__b", "nothing"]).to_string()); } if nodes.is_empty() { return String::new() }
    let name = r.chance(1, 2);
    if name { s += &format!("  trait named {{ name {}.text }}\n", r.pick(&toks)); }
    let class = r.chance(2, 3);
    for n in &nodes {
        s += &format!("  node {}{} {{", n, if name && r.chance(1, 3) { ": named" } else { "" });
        for k in 0..r.below(4) { let q = *r.pick(&["", "?", "*"]); let sel = match r.below(8) { 0 | 1 => format!("{}{}.text", r.pick(&toks), if q == "*" && r.chance(9, 10) { "" } else { q }), 2 => format!("{}{}", r.pick(&toks), if q == "*" && r.chance(9, 10) { "?" } else { q }), 3 if class => format!("cls{}", q), _ => format!("{}{}", r.pick(&nodes), q) }; s += &format!(" m{} {}", k, sel); }
        s += " }\n";
    }
    if class { s += &format!("  class cls {{ {} {} }}\n", r.pick(&nodes), r.pick(&nodes)); }
    s + "}\n"
}
fn at(s: &str, mut i: usize) -> usize { while !s.is_char_boundary(i) { i -= 1; } i }
/// What a generator that meets no fault says. None: it refuses the grammar. Some(Err): it panics.
fn reference(src: &[u8]) -> Option<String> {
    let t = std::str::from_utf8(src).ok()?.to_string();
    let m = ffi::fault_mask(); ffi::set_faults(&[]);
    let r = std::panic::catch_unwind(|| lang_fall::analyse(t).analyse(fall_gen::generate).ok());
    ffi::set_fault_mask(m);
    match r { Ok(r) => r, Err(_) => ffi::fail(&format!("generator-panics: {:?} for the grammar\n{}", crate::driver::panics().last(), String::from_utf8_lossy(src))) }
}
const ERRORS: [usize; 6] = [ffi::OPEN_ERR, ffi::READ_EIO, ffi::WRITE_EIO, ffi::WRITE_ENOSPC, ffi::STAT_ERR, ffi::META_ERR];
const READS: [usize; 3] = [ffi::OPEN_ERR, ffi::READ_EIO, ffi::STAT_ERR];
const WRITES: [usize; 2] = [ffi::WRITE_EIO, ffi::WRITE_ENOSPC];

struct Book { versions: Vec<Vec<Vec<u8>>>, want: Vec<Vec<Option<String>>>, running: Vec<u32>, calls: Vec<u64> }
fn show(v: &Option<Vec<u8>>) -> String { match v { None => "no file".into(), Some(v) => { let s = String::from_utf8_lossy(v); format!("{} bytes, {:?}..", v.len(), s.chars().take(60).collect::<String>()) } } }

/// Ops: "src <i> <spec>" the grammar file i; "old <i> <kind>" what is at its output; "p<k> gen <i>"; "p<k> swap <i> <spec>" (an editor
/// replaces the grammar by another one, atomically).
fn run_generate(plan: &Plan) {
    ffi::set_faults(&[]);
    ffi::fs_mkdir("/sim/w/dir"); ffi::fs_mkdir("/sim/tmp");
    let mut b = Book { versions: vec![vec![]; NAMES.len()], want: vec![vec![]; NAMES.len()], running: vec![0; NAMES.len()], calls: vec![0; NAMES.len()] };
    let mut expected_files: Vec<String> = vec![];
    let mut good = 0; let mut bad = 0;
    for o in &plan.ops {
        let w: Vec<&str> = o.splitn(3, ' ').collect();
        let i: usize = w[1].parse().unwrap_or(0);
        if w[0] == "src" { let s = source(w[2]); ffi::fs_put(NAMES[i], &s); let r = reference(&s); refuse(w[2], &r, &s); if r.is_some() { good += 1 } else { bad += 1 } b.want[i] = vec![r]; b.versions[i] = vec![s]; expected_files.push(NAMES[i].to_string()); expected_files.push(output(NAMES[i])); }
        if w[0] == "old" { match w[2] { "none" => {} "old" => ffi::fs_put(&output(NAMES[i]), "// the old parser\n".repeat(200).as_bytes()), "same" => if let Some(Some(t)) = b.want[i].get(0) { ffi::fs_put(&output(NAMES[i]), t.as_bytes()) }, "long" => ffi::fs_put(&output(NAMES[i]), "x".repeat(400_000).as_bytes()), _ => {} } }
    }
    // the generator says the same whenever it is asked
    for i in 0..NAMES.len() { if let Some(s) = b.versions[i].get(0) { let again = reference(s); if again != b.want[i][0] { ffi::fail(&format!("not-deterministic: two generations of one grammar differ:\n{:?}\n{:?}", again, b.want[i][0])); } } }
    let b = Arc::new(Mutex::new(b));
    if plan.num("room") > 0 { ffi::set_disk(plan.num("room")); }
    let nproc = plan.num("procs").max(1) as i32;
    let started = Arc::new(AtomicUsize::new(0));
    let shared_target = plan.flag("shared");
    let mut procs: Vec<i32> = (1..=nproc).collect(); if plan.ops.iter().any(|o| o.starts_with("p9 ")) { procs.push(9); }
    for &p in &procs {
        let ops: Vec<String> = plan.ops.iter().filter(|o| o.starts_with(&format!("p{} ", p))).map(|o| o.splitn(2, ' ').nth(1).unwrap().to_string()).collect();
        let started = started.clone(); let b = b.clone(); let mask = crate::idx::sut_faults(plan); let has_swap = plan.ops.iter().any(|o| o.contains(" swap "));
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            ffi::set_proc(p, true); started.fetch_add(1, Ordering::SeqCst);
            for o in ops {
                let w: Vec<&str> = o.splitn(3, ' ').collect(); let i: usize = w[1].parse().unwrap();
                ffi::note(&format!("process {}: {}, output is {}", p, o, show(&ffi::fs_get(&output(NAMES[i])))));
                if ffi::atomically(|| b.lock().unwrap().versions[i].is_empty()) { continue }
                if w[0] == "swap" {
                    ffi::set_faults(&[]); let s = source(w[2]); let r = reference(&s); refuse(w[2], &r, &s);
                    ffi::atomically(|| { let mut b = b.lock().unwrap(); b.versions[i].push(s.clone()); b.want[i].push(r); ffi::fs_remove(NAMES[i]); ffi::fs_put(NAMES[i], &s); });
                    continue
                }
                let out = output(NAMES[i]);
                let (from, before) = ffi::atomically(|| { let mut b = b.lock().unwrap(); b.running[i] += 1; b.calls[i] += 1; (b.versions[i].len() - 1, ffi::fs_get(&out)) });
                let fired0 = ffi::fired(&ERRORS); let (r0, w0) = (ffi::fired(&READS), ffi::fired(&WRITES));
                ffi::set_fault_mask(mask);
                let r = std::panic::catch_unwind(|| fall_gen::process(fall_gen::Task::Generate(PathBuf::from(NAMES[i]))).map_err(|e| { let mut s = format!("{}", e); for c in e.iter_causes() { s += &format!(": {}", c); } s }));
                ffi::set_faults(&[]);
                ffi::atomically(|| {
                    let mut b = b.lock().unwrap(); b.running[i] -= 1;
                    let r = match r { Ok(r) => r, Err(_) => ffi::fail(&format!("generator-panics: {:?}", crate::driver::panics().last())) };
                    let after = ffi::fs_get(&out);
                    let wants: Vec<Option<String>> = b.want[i][from..].to_vec();
                    let alone = !shared_target; // nobody else writes this output
                    let faults = ffi::fired(&ERRORS) - fired0; let (rf, wf) = (ffi::fired(&READS) - r0, ffi::fired(&WRITES) - w0);
                    match r {
                        Ok(()) => {
                            ffi::probe(0);
                            if wants.iter().all(|w| w.is_none()) { ffi::fail(&format!("accepts-broken: {} is not a grammar, but a parser was made: {}", NAMES[i], show(&after))); }
                            if alone && !wants.iter().any(|w| w.is_some() && w.as_ref().map(|s| s.as_bytes().to_vec()) == after) { ffi::fail(&format!("wrong-output: the generator reported success for {}, its output is {}, it should be {}", NAMES[i], show(&after), show(&wants[0].clone().map(|s| s.into_bytes())))); }
                        }
                        Err(e) => {
                            if faults == 0 && wants.iter().all(|w| w.is_some()) { ffi::fail(&format!("spurious-error: no fault and a good grammar, but the generator says: {}", e)); }
                            if faults == 0 { ffi::probe(1); } else { ffi::probe(2); }
                            let kept = after == before;
                            let partial = wf > 0 && wants.iter().any(|w| match (w, &after) { (Some(w), Some(a)) => w.as_bytes().starts_with(a), _ => false });
                            if alone && !kept && !partial { ffi::fail(&format!("output-touched: {}: the generator failed ({}), {} write faults and {} read faults, and its output turned from {} into {}", o, e, wf, rf, show(&before), show(&after))); }
                            if partial && !kept { ffi::probe(3); }
                        }
                    }
                    if !has_swap { let s = ffi::fs_get(NAMES[i]); if s.as_ref() != Some(&b.versions[i][0]) { ffi::fail(&format!("grammar-touched: {} is now {}", NAMES[i], show(&s))); } }
                });
            }
        }).unwrap();
    }
    while started.load(Ordering::SeqCst) < procs.len() { ffi::sleep_ms(1); }
    let mut killed = false;
    for &p in &procs { if ffi::wait_proc(p) == 2 { killed = true; ffi::probe(4); } }
    if let Some(x) = crate::driver::panics().first() { ffi::fail(&format!("generator-panics: {:?}", x)); }
    ffi::faults_off_all(); ffi::set_disk(0);
    let check_files = |when: &str| {
        let b = b.lock().unwrap();
        let l = ffi::fs_list("/sim/w", true);
        for f in &l { let f = if f.starts_with('/') { f.clone() } else { format!("/sim/w/{}", f) }; if !expected_files.contains(&f) { ffi::fail(&format!("stray-file: {} {}, among {:?}", f, when, l)); } }
        for i in 0..NAMES.len() { if let Some(v) = b.versions[i].last() { let s = ffi::fs_get(NAMES[i]); if s.as_ref() != Some(v) { ffi::fail(&format!("grammar-touched: {} {} is {}", NAMES[i], when, show(&s))); } } }
    };
    if !killed { check_files("after all ended"); }
    // a process that died or failed half way leaves nothing a later run cannot put right
    for i in 0..NAMES.len() {
        let want = match b.lock().unwrap().want[i].last() { Some(w) => w.clone(), None => continue };
        let out = output(NAMES[i]); let before = ffi::fs_get(&out);
        if before.is_some() && killed { if let (Some(w), Some(x)) = (&want, &before) { if !shared_target && x.len() > 0 && w.as_bytes().starts_with(x) && x.len() < w.len() { ffi::probe(5); } } }
        match fall_gen::process(fall_gen::Task::Generate(PathBuf::from(NAMES[i]))) {
            Ok(()) => match &want { None => ffi::fail(&format!("accepts-broken: {} is not a grammar, but a parser was made", NAMES[i])), Some(w) => { let a = ffi::fs_get(&out); if a.as_ref().map(|x| &x[..]) != Some(w.as_bytes()) { ffi::fail(&format!("wrong-output: without faults {} became {} instead of {}", out, show(&a), show(&Some(w.clone().into_bytes())))); } } },
            Err(e) => { if want.is_some() { ffi::fail(&format!("spurious-error: a quiet disk and a good grammar, but the generator says: {}", e)); } if ffi::fs_get(&out) != before { ffi::fail(&format!("output-touched: {} of a broken grammar", out)); } }
        }
    }
    check_files("after the last generation");
    if good > 0 || bad > 0 { ffi::probe(63); }
}
fn gen_spec(r: &mut Rng) -> String {
    match r.below(26) { 20..=23 => format!("bad {} {}", r.next() >> 1, r.below(DOUBT.len())), 24 | 25 => format!("good {} {}", r.next() >> 1, r.below(DOUBT.len())), 0..=7 => format!("peg {}", r.next() >> 1), 8 | 9 => format!("cut {} {} {}", r.next() >> 1, r.below(3000), r.range(1, 40)), 10 => format!("bytes {} {}", r.next() >> 1, r.below(3000)), 11 => format!("text {}", r.below(100)), 12 | 13 => format!("snip {} {}", r.next() >> 1, r.below(100000)), 14 | 15 => format!("words {} {}", r.next() >> 1, r.below(100000)), 16 => format!("ana {}", r.next() >> 1), _ => format!("ast {} {}", r.next() >> 1, r.below(100000)) }
}
fn gen_g01(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 1_500_000_000;
    let n = r.range(1, 3); let shared = r.chance(1, 5); let procs = if shared { r.range(2, 3) } else { r.range(1, n) };
    p.set("procs", procs); p.set("shared", shared as u32);
    for i in 0..n { p.ops.push(format!("src {} {}", i, gen_spec(r))); p.ops.push(format!("old {} {}", i, r.pick(&["none", "old", "old", "same", "long"]))); }
    let swaps = !shared && r.chance(1, 4);
    for q in 1..=procs { for _ in 0..r.range(1, 3) {
        // unless they share, each process has its own grammars
        let mine: Vec<usize> = (0..n).filter(|i| shared || i % procs == q - 1).collect(); if mine.is_empty() { continue }
        let i = *r.pick(&mine);
        if swaps && r.chance(1, 3) { p.ops.push(format!("p{} swap {} {}", q, i, gen_spec(r))); }
        p.ops.push(format!("p{} gen {}", q, i));
    } }
    if swaps { for _ in 0..r.range(1, 2) { let i = r.below(n); p.ops.push(format!("p9 swap {} {}", i, gen_spec(r))); } }
    if r.chance(4, 5) {
        for (k, chance) in [(ffi::OPEN_ERR, 6), (ffi::READ_EIO, 6), (ffi::READ_SHORT, 2), (ffi::READ_EINTR, 3), (ffi::WRITE_EIO, 4), (ffi::WRITE_ENOSPC, 5), (ffi::WRITE_SHORT, 2), (ffi::WRITE_EINTR, 3), (ffi::STAT_ERR, 6), (ffi::META_ERR, 8), (ffi::DISK_STALL, 5), (ffi::KILL, 3)].iter() {
            if r.chance(1, *chance) { p.cfg.prob[*k] = *r.pick(&[3000, 12000, 30000]); p.cfg.max[*k] = *r.pick(&[1, 2, 0]); }
        }
        if r.chance(1, 6) { p.set("room", r.below(30_000) + 1); }
        // interruptions and short transfers have to end
        for k in [ffi::READ_EINTR, ffi::WRITE_EINTR].iter() { p.cfg.prob[*k] = p.cfg.prob[*k].min(30000); if p.cfg.max[*k] == 0 { p.cfg.max[*k] = 200; } }
    }
}
fn warm() { let _ = reference(&source("peg 7")); }
// ---- examples: the generated parser is built and run as a child process (the stub cargo below) ----
static mut SKIP: bool = false;
/// Stands in for cargo: `build` fails when the parser has a mistake in its verbatim part, `run` builds and then runs
/// the program that the renderer wrote, which parses what comes from its standard input.
extern "C" fn cargo(pid: i32, argc: i32, argv: *const *const std::os::raw::c_char) -> i32 {
    let args: Vec<String> = (0..argc as usize).map(|i| unsafe { std::ffi::CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned() }).collect();
    let get = |p: &str| ffi::fs_get(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let toml = args.iter().position(|a| a == "--manifest-path").and_then(|i| args.get(i + 1)).cloned().or_else(|| args.iter().find(|a| a.starts_with("--manifest-path=")).map(|a| a[16..].to_string())).unwrap_or_default();
    let dir = toml.trim_end_matches("/Cargo.toml").to_string();
    let run = args.iter().any(|a| a == "run" || a == "r");
    ffi::note(&format!("child {}: {}", pid, args.join(" ")));
    ffi::sleep_ms(400);
    // sources are read while the compiler works
    let main = get(&format!("{}/src/main.rs", dir)); let syntax = get(&format!("{}/src/syntax.rs", dir)); let manifest = get(&toml);
    ffi::sleep_ms(2500);
    let quiet = args.iter().any(|a| a == "--quiet" || a == "-q");
    if !quiet { ffi::child_write(pid, 2, b"   Compiling fall_tests_rendering v0.1.0\n"); }
    if main.is_empty() || syntax.is_empty() || manifest.is_empty() || syntax.contains("COMPILE_ERROR") { ffi::child_write(pid, 2, b"error: MARK expected item\n"); return 101 << 8 }
    if !quiet { ffi::child_write(pid, 2, b"    Finished dev [unoptimized + debuginfo] target(s)\n"); }
    if !run { return 0 }
    if !main.contains("print") && !main.contains("write") { return 0 }
    let sep = match main.find("split(\"") { Some(i) => { let r = &main[i + 7..]; let r = &r[..r.find('"').unwrap_or(0)]; crate::plan::unesc(r) } None => { unsafe { SKIP = true; } return 0 } };
    let g = crate::peg::Grammar { toks: vec![], rules: vec![], binder: 0, seed: 0, cachy: false };
    let lang = match crate::peg::load_source(&g, &syntax, "(rendered)") { Some(l) => l, None => { unsafe { SKIP = true; } return 0 } };
    let input = String::from_utf8_lossy(&ffi::child_read_all(pid)).into_owned();
    for t in input.split(&sep[..]) {
        if t.contains("CRASH") { ffi::child_write(pid, 2, b"thread 'main' panicked at 'MARK crash'\n"); return if t.contains("CRASH9") { 9 } else { 101 << 8 } }
        ffi::child_write(pid, 1, format!("{}\n\n", fall_tree::dump_file(&lang.parse(t.to_owned()))).as_bytes());
    }
    0
}
fn dump(lang: &fall_tree::Language, t: &str) -> String { format!("{}\n\n", fall_tree::dump_file(&lang.parse(t.to_owned()))) }
/// Param gram<i>: a grammar seed; tests<i>: its examples (one per line, escaped); broken<i>: it does not compile.
fn run_examples(plan: &Plan) {
    ffi::set_faults(&[]); ffi::set_spawn_handler(cargo);
    ffi::fs_mkdir("/sim/w/dir"); ffi::fs_mkdir("/sim/tmp");
    let n = plan.num("grammars") as usize;
    let mut texts = Vec::new(); let mut want: Vec<Option<Vec<String>>> = Vec::new(); let mut tests_of = Vec::new();
    for i in 0..n {
        let mut g = crate::peg::gen(plan.num(&format!("gram{}", i))); g.binder = 0; g.twist(plan.num(&format!("twist{}", i)) as usize);
        let tests: Vec<String> = plan.get(&format!("tests{}", i)).split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let broken = plan.num(&format!("broken{}", i));
        let mut t = g.text(); let note = plan.get(&format!("note{}", i)); if broken == 1 || !note.is_empty() { t += &format!("verbatim r\"{}// {}\"\n", if broken == 1 { "COMPILE_ERROR" } else { "" }, note); } if broken == 2 { t += "rule bad { nothing }\n"; }
        for x in &tests { t += &format!("test r\"\n{}\n\"\n", x); }
        let lang = match crate::peg::load(&g) { Some(l) => l, None => { ffi::probe(40); return } };
        want.push(if broken != 0 { None } else { Some(tests.iter().map(|x| dump(&lang, x.trim())).collect()) });
        ffi::fs_put(NAMES[i], t.as_bytes()); texts.push(t); tests_of.push(tests);
    }
    let want = Arc::new(want); let texts = Arc::new(texts); let tests_of = Arc::new(tests_of);
    let renderer = Arc::new(Mutex::new(fall_gen::TestRenderer));
    if plan.num("room") > 0 { ffi::set_disk(plan.num("room")); }
    let mask = crate::idx::sut_faults(plan);
    let kinds: Vec<usize> = ERRORS.iter().cloned().chain(std::iter::once(ffi::SPAWN_ERR)).collect();
    let deadly = plan.cfg.prob[ffi::KILL] > 0;
    let plan2 = plan.clone(); let (want2, texts2) = (want.clone(), texts.clone()); let tests2 = tests_of.clone();
    let clients = move || { let plan = &plan2; let (want, texts, tests_of) = (&want2, &texts2, &tests2); let renderer = renderer.clone(); let kinds = kinds.clone(); let hs: Vec<_> = (0..plan.num("clients").max(1)).map(|c| {
        let ops: Vec<String> = plan.ops.iter().filter(|o| o.starts_with(&format!("{} ", c))).map(|o| o[2..].to_string()).collect();
        let (want, texts, renderer, kinds, tests_of) = (want.clone(), texts.clone(), renderer.clone(), kinds.clone(), tests_of.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || for o in ops {
            let w: Vec<&str> = o.split(' ').collect(); let i: usize = w[1].parse().unwrap_or(0) % texts.len();
            let file = lang_fall::parse(texts[i].clone());
            let mut guard = match renderer.lock() { Ok(g) => g, Err(_) => ffi::fail("renderer-panics: the renderer is lost") };
            let f0 = ffi::fired(&kinds);
            let out = PathBuf::from(NAMES[i]).with_extension("txt"); let out = out.to_str().unwrap();
            let before = ffi::fs_get(out);
            ffi::note(&format!("client {}: {}", c, o));
            // which examples are asked for, and what the answer is
            let k: usize = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            let picked: Vec<String> = if w[0] == "all" { tests_of[i].clone() } else { tests_of[i].get(k).cloned().into_iter().collect() };
            let none = w[0] == "one" && picked.is_empty();
            let crash = picked.iter().any(|t| t.contains("CRASH"));
            ffi::set_fault_mask(mask);
            let r: std::thread::Result<Result<String, String>> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match w[0] {
                "all" => match fall_gen::process(fall_gen::Task::Examples(PathBuf::from(NAMES[i]))) { Ok(()) => Ok(ffi::fs_get(out).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()), Err(e) => Err(e.to_string()) },
                _ => Ok(guard.render_one(&file, k)),
            }));
            ffi::set_faults(&[]);
            if unsafe { SKIP } { return }
            let got = match r { Ok(r) => r, Err(_) => ffi::fail(&format!("renderer-panics: {:?} in {}", crate::driver::panics().last(), o)) };
            let faults = ffi::fired(&kinds) - f0;
            let text = match &got { Ok(t) => t.clone(), Err(e) => e.clone() };
            let wanted: Option<String> = match &want[i] { Some(all) if !crash => Some(if w[0] == "all" { all.concat() } else { all.get(k).cloned().unwrap_or_default() }), _ => None };
            let tree = |t: &str| t.lines().any(|l| l == "FILE" || l.starts_with("FILE ") || l.starts_with("  "));
            if none { if faults == 0 && !text.is_empty() { ffi::fail(&format!("wrong-examples: there is no example {} but it shows {:?}", k, text)); } }
            else if wanted.as_ref() == Some(&text) && got.is_ok() { ffi::probe(0); }
            else if w[0] == "all" && picked.is_empty() && wanted.is_some() && got.is_ok() { ffi::probe(5); }
            else {
                if faults == 0 {
                    if let Some(w) = &wanted { ffi::fail(&format!("wrong-examples: {} of {} shows {:?}, its own parser says {:?}", o, NAMES[i], text, w)); }
                    let known = plan_says(&texts[i], crash);
                    if !known.iter().any(|k| text.contains(k)) { ffi::fail(&format!("reason-lost: {} cannot be rendered ({:?}), but it shows only {:?}", o, known, text)); }
                    ffi::probe(1);
                } else { ffi::probe(2); if text.trim().is_empty() && w[0] != "all" { ffi::fail(&format!("reason-lost: {} failed on a fault and shows nothing", o)); } if w[0] != "all" && wanted.is_some() && tree(&text) { ffi::fail(&format!("wrong-examples: {} failed and shows {:?}, which its parser never said", o, text)); } }
            }
            if w[0] == "all" {
                let after = ffi::fs_get(out);
                if got.is_err() && after != before && ffi::fired(&WRITES) == 0 { ffi::fail(&format!("output-touched: {} failed, its output turned from {} into {}", o, show(&before), show(&after))); }
            }
            if ffi::fs_get(NAMES[i]).as_ref().map(|x| &x[..]) != Some(texts[i].as_bytes()) { ffi::fail(&format!("grammar-touched: {}", NAMES[i])); }
            drop(guard);
        }).unwrap()
    }).collect();
    for h in hs { if h.join().is_err() { ffi::fail(&format!("renderer-panics: {:?}", crate::driver::panics().last())); } } };
    if deadly {
        // the clients are a process which may be killed at any call, with whatever it left in its files
        let started = Arc::new(AtomicUsize::new(0)); let s2 = started.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || { ffi::set_proc(1, true); s2.store(1, Ordering::SeqCst); clients() }).unwrap();
        while started.load(Ordering::SeqCst) == 0 { ffi::sleep_ms(1); }
        if ffi::wait_proc(1) == 2 { ffi::probe(6); ffi::sleep_ms(20_000); }
        if let Some(x) = crate::driver::panics().first() { ffi::fail(&format!("renderer-panics: {:?}", x)); }
    } else { clients(); }
    if unsafe { SKIP } { ffi::probe(41); return }
    let renderer = Mutex::new(fall_gen::TestRenderer);
    // once the disk works again, so does every example
    ffi::faults_off_all(); ffi::set_disk(0);
    for i in 0..n { if let Some(all) = &want[i] { for k in 0..all.len() { if tests_of[i][k].contains("CRASH") { continue } let got = renderer.lock().unwrap().render_one(&lang_fall::parse(texts[i].clone()), k); if got != all[k] && !unsafe { SKIP } { ffi::fail(&format!("wrong-examples: with everything working, example {} of {} shows {:?}, its own parser says {:?}", k, NAMES[i], got, all[k])); } ffi::probe(3); break } } }
    let left = ffi::fs_list("/sim/w", true).into_iter().filter(|f| !f.ends_with(".fall") && !f.ends_with(".txt")).collect::<Vec<_>>();
    if !left.is_empty() { ffi::fail(&format!("stray-file: {:?}", left)); }
    ffi::probe(63);
}
fn plan_says(text: &str, crash: bool) -> Vec<&'static str> { if text.contains("COMPILE_ERROR") { vec!["MARK expected item"] } else if text.contains("rule bad {") { vec!["nothing"] } else if crash { vec!["MARK crash", "status", "signal", "101", "9"] } else { vec![] } }
fn gen_g02(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000]);
    p.cfg.max_ticks = 1_500_000_000;
    let n = r.range(1, 3); p.set("grammars", n); let clients = r.range(1, 2); p.set("clients", clients);
    for i in 0..n {
        // the next one may be the twin of the one before
        let (seed, twist) = if i > 0 && r.chance(1, 2) { (p.num(&format!("gram{}", i - 1)), r.range(1, 30)) } else { (loop { let s = r.next() >> 1; if crate::peg::expected(&crate::peg::gen(s), "").is_some() { break s } }, 0) };
        let mut g = crate::peg::gen(seed); g.twist(twist); p.set(&format!("twist{}", i), twist);
        let mut t: Vec<String> = Vec::new();
        for _ in 0..r.below(4) { let mut x = g.gen_text(r); if crate::peg::expected(&g, x.trim()).is_none() { continue } x.retain(|c| c != '"'); let x = x.trim().to_string(); if x.is_empty() || crate::peg::expected(&g, &x).is_none() { continue } t.push(x); }
        if r.chance(1, 8) { t.push(r.pick(&["CRASH", "CRASH9", "x CRASH y"]).to_string()); }
        p.set(&format!("gram{}", i), seed); p.set(&format!("tests{}", i), t.join("\u{1}")); p.set(&format!("broken{}", i), if r.chance(1, 6) { 1 } else if r.chance(1, 10) { 2 } else { 0 });
    }
    for _ in 0..r.range(1, 5) { let c = r.below(clients); let i = r.below(n); p.ops.push(if r.chance(1, 3) { format!("{} all {}", c, i) } else { format!("{} one {} {}", c, i, r.below(3)) }); }
    for i in 0..n { if r.chance(1, 3) { let t = *r.pick(&["ж", "жab", "日本", "€ "]); p.set(&format!("note{}", i), t.repeat(r.range(1, 2000))); } }
    if r.chance(2, 3) {
        for (k, chance) in [(ffi::OPEN_ERR, 6), (ffi::READ_EIO, 6), (ffi::READ_SHORT, 2), (ffi::READ_EINTR, 3), (ffi::WRITE_EIO, 5), (ffi::WRITE_ENOSPC, 5), (ffi::WRITE_SHORT, 2), (ffi::WRITE_EINTR, 3), (ffi::STAT_ERR, 6), (ffi::META_ERR, 8), (ffi::DISK_STALL, 5), (ffi::SPAWN_ERR, 4), (ffi::PIPE_SHORT, 2), (ffi::KILL, 4)].iter() {
            if r.chance(1, *chance) { p.cfg.prob[*k] = *r.pick(&[3000, 12000, 30000]); p.cfg.max[*k] = *r.pick(&[1, 2, 0]); }
        }
        if r.chance(1, 6) { p.set("room", r.below(60_000) + 1); } if p.cfg.prob[ffi::KILL] > 0 { p.cfg.max[ffi::KILL] = 1; }
        for k in [ffi::READ_EINTR, ffi::WRITE_EINTR].iter() { if p.cfg.max[*k] == 0 { p.cfg.max[*k] = 200; } }
    }
}
const REAL: &str = "fall_gen (process, code generation, template), lang_fall (parser, analysis), std file I/O: all real code";
const STUB: &str = "kernel: disk, threads and clocks are the simulator (csrc/)";
const STUB2: &str = "kernel: disk, pipes, child processes, threads and clocks are the simulator (csrc/); cargo and the compiled example program are a stub which reads the generated sources and runs the real parsing engine on them";
pub fn scenarios() -> Vec<Scn> {
    vec![
        Scn { prop: "G01", gen: gen_g01, run: run_generate, quick: 4000, thorough: 200_000, level: "exploration", rule: "one run = 1-3 random, damaged or shipped grammars on a simulated disk, 1-3 processes generating their parsers under disk faults and kills, then a run without faults; non-trivial always", real: REAL, stub: STUB,
            assumptions: &[], probes: &["parser_generated", "broken_grammar_refused", "failed_on_a_disk_fault", "output_left_partly_written", "process_killed", "half_written_output_found_after_a_kill"], warm },
        Scn { prop: "G02", gen: gen_g02, run: run_examples, quick: 3000, thorough: 150_000, level: "exploration", rule: "one run = 1-3 random grammars with examples, some of which do not compile or crash, rendered in any order by 1-2 clients of one renderer under disk and spawn faults, then all of them without faults; non-trivial always", real: REAL, stub: STUB2,
            assumptions: &[], probes: &["examples_rendered", "reason_shown", "failed_on_a_fault", "rendered_after_the_faults", "", "grammar_without_examples", "renderer_killed"], warm },
    ]
}
