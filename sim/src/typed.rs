// The generator's output as Rust: a crate of generated parsers is compiled against the real runtime (check.sh), and the
// typed view which each of them offers is compared with what the `ast` section of its grammar says.
use std::sync::{Arc, Mutex, Barrier};
use fall_tree::{AstNode, AstChildren, File, Language, Node, Text};
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::peg::Grammar;
use crate::rng::Rng;

// ---- ast sections ----
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Node, Class, Tok }
#[derive(Clone, Debug)]
struct Method { name: String, child: String, kind: Kind, arity: usize, text: bool }
#[derive(Clone, Debug)]
pub struct Ast { traits: Vec<(String, Vec<Method>)>, nodes: Vec<(String, Vec<usize>, Vec<Method>)>, classes: Vec<(String, Vec<String>)> }
impl Method { fn show(&self) -> String { let q = ["", "?", "*"][self.arity]; format!("{} {}{}{}", self.name, self.child, q, if self.text { ".text" } else { "" }) } }
pub fn gen_ast(g: &Grammar, seed: u64) -> Ast {
    let mut r = Rng::new(seed ^ 0x5eed_a57); let r = &mut r;
    let all = g.node_names(); let toks = g.tok_names();
    let mut names: Vec<String> = all.iter().filter(|_| r.chance(4, 5)).cloned().collect(); if names.is_empty() { names.push(all[0].clone()); }
    for i in (1..names.len()).rev() { let j = r.below(i + 1); names.swap(i, j); }
    let mut classes = Vec::new();
    for k in 0..r.below(3) { let mut v: Vec<String> = names.iter().filter(|_| r.chance(1, 2)).cloned().collect(); if v.is_empty() { v.push(names[0].clone()); } for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } classes.push((["some_part", "clause"][k].to_string(), v)); }
    let method = |r: &mut Rng, name: String| -> Method {
        match r.below(10) {
            0 | 1 => Method { name, child: r.pick(&toks).clone(), kind: Kind::Tok, arity: r.below(2), text: true },
            2 | 3 => Method { name, child: r.pick(&toks).clone(), kind: Kind::Tok, arity: r.below(2), text: false },
            4 | 5 if !classes.is_empty() => Method { name, child: r.pick(&classes).0.clone(), kind: Kind::Class, arity: *r.pick(&[0, 1, 2, 2]), text: false },
            _ => Method { name, child: r.pick(&names).clone(), kind: Kind::Node, arity: *r.pick(&[0, 1, 2, 2]), text: false },
        }
    };
    let mut traits = Vec::new();
    for k in 0..r.below(3) { let n = r.range(1, 2); let ms = (0..n).map(|i| method(r, format!("{}{}", ["t_", "u"][k], i))).collect(); traits.push((["named", "with_body"][k].to_string(), ms)); }
    let nodes = names.iter().map(|n| { let ts = (0..traits.len()).filter(|_| r.chance(1, 3)).collect(); let k = r.below(5); (n.clone(), ts, (0..k).map(|i| method(r, format!("{}{}", r2(i, n), i))).collect()) }).collect();
    Ast { traits, nodes, classes }
}
fn r2(i: usize, n: &str) -> &'static str { if (i + n.len()) % 3 == 0 { "the_child_" } else { "m" } }
impl Ast {
    fn text(&self) -> String {
        let mut items: Vec<String> = Vec::new(); let ms = |m: &[Method]| m.iter().map(|m| format!("    {}\n", m.show())).collect::<String>();
        for (n, m) in &self.traits { items.push(format!("  trait {} {{\n{}  }}\n", n, ms(m))); }
        for (n, t, m) in &self.nodes { let t: Vec<&str> = t.iter().map(|i| &self.traits[*i].0[..]).collect(); items.push(format!("  node {}{} {{\n{}  }}\n", n, if t.is_empty() { String::new() } else { format!(": {}", t.join(", ")) }, ms(m))); }
        for (n, v) in &self.classes { items.push(format!("  class {} {{ {} }}\n", n, v.join(" "))); }
        format!("ast {{\n{}}}\n", items.concat())
    }
}
pub fn grammar_text(seed: u64) -> String {
    let g = crate::peg::gen(seed); let a = gen_ast(&g, seed);
    let mut code = String::from("fn parse_fence(s: &str) -> Option<usize> { ::fallsim::peg::fence(s) }\n");
    if g.binder > 0 { code += &format!("fn whitespace_binder(ty: rt::NodeType, adjacent_spaces: Vec<(rt::NodeType, &str)>, is_leading: bool) -> usize {{\n    let name = |t: rt::NodeType| language().node_type_info(t).name;\n    let spaces: Vec<(bool, &str)> = adjacent_spaces.iter().map(|s| (name(s.0) == \"COMMENT\", s.1)).collect();\n    ::fallsim::peg::outer_binder({}, ty == rt::ERROR, name(ty), &spaces, is_leading)\n}}\n", g.binder); }
    g.text_with(&code, &a.text()).replace("'fence'", "'parse_fence'")
}

// ---- edges: a generator may refuse these small grammars, but a parser that it makes of them has to compile and to work ----
const WORDS: [&str; 96] = ["abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
    "union", "auto", "default", "lang", "error", "rt", "text", "node", "range", "fmt", "option", "some", "none", "vec", "string", "str", "clone", "debug", "ok", "result", "self_", "language", "create_lexer", "create_parser_definition", "whitespace_binder", "wrap", "ast_node", "ast_children", "hash", "partial_eq", "parse", "u32", "f", "x1", "_", "__", "_a", "a__b", "1", "1a", "language_impl", "regex_lexer", "any", "send", "sync", "std"];
const PLACES: usize = 7;
const ODD: [(&str, &str); 18] = [
    ("sixteen parameters, right", "tokenizer { zt r\"zt\" zu r\"zu\" }\npub rule file { <za zt zu zt zu zt zu zt zu> <zb zt zu zt zu zt zu zt zu> }\nrule za(a, b, c, d, e, f, g, h) { { a b c d | e f g h }? }\nrule zb(i, j, k, l, m, n, o, p) { { m n o p | i j k l }? }\n"),
    ("sixteen contexts, right", "tokenizer { zt r\"zt\" zu r\"zu\" }\npub rule file { { za | zb }* }\nrule za { <enter 'a' <enter 'b' <enter 'c' <enter 'd' <enter 'e' <enter 'f' <enter 'g' <enter 'h' <enter 'i' <enter 'j' <enter 'k' <enter 'l' <enter 'm' <enter 'n' <enter 'o' <enter 'p' { zt zb? }>>>>>>>>>>>>>>>> }\nrule zb { <is_in 'p'> zu | <not <is_in 'o'>> zu zu }\n"),
    ("quote and hashes", "tokenizer { #[contextual] zq '\"##' zt r\"zt\" }\npub rule file { '\"##' | zt }\n"),
    ("quote and hash", "tokenizer { #[contextual] zq '\"#' zt r\"zt\" }\npub rule file { '\"#' zt? }\n"),
    ("quotes", "tokenizer { #[contextual] zq '\"\"' zr '\"' zt r#\"z\"t\"# }\npub rule file { '\"\"' | zr | zt }\n"),
    ("braces", "tokenizer { za '{{ x }}' zb '{% raw %}' zc '{# #}' }\npub rule file { { '{{ x }}' | '{% raw %}' | '{# #}' }* }\n"),
    ("escapes", "tokenizer { za r\"'\" zb r\"\\\\\" zc r\"\\n\" zd r#\"a\"b\"# #[contextual] ze '\\n' zf '\\''  }\npub rule file { { za | zb | zc | zd }* }\n"),
    ("markup", "tokenizer { za '<&>' zb '&amp;' }\npub rule file { { '<&>' | '&amp;' }* }\n"),
    ("no ast", "tokenizer { zt r\"zt\" }\npub rule file { zt }\nast { }\n"),
    ("only a trait", "tokenizer { zt r\"zt\" }\npub rule file { zt }\nast { trait zs { m zt } }\n"),
    ("class of a class", "tokenizer { zt r\"zt\" }\npub rule file { zz }\npub rule zz { zt }\nast { node zz { m zd? } class zc { zz } class zd { zc } }\n"),
    ("classes backwards", "tokenizer { zt r\"zt\" }\npub rule file { zz }\npub rule zz { zt }\nast { class zd { zc } class zc { zz } node zz { } }\n"),
    ("trait listed twice", "tokenizer { zt r\"zt\" }\npub rule file { zt }\nast { node file: zs, zs { } trait zs { m zt } }\n"),
    ("trait and node say the same", "tokenizer { zt r\"zt\" }\npub rule file { zt }\nast { node file: zs { m zt } trait zs { m zt } }\n"),
    ("only skipped", "tokenizer { #[skip] zt r\"zt\" }\npub rule file { zt }\n"),
    ("no tokens", "tokenizer { }\npub rule file { }\n"),
    ("capitals", "tokenizer { ZT r\"zt\" }\npub rule File { ZT }\nast { node File { m ZT t ZT.text } }\n"),
    ("sections twice", "tokenizer { zt r\"zt\" }\ntokenizer { zu r\"zu\" }\npub rule file { zt }\nast { node file { } }\nast { node file { m zt } }\nverbatim r\"fn a() {}\"\nverbatim r\"fn a() {} // x\"\n"),
];
fn edges() -> usize { crate::gener::doubts() + ODD.len() + WORDS.len() * PLACES }
fn edge(i: usize) -> (String, String) {
    let d = crate::gener::doubts(); if i < d { return crate::gener::doubt(i) }
    if i - d < ODD.len() { let o = ODD[i - d]; return (o.0.to_string(), o.1.to_string()) }
    let j = i - d - ODD.len(); let n = WORDS[j / PLACES % WORDS.len()];
    const T: &str = "tokenizer { zt r\"zt\" #[skip] whitespace r\"\\s+\" }\npub rule file { zk zt }\npub rule zk { zt }\n";
    match j % PLACES {
        0 => (format!("a token named {}", n), format!("tokenizer {{ {n} r\"zz\" zt r\"zt\" #[skip] whitespace r\"\\s+\" }}\npub rule file {{ {n} zt }}\nast {{ node file {{ m {n} t {n}.text o {n}?.text }} }}\n", n = n)),
        1 => (format!("a contextual token named {}", n), format!("tokenizer {{ #[contextual] {n} 'zz' zt r\"zt\" }}\npub rule file {{ 'zz' zt }}\n", n = n)),
        2 => (format!("a rule named {}", n), format!("tokenizer {{ zt r\"zt\" }}\npub rule file {{ {n} zt }}\npub rule {n} {{ zt }}\n", n = n)),
        3 => (format!("a node named {}", n), format!("tokenizer {{ zt r\"zt\" }}\npub rule file {{ {n} zt }}\npub rule {n} {{ zt }}\nast {{ node file {{ m {n} o {n}? a {n}* }} node {n} {{ t zt.text o zt?.text }} class zc {{ file {n} }} }}\n", n = n)),
        4 => (format!("a class named {}", n), format!("{}ast {{ node file {{ m {n} o {n}? a {n}* }} node zk {{ }} class {n} {{ file zk }} }}\n", T, n = n)),
        5 => (format!("a trait named {}", n), format!("{}ast {{ node file: {n} {{ }} node zk {{ }} trait {n} {{ m zk o zt?.text }} }}\n", T, n = n)),
        _ => (format!("a method named {}", n), format!("{}ast {{ node file: zs {{ {n} zk }} node zk {{ }} trait zs {{ x{n} zk }} }}\n", T, n = n)),
    }
}

// ---- the compiled parsers ----
pub struct Entry { pub seed: u64, pub language: fn() -> &'static Language, pub view: for<'f> fn(Node<'f>, &mut View) }
static mut TABLE: &[Entry] = &[];
pub fn set_table(t: &'static [Entry]) { unsafe { TABLE = t; } }
pub struct Edge { pub seed: u64, pub language: fn() -> &'static Language }
static mut EDGES: &[Edge] = &[];
pub fn set_edges(t: &'static [Edge]) { unsafe { EDGES = t; } }
/// What the typed view says about one node: (struct or class, accessor, answer).
#[derive(Default)]
pub struct View { pub lines: Vec<(&'static str, &'static str, String)> }
impl View {
    pub fn wrap<'f, A: AstNode<'f>>(&mut self, name: &'static str, n: Node<'f>) -> Option<A> { let a = A::wrap(n); if let Some(a) = a { self.lines.push((name, "", a.show())); } a }
    pub fn call<S: Show, F: FnOnce() -> S>(&mut self, name: &'static str, method: &'static str, f: F) {
        let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f().show())) { Ok(s) => s, Err(_) => "nothing (panic)".to_string() };
        self.lines.push((name, method, s));
    }
}
pub trait Show { fn show(self) -> String; }
fn node_show(ty: fall_tree::NodeType, r: fall_tree::TextRange) -> String { let (a, b) = crate::edit::rg(r); format!("{} {}..{}", ty.0, a, b) }
impl<'f> Show for Node<'f> { fn show(self) -> String { node_show(self.ty(), self.range()) } }
impl<'f> Show for Text<'f> { fn show(self) -> String { format!("{:?}", self.to_string()) } }
pub struct OfNode<A>(pub A);
pub trait ShowNode { fn show(self) -> String; }
impl<'f, A: AstNode<'f>> ShowNode for A { fn show(self) -> String { self.node().show() } }
/// Implemented for every type of the generated code, see `emit`.
#[macro_export]
macro_rules! shown { ($($t:ident)*) => { $(impl<'f> ::fallsim::typed::Show for super::G::$t<'f> { fn show(self) -> String { ::fallsim::typed::ShowNode::show(self) } })* } }
impl<T: Show> Show for Option<T> { fn show(self) -> String { match self { None => "nothing".into(), Some(t) => t.show() } } }
impl<'f, A: AstNode<'f>> Show for AstChildren<'f, A> { fn show(self) -> String { format!("[{}]", self.map(|a| ShowNode::show(a)).collect::<Vec<_>>().join(", ")) } }

fn camel(w: &str) -> String { w.split('_').map(|w| { let mut c = w.chars(); c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default() }).collect() }
/// The Rust which asks the view of one grammar about a node.
fn glue(a: &Ast, k: usize) -> String {
    let mut s = format!("#![allow(warnings)]\nuse fallsim::typed::View;\nuse super::g{} as G;\nuse super::g{}::*;\n", k, k);
    for n in a.nodes.iter().map(|n| &n.0).chain(a.classes.iter().map(|c| &c.0)) { s += &format!("impl<'f> ::fallsim::typed::Show for G::{}<'f> {{ fn show(self) -> String {{ ::fallsim::typed::ShowNode::show(self) }} }}\n", camel(n)); }
    s += "pub fn view<'f>(n: ::fall_tree::Node<'f>, v: &mut View) {\n";
    for (n, ts, ms) in &a.nodes {
        let c = camel(n); s += &format!("    if let Some(x) = v.wrap::<G::{}<'f>>({:?}, n) {{\n", c, n);
        for m in ms { s += &format!("        v.call({:?}, {:?}, || x.{}());\n", n, m.name, m.name); }
        for t in ts { for m in &a.traits[*t].1 { s += &format!("        v.call({:?}, {:?}, || G::{}::{}(&x));\n", n, m.name, camel(&a.traits[*t].0), m.name); } }
        s += "    }\n";
    }
    for (c, vs) in &a.classes {
        s += &format!("    if let Some(x) = v.wrap::<G::{}<'f>>({:?}, n) {{\n        match x {{\n", camel(c), c);
        for w in vs { s += &format!("            G::{}::{}(y) => v.call({:?}, {:?}, || y),\n", camel(c), camel(w), c, w); }
        s += "        }\n    }\n";
    }
    s + "}\n"
}
fn put(p: &str, t: &str) { if std::fs::read_to_string(p).ok().as_ref().map(|s| &s[..]) != Some(t) { std::fs::write(p, t).unwrap(); } }
/// Writes the crate of generated parsers into `dir`: for one grammar, or a sample of them.
pub fn emit(dir: &str, seed: u64, tier: &str, only: Option<u64>) -> i32 {
    crate::driver::install_hook();
    let n = std::env::var("FALLSIM_GRAMMARS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 400 } else { 80 });
    let mut seeds = Vec::new(); let mut r = Rng::new(seed ^ 0x7e57);
    let mut odd: Vec<usize> = Vec::new(); let mut table_e = String::new();
    match only { Some(s) if s % 2 == 0 => odd.push(s as usize / 2 % edges()), Some(s) => seeds.push(s), None => { let all = crate::gener::doubts() + ODD.len(); odd.extend(0..all); let mut e: Vec<usize> = (all..edges()).collect(); for i in (1..e.len()).rev() { let j = r.below(i + 1); e.swap(i, j); } odd.extend(e.into_iter().take(if tier == "thorough" { 10_000 } else { 90 })); } }
    while seeds.len() < n && only.is_none() { let s = r.next() >> 1 | 1; if crate::peg::expected(&crate::peg::gen(s), "").is_some() { seeds.push(s); } }
    std::fs::create_dir_all(format!("{}/src", dir)).unwrap();
    put(&format!("{}/Cargo.toml", dir), "[package]\nname = \"fallsim_typed\"\nversion = \"0.1.0\"\nedition = \"2018\"\nbuild = \"build.rs\"\n\n[workspace]\n\n[dependencies]\nlazy_static = \"1\"\nfallsim = { path = \"/verif/sim\" }\nfall_tree = { path = \"/repo/fall/tree\" }\nfall_parse = { path = \"/repo/fall/parse\" }\n\n[profile.dev]\nopt-level = 3\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\ncodegen-units = 16\n\n[profile.dev.package.fallsim_typed]\nopt-level = 0\n");
    put(&format!("{}/build.rs", dir), "fn main() { let d = std::env::var(\"DEP_FALLSIM_OBJS\").unwrap(); for f in &[\"sim\", \"vfs\"] { println!(\"cargo:rustc-link-arg-bins={}/{}.o\", d, f); } for a in &[\"-rdynamic\", \"-ldl\", \"-lpthread\"] { println!(\"cargo:rustc-link-arg-bins={}\", a); } }\n");
    let mut main = String::from("#![allow(warnings)]\n#[macro_use] extern crate lazy_static;\n"); let mut table = String::new();
    for (k, s) in seeds.iter().enumerate() {
        let text = grammar_text(*s); let t2 = text.clone();
        let src = match std::panic::catch_unwind(move || lang_fall::analyse(t2).analyse(fall_gen::generate)) { Ok(Ok(s)) => s, Ok(Err(e)) => { println!("grammar {} violates P02: generate-fails: {} for the grammar\n{}", s, e, text); return 3 } Err(_) => { println!("grammar {} violates P02: generate-fails: {:?} for the grammar\n{}", s, crate::driver::panics().last(), text); return 3 } };
        put(&format!("{}/src/g{}.rs", dir, k), &src); put(&format!("{}/src/p{}.rs", dir, k), &glue(&gen_ast(&crate::peg::gen(*s), *s), k)); put(&format!("{}/src/g{}.fall", dir, k), &format!("// grammar {}\n{}", s, text));
        main += &format!("mod g{}; mod p{};\n", k, k); table += &format!("    Entry {{ seed: {}, language: g{}::language, view: p{}::view }},\n", s, k, k);
    }
    let mut refused = 0;
    for e in odd {
        let (name, text) = edge(e); let t2 = text.clone();
        let src = match std::panic::catch_unwind(move || lang_fall::analyse(t2).analyse(fall_gen::generate)) { Ok(Ok(s)) => s, Ok(Err(e2)) => { if name.ends_with(", right") { println!("grammar {} violates P02: generate-fails: {} for the grammar\n{}", e * 2, e2, text); return 3 } refused += 1; continue } Err(_) => { println!("grammar {} violates P02: generate-fails: {:?} for the grammar\n{}", e * 2, crate::driver::panics().last().map(|x| x.1.clone()), text); return 3 } };
        let k = 100_000 + e; put(&format!("{}/src/g{}.rs", dir, k), &src); put(&format!("{}/src/g{}.fall", dir, k), &format!("// grammar {}\n// {}\n{}", e * 2, name, text));
        main += &format!("mod g{};\n", k); table_e += &format!("    Edge {{ seed: {}, language: g{}::language }},\n", e * 2, k);
    }
    println!("{} edges refused", refused);
    main += &format!("use fallsim::typed::{{Entry, Edge}};\nstatic TABLE: &[Entry] = &[\n{}];\nstatic EDGES: &[Edge] = &[\n{}];\nfn main() {{ fallsim::typed::set_table(TABLE); fallsim::typed::set_edges(EDGES); fallsim::main() }}\n", table, table_e);
    put(&format!("{}/src/main.rs", dir), &main);
    0
}

// ---- the model ----
fn model(f: &File, n: Node, a: &Ast, v: &mut Vec<(String, String, String)>) {
    let l = f.language(); let name = |n: Node| l.node_type_info(n.ty()).name.to_lowercase();
    let is = |n: Node, child: &str, kind: Kind| { let w = name(n); match kind { Kind::Class => a.classes.iter().find(|c| c.0 == child).unwrap().1.contains(&w), _ => w == child } };
    let me = name(n);
    let answer = |m: &Method| -> String {
        let mut kids: Vec<Node> = n.children().filter(|c| is(*c, &m.child, m.kind)).collect();
        if m.arity == 2 { return format!("[{}]", kids.into_iter().map(|k| k.show()).collect::<Vec<_>>().join(", ")) }
        if kids.is_empty() { return if m.arity == 0 { "nothing (panic)".into() } else { "nothing".into() } }
        let k = kids.remove(0); if m.text { k.text().show() } else { k.show() }
    };
    for (nn, ts, ms) in &a.nodes { if *nn != me { continue }
        v.push((nn.clone(), String::new(), n.show()));
        for m in ms { v.push((nn.clone(), m.name.clone(), answer(m))); }
        for t in ts { for m in &a.traits[*t].1 { v.push((nn.clone(), m.name.clone(), answer(m))); } } }
    for (c, vs) in &a.classes { if vs.contains(&me) { v.push((c.clone(), String::new(), n.show())); v.push((c.clone(), me.clone(), n.show())); } }
}
fn check(f: &File, text: &str, g: &Grammar, a: &Ast, e: &Entry, how: &str) {
    let want = ffi::atomically(|| crate::peg::expected(g, text));
    if let Some(want) = want { ffi::probe(1); if let Some(w) = crate::peg::difference(&want, &crate::peg::actual(f)) { ffi::fail(&format!("parse-differs: {}: {}\nthe text is {:?}\nthe grammar is\n{}", how, w, text, grammar_text(e.seed))); } }
    fn walk<'f>(n: Node<'f>, go: &mut dyn FnMut(Node<'f>)) { go(n); for c in n.children() { walk(c, go); } }
    walk(f.root(), &mut |n| {
        let mut v = View::default(); (e.view)(n, &mut v);
        let mut w = Vec::new(); ffi::atomically(|| model(f, n, a, &mut w));
        if !w.is_empty() { ffi::probe(0); }
        for l in &w { if l.2.starts_with("nothing (") { ffi::probe(3) } else if l.2 == "nothing" || l.2 == "[]" { ffi::probe(4) } else if !l.1.is_empty() { ffi::probe(2) } }
        let got: Vec<(String, String, String)> = v.lines.iter().map(|l| (l.0.to_string(), l.1.to_string(), l.2.clone())).collect();
        if got != w { let i = (0..got.len().max(w.len())).find(|i| got.get(*i) != w.get(*i)).unwrap(); ffi::fail(&format!("wrong-view: {}: node {} {}: should be {:?}, is {:?}\nthe text is {:?}\nthe tree is\n{}\nthe grammar is\n{}", how, f.language().node_type_info(n.ty()).name, n.show(), w.get(i), got.get(i), text, fall_tree::dump_file(f), grammar_text(e.seed))); }
    });
}
/// Ops: "<thread> parse <text>", "<thread> edit <spec>" of what it parsed last.
fn run(plan: &Plan) {
    let seed = plan.num("gseed");
    if seed % 2 == 0 { return run_edge(plan, seed) }
    let e: &'static Entry = match unsafe { TABLE }.iter().find(|e| e.seed == seed) { Some(e) => e, None => { ffi::probe(40); return } };
    let g = Arc::new(crate::peg::gen(seed)); let a = Arc::new(gen_ast(&g, seed));
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let n = plan.num("threads").max(1) as usize; let together = Arc::new(Barrier::new(n)); let langs = Arc::new(Mutex::new(Vec::new()));
    let hs: Vec<_> = (0..n).map(|t| {
        let ops: Vec<String> = plan.ops.iter().filter_map(|o| o.strip_prefix(&format!("{} ", t)[..])).map(|s| s.to_string()).collect();
        let (g, a, together, langs) = (g.clone(), a.clone(), together.clone(), langs.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            together.wait();
            let lang = (e.language)(); langs.lock().unwrap().push(lang as *const Language as usize);
            let mut now: Option<(File, String)> = None;
            for o in ops {
                let mut w = o.splitn(2, ' '); let op = w.next().unwrap(); let rest = w.next().unwrap_or("");
                let (f, text) = match (op, now.take()) {
                    ("edit", Some((f, text))) => { let (cuts, t2) = crate::edit::apply_spec(rest, &text); let ed = crate::edit::build_edit(&cuts, &f); ffi::probe(5); (f.edit(&ed), t2) }
                    _ => { let t = if op == "edit" { String::new() } else { crate::plan::unesc(rest) }; (lang.parse(t.clone()), t) }
                };
                check(&f, &text, &g, &a, e, op); now = Some((f, text));
            }
        }).unwrap()
    }).collect();
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); } }
    let l = langs.lock().unwrap(); if l.iter().any(|x| *x != l[0]) { ffi::fail("two-languages: two threads that asked for the language got different ones"); }
    ffi::probe(63);
}
fn run_edge(plan: &Plan, seed: u64) {
    let e: &'static Edge = match unsafe { EDGES }.iter().find(|e| e.seed == seed) { Some(e) => e, None => { ffi::probe(40); return } };
    let (name, grammar) = edge(seed as usize / 2); let lang = (e.language)(); let mut now: Option<(File, String)> = None;
    for o in &plan.ops {
        let mut w = o.splitn(3, ' '); w.next(); let op = w.next().unwrap(); let rest = w.next().unwrap_or("");
        let (f, text) = match (op, now.take()) {
            ("edit", Some((f, text))) => { let (cuts, t2) = crate::edit::apply_spec(rest, &text); let ed = crate::edit::build_edit(&cuts, &f); (f.edit(&ed), t2) }
            _ => { let t = if op == "edit" { String::new() } else { crate::plan::unesc(rest) }; (lang.parse(t.clone()), t) }
        };
        fn leaves(n: Node, at: &mut u32, bad: &mut bool) { let (a, b) = crate::edit::rg(n.range()); if a != *at { *bad = true; } let mut any = false; for c in n.children() { any = true; leaves(c, at, bad); } if !any { *at = b; } if *at != b { *bad = true; } }
        let (mut at, mut bad) = (0, false); leaves(f.root(), &mut at, &mut bad);
        if bad || at as usize != text.len() || f.text().to_string() != text { ffi::fail(&format!("wrong-tree: {}: the leaves of the tree for {:?} are not its text\n{}", name, text, grammar)); }
        let fresh = crate::peg::actual(&lang.parse(text.clone())); if fresh != crate::peg::actual(&f) { ffi::fail(&format!("two-trees: {}: an edit leads to another tree for {:?}\n{}", name, text, grammar)); }
        ffi::probe(6); now = Some((f, text));
    }
}
fn gen(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 3_000_000_000;
    let t = unsafe { EDGES };
    if !t.is_empty() && r.chance(1, 8) {
        p.set("gseed", r.pick(t).seed); p.set("threads", 1);
        const W: [&str; 16] = ["zt", "zu", "zd", "zc", "zz", "z", " ", "\n", "\"", "#", "\"##", "langs", "'", "{{ x }}", "zt zu", "é"];
        let piece = |r: &mut Rng| -> String { (0..r.below(4)).map(|_| *r.pick(&W)).collect() };
        let mut text = String::new();
        for i in 0..r.range(2, 10) {
            if i > 0 && r.chance(1, 2) { let hint = r.below(text.len() + 1); let spec = crate::edit::gen_edit_with(r, hint, &mut |r| piece(r)); text = crate::edit::apply_spec(&spec, &text).1; p.ops.push(format!("0 edit {}", spec)); }
            else { text = format!("{}{}{}", piece(r), piece(r), piece(r)); p.ops.push(format!("0 parse {}", crate::plan::esc(&text))); }
        }
        return
    }
    let t = unsafe { TABLE }; if t.is_empty() { return }
    let seed = r.pick(t).seed; p.set("gseed", seed); let g = crate::peg::gen(seed);
    let n = *r.pick(&[1, 1, 2, 3]); p.set("threads", n);
    for k in 0..n {
        let mut text: Option<String> = None;
        for _ in 0..r.range(1, 12) {
            match &text {
                Some(old) if r.chance(1, 3) => { let hint = r.below(old.len() + 1); let spec = crate::edit::gen_edit_with(r, hint, &mut |r| g.snippet(r)); let (_, t2) = crate::edit::apply_spec(&spec, old); if crate::peg::expected(&g, &t2).is_none() { continue } p.ops.push(format!("{} edit {}", k, spec)); text = Some(t2); }
                _ => { let t = if r.chance(1, 3) { g.short_text(r) } else { g.gen_text(r) }; if crate::peg::expected(&g, &t).is_none() { continue } p.ops.push(format!("{} parse {}", k, crate::plan::esc(&t))); text = Some(t); }
            }
        }
    }
}
fn warm() {}
pub fn scenarios() -> Vec<Scn> {
    vec![Scn { prop: "P02", gen, run, quick: 6000, thorough: 200_000, level: "exploration", rule: "one run = one of the grammars whose generated parsers were compiled, 1-3 threads that race for the first use of its language and parse and edit texts; every node of every tree is shown to the typed view, every answer compared with the ast section; non-trivial always",
        real: "fall_gen's output compiled by rustc against the real runtime: language(), lexer tables, parser tables, whitespace binder, node infos, AST structs, classes and traits; fall_parse, fall_tree: all real code", stub: "kernel: threads, futexes and clocks are scheduled by the simulator (csrc/)", assumptions: &["custom lexers and whitespace binders in verbatim sections are right"],
        probes: &["nodes_viewed", "trees_compared_with_the_reference", "accessors_that_found_something", "required_children_missing", "optional_children_missing", "edits", "edge_grammars_parsed"], warm }]
}
