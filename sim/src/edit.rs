// Editing sessions: documents of every shipped language are edited again and again; every version is made
// incrementally from an earlier one while other threads read older versions.
use std::sync::{Arc, Mutex};
use fall_editor::EditorFileImpl;
use fall_tree::{File, Language, Node, TextEdit, TextEditBuilder, TextRange, tu};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;

pub const LANGS: [&str; 7] = ["rust", "fall", "json", "bnf", "sexp", "arith", "weird"];
pub fn language(name: &str) -> &'static Language {
    match name {
        "rust" => lang_rust::syntax::lang_rust(), "fall" => lang_fall::syntax::lang_fall(), "json" => lang_json::lang_json(), "bnf" => lang_bnf::lang_bnf(),
        "sexp" => fall_test::sexp::language(), "arith" => fall_test::arith::language(), "weird" => fall_test::weird::language(), "gen" => unsafe { GEN.expect("no grammar") }, _ => panic!("language"),
    }
}
/// The language of the random grammar of this run.
static mut GEN: Option<&'static Language> = None;
static mut GRAMMAR: Option<&'static crate::peg::Grammar> = None;
/// One version of a document: with an editor where there is one, else the bare file.
pub enum Doc { Rust(RustEditorFile), Fall(FileWithAnalysis), Plain(File) }
impl Doc {
    pub fn open(lang: &str, text: &str) -> Doc { match lang { "rust" => Doc::Rust(RustEditorFile::parse(text)), "fall" => Doc::Fall(<FileWithAnalysis as EditorFileImpl>::parse(text)), l => Doc::Plain(language(l).parse(text.to_string())) } }
    pub fn edit(&self, e: &TextEdit) -> Doc { match self { Doc::Rust(f) => Doc::Rust(EditorFileImpl::edit(f, e)), Doc::Fall(f) => Doc::Fall(EditorFileImpl::edit(f, e)), Doc::Plain(f) => Doc::Plain(f.edit(e)) } }
    pub fn file(&self) -> &File { match self { Doc::Rust(f) => f.file(), Doc::Fall(f) => EditorFileImpl::file(f), Doc::Plain(f) => f } }
}

// ---- observing a tree ----
pub fn rg(t: TextRange) -> (u32, u32) { (t.start().into(), t.end().into()) }
pub fn tree(f: &File) -> Vec<(u32, u32, u32, u32)> {
    fn go(n: Node, d: u32, out: &mut Vec<(u32, u32, u32, u32)>) { let (a, b) = rg(n.range()); out.push((d, n.ty().0 as u32, a, b)); for c in n.children() { go(c, d + 1, out) } }
    let mut v = Vec::new(); go(f.root(), 0, &mut v); v
}
pub fn show(f: &File, t: &(u32, u32, u32, u32)) -> String { format!("{}{} {}..{}", "  ".repeat(t.0.min(20) as usize), f.language().node_type_info(fall_tree::NodeType(t.1 as _)).name, t.2, t.3) }
pub fn first_difference(want: &File, got: &File) -> Option<String> {
    let (a, b) = (tree(want), tree(got));
    if a == b { return None }
    let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap();
    Some(format!("node {}: from scratch `{}`, here `{}` (of {} and {} nodes)", i, a.get(i).map(|x| show(want, x)).unwrap_or_default().trim(), b.get(i).map(|x| show(got, x)).unwrap_or_default().trim(), a.len(), b.len()))
}
/// The tree covers its text exactly: children partition their parent, parents are right, the leaves spell the text.
pub fn well_formed(f: &File, text: &str) {
    if f.text().to_string() != text { ffi::fail(&format!("text-differs: the version's text is {:?}, it should be {:?}", f.text().to_string(), text)); }
    if rg(f.root().range()) != (0, text.len() as u32) { ffi::fail(&format!("tree-range: the root covers {:?} of a text of {} bytes: {:?}", rg(f.root().range()), text.len(), text)); }
    fn go(n: Node, out: &mut String, text: &str) {
        let (a, b) = rg(n.range()); let mut at = a; let mut kids = 0;
        for c in n.children() {
            kids += 1;
            let (s, e) = rg(c.range());
            if s != at { ffi::fail(&format!("tree-range: a child of {:?} {}..{} starts at {} instead of {} in {:?}", n, a, b, s, at, text)); }
            at = e;
            if c.parent().map(|p| p == n) != Some(true) { ffi::fail(&format!("tree-parent: {:?} at {}..{} does not know its parent in {:?}", c, s, e, text)); }
            go(c, out, text);
        }
        if kids > 0 && at != b { ffi::fail(&format!("tree-range: the children of {:?} {}..{} end at {} in {:?}", n, a, b, at, text)); }
        if kids == 0 { match text.get(a as usize..b as usize) { Some(s) => out.push_str(s), None => ffi::fail(&format!("tree-range: {:?} {}..{} is not a piece of {:?}", n, a, b, text)) } }
    }
    let mut s = String::new(); go(f.root(), &mut s, text);
    if s != text { ffi::fail(&format!("leaves-differ: the leaves spell {:?}, the text is {:?}", s, text)); }
    if f.root().parent().is_some() { ffi::fail("tree-parent: the root has a parent"); }
}

// ---- texts ----
pub fn corpus(lang: &str) -> Vec<&'static str> {
    match lang {
        "rust" => include_str!("../corpus/rust.txt").split("\n=====\n").collect(),
        "fall" => include_str!("../corpus/fall.txt").split("\n=====\n").collect(),
        "json" => vec!["{}", "[]", "{ \"a\": 1, \"b\": [null, true, \"x\"] }", "[1, 2, {\"k\": {}}]", "{\"a\": {\"b\": [[], [1]]}}", "[true false]", "{ \"a\": 1 \"b\": 2 }"],
        "bnf" => vec!["S -> E\n", "E -> E '+' T | T\n", "T -> T '*' F | F\n", "F -> '(' E ')' | 'id'\n", "A -> B | C | 'x'\n"],
        "sexp" => vec!["(a b c)", "(a (b (c)))", "x", "()", "(() (a))"],
        "arith" => vec!["1", "1 + 2 * 3", "1 + --1! - -2!", "(1 + 2) * (3)", "2!!", "-(1)"],
        _ => vec!["_1 r##\"a\"##", "_2 x", "_3 foo bar", "_3 foo foo", "_4 { a { b } }", "_1 r#\"\"#"],
    }
}
pub fn tokens(lang: &str) -> &'static [&'static str] {
    match lang {
        "rust" => &["fn ", "struct ", "enum ", "impl ", "trait ", "mod ", "use ", "pub ", "let ", "if ", "else ", "match ", "while ", "for ", "in ", "loop ", "return ", "unsafe ", "const ", "static ", "extern ", "crate ", "type ", "where ", "mut ", "ref ", "self", "super", "as ", "move ", "union ", "dyn ",
            "{", "}", "(", ")", "[", "]", "<", ">", ";", ",", ".", "..", "...", ":", "::", "=", "==", "=>", "->", "+", "-", "*", "/", "%", "&", "&&", "|", "||", "!", "?", "#", "^", "<<", ">>", "x", "foo", "Bar", "_", "'a", "'a'", "'", "\"s\"", "\"", "r#\"", "\"#", "r#\"x\"#", "r##", "//c\n", "/*", "*/", "/* c */", "\n", " ", "1", "92", "true", "é", "\\", "#[a]", "macro!{}", "m!();", "\n\n"],
        "fall" => &["rule ", "pub ", "tokenizer ", "ast ", "node ", "class ", "trait ", "verbatim ", "test ", "{", "}", "<", ">", "(", ")", "[", "]", "|", "*", "?", "#", "'x'", "'", "r\"a\"", "\"", "r#", "r#\"", "\"#", "r\"", "#[cached]", "#[atom]", "<commit>", "<eof>", ".text", ":", ",", ".", "x", "foo", "1", "//c\n", "\n", " ", "é", "=", "rule foo { bar }\n", "pub rule"],
        "json" => &["{", "}", "[", "]", ":", ",", "null", "true", "\"a\"", "\"", "1", "23", " ", "\n", "x", "é", "{}", "[]"],
        "bnf" => &["->", "|", "'x'", "'", "S", "T ", " ", "\n", "S -> ", "-", "é"],
        "sexp" => &["(", ")", "a", "b ", " ", "\n", "(a)", "é", "#"],
        "arith" => &["1", "+", "-", "*", "/", "!", "(", ")", " ", "23", "\n", "x"],
        _ => &["_1", "_2", "_3", "_4", "r#\"", "\"#", "r##\"x\"##", "r", "#", "\"", "foo", "bar", "{", "}", "x", " ", "\n", "é", "fo", "o"],
    }
}
pub fn gen_text(r: &mut Rng, lang: &str) -> String {
    let c = corpus(lang); let t = tokens(lang); let mut s = String::new();
    match r.below(6) {
        0 => for _ in 0..r.below(40) { s.push_str(*r.pick(t)); },
        1 => s.push_str(*r.pick(&c)),
        _ => for _ in 0..r.range(1, if lang == "rust" { 8 } else { 4 }) { s.push_str(*r.pick(&c)); s.push('\n'); },
    }
    for _ in 0..(if r.chance(1, 3) { r.below(4) } else { 0 }) { splice(r, &mut s, lang); }
    s
}
fn boundary(s: &str, mut a: usize) -> usize { a = a.min(s.len()); while !s.is_char_boundary(a) { a -= 1; } a }
fn snippet(r: &mut Rng, lang: &str) -> String {
    match r.below(12) { 0 | 1 => String::new(), 2 => r.pick(&corpus(lang)).to_string(), 3 => { let c = r.pick(&corpus(lang)).to_string(); let a = boundary(&c, r.below(c.len() + 1)); let b = boundary(&c, a + r.below(30)); c[a..b.max(a)].to_string() }
        4 => (0..r.range(2, 4)).map(|_| *r.pick(tokens(lang))).collect(), _ => r.pick(tokens(lang)).to_string() }
}
fn splice(r: &mut Rng, s: &mut String, lang: &str) { let a = boundary(s, r.below(s.len() + 1)); let b = boundary(s, a + if r.chance(1, 2) { 0 } else { r.below(12) }).max(a); s.replace_range(a..b, &snippet(r, lang)); }

/// "<pos> <del>:<text>" parts separated by \x01; positions are taken modulo the text and made ascending.
pub fn gen_edit(r: &mut Rng, lang: &str, hint: usize) -> String { gen_edit_with(r, hint, &mut |r| snippet(r, lang)) }
pub fn gen_edit_with(r: &mut Rng, hint: usize, snippet: &mut dyn FnMut(&mut Rng) -> String) -> String {
    let n = if r.chance(4, 5) { 1 } else { r.range(2, 3) };
    (0..n).map(|_| { let pos = match r.below(6) { 0 => r.below(100_000), 1 => 0, 2 => 1_000_000, _ => hint + r.below(8) }; let del = match r.below(5) { 0 | 1 => 0, 2 => 1, 3 => r.below(6), _ => r.below(60) }; format!("{} {}:{}", pos, del, snippet(r)) }).collect::<Vec<_>>().join("\x01")
}
pub fn apply_spec(spec: &str, old: &str) -> (Vec<(usize, usize, String)>, String) {
    let mut cuts: Vec<(usize, usize, String)> = spec.split('\x01').filter_map(|p| {
        let mut it = p.splitn(2, ':'); let h = it.next()?; let text = it.next()?.to_string(); let mut w = h.split(' ');
        let pos: usize = w.next()?.parse().ok()?; let del: usize = w.next()?.parse().ok()?;
        let a = if pos == 1_000_000 { old.len() } else { boundary(old, pos % (old.len() + 1)) }; Some((a, boundary(old, a + del).max(a), text))
    }).collect();
    cuts.sort_by_key(|c| (c.0, c.1));
    let mut out = Vec::new(); let mut last = 0;
    for c in cuts { if c.0 >= last { last = c.1; out.push(c); } }
    let mut text = String::new(); let mut at = 0;
    for c in &out { text.push_str(&old[at..c.0]); text.push_str(&c.2); at = c.1; }
    text.push_str(&old[at..]);
    (out, text)
}
pub fn build_edit(cuts: &[(usize, usize, String)], f: &File) -> TextEdit {
    let mut e = TextEditBuilder::new(f.text());
    for (a, b, t) in cuts { let range = TextRange::from_to(tu(*a as u32), tu(*b as u32)); if a == b { e.insert(range.start(), t.clone()) } else if t.is_empty() { e.delete(range) } else { e.replace(range, t.clone()) } }
    e.build()
}

/// Edits of nodes: "d <node>", "r <node> <text>", "i <node> <text>" (after it), or "s <pos> <len> <text>" alone. The text which they lead to.
fn node_edit(spec: &str, f: &File, text: &str) -> (TextEdit, String) {
    use fall_tree::FileEdit;
    let all: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { v.push(n); for c in n.children() { go(c, v) } } let mut v = Vec::new(); go(f.root(), &mut v); v };
    let mut e = FileEdit::new(f); let mut ops: Vec<(char, usize, String)> = Vec::new();
    for part in spec.split('\x01') {
        let w: Vec<&str> = part.splitn(3, ' ').collect(); let k: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0); let t = w.get(2).unwrap_or(&"").to_string();
        if w[0] == "s" {
            let mut v = t.splitn(2, ' '); let len: usize = v.next().and_then(|x| x.parse().ok()).unwrap_or(0); let t = v.next().unwrap_or("").to_string();
            let a = boundary(text, k % (text.len() + 1)); let b = boundary(text, a + len).max(a);
            e.replace_substring(TextRange::from_to(tu(a as u32), tu(b as u32)), t.clone());
            return (e.into_text_edit(), format!("{}{}{}", &text[..a], t, &text[b..]))
        }
        let k = k % all.len(); if ops.iter().any(|o| o.1 == k) { continue }
        match w[0] { "d" => e.delete(all[k]), "r" => e.replace_with_text(all[k], t.clone()), _ => e.insert_text_after(all[k], t.clone()) }
        ops.push((w[0].chars().next().unwrap_or('i'), k, t));
    }
    fn go(n: Node, at: &mut usize, ops: &[(char, usize, String)], text: &str, out: &mut String) {
        let k = *at; *at += 1; let op = ops.iter().find(|o| o.1 == k); let (a, b) = rg(n.range());
        let mut inside = String::new(); let mut any = false; let mut end = a;
        for c in n.children() { any = true; let (x, y) = rg(c.range()); if x != end { ffi::fail("tree-gap") } end = y; go(c, at, ops, text, &mut inside) }
        if !any { inside = text[a as usize..b as usize].to_string(); }
        match op { Some(o) if o.0 == 'd' => {} Some(o) if o.0 == 'r' => *out += &o.2, Some(o) => { *out += &inside; *out += &o.2; } None => *out += &inside }
    }
    let mut out = String::new(); go(f.root(), &mut 0, &ops, text, &mut out);
    (e.into_text_edit(), out)
}
fn gen_node_edit(r: &mut Rng, lang: &str) -> String {
    if r.chance(1, 4) { return format!("s {} {} {}", r.below(100_000), r.below(60), snippet(r, lang)) }
    let near = r.below(10_000);
    (0..r.range(1, 4)).map(|_| { let k = if r.chance(2, 3) { near + r.below(6) } else { r.below(10_000) }; match r.below(4) { 0 => format!("d {}", k), 1 => format!("r {} {}", k, snippet(r, lang)), _ => format!("i {} {}", k, snippet(r, lang)) } }).collect::<Vec<_>>().join("\x01")
}

// ---- one session: several documents, each with a writer; readers look at published versions ----
struct Version { lang: String, doc: Doc, text: String, seen: Vec<(u32, u32, u32, u32)> }
#[derive(Clone, Copy, PartialEq)]
enum Oracle { Tree, Lossless, Snapshot, Grammar, Work }
fn oracle(p: &Plan) -> Oracle { match p.get("oracle") { "lossless" => Oracle::Lossless, "snapshot" => Oracle::Snapshot, "grammar" => Oracle::Grammar, "work" => Oracle::Work, _ => Oracle::Tree } }
fn check_version(o: Oracle, v: &Version, d: &str, n: usize, made_from: &str) {
    match o {
        Oracle::Tree => { let fresh = language(d).parse(v.text.clone()); if let Some(w) = first_difference(&fresh, v.doc.file()) { ffi::fail(&format!("incremental-differs: {} version {}: {}\n{}\nthe text is {:?}", d, n, w, made_from, v.text)); } }
        Oracle::Lossless => { well_formed(v.doc.file(), &v.text); navigate(v.doc.file(), &v.text, n); typed_lookups(v.doc.file(), &v.lang, &v.text, n); if n % 2 == 0 { pieces(v.doc.file(), &v.text, n); } else if v.text.len() < 2000 { printed(v.doc.file(), &v.text); } }
        Oracle::Grammar => {
            let g = unsafe { GRAMMAR.unwrap() };
            let want = match ffi::atomically(|| crate::peg::expected(g, &v.text)) { Some(w) => w, None => { ffi::probe(5); return } };
            ffi::probe(4); if want.iter().any(|t| t.1 == "ERROR") { ffi::probe(6); }
            if let Some(w) = crate::peg::difference(&want, &crate::peg::actual(v.doc.file())) { ffi::fail(&format!("parse-differs: {} version {}: {}\n{}\nthe text is {:?}\nthe grammar is\n{}", d, n, w, made_from, v.text, g.text())); }
        }
        Oracle::Work => {
            let of = |f: &File, name| f.metrics().get(name).unwrap_or_else(|| ffi::fail(&format!("metrics: `{}` is not recorded", name)));
            let (anew, here) = (of(&language(d).parse(v.text.clone()), "parsing ticks"), of(v.doc.file(), "parsing ticks"));
            if here > anew { ffi::fail(&format!("more-work: {} version {}: parsing anew takes {} steps, here {} were made\n{}\nthe text is {:?}", d, n, anew, here, made_from, v.text)); }
            if of(v.doc.file(), "relexed region") > v.text.len() as u64 { ffi::fail(&format!("more-work: {} version {}: {} bytes of {} were looked at\n{}", d, n, of(v.doc.file(), "relexed region"), v.text.len(), made_from)); }
        }
        Oracle::Snapshot => if v.doc.file().text().to_string() != v.text { ffi::fail(&format!("edit-lost: {} version {} has the text {:?}, it should be {:?}\n{}", d, n, v.doc.file().text().to_string(), v.text, made_from)); },
    }
}
/// Looking things up in the tree by position agrees with the ranges of the nodes.
fn navigate(f: &File, text: &str, salt: usize) {
    use fall_tree::search::{ancestors, find_covering_node, find_leaf_at_offset, is_leaf, sibling, subtree, Direction, LeafAtOffset};
    let root = f.root();
    let all: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { v.push(n); for c in n.children() { go(c, v) } } let mut v = Vec::new(); go(root, &mut v); v };
    let listed: Vec<Node> = subtree(root).collect();
    { let mut walked = 0; fall_tree::walk_tree(root, |_| walked += 1); if walked != listed.len() { ffi::fail(&format!("bad-walk: walking the tree meets {} of {} nodes", walked, listed.len())); } }
    if listed.len() != all.len() || all.iter().any(|n| !listed.contains(n)) && all.len() < 300 { ffi::fail(&format!("walk-differs: walking the tree gives {} nodes, it has {}: {:?}", listed.len(), all.len(), text)); }
    let mut r = Rng::new(salt as u64 * 7 + text.len() as u64);
    for _ in 0..6 {
        let at = boundary(text, r.below(text.len() + 1)) as u32;
        let want: Vec<&Node> = all.iter().filter(|n| is_leaf(**n) && rg(n.range()).0 <= at && at <= rg(n.range()).1).collect();
        let found = find_leaf_at_offset(root, tu(at));
        let got: Vec<Node> = match found { LeafAtOffset::None => vec![], LeafAtOffset::Single(a) => vec![a], LeafAtOffset::Between(a, b) => vec![a, b] };
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| *a != **b) { ffi::fail(&format!("leaf-differs: at {} there is {:?}, the leaves there are {:?}: {:?}", at, got, want, text)); }
        let to = boundary(text, at as usize + r.below(20)) as u32; let to = to.max(at);
        let cover = find_covering_node(root, TextRange::from_to(tu(at), tu(to)));
        let (a, b) = rg(cover.range());
        if a > at || b < to { ffi::fail(&format!("covering-differs: {}..{} is not covered by {:?} {}..{}: {:?}", at, to, cover, a, b, text)); }
        if at < to && cover.children().any(|c| { let (a, b) = rg(c.range()); a <= at && to <= b }) { ffi::fail(&format!("covering-differs: {:?} {}..{} is not the smallest node around {}..{}: {:?}", cover, a, b, at, to, text)); }
        let n = all[r.below(all.len())];
        let ups: Vec<Node> = ancestors(n).collect();
        if ups.first() != Some(&n) || ups.last() != Some(&root) || ups.windows(2).any(|w| w[0].parent() != Some(w[1])) { ffi::fail(&format!("ancestors-differ: {:?} has {:?}: {:?}", n, ups, text)); }
        if n.text().to_string() != text[rg(n.range()).0 as usize..rg(n.range()).1 as usize] { ffi::fail(&format!("node-text: {:?} has the text {:?} in {:?}", n, n.text().to_string(), text)); }
        if let Some(p) = n.parent() {
            let sibs: Vec<Node> = p.children().collect(); let i = sibs.iter().position(|x| *x == n);
            match i { None => ffi::fail(&format!("tree-parent: {:?} is not a child of its parent: {:?}", n, text)),
                Some(i) => if sibling(n, Direction::Right) != sibs.get(i + 1).cloned() || sibling(n, Direction::Left) != (if i == 0 { None } else { Some(sibs[i - 1]) }) { ffi::fail(&format!("sibling-differs: the neighbours of {:?} {:?} are wrong: {:?}", n, rg(n.range()), text)); } }
        }
    }
}
/// The typed lookups agree with the nodes they wrap.
fn typed<'f, T: fall_tree::AstNode<'f>>(root: Node<'f>, all: &[Node<'f>], at: u32, n: Node<'f>, text: &str) {
    use fall_tree::search::{ancestors, ast, find_leaf_at_offset, is_leaf};
    use fall_tree::visitor::{process_subtree_bottom_up, visitor};
    let is = |n: &Node<'f>| T::wrap(*n).is_some();
    let show = |v: &[Node]| v.iter().map(|n| format!("{:?} {:?}", n, rg(n.range()))).collect::<Vec<_>>().join(", ");
    let up = |leaf: Node<'f>| { let mut n = Some(leaf); while let Some(x) = n { if is(&x) { return Some(x) } n = x.parent(); } None };
    let leaves: Vec<Node> = all.iter().cloned().filter(|n| is_leaf(*n) && rg(n.range()).0 <= at && at <= rg(n.range()).1).collect();
    let want = leaves.iter().cloned().filter_map(&up).next();
    let got = ast::node_at_offset::<T>(root, tu(at)).map(|x| x.node());
    if got != want { ffi::fail(&format!("node-at-offset: at {} (between {:?}) there is {:?}, found is {:?}: {:?}", at, find_leaf_at_offset(root, tu(at)), want.map(|n| rg(n.range())), got.map(|n| rg(n.range())), text)); }
    let (want, got) = (up(n), ast::ancestor::<T>(n).map(|x| x.node()));
    if got != want { ffi::fail(&format!("ancestor-differs: of {:?} it is {:?}, found is {:?}: {:?}", n, want, got, text)); }
    if ancestors(n).find(&is) != want { ffi::fail(&format!("ancestors-differ: {:?}: {:?}", n, text)); }
    let want: Vec<Node> = n.children().filter(&is).collect(); let got: Vec<Node> = ast::children_of_type::<T>(n).map(|x| x.node()).collect();
    if got != want { ffi::fail(&format!("children-differ: of {:?} they are {}, found are {}: {:?}", n, show(&want), show(&got), text)); }
    let inside: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { for c in n.children() { go(c, v) } v.push(n); } let mut v = Vec::new(); go(n, &mut v); v };
    let want: Vec<Node> = inside.iter().cloned().filter(&is).collect(); let got: Vec<Node> = ast::descendants_of_type::<T>(n).iter().map(|x| x.node()).collect();
    if got != want { ffi::fail(&format!("descendants-differ: of {:?} they are {}, found are {}: {:?}", n, show(&want), show(&got), text)); }
    // two visitors at once: each sees its own nodes, on the way up
    let ty = n.ty();
    let got = process_subtree_bottom_up(root, visitor(Vec::new()).visit_nodes(&[ty], |n, v: &mut Vec<(bool, Node<'f>)>| v.push((false, n))).visit::<T, _>(|t, v| v.push((true, t.node()))));
    let order: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { for c in n.children() { go(c, v) } v.push(n); } let mut v = Vec::new(); go(root, &mut v); v };
    for (typed, want) in vec![(false, order.iter().cloned().filter(|x| x.ty() == ty).collect::<Vec<_>>()), (true, order.iter().cloned().filter(&is).collect())] {
        let got: Vec<Node> = got.iter().filter(|x| x.0 == typed).map(|x| x.1).collect();
        if got != want { ffi::fail(&format!("visit-differs: visiting {} meets {}, there are {}: {:?}", if typed { "typed nodes".to_string() } else { format!("{:?}", n) }, show(&got), show(&want), text)); }
    }
    if leaves.len() == 2 && up(leaves[0]) != up(leaves[1]) { ffi::probe(8); }
}
/// A piece of the text is the string it stands for, whatever is asked of it; ranges are intervals of numbers.
fn pieces(f: &File, text: &str, salt: usize) {
    use fall_tree::{TextBuf, TextSuffix};
    use std::hash::{Hash, Hasher};
    let all: Vec<Node> = fall_tree::search::subtree(f.root()).collect(); let mut r = Rng::new(salt as u64 * 13 + text.len() as u64);
    let mut cut = |r: &mut Rng| { let n = all[r.below(all.len())]; let (a, b) = rg(n.range()); let (t, s) = (n.text(), &text[a as usize..b as usize]);
        let x = boundary(s, r.below(s.len() + 1)); let y = boundary(s, x + r.below(12)).max(x);
        match r.below(4) { 0 => (t, s), 1 => (t.slice(TextSuffix::from(tu(x as u32))), &s[x..]), 2 => (t.slice(TextRange::from_to(tu(x as u32), tu(y as u32))), &s[x..y]), _ => (f.text().slice(TextRange::from_len(n.range().start() + tu(x as u32), tu((y - x) as u32))), &s[x..y]) } };
    for _ in 0..6 {
        let ((t, s), (u, v)) = (cut(&mut r), cut(&mut r)); let units = |x: usize| tu(x as u32);
        let hash = |t: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| { let mut h = std::collections::hash_map::DefaultHasher::new(); t(&mut h); h.finish() };
        let k = if v.len() > 3 { &v[..boundary(v, 2)] } else { v };
        let buf = TextBuf::from(s);
        let wrong = if t.to_string() != s || t.to_cow() != s || format!("{}", t) != s { "text" } else if t.len() != units(s.len()) || t.is_empty() != s.is_empty() { "length" } else if t.trim().to_string() != s.trim() { "trimmed text" }
            else if t.contains(v) != s.contains(v) || t.contains(k) != s.contains(k) { "containing" } else if t.find(k) != s.find(k).map(units) || t.rfind(k) != s.rfind(k).map(units) { "place" }
            else if t.starts_with(k) != s.starts_with(k) { "start" }
            else if (t == u) != (s == v) || (t == v) != (s == v) || (v == t) != (s == v) || t.cmp(&u) != s.cmp(v) || t.partial_cmp(&u) != s.partial_cmp(v) || t.partial_cmp(&v) != s.partial_cmp(v) { "order" }
            else if hash(&|h| t.hash(h)) != hash(&|h| s.hash(h)) { "hash" } else if buf.as_text() != t || TextBuf::from(s.to_string()).as_text() != t || !(buf == s) || (buf == v) != (s == v) { "copy" } else { "" };
        if !wrong.is_empty() { ffi::fail(&format!("piece-differs: the {} of {:?} (and {:?}) is not that of the string: {:?}", wrong, s, v, text)); }
        let (a, b) = (r.range(0, 12) as u32, r.range(0, 6) as u32); let (c, d) = (r.range(0, 12) as u32, r.range(0, 6) as u32); let (x, y) = (TextRange::from_len(tu(a), tu(b)), TextRange::from_to(tu(c), tu(c + d))); let (b, d) = (a + b, c + d);
        let apart = b <= c || d <= a;
        if rg(x) != (a, b) || x.len() != tu(b - a) || x.is_empty() != (a == b) || x.is_subrange_of(y) != (c <= a && b <= d) || x.disjoint(y) != apart || x.intersects(y) == apart || x.contains_offset_nonstrict(tu(c)) != (a <= c && c <= b) || text.get(a as usize..b as usize).map_or(false, |s| &text[x] != s) { ffi::fail(&format!("range-differs: {}..{} and {}..{}", a, b, c, d)); }
    }
}
/// The printed tree has every node, at its depth, and the text of every leaf.
fn printed(f: &File, text: &str) {
    fn go(f: &File, n: Node, d: usize, ws: bool, out: &mut String, text: &str) {
        let t = f.language().node_type_info(n.ty()); if t.whitespace_like && !ws { return }
        let (a, b) = rg(n.range()); let leaf = n.children().next().is_none();
        out.push_str(&"  ".repeat(d)); out.push_str(t.name); if leaf { out.push_str(&format!(" {:?}", &text[a as usize..b as usize])); } out.push('\n');
        for c in n.children() { go(f, c, d + 1, ws, out, text) }
    }
    for ws in vec![false, true] { let mut want = String::new(); go(f, f.root(), 0, ws, &mut want, text); let got = if ws { fall_tree::dump_file_ws(f) } else { fall_tree::dump_file(f) }; if got != want { ffi::fail(&format!("printed-differs: the tree is\n{}\nand is printed as\n{}", want, got)); } }
}
fn typed_lookups(f: &File, lang: &str, text: &str, salt: usize) {
    use fall_tree::search::{child_of_type, children_of_type, descendants_of_type};
    let root = f.root(); if text.len() > 3000 { return }
    let all: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { v.push(n); for c in n.children() { go(c, v) } } let mut v = Vec::new(); go(root, &mut v); v };
    let mut r = Rng::new(salt as u64 * 11 + text.len() as u64);
    for _ in 0..3 {
        // where one node ends and the next begins
        let m = all[r.below(all.len())]; let at = if r.chance(1, 2) { rg(m.range()).1 } else { rg(m.range()).0 };
        let n = all[r.below(all.len())];
        match (lang, r.below(4)) {
            ("rust", 0) => { use lang_rust_syntax::*; typed::<FnDef>(root, &all, at, n, text); typed::<ModDef>(root, &all, at, n, text); }
            ("rust", 1) => { use lang_rust_syntax::*; typed::<StructDef>(root, &all, at, n, text); typed::<UseDecl>(root, &all, at, n, text); }
            ("rust", 2) => { use lang_rust_syntax::*; typed::<TypeReference>(root, &all, at, n, text); typed::<EnumDef>(root, &all, at, n, text); }
            ("rust", _) => { use lang_rust_syntax::*; typed::<ExprStmt>(root, &all, at, n, text); typed::<LetStmt>(root, &all, at, n, text); }
            ("fall", 0) => { use lang_fall_syntax::*; typed::<SynRule>(root, &all, at, n, text); typed::<LexRule>(root, &all, at, n, text); }
            ("fall", 1) => { use lang_fall_syntax::*; typed::<Expr>(root, &all, at, n, text); }
            ("fall", _) => { use lang_fall_syntax::*; typed::<BlockExpr>(root, &all, at, n, text); typed::<CallExpr>(root, &all, at, n, text); }
            _ => {}
        }
        let ty = m.ty();
        let want: Vec<Node> = n.children().filter(|c| c.ty() == ty).collect();
        if children_of_type(n, ty).collect::<Vec<_>>() != want || child_of_type(n, ty) != want.first().cloned() { ffi::fail(&format!("children-differ: of {:?} the {:?} are wrong: {:?}", n, m, text)); }
        let inside: Vec<Node> = { fn go<'f>(n: Node<'f>, v: &mut Vec<Node<'f>>) { for c in n.children() { go(c, v) } v.push(n); } let mut v = Vec::new(); go(n, &mut v); v };
        if descendants_of_type(n, ty) != inside.into_iter().filter(|x| x.ty() == ty).collect::<Vec<_>>() { ffi::fail(&format!("descendants-differ: of {:?} the {:?} are wrong: {:?}", n, m, text)); }
    }
}
fn check_metrics(f: &File, before: u64, after: u64, what: &str) {
    let m = f.metrics().to_string();
    for name in ["lexing", "parsing", "inode construction", "relexed region", "parsing ticks"].iter() {
        let v: Vec<&str> = m.lines().filter(|l| l.starts_with(&format!("{}: ", name))).collect();
        if v.len() != 1 { ffi::fail(&format!("metrics: `{}` recorded {} times for {}", name, v.len(), what)); }
        if *name == "relexed region" { let n: usize = v[0].split(':').nth(1).and_then(|x| x.trim().parse().ok()).unwrap_or(usize::max_value()); let len = f.text().to_string().len(); if n > len { ffi::fail(&format!("metrics: {} said for {}, but the text has {} bytes", v[0], what, len)); } }
        if v[0].trim_end().ends_with("ms") { let ms: u64 = v[0].split(' ').rev().nth(1).and_then(|x| x.parse().ok()).unwrap_or(u64::max_value()); if ms > (after - before) / 1_000_000 + 1 { ffi::fail(&format!("metrics: {} said for {}, but only {} ns passed", v[0], what, after - before)); } }
    }
}
/// An argument that mentions a parameter of the caller, handed down a recursion.
fn run_capture() {
    const GRAMMAR: &str = "tokenizer {\n  x r\"x\"\n  y r\"y\"\n}\npub rule file { <bal x y> }\nrule bal(p, q) { p <bal { p } q>? q }\n";
    let src = match lang_fall::analyse(GRAMMAR.to_string()).analyse(fall_gen::generate) { Ok(s) => s, Err(_) => return };
    let g = crate::peg::Grammar { toks: vec![], rules: vec![], binder: 0, seed: 0, cachy: false };
    if let Some(l) = crate::peg::load_source(&g, &src, "") { let d = fall_tree::dump_file(&l.parse("xxyy".to_string())); let want = "FILE\n  X \"x\"\n  X \"x\"\n  Y \"y\"\n  Y \"y\""; if d.trim() != want { ffi::fail(&format!("parse-differs: the capture probe parses as {}", d)); } }
}
pub fn run(plan: &Plan) {
    if plan.flag("capture") { run_capture(); return }
    let o = oracle(plan);
    if plan.flag("gseed") { let g: &'static crate::peg::Grammar = Box::leak(Box::new(crate::peg::gen(plan.num("gseed")))); match crate::peg::load(g) { Some(l) => unsafe { GRAMMAR = Some(g); GEN = Some(Box::leak(Box::new(l))); }, None => { ffi::probe(40); return } } }
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let docs: Vec<(String, String)> = (0..plan.num("docs")).map(|i| (plan.get(&format!("lang{}", i)).to_string(), plan.get(&format!("text{}", i)).to_string())).collect();
    let pubs: Arc<Vec<Mutex<Vec<Arc<Version>>>>> = Arc::new(docs.iter().map(|_| Mutex::new(Vec::new())).collect());
    let tries: Vec<String> = plan.ops.iter().filter(|o| o.starts_with("try ")).map(|o| crate::plan::unesc(&o[4..])).collect();
    if !tries.is_empty() {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || for text in tries { let doc = Doc::open("gen", &text); let v = Version { lang: "gen".into(), seen: vec![], doc, text }; check_version(o, &v, "gen", 0, "opened"); }).unwrap();
        if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); }
    }
    let mut hs = Vec::new();
    for (i, (lang, text)) in docs.into_iter().enumerate() {
        let ops: Vec<String> = plan.ops.iter().filter(|o| o.starts_with(&format!("edit {} ", i)) || o.starts_with(&format!("nodes {} ", i))).cloned().collect();
        let pubs = pubs.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut vs: Vec<Arc<Version>> = Vec::new();
            let t0 = ffi::now(); let doc = Doc::open(&lang, &text); if o == Oracle::Snapshot { check_metrics(doc.file(), t0, ffi::now(), "opening"); }
            let v = Arc::new(Version { lang: lang.clone(), seen: tree(doc.file()), doc, text }); check_version(o, &v, &lang, 0, "opened");
            pubs[i].lock().unwrap().push(v.clone()); vs.push(v);
            for op in &ops {
                let mut w = op.splitn(4, ' '); let nodes = w.next() == Some("nodes"); w.next(); let back: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0); let spec = w.next().unwrap_or("");
                let base = vs[vs.len() - 1 - back % vs.len()].clone();
                let (cuts, text, e) = if nodes { ffi::probe(7); let (e, t) = node_edit(spec, base.doc.file(), &base.text); (vec![(0, 0, spec.to_string())], t, e) } else { let (c, t) = apply_spec(spec, &base.text); let e = build_edit(&c, base.doc.file()); (c, t, e) };
                if o == Oracle::Snapshot && e.apply(base.doc.file().text()).to_string() != text { ffi::fail(&format!("edit-differs: {:?} applied to {:?} gives {:?}", cuts, base.text, e.apply(base.doc.file().text()).to_string())); }
                let t0 = ffi::now(); let doc = base.doc.edit(&e); if o == Oracle::Snapshot { check_metrics(doc.file(), t0, ffi::now(), "an edit"); }
                ffi::probe(0); if back > 0 { ffi::probe(1); } if cuts.len() > 1 { ffi::probe(2); }
                let v = Arc::new(Version { lang: lang.clone(), seen: tree(doc.file()), doc, text });
                check_version(o, &v, &lang, vs.len(), &format!("made by {:?} from {:?}", cuts, base.text));
                pubs[i].lock().unwrap().push(v.clone()); vs.push(v);
            }
        }).unwrap());
    }
    for rd in 0..plan.num("readers") {
        let pubs = pubs.clone(); let seed = plan.seed + rd; let n = plan.num("reads");
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut r = Rng::new(seed);
            for _ in 0..n {
                let v = { let d = &pubs[r.below(pubs.len())]; let vs = d.lock().unwrap(); if vs.is_empty() { None } else { Some(vs[r.below(vs.len())].clone()) } };
                match v { None => ffi::sleep_ms(1), Some(v) => { ffi::probe(3); if o == Oracle::Snapshot && tree(v.doc.file()) != v.seen { ffi::fail(&format!("version-changed: a version shows another tree now than when it was made: {:?}", v.text)); } check_version(o, &v, &v.lang, r.below(1000), "read by another thread"); } }
            }
        }).unwrap());
    }
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); } }
    ffi::probe(63);
}
fn gen_with(r: &mut Rng, p: &mut Plan, langs: &[&str], oracle: &str) {
    swarm_sched(r, p, &[0, 0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 3_000_000_000;
    if r.chance(1, 4) { p.cfg.prob[ffi::CLOCK_JUMP] = 4000; }
    let docs = if r.chance(2, 3) { 1 } else { 2 };
    p.set("oracle", oracle);
    p.set("docs", docs); p.set("readers", if oracle == "snapshot" { r.range(1, 3) } else { r.below(3) }); p.set("reads", r.range(1, 5));
    for i in 0..docs {
        let lang = *r.pick(langs); p.set(&format!("lang{}", i), lang);
        let t = gen_text(r, lang); let hint = r.below(t.len() + 1); p.set(&format!("text{}", i), &t);
        let mut hint = hint;
        for _ in 0..r.range(1, 8) { if r.chance(1, 4) { hint = r.below(t.len() + 40); } let back = if r.chance(4, 5) { 0 } else { r.range(1, 3) }; if oracle == "snapshot" && r.chance(1, 3) { p.ops.push(format!("nodes {} {} {}", i, back, gen_node_edit(r, lang))); } else { p.ops.push(format!("edit {} {} {}", i, back, gen_edit(r, lang, hint))); } }
    }
}
/// Texts following the grammar, more or less. A text which the grammar is too slow for is left out.
fn gen_p01(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 3_000_000_000;
    if r.chance(1, 800) { p.set("capture", 1); return }
    let (gseed, g) = loop { let s = r.next() >> 1 | 1; let g = crate::peg::gen(s); if crate::peg::expected(&g, "").is_some() { break (s, g) } };
    let docs = *r.pick(&[1, 1, 2]);
    p.set("oracle", "grammar"); p.set("gseed", gseed); p.set("docs", docs); p.set("readers", if r.chance(1, 3) { 1 } else { 0 }); p.set("reads", r.range(1, 3));
    for i in 0..docs { { let n = if g.cachy { r.range(2, 14) } else { r.range(1, 8) }; gen_doc(r, p, i, &g, n) } }
    for _ in 0..r.below(40) { let t = g.short_text(r); if crate::peg::expected(&g, &t).is_some() { p.ops.push(format!("try {}", crate::plan::esc(&t))); } }
}
/// A document of a random grammar, mostly of one with many cached rules.
fn gen_random(r: &mut Rng, p: &mut Plan, oracle: &str) {
    swarm_sched(r, p, &[0, 0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 3_000_000_000;
    let any = r.chance(1, 4);
    let (gseed, g) = loop { let s = r.next() >> 1 | 1; let g = crate::peg::gen(s); if (any || g.cachy) && crate::peg::expected(&g, "").is_some() { break (s, g) } };
    p.set("oracle", oracle); p.set("gseed", gseed); p.set("docs", 1); p.set("readers", if r.chance(1, 6) { 1 } else { 0 }); p.set("reads", r.range(1, 3));
    let n = r.range(3, 20); gen_doc(r, p, 0, &g, n);
}
fn gen_doc(r: &mut Rng, p: &mut Plan, i: usize, g: &crate::peg::Grammar, edits: usize) {
    p.set(&format!("lang{}", i), "gen");
    let mut text = if g.cachy && r.chance(1, 2) { (0..3).map(|_| g.short_text(r)).collect::<Vec<_>>().join(" ") } else { g.gen_text(r) }; let mut tries = 0;
    while crate::peg::expected(g, &text).is_none() { tries += 1; text = if tries > 6 { String::new() } else { g.gen_text(r) }; if tries > 6 { break } }
    p.set(&format!("text{}", i), &text);
    let mut vs = vec![text]; let mut hint = r.below(vs[0].len() + 1);
    for _ in 0..edits {
        if r.chance(1, 3) { hint = r.below(vs[0].len() + 10); }
        let back = if r.chance(4, 5) { 0 } else { r.range(1, 3) };
        let spec = gen_edit_with(r, hint, &mut |r| g.snippet(r));
        let (_, text) = apply_spec(&spec, &vs[vs.len() - 1 - back % vs.len()]);
        if crate::peg::expected(g, &text).is_none() { continue }
        vs.push(text); p.ops.push(format!("edit {} {} {}", i, back, spec));
    }
}
const MIX: &[&str] = &["rust", "rust", "fall", "fall", "json", "bnf", "sexp", "arith", "weird"];
pub fn gen_work(r: &mut Rng, p: &mut Plan) { gen_with(r, p, MIX, "work") }
fn gen_e01(r: &mut Rng, p: &mut Plan) { if r.chance(1, 3) { gen_random(r, p, "tree") } else { gen_with(r, p, MIX, "tree") } }
fn gen_e02(r: &mut Rng, p: &mut Plan) { if r.chance(1, 6) { gen_random(r, p, "lossless") } else { gen_with(r, p, MIX, "lossless") } }
fn gen_e03(r: &mut Rng, p: &mut Plan) { gen_with(r, p, MIX, "snapshot") }
fn warm() { for l in LANGS.iter() { if *l != "json" { let _ = language(l).parse(corpus(l)[0].to_string()); } } }

const REAL: &str = "lexer and relexer, parser with its cache, tree construction, text edits, editor files, std threads and mutexes: all real code";
const STUB: &str = "kernel: threads, futexes and clocks are scheduled by the simulator (csrc/)";
const RULE: &str = "one run = one or two documents, up to 8 edits each (multi-part, undo to older versions, branches), every version compared with a parse from scratch; non-trivial always";
const RULE2: &str = "one run = one or two documents, up to 8 edits each; the tree of every version is walked and searched by position, by the thread that made it and by readers; non-trivial always";
const RULE3: &str = "one run = one or two documents, up to 8 edits each (multi-part, undo to older versions, branches), the text of every version compared with a string model, old versions read again by 1-3 concurrent readers; non-trivial always";
const RULE4: &str = "one run = one random grammar, its generated parser, 1-3 texts with up to 8 edits each, the tree of every version compared with the reference interpreter; non-trivial always";
const REAL4: &str = "fall's own parser, analysis, generator and template, lexer, parser, tree construction: all real code; the generated parser is loaded from the generator's output";
const PROBES: &[&str] = &["edits", "edits_of_older_versions", "multi_part_edits", "reads_by_others", "trees_compared_with_the_reference", "too_slow_for_the_reference", "compared_trees_with_errors", "edits_of_nodes", "lookups_between_two_nodes"];
pub fn scenarios() -> Vec<Scn> {
    vec![
        Scn { prop: "E01", gen: gen_e01, run, quick: 16_000, thorough: 400_000, level: "exploration", rule: RULE, real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "E02", gen: gen_e02, run, quick: 12_000, thorough: 400_000, level: "exploration", rule: RULE2, real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "E03", gen: gen_e03, run, quick: 12_000, thorough: 400_000, level: "exploration", rule: RULE3, real: REAL, stub: STUB, assumptions: &[], probes: PROBES, warm },
        Scn { prop: "P01", gen: gen_p01, run, quick: 22_000, thorough: 600_000, level: "exploration", rule: RULE4, real: REAL4, stub: STUB, assumptions: &[], probes: PROBES, warm },
    ]
}
