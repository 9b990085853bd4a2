// The editor for Rust: requests to every version of a document while it is edited, answered as an independent reading of the
// syntax tree says.
use std::sync::Arc;
use fall_editor::EditorFileImpl;
use fall_tree::{TextRange, tu};
use lang_rust::editor::RustEditorFile;
use crate::anaref::T;
use crate::driver::Scn;
use crate::ffi;
use crate::plan::{Plan, swarm_sched};
use crate::rng::Rng;

const NREQ: usize = 10;
const NAMES: [&str; NREQ] = ["structure", "highlighting", "breadcrumbs", "after space", "expand", "context actions", "extend selection", "reformat", "syntax tree", "diagnostics"];
fn rg(t: TextRange) -> String { let a: u32 = t.start().into(); let b: u32 = t.end().into(); format!("{}..{}", a, b) }
fn ask(f: &RustEditorFile, kind: usize, off: usize, end: usize) -> String {
    let o = tu(off as u32); let range = TextRange::from_to(o, tu(end as u32));
    let sorted = |mut v: Vec<String>| { v.sort(); v.join(",") };
    match kind {
        0 => sorted(f.structure().iter().map(|n| { if !n.children.is_empty() { ffi::fail("wrong-answer: a nested structure") } format!("{} {}", rg(n.range), n.name) }).collect()),
        1 => sorted(f.highlight().iter().map(|(r, t)| format!("{} {}", rg(*r), t.0)).collect()),
        2 => format!("{:?}", f.breadcrumbs(o)),
        3 => format!("{:?}", f.after_space_typed(o)),
        4 => f.expand(o).map_or("None".into(), |e| e.apply(f.file().text()).to_string()),
        5 => { let ids = f.context_actions(range); let mut s = format!("{:?}", ids); for id in ids { match f.apply_context_action(range, id) { Some(e) => s.push_str(&format!(" {} => {}", id, e.apply(f.file().text()))), None => ffi::fail(&format!("action-lost: action {} was offered for {} but could not be applied", id, rg(range))) } }
            for id in ["Swap", "Add braces", "Add impl", "nothing"].iter() { if !s.contains(id) && f.apply_context_action(range, id).is_some() { ffi::fail(&format!("action-hidden: action {} was not offered for {} but could be applied", id, rg(range))) } } s }
        6 => format!("{:?}", f.extend_selection(range)),
        7 => f.reformat().apply(f.file().text()).to_string(),
        8 => f.syntax_tree(),
        _ => format!("{:?}", f.diagnostics()),
    }
}
fn at(s: &str, mut a: usize) -> usize { a = a.min(s.len()); while !s.is_char_boundary(a) { a -= 1; } a }
/// Ops: "edit <spec>", "ask <kind> <pos> <len> <async>".
fn run(plan: &Plan) {
    let mut cur = Arc::new(<RustEditorFile as EditorFileImpl>::parse(plan.get("text")));
    let mut text = plan.get("text").to_string();
    ffi::set_fault_mask(crate::idx::sut_faults(plan));
    let mut hs = Vec::new(); let mut version = 0;
    for o in &plan.ops {
        if let Some(spec) = o.strip_prefix("edit ") {
            let (cuts, t) = crate::edit::apply_spec(spec, &text);
            let e = crate::edit::build_edit(&cuts, cur.file());
            cur = Arc::new(cur.edit(&e)); text = t; version += 1;
            if cur.file().text().to_string() != text { ffi::fail(&format!("edit-lost: version {}", version)); }
        } else {
            let w: Vec<usize> = o.split(' ').skip(1).map(|x| x.parse().unwrap_or(0)).collect();
            let kind = w[0] % NREQ; let off = at(&text, w[1] % (text.len() + 1)); let end = at(&text, off + w[2]).max(off);
            let f = cur.clone(); let text = text.clone();
            let job = move || {
                let m = ffi::fault_mask();
                let got = ask(&f, kind, off, end);
                ffi::set_faults(&[]);
                let want = ffi::atomically(|| T::new(f.file()).rust(kind, off, end));
                if let Some(want) = want {
                    ffi::probe(0); if !["", "None", "[]"].contains(&&want[..]) && want != text { ffi::probe(1 + kind); }
                    if want != got { ffi::fail(&format!("wrong-answer: version {}: {} (at {}..{}) of\n{}\nshould be {}\nis        {}", version, NAMES[kind], off, end, text, want, got)); }
                }
                ffi::set_fault_mask(m);
            };
            if w[3] != 0 { hs.push(std::thread::spawn(job)); } else { job(); }
        }
    }
    for h in hs { if h.join().is_err() { ffi::fail(&format!("panic: {}", crate::driver::panics().last().map(|x| x.1.clone()).unwrap_or_default())); } }
    ffi::probe(63);
}
fn extra(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) { s.push_str(*r.pick(&["struct S<'a, T: Copy, U>(T, U);\n", "enum E<'x, 'y: 'x, A> { A(A), B { c: u8, d: u8 }, }\n", "use a::b::c;\n", "use a::{b, c};\n", "use ::x;\n", ",,,, fn q(,,,) { f(a,,,b); [,,,] }\n", "use a::{,,,b};,,,\n", "use a as b;\n", "impl<T> Tr for S<T> { fn m(&self, a: u8, b: u16) -> u8 { let x = 1; foo.bar.p$\n x } }\n", "impl S { const X: u8 = 1; fn f() { fn g() { let \n } } }\n", "trait Tr { fn a(); type T; }\n", "mod m { mod n; fn f(a: u8, b: u8) { let a\n let ; let b = 2; if let x = y { } x.y$; é.p$ } }\n", "type A<T> = B<T, u8>;\n", "fn h() { let x: [u8; 4]\n }\n", "fn h() { let A { b, c: [d; 2] }\n let x: S<T = u8>\n let\n }\n", "fn h() { let x: [u8; { let y; 4 }]\n let z: fn(a: u8) -> u8\n foo() }\n", "fn f<A, B>(x: A, y: B, z: C) { a(1, 2, b, (3, 4)); [1, 2]; S { a: 1, b: 2 }; x$ }\n", "struct ", "enum E", "impl ", "fn ", "let ", "struct é { a: 'b }", "// c\n", "\n\n", "  "])); }
    s
}
fn gen(r: &mut Rng, p: &mut Plan) {
    swarm_sched(r, p, &[0, 0, 40_000, 4_000]);
    p.cfg.max_ticks = 1_500_000_000;
    let text = match r.below(5) { 0 => crate::edit::gen_text(r, "rust"), 1 if r.chance(1, 6) => String::new(), 1 | 2 => { let t = crate::edit::gen_text(r, "rust"); format!("{}{}", t, extra(r)) } _ => extra(r) };
    // blanks and comments anywhere
    let text = if r.chance(1, 2) { let mut t = String::new(); let rate = r.range(2, 10); for c in text.chars() { t.push(c); if ",()<>{};:".contains(c) && r.chance(1, rate) { for _ in 0..r.range(1, 3) { t.push_str(*r.pick(&[" ", "/* c */", "// c\n", "\n", "  "])); } } } t } else { text };
    // the text may end where it is being typed
    let text = if r.chance(1, 6) { let ends: Vec<usize> = ["let ", "$", ",", "{", "fn f", "("].iter().flat_map(|o| { let n = o.len(); text.match_indices(*o).map(move |x| x.0 + n).collect::<Vec<_>>() }).collect(); if ends.is_empty() { text } else { text[..*r.pick(&ends)].to_string() } } else { text };
    let b = text.as_bytes(); let word = |i: usize| b[i].is_ascii_alphanumeric() || b[i] == b'_';
    let ends: Vec<usize> = (1..b.len()).filter(|i| text.is_char_boundary(*i) && (word(i - 1) != word(*i) || b",;<>${}".contains(&b[*i]))).collect();
    for o in ["let ", "$", ","].iter() { let ps: Vec<usize> = text.match_indices(o).map(|x| x.0).collect(); for i in ps.iter().take(8) { if r.chance(1, 2) { let k = match *o { "," => 5, "$" => 4, _ => 3 }; p.ops.push(format!("ask {} {} 0 0", k, i + o.len())); } } }
    let hint = r.below(text.len() + 1);
    for _ in 0..r.range(3, 12) {
        if r.chance(1, 3) { let e = crate::edit::gen_edit(r, "rust", hint); p.ops.push(format!("edit {}", e)); }
        else { let pos = if ends.is_empty() || r.chance(1, 4) { r.below(100_000) } else { *r.pick(&ends) }; let k = if r.chance(1, 2) { 5 } else { r.below(NREQ) }; p.ops.push(format!("ask {} {} {} {}", k, pos, if r.chance(1, 2) { 0 } else { r.below(30) }, r.below(2))); }
    }
    p.set("text", text);
}
fn warm() { let f = <RustEditorFile as EditorFileImpl>::parse("struct S;"); for k in 0..NREQ { ask(&f, k, 3, 3); } }
pub fn scenarios() -> Vec<Scn> {
    vec![Scn { prop: "E04", gen, run, quick: 10_000, thorough: 300_000, level: "exploration", rule: "one run = one Rust document, valid or not, up to 12 edits and requests at any position, some asked concurrently while the next version is made, every answer compared with an independent reading of the syntax tree; non-trivial always",
        real: "the Rust editor (lang_rust::editor), fall_editor services, fall_tree search and visitors, lexer and parser: all real code", stub: "kernel: threads, futexes and clocks are scheduled by the simulator (csrc/)", assumptions: &["the syntax tree is right (E01, E02, P01)", "positions are at character boundaries"],
        probes: &["answers_compared", "structure", "highlighting", "breadcrumbs", "after_space", "expand", "context_actions", "extend_selection", "reformat", "syntax_tree", "diagnostics"], warm }]
}
