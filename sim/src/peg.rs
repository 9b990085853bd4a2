// Random grammars with an executable reference: what a grammar says, by direct interpretation of its rules.
// The reference shares nothing with the code under test: it has its own lexer, its own recursive descent over the
// grammar (no event list, no cache, no argument slots) and its own placement of whitespace.
use std::collections::HashMap;
use std::sync::atomic::{AtomicPtr, Ordering};
use fall_tree::{File, Language, LanguageImpl, Metrics, Node, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use fall_parse::{runtime as rt, LexRule, ParserDefinition, RegexLexer};
use crate::ffi;
use crate::rng::Rng;

// ---- grammars ----
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pat { Ws, Comment, Word, Lower, Num, Str, Lit(&'static str), Fence }
#[derive(Clone, Debug)]
pub struct Tok { pub name: &'static str, pub pat: Pat, pub skip: bool, pub contextual: bool }
#[derive(Clone, Debug)]
pub enum X {
    Tok(usize), Rule(usize), Call(usize, Vec<X>), Par(usize), Block(Vec<Seq>), Opt(Box<X>), Rep(Box<X>), Not(Box<X>), Eof, Any,
    Layer(Box<X>, Box<X>), Skip(Box<X>, Box<X>), Inject(Box<X>, Box<X>), Enter(usize, Box<X>), Exit(usize, Box<X>), In(usize), Prev(Vec<usize>),
}
#[derive(Clone, Debug)]
pub struct Seq { parts: Vec<X>, commit: Option<usize> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Plain, Pratt, Atom, Prefix(Option<u32>), Postfix(Option<u32>), Bin(u32) }
#[derive(Clone, Debug)]
pub struct Rule { name: String, public: bool, cached: bool, replaceable: bool, replaces: bool, ty: Option<usize>, params: Vec<String>, kind: Kind, body: Vec<Seq> }
#[derive(Clone, Debug)]
pub struct Grammar { pub toks: Vec<Tok>, pub rules: Vec<Rule>, pub binder: usize, pub seed: u64, pub cachy: bool }

const TOKENS: &[(&str, Pat)] = &[("lp", Pat::Lit("(")), ("rp", Pat::Lit(")")), ("lc", Pat::Lit("{")), ("rc", Pat::Lit("}")), ("plus", Pat::Lit("+")), ("star", Pat::Lit("*")), ("minus", Pat::Lit("-")), ("bang", Pat::Lit("!")),
    ("comma", Pat::Lit(",")), ("semi", Pat::Lit(";")), ("lt", Pat::Lit("<")), ("gt", Pat::Lit(">")), ("eq", Pat::Lit("=")), ("eqeq", Pat::Lit("==")), ("arrow", Pat::Lit("->")), ("kw_fn", Pat::Lit("fn")), ("kw_let", Pat::Lit("let")), ("kw_if", Pat::Lit("if")), ("dot", Pat::Lit("."))];
const CTX: &[(&str, &str)] = &[("shr", ">>"), ("ge", ">="), ("union", "union"), ("dollar", "<-"), ("lets", "let")];
const CONTEXTS: [&str; 3] = ["cond", "stmt", "deep"];

struct Gen<'r> { r: &'r mut Rng, toks: Vec<Tok>, rules: Vec<Rule>, null: Vec<bool>, known: Vec<bool>, theme: Vec<usize>, nctx: usize, few: Vec<usize> }
impl<'r> Gen<'r> {
    fn real_toks(&self) -> Vec<usize> { (0..self.toks.len()).filter(|&i| !self.toks[i].skip).collect() }
    fn tok(&mut self) -> X { let t = if self.few.is_empty() { self.real_toks() } else { self.few.clone() }; X::Tok(*self.r.pick(&t)) }
    fn nullable(&self, x: &X) -> bool {
        match x {
            X::Tok(_) | X::Any => false, X::Rule(i) | X::Call(i, _) => !self.known[*i] || self.null[*i], X::Par(_) => true,
            X::Block(alts) => alts.iter().any(|s| self.seq_nullable(s)), X::Opt(_) | X::Rep(_) | X::Not(_) | X::Eof | X::In(_) | X::Prev(_) => true,
            X::Layer(l, _) => self.nullable(l), X::Skip(_, b) => self.nullable(b), X::Inject(a, b) => self.nullable(a) && self.nullable(b), X::Enter(_, e) | X::Exit(_, e) => self.nullable(e),
        }
    }
    fn seq_nullable(&self, s: &Seq) -> bool { s.parts[..s.commit.unwrap_or(s.parts.len())].iter().all(|p| self.nullable(p)) }
    /// `me`: the rule being made; `left`: nothing was consumed yet, so only later rules may be entered.
    fn targets(&self, me: usize, left: bool, f: &dyn Fn(&Rule) -> bool) -> Vec<usize> {
        (1..self.rules.len()).filter(|&j| (j > me || !left) && matches!(self.rules[j].kind, Kind::Plain | Kind::Pratt | Kind::Atom) && f(&self.rules[j])).collect()
    }
    fn expr(&mut self, me: usize, left: bool, depth: usize, closed: bool) -> X {
        let d = depth.saturating_sub(1);
        if depth == 0 { return if self.r.chance(1, 2) { self.tok() } else { self.reference(me, left, 0, closed) } }
        let k = if !self.theme.is_empty() && self.r.chance(1, 3) { *self.r.pick(&self.theme) } else { self.r.below(34) };
        match k {
            0..=5 => self.tok(),
            6..=14 => self.reference(me, left, depth, closed),
            15..=17 => X::Block(self.block(me, left, d, closed)),
            18 | 19 => X::Opt(Box::new(self.expr(me, left, d, closed))),
            20 | 21 => X::Rep(Box::new(self.consuming(me, left, d, closed))),
            22 => X::Not(Box::new(self.expr(me, left, d, closed))),
            23 => X::Eof,
            24 => X::Any,
            25 | 26 => { let (a, b) = match self.r.below(3) { 0 => (X::Tok(0), X::Tok(1)), 1 => (self.tok(), self.tok()), _ => (X::Tok(2), X::Tok(3)) };
                let close = b.clone(); let inner = X::Rep(Box::new(X::Block(vec![Seq { parts: vec![X::Not(Box::new(b.clone())), X::Any], commit: None }])));
                let bal = self.targets(me, false, &|r| r.name == "balanced");
                let cover = if let (Some(&j), true) = (bal.first(), self.r.chance(2, 3)) { X::Call(j, vec![a.clone(), b]) } else { inner };
                let contents = self.expr(me, false, d, closed);
                let mut parts = vec![a, X::Layer(Box::new(cover), Box::new(contents))]; let commit = if self.r.chance(1, 2) { Some(1) } else { None }; if self.r.chance(4, 5) { parts.push(close); }
                X::Block(vec![Seq { parts, commit }]) }
            27 => { let l = self.expr(me, left, d, closed); let e = self.expr(me, left, d, closed); X::Layer(Box::new(l), Box::new(e)) }
            28 | 29 => { let body = self.expr(me, left, d, closed); let first = if self.r.chance(1, 2) { self.expr(me, left, 0, closed) } else { X::Block((0..self.r.range(1, 3)).map(|_| Seq { parts: vec![self.tok()], commit: None }).collect()) }; X::Skip(Box::new(first), Box::new(body)) }
            30 => { let pubs = self.targets(me, left, &|r| r.public && !r.replaces && r.kind == Kind::Plain && r.params.is_empty());
                if pubs.is_empty() { return self.tok() }
                let a = *self.r.pick(&pubs); let prefix = if self.r.chance(1, 3) { let c = *self.r.pick(&pubs); let x = if self.r.chance(1, 2) { X::Opt(Box::new(X::Rule(a))) } else { X::Rule(a) }; X::Block(vec![Seq { parts: vec![x, X::Rule(c)], commit: None }]) } else if self.r.chance(1, 5) { let c = *self.r.pick(&pubs); X::Inject(Box::new(X::Rule(a)), Box::new(X::Rule(c))) } else { X::Rule(a) };
                // the first part may have consumed nothing, so both stay within `pubs` of a left position
                let body = *self.r.pick(&pubs);
                X::Inject(Box::new(prefix), Box::new(X::Rule(body))) }
            31 => { let c = self.r.below(self.nctx); let e = self.expr(me, left, d, closed); if self.r.chance(2, 3) { X::Enter(c, Box::new(e)) } else { X::Exit(c, Box::new(e)) } }
            34 => { let c = self.r.below(self.nctx); let mut alts = Vec::new();
                for _ in 0..self.r.range(1, 3) { let n = self.r.range(1, 3); let mut parts = Vec::new();
                    for _ in 0..n { let e = match self.r.below(6) { 0 => { let e = self.expr(me, left, d, closed); X::Enter(c, Box::new(e)) } 1 | 2 => { let e = self.expr(me, left, d, closed); X::Exit(c, Box::new(e)) } 3 => X::In(c), 4 => X::Not(Box::new(X::In(c))), _ => self.tok() }; parts.push(e); }
                    let commit = if n > 1 && self.r.chance(1, 5) { Some(1) } else { None }; alts.push(Seq { parts, commit }); }
                let e = Box::new(X::Block(alts)); match self.r.below(4) { 0 | 1 => X::Enter(c, e), 2 => X::Exit(c, e), _ => *e } }
            32 => { let c = X::In(self.r.below(self.nctx)); if self.r.chance(1, 2) { X::Not(Box::new(c)) } else { c } }
            _ => { let pubs: Vec<usize> = (1..self.rules.len()).filter(|&j| self.rules[j].public && self.rules[j].kind != Kind::Pratt).collect(); if pubs.is_empty() { return self.tok() } let n = self.r.range(1, 3); let p = X::Prev((0..n).map(|_| *self.r.pick(&pubs)).collect()); if self.r.chance(1, 2) { X::Not(Box::new(p)) } else { p } }
        }
    }
    fn reference(&mut self, me: usize, left: bool, depth: usize, closed: bool) -> X {
        let np = self.rules[me].params.len();
        if np > 0 && !closed && self.r.chance(1, 3) { return X::Par(self.r.below(np)) }
        let t = self.targets(me, left, &|_| true);
        if t.is_empty() { return self.tok() }
        let j = *self.r.pick(&t);
        let n = self.rules[j].params.len();
        if n == 0 { return X::Rule(j) }
        if self.rules[j].name == "balanced" { let a = self.tok(); let b = if depth == 0 { self.tok() } else { self.consuming(me, left, 0, closed || j <= me) }; return X::Call(j, if self.r.chance(1, 2) { vec![a, b] } else { vec![b, a] }) }
        if j == me && !closed && self.r.chance(2, 3) { return X::Call(j, (0..n).map(|_| X::Par(self.r.below(n))).collect()) }
        // arguments of a rule which may come back here must not mention our own parameters
        let args = (0..n).map(|_| if np > 0 && !closed && j > me && self.r.chance(1, 2) { X::Par(self.r.below(np)) } else { if depth == 0 { self.tok() } else { self.expr(me, left, depth.min(1) - 1, closed || j <= me) } }).collect();
        X::Call(j, args)
    }
    fn consuming(&mut self, me: usize, left: bool, depth: usize, closed: bool) -> X {
        let e = self.expr(me, left, depth, closed);
        if !self.nullable(&e) { return e }
        match self.r.below(3) {
            0 => X::Block(vec![Seq { parts: vec![X::Not(Box::new(e)), X::Any], commit: None }]),
            1 => { let t = self.tok(); X::Block(vec![Seq { parts: vec![e, t], commit: None }]) }
            _ => { let t = self.tok(); X::Block(vec![Seq { parts: vec![t, e], commit: Some(1) }]) }
        }
    }
    fn seq(&mut self, me: usize, left: bool, depth: usize, closed: bool) -> Seq {
        let n = *self.r.pick(&[1, 1, 2, 2, 3, 4]);
        let mut left = left; let mut parts = Vec::new();
        for _ in 0..n { let x = self.expr(me, left, depth, closed); if !self.nullable(&x) { left = false; }
            let j = if let X::Rule(j) = x { Some(j) } else { None };
            parts.push(x);
            // what came last decides about what may follow
            if let (Some(j), true) = (j, self.r.chance(1, 10)) {
                let like: Vec<usize> = if self.rules[j].kind == Kind::Pratt { (1..self.rules.len()).filter(|k| self.rules[*k].public && self.rules[*k].kind != Kind::Plain && self.rules[*k].kind != Kind::Pratt).collect() } else if self.rules[j].public && j > 0 { vec![j] } else { vec![] };
                if !like.is_empty() { let p = X::Prev((0..self.r.range(1, 2)).map(|_| *self.r.pick(&like)).collect()); let p = if self.r.chance(1, 4) { X::Not(Box::new(p)) } else { p }; if self.r.chance(1, 2) { parts.push(p) } else { let t = self.tok(); parts.push(X::Opt(Box::new(X::Block(vec![Seq { parts: vec![p, t], commit: None }])))) } }
            }
        }
        let n = parts.len();
        let commit = if self.r.chance(1, 4) { let lo = if self.r.chance(1, 12) { 0 } else { 1 }; Some(self.r.range(lo, n)) } else { None };
        // a committed sequence may stop early: what follows it is still at the left edge if the committed part is nullable
        Seq { parts, commit }
    }
    fn block(&mut self, me: usize, left: bool, depth: usize, closed: bool) -> Vec<Seq> {
        let n = *self.r.pick(&[1, 1, 2, 2, 3]); let mut v: Vec<Seq> = (0..n).map(|_| self.seq(me, left, depth, closed)).collect();
        // what an alternative begins with is also all there is to another one
        if !self.few.is_empty() && self.r.chance(1, 2) { let s = self.r.pick(&v).parts.clone(); if s.len() > 1 { let k = self.r.range(1, s.len() - 1); v.push(Seq { parts: s[..k].to_vec(), commit: None }) } }
        v
    }
}
fn rule(name: String) -> Rule { Rule { name, public: false, cached: false, replaceable: false, replaces: false, ty: None, params: vec![], kind: Kind::Plain, body: vec![] } }
pub fn gen(seed: u64) -> Grammar {
    let mut rng = Rng::new(seed);
    let mut toks: Vec<Tok> = TOKENS[..4].iter().map(|t| Tok { name: t.0, pat: t.1, skip: false, contextual: false }).collect();
    // a small grammar over few tokens: a short text reaches all of it
    let small = rng.chance(1, 2); let fat = if small { 1 } else { 3 };
    // many cached rules that look at the same few tokens, one inside the other
    let cachy = small && rng.chance(1, 3);
    let parry = cachy && rng.chance(1, 3);
    for t in &TOKENS[4..] { if rng.chance(fat, 5 * (4 - fat)) { toks.push(Tok { name: t.0, pat: t.1, skip: false, contextual: false }); } }
    toks.push(Tok { name: "ident", pat: if rng.chance(2, 3) { Pat::Word } else { Pat::Lower }, skip: false, contextual: false });
    if rng.chance(1, if small { 6 } else { 1 } * 2) { toks.push(Tok { name: "num", pat: Pat::Num, skip: false, contextual: false }); }
    if rng.chance(1, if small { 6 } else { 1 } * 3) { toks.push(Tok { name: "str", pat: Pat::Str, skip: false, contextual: false }); }
    if rng.chance(1, if small { 6 } else { 1 } * 3) { toks.push(Tok { name: "fence", pat: Pat::Fence, skip: false, contextual: false }); }
    for c in CTX { if rng.chance(1, if small { 6 } else { 1 } * 3) { if toks.iter().all(|t| t.pat != Pat::Lit(c.1)) { toks.push(Tok { name: c.0, pat: Pat::Lit(c.1), skip: false, contextual: true }); } } }
    // the order of token rules decides between matches of one length
    for i in (4..toks.len()).rev() { let j = rng.range(4, i); toks.swap(i, j); }
    toks.push(Tok { name: "whitespace", pat: Pat::Ws, skip: true, contextual: false });
    if rng.chance(1, 2) { toks.push(Tok { name: "comment", pat: Pat::Comment, skip: true, contextual: false }); }
    let n = if cachy { rng.range(4, 8) } else if small { rng.range(2, 4) } else { rng.range(3, 9) };
    let mut rules: Vec<Rule> = vec![{ let mut r = rule("file".into()); r.public = true; r.replaceable = rng.chance(1, 10); r.cached = rng.chance(1, 12); r }];
    let mut nparams = 0;
    for i in 1..n {
        let mut r = rule(format!("{}_{}", rng.pick(&["item", "list", "part", "head", "elem"]), i));
        r.public = rng.chance(3, 5);
        if r.public { r.replaces = rng.chance(1, 8); if !r.replaces { r.replaceable = rng.chance(1, 6); r.cached = rng.chance(1, 3); } } else { r.cached = rng.chance(1, 4); }
        if cachy { r.cached = r.cached || !r.replaces && rng.chance(1, 2); if r.public && !r.replaces { r.replaceable = rng.chance(1, 3); r.replaces = !r.replaceable && !r.cached && rng.chance(1, 2); } }
        if rng.chance(if parry { 3 } else { 1 }, 5) && nparams < 6 { let k = rng.range(1, 2); for q in 0..k { r.params.push(format!("{}{}", rng.pick(&["p", "q", "el"]), q)); } nparams += k; }
        rules.push(r);
    }
    for i in 1..n { if rules[i].public && rng.chance(1, 12) { let j = rng.below(n); if j != i && rules[j].public && rules[j].ty.is_none() { rules[i].ty = Some(j); } } }
    // a rule others borrow the type of keeps its own
    for i in 0..n { if let Some(j) = rules[i].ty { if rules[j].ty.is_some() { rules[i].ty = None; } } }
    let mut prat = None;
    if rng.chance(1, if small { 4 } else { 2 }) {
        let at = rules.len(); prat = Some(at);
        let mut p = rule("expr".into()); p.kind = Kind::Pratt; rules.push(p);
        let mut add = |rules: &mut Vec<Rule>, kind: Kind, s: &str| { let i = rules.len(); let mut r = rule(format!("{}_{}", s, i)); r.public = true; r.kind = kind; rules.push(r); };
        for _ in 0..rng.range(1, 3) { add(&mut rules, Kind::Atom, "atom"); }
        for _ in 0..rng.below(3) { let v = if rng.chance(1, 3) { None } else { Some(rng.range(1, 4) as u32) }; add(&mut rules, Kind::Prefix(v), "pre"); }
        for _ in 0..rng.below(3) { let v = if rng.chance(1, 3) { None } else { Some(rng.range(1, 4) as u32) }; add(&mut rules, Kind::Postfix(v), "post"); }
        for _ in 0..rng.range(1, 3) { let v = rng.range(1, 4) as u32; add(&mut rules, Kind::Bin(v), "bin"); }
        for i in at + 1..rules.len() { if rules[i].kind == Kind::Atom { rules[i].cached = rng.chance(1, 5); rules[i].replaceable = rng.chance(1, 8); } }
    }
    { let mut r = rule("balanced".into()); r.params = vec!["bra".into(), "ket".into()]; rules.push(r); }
    let total = rules.len();
    // half of the grammars have a favourite construction
    let nctx = if rng.chance(1, 2) { 3 } else { 1 };
    let theme = match rng.below(16) { 0 | 1 => vec![34, 34, 31, 32], 2 => vec![33], 3 => vec![25, 27], 4 => vec![28, 29], 5 => vec![30], 6 => vec![22, 18, 15], 7 => vec![20, 15, 7], _ => vec![] };
    let mut g = Gen { r: &mut rng, toks, rules, null: vec![true; total], known: vec![false; total], theme, nctx, few: vec![] };
    if cachy { let t = g.real_toks(); for _ in 0..g.r.range(2, 4) { let x = *g.r.pick(&t); g.few.push(x); } if g.r.chance(1, 2) { g.theme = if g.r.chance(1, 2) { vec![6, 6, 6, 0] } else { vec![23, 22, 33, 32, 6, 18] }; } }
    let b = total - 1;
    g.rules[b].body = vec![Seq { parts: vec![X::Rep(Box::new(X::Block(vec![
        Seq { parts: vec![X::Par(0), X::Call(b, vec![X::Par(0), X::Par(1)]), X::Par(1)], commit: None },
        Seq { parts: vec![X::Block(vec![Seq { parts: vec![X::Not(Box::new(X::Par(1))), X::Any], commit: None }])], commit: None }])))], commit: None }];
    g.known[b] = true;
    for i in (0..b).rev() {
        let depth = *g.r.pick(&[1, 2, 2, if small { 2 } else { 3 }]);
        let body = match g.rules[i].kind {
            Kind::Plain if i == 0 && g.r.chance(2, 3) => {
                let mut e = g.block(0, true, 1, false); if g.r.chance(1, 2) { let t = g.targets(0, true, &|r| r.params.is_empty()); for _ in 0..2 { if !t.is_empty() { let j = *g.r.pick(&t); e.push(Seq { parts: vec![X::Rule(j)], commit: None }) } } }
                let mut e = X::Block(e); if g.nullable(&e) { let t = g.tok(); e = X::Block(vec![Seq { parts: vec![e, t], commit: None }]) }
                if g.r.chance(1, 3) { let first = X::Block((0..g.r.range(1, 4)).map(|_| Seq { parts: vec![g.tok()], commit: None }).collect()); e = X::Skip(Box::new(first), Box::new(e)) }
                vec![Seq { parts: vec![X::Rep(Box::new(e))], commit: None }]
            }
            Kind::Plain => g.block(i, true, depth, false),
            Kind::Atom => { let e = g.consuming(i, true, 1, true); vec![Seq { parts: vec![e], commit: None }] }
            Kind::Pratt => { let mut k: Vec<usize> = (i + 1..b).collect(); for a in (1..k.len()).rev() { let c = g.r.below(a + 1); k.swap(a, c); } k.into_iter().map(|j| Seq { parts: vec![X::Rule(j)], commit: None }).collect() }
            k => { let op = if g.r.chance(2, 3) { g.tok() } else { let e = g.expr(b, true, 1, true); if g.nullable(&e) { let t = g.tok(); X::Block(vec![Seq { parts: vec![e, t], commit: None }]) } else { e } };
                let ex = X::Rule(prat.unwrap());
                vec![Seq { parts: match k { Kind::Prefix(_) => vec![op, ex], Kind::Postfix(_) => vec![ex, op], _ => vec![ex.clone(), op, ex] }, commit: None }] }
        };
        let null = body.iter().any(|s| g.seq_nullable(s));
        g.null[i] = match g.rules[i].kind { Kind::Pratt => (i + 1..b).any(|j| g.rules[j].kind == Kind::Atom && g.null[j]), _ => null };
        g.known[i] = true; g.rules[i].body = body;
    }
    let (toks, rules) = (g.toks, g.rules);
    let binder = if rng.chance(1, 2) { 0 } else { rng.range(1, 3) };
    Grammar { toks, rules, binder, seed, cachy }
}

// ---- the grammar as a file ----
impl Grammar {
    fn show(&self, me: usize, x: &X, o: &mut String, r: &mut Rng) {
        let call = |s: &Self, o: &mut String, r: &mut Rng, name: &str, args: &[&X]| { *o += "<"; *o += name; for a in args { *o += " "; s.show(me, a, o, r); } *o += ">"; };
        match x {
            // a literal token is known by its text, others by their name
            X::Tok(i) => match self.toks[*i].pat { Pat::Lit(l) => *o += &format!("'{}'", l), _ => *o += self.toks[*i].name },
            X::Rule(i) => *o += &self.rules[*i].name,
            X::Call(i, a) => { let v: Vec<&X> = a.iter().collect(); call(self, o, r, &self.rules[*i].name, &v) }
            X::Par(i) => *o += &self.rules[me].params[*i],
            X::Block(alts) => { *o += "{"; self.show_alts(me, alts, o, r); *o += "}"; }
            X::Opt(e) => { self.show(me, e, o, r); *o += "?"; } X::Rep(e) => { self.show(me, e, o, r); *o += "*"; }
            X::Not(e) => call(self, o, r, "not", &[e]), X::Eof => *o += "<eof>", X::Any => *o += "<any>",
            X::Layer(a, b) => call(self, o, r, "layer", &[a, b]), X::Skip(a, b) => call(self, o, r, "with_skip", &[a, b]), X::Inject(a, b) => call(self, o, r, "inject", &[a, b]),
            X::Enter(c, e) => { *o += &format!("<enter '{}' ", CONTEXTS[*c]); self.show(me, e, o, r); *o += ">"; }
            X::Exit(c, e) => { *o += &format!("<exit '{}' ", CONTEXTS[*c]); self.show(me, e, o, r); *o += ">"; }
            X::In(c) => *o += &format!("<is_in '{}'>", CONTEXTS[*c]),
            X::Prev(v) => { *o += "<prev_is"; for i in v { *o += " "; *o += &self.rules[*i].name; } *o += ">"; }
        }
    }
    fn show_alts(&self, me: usize, alts: &[Seq], o: &mut String, r: &mut Rng) {
        for (i, s) in alts.iter().enumerate() {
            if i > 0 { *o += " |"; }
            for (j, p) in s.parts.iter().enumerate() { if s.commit == Some(j) { *o += " <commit>"; } *o += " "; self.show(me, p, o, r); }
            if s.commit == Some(s.parts.len()) { *o += " <commit>"; }
        }
        *o += " ";
    }
    /// Another grammar whose parser has the same size.
    pub fn twist(&mut self, k: usize) {
        if k == 0 { return }
        let one: Vec<usize> = (0..self.toks.len()).filter(|i| match self.toks[*i].pat { Pat::Lit(l) => l.len() == 1 && !"+*.".contains(l), _ => false }).collect();
        let (a, b) = (one[k % one.len()], one[(k + 1 + k / 7) % one.len()]);
        let p = self.toks[a].pat; self.toks[a].pat = self.toks[b].pat; self.toks[b].pat = p;
    }
    pub fn text(&self) -> String { self.text_with("fn whitespace_binder() {}", "") }
    /// Names of the nodes and the tokens an `ast` block may speak of.
    pub fn node_names(&self) -> Vec<String> { self.rules.iter().filter(|r| r.public && r.ty.is_none()).map(|r| r.name.clone()).collect() }
    pub fn tok_names(&self) -> Vec<String> { self.toks.iter().map(|t| t.name.to_string()).collect() }
    pub fn text_with(&self, binder: &str, ast: &str) -> String {
        let mut r = Rng::new(self.seed + 1);
        let mut o = String::from("tokenizer {\n");
        for t in &self.toks {
            let re = match t.pat { Pat::Ws => "r\"\\s+\"".to_string(), Pat::Comment => "r\"//.*\"".into(), Pat::Word => "r\"\\w+\"".into(), Pat::Lower => "r\"[a-z]+\"".into(), Pat::Num => "r\"\\d+\"".into(), Pat::Str => "r#\"\"[^\"]*\"\"#".into(), Pat::Fence => "r\"#+\" 'fence'".into(), Pat::Lit(l) => format!("'{}'", l) };
            o += &format!("  {}{}{} {}\n", if t.skip { "#[skip] " } else { "" }, if t.contextual { "#[contextual] " } else { "" }, t.name, re);
        }
        o += "}\n\n";
        let mut rules: Vec<usize> = (1..self.rules.len()).collect();
        for i in (1..rules.len()).rev() { let j = r.below(i + 1); rules.swap(i, j); }
        rules.insert(0, 0);
        for i in rules {
            let u = &self.rules[i]; let mut at: Vec<String> = Vec::new();
            if u.cached { at.push("cached".into()) } if u.replaceable { at.push("replaceable".into()) } if u.replaces { at.push("replaces".into()) }
            if let Some(t) = u.ty { at.push(format!("type({})", self.rules[t].name)) }
            let pr = |v: Option<u32>| v.map(|p| format!("({})", p)).unwrap_or_default();
            match u.kind { Kind::Plain => {} Kind::Pratt => at.push("pratt".into()), Kind::Atom => at.push("atom".into()), Kind::Prefix(v) => at.push(format!("prefix{}", pr(v))), Kind::Postfix(v) => at.push(format!("postfix{}", pr(v))), Kind::Bin(v) => at.push(format!("bin({})", v)) }
            if !at.is_empty() { o += &format!("#[{}]\n", at.join(", ")); }
            o += &format!("{}rule {}{} {{", if u.public { "pub " } else { "" }, u.name, if u.params.is_empty() { String::new() } else { format!("({})", u.params.join(", ")) });
            self.show_alts(i, &u.body, &mut o, &mut r); o += "}\n\n";
        }
        if self.binder > 0 || !ast.is_empty() { o += &format!("verbatim r#####\"\n{}\n\"#####\n", binder); }
        o += ast;
        o
    }
}

// ---- what the grammar says ----
#[derive(Clone, Debug, PartialEq)]
pub struct Lx { pub ty: Option<usize>, pub start: usize, pub len: usize }
pub fn fence(s: &str) -> Option<usize> { let n = s.bytes().take_while(|b| *b == b'#').count(); s[n..].find(&s[..n]).map(|i| i + 2 * n) }
impl Grammar {
    fn valid(&self, s: &str) -> Option<(usize, usize)> {
        let run = |f: &dyn Fn(char) -> bool| s.chars().take_while(|c| f(*c)).map(|c| c.len_utf8()).sum::<usize>();
        let mut best: Option<(usize, usize)> = None;
        for (i, t) in self.toks.iter().enumerate() {
            if t.contextual { continue }
            let n = match t.pat {
                Pat::Ws => run(&|c| c.is_whitespace()), Pat::Comment => if s.starts_with("//") { run(&|c| c != '\n') } else { 0 }, Pat::Word => run(&|c| c.is_alphanumeric() || c == '_'), Pat::Lower => run(&|c| c >= 'a' && c <= 'z'),
                Pat::Num => run(&|c| c.is_ascii_digit()), Pat::Str => if s.starts_with('"') { s[1..].find('"').map(|i| i + 2).unwrap_or(0) } else { 0 }, Pat::Lit(l) => if s.starts_with(l) { l.len() } else { 0 }, Pat::Fence => run(&|c| c == '#'),
            };
            if n > 0 && best.map(|b| n > b.1).unwrap_or(true) { best = Some((i, n)); }
        }
        match best { Some((i, _)) if self.toks[i].pat == Pat::Fence => fence(s).map(|n| (i, n)), b => b }
    }
    pub fn lex(&self, text: &str) -> Vec<Lx> {
        let mut v = Vec::new(); let mut at = 0;
        while at < text.len() {
            let s = &text[at..];
            let (ty, len) = match self.valid(s) { Some((i, n)) => (Some(i), n), None => { let mut n = 0; for c in s.chars() { n += c.len_utf8(); if n < s.len() && self.valid(&s[n..]).is_some() { break } } (None, n) } };
            v.push(Lx { ty, start: at, len }); at += len;
        }
        v
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { Error, Tok(usize), Rule(usize) }
#[derive(Clone, Debug)]
enum Item { Node(Ty, Vec<Item>), Leaf(Ty, usize) }
struct TooLong;
type Res = Result<Option<usize>, TooLong>;
#[derive(Clone)]
struct Env<'g> { args: Vec<(&'g X, Option<std::rc::Rc<Env<'g>>>)>, me: usize }
struct Ref<'g> { g: &'g Grammar, text: &'g str, toks: Vec<Lx>, prev: Option<Ty>, repl: Option<Ty>, ctx: [bool; 3], steps: u64, depth: u32 }
impl<'g> Ref<'g> {
    fn ty(&self, r: usize) -> Ty { match self.g.rules[r].ty { Some(j) => Ty::Rule(j), None => Ty::Rule(r) } }
    fn tick(&mut self) -> Result<(), TooLong> { self.steps += 1; if self.steps > 60_000 || self.depth > 400 { Err(TooLong) } else { Ok(()) } }
    fn x(&mut self, x: &'g X, env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize, out: &mut Vec<Item>) -> Res {
        self.tick()?; self.depth += 1;
        let n = out.len(); let r = self.x_(x, env, at, end, out)?; if r.is_none() { out.truncate(n); }
        self.depth -= 1; Ok(r)
    }
    fn look(&mut self, x: &'g X, env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize) -> Res { let mut o = Vec::new(); self.x(x, env, at, end, &mut o) }
    fn bump(&self, at: usize, out: &mut Vec<Item>) -> usize { out.push(Item::Leaf(self.toks[at].ty.map(Ty::Tok).unwrap_or(Ty::Error), 1)); at + 1 }
    fn x_(&mut self, x: &'g X, env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize, out: &mut Vec<Item>) -> Res {
        let g = self.g;
        Ok(match x {
            X::Tok(t) => {
                if at >= end { return Ok(None) }
                if !g.toks[*t].contextual { if self.toks[at].ty == Some(*t) { Some(self.bump(at, out)) } else { None } }
                else {
                    let lit = match g.toks[*t].pat { Pat::Lit(l) => l, _ => unreachable!() };
                    if !self.text[self.toks[at].start..].starts_with(lit) { return Ok(None) }
                    let stop = self.toks[at].start + lit.len(); let mut i = at;
                    while i < end && self.toks[i].start + self.toks[i].len < stop { i += 1; }
                    if i < end && self.toks[i].start + self.toks[i].len == stop { out.push(Item::Leaf(Ty::Tok(*t), i + 1 - at)); Some(i + 1) } else { None }
                }
            }
            X::Any => if at < end { Some(self.bump(at, out)) } else { None },
            X::Eof => if at >= end { Some(at) } else { None },
            X::Rule(i) => return self.rule(*i, &None, at, end, out),
            X::Call(i, args) => { let e = Env { args: args.iter().map(|a| match a { X::Par(k) => env.as_ref().unwrap().args[*k].clone(), a => (a, env.clone()) }).collect(), me: *i }; return self.rule(*i, &Some(std::rc::Rc::new(e)), at, end, out) }
            X::Par(k) => { let (a, e) = env.as_ref().unwrap().args[*k].clone(); return self.x(a, &e, at, end, out) }
            X::Block(alts) => return self.alts(alts, env, at, end, out),
            X::Opt(e) => Some(self.x(e, env, at, end, out)?.unwrap_or(at)),
            X::Rep(e) => { let mut at = at; while let Some(n) = self.x(e, env, at, end, out)? { at = n; self.tick()?; } Some(at) }
            X::Not(e) => if self.look(e, env, at, end)?.is_some() { None } else { Some(at) },
            X::Layer(l, e) => match self.look(l, env, at, end)? { None => None, Some(stop) => {
                let got = self.x(e, env, at, stop, out)?.unwrap_or(at);
                if got < stop { let mut junk = Vec::new(); let mut i = got; while i < stop { i = self.bump(i, &mut junk); } out.push(Item::Node(Ty::Error, junk)); }
                Some(stop) } },
            X::Skip(first, body) => { let mut junk: Vec<Item> = Vec::new(); let mut at = at; loop {
                if self.look(first, env, at, end)?.is_some() { let mut o = Vec::new(); if let Some(n) = self.x(body, env, at, end, &mut o)? { if !junk.is_empty() { out.push(Item::Node(Ty::Error, junk)); } out.extend(o); return Ok(Some(n)) } }
                if at >= end { return Ok(None) }
                at = self.bump(at, &mut junk);
            } }
            X::Inject(a, b) => { let mut pre = Vec::new(); let mid = match self.x(a, env, at, end, &mut pre)? { None => return Ok(None), Some(m) => m };
                let mut o = Vec::new(); let fin = match self.x(b, env, mid, end, &mut o)? { None => return Ok(None), Some(m) => m };
                if mid == at { out.extend(pre); out.extend(o); } else {
                    match &mut o[0] { Item::Node(_, kids) => { pre.append(kids); *kids = pre; } _ => unreachable!() }
                    out.extend(o); }
                Some(fin) }
            X::Enter(c, e) => { let old = self.ctx[*c]; self.ctx[*c] = true; let r = self.x(e, env, at, end, out)?; self.ctx[*c] = old; r }
            X::Exit(c, e) => { let old = self.ctx[*c]; self.ctx[*c] = false; let r = self.x(e, env, at, end, out)?; self.ctx[*c] = old; r }
            X::In(c) => if self.ctx[*c] { Some(at) } else { None },
            X::Prev(v) => if self.prev.map(|p| v.iter().any(|i| self.ty(*i) == p)).unwrap_or(false) { Some(at) } else { None },
        })
    }
    fn alts(&mut self, alts: &'g [Seq], env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize, out: &mut Vec<Item>) -> Res {
        for s in alts { self.tick()?; let n = out.len(); if let Some(r) = self.seq(s, env, at, end, out)? { return Ok(Some(r)) } out.truncate(n); }
        Ok(None)
    }
    fn seq(&mut self, s: &'g Seq, env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize, out: &mut Vec<Item>) -> Res {
        let mut at = at;
        for (i, p) in s.parts.iter().enumerate() {
            match self.x(p, env, at, end, out)? { Some(n) => at = n, None => { if s.commit.map(|c| i >= c).unwrap_or(false) { out.push(Item::Node(Ty::Error, vec![])); return Ok(Some(at)) } return Ok(None) } }
        }
        Ok(Some(at))
    }
    fn rule(&mut self, i: usize, env: &Option<std::rc::Rc<Env<'g>>>, at: usize, end: usize, out: &mut Vec<Item>) -> Res {
        self.tick()?;
        let u = &self.g.rules[i];
        if u.kind == Kind::Pratt { self.depth += 1; let r = self.pratt(i, at, end, 0, out)?; self.depth -= 1; return Ok(r) }
        if !u.public { return self.alts(&u.body, env, at, end, out) }
        if u.replaces { let r = self.alts(&u.body, env, at, end, out)?; if r.is_some() { self.repl = Some(self.ty(i)); } return Ok(r) }
        if u.replaceable { self.repl = None; }
        let mut kids = Vec::new();
        let r = self.alts(&u.body, env, at, end, &mut kids)?;
        if r.is_some() {
            let mut ty = self.ty(i);
            self.prev = Some(ty);
            if u.replaceable { if let Some(t) = self.repl.take() { ty = t; } }
            out.push(Item::Node(ty, kids));
        }
        Ok(r)
    }
    fn pratt(&mut self, p: usize, at: usize, end: usize, min: u32, out: &mut Vec<Item>) -> Res {
        self.tick()?; self.depth += 1;
        let g = self.g;
        let members: Vec<usize> = g.rules[p].body.iter().map(|s| match s.parts[0] { X::Rule(j) => j, _ => unreachable!() }).collect();
        let base = out.len(); let mut at = at; let mut found = false;
        for &j in &members { if g.rules[j].kind == Kind::Atom { if let Some(n) = self.rule(j, &None, at, end, out)? { at = n; found = true; break } } }
        if !found { for &j in &members { if let Kind::Prefix(pr) = g.rules[j].kind {
            let mut kids = Vec::new();
            if let Some(n) = self.x(&g.rules[j].body[0].parts[0], &None, at, end, &mut kids)? { if let Some(n) = self.pratt(p, n, end, pr.unwrap_or(999), &mut kids)? { at = n; found = true; self.prev = Some(self.ty(j)); out.push(Item::Node(self.ty(j), kids)); break } }
        } } }
        if !found { self.depth -= 1; return Ok(None) }
        'more: loop {
            self.tick()?;
            for &j in &members {
                let (pr, rhs) = match g.rules[j].kind { Kind::Postfix(pr) => (pr.unwrap_or(999), false), Kind::Bin(pr) => (pr, true), _ => continue };
                if pr < min { continue }
                let mut op = Vec::new();
                if let Some(n) = self.x(&g.rules[j].body[0].parts[1], &None, at, end, &mut op)? {
                    at = n; let mut kids: Vec<Item> = out.drain(base..).collect(); kids.extend(op);
                    if rhs { match self.pratt(p, at, end, pr + 1, &mut kids)? { Some(n) => at = n, None => kids.push(Item::Node(Ty::Error, vec![])) } }
                    self.prev = Some(self.ty(j)); out.push(Item::Node(self.ty(j), kids));
                    continue 'more
                }
            }
            self.depth -= 1; return Ok(Some(at))
        }
    }
}
/// How many of the whitespace tokens next to a node belong to it.
pub fn binder(which: usize, ty: Ty, name: &str, spaces: &[(bool, &str)], leading: bool) -> usize {
    match which {
        1 => if leading && ty != Ty::Error { spaces.iter().rev().take_while(|s| s.1.matches('\n').count() < 2).count() } else { 0 },
        2 => if !leading && name.len() % 2 == 0 { spaces.iter().take_while(|s| !s.1.contains('\n')).count() } else { 0 },
        3 => if leading { spaces.iter().rev().take_while(|s| s.0).count() } else { spaces.len().min(1) },
        _ => 0,
    }
}
/// The tree of a text as (depth, type, start, end), or nothing if following the grammar takes too long.
pub fn expected(g: &Grammar, text: &str) -> Option<Vec<(u32, String, u32, u32)>> {
    let all = g.lex(text);
    let toks: Vec<Lx> = all.iter().filter(|l| l.ty.map(|t| !g.toks[t].skip).unwrap_or(true)).cloned().collect();
    let n = toks.len();
    let mut r = Ref { g, text, toks, prev: None, repl: None, ctx: [false; 3], steps: 0, depth: 0 };
    let mut out = Vec::new();
    let got = r.rule(0, &None, 0, n, &mut out).ok()?;
    if got.is_none() { out = vec![Item::Node(Ty::Rule(0), vec![])]; if g.rules[0].ty.is_some() { return None } }
    let stop = got.unwrap_or(0);
    let (ty, mut kids) = match out.pop() { Some(Item::Node(ty, k)) => (ty, k), _ => unreachable!() };
    if got.is_none() || stop < n { let mut junk = Vec::new(); for i in stop..n { r.bump(i, &mut junk); } kids.push(Item::Node(Ty::Error, junk)); }
    let mut l = Layout { g, text, all: &all, at: 0, out: Vec::new(), file: r.ty(0) };
    l.node(ty, &kids, 0);
        Some(l.out.into_iter().map(|(d, t, a, b)| (d, name(g, t), a, b)).collect())
}
fn name(g: &Grammar, t: Ty) -> String { match t { Ty::Error => "ERROR".into(), Ty::Tok(i) => g.toks[i].name.to_uppercase(), Ty::Rule(i) => g.rules[i].name.to_uppercase() } }
struct Layout<'g> { g: &'g Grammar, text: &'g str, all: &'g [Lx], at: usize, out: Vec<(u32, Ty, u32, u32)>, file: Ty }
impl<'g> Layout<'g> {
    fn spaces(&self) -> Vec<(bool, &'g str)> { self.all[self.at..].iter().take_while(|l| l.ty.map(|t| self.g.toks[t].skip).unwrap_or(false)).map(|l| (self.g.toks[l.ty.unwrap()].pat == Pat::Comment, &self.text[l.start..l.start + l.len])).collect() }
    fn bind(&self, ty: Ty, leading: bool) -> usize { let s = self.spaces(); if ty == self.file { s.len() } else { binder(self.g.binder, ty, &name(self.g, ty), &s, leading) } }
    fn raw(&mut self, d: u32, n: usize) { for _ in 0..n { let l = &self.all[self.at]; self.out.push((d, l.ty.map(Ty::Tok).unwrap_or(Ty::Error), l.start as u32, (l.start + l.len) as u32)); self.at += 1; } }
    fn pos(&self) -> u32 { self.all.get(self.at).map(|l| l.start).unwrap_or(self.text.len()) as u32 }
    fn node(&mut self, ty: Ty, kids: &[Item], d: u32) {
        let me = self.out.len(); let start = self.pos(); self.out.push((d, ty, start, start));
        for k in kids {
            match k {
                Item::Node(t, ks) => { let n = self.spaces().len() - self.bind(*t, true); self.raw(d + 1, n); self.node(*t, ks, d + 1); }
                Item::Leaf(t, n) => { let s = self.spaces().len(); self.raw(d + 1, s); let a = self.pos(); self.at += n; let b = self.all[self.at - 1].start + self.all[self.at - 1].len; self.out.push((d + 1, *t, a, b as u32)); }
            }
        }
        let n = if d == 0 { self.spaces().len() } else { self.bind(ty, false) }; self.raw(d + 1, n);
        self.out[me].3 = self.pos();
    }
}

// ---- texts ----
impl Grammar {
    fn spell(&self, t: usize, r: &mut Rng) -> String { match self.toks[t].pat { Pat::Lit(l) => l.into(), Pat::Ws => " ".into(), Pat::Comment => "// c\n".into(), Pat::Word => r.pick(&["x", "foo", "fnord", "let", "union", "a1", "é"]).to_string(), Pat::Lower => r.pick(&["x", "foo", "lets"]).to_string(), Pat::Num => r.pick(&["1", "23"]).to_string(), Pat::Str => r.pick(&["\"s\"", "\"\"", "\"a b\""]).to_string(), Pat::Fence => r.pick(&["#a#", "##", "##x # y##"]).to_string() } }
    /// Something like a sentence of the expression (choices and lookaheads are guesses).
    fn sentence(&self, x: &X, env: &[&X], r: &mut Rng, depth: usize, o: &mut Vec<String>) {
        if depth == 0 || o.len() > 60 { return }
        let d = depth - 1;
        match x {
            X::Tok(t) => o.push(self.spell(*t, r)), X::Any => { let k = r.below(self.toks.len()); o.push(self.spell(k, r)) } X::Eof | X::Not(_) | X::In(_) | X::Prev(_) => {}
            X::Rule(i) => self.sent_rule(*i, &[], r, d, o), X::Call(i, a) => { let v: Vec<&X> = a.iter().map(|a| match a { X::Par(k) => env.get(*k).cloned().unwrap_or(&X::Eof), a => a }).collect(); self.sent_rule(*i, &v, r, d, o) }
            X::Par(k) => if let Some(a) = env.get(*k) { self.sentence(a, &[], r, d, o) },
            X::Block(alts) => self.sent_alts(alts, env, r, d, o), X::Opt(e) => if r.chance(1, 2) { self.sentence(e, env, r, d, o) }, X::Rep(e) => for _ in 0..r.below(4) { self.sentence(e, env, r, d, o) },
            X::Layer(_, e) | X::Skip(_, e) | X::Enter(_, e) | X::Exit(_, e) => self.sentence(e, env, r, d, o), X::Inject(a, b) => { self.sentence(a, env, r, d, o); self.sentence(b, env, r, d, o) }
        }
    }
    fn sent_alts(&self, alts: &[Seq], env: &[&X], r: &mut Rng, d: usize, o: &mut Vec<String>) { let s = r.pick(alts); let stop = if let (Some(c), true) = (s.commit, r.chance(1, 8)) { c } else { s.parts.len() }; for p in &s.parts[..stop] { self.sentence(p, env, r, d, o) } }
    fn sent_rule(&self, i: usize, env: &[&X], r: &mut Rng, d: usize, o: &mut Vec<String>) {
        if self.rules[i].kind == Kind::Pratt {
            let m: Vec<usize> = self.rules[i].body.iter().map(|s| if let X::Rule(j) = s.parts[0] { j } else { 0 }).collect();
            let atoms: Vec<usize> = m.iter().cloned().filter(|j| self.rules[*j].kind == Kind::Atom).collect(); let others: Vec<usize> = m.iter().cloned().filter(|j| self.rules[*j].kind != Kind::Atom).collect();
            let j = if d < 3 || others.is_empty() || r.chance(2, 5) { *r.pick(&atoms) } else { *r.pick(&others) };
            return self.sent_alts(&self.rules[j].body, &[], r, d, o)
        }
        self.sent_alts(&self.rules[i].body, env, r, d, o)
    }
    /// The best of a few tries: the one with the least text in errors.
    pub fn gen_text(&self, r: &mut Rng) -> String {
        let n = *r.pick(&[1, 3, 6]); let mut best = (u32::max_value(), String::new());
        for _ in 0..n { let t = self.try_text(r); if let Some(v) = expected(self, &t) { let bad: u32 = v.iter().filter(|x| x.1 == "ERROR").map(|x| 1 + x.3 - x.2).sum(); let score = bad * 100 / (1 + t.len() as u32) + if t.len() < 4 { 60 } else { 0 }; if score < best.0 { best = (score, t); } } }
        best.1
    }
    /// A few tokens.
    pub fn short_text(&self, r: &mut Rng) -> String {
        if r.chance(1, 4) { let mut o = Vec::new(); let d = *r.pick(&[4, 6, 8]); self.sent_rule(0, &[], r, d, &mut o); return o.join(if r.chance(1, 3) { "" } else { " " }) }
        let real: Vec<usize> = (0..self.toks.len()).filter(|&i| !self.toks[i].skip || r.chance(1, 6)).collect();
        let few: Vec<usize> = if r.chance(1, 2) { (0..3).map(|_| *r.pick(&real)).collect() } else { real };
        let tight = r.chance(1, 4); let mut s = String::new();
        for _ in 0..r.below(8) { let t = *r.pick(&few); s += &self.spell(t, r); if !tight || r.chance(1, 4) { s.push(' '); } }
        s
    }
    fn try_text(&self, r: &mut Rng) -> String {
        let mut o = Vec::new();
        let d = *r.pick(&[6, 9, 14]);
        if r.chance(9, 10) { let i = if r.chance(4, 5) { 0 } else { r.below(self.rules.len()) }; self.sent_rule(i, &[], r, d, &mut o); }
        for _ in 0..(if r.chance(1, 2) { 0 } else { r.below(4) }) { let t = r.below(self.toks.len()); let w = self.spell(t, r); let at = r.below(o.len() + 1); o.insert(at, w); }
        if r.chance(1, 4) && !o.is_empty() { let i = r.below(o.len()); o.remove(i); }
        let mut s = String::new();
        let tight = r.chance(1, 3);
        for w in o { s += &w; if !tight || r.chance(1, 3) { s += *r.pick(&[" ", " ", " ", "\n", "  ", " \n\n ", " // k\n", "\n// a\n// b\n"]); } }
        s
    }
    pub fn snippet(&self, r: &mut Rng) -> String { match r.below(6) { 0 => String::new(), 1 => r.pick(&[" ", "\n", "é", "$", "\"", "#", "// x\n", "\n\n"]).to_string(), 2 | 3 => { let mut o = Vec::new(); let i = r.below(self.rules.len()); self.sent_rule(i, &[], r, 6, &mut o); o.join(" ") } _ => { let t = r.below(self.toks.len()); self.spell(t, r) } } }
}

// ---- the real parser for a grammar: the generator's output, loaded without compiling it ----
struct Loaded { def: ParserDefinition, lexer: RegexLexer, infos: HashMap<u16, NodeTypeInfo>, lang: &'static AtomicPtr<Language> }
impl Loaded { fn lang(&self) -> &Language { unsafe { &*self.lang.load(Ordering::SeqCst) } } }
impl LanguageImpl for Loaded {
    fn parse(&self, text: Text, metrics: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn std::any::Any + Sync + Send>> { rt::parse(self.lang(), &self.lexer, &self.def, text, metrics, b) }
    fn reparse(&self, inc: &dyn std::any::Any, edit: &TextEdit, t: Text, metrics: &Metrics, b: &mut TreeBuilder) -> Option<Box<dyn std::any::Any + Sync + Send>> { rt::reparse(self.lang(), &self.lexer, &self.def, inc, edit, t, metrics, b) }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { match self.infos.get(&(ty.0 as u16)) { Some(i) => NodeTypeInfo { name: i.name, whitespace_like: i.whitespace_like }, None => panic!("Unknown NodeType {:?}", ty) } }
}
fn unquote(s: &str) -> String {
    let mut o = String::new(); let mut it = s.chars();
    while let Some(c) = it.next() { if c != '\\' { o.push(c); continue } match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some('0') => o.push('\0'), Some('u') => { let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect(); o.push(u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32).unwrap_or('?')) } Some(c) => o.push(c), None => {} } }
    o
}
/// What the parsers of P02 call.
pub fn outer_binder(which: usize, error: bool, name: &str, spaces: &[(bool, &str)], leading: bool) -> usize { binder(which, if error { Ty::Error } else { Ty::Tok(0) }, name, spaces, leading) }
static mut NAMES: Vec<(NodeType, &'static str)> = Vec::new();
static mut BINDER: usize = 0;
fn ty_of(n: &str) -> Ty { if n == "ERROR" { Ty::Error } else { Ty::Tok(0) } }
fn real_binder(ty: NodeType, spaces: Vec<(NodeType, &str)>, leading: bool) -> usize {
    let find = |t: NodeType| unsafe { NAMES.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or("ERROR") };
    let s: Vec<(bool, &str)> = spaces.iter().map(|s| (find(s.0) == "COMMENT", s.1)).collect();
    let n = find(ty); binder(unsafe { BINDER }, ty_of(n), n, &s, leading)
}
/// Runs the real generator on the grammar and makes a language of what it wrote.
pub fn load(g: &Grammar) -> Option<Language> {
    let text = g.text();
    let src = match lang_fall::analyse(text.clone()).analyse(fall_gen::generate) { Ok(s) => s, Err(e) => ffi::fail(&format!("generate-fails: {} for the grammar\n{}", e, text)) };
    load_source(g, &src, &text)
}
/// Tokens of a piece of Rust: words, strings (with their value), single punctuation characters.
#[derive(Clone, Debug, PartialEq)]
pub enum RsTok { Word(String), Str(String), P(char) }
pub fn rust_tokens(s: &str) -> Vec<RsTok> {
    let c: Vec<char> = s.chars().collect(); let mut v = Vec::new(); let mut i = 0;
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() { i += 1; continue }
        if ch == '/' && at(i + 1) == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue }
        if ch == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') {
            let mut j = i + 1; while at(j) == '#' { j += 1; }
            if at(j) == '"' {
                let h = j - i - 1; let mut k = j + 1;
                while k < c.len() && !(c[k] == '"' && (1..=h).all(|q| at(k + q) == '#')) { k += 1; }
                v.push(RsTok::Str(c[j + 1..k.min(c.len())].iter().collect())); i = k + 1 + h; continue
            }
        }
        if ch == '"' { let mut j = i + 1; while j < c.len() && c[j] != '"' { if c[j] == '\\' { j += 1; } j += 1; } let raw: String = c[i + 1..j.min(c.len())].iter().collect(); v.push(RsTok::Str(unquote(&raw))); i = j + 1; continue }
        if ch.is_alphanumeric() || ch == '_' { let mut j = i; while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') { j += 1; } v.push(RsTok::Word(c[i..j].iter().collect())); i = j; continue }
        v.push(RsTok::P(ch)); i += 1;
    }
    v
}
/// None: the generated text has a shape this reader does not know (it says nothing about the property then).
pub fn load_source(g: &Grammar, src: &str, text: &str) -> Option<Language> {
    use RsTok::*;
    let t = rust_tokens(src);
    let word = |i: usize| match t.get(i) { Some(Word(w)) => w.as_str(), _ => "" };
    let p = |i: usize, c: char| t.get(i) == Some(&P(c));
    // the name a path ends with, and the index after it
    let path = |mut i: usize| -> (String, usize) { let mut last = String::new(); loop { while p(i, ':') || p(i, '&') { i += 1; } if word(i).is_empty() { return (last, i) } last = word(i).to_string(); i += 1; if !p(i, ':') { return (last, i) } } };
    let mut tys: HashMap<String, NodeType> = HashMap::new(); tys.insert("ERROR".into(), fall_tree::ERROR);
    let mut infos: HashMap<u16, NodeTypeInfo> = HashMap::new(); infos.insert(fall_tree::ERROR.0 as u16, NodeTypeInfo { name: "ERROR", whitespace_like: false });
    let mut lex = Vec::new(); let mut order = vec![]; let mut strings: HashMap<&str, &str> = HashMap::new(); let mut json: Option<&str> = None; let mut has_binder = false;
    let broken = |n: &str| -> ! { ffi::fail(&format!("generated-broken: {} has no constant in the parser of\n{}", n, text)) };
    for i in 0..t.len() {
        if word(i) == "const" && p(i + 2, ':') { let mut j = i + 3; while j < t.len() && !p(j, ';') { if word(j) == "NodeType" && p(j + 1, '(') { if let Ok(v) = word(j + 2).parse::<u16>() { tys.insert(word(i + 1).to_string(), NodeType(v as _)); unsafe { NAMES.push((NodeType(v as _), Box::leak(word(i + 1).to_string().into_boxed_str()))); } } } j += 1; } }
        if word(i) == "let" && p(i + 2, '=') { if let Some(Str(s)) = t.get(i + 3) { strings.insert(word(i + 1), s); } }
    }
    if tys.len() < 2 { return None }
    for i in 0..t.len() {
        match word(i) {
            "LexRule" if p(i + 1, ':') && p(i + 2, ':') && word(i + 3) == "new" && p(i + 4, '(') => {
                let (ty, j) = path(i + 5); if !p(j, ',') { return None }
                let re = match t.get(j + 1) { Some(Str(s)) => s, _ => return None }; if !p(j + 2, ',') { return None }
                let f: Option<fall_parse::CustomLexRule> = match word(j + 3) { "Some" => Some(fence), "None" => None, _ => return None };
                let ty = match tys.get(&ty) { Some(t) => *t, None => broken(&ty) };
                lex.push(LexRule::new(ty, re, f));
            }
            "parser_from_str" if p(i + 1, '(') => json = match t.get(i + 2) { Some(Str(s)) => Some(s), Some(Word(w)) => strings.get(w.as_str()).cloned(), _ => None },
            "node_types" if p(i + 1, ':') && word(i + 2) == "vec" && p(i + 3, '!') => { let mut j = i + 5; while j < t.len() && !p(j, ']') { let (n, k) = path(j); if n.is_empty() { return None } order.push(match tys.get(&n) { Some(t) => *t, None => broken(&n) }); j = k; if p(j, ',') { j += 1; } } }
            "whitespace_binder" if (p(i + 1, ',') || p(i + 1, ':')) && word(i.wrapping_sub(1)) != "fn" => has_binder = true,
            "NodeTypeInfo" if p(i + 1, '{') => {
                // PATTERN => [path::]NodeTypeInfo { name: "..", whitespace_like: .. }
                let mut j = i; while j > 0 && !p(j, '>') { j -= 1; } if j < 2 || i - j > 6 { continue }
                let mut label = None; let mut ws = None; let mut k = i; while k < t.len() && !p(k, '}') { match word(k) { "name" => if let Some(Str(s)) = t.get(k + 2) { label = Some(s.clone()) }, "whitespace_like" => ws = match word(k + 2) { "true" => Some(true), "false" => Some(false), _ => None }, _ => {} } k += 1; }
                let (label, ws) = match (label, ws) { (Some(l), Some(w)) => (l, w), _ => return None };
                if let Some(ty) = tys.get(word(j - 2)) { infos.insert(ty.0 as u16, NodeTypeInfo { name: Box::leak(label.into_boxed_str()), whitespace_like: ws }); }
            }
            _ => {}
        }
    }
    let json = json?;
    if lex.is_empty() || order.is_empty() { return None }
    if has_binder != (g.binder > 0) { ffi::fail(&format!("generated-broken: the whitespace binder is {} in the parser of\n{}", if has_binder { "used" } else { "not used" }, text)); }
    unsafe { BINDER = g.binder; }
    let def = ParserDefinition { node_types: order, syntactical_rules: rt::parser_from_str(json), whitespace_binder: if g.binder > 0 { real_binder } else { ParserDefinition::default().whitespace_binder } };
    let slot: &'static AtomicPtr<Language> = Box::leak(Box::new(AtomicPtr::new(std::ptr::null_mut())));
    let lang = Language::new(Loaded { def, lexer: RegexLexer::new(lex), infos, lang: slot });
    slot.store(Box::into_raw(Box::new(lang.clone())), Ordering::SeqCst);
    Some(lang)
}
pub fn actual(f: &File) -> Vec<(u32, String, u32, u32)> {
    fn go(n: Node, f: &File, d: u32, out: &mut Vec<(u32, String, u32, u32)>) { let (a, b) = crate::edit::rg(n.range()); out.push((d, f.language().node_type_info(n.ty()).name.to_string(), a, b)); for c in n.children() { go(c, f, d + 1, out) } }
    let mut v = Vec::new(); go(f.root(), f, 0, &mut v); v
}
pub fn difference(want: &[(u32, String, u32, u32)], got: &[(u32, String, u32, u32)]) -> Option<String> {
    if want == got { return None }
    let i = (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)).unwrap();
    let sh = |v: &[(u32, String, u32, u32)]| v.iter().map(|t| format!("{}{} {}..{}", "  ".repeat(t.0.min(20) as usize), t.1, t.2, t.3)).collect::<Vec<_>>().join("\n");
    Some(format!("node {}: the grammar says {:?}, the parser made {:?}\nexpected:\n{}\nactual:\n{}", i, want.get(i), got.get(i), sh(want), sh(got)))
}
