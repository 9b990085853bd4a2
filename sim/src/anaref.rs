// What the editor services of a grammar should answer: computed from the syntax tree alone, without the query database and
// the generated accessors of the code under test.
use std::collections::{BTreeMap, HashMap};
use fall_tree::{File, Node};

pub struct N { ty: &'static str, ws: bool, s: usize, e: usize, par: Option<usize>, kids: Vec<usize> }
pub struct T { n: Vec<N>, text: String }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Target { Token(usize), Rule(usize), Param(usize), No }

impl T {
    pub fn new(f: &File) -> T {
        fn go(f: &File, x: Node, par: Option<usize>, n: &mut Vec<N>) -> usize {
            let i = n.len(); let info = f.language().node_type_info(x.ty());
            n.push(N { ty: info.name, ws: info.whitespace_like, s: u32::from(x.range().start()) as usize, e: u32::from(x.range().end()) as usize, par, kids: vec![] });
            for c in x.children() { let k = go(f, c, Some(i), n); n[i].kids.push(k); }
            i
        }
        let mut n = vec![]; go(f, f.root(), None, &mut n);
        T { n, text: f.text().to_string() }
    }
    fn tx(&self, i: usize) -> &str { &self.text[self.n[i].s..self.n[i].e] }
    fn ty(&self, i: usize) -> &str { self.n[i].ty }
    fn rg(&self, i: usize) -> String { format!("{}..{}", self.n[i].s, self.n[i].e) }
    fn kids(&self, i: usize, ty: &str) -> Vec<usize> { self.n[i].kids.iter().copied().filter(|k| self.n[*k].ty == ty).collect() }
    fn kid(&self, i: usize, ty: &str) -> Option<usize> { self.kids(i, ty).get(0).copied() }
    fn all(&self, ty: &str) -> Vec<usize> { (0..self.n.len()).filter(|i| self.n[*i].ty == ty).collect() }
    fn is_expr(&self, i: usize) -> bool { ["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"].contains(&self.ty(i)) }
    fn exprs(&self, i: usize) -> Vec<usize> { self.n[i].kids.iter().copied().filter(|k| self.is_expr(*k)).collect() }
    fn up(&self, i: usize) -> Vec<usize> { let mut v = vec![i]; while let Some(p) = self.n[*v.last().unwrap()].par { v.push(p); } v }
    fn up_to(&self, i: usize, ty: &str) -> Option<usize> { self.up(i).into_iter().find(|x| self.ty(*x) == ty) }
    // ---- names ----
    fn rules(&self) -> Vec<usize> { self.kids(0, "SYN_RULE") }
    fn rule(&self, name: &str) -> Option<usize> { self.rules().into_iter().find(|r| self.kid(*r, "IDENT").map_or(false, |n| self.tx(n) == name)) }
    fn lex(&self) -> Vec<usize> { self.kid(0, "TOKENIZER_DEF").map_or(vec![], |t| self.kids(t, "LEX_RULE")) }
    fn lex_type(&self, l: usize) -> &str { self.tx(self.kid(l, "IDENT").unwrap()) }
    fn lex_name(&self, l: usize) -> &str { match self.kid(l, "STRING") { Some(s) if self.tx(s).starts_with('\'') => self.tx(s), _ => self.lex_type(l) } }
    fn token(&self, name: &str) -> Option<usize> { self.lex().into_iter().filter(|l| self.lex_name(*l) == name).last() }
    fn params(&self, rule: usize) -> Option<Vec<usize>> { self.kid(rule, "PARAMETERS").map(|p| self.kids(p, "PARAMETER")) }
    fn ref_name(&self, r: usize) -> &str { self.tx(self.kid(r, "IDENT").or_else(|| self.kid(r, "SIMPLE_STRING")).unwrap()) }
    fn target(&self, r: usize) -> Target {
        let name = self.ref_name(r);
        let rule = self.up_to(r, "SYN_RULE").unwrap();
        if let Some(p) = self.params(rule).unwrap_or_default().into_iter().find(|p| self.tx(self.kid(*p, "IDENT").unwrap()) == name) { return Target::Param(p) }
        if let Some(r) = self.rule(name) { return Target::Rule(r) }
        if let Some(t) = self.token(name) { return Target::Token(t) }
        Target::No
    }
    fn fn_name(&self, c: usize) -> &str { self.tx(self.kid(c, "IDENT").unwrap()) }
    fn context(&self, c: usize) -> Option<&str> {
        if !["is_in", "enter", "exit"].contains(&self.fn_name(c)) { return None }
        let s = self.kid(*self.exprs(c).get(0)?, "SIMPLE_STRING")?;
        let t = self.tx(s); Some(&t[1..t.len() - 1])
    }
    fn context_counts(&self) -> BTreeMap<&str, Vec<usize>> { let mut m = BTreeMap::new(); for c in self.all("CALL_EXPR") { if let Some(x) = self.context(c) { m.entry(x).or_insert_with(Vec::new).push(c); } } m }
    fn attr(&self, rule: usize, name: &str) -> Option<Option<&str>> {
        let a = self.kid(rule, "ATTRIBUTES")?;
        let a = self.kids(a, "ATTRIBUTE").into_iter().find(|a| self.tx(self.kid(*a, "IDENT").unwrap()) == name)?;
        Some(self.kid(a, "ATTRIBUTE_VALUE").map(|v| self.tx(v)))
    }
    fn has_type(&self, rule: usize) -> bool {
        if self.kid(rule, "PUB").is_none() || self.attr(rule, "pratt").is_some() { return false }
        match self.attr(rule, "type") { Some(v) => v.is_some(), None => self.kid(rule, "IDENT").is_some() }
    }
    /// A call: its meaning, the rule it calls and the problems it has.
    fn call(&self, c: usize) -> (String, Option<usize>, Vec<(usize, String)>) {
        let a = self.exprs(c); let name = self.fn_name(c); let mut bad = vec![];
        let ctx = |bad: &mut Vec<(usize, String)>| -> Option<usize> { match self.context(c) { Some(x) => Some(self.context_counts().keys().position(|k| *k == x).unwrap()), None => { bad.push((a[0], "Context should be a single quoted string".to_string())); None } } };
        let want = match name { "any" | "commit" | "eof" => Some(0), "not" | "is_in" => Some(1), "layer" | "with_skip" | "inject" | "enter" | "exit" => Some(2), _ => None };
        if let Some(w) = want {
            if a.len() != w { bad.push((c, format!("Wrong number of arguments, expected {}, got {}", w, a.len()))); }
            let s = if a.len() < w { "-".to_string() } else { match name {
                "any" | "commit" | "eof" => name.to_string(),
                "not" => format!("not {}", self.rg(a[0])),
                "is_in" => ctx(&mut bad).map_or("-".into(), |k| format!("is_in {}", k)),
                "enter" | "exit" => ctx(&mut bad).map_or("-".into(), |k| format!("{} {} {}", name, k, self.rg(a[1]))),
                _ => format!("{} {} {}", name, self.rg(a[0]), self.rg(a[1])),
            } };
            return (s, None, bad)
        }
        if name == "prev_is" {
            let mut ok = vec![];
            for x in a { match if self.ty(x) == "REF_EXPR" { self.target(x) } else { Target::No } { Target::Rule(r) if self.has_type(r) => ok.push(self.rg(r)), _ => bad.push((c, "<prev_is> arguments must be public rules".to_string())) } }
            return (format!("prev_is {:?}", ok), None, bad)
        }
        if let Some(r) = self.rule(name) { if let Some(ps) = self.params(r) {
            if ps.len() != a.len() { bad.push((c, format!("Expected {} arguments, got {}", ps.len(), a.len()))); }
            return (format!("call {} {:?}", self.rg(r), ps.iter().zip(a.iter()).map(|(p, e)| format!("{}={}", self.rg(*p), self.rg(*e))).collect::<Vec<_>>()), Some(r), bad)
        } }
        bad.push((self.kid(c, "IDENT").unwrap(), "Unresolved reference".to_string()));
        ("-".into(), None, bad)
    }
    fn operator(&self, r: usize) -> (String, Vec<(usize, String)>) {
        let no = |b: Vec<(usize, String)>| ("-".to_string(), b);
        let name = match self.kid(r, "IDENT") { Some(n) => n, None => return no(vec![]) };
        let body = match self.exprs(r).get(0) { Some(b) => *b, None => return no(vec![]) };
        let (kind, prio) = match ["atom", "postfix", "prefix", "bin"].iter().filter_map(|k| self.attr(r, k).map(|v| (*k, v.and_then(|v| v.parse::<u32>().ok())))).next() { Some(x) => x, None => return no(vec![]) };
        if kind == "atom" { return (format!("atom {}", self.rg(body)), if prio.is_some() { vec![(name, "Atom rules don't have priority".to_string())] } else { vec![] }) }
        if self.ty(body) != "BLOCK_EXPR" { return no(vec![]) }
        let alts = self.exprs(body);
        if alts.len() != 1 { return no(vec![(body, "Expression rule requires a single alternative".into())]) }
        if self.ty(alts[0]) != "SEQ_EXPR" { return no(vec![]) }
        let p = self.exprs(alts[0]);
        match kind {
            "postfix" if p.len() == 2 => (format!("postfix {} {}", self.rg(p[1]), prio.unwrap_or(999)), vec![]),
            "postfix" => no(vec![(body, "Postfix rule requires a single expression and an operation".into())]),
            "prefix" if p.len() == 2 => (format!("prefix {} {}", self.rg(p[0]), prio.unwrap_or(999)), vec![]),
            "prefix" => no(vec![(body, "Prefix rule requires an operation and a single expression".into())]),
            _ if p.len() != 3 => no(vec![(body, "Binary expression requires a left hand side expression, an operator and a right hand side expression".into())]),
            _ => match prio { Some(x) => (format!("bin {} {}", self.rg(p[1]), x), vec![]), None => no(vec![(name, "Binary expression requires explicit priority".into())]) },
        }
    }
    /// What an accessor of an `ast` block gives: (kind of child, its definition, is it a text, arity)
    fn method(&self, m: usize) -> Option<(&'static str, usize, bool, &'static str)> {
        let sel = self.kid(m, "AST_SELECTOR").unwrap(); let name = self.tx(self.kid(sel, "IDENT").unwrap());
        let ast = self.kid(0, "AST_DEF")?;
        let named = |ty: &str| self.kids(ast, ty).into_iter().find(|x| self.kid(*x, "IDENT").map_or(false, |n| self.tx(n) == name));
        let (k, d) = if let Some(x) = named("AST_NODE_DEF") { ("node", x) } else if let Some(x) = named("AST_CLASS_DEF") { ("class", x) } else if let Some(x) = self.lex().into_iter().find(|l| self.lex_type(*l) == name) { ("token", x) } else { return None };
        let ar = if self.kid(sel, "QUESTION").is_some() { "opt" } else if self.kid(sel, "STAR").is_some() { "many" } else { "one" };
        let text = self.kid(sel, "DOT").is_some();
        if text && k != "token" { return None }
        Some((k, d, text, ar))
    }
    fn traits(&self, node: usize) -> (Vec<usize>, Vec<(usize, String)>) {
        let known: HashMap<&str, usize> = self.kid(0, "AST_DEF").map_or(vec![], |a| self.kids(a, "AST_TRAIT_DEF")).into_iter().filter_map(|t| Some((self.tx(self.kid(t, "IDENT")?), t))).collect();
        let mut ok = vec![]; let mut bad = vec![];
        for k in self.n[node].kids.iter().copied().skip_while(|k| self.ty(*k) != "COLON").filter(|k| self.ty(*k) == "IDENT") { match known.get(self.tx(k)) { Some(t) => ok.push(*t), None => bad.push((k, "Unresolved trait".to_string())) } }
        (ok, bad)
    }
    // ---- answers, in the form of `ana::ask` ----
    fn each(&self, ty: &str, f: impl Fn(usize) -> String) -> String {
        let mut m: BTreeMap<(u32, u32), Vec<String>> = BTreeMap::new();
        for i in self.all(ty) { m.entry((self.n[i].s as u32, self.n[i].e as u32)).or_default().push(f(i)); }
        for v in m.values_mut() { v.sort(); }
        format!("{:?}", m)
    }
    pub fn diagnostics(&self) -> String {
        let mut v: Vec<(u8, usize, String)> = vec![];
        for r in self.all("REF_EXPR") { if self.target(r) == Target::No {
            let p = self.n[r].par.unwrap();
            if self.ty(p) == "CALL_EXPR" && self.context(p).is_some() && self.exprs(p)[0] == r { continue }
            v.push((0, r, "Unresolved reference".into()));
        } }
        for c in self.all("CALL_EXPR") { for (n, m) in self.call(c).2 { v.push((0, n, m)); } }
        for r in self.all("SYN_RULE") { for (n, m) in self.operator(r).1 { v.push((0, n, m)); } }
        for r in self.all("AST_NODE_DEF") { for (n, m) in self.traits(r).1 { v.push((0, n, m)); } }
        let rules = self.rules();
        for r in &rules { if let Some(n) = self.kid(*r, "IDENT") { if self.rule(self.tx(n)) != Some(*r) { v.push((0, n, "Duplicate rule".into())); } } }
        let used: Vec<usize> = self.all("REF_EXPR").into_iter().filter_map(|r| if let Target::Rule(x) = self.target(r) { Some(x) } else { None }).chain(self.all("CALL_EXPR").into_iter().filter_map(|c| self.call(c).1)).chain(rules.get(0).copied()).collect();
        for r in &rules { if !used.contains(r) { if let Some(n) = self.kid(*r, "IDENT") { v.push((1, n, "Unused rule".into())); } } }
        let lex = self.lex();
        for (k, l) in lex.iter().enumerate() { if lex[..k].iter().any(|x| self.lex_type(*x) == self.lex_type(*l)) { v.push((0, *l, "Duplicate token".into())); } }
        for (name, calls) in self.context_counts() { if calls.len() == 1 { v.push((1, calls[0], format!("Context `{}` is used only once", name))); } }
        let mut w: Vec<(u8, usize, usize, String)> = v.into_iter().map(|(p, n, m)| (p, self.n[n].s, self.n[n].e, m)).collect();
        w.sort();
        w.iter().map(|(p, s, e, m)| format!("{} {}..{} {}", if *p == 0 { "Error" } else { "Warning" }, s, e, m)).collect::<Vec<_>>().join("\n")
    }
    pub fn highlight(&self) -> Vec<String> {
        let mut v = vec![];
        for i in 0..self.n.len() {
            let mut add = |k: Option<usize>, tag: &str| if let Some(k) = k { v.push(format!("{} {}", self.rg(k), tag)) };
            match self.ty(i) {
                "ERROR" => if self.n[i].s == self.n[i].e { v.push(format!("{}..{} error", self.n[i].s, self.n[i].s + 1)) } else { add(Some(i), "error") },
                "EOL_COMMENT" => add(Some(i), "comment"),
                "HASH_STRING" | "SIMPLE_STRING" => add(Some(i), "string"),
                "RULE" | "VERBATIM" | "TOKENIZER" | "AST" | "NODE" | "CLASS" | "PUB" | "TEST" | "TRAIT" => add(Some(i), "keyword"),
                "PARAMETER" => add(Some(i), "parameter"),
                "ATTRIBUTES" => add(Some(i), "attribute"),
                "LEX_RULE" => add(self.kid(i, "IDENT"), "literal"),
                "SYN_RULE" | "AST_NODE_DEF" | "AST_TRAIT_DEF" | "AST_CLASS_DEF" => add(self.kid(i, "IDENT"), "function"),
                "REF_EXPR" => match self.target(i) { Target::Token(_) => add(Some(i), "literal"), Target::Rule(_) => add(Some(i), "function"), Target::Param(_) => add(Some(i), "parameter"), Target::No => {} },
                "METHOD_DEF" => match self.method(i) { Some((k, _, false, _)) => add(self.kid(self.kid(i, "AST_SELECTOR").unwrap(), "IDENT"), if k == "token" { "literal" } else { "function" }), _ => {} },
                "CALL_EXPR" => { let c = self.call(i); let tag = if c.0 == "-" || c.1.is_some() { "function" } else { "builtin" }; for t in &["IDENT", "L_ANGLE", "R_ANGLE"] { add(self.kid(i, t), tag); } }
                _ => {}
            }
        }
        v.sort(); v
    }
    fn structure(&self) -> String {
        let mut v: Vec<(usize, usize, String)> = vec![];
        for i in 0..self.n.len() { let name = match self.ty(i) { "SYN_RULE" => match self.kid(i, "IDENT") { Some(n) => self.tx(n).to_string(), None => continue }, "TOKENIZER_DEF" => "tokenizer".into(), "AST_DEF" => "ast".into(), _ => continue }; v.push((self.n[i].s, self.n[i].e, name)); }
        format!("[{}]", v.iter().map(|(s, e, n)| format!("FileStructureNode {{ name: {:?}, range: [{}; {}), children: [] }}", n, s, e)).collect::<Vec<_>>().join(", "))
    }
    /// The leaves left and right of a position (the same one inside of a leaf).
    fn leaves(&self, off: usize) -> Option<(usize, usize)> {
        let v: Vec<usize> = (0..self.n.len()).filter(|i| self.n[*i].kids.is_empty() && self.n[*i].s < self.n[*i].e && self.n[*i].s <= off && off <= self.n[*i].e).collect();
        Some((*v.first()?, *v.last()?))
    }
    fn at(&self, off: usize) -> Option<usize> { let (l, r) = self.leaves(off)?; Some(if self.n[l].ws { r } else { l }) }
    fn nav(&self, d: usize) -> usize { match self.ty(d) { "SYN_RULE" | "AST_NODE_DEF" | "AST_CLASS_DEF" => self.kid(d, "IDENT").unwrap_or(d), _ => d } }
    /// Is this a reference: (the node that is shown, what it means).
    fn reference(&self, i: usize) -> Option<(usize, Option<usize>)> {
        match self.ty(i) {
            "REF_EXPR" => Some((i, match self.target(i) { Target::Token(x) | Target::Rule(x) | Target::Param(x) => Some(x), Target::No => None })),
            "METHOD_DEF" => Some((self.kid(i, "AST_SELECTOR").unwrap(), match self.method(i) { Some((_, d, false, _)) => Some(d), _ => None })),
            "IDENT" => { let p = self.n[i].par?; if self.ty(p) != "CALL_EXPR" { return None } self.call(p).1.map(|r| (i, Some(r))) }
            _ => None,
        }
    }
    fn goto(&self, off: usize) -> String {
        let d = self.at(off).and_then(|l| self.up(l).into_iter().filter_map(|i| self.reference(i)).next()).and_then(|r| r.1);
        match d { None => "None".into(), Some(d) => { let n = self.nav(d); format!("Some([{}; {}))", self.n[n].s, self.n[n].e) } }
    }
    fn usages(&self, off: usize) -> Vec<String> {
        let decl = |i: usize| ["SYN_RULE", "LEX_RULE", "PARAMETER", "AST_NODE_DEF", "AST_CLASS_DEF"].contains(&self.ty(i)) && { let n = self.nav(i); self.n[n].s <= off && off <= self.n[n].e };
        let d = match self.at(off).and_then(|l| self.up(l).into_iter().filter_map(|i| if decl(i) { Some(i) } else { self.reference(i).and_then(|r| r.1) }).next()) { Some(d) => d, None => return vec![] };
        let mut v: Vec<String> = (0..self.n.len()).filter_map(|i| self.reference(i)).filter(|r| r.1 == Some(d)).map(|r| format!("[{}; {})", self.n[r.0].s, self.n[r.0].e)).collect(); v.sort(); v
    }
    fn covering(&self, s: usize, e: usize) -> usize {
        let (l, r) = match (self.leaves(s), self.leaves(e)) { (Some(a), Some(b)) => (a.1, b.0), _ => return 0 };
        let up = self.up(r); self.up(l).into_iter().find(|x| up.contains(x)).unwrap()
    }
    fn swap(&self, a: usize, b: usize) -> String { let (x, y) = (&self.n[a], &self.n[b]); format!("{}{}{}{}{}", &self.text[..x.s], self.tx(b), &self.text[x.e..y.s], self.tx(a), &self.text[y.e..]) }
    fn actions(&self, s: usize, e: usize) -> Vec<(&'static str, String)> {
        let mut v = vec![];
        if let Some((l, r)) = self.leaves(s) {
            if let Some(c) = [l, r].iter().copied().find(|x| self.tx(*x) == ",") {
                let sib = &self.n[self.n[c].par.unwrap()].kids; let p = sib.iter().position(|x| *x == c).unwrap();
                let a = sib[..p].iter().rev().find(|x| !self.n[**x].ws); let b = sib[p + 1..].iter().find(|x| !self.n[**x].ws);
                if let (Some(a), Some(b)) = (a, b) { if self.ty(*a) == self.ty(*b) { v.push(("Swap", self.swap(*a, *b))); } }
            }
            if let Some(c) = [l, r].iter().copied().find(|x| self.ty(*x) == "PIPE") {
                let p = self.n[c].par.unwrap();
                if self.ty(p) == "BLOCK_EXPR" { let alts = self.exprs(p); for w in alts.windows(2) { if self.n[w[0]].e <= self.n[c].s && self.n[c].e <= self.n[w[1]].s { v.push(("Swap alternatives", self.swap(w[0], w[1]))); break } } }
            }
        }
        if s < e { if let Some(x) = self.up(self.covering(s, e)).into_iter().find(|x| self.is_expr(*x)) { if self.ty(x) != "REF_EXPR" {
            let (mut a, mut b) = (self.n[x].s, self.n[x].e);
            if self.ty(x) == "SEQ_EXPR" {
                let k: Vec<usize> = self.n[x].kids.iter().copied().filter(|k| { let (p, q) = (self.n[*k].s, self.n[*k].e); !(q <= s || e <= p) }).collect();
                if k.len() >= 2 && self.is_expr(k[0]) && self.is_expr(*k.last().unwrap()) { a = self.n[k[0]].s; b = self.n[*k.last().unwrap()].e; }
            }
            let r = self.n[self.up_to(x, "SYN_RULE").unwrap()].e;
            v.push(("Extract rule", format!("{}new_rule{}\n\nrule new_rule {{\n  {}\n}}{}", &self.text[..a], &self.text[b..r], &self.text[a..b], &self.text[r..])));
        } } }
        v
    }
    fn extend(&self, s: usize, e: usize) -> String {
        let f = |i: usize| format!("Some([{}; {}))", self.n[i].s, self.n[i].e);
        if s == e {
            let (l, r) = match self.leaves(s) { Some(x) => x, None => return "None".into() };
            if let Some(x) = [l, r].iter().copied().find(|x| !self.n[*x].ws) { return f(x) }
            let we = self.n[l].e;
            if self.tx(l).contains('\n') && !self.text[s..we].contains('\n') { if let Some(k) = self.text[we..].find('\n') { return f(self.covering(we, we + k)) } }
            return f(l)
        }
        match self.up(self.covering(s, e)).into_iter().find(|x| (self.n[*x].s, self.n[*x].e) != (s, e)) { Some(x) => f(x), None => "None".into() }
    }
    /// The printed syntax tree.
    pub fn dump(&self) -> String {
        fn go(t: &T, i: usize, level: usize, o: &mut String) {
            if t.n[i].ws { return }
            *o += &"  ".repeat(level);
            if t.n[i].kids.is_empty() { *o += &format!("{} {:?}\n", t.ty(i), t.tx(i)); } else { *o += t.ty(i); *o += "\n"; for k in &t.n[i].kids { go(t, *k, level + 1, o); } }
        }
        let mut o = String::new(); go(self, 0, 0, &mut o); o
    }
    /// One blank around `|`, none inside `<` `>`; lines stay as they are.
    pub fn format(&self) -> String {
        let mut fate: Vec<u8> = vec![0; self.n.len()]; // 1: removed, 2: one blank, 4: a blank behind it
        for p in 0..self.n.len() { let k = &self.n[p].kids; for i in 0..k.len() {
            let (after, before) = match self.ty(k[i]) { "PIPE" => (Some(true), Some(true)), "L_ANGLE" => (Some(false), None), "R_ANGLE" => (None, Some(false)), _ => continue };
            for (rule, at, anchor) in vec![(after, k.get(i + 1), Some(&k[i])), (before, if i > 0 { k.get(i - 1) } else { None }, if i > 0 { k.get(i - 1) } else { None })] {
                if let (Some(blank), Some(&at), Some(&anchor)) = (rule, at, anchor) {
                    if self.tx(at).contains('\n') { continue }
                    let ws = self.ty(at) == "WHITESPACE";
                    if blank && ws { fate[at] |= 2 } else if ws { fate[at] |= 1 } else if blank { fate[anchor] |= 4 }
                }
            }
        } }
        fn go(t: &T, i: usize, fate: &[u8], o: &mut String) {
            if fate[i] & 1 != 0 { return }
            if fate[i] & 2 != 0 { o.push(' '); return }
            if t.n[i].kids.is_empty() { o.push_str(t.tx(i)) } else { for k in &t.n[i].kids { go(t, *k, fate, o) } }
            if fate[i] & 4 != 0 { o.push(' ') }
        }
        let mut o = String::new(); go(self, 0, &fate, &mut o); o
    }
    // ---- the editor for Rust ----
    fn node_at(&self, off: usize, ty: &str) -> Option<usize> { let (l, r) = self.leaves(off)?; self.up_to(l, ty).or_else(|| self.up_to(r, ty)) }
    fn rust_actions(&self, s: usize) -> Vec<(&'static str, String)> {
        let mut v: Vec<(&'static str, String)> = self.actions(s, s).into_iter().filter(|a| a.0 == "Swap").collect();
        if let Some(u) = self.node_at(s, "USE_DECL") { if let (Some(p), None) = (self.kid(u, "PATH"), self.kid(u, "USE_SPEC")) { if let Some(g) = self.kid(p, "PATH_SEGMENT") {
            v.push(("Add braces", format!("{}{{{}}}{}", &self.text[..self.n[g].s], self.tx(g), &self.text[self.n[g].e..])));
        } } }
        let named = |ty: &str| self.node_at(s, ty).and_then(|d| self.kid(d, "IDENT").map(|n| (d, n)));
        if let Some((d, n)) = named("STRUCT_DEF").or_else(|| named("ENUM_DEF")) {
            let tp = self.kid(d, "TYPE_PARAMETERS"); let e = self.n[d].e;
            let args = tp.map_or(String::new(), |t| { let l = self.kids(t, "LIFETIME_PARAMETER").into_iter().map(|x| self.tx(self.kid(x, "LIFETIME").unwrap())); let y = self.kids(t, "TYPE_PARAMETER").into_iter().map(|x| self.tx(self.kid(x, "IDENT").unwrap())); format!("<{}>", l.chain(y).collect::<Vec<_>>().join(", ")) });
            v.push(("Add impl", format!("{}\n\nimpl{} {}{} {{\n\n}}{}", &self.text[..e], tp.map_or("", |t| self.tx(t)), self.tx(n), args, &self.text[e..])));
        }
        v
    }
    pub fn rust(&self, kind: usize, off: usize, end: usize) -> Option<String> {
        let names = |tys: &[&str]| -> Vec<usize> { (0..self.n.len()).filter(|i| tys.contains(&self.ty(*i)) && self.kid(*i, "IDENT").is_some()).collect() };
        Some(match kind {
            0 => { let mut v: Vec<String> = names(&["FN_DEF", "STRUCT_DEF", "ENUM_DEF", "TYPE_DEF", "TRAIT_DEF", "MOD_DEF"]).into_iter().map(|i| format!("{} {}", self.rg(i), self.tx(self.kid(i, "IDENT").unwrap()))).collect(); v.sort(); v.join(",") }
            1 => { let mut v: Vec<String> = self.all("ERROR").into_iter().map(|i| format!("{}..{} error", self.n[i].s, self.n[i].e.max(self.n[i].s + 1))).collect(); v.sort(); v.join(",") }
            2 => {
                if off == 0 { return None }
                let mut v = vec![];
                for i in self.leaves(off - 1).map_or(vec![], |l| self.up(l.0)).into_iter().rev() {
                    let tag = match self.ty(i) { "STRUCT_DEF" => "struct", "ENUM_DEF" => "enum", "TRAIT_DEF" => "trait", "FN_DEF" => "fn", "IMPL_DEF" => "impl", _ => continue };
                    if tag == "impl" { let t = self.kids(i, "TYPE_REFERENCE"); match t.len() { 0 => {} 1 => v.push(format!("impl {}", self.tx(t[0]))), _ => v.push(format!("impl {} for {}", self.tx(t[0]), self.tx(t[1]))) } }
                    else if let Some(n) = self.kid(i, "IDENT") { v.push(format!("{} {}", tag, self.tx(n))) }
                }
                format!("{:?}", v)
            }
            3 => { let none = "None".to_string(); if off == 0 { return Some(none) }
                let l = match self.leaves(off - 1) { Some(l) if self.ty(l.0) == "LET" => l.0, _ => return Some(none) };
                match self.up_to(l, "LET_STMT") { Some(s) if self.kid(s, "SEMI").is_none() && self.kid(s, "EQ").is_none() && !self.text[self.n[s].e..].starts_with(';') => "Some(\";\")".into(), _ => none } }
            4 => { let none = "None".to_string(); if off < 2 { return Some(none) }
                let s = match self.leaves(off - 2).and_then(|l| self.up_to(l.0, "EXPR_STMT")) { Some(s) => s, None => return Some(none) };
                let (a, e) = (self.n[s].s, self.n[s].e);
                if e < a + 3 || !self.text.is_char_boundary(e - 3) { return Some(none) }
                let t = &self.text[a..e - 3];
                format!("{}eprintln!(\"{} = {{:?}}\", {});{}", &self.text[..a], t, t, &self.text[off..]) }
            5 => { let v = self.rust_actions(off); let mut s = format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()); for (id, t) in v { s.push_str(&format!(" {} => {}", id, t)); } s }
            6 => self.extend(off, end),
            7 => self.text.clone(),
            8 => self.dump(),
            _ => "[]".into(),
        })
    }
    /// None: there is no reference answer for this kind.
    pub fn answer(&self, kind: usize, off: usize, end: usize) -> Option<String> {
        Some(match kind {
            0 => self.diagnostics(),
            1 => self.highlight().join(","),
            2 => self.structure(),
            3 => self.goto(off),
            4 => self.usages(off).join(","),
            5 => self.each("REF_EXPR", |r| match self.target(r) { Target::No => "-".into(), Target::Token(t) => format!("token {}", self.rg(t)), Target::Rule(t) => format!("rule {}", self.rg(t)), Target::Param(t) => format!("param {}", self.rg(t)) }),
            6 => self.each("CALL_EXPR", |c| self.call(c).0),
            7 => self.each("SYN_RULE", |r| self.operator(r).0),
            8 => self.each("METHOD_DEF", |m| match self.method(m) { None => "-".into(), Some((_, d, true, a)) => format!("text {} {}", self.rg(d), a), Some((k, d, false, a)) => format!("node {} {} {}", k, self.rg(d), a) }),
            9 => self.each("AST_NODE_DEF", |n| self.traits(n).0.iter().map(|t| self.rg(*t)).collect::<Vec<_>>().join(",")),
            10 => { let v = self.actions(off, end); let mut s = format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()); for (id, t) in v { s.push_str(&format!(" {} => {}", id, t)); } s }
            11 => self.format(),
            12 => self.extend(off, end),
            13 => format!("{:?}", self.leaves(off).and_then(|l| self.up_to(l.1, "TEST_DEF")).map(|t| self.kids(0, "TEST_DEF").iter().position(|x| *x == t).unwrap())),
            14 => self.dump(),
            _ => return None,
        })
    }
}
