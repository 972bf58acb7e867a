//! The contracts on the crate's functions (contracts/*.ct).
use super::ty::Ty;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub key: String,
    /// `Some(n)`: contract of the n-th loop (source order) executed by `key`.
    pub loop_no: Option<usize>,
    /// A loop whose contract gives the result of the whole function from the loop on.
    pub tail: bool,
    pub gens: Vec<String>,
    pub params: Vec<(String, Ty)>,
    /// Parameters of the returned parser, for functions that build one.
    pub inner: Option<Vec<(String, Ty)>>,
    pub ret: Option<Ty>,
    pub spec: Option<String>,
    pub requires: Option<String>,
    pub ensures: Option<String>,
    /// recursion group, size of the arguments, rank
    pub rec: Option<(String, String, i64)>,
    pub by: String,
    pub rlimit: Option<u32>,
    /// What is proved of the items of each repetition (source order), and how.
    pub items: Vec<(String, String)>,
    /// Broadcast lemmas in scope (instead of all).
    pub uses: Option<String>,
    /// Specification functions that need not be unfolded.
    pub hide: Vec<String>,
    /// The body returns a value of this type; `abs` (of `IT`) is what callers see.
    pub abs: Option<(Ty, String)>,
    /// Callers use the body, not the contract.
    pub inline: bool,
}
impl Contract {
    pub fn id(&self) -> String {
        let b = self.key.replace("::", "_");
        match self.loop_no { Some(n) => format!("{}__loop{}", b, n), None => b }
    }
    /// A function of the deserializer that may fail: what it leaves behind then is not part
    /// of its contract.
    pub fn fails(&self) -> bool { matches!(self.ret(), Ty::Tup(ts) if ts.len() == 2 && matches!(&ts[1], Ty::Res(_, e) if **e == Ty::Named("DeErr".into()))) }
    pub fn ret(&self) -> Ty { self.ret.clone().unwrap_or(Ty::Any) }
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    pub loops: BTreeMap<(String, usize), Contract>,
    /// crate type -> contract-language type
    pub types: BTreeMap<String, String>,
    /// crate variant -> (contract-language constructor, field order)
    pub ctors: BTreeMap<String, (String, Vec<String>)>,
    /// contract-language type of an iterator of the crate -> (item, elements still to come, of IT)
    pub iters: BTreeMap<String, (String, Ty, String)>,
}
fn split_top(s: &str, sep: char) -> Vec<String> {
    let (mut d, mut cur, mut out) = (0i32, String::new(), vec![]);
    let mut prev = ' ';
    for c in s.chars() {
        match c { '(' | '<' | '[' | '{' => d += 1, ')' | ']' | '}' => d -= 1, '>' if prev != '-' => d -= 1, _ => {} }
        if c == sep && d == 0 { out.push(std::mem::take(&mut cur)); } else { cur.push(c); }
        prev = c;
    }
    if !cur.trim().is_empty() { out.push(cur); }
    out
}
fn params(s: &str) -> Result<Vec<(String, Ty)>, String> {
    split_top(s, ',').iter().map(|p| { let (n, t) = p.split_once(':').ok_or(format!("parameter {}", p))?; Ok((n.trim().into(), Ty::parse(t.trim())?)) }).collect()
}
/// Text up to the parenthesis matching the first one, and what follows.
fn paren(s: &str) -> Result<(String, String), String> {
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c { '(' => d += 1, ')' => { d -= 1; if d == 0 { return Ok((s[1..i].into(), s[i + 1..].trim().into())); } } _ => {} }
    }
    Err(format!("unbalanced {}", s))
}
impl Contracts {
    pub fn add(&mut self, src: &str) -> Result<(), String> {
        let mut cur: Option<Contract> = None;
        let mut by = false;
        let mut field = "";
        for (ln, line) in src.lines().enumerate() {
            let t = line.trim();
            let err = |e: String| format!("line {}: {}", ln + 1, e);
            if by { if line == "  }" { by = false; } else { cur.as_mut().unwrap().by += &format!("{}\n", line); } continue; }
            if t.is_empty() || t.starts_with("//") { continue; }
            if !line.starts_with(' ') {
                if let Some(c) = cur.take() { self.put(c); }
                let (kw, rest) = t.split_once(' ').ok_or(err("?".into()))?;
                match kw {
                    "type" => { let (a, b) = rest.split_once(" = ").unwrap(); self.types.insert(a.trim().into(), b.trim().into()); }
                    "ctor" => {
                        let (a, b) = rest.split_once(" = ").unwrap();
                        let (n, fs) = match a.split_once('{') { Some((n, f)) => (n, f.trim().trim_end_matches('}').split(',').map(|x| x.trim().to_string()).collect()), None => (a, vec![]) };
                        self.ctors.insert(n.trim().into(), (b.trim().into(), fs));
                    }
                    "iter" => {
                        let (a, b) = rest.split_once(" = ").ok_or(err("iter".into()))?;
                        let (p, t) = a.trim().split_once(' ').ok_or(err("iter".into()))?;
                        let n = self.types.get(p).ok_or(err(format!("type {}", p)))?.clone();
                        self.iters.insert(n, (p.into(), Ty::parse(t).map_err(err)?, b.into()));
                    }
                    "fn" | "loop" => {
                        let p = rest.find('(').ok_or(err("no (".into()))?;
                        let mut c = Contract::default();
                        let mut name = rest[..p].trim().to_string();
                        if let Some((n, k)) = name.clone().split_once('#') { name = n.into(); c.loop_no = Some(k.parse().map_err(|_| err("loop number".into()))?); }
                        if let Some((n, g)) = name.clone().split_once('<') { name = n.into(); c.gens = g.trim_end_matches('>').split(',').map(|x| x.trim().into()).collect(); }
                        c.key = name;
                        let (ps, mut rest) = paren(&rest[p..]).map_err(err)?;
                        c.params = params(&ps).map_err(err)?;
                        if rest.starts_with('(') { let (q, r) = paren(&rest).map_err(err)?; c.inner = Some(params(&q).map_err(err)?); rest = r; }
                        if let Some(r) = rest.strip_prefix("->") { c.ret = Some(Ty::parse(r.trim()).map_err(err)?); }
                        cur = Some(c);
                        field = "";
                    }
                    _ => return Err(err(format!("unknown entry {}", kw))),
                }
                continue;
            }
            let c = cur.as_mut().ok_or(err("clause outside entry".into()))?;
            if let Some(r) = t.strip_prefix("= ") { c.spec = Some(r.into()); field = "spec"; }
            else if let Some(r) = t.strip_prefix("requires ") { c.requires = Some(r.into()); field = "requires"; }
            else if let Some(r) = t.strip_prefix("ensures ") { c.ensures = Some(r.into()); field = "ensures"; }
            else if let Some(r) = t.strip_prefix("abs ") { let (a, b) = r.split_once(" = ").ok_or(err("abs".into()))?; c.abs = Some((Ty::parse(a).map_err(err)?, b.into())); field = ""; }
            else if let Some(r) = t.strip_prefix("rlimit ") { c.rlimit = Some(r.trim().parse().map_err(|_| err("rlimit".into()))?); }
            else if let Some(r) = t.strip_prefix("rec ") { let v: Vec<&str> = r.splitn(3, ' ').collect(); c.rec = Some((v[0].into(), v[2].into(), v[1].parse().map_err(|_| err("rank".into()))?)); }
            else if let Some(r) = t.strip_prefix("item ") { c.items.push((r.into(), String::new())); field = "item"; }
            else if let Some(r) = t.strip_prefix("itemby ") { c.items.last_mut().ok_or(err("itemby".into()))?.1 += &format!("  {}\n", r); field = "itemby"; }
            else if let Some(r) = t.strip_prefix("hide ") { c.hide = r.split_whitespace().map(|x| x.into()).collect(); field = ""; }
            else if let Some(r) = t.strip_prefix("use ") { c.uses = Some(r.into()); field = ""; }
            else if t == "inline" { c.inline = true; }
            else if t == "tail" { c.tail = true; }
            else if t == "by {" { by = true; }
            else {
                let s = match field { "spec" => c.spec.as_mut(), "requires" => c.requires.as_mut(), "ensures" => c.ensures.as_mut(), "item" => c.items.last_mut().map(|x| &mut x.0), "itemby" => c.items.last_mut().map(|x| &mut x.1), _ => None }.ok_or(err(format!("clause {}", t)))?;
                s.push(' '); s.push_str(t);
            }
        }
        if let Some(c) = cur.take() { self.put(c); }
        Ok(())
    }
    fn put(&mut self, mut c: Contract) {
        c.requires = c.requires.map(|r| format!("({})", r));
        match c.loop_no { Some(n) => { self.loops.insert((c.key.clone(), n), c); } None => { self.fns.insert(c.key.clone(), c); } }
    }
}
/// `template` with parameter names replaced by argument texts.
pub fn subst(template: &str, m: &BTreeMap<String, String>) -> String {
    use proc_macro2::{TokenStream, TokenTree};
    fn go(t: TokenStream, m: &BTreeMap<String, String>, out: &mut String) {
        let mut after_dot = false;
        let mut dots = 0;
        let v: Vec<TokenTree> = t.into_iter().collect();
        // `name:` is the name of a field or of a closure's parameter
        let label = |n: usize| matches!(v.get(n + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone);
        for (n, tt) in v.iter().cloned().enumerate() {
            match tt {
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    match m.get(&s) { Some(v) if !after_dot && !label(n) => out.push_str(&format!("({}) ", v)), _ => { out.push_str(&s); out.push(' '); } }
                    after_dot = false;
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                    out.push_str(a); go(g.stream(), m, out); out.push_str(b); out.push(' ');
                    after_dot = false;
                }
                TokenTree::Punct(p) => { out.push(p.as_char()); if p.spacing() == proc_macro2::Spacing::Alone { out.push(' '); } dots = if p.as_char() == '.' { dots + 1 } else { 0 }; after_dot = dots == 1; continue; }
                TokenTree::Literal(l) => { out.push_str(&l.to_string()); out.push(' '); after_dot = false; }
            }
            dots = 0;
        }
    }
    let mut s = String::new();
    go(template.parse().unwrap(), m, &mut s);
    s
}
