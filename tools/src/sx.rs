//! Mechanical extraction: executes a function of the crate symbolically and prints the
//! same computation as one expression of the contract language.  Calls of functions
//! under contract become the contract; other functions of the crate are inlined.
use super::contract::*;
use super::repo::*;
use super::spec::toks;
use super::ty::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use syn::*;

pub type R<T = String> = std::result::Result<T, String>;
const ESC: &str = "\u{1}escape";
const HOLE: &str = "\u{1}hole";

#[derive(Clone, Debug, PartialEq)]
pub enum Pj { Field(String), Arg(usize), Idx(String) }
#[derive(Clone, Debug, PartialEq)]
pub struct Place { pub key: String, pub proj: Vec<Pj> }

#[derive(Debug)]
pub struct Clo { params: Vec<Pat>, body: Expr, scope: Rc<BTreeMap<String, String>>, ctx: Ctx }
#[derive(Clone, Debug)]
pub struct Ctx { pub module: String, pub self_ty: Option<String>, pub fn_key: String, pub gens: Rc<Vec<String>>, pub depth: usize }

#[derive(Clone, Debug)]
pub struct It { pub seq: String, pub elem: Ty, pub maps: Vec<V>, pub opt: Option<(String, Ty)>, pub enumerated: Option<String>, pub rev: bool, pub place: Option<Place> }

/// Parser combinators of nom.
#[derive(Debug)]
pub enum P {
    Tag(V), TakeUntil(V, bool), Char(String), OneOf(V, bool), Satisfy(V), TakeWhile(V, bool, bool), IsA(V, bool), Digits(u8, bool), Multispace(bool),
    Seq(Vec<V>), Pick(Vec<V>, usize), Alt(Vec<V>), Opt(V), Recognize(V), Consumed(V), Peek(V), Not(V), Cut(V), Verify(V, V), Map(V, V), MapRes(V, V, bool), Value(V, V), Same(V), Many(V, bool, bool), AllConsuming(V), Take(V), Rest, Success(V), Fail, Eof, AndThen(V, V), FlatMap(V, V),
    /// Parser built by a function under contract: parameter texts.
    Contract(Contract, BTreeMap<String, String>),
}

#[derive(Clone, Debug)]
pub enum V {
    E(String, Ty),
    Tup(Vec<V>),
    C(String, Vec<V>),
    S(String, BTreeMap<String, V>),
    Clo(Rc<Clo>),
    F(String),
    P(Rc<P>),
    Ref(Place),
    It(Rc<It>),
    Arr(Vec<V>),
    Range(Option<Box<V>>, Option<Box<V>>),
    Lit(String),
    Opq(String),
    /// `str::parse` whose target type is not known yet.
    Parse(Box<V>),
    /// A sequence, one element of which is known better (or was changed).
    Upd { base: String, ty: Ty, idx: String, elem: Box<V>, dirty: bool },
    /// A number parsed from text, of a type settled by its use.
    Num(String, Rc<RefCell<Option<String>>>),
    /// A `fmt::Formatter`: what was written so far.
    Fmt(Box<V>),
}
pub fn unit() -> V { V::Tup(vec![]) }
fn some(v: V) -> V { V::C("Some".into(), vec![v]) }
fn none() -> V { V::C("None".into(), vec![]) }
fn ok(v: V) -> V { V::C("Ok".into(), vec![v]) }
fn err(v: V) -> V { V::C("Err".into(), vec![v]) }
fn e(s: impl Into<String>, t: Ty) -> V { V::E(s.into(), t) }
fn boolean(s: impl Into<String>) -> V { V::E(s.into(), Ty::Bool) }
fn int(s: impl Into<String>) -> V { V::E(s.into(), Ty::Int) }

#[derive(Clone, Debug)]
pub struct St { pub scope: Rc<BTreeMap<String, String>>, pub store: BTreeMap<String, V>, pub ver: u32, /** last assignment of each variable */ pub wr: BTreeMap<String, u32> }

#[derive(Clone, Copy)]
pub struct Fr<'f> {
    pub ctx: &'f Ctx,
    pub ret: &'f dyn Fn(St, V) -> R,
    pub brk: Option<&'f dyn Fn(St) -> R>,
    pub cont: Option<&'f dyn Fn(St) -> R>,
    /// declared result type of the function being executed
    pub rty: Option<&'f Type>,
}
type K<'k> = &'k dyn Fn(St, V) -> R;

pub struct LoopObl { pub con: Contract, pub text: String }

pub struct Sx<'a> {
    pub repo: &'a Repo,
    pub lib: &'a Lib,
    pub con: &'a Contracts,
    pub top: Contract,
    pub fresh: Cell<u32>,
    pub loops: RefCell<BTreeMap<String, usize>>,
    pub loop_obls: RefCell<Vec<LoopObl>>,
    pub used: RefCell<BTreeSet<String>>,
    pub inlined: RefCell<BTreeSet<String>>,
    pub assumed: RefCell<BTreeSet<String>>,
    pub dropped: RefCell<BTreeSet<String>>,
    /// item type of each repetition, by the name of its input
    pub rep_ty: RefCell<BTreeMap<String, Ty>>,
    /// writes record what is known instead of changing anything
    pub refining: Cell<bool>,
    /// recursion guard in force: (group, size, rank)
    pub rec: RefCell<Option<(String, String, i64)>>,
}

fn unparen(x: &Expr) -> &Expr { match x { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), x => x } }
fn simple(s: &str) -> bool { s.len() <= 28 && s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') || s.chars().all(|c| c.is_ascii_digit()) }
/// Whether a text uses a name made up after the given one.
fn names_after(s: &str, from: u32) -> bool {
    s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w.rsplit_once('_').map_or(false, |(h, n)| !h.is_empty() && n.parse::<u32>().map_or(false, |n| n > from)))
}
fn char_lit(c: char) -> String { format!("{:?}", c) }

impl<'a> Sx<'a> {
    pub fn new(repo: &'a Repo, lib: &'a Lib, con: &'a Contracts, top: Contract) -> Self {
        Sx { repo, lib, con, top, fresh: Cell::new(0), loops: Default::default(), loop_obls: Default::default(), used: Default::default(), inlined: Default::default(), assumed: Default::default(), dropped: Default::default(), rep_ty: Default::default(), refining: Cell::new(false), rec: Default::default() }
    }
    /// The whole body of the function under contract, as one expression.
    pub fn top_body(&self) -> R {
        let c = &self.top;
        let d = self.repo.fns.get(&c.key).ok_or(format!("function {} not found", c.key))?;
        if d.sig.asyncness.is_some() || d.sig.unsafety.is_some() { return Err("async or unsafe function".into()); }
        *self.rec.borrow_mut() = c.rec.clone();
        let ctx = fn_ctx(d, 0);
        let mut st = St { scope: Default::default(), store: Default::default(), ver: 0, wr: Default::default() };
        let mut i = 0;
        if d.sig.inputs.len() != c.params.len() { return Err(format!("{} takes {} arguments, its contract {}", c.key, d.sig.inputs.len(), c.params.len())); }
        let mut pats = vec![];
        let mut vals = vec![];
        let mut muts: Vec<String> = vec![];
        for a in &d.sig.inputs {
            let (n, t) = &c.params[i];
            let v = e(n.clone(), t.clone());
            let (byref, fmt, pat) = match a {
                FnArg::Receiver(r) => (r.reference.is_some() && r.mutability.is_some() || r.reference.is_none() && d.self_ty.as_deref().map_or(false, |t| self.holds_mut(t)), false, None),
                FnArg::Typed(t) => { let f = toks(&t.ty).contains("Formatter"); (matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) || f, f, Some((*t.pat).clone())) }
            };
            let v = if fmt { V::Fmt(Box::new(v)) } else { v };
            let key = format!("arg{}", i);
            if byref { st.store.insert(key.clone(), v); muts.push(key.clone()); }
            let v = if byref { V::Ref(Place { key, proj: vec![] }) } else { e(n.clone(), t.clone()) };
            match pat { None => { let mut s = st.clone(); self.declare(&mut s, "self", v); st = s; } Some(p) => { pats.push(Some(p)); vals.push(v); } }
            i += 1;
        }
        let rty = match &d.sig.output { ReturnType::Type(_, t) => Some(&**t), _ => None };
        let out = |st: St, v: V| -> R {
            let v = self.whole(&st, v)?;
            let v = self.retype(v, rty, &ctx)?;
            if let Some(inner) = &c.inner {
                let r = |_: St, _: V| -> R { Err(ESC.into()) };
                let f = Fr { ctx: &ctx, ret: &r, brk: None, cont: None, rty };
                return Ok(self.apply_v(&v, &inner[0].0, &st, &f)?.0);
            }
            if muts.is_empty() { return self.t(&v); }
            let mut vs = vec![];
            for m in &muts { let w = self.read(&st, &Place { key: m.clone(), proj: vec![] })?; vs.push(match self.whole(&st, w)? { V::Fmt(x) => *x, x => x }); }
            vs.push(v);
            self.t(&V::Tup(vs))
        };
        let fr = Fr { ctx: &ctx, ret: &out, brk: None, cont: None, rty };
        self.pats(vals.clone(), pats, 0, &|i| match &vals[i] { V::Ref(p) => Some(p.clone()), _ => None }, st, &fr, &|s| self.block(&d.block, s, &fr, &out), &|_| Err("refutable parameter".into()))
    }
    /// Whether a structure of the crate holds a mutable reference.
    fn holds_mut(&self, t: &str) -> bool { self.repo.structs.get(t).map_or(false, |(_, s)| s.fields.iter().any(|f| matches!(&f.ty, Type::Reference(r) if r.mutability.is_some()))) }
    fn nm(&self, p: &str) -> String { let n = self.fresh.get() + 1; self.fresh.set(n); format!("{}_{}", p, n) }
    fn note(&self, s: &str) { self.dropped.borrow_mut().insert(s.into()); }
    fn assume(&self, s: &str) { self.assumed.borrow_mut().insert(s.into()); }

    // ------------------------------------------------------------ values
    pub fn ex(&self, v: &V) -> R<(String, Ty)> {
        Ok(match v {
            V::E(s, t) => (s.clone(), t.clone()),
            V::Tup(vs) if vs.is_empty() => ("()".into(), Ty::Unit),
            V::Tup(vs) => { let a = self.exs(vs)?; (format!("({})", a.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), Ty::Tup(a.into_iter().map(|x| x.1).collect())) }
            V::C(n, vs) => {
                let a = self.exs(vs)?;
                let t = match n.as_str() {
                    "Some" => Ty::opt(a[0].1.clone()), "None" => Ty::opt(Ty::Any),
                    "Ok" => Ty::Res(Box::new(a[0].1.clone()), Box::new(Ty::Any)), "Err" => Ty::Res(Box::new(Ty::Any), Box::new(a[0].1.clone())),
                    "true" | "false" => Ty::Bool,
                    n => { let h = n.split("::").next().unwrap(); if h == "NE" { Ty::NE } else { Ty::Named(h.into()) } }
                };
                (if a.is_empty() { n.clone() } else { format!("{}({})", n, a.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")) }, t)
            }
            V::S(n, fs) => {
                let mut o = vec![];
                let ds = self.lib.structs.get(n).ok_or(format!("struct {}", n))?;
                let mut whole: Option<String> = None;
                for (i, (f, ft)) in ds.iter().enumerate() {
                    let t = self.ex(fs.get(f).ok_or(format!("field {}", f))?)?.0;
                    // a structure of which nothing has changed
                    let base = t.strip_suffix(&format!(".{}", f)).filter(|b| simple(b) || b.starts_with('(') && balanced(b)).map(|b| b.to_string());
                    whole = if i == 0 { base } else { whole.filter(|w| base.as_ref() == Some(w)) };
                    let nat = *ft == Ty::Int && t.ends_with(".len()");
                    o.push(format!("{}: {}{}", f, t, if nat { " as int" } else { "" }));
                }
                if let (Some(w), true) = (whole, ds.len() > 1) { return Ok((w, Ty::Named(n.clone()))); }
                (format!("{} {{ {} }}", n, o.join(", ")), Ty::Named(n.clone()))
            }
            V::Lit(s) => (format!("lit!({:?})", s), Ty::Str),
            V::It(i) => {
                if i.enumerated.is_some() || i.rev { return Err("iterator as a value".into()); }
                if i.maps.is_empty() { (i.seq.clone(), if i.elem == Ty::Char { Ty::Str } else { Ty::seq(i.elem.clone()) }) } else { return Err("lazy iterator as a value".into()); }
            }
            V::Arr(vs) => { let a = self.exs(vs)?; (format!("seq![{}]", a.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), Ty::seq(a.iter().map(|x| x.1.clone()).fold(Ty::Any, |a, b| Ty::join(&a, &b)))) }
            V::Range(Some(a), Some(b)) => return self.ex(&V::Tup(vec![(**a).clone(), (**b).clone()])),
            V::Fmt(v) => return self.ex(v),
            V::Upd { base, ty, idx, elem, dirty } => (if *dirty { format!("{}.update({}, {})", self.atom(base), idx, self.t(elem)?) } else { base.clone() }, ty.clone()),
            V::Num(n, _) => (n.clone(), Ty::Int),
            V::Opq(m) => return Err(m.clone()),
            V::Ref(p) => return Err(format!("reference to {} as a value", p.key)),
            V::F(p) => return Err(format!("function {} as a value", p)),
            V::Clo(_) => return Err("closure as a value".into()),
            V::P(_) => return Err("parser as a value".into()),
            V::Parse(_) => return Err("parse() into an unknown type".into()),
            V::Range(..) => return Err("range as a value".into()),
        })
    }
    fn exs(&self, vs: &[V]) -> R<Vec<(String, Ty)>> { vs.iter().map(|v| self.ex(v)).collect() }
    fn t(&self, v: &V) -> R { Ok(self.ex(v)?.0) }
    fn strong(&self, v: &V) -> R { let (s, t) = self.ex(v)?; if t != Ty::Str { return Err(format!("string expected, got {}", t.show())); } Ok(s) }
    fn ty(&self, v: &V) -> Ty { self.ex(v).map(|x| x.1).unwrap_or(Ty::Any) }

    /// Names a value so that it is printed once.
    fn bind(&self, v: V, k: &dyn Fn(V) -> R) -> R {
        match &v {
            V::E(s, t) if !simple(s) => { let n = self.nm("v"); let b = k(V::E(n.clone(), t.clone()))?; if b == n { return Ok(s.clone()); } Ok(if b.contains(&n) || b.contains(HOLE) { format!("{{ let {} = {}; {} }}", n, s, b) } else { b }) }
            V::Tup(vs) if vs.iter().any(|x| matches!(x, V::E(s, _) if !simple(s))) => self.bind_all(vs.clone(), vec![], &|vs| k(V::Tup(vs))),
            V::C(n, vs) if vs.iter().any(|x| matches!(x, V::E(s, _) if !simple(s))) => self.bind_all(vs.clone(), vec![], &|vs| k(V::C(n.clone(), vs))),
            _ => k(v),
        }
    }
    fn bind_all(&self, mut vs: Vec<V>, done: Vec<V>, k: &dyn Fn(Vec<V>) -> R) -> R {
        if vs.is_empty() { return k(done); }
        let v = vs.remove(0);
        self.bind(v, &|v| { let mut d = done.clone(); d.push(v); self.bind_all(vs.clone(), d, k) })
    }
    fn guard(&self, c: &str, body: R) -> R { let b = body?; Ok(if c == "true" { b } else { format!("(if {} {{ {} }} else {{ arb() }})", c, b) }) }
    fn iff(&self, c: &str, t: R, f: R) -> R {
        if c == "true" { return t; }
        if c == "false" { return f; }
        let (t, f) = (t?, f?);
        if t == f { return Ok(t); }
        if t == "true" && f == "false" { return Ok(c.into()); }
        if t == "false" && f == "true" { return Ok(format!("!({})", c)); }
        Ok(format!("(if {} {{ {} }} else {{ {} }})", c, t, f))
    }

    // ------------------------------------------------------------ places
    fn read(&self, st: &St, p: &Place) -> R<V> {
        let mut v = st.store.get(&p.key).cloned().ok_or(format!("unknown variable {}", p.key))?;
        if let V::Ref(q) = &v { v = self.read(st, q)?; }
        for j in &p.proj { if let V::Ref(q) = &v { v = self.read(st, q)?; } v = self.proj(&v, j)?; }
        Ok(v)
    }
    fn proj(&self, v: &V, j: &Pj) -> R<V> {
        Ok(match (v, j) {
            (V::Tup(vs), Pj::Field(f)) => { let i: usize = f.parse().map_err(|_| format!("field {} of tuple", f))?; vs.get(i).cloned().ok_or("tuple index")? }
            (V::S(_, fs), Pj::Field(f)) => fs.get(f).cloned().ok_or(format!("field {}", f))?,
            (V::Range(a, b), Pj::Field(f)) => match (f.as_str(), a, b) { ("start", Some(a), _) => (**a).clone(), ("end", _, Some(b)) => (**b).clone(), _ => return Err("range field".into()) },
            (V::E(s, Ty::Tup(ts)), Pj::Field(f)) => { let f = match f.as_str() { "start" => "0", "end" => "1", x => x }; let i: usize = f.parse().map_err(|_| format!("field {} of tuple", f))?; e(format!("{}.{}", self.atom(s), i), ts.get(i).cloned().ok_or("tuple index")?) }
            (V::E(s, Ty::Named(n)), Pj::Field(f)) => {
                let f = if f.chars().all(|c| c.is_ascii_digit()) { format!("f{}", f) } else { f.clone() };
                let t = self.lib.structs.get(n).and_then(|fs| fs.iter().find(|x| x.0 == f)).ok_or(format!("field {} of {}", f, n))?.1.clone();
                e(format!("{}.{}", self.atom(s), f), t)
            }
            (V::Upd { idx, elem, .. }, Pj::Idx(i)) if i == idx => (**elem).clone(),
            (V::Upd { .. }, Pj::Idx(i)) => { let (s, t) = self.ex(v)?; e(format!("{}[{}]", self.atom(&s), i), self.elem(&t)?) }
            (V::C(_, vs), Pj::Arg(i)) => vs.get(*i).cloned().ok_or("constructor argument")?,
            (V::E(s, t), Pj::Idx(i)) => e(format!("{}[{}]", self.atom(s), i), self.elem(t)?),
            (V::Opq(m), _) => return Err(m.clone()),
            (v, j) => return Err(format!("projection {:?} of {:?}", j, v).chars().take(160).collect()),
        })
    }
    fn atom(&self, s: &str) -> String { if simple(s) || (s.starts_with('(') && s.ends_with(')') && balanced(s)) { s.into() } else { format!("({})", s) } }
    fn elem(&self, t: &Ty) -> R<Ty> { match t { Ty::Str => Ok(Ty::Char), Ty::Seq(t) => Ok((**t).clone()), t => Err(format!("elements of {}", t.show())) } }
    fn write(&self, st: &mut St, p: &Place, v: V) -> R<()> {
        let cur = st.store.get(&p.key).cloned().ok_or(format!("unknown variable {}", p.key))?;
        if let V::Ref(q) = &cur {
            let mut q = q.clone();
            q.proj.extend(p.proj.clone());
            return self.write(st, &q, v);
        }
        // a reference held in a structure
        let mut c = cur.clone();
        for (i, j) in p.proj.iter().enumerate() { c = match self.proj(&c, j) { Ok(c) => c, Err(_) => break }; if let (V::Ref(q), true) = (&c, i + 1 < p.proj.len()) { let mut q = q.clone(); q.proj.extend(p.proj[i + 1..].iter().cloned()); return self.write(st, &q, v); } }
        if let (V::Ref(q), false) = (&c, matches!(v, V::Ref(_))) { if !p.proj.is_empty() { let q = q.clone(); return self.write(st, &q, v); } }
        // what was taken out of the place before (a reference into it cannot be in use)
        if !self.refining.get() {
            let inside: Vec<(String, Place)> = st.store.iter().filter_map(|(k, x)| match x { V::Ref(q) if q.key == p.key && q.proj.len() > p.proj.len() && q.proj[..p.proj.len()] == p.proj[..] => Some((k.clone(), q.clone())), _ => None }).collect();
            for (k, q) in inside { let old = self.read(st, &q).unwrap_or_else(V::Opq); st.store.insert(k, old); }
        }
        let n = self.put(cur, &p.proj, v)?;
        st.store.insert(p.key.clone(), n);
        st.ver += 1;
        st.wr.insert(p.key.clone(), st.ver);
        Ok(())
    }
    fn put(&self, cur: V, proj: &[Pj], v: V) -> R<V> {
        let Some(j) = proj.first() else { return Ok(v) };
        match (cur, j) {
            (V::Tup(mut vs), Pj::Field(f)) => { let i: usize = f.parse().unwrap(); vs[i] = self.put(vs[i].clone(), &proj[1..], v)?; Ok(V::Tup(vs)) }
            (V::S(n, mut fs), Pj::Field(f)) => { let f = if f.chars().all(|c| c.is_ascii_digit()) { format!("f{}", f) } else { f.clone() }; let o = fs.get(&f).cloned().ok_or(format!("field {}", f))?; fs.insert(f, self.put(o, &proj[1..], v)?); Ok(V::S(n, fs)) }
            (V::C(n, mut vs), Pj::Arg(i)) => { vs[*i] = self.put(vs[*i].clone(), &proj[1..], v)?; Ok(V::C(n, vs)) }
            (V::E(s, Ty::Named(n)), Pj::Field(_)) => {
                let fs = self.lib.structs.get(&n).ok_or(format!("struct {}", n))?.iter().map(|(f, t)| (f.clone(), e(format!("{}.{}", self.atom(&s), f), t.clone()))).collect();
                self.put(V::S(n, fs), proj, v)
            }
            (V::E(s, Ty::Tup(ts)), Pj::Field(_)) => self.put(V::Tup(ts.iter().enumerate().map(|(i, t)| e(format!("{}.{}", self.atom(&s), i), t.clone())).collect()), proj, v),
            (V::Range(a, b), Pj::Field(f)) => match f.as_str() { "start" => { let a = self.put(a.map(|a| *a).ok_or("range")?, &proj[1..], v)?; Ok(V::Range(Some(Box::new(a)), b)) } "end" => { let b = self.put(b.map(|b| *b).ok_or("range")?, &proj[1..], v)?; Ok(V::Range(a, Some(Box::new(b)))) } f => Err(format!("field {} of a range", f)) },
            (V::Upd { base, ty, idx, elem, dirty }, Pj::Idx(i)) if *i == idx => Ok(V::Upd { base, ty, idx, elem: Box::new(self.put(*elem, &proj[1..], v)?), dirty: dirty || !self.refining.get() }),
            (V::E(s, t), Pj::Idx(i)) if i == "0" => { let x = e(format!("{}[0]", self.atom(&s)), self.elem(&t)?); self.put(V::Upd { base: s, ty: t, idx: i.clone(), elem: Box::new(x), dirty: false }, proj, v) }
            (V::E(s, t), Pj::Idx(i)) if proj.len() == 1 => Ok(e(format!("{}.update({}, {})", self.atom(&s), i, self.t(&v)?), t)),
            (c, j) => Err(format!("assignment through {:?} of {:?}", j, c).chars().take(160).collect()),
        }
    }
    /// As `write`, of what is known anyway.
    fn refine(&self, st: &mut St, p: &Place, v: V) -> R<()> {
        let (ver, wr) = (st.ver, st.wr.clone());
        let old = self.refining.replace(true);
        let r = self.write(st, p, v);
        self.refining.set(old);
        st.ver = ver;
        st.wr = wr;
        r
    }
    /// The value with what its references refer to.
    fn whole(&self, st: &St, v: V) -> R<V> {
        Ok(match self.deref(st, v)? {
            V::S(n, fs) => { let mut o = BTreeMap::new(); for (f, v) in fs { o.insert(f, self.whole(st, v)?); } V::S(n, o) }
            V::C(n, vs) => V::C(n, vs.into_iter().map(|v| self.whole(st, v)).collect::<R<_>>()?),
            V::Tup(vs) => V::Tup(vs.into_iter().map(|v| self.whole(st, v)).collect::<R<_>>()?),
            v => v,
        })
    }
    /// As `whole`, of options and results.
    fn unref(&self, st: &St, v: V) -> R<V> {
        Ok(match self.deref(st, v)? {
            V::C(n, vs) if ["Some", "Ok", "Err"].contains(&n.as_str()) => V::C(n, vs.into_iter().map(|v| self.unref(st, v)).collect::<R<_>>()?),
            v => v,
        })
    }
    fn deref(&self, st: &St, v: V) -> R<V> { match v { V::Ref(p) => self.read(st, &p), v => Ok(v) } }
    fn lookup(&self, st: &St, n: &str) -> Option<String> { st.scope.get(n).cloned() }
    fn declare(&self, st: &mut St, n: &str, v: V) {
        let k = self.nm(n);
        let mut s = (*st.scope).clone();
        s.insert(n.into(), k.clone());
        st.scope = Rc::new(s);
        st.store.insert(k, v);
    }
    /// The place an expression denotes, if it denotes one.
    fn place(&self, x: &Expr, st: &St) -> Option<Place> {
        match x {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let key = self.lookup(st, &p.path.segments[0].ident.to_string())?;
                match st.store.get(&key)? { V::Ref(q) => Some(q.clone()), _ => Some(Place { key, proj: vec![] }) }
            }
            Expr::Field(f) => { let mut p = self.place(&f.base, st)?; p.proj.push(Pj::Field(match &f.member { Member::Named(n) => n.to_string(), Member::Unnamed(i) => i.index.to_string() })); Some(p) }
            Expr::Paren(p) => self.place(&p.expr, st),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.place(&u.expr, st),
            Expr::Reference(r) => self.place(&r.expr, st),
            Expr::MethodCall(m) if ["by_ref", "to_mut", "as_slice", "as_mut_slice", "borrow_mut"].contains(&m.method.to_string().as_str()) => self.place(&m.receiver, st),
            _ => None,
        }
    }

    /// As `place`, also of an element of a sequence; with the condition under which it exists.
    fn place_ix(&self, x: &Expr, st: &St) -> Option<(Place, String)> {
        match x {
            Expr::Index(i) if !matches!(&*i.index, Expr::Range(_)) => {
                let (mut p, g) = self.place_ix(&i.expr, st)?;
                if g != "true" { return None; }
                let n = match &*i.index { Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => n.base10_digits().to_string(), x => { let q = self.place(x, st)?; let v = self.read(st, &q).ok()?; let (s, t) = self.ex(&v).ok()?; if t != Ty::Int { return None; } s } };
                let (s, t) = self.ex(&self.read(st, &p).ok()?).ok()?;
                if !matches!(t, Ty::Seq(_)) { return None; }
                p.proj.push(Pj::Idx(n.clone()));
                Some((p, format!("(0 <= {} && {} < {}.len())", n, n, self.atom(&s))))
            }
            Expr::Field(f) => { let (mut p, g) = self.place_ix(&f.base, st)?; p.proj.push(Pj::Field(match &f.member { Member::Named(n) => n.to_string(), Member::Unnamed(i) => i.index.to_string() })); Some((p, g)) }
            Expr::Paren(p) => self.place_ix(&p.expr, st),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.place_ix(&u.expr, st),
            Expr::Reference(r) => self.place_ix(&r.expr, st),
            x => Some((self.place(x, st)?, "true".into())),
        }
    }

    // ---------------------------------------------------------- branching
    /// Runs `run`; joins its branches into one value when nothing else depends on them.
    fn joined(&self, st: &St, fr: &Fr, run: &dyn Fn(&Fr, K) -> R, k: K) -> R {
        let seen: RefCell<Vec<(St, V)>> = Default::default();
        let esc = |_: St, _: V| -> R { Err(ESC.into()) };
        let esc1 = |_: St| -> R { Err(ESC.into()) };
        let pf = Fr { ctx: fr.ctx, ret: &esc, brk: fr.brk.map(|_| &esc1 as &dyn Fn(St) -> R), cont: fr.cont.map(|_| &esc1 as &dyn Fn(St) -> R), rty: fr.rty };
        let save = self.fresh.get();
        let probe = run(&pf, &|s, v| { seen.borrow_mut().push((s, v)); Ok(HOLE.into()) });
        match &probe {
            Err(m) if m.contains(ESC) => return run(fr, k),
            Err(m) => return Err(m.clone()),
            _ => {}
        }
        let seen = seen.into_inner();
        if seen.len() == 1 && probe.as_deref() == Ok(HOLE) { let (s, v) = seen.into_iter().next().unwrap(); return k(s, v); }
        if seen.iter().all(|(s, v)| s.ver == st.ver && self.ex(v).is_ok()) && !seen.is_empty() {
            let ty = seen.iter().map(|(_, v)| self.ty(v)).fold(Ty::Any, |a, b| Ty::join(&a, &b));
            let bt = ty == Ty::Bool;
            let text = run(&pf, &|_, v| self.t(&v))?;
            let mut s = st.clone();
            s.scope = st.scope.clone();
            let _ = bt;
            return k(s, V::E(text, ty));
        }
        if seen.len() > 1 { if let Some(r) = self.merged(st, &pf, save, &seen, run, k) { return r; } }
        run(fr, k)
    }
    /// As `joined`, for branches that also leave variables with different values.
    fn merged(&self, st: &St, pf: &Fr, from: u32, seen: &[(St, V)], run: &dyn Fn(&Fr, K) -> R, k: K) -> Option<R> {
        let same = |vs: &[&V]| { let d = format!("{:?}", vs[0]); !names_after(&d, from) && vs.iter().all(|v| format!("{:?}", v) == d) };
        let mut keys = vec![];
        let mut out = st.clone();
        let ver = seen.iter().map(|(s, _)| s.ver).max().unwrap_or(0) + 1;
        out.ver = ver;
        for key in st.store.keys() {
            if seen.iter().all(|(s, _)| s.wr.get(key) == st.wr.get(key)) { continue; }
            out.wr.insert(key.clone(), ver);
            let vs: Vec<&V> = seen.iter().map(|(s, _)| s.store.get(key)).collect::<Option<_>>()?;
            if same(&vs) { out.store.insert(key.clone(), vs[0].clone()); continue; }
            keys.push(key.clone());
        }
        let vs: Vec<&V> = seen.iter().map(|(_, v)| v).collect();
        let value = if same(&vs) { Some(vs[0].clone()) } else { None };
        let mut tys: Vec<Ty> = vec![];
        for (n, (s, v)) in seen.iter().enumerate() {
            let mut leaves = vec![];
            for key in &keys { self.leaves(&s.store[key], &mut leaves).ok()?; }
            if value.is_none() { leaves.push(self.ex(v).ok()?); }
            if n == 0 { tys = leaves.into_iter().map(|x| x.1).collect(); } else {
                if tys.len() != leaves.len() { return None; }
                tys = tys.iter().zip(&leaves).map(|(a, b)| Ty::join(a, &b.1)).collect();
            }
        }
        if keys.iter().any(|key| seen.iter().any(|(s, _)| !self.alike(&s.store[key], &seen[0].0.store[key]))) { return None; }
        let text = run(pf, &|s, v| {
            let mut leaves = vec![];
            for key in &keys { self.leaves(&s.store[key], &mut leaves)?; }
            if value.is_none() { leaves.push(self.ex(&v)?); }
            let ts: Vec<String> = leaves.into_iter().map(|x| if x.0.parse::<u64>().is_ok() { format!("{}int", x.0) } else { x.0 }).collect();
            Ok(if ts.len() == 1 { ts[0].clone() } else { format!("({})", ts.join(", ")) })
        });
        let text = match text { Ok(t) => t, Err(m) => return Some(Err(m)) };
        let n = self.nm("j");
        let mut parts: Vec<V> = tys.iter().enumerate().map(|(i, t)| e(if tys.len() == 1 { n.clone() } else { format!("{}.{}", n, i) }, t.clone())).collect();
        parts.reverse();
        for key in &keys { let v = self.rebuild(&seen[0].0.store[key], &mut parts); out.store.insert(key.clone(), v); }
        let v = value.unwrap_or_else(|| parts.pop().unwrap());
        Some(k(out, v).map(|b| if b.contains(&n) || b.contains(HOLE) { format!("{{ let {} = {}; {} }}", n, text, b) } else { b }))
    }
    /// The parts of a variable's value that can be written down.
    fn leaves(&self, v: &V, out: &mut Vec<(String, Ty)>) -> R<()> {
        match v {
            V::Fmt(x) => self.leaves(x, out),
            V::Range(Some(a), Some(b)) => { self.leaves(a, out)?; self.leaves(b, out) }
            V::S(_, fs) => { for x in fs.values() { self.leaves(x, out)?; } Ok(()) }
            V::It(i) if i.enumerated.is_none() && !i.rev => { out.push((i.seq.clone(), Ty::seq(i.elem.clone()))); Ok(()) }
            V::E(..) | V::C(..) | V::Tup(..) | V::Arr(..) | V::Lit(..) | V::Upd { .. } => { out.push(self.ex(v)?); Ok(()) }
            _ => Err("no leaves".into()),
        }
    }
    fn alike(&self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::Fmt(a), V::Fmt(b)) => self.alike(a, b),
            (V::Range(Some(a), Some(c)), V::Range(Some(b), Some(d))) => self.alike(a, b) && self.alike(c, d),
            (V::S(m, a), V::S(n, b)) => m == n && a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| self.alike(x, y))),
            (V::It(a), V::It(b)) => a.elem == b.elem && a.maps.len() == b.maps.len() && format!("{:?}", a.maps) == format!("{:?}", b.maps) && a.place == b.place,
            (V::It(_) | V::S(..) | V::Fmt(_) | V::Range(..), _) | (_, V::It(_) | V::S(..) | V::Fmt(_) | V::Range(..)) => false,
            _ => true,
        }
    }
    fn rebuild(&self, v: &V, parts: &mut Vec<V>) -> V {
        match v {
            V::Fmt(x) => V::Fmt(Box::new(self.rebuild(x, parts))),
            V::Range(Some(a), Some(b)) => { let a = self.rebuild(a, parts); let b = self.rebuild(b, parts); V::Range(Some(Box::new(a)), Some(Box::new(b))) }
            V::S(n, fs) => V::S(n.clone(), fs.iter().map(|(f, x)| (f.clone(), self.rebuild(x, parts))).collect()),
            V::It(i) => { let mut j = (**i).clone(); let seq = match parts.pop() { Some(V::E(s, _)) => s, _ => String::new() }; j.seq = seq; j.opt = None; V::It(Rc::new(j)) }
            _ => parts.pop().unwrap(),
        }
    }
    fn cond(&self, x: &Expr, st: St, fr: &Fr, then: &dyn Fn(St) -> R, els: &dyn Fn(St) -> R) -> R {
        match unparen(x) {
            Expr::Let(l) => self.scrut(&l.expr, st, fr, &|st, v, pl| {
                let sc = st.scope.clone();
                self.pat(v, pl, &l.pat, st, fr, then, &|mut s| { s.scope = sc.clone(); els(s) })
            }),
            Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && has_let(x) => self.cond(&b.left, st, fr, &|s| self.cond(&b.right, s, fr, then, els), els),
            x => self.ev(x, st, fr, &|st, v| { let (c, t) = self.ex(&v)?; if t != Ty::Bool { return Err(format!("condition of type {}", t.show())); } self.iff(&c, then(st.clone()), els(st)) }),
        }
    }
    fn scrut(&self, x: &Expr, st: St, fr: &Fr, k: &dyn Fn(St, V, Option<Place>) -> R) -> R {
        let inner = match unparen(x) { Expr::Reference(r) => unparen(&r.expr), y => y };
        let inner = match inner { Expr::MethodCall(m) if m.method == "as_mut" || m.method == "as_deref_mut" => unparen(&m.receiver), y => y };
        if !matches!(inner, Expr::MethodCall(_)) {
            if let Some(p) = self.place(inner, &st) { let v = self.read(&st, &p)?; return k(st, v, Some(p)); }
        }
        self.ev(x, st, fr, &|st, v| self.bind(v, &|v| match &v { V::Ref(p) => k(st.clone(), v.clone(), Some(p.clone())), _ => k(st.clone(), v, None) }))
    }
    /// Constructor name and argument patterns of a pattern.
    fn pat_ctor(&self, p: &Pat, fr: &Fr) -> R<Option<(String, Vec<Option<Pat>>)>> {
        Ok(match p {
            Pat::TupleStruct(t) => {
                let n = self.ctor_name(&toks(&t.path).replace(' ', ""), fr)?;
                let mut v: Vec<Option<Pat>> = vec![];
                for p in &t.elems { v.push(if matches!(p, Pat::Rest(_)) { None } else { Some(p.clone()) }); }
                Some((n, v))
            }
            Pat::Path(t) => Some((self.ctor_name(&toks(&t.path).replace(' ', ""), fr)?, vec![])),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.ident == "None" => Some(("None".into(), vec![])),
            Pat::Struct(s) => {
                let full = self.path(&toks(&s.path).replace(' ', ""), fr);
                let (c, order) = self.con.ctors.get(&full).ok_or(format!("variant {}", full))?;
                let mut v: Vec<Option<Pat>> = vec![None; order.len()];
                for f in &s.fields { let n = toks(&f.member); let i = order.iter().position(|o| *o == n).ok_or(format!("field {}", n))?; v[i] = Some((*f.pat).clone()); }
                Some((c.clone(), v))
            }
            _ => None,
        })
    }
    fn path(&self, p: &str, fr: &Fr) -> String { self.repo.resolve(&fr.ctx.module, fr.ctx.self_ty.as_deref(), p) }
    fn ctor_name(&self, p: &str, fr: &Fr) -> R {
        let f = self.path(p, fr);
        self.ctor(&f).ok_or(format!("constructor {}", f))
    }
    fn ctor(&self, f: &str) -> Option<String> {
        match f.trim_start_matches("std::option::").trim_start_matches("std::result::").trim_start_matches("Option::").trim_start_matches("Result::") { "Some" => return Some("Some".into()), "None" => return Some("None".into()), "Ok" => return Some("Ok".into()), "Err" => return Some("Err".into()), _ => {} }
        match f { "nom::Err::Error" => return Some("NE::Error".into()), "nom::Err::Failure" => return Some("NE::Failure".into()), _ => {} }
        if let Some((c, _)) = self.con.ctors.get(f) { return Some(c.clone()); }
        let p = f.rfind("::")?;
        let en = self.con.types.get(&f[..p])?;
        let var = &f[p + 2..];
        if self.lib.enums.get(en)?.iter().any(|v| v.0 == var) { Some(format!("{}::{}", en, var)) } else { None }
    }
    fn variants(&self, t: &Ty) -> Option<Vec<(String, Vec<Ty>)>> {
        Some(match t {
            Ty::Opt(x) => vec![("Some".into(), vec![(**x).clone()]), ("None".into(), vec![])],
            Ty::Res(a, b) => vec![("Ok".into(), vec![(**a).clone()]), ("Err".into(), vec![(**b).clone()])],
            Ty::NE => vec![("NE::Error".into(), vec![]), ("NE::Failure".into(), vec![])],
            Ty::Named(n) => self.lib.enums.get(n)?.iter().map(|(v, t)| (format!("{}::{}", n, v), t.clone())).collect(),
            _ => return None,
        })
    }
    /// Matches `v` against `p`: `succ` with the bindings made, else `fail`.
    fn pat(&self, v: V, pl: Option<Place>, p: &Pat, st: St, fr: &Fr, succ: &dyn Fn(St) -> R, fail: &dyn Fn(St) -> R) -> R {
        let reference = if let V::Ref(p) = &v { Some(p.clone()) } else { None };
        let mut v = self.deref(&st, v)?;
        if let V::E(s, _) = &v { if let Some(k) = st.store.get(&format!("\u{2}{}", s)) { v = k.clone(); } }
        match p {
            Pat::Wild(_) | Pat::Rest(_) => return succ(st),
            Pat::Paren(q) => return self.pat(v, pl, &q.pat, st, fr, succ, fail),
            Pat::Reference(q) => return self.pat(v, pl, &q.pat, st, fr, succ, fail),
            Pat::Type(q) => return self.pat(v, pl, &q.pat, st, fr, succ, fail),
            Pat::Or(o) => {
                fn alt<'z>(sx: &Sx, cs: &[&Pat], v: &V, pl: &Option<Place>, st: St, fr: &Fr, succ: &dyn Fn(St) -> R, fail: &dyn Fn(St) -> R) -> R {
                    if cs.is_empty() { return fail(st); }
                    let sc = st.scope.clone();
                    sx.pat(v.clone(), pl.clone(), cs[0], st, fr, succ, &|mut s| { s.scope = sc.clone(); alt(sx, &cs[1..], v, pl, s, fr, succ, fail) })
                }
                // all alternatives literal: one condition
                if let Ok((s, t)) = self.ex(&v) {
                    if matches!(t, Ty::Char | Ty::Int) {
                        let cs: Option<Vec<String>> = o.cases.iter().map(|c| self.lit_cond(&s, c)).collect();
                        if let Some(cs) = cs { return self.iff(&format!("({})", cs.join(" || ")), succ(st.clone()), fail(st)); }
                    }
                }
                let cs: Vec<&Pat> = o.cases.iter().collect();
                return alt(self, &cs, &v, &pl, st, fr, succ, fail);
            }
            Pat::Lit(_) | Pat::Range(_) => {
                let (s, t) = self.ex(&v)?;
                if t == Ty::Str {
                    if let Pat::Lit(ExprLit { lit: Lit::Str(l), .. }) = p { let c = format!("({} == lit!({:?}))", s, l.value()); return self.iff(&c, succ(st.clone()), fail(st)); }
                }
                if let Pat::Lit(ExprLit { lit: Lit::Bool(b), .. }) = p { return if b.value { self.iff(&s, succ(st.clone()), fail(st)) } else { self.iff(&s, fail(st.clone()), succ(st)) }; }
                let c = self.lit_cond(&s, p).ok_or(format!("pattern {}", toks(p)))?;
                return self.iff(&c, succ(st.clone()), fail(st));
            }
            Pat::Tuple(t) => {
                let vs = match &v { V::Tup(vs) => vs.clone(), V::E(_, Ty::Unit) => vec![], V::E(s, Ty::Tup(ts)) => ts.iter().enumerate().map(|(i, t)| e(format!("{}.{}", self.atom(s), i), t.clone())).collect(), v => return Err(format!("tuple pattern on {:?}", self.ty(v))) };
                let mut ps: Vec<Option<&Pat>> = vec![];
                for q in &t.elems { if matches!(q, Pat::Rest(_)) { while ps.len() + (t.elems.len() - 1 - t.elems.iter().position(|x| matches!(x, Pat::Rest(_))).unwrap()) < vs.len() { ps.push(None); } } else { ps.push(Some(q)); } }
                if ps.len() != vs.len() { return Err("tuple pattern length".into()); }
                return self.pats(vs, ps.into_iter().map(|p| p.cloned()).collect(), 0, &|i| pl.clone().map(|mut p| { p.proj.push(Pj::Field(i.to_string())); p }), st, fr, succ, fail);
            }
            Pat::Ident(i) if i.ident != "None" || i.subpat.is_some() => {
                let n = i.ident.to_string();
                // a unit variant or constant in scope
                if n.chars().next().unwrap().is_uppercase() {
                    let f = self.path(&n, fr);
                    if let Some((m, _, x)) = self.repo.consts.get(&f) { let c = Ctx { module: m.clone(), ..fr.ctx.clone() }; let _ = c; let _ = x; return Err("constant pattern".into()); }
                }
                let bindv = |mut st: St, v: V| -> R {
                    let byref = pl.is_some() && (i.by_ref.is_some() || true) && pl.as_ref().map_or(false, |p| !p.proj.is_empty());
                    self.declare(&mut st, &n, if let Some(r) = &reference { V::Ref(r.clone()) } else if byref { V::Ref(pl.clone().unwrap()) } else { v });
                    succ(st)
                };
                if let Some((_, sub)) = &i.subpat { let v2 = v.clone(); return self.pat(v.clone(), pl.clone(), sub, st, fr, &|s| bindv(s, v2.clone()), fail); }
                return bindv(st, v);
            }
            _ => {}
        }
        if let Pat::TupleStruct(t) = p {
            // how a `Cow` holds its text is not part of its value: both are considered
            let f = self.path(&toks(&t.path).replace(' ', ""), fr);
            if let (Some(b), 1) = (match f.as_str() { "std::borrow::Cow::Borrowed" | "Cow::Borrowed" => Some(true), "std::borrow::Cow::Owned" | "Cow::Owned" => Some(false), _ => None }, t.elems.len()) {
                let s = self.strong(&v)?;
                let key = format!("\u{2}cow {}", s);
                let known = |b: bool| { let mut x = st.clone(); x.store.insert(key.clone(), boolean(if b { "true" } else { "false" })); x };
                let is = |b: bool| -> R { self.pat(v.clone(), pl.clone(), &t.elems[0], known(b), fr, succ, fail) };
                return match st.store.get(&key) {
                    Some(V::E(k, _)) => if (k == "true") == b { is(b) } else { fail(st) },
                    _ => self.iff(&format!("{}cow_borrowed({})", if b { "" } else { "!" }, s), is(b), fail(known(!b))),
                };
            }
        }
        let (c, args) = match self.pat_ctor(p, fr)? { Some(x) => x, None => return Err(format!("pattern {}", toks(p))) };
        let v = if let V::Parse(s) = &v { self.parse_as(&c, s, fr, p)? } else { v };
        match &v {
            V::C(n, vs) => {
                if *n != c { return fail(st); }
                if c.starts_with("NE::") { return succ(st); }
                let ps = fit(args, vs.len());
                self.pats(vs.clone(), ps, 0, &|i| pl.clone().map(|mut p| { p.proj.push(Pj::Arg(i)); p }), st, fr, succ, fail)
            }
            V::E(s, t) => {
                let vars = self.variants(t).ok_or(format!("constructor pattern {} on {}", c, t.show()))?;
                let (_, ts) = vars.iter().find(|x| x.0 == c).ok_or(format!("constructor {} of {}", c, t.show()))?;
                if t == &Ty::Any { return Err(format!("pattern {} on a value of unknown type", c)); }
                let xs: Vec<String> = ts.iter().map(|_| self.nm("x")).collect();
                let vs: Vec<V> = ts.iter().zip(&xs).map(|(t, x)| e(x.clone(), t.clone())).collect();
                let mut s2 = st.clone();
                // remember what the place holds
                if let Some(p) = &pl { self.refine(&mut s2, p, V::C(c.clone(), vs.clone()))?; }
                s2.store.insert(format!("\u{2}{}", s), V::C(c.clone(), vs.clone()));
                let ps = fit(args, if c.starts_with("NE::") { 0 } else { ts.len() });
                let inner_failed = Cell::new(false);
                let yes = self.pats(vs, ps, 0, &|i| pl.clone().map(|mut p| { p.proj.push(Pj::Arg(i)); p }), s2, fr, succ, &|s| { inner_failed.set(true); fail(s) })?;
                // the other constructors
                let rest: Vec<&(String, Vec<Ty>)> = vars.iter().filter(|x| x.0 != c).collect();
                let no = if rest.len() == 1 {
                    let ys: Vec<String> = rest[0].1.iter().map(|_| self.nm("x")).collect();
                    let mut s3 = st.clone();
                    let known = V::C(rest[0].0.clone(), rest[0].1.iter().zip(&ys).map(|(t, x)| e(x.clone(), t.clone())).collect());
                    if let Some(p) = &pl { self.refine(&mut s3, p, known.clone())?; }
                    let mut s3r = s3; s3r.store.insert(format!("\u{2}{}", s), known);
                    let b = fail(s3r)?;
                    format!("{}{} => {{ {} }}", rest[0].0, if ys.is_empty() { String::new() } else { format!("({})", ys.iter().map(|y| if b.contains(y.as_str()) { y.clone() } else { "_".into() }).collect::<Vec<_>>().join(", ")) }, b)
                } else { format!("_ => {{ {} }}", fail(st)?) };
                let xs: Vec<String> = xs.iter().map(|x| if yes.contains(x.as_str()) { x.clone() } else { "_".into() }).collect();
                Ok(format!("match {} {{ {}{} => {{ {} }}, {} }}", s, c, if xs.is_empty() { String::new() } else { format!("({})", xs.join(", ")) }, yes, no))
            }
            v => Err(format!("pattern {} on {}", c, self.ex(v).map(|x| x.1.show()).unwrap_or_else(|m| m))),
        }
    }
    fn lit_cond(&self, s: &str, p: &Pat) -> Option<String> {
        match p {
            Pat::Lit(l) => match &l.lit { Lit::Char(c) => Some(format!("({} == {})", s, char_lit(c.value()))), Lit::Byte(c) => Some(format!("({} == {})", s, char_lit(c.value() as char))), Lit::Int(i) => Some(format!("({} == {})", s, i.base10_digits())), _ => None },
            Pat::Range(r) => {
                let f = |x: &Option<Box<Expr>>| -> Option<Option<String>> { match x { None => Some(None), Some(x) => match &**x { Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(Some(char_lit(c.value()))), Expr::Lit(ExprLit { lit: Lit::Int(c), .. }) => Some(Some(c.base10_digits().into())), _ => None } } };
                let (a, b) = (f(&r.start)?, f(&r.end)?);
                let mut cs = vec![];
                if let Some(a) = a { cs.push(format!("{} <= {}", a, s)); }
                if let Some(b) = b { cs.push(format!("{} {} {}", s, if matches!(r.limits, RangeLimits::Closed(_)) { "<=" } else { "<" }, b)); }
                Some(format!("({})", cs.join(" && ")))
            }
            Pat::Or(o) => { let v: Option<Vec<String>> = o.cases.iter().map(|c| self.lit_cond(s, c)).collect(); Some(format!("({})", v?.join(" || "))) }
            Pat::Paren(q) => self.lit_cond(s, &q.pat),
            _ => None,
        }
    }
    fn pats(&self, vs: Vec<V>, ps: Vec<Option<Pat>>, i: usize, pl: &dyn Fn(usize) -> Option<Place>, st: St, fr: &Fr, succ: &dyn Fn(St) -> R, fail: &dyn Fn(St) -> R) -> R {
        if i == vs.len() { return succ(st); }
        match &ps[i] {
            None => self.pats(vs, ps, i + 1, pl, st, fr, succ, fail),
            Some(p) => self.pat(vs[i].clone(), pl(i), p, st, fr, &|s| self.pats(vs.clone(), ps.clone(), i + 1, pl, s, fr, succ, fail), fail),
        }
    }
    fn parse_as(&self, _c: &str, s: &V, fr: &Fr, p: &Pat) -> R<V> {
        // Ok(..) pattern naming an enum: the target is that enum
        let mut ids = BTreeSet::new();
        super::spec::idents(quote::ToTokens::to_token_stream(p), &mut ids);
        for (rt, ct) in &self.con.types { if self.lib.enums.contains_key(ct) && ids.contains(rt.rsplit("::").next().unwrap()) { return self.from_str(rt, s, fr); } }
        let rt = self.parse_target(fr)?;
        self.from_str(&rt, s, fr)
    }
    fn from_str(&self, rt: &str, s: &V, _fr: &Fr) -> R<V> {
        let key = format!("{}::from_str", rt);
        let c = self.con.fns.get(&key).ok_or(format!("no contract on {}", key))?;
        self.call_contract(c, &[s.clone()])
    }
}

fn fit(mut a: Vec<Option<Pat>>, n: usize) -> Vec<Option<Pat>> { while a.len() < n { a.push(None); } a.truncate(n); a }
fn has_let(x: &Expr) -> bool { match unparen(x) { Expr::Let(_) => true, Expr::Binary(b) => matches!(b.op, BinOp::And(_)) && (has_let(&b.left) || has_let(&b.right)), _ => false } }
pub fn balanced(s: &str) -> bool {
    let mut d = 0;
    let n = s.len();
    for (i, c) in s.char_indices() { match c { '(' | '[' | '{' => d += 1, ')' | ']' | '}' => { d -= 1; if d == 0 && i + 1 < n { return false; } } _ => {} } }
    true
}
include!("sx_eval.rs");
include!("sx_call.rs");
include!("sx_nom.rs");
