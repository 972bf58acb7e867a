//! Types of the contract language and the declarations of the contract library.
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Str, Char, Bool, Int, Unit, NE,
    Opt(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    Tup(Vec<Ty>),
    Seq(Box<Ty>),
    Named(String),
    Fun(Box<Ty>, Box<Ty>),
    Any,
}
impl Ty {
    pub fn pr(t: Ty) -> Ty { Ty::Res(Box::new(Ty::Tup(vec![Ty::Str, t])), Box::new(Ty::NE)) }
    pub fn opt(t: Ty) -> Ty { Ty::Opt(Box::new(t)) }
    pub fn seq(t: Ty) -> Ty { Ty::Seq(Box::new(t)) }
    pub fn is_pr(&self) -> Option<Ty> {
        match self { Ty::Res(a, b) if **b == Ty::NE => match &**a { Ty::Tup(v) if v.len() == 2 && v[0] == Ty::Str => Some(v[1].clone()), _ => None }, _ => None }
    }
    pub fn show(&self) -> String {
        match self {
            Ty::Str => "Str".into(), Ty::Char => "char".into(), Ty::Bool => "bool".into(), Ty::Int => "int".into(), Ty::Unit => "()".into(), Ty::NE => "NE".into(), Ty::Any => "_".into(),
            Ty::Opt(t) => format!("Option<{}>", t.show()),
            Ty::Res(a, b) => format!("Result<{}, {}>", a.show(), b.show()),
            Ty::Tup(v) => format!("({})", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Seq(t) => format!("Seq<{}>", t.show()),
            Ty::Named(n) => n.clone(),
            Ty::Fun(a, b) => format!("Fun<{}, {}>", a.show(), b.show()),
        }
    }
    pub fn join(a: &Ty, b: &Ty) -> Ty {
        match (a, b) {
            (Ty::Any, x) | (x, Ty::Any) => x.clone(),
            (Ty::Opt(x), Ty::Opt(y)) => Ty::opt(Ty::join(x, y)),
            (Ty::Res(x, u), Ty::Res(y, v)) => Ty::Res(Box::new(Ty::join(x, y)), Box::new(Ty::join(u, v))),
            (Ty::Seq(x), Ty::Seq(y)) => Ty::seq(Ty::join(x, y)),
            (Ty::Tup(x), Ty::Tup(y)) if x.len() == y.len() => Ty::Tup(x.iter().zip(y).map(|(a, b)| Ty::join(a, b)).collect()),
            (x, _) => x.clone(),
        }
    }
    pub fn parse(s: &str) -> std::result::Result<Ty, String> {
        Ty::of(&parse_str::<Type>(s).map_err(|e| format!("type {}: {}", s, e))?)
    }
    pub fn of(t: &Type) -> std::result::Result<Ty, String> {
        Ok(match t {
            Type::Tuple(t) if t.elems.is_empty() => Ty::Unit,
            Type::Tuple(t) => Ty::Tup(t.elems.iter().map(Ty::of).collect::<std::result::Result<_, _>>()?),
            Type::Paren(p) => Ty::of(&p.elem)?,
            Type::Infer(_) => Ty::Any,
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let a: Vec<Ty> = match &s.arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(Ty::of(t)) } else { None }).collect::<std::result::Result<_, _>>()?,
                    _ => vec![],
                };
                let b = |i: usize| Box::new(a[i].clone());
                match s.ident.to_string().as_str() {
                    "Str" => Ty::Str, "char" => Ty::Char, "bool" => Ty::Bool, "int" => Ty::Int, "NE" => Ty::NE,
                    "Option" => Ty::Opt(b(0)), "Result" => Ty::Res(b(0), b(1)), "PR" => Ty::pr(a[0].clone()), "Seq" => Ty::Seq(b(0)), "Fun" => Ty::Fun(b(0), b(1)),
                    n => Ty::Named(n.into()),
                }
            }
            _ => return Err(format!("type {}", super::spec::toks(t))),
        })
    }
    pub fn subst(&self, m: &BTreeMap<String, Ty>) -> Ty {
        match self {
            Ty::Named(n) => m.get(n).cloned().unwrap_or(self.clone()),
            Ty::Opt(t) => Ty::opt(t.subst(m)),
            Ty::Seq(t) => Ty::seq(t.subst(m)),
            Ty::Res(a, b) => Ty::Res(Box::new(a.subst(m)), Box::new(b.subst(m))),
            Ty::Fun(a, b) => Ty::Fun(Box::new(a.subst(m)), Box::new(b.subst(m))),
            Ty::Tup(v) => Ty::Tup(v.iter().map(|t| t.subst(m)).collect()),
            x => x.clone(),
        }
    }
    pub fn unify(&self, o: &Ty, gens: &[String], m: &mut BTreeMap<String, Ty>) {
        match (self, o) {
            (Ty::Named(n), t) if gens.contains(n) => { if *t != Ty::Any { m.entry(n.clone()).or_insert(t.clone()); } }
            (Ty::Opt(a), Ty::Opt(b)) | (Ty::Seq(a), Ty::Seq(b)) => a.unify(b, gens, m),
            (Ty::Res(a, b), Ty::Res(c, d)) | (Ty::Fun(a, b), Ty::Fun(c, d)) => { a.unify(c, gens, m); b.unify(d, gens, m); }
            (Ty::Tup(a), Ty::Tup(b)) => a.iter().zip(b).for_each(|(x, y)| x.unify(y, gens, m)),
            _ => {}
        }
    }
}

#[derive(Default)]
pub struct Lib {
    pub structs: BTreeMap<String, Vec<(String, Ty)>>,
    pub enums: BTreeMap<String, Vec<(String, Vec<Ty>)>>,
}
impl Lib {
    pub fn add(&mut self, f: &File) -> std::result::Result<(), String> {
        for it in &f.items {
            match it {
                Item::Struct(s) => { let v = s.fields.iter().map(|f| Ok((f.ident.as_ref().unwrap().to_string(), Ty::of(&f.ty)?))).collect::<std::result::Result<_, String>>()?; self.structs.insert(s.ident.to_string(), v); }
                Item::Enum(s) => {
                    let v = s.variants.iter().map(|v| Ok((v.ident.to_string(), v.fields.iter().map(|f| Ty::of(&f.ty)).collect::<std::result::Result<_, String>>()?))).collect::<std::result::Result<_, String>>()?;
                    self.enums.insert(s.ident.to_string(), v);
                }
                _ => {}
            }
        }
        Ok(())
    }
}
