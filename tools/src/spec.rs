//! Contract language -> (Verus spec functions | executable Rust functions).
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Verus,
    Exec,
}

pub struct Em {
    pub mode: Mode,
    scope: Vec<BTreeSet<String>>,
    ind: usize,
}

type R = std::result::Result<String, String>;

pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn pat_vars(p: &Pat, out: &mut BTreeSet<String>) {
    match p {
        Pat::Ident(i) => {
            let s = i.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                out.insert(s);
            }
            if let Some((_, sub)) = &i.subpat {
                pat_vars(sub, out)
            }
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|p| pat_vars(p, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|p| pat_vars(p, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| pat_vars(&f.pat, out)),
        Pat::Type(t) => pat_vars(&t.pat, out),
        Pat::Paren(t) => pat_vars(&t.pat, out),
        Pat::Reference(t) => pat_vars(&t.pat, out),
        Pat::Or(t) => t.cases.iter().for_each(|p| pat_vars(p, out)),
        _ => {}
    }
}

pub fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for tt in t {
        match tt {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

struct Args(punctuated::Punctuated<Expr, Token![,]>);
impl parse::Parse for Args {
    fn parse(input: parse::ParseStream) -> Result<Self> {
        Ok(Args(punctuated::Punctuated::parse_terminated(input)?))
    }
}
fn margs(m: &Macro) -> std::result::Result<Vec<Expr>, String> {
    Ok(m.parse_body::<Args>().map_err(|e| e.to_string())?.0.into_iter().collect())
}

impl Em {
    pub fn new(mode: Mode) -> Em {
        Em { mode, scope: vec![], ind: 1 }
    }
    fn nl(&self) -> String {
        format!("\n{}", "  ".repeat(self.ind))
    }
    fn in_scope(&self, s: &str) -> bool {
        self.scope.iter().any(|x| x.contains(s))
    }
    fn with<T>(&mut self, vars: BTreeSet<String>, f: impl FnOnce(&mut Self) -> T) -> T {
        self.scope.push(vars);
        self.ind += 1;
        let r = f(self);
        self.ind -= 1;
        self.scope.pop();
        r
    }
    fn list(&mut self, es: impl IntoIterator<Item = Expr>) -> R {
        Ok(es.into_iter().map(|e| self.expr(&e)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "))
    }
    pub fn block(&mut self, b: &Block) -> R {
        self.scope.push(BTreeSet::new());
        self.ind += 1;
        let mut s = String::from("{");
        for st in &b.stmts {
            s += &self.nl();
            match st {
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without init")?;
                    let e = self.expr(&init.expr)?;
                    let mut vs = BTreeSet::new();
                    pat_vars(&l.pat, &mut vs);
                    s += &format!("let {} = {};", toks(&l.pat), e);
                    self.scope.last_mut().unwrap().extend(vs);
                }
                Stmt::Expr(e, None) => s += &self.expr(e)?,
                Stmt::Macro(m) => {
                    s += &self.expr(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }))?
                }
                x => return Err(format!("spec stmt: {}", toks(x))),
            }
        }
        self.ind -= 1;
        self.scope.pop();
        s += &self.nl();
        s += "}";
        Ok(s)
    }
    pub fn expr(&mut self, e: &Expr) -> R {
        let ex = self.mode == Mode::Exec;
        Ok(match e {
            Expr::Path(p) => {
                let s = toks(p);
                if ex && self.in_scope(&s) { format!("{}.clone()", s) } else { s }
            }
            Expr::Lit(l) => toks(l),
            Expr::Paren(p) => format!("({})", self.expr(&p.expr)?),
            Expr::Group(p) => self.expr(&p.expr)?,
            Expr::Tuple(t) => {
                let n = t.elems.len();
                let l = self.list(t.elems.iter().cloned())?;
                if n == 1 { format!("({},)", l) } else { format!("({})", l) }
            }
            Expr::Call(c) => {
                let f = match &*c.func {
                    Expr::Path(p) => toks(p),
                    x => return Err(format!("spec call of {}", toks(x))),
                };
                format!("{}({})", f, self.list(c.args.iter().cloned())?)
            }
            Expr::MethodCall(m) => {
                format!("{}.{}({})", self.expr(&m.receiver)?, m.method, self.list(m.args.iter().cloned())?)
            }
            Expr::Index(i) => {
                if ex {
                    format!("{}.at({})", self.expr(&i.expr)?, self.expr(&i.index)?)
                } else {
                    format!("{}[{}]", self.expr(&i.expr)?, self.expr(&i.index)?)
                }
            }
            Expr::Field(f) => format!("{}.{}", self.expr(&f.base)?, toks(&f.member)),
            Expr::Unary(u) => format!("{}({})", toks(&u.op), self.expr(&u.expr)?),
            Expr::Binary(b) => format!("({} {} {})", self.expr(&b.left)?, toks(&b.op), self.expr(&b.right)?),
            Expr::Cast(c) => format!("({} as {})", self.expr(&c.expr)?, toks(&c.ty)),
            Expr::If(i) => {
                let c = self.expr(&i.cond)?;
                let t = self.block(&i.then_branch)?;
                let (_, els) = i.else_branch.as_ref().ok_or("if without else")?;
                format!("if {} {} else {}", c, t, match &**els { Expr::Block(b) => self.block(&b.block)?, x => self.expr(x)? })
            }
            Expr::Block(b) => self.block(&b.block)?,
            Expr::Match(m) => {
                let mut s = format!("match {} {{", self.expr(&m.expr)?);
                for a in &m.arms {
                    if a.guard.is_some() { return Err("guard in spec".into()); }
                    let mut vs = BTreeSet::new();
                    pat_vars(&a.pat, &mut vs);
                    let p = toks(&a.pat);
                    let nl = self.nl();
                    let b = self.with(vs, |s| s.expr(&a.body))?;
                    s += &format!("{}  {} => {},", nl, p, b);
                }
                s += &self.nl();
                s += "}";
                s
            }
            Expr::Struct(s) => {
                let mut fs = vec![];
                for f in &s.fields {
                    fs.push(format!("{}: {}", toks(&f.member), self.expr(&f.expr)?));
                }
                if let Some(r) = &s.rest { fs.push(format!("..{}", self.expr(r)?)); }
                format!("{} {{ {} }}", toks(&s.path), fs.join(", "))
            }
            Expr::Macro(m) => {
                let name = toks(&m.mac.path);
                match name.as_str() {
                    "lit" => {
                        let l: LitStr = m.mac.parse_body().map_err(|e| e.to_string())?;
                        if ex { format!("slit({:?})", l.value()) } else {
                            format!("seq![{}]", l.value().chars().map(|c| format!("{:?}", c)).collect::<Vec<_>>().join(", "))
                        }
                    }
                    "seq" => {
                        let a = self.list(margs(&m.mac)?)?;
                        if a.is_empty() { if ex { "Sq::new()".into() } else { "Seq::empty()".into() } }
                        else if ex { format!("Sq::from(vec![{}])", a) } else { format!("seq![{}]", a) }
                    }
                    "cat" => {
                        let a = margs(&m.mac)?;
                        let (x, y) = (self.expr(&a[0])?, self.expr(&a[1])?);
                        if ex { format!("{}.cat(&{})", x, y) } else { format!("({} + {})", x, y) }
                    }
                    "call" => {
                        let a = margs(&m.mac)?;
                        let f = self.expr(&a[0])?;
                        let rest = self.list(a[1..].iter().cloned())?;
                        if ex { format!("({})({})", f, rest) } else { format!("{}({})", f, rest) }
                    }
                    "func" => {
                        let c: ExprClosure = m.mac.parse_body().map_err(|e| e.to_string())?;
                        let mut ids = BTreeSet::new();
                        idents(c.body.to_token_stream(), &mut ids);
                        let mut vs = BTreeSet::new();
                        c.inputs.iter().for_each(|p| pat_vars(p, &mut vs));
                        let caps: Vec<String> = ids.iter().filter(|i| self.in_scope(i) && !vs.contains(*i)).cloned().collect();
                        let ps = c.inputs.iter().map(|p| toks(p)).collect::<Vec<_>>().join(", ");
                        let b = self.with(vs, |s| s.expr(&c.body))?;
                        if ex {
                            let cl: String = caps.iter().map(|c| format!("let {0} = {0}.clone(); ", c)).collect();
                            format!("{{ {}std::rc::Rc::new(move |{}| {{ {} }}) }}", cl, ps, b)
                        } else {
                            format!("(|{}| {})", ps, b)
                        }
                    }
                    x => return Err(format!("macro {} in spec", x)),
                }
            }
            x => return Err(format!("spec expr: {}", toks(x))),
        })
    }

    pub fn item_fn(&mut self, f: &ItemFn, opaque: bool) -> R {
        let mut vs = BTreeSet::new();
        for a in &f.sig.inputs {
            match a {
                FnArg::Typed(t) => pat_vars(&t.pat, &mut vs),
                _ => return Err("self in spec".into()),
            }
        }
        let mut body = (*f.block).clone();
        let mut dec = String::new();
        if let Some(Stmt::Macro(m)) = body.stmts.first() {
            if m.mac.path.is_ident("decreases") {
                dec = m.mac.tokens.to_string();
                body.stmts.remove(0);
            }
        }
        let mut gens: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if self.mode == Mode::Exec {
            gens = gens.into_iter().map(|g| format!("{}: Clone + 'static", g)).collect();
        }
        let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
        let args: Vec<String> = f.sig.inputs.iter().map(toks).collect();
        let ret = match &f.sig.output {
            ReturnType::Type(_, t) => toks(t),
            _ => return Err("no return type".into()),
        };
        self.scope = vec![vs];
        self.ind = 0;
        let b = self.block(&body)?;
        let doc: String = f.attrs.iter().filter_map(|a| match &a.meta {
            Meta::NameValue(n) if n.path.is_ident("doc") => match &n.value { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(format!("//{}\n", s.value())), _ => None },
            _ => None,
        }).collect();
        Ok(match self.mode {
            Mode::Verus => format!("{}{}pub open spec fn {}{}({}) -> {}{} {}\n", doc, if opaque { "#[verifier::opaque]\n" } else { "" }, f.sig.ident, g, args.join(", "), ret,
                if dec.is_empty() { String::new() } else { format!("\n  decreases {}", dec) }, b),
            Mode::Exec => format!("{}pub fn {}{}({}) -> {} {}\n", doc, f.sig.ident, g, args.join(", "), ret, b),
        })
    }

    pub fn file(&mut self, f: &File) -> R {
        let mut out = String::new();
        for it in &f.items {
            match it {
                Item::Fn(f) => out += &self.item_fn(f, false).map_err(|e| format!("{}: {}", f.sig.ident, e))?,
                Item::Enum(_) | Item::Struct(_) => {
                    if self.mode == Mode::Exec {
                        let cfg = matches!(it, Item::Struct(s) if s.ident == "Cfg" || toks(&s.fields).contains("Cfg"));
                        out += if cfg { "#[derive(Clone)]\n" } else { "#[derive(Clone, Debug, PartialEq)]\n" };
                    }
                    out += &toks(it);
                    out += "\n";
                }
                Item::Macro(_) => {}
                x => return Err(format!("spec item: {}", toks(x))),
            }
        }
        Ok(out)
    }
}
