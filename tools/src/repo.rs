//! Reads the crate's current source: functions, types, constants and name resolution.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::*;
use proc_macro2::TokenTree;

pub struct FnDef {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub lines: (usize, usize),
    pub trait_name: Option<String>,
}
#[derive(Default)]
pub struct Repo {
    pub fns: BTreeMap<String, FnDef>,
    uses: BTreeMap<String, BTreeMap<String, String>>,
    globs: BTreeMap<String, Vec<String>>,
    items: BTreeMap<String, ()>,
    pub consts: BTreeMap<String, (String, Type, Expr)>,
    pub structs: BTreeMap<String, (String, ItemStruct)>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub types: BTreeMap<String, (String, ItemType)>,
    pub unread: Vec<String>,
    macros: BTreeMap<String, Vec<(proc_macro2::TokenStream, proc_macro2::TokenStream)>>,
}
fn join(m: &str, n: &str) -> String { if m.is_empty() { n.to_string() } else { format!("{}::{}", m, n) } }
fn parent(m: &str) -> String { m.rfind("::").map_or(String::new(), |p| m[..p].to_string()) }
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && { let s = super::spec::toks(&a.meta); s.contains("test") && !s.contains("not") || s.contains("verif") }))
}
pub fn last_seg(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => last_seg(&r.elem),
        Type::Paren(r) => last_seg(&r.elem),
        Type::Group(r) => last_seg(&r.elem),
        _ => None,
    }
}
impl Repo {
    pub fn load(root: &Path) -> std::result::Result<Repo, String> {
        let mut r = Repo::default();
        r.file(root.join("src/lib.rs"), "", &root.join("src"))?;
        Ok(r)
    }
    fn file(&mut self, p: PathBuf, module: &str, dir: &Path) -> std::result::Result<(), String> {
        let src = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
        let f = parse_file(&src).map_err(|e| format!("{}: {}", p.display(), e))?;
        self.items_of(&f.items, module, dir, &p.display().to_string())
    }
    fn use_tree(&mut self, t: &UseTree, pre: String, module: &str) {
        match t {
            UseTree::Path(p) => self.use_tree(&p.tree, join(&pre, &p.ident.to_string()), module),
            UseTree::Name(n) => {
                let id = n.ident.to_string();
                if id == "self" {
                    let l = pre.rsplit("::").next().unwrap().to_string();
                    self.uses.entry(module.into()).or_default().insert(l, pre);
                } else {
                    self.uses.entry(module.into()).or_default().insert(id.clone(), join(&pre, &id));
                }
            }
            UseTree::Rename(n) => { self.uses.entry(module.into()).or_default().insert(n.rename.to_string(), join(&pre, &n.ident.to_string())); }
            UseTree::Glob(_) => self.globs.entry(module.into()).or_default().push(pre),
            UseTree::Group(g) => for t in &g.items { self.use_tree(t, pre.clone(), module) },
        }
    }
    fn add_fn(&mut self, key: String, module: &str, self_ty: Option<String>, sig: &Signature, block: &Block, file: &str, trait_name: Option<String>) {
        use syn::spanned::Spanned;
        let lines = (sig.span().start().line, block.span().end().line);
        self.items.insert(key.clone(), ());
        self.fns.entry(key.clone()).or_insert(FnDef { key, module: module.into(), self_ty, sig: sig.clone(), block: block.clone(), file: file.into(), lines, trait_name });
    }
    fn items_of(&mut self, items: &[Item], module: &str, dir: &Path, file: &str) -> std::result::Result<(), String> {
        for it in items {
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    let name = m.ident.to_string();
                    let full = join(module, &name);
                    self.items.insert(full.clone(), ());
                    if let Some((_, its)) = &m.content { self.items_of(its, &full, &dir.join(&name), file)?; }
                    else {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        self.file(if a.exists() { a } else { b }, &full, &dir.join(&name))?;
                    }
                }
                Item::Use(u) => self.use_tree(&u.tree, String::new(), module),
                Item::Fn(f) if !is_test(&f.attrs) => self.add_fn(join(module, &f.sig.ident.to_string()), module, None, &f.sig, &f.block, file, None),
                Item::Struct(s) => {
                    let k = join(module, &s.ident.to_string());
                    self.items.insert(k.clone(), ());
                    self.derives.insert(k.clone(), derives(&s.attrs));
                    self.structs.insert(k, (module.into(), s.clone()));
                }
                Item::Enum(s) => {
                    let k = join(module, &s.ident.to_string());
                    self.items.insert(k.clone(), ());
                    self.derives.insert(k.clone(), derives(&s.attrs));
                    self.enums.insert(k, s.clone());
                }
                Item::Type(t) => { let k = join(module, &t.ident.to_string()); self.items.insert(k.clone(), ()); self.types.insert(k, (module.into(), t.clone())); }
                Item::Const(c) => { let k = join(module, &c.ident.to_string()); self.items.insert(k.clone(), ()); self.consts.insert(k, (module.into(), (*c.ty).clone(), (*c.expr).clone())); }
                Item::Static(c) => { let k = join(module, &c.ident.to_string()); self.items.insert(k.clone(), ()); self.consts.insert(k, (module.into(), (*c.ty).clone(), (*c.expr).clone())); }
                Item::Trait(t) => { self.items.insert(join(module, &t.ident.to_string()), ()); }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let Some(n) = last_seg(&i.self_ty) else { continue };
                    let ty = self.resolve(module, None, &n);
                    // `impl Trait for &T` and `&mut T` are different functions from those of `T`
                    let byref = match &*i.self_ty { Type::Reference(r) => if r.mutability.is_some() { "refmut_" } else { "ref_" }, _ => "" };
                    let tn = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for it in &i.items {
                        match it {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                let mut key = join(&ty, &format!("{}{}", byref, f.sig.ident));
                                if tn.as_deref() == Some("Debug") || self.fns.contains_key(&key) { key = format!("{}::{}::{}", ty, tn.clone().unwrap_or("impl".into()), f.sig.ident); }
                                let mut sig = f.sig.clone();
                                if let (Some(FnArg::Receiver(r)), false) = (sig.inputs.first_mut(), byref.is_empty()) { if r.reference.is_none() { *r = if byref == "ref_" { parse_quote!(&self) } else { parse_quote!(&mut self) }; } }
                                self.add_fn(key, module, Some(ty.clone()), &sig, &f.block, file, tn.clone());
                            }
                            ImplItem::Const(c) => { self.consts.insert(join(&ty, &c.ident.to_string()), (module.into(), c.ty.clone(), c.expr.clone())); }
                            ImplItem::Macro(m) => {
                                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                                let ex = self.expand(&name, m.mac.tokens.clone()).and_then(|t| syn::parse2::<ImplItems>(t).ok());
                                let Some(ImplItems(fs)) = ex else { self.unread.push(format!("{}: macro {}", file, name)); continue };
                                for f in fs {
                                    let mut sig = f.sig.clone();
                                    if let (Some(FnArg::Receiver(r)), false) = (sig.inputs.first_mut(), byref.is_empty()) { if r.reference.is_none() { *r = if byref == "ref_" { parse_quote!(&self) } else { parse_quote!(&mut self) }; } }
                                    self.add_fn(join(&ty, &format!("{}{}", byref, f.sig.ident)), module, Some(ty.clone()), &sig, &f.block, file, tn.clone());
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Item::Macro(m) if m.ident.is_some() && !is_test(&m.attrs) => {
                    let name = m.ident.as_ref().unwrap().to_string();
                    match rules(m.mac.tokens.clone()) { Some(r) => { self.macros.insert(name, r); } None => self.unread.push(format!("{}: macro {}", file, name)) }
                }
                Item::Macro(m) => if !is_test(&m.attrs) { self.unread.push(format!("{}: macro {}", file, m.ident.as_ref().map_or(super::spec::toks(&m.mac.path), |i| i.to_string()))); },
                _ => {}
            }
        }
        Ok(())
    }
    fn expand(&self, name: &str, args: proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> {
        for (p, b) in self.macros.get(name)? {
            let mut m = BTreeMap::new();
            let (p, a): (Vec<TokenTree>, Vec<TokenTree>) = (p.clone().into_iter().collect(), args.clone().into_iter().collect());
            if matches(&p, &a, &mut m) { return Some(fill(b.clone(), &m)); }
        }
        None
    }
    /// Full path of a name used in `module`: crate items without `crate::`, others as imported.
    pub fn resolve(&self, module: &str, self_ty: Option<&str>, path: &str) -> String {
        self.res(module, self_ty, path, 0)
    }
    fn res(&self, module: &str, self_ty: Option<&str>, path: &str, depth: usize) -> String {
        if depth > 12 { return path.into(); }
        let mut segs: Vec<&str> = path.split("::").filter(|s| !s.is_empty()).collect();
        if segs.is_empty() { return path.into(); }
        match segs[0] {
            "crate" => return self.canon(&segs[1..].join("::"), depth),
            "self" => return self.canon(&join(module, &segs[1..].join("::")), depth),
            "super" => {
                let mut m = parent(module);
                segs.remove(0);
                while segs.first() == Some(&"super") { m = parent(&m); segs.remove(0); }
                return self.canon(&join(&m, &segs.join("::")), depth);
            }
            "Self" => if let Some(s) = self_ty { return join(s, &segs[1..].join("::")).trim_end_matches("::").to_string(); },
            _ => {}
        }
        let local = join(module, segs[0]);
        if let Some(u) = self.uses.get(module).and_then(|u| u.get(segs[0])) {
            let rest = segs[1..].join("::");
            let full = if rest.is_empty() { u.clone() } else { join(u, &rest) };
            let head = u.split("::").next().unwrap();
            if ["crate", "self", "super"].contains(&head) || self.items.contains_key(&join(module, head)) { return self.res(module, self_ty, &full, depth + 1); }
            return full;
        }
        if self.items.contains_key(&local) { return self.canon(&join(module, path), depth); }
        path.into()
    }
    /// Follows re-exports.
    fn canon(&self, full: &str, depth: usize) -> String {
        let segs: Vec<&str> = full.split("::").collect();
        let mut m = String::new();
        for (i, s) in segs.iter().enumerate() {
            let here = join(&m, s);
            if !self.items.contains_key(&here) {
                if let Some(u) = self.uses.get(&m).and_then(|u| u.get(*s)) {
                    let rest = segs[i + 1..].join("::");
                    let f = if rest.is_empty() { u.clone() } else { join(u, &rest) };
                    return self.res(&m, None, &f, depth + 1);
                }
                if let Some(gs) = self.globs.get(&m) {
                    for g in gs {
                        let gm = self.res(&m, None, g, depth + 1);
                        if self.items.contains_key(&join(&gm, s)) { return self.canon(&join(&gm, &segs[i..].join("::")), depth + 1); }
                    }
                }
                return full.into();
            }
            m = here;
        }
        full.into()
    }
}
struct ImplItems(Vec<ImplItemFn>);
impl parse::Parse for ImplItems { fn parse(i: parse::ParseStream) -> Result<Self> { let mut v = vec![]; while !i.is_empty() { v.push(i.parse()?); } Ok(ImplItems(v)) } }
/// The rules of a `macro_rules!` without repetitions.
fn rules(t: proc_macro2::TokenStream) -> Option<Vec<(proc_macro2::TokenStream, proc_macro2::TokenStream)>> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < v.len() {
        match (v.get(i), v.get(i + 3)) {
            (Some(TokenTree::Group(p)), Some(TokenTree::Group(b))) => { if p.to_string().contains("$ (") || p.to_string().contains("$(") { return None; } out.push((p.stream(), b.stream())); i += 4; }
            _ => return None,
        }
        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
    }
    Some(out)
}
fn matches(p: &[TokenTree], a: &[TokenTree], m: &mut BTreeMap<String, proc_macro2::TokenStream>) -> bool {
    if p.is_empty() { return a.is_empty(); }
    if let (TokenTree::Punct(d), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(k))) = (&p[0], p.get(1), p.get(2), p.get(3)) {
        if d.as_char() == '$' && c.as_char() == ':' {
            // one token for names and the like, all up to the next literal token otherwise
            let one = ["ident", "tt", "literal", "lifetime"].contains(&k.to_string().as_str());
            let lens: Vec<usize> = if one { vec![1] } else { (1..=a.len()).collect() };
            for n2 in lens {
                if n2 > a.len() { return false; }
                if k == "ident" && !matches!(a[0], TokenTree::Ident(_)) { return false; }
                m.insert(n.to_string(), a[..n2].iter().cloned().collect());
                if matches(&p[4..], &a[n2..], m) { return true; }
            }
            return false;
        }
    }
    match (&p[0], a.first()) {
        (TokenTree::Group(g), Some(TokenTree::Group(h))) => g.delimiter() == h.delimiter() && matches(&g.stream().into_iter().collect::<Vec<_>>(), &h.stream().into_iter().collect::<Vec<_>>(), m) && matches(&p[1..], &a[1..], m),
        (TokenTree::Group(_), _) | (_, None) => false,
        (x, Some(y)) => x.to_string() == y.to_string() && matches(&p[1..], &a[1..], m),
    }
}
fn fill(t: proc_macro2::TokenStream, m: &BTreeMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = proc_macro2::TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) { Some(TokenTree::Ident(n)) if m.contains_key(&n.to_string()) => { out.extend(m[&n.to_string()].clone()); i += 2; continue; } _ => out.extend([v[i].clone()]) },
            TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), fill(g.stream(), m)))]),
            x => out.extend([x.clone()]),
        }
        i += 1;
    }
    out
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let mut ids = Default::default();
            super::spec::idents(match &a.meta { Meta::List(l) => l.tokens.clone(), _ => continue }, &mut ids);
            v.extend(ids);
        }
    }
    v
}
