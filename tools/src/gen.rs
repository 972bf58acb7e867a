//! Obligations: for every contract, the extracted function must equal its specification.
use super::contract::*;
use super::repo::*;
use super::spec::*;
use super::sx::*;
use super::ty::*;
use serde_json::{json, Value};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

fn plist(ps: &[(String, Ty)]) -> String { ps.iter().map(|(n, t)| format!("{}: {}", n, t.show())).collect::<Vec<_>>().join(", ") }
fn args(ps: &[(String, Ty)]) -> String { ps.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>().join(", ") }

/// One expression of the contract language in the given back end.
fn expr(mode: Mode, scope: &[(String, Ty)], src: &str) -> Result<String, String> {
    let f: syn::ItemFn = syn::parse_str(&format!("fn x({}) -> bool {{ {} }}", plist(scope), src)).map_err(|e| format!("{}: {}", e, src))?;
    let t = Em::new(mode).item_fn(&f, false)?;
    let i = t.find('{').unwrap();
    Ok(t[i..].trim().to_string())
}
fn function(mode: Mode, name: &str, gens: &[String], ps: &[(String, Ty)], ret: &Ty, body: &str) -> Result<String, String> {
    let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let src = format!("fn {}{}({}) -> {} {{ {} }}", name, g, plist(ps), ret.show(), body);
    let f: syn::ItemFn = syn::parse_str(&src).map_err(|e| format!("{}: {}", e, src))?;
    Em::new(mode).item_fn(&f, false)
}
/// Gives a name to the item parser of every repetition that only depends on the parameters.
struct Rep { name: String, j: String, body: String, ty: Ty }
fn hoist(id: &str, t: TokenStream, ps: &[(String, Ty)], tys: &BTreeMap<String, Ty>, out: &mut Vec<Rep>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut r = TokenStream::new();
    for (n, tt) in v.iter().enumerate() {
        let TokenTree::Group(g) = tt else { r.extend([tt.clone()]); continue };
        let rep = g.delimiter() == Delimiter::Parenthesis && n > 0 && matches!(&v[n - 1], TokenTree::Ident(i) if i == "n_many0" || i == "n_many1");
        let a: Vec<TokenTree> = g.stream().into_iter().collect();
        if rep && a.len() > 3 && a[0].to_string() == "func" {
            if let TokenTree::Group(f) = &a[2] {
                let c: Vec<TokenTree> = f.stream().into_iter().collect();
                let j = c[1].to_string();
                let body: TokenStream = c[5..].iter().cloned().collect();
                let rest: TokenStream = a[3..].iter().cloned().collect();
                let mut used = BTreeSet::new();
                let mut bound = BTreeSet::new();
                idents(body.clone(), &mut used);
                bound_names(body.clone(), &mut bound);
                let open: Vec<&String> = used.iter().filter(|u| generated(u) && **u != j && !bound.contains(*u)).collect();
                if let (true, Some(ty)) = (open.is_empty(), tys.get(&j)) {
                    if !ty.show().contains("Any") && !ty.show().contains('_') {
                        let body = hoist(id, body, &[], &BTreeMap::new(), out);
                        let name = format!("k_{}_{}", id, out.len() + 1);
                        let call: TokenStream = format!("func!(|{j}: Str| {name}({}{j}))", ps.iter().map(|p| format!("{}, ", p.0)).collect::<String>()).parse().unwrap();
                        out.push(Rep { name, j, body: body.to_string(), ty: ty.clone() });
                        let mut inner = call; inner.extend(rest);
                        let rest2 = hoist_rest(id, inner, ps, tys, out);
                        r.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, rest2))]);
                        continue;
                    }
                }
            }
        }
        r.extend([TokenTree::Group(Group::new(g.delimiter(), hoist(id, g.stream(), ps, tys, out)))]);
    }
    r
}
fn hoist_rest(id: &str, t: TokenStream, ps: &[(String, Ty)], tys: &BTreeMap<String, Ty>, out: &mut Vec<Rep>) -> TokenStream { hoist(id, t, ps, tys, out) }
/// Names invented by the extraction end in `_` and a number, and are bound once.
fn generated(s: &str) -> bool { s.rsplit_once('_').map_or(false, |(a, n)| a.len() == 1 && !n.is_empty() && n.chars().all(|c| c.is_ascii_digit())) }
fn bound_names(t: TokenStream, out: &mut BTreeSet<String>) {
    // a bound name occurs before `=>`, in a `let`, or between the bars of a closure
    let v: Vec<TokenTree> = t.into_iter().collect();
    let punct = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    for i in 0..v.len() {
        if punct(i + 1, '=') && punct(i + 2, '>') {
            // the pattern extends back to the previous `,` or the start
            idents(std::iter::once(v[i].clone()).collect(), out);
        }
        if matches!(&v[i], TokenTree::Ident(x) if x == "let") { if let Some(p) = v.get(i + 1) { idents(std::iter::once(p.clone()).collect(), out); } }
        if punct(i, '|') && matches!(v.get(i + 1), Some(TokenTree::Ident(_))) && punct(i + 2, ':') { idents(std::iter::once(v[i + 1].clone()).collect(), out); }
        if let TokenTree::Group(g) = &v[i] { bound_names(g.stream(), out); }
    }
}
fn obligation(c: &Contract, body: &str, gens: &[String], tys: &BTreeMap<String, Ty>) -> Result<Value, String> {
    let id = c.id();
    let mut ps = c.params.clone();
    if let Some(i) = &c.inner { ps.extend(i.clone()); }
    let ret = c.ret();
    let spec = c.spec.clone();
    let mut reps = vec![];
    let hoisted = if gens.is_empty() { hoist(&id, body.parse().map_err(|_| "body tokens")?, &ps, tys, &mut reps).to_string() } else { body.to_string() };
    let (mut b, mut bx) = (String::new(), String::new());
    let (mut lem, mut hides, mut use_lem) = (String::new(), String::new(), String::new());
    for h in &c.hide { hides += &format!("  hide({});\n", h); }
    let uses = c.uses.clone().unwrap_or("g_all".into());
    let bu = if uses == "none" { String::new() } else { format!("  broadcast use {};\n", uses) };
    for (n, r) in reps.iter().enumerate() {
        let mut kp = ps.clone();
        kp.push((r.j.clone(), Ty::Str));
        b += &function(Mode::Verus, &r.name, gens, &kp, &Ty::pr(r.ty.clone()), &r.body)?;
        bx += &function(Mode::Exec, &r.name, gens, &kp, &Ty::pr(r.ty.clone()), &r.body)?;
        if let Some((e, by)) = c.items.get(n) {
            let mut jp = ps.clone();
            jp.push(("j".into(), Ty::Str));
            let it = format!("{}({})", r.name, args(&jp));
            let e = e.replace("IT", &it);
            lem += &format!("#[verifier::spinoff_prover]\nproof fn o_{}_item{}({})\n  ensures {}\n{{\n{}{}}}\n", id, n + 1, plist(&jp), e, bu, by);
            hides += &format!("  hide({});\n", r.name);
            use_lem += &format!("  assert forall|j: Str| #![trigger {}] {} by {{ o_{}_item{}({}); }}\n", it, e, id, n + 1, args(&jp));
        }
    }
    let raw = c.abs.as_ref().map_or(ret.clone(), |a| a.0.clone());
    b += &function(Mode::Verus, &format!("b_{}", id), gens, &ps, &raw, &hoisted)?;
    bx += &function(Mode::Exec, &format!("b_{}", id), gens, &ps, &raw, &hoisted)?;
    let me = format!("b_{}({})", id, args(&ps));
    let lhs = match &c.abs { Some((_, a)) => expr(Mode::Verus, &ps, &a.replace("IT", &me))?, None => me.clone() };
    let ens = match &c.ensures { Some(a) => format!(", ({})", expr(Mode::Verus, &ps, &a.replace("IT", &me))?), None => String::new() };
    let sx = match &spec { Some(s) => function(Mode::Exec, &format!("c_{}", id), gens, &ps, &ret, s)?, None => String::new() };
    let eq = match &spec { Some(s) if c.fails() => format!("dn({}) == dn({})", lhs, expr(Mode::Verus, &ps, s)?), Some(s) => format!("({}) == ({})", lhs, expr(Mode::Verus, &ps, s)?), None => "true".into() };
    let bare = spec.is_none();
    let req = match &c.requires { Some(r) => format!("\n  requires ({})", expr(Mode::Verus, &ps, r)?), None => String::new() };
    let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let rl = c.rlimit.map_or(String::new(), |r| format!("#[verifier::rlimit({})]\n", r));
    let o = format!("{}{}#[verifier::spinoff_prover]\nproof fn o_{}{}({}){}\n  ensures {}{}\n{{\n{}{}{}{}}}\n", lem, rl, id, g, plist(&ps), req, eq, ens, hides, bu, use_lem, c.by);
    Ok(json!({"body": b, "obligation": o, "exec_body": bx, "exec_spec": sx, "bare": bare, "params": plist(&ps), "ret": ret.show()}))
}
pub fn run(root: &str, specs: &[String], cts: &[String]) -> Result<Value, String> {
    let repo = Repo::load(std::path::Path::new(root))?;
    let mut lib = Lib::default();
    for f in specs { lib.add(&syn::parse_file(&std::fs::read_to_string(f).map_err(|e| e.to_string())?).map_err(|e| format!("{}: {}", f, e))?)?; }
    let mut con = Contracts::default();
    for f in cts { con.add(&std::fs::read_to_string(f).map_err(|e| e.to_string())?).map_err(|e| format!("{}: {}", f, e))?; }
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    for c in con.fns.values() {
        let sx = Sx::new(&repo, &lib, &con, c.clone());
        let mut v = match sx.top_body() {
            Ok(b) => match obligation(c, &b, &c.gens, &sx.rep_ty.borrow()) { Ok(mut o) => { o["ok"] = json!(true); o } Err(e) => json!({"ok": false, "error": e, "raw": b}) },
            Err(e) => json!({"ok": false, "error": e}),
        };
        let d = repo.fns.get(&c.key);
        v["key"] = json!(c.key);
        v["missing"] = json!(d.is_none());
        if let Some(d) = d { v["file"] = json!(d.file.clone()); v["lines"] = json!([d.lines.0, d.lines.1]); }
        v["used"] = json!(sx.used.borrow().iter().map(|k| k.replace("::", "_")).collect::<Vec<_>>());
        v["inlined"] = json!(sx.inlined.borrow().iter().collect::<Vec<_>>());
        v["assumed"] = json!(sx.assumed.borrow().iter().collect::<Vec<_>>());
        v["dropped"] = json!(sx.dropped.borrow().iter().collect::<Vec<_>>());
        let mut loops = vec![];
        for l in sx.loop_obls.borrow().iter() {
            let mut lc = l.con.clone();
            let gens: Vec<String> = vec![];
            lc.gens = vec![];
            let mut o = match obligation(&lc, &l.text, &gens, &sx.rep_ty.borrow()) { Ok(mut o) => { o["ok"] = json!(true); o } Err(e) => json!({"ok": false, "error": e, "raw": l.text}) };
            o["key"] = json!(format!("{} loop {}", c.key, l.con.loop_no.unwrap()));
            o["used"] = json!([]); o["inlined"] = json!([]); o["assumed"] = json!([]); o["dropped"] = json!([]); o["missing"] = json!(false);
            if let Some(d) = d { o["file"] = json!(d.file.clone()); o["lines"] = json!([d.lines.0, d.lines.1]); }
            loops.push(l.con.id());
            out.insert(l.con.id(), o);
        }
        v["loops"] = json!(loops);
        out.insert(c.id(), v);
    }
    Ok(json!({"obligations": out, "unread": repo.unread, "functions": repo.fns.keys().collect::<Vec<_>>()}))
}
