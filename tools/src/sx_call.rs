impl<'a> Sx<'a> {
    fn call_expr(&self, c: &ExprCall, st: St, fr: &Fr, k: K) -> R {
        let args: Vec<&Expr> = c.args.iter().collect();
        if let Expr::Path(p) = unparen(&c.func) {
            let t = strip_generics(&toks(&p.path).replace(' ', ""));
            let local = p.path.segments.len() == 1 && self.lookup(&st, &t).is_some();
            if !local {
                if fr.ctx.gens.contains(&t.split("::").next().unwrap().to_string()) && t.ends_with("::deserialize") && args.len() == 1 {
                    // the target type's own way of deserializing: as a seed
                    let (a, r) = (Ty::Named("SeedIn".into()), Ty::Tup(vec![Ty::Named("DeS".into()), Ty::Res(Box::new(Ty::Named("W".into())), Box::new(Ty::Named("DeErr".into())))]));
                    return self.ev_all(&args, vec![], st, fr, &|st, vs| self.visit("func!(|s: SeedIn| x_deserialize(s))", &a, &r, "deserialize", vs, st, k));
                }
                if fr.ctx.gens.contains(&t.split("::").next().unwrap().to_string()) { return k(st, V::Opq(format!("value of the error type ({})", t))); }
                let f = self.path(&t, fr);
                if f == "nom::Err::Error" || f == "nom::Err::Failure" {
                    self.note("contents of parser errors");
                    if args.iter().any(|a| !pure_expr(a)) { return Err("effects inside a parser error".into()); }
                    return k(st, V::C(if f.ends_with("Error") { "NE::Error".into() } else { "NE::Failure".into() }, vec![]));
                }
                if ["std::mem::take", "mem::take", "std::mem::replace", "mem::replace"].contains(&f.as_str()) {
                    let (p, g) = self.place_ix(args[0], &st).ok_or("mem::replace target")?;
                    if f.ends_with("take") { let old = self.read(&st, &p)?; let d = match self.ty(&old) { Ty::Str => V::Lit(String::new()), Ty::Opt(_) => none(), Ty::Seq(t) => e("seq![]", Ty::Seq(t)), Ty::Bool => boolean("false"), t => return Err(format!("mem::take of {}", t.show())) }; let mut st = st; self.write(&mut st, &p, d)?; return self.guard(&g, k(st, old)); }
                    return self.evj(args[1], st, fr, &|st, v| { let old = self.read(&st, &p)?; let mut st = st; let v = self.deref(&st, v)?; self.write(&mut st, &p, v)?; self.guard(&g, k(st, old)) });
                }
                return self.ev_all(&args, vec![], st, fr, &|st, vs| self.call_path_x(&f, &toks(&p.path), vs, st, fr, k));
            }
        }
        self.evj(&c.func, st, fr, &|st, f| self.ev_all(&args, vec![], st, fr, &|st, vs| { let f = self.deref(&st, f.clone())?; self.call_value(&f, vs, st, fr, k) }))
    }
    pub fn call_value(&self, f: &V, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        match f {
            V::Clo(c) => {
                let s0 = st.clone();
                self.joined(&st, fr, &|f2, kk| {
                    let back = s0.scope.clone();
                    let mut s = s0.clone();
                    s.scope = c.scope.clone();
                    let done = |mut s: St, v: V| -> R { let v = self.deref(&s, v)?; s.scope = back.clone(); kk(s, v) };
                    let inner = Fr { ctx: &c.ctx, ret: &done, brk: None, cont: None, rty: None };
                    let _ = f2;
                    if c.params.len() != args.len() { return Err("closure arity".into()); }
                    self.pats(args.clone(), c.params.iter().cloned().map(Some).collect(), 0, &|i| match &args[i] { V::Ref(p) => Some(p.clone()), _ => None }, s, &inner, &|s| self.ev(&c.body, s, &inner, &done), &|_| Err("refutable closure parameter".into()))
                }, k)
            }
            V::F(p) => self.call_path(p, args, st, fr, k),
            V::P(p) => { if args.len() != 1 { return Err("parser arity".into()); } let i = self.deref(&st, args[0].clone())?; let i = self.strong(&i)?; let (t, ty) = self.apply(p, &i, &st, fr)?; k(st, e(t, ty)) }
            V::E(s, Ty::Fun(_, r)) => { let vs: R<Vec<V>> = args.into_iter().map(|v| self.deref(&st, v)).collect(); let vs = vs?; let a = if vs.len() == 1 { self.t(&vs[0])? } else { self.t(&V::Tup(vs))? }; k(st, e(format!("call!({}, {})", s, a), (**r).clone())) }
            V::C(n, v) if v.is_empty() => k(st, V::C(n.clone(), args)),
            V::Opq(m) => Err(m.clone()),
            _ => Err("call of a value that is not a function".into()),
        }
    }
    fn call_path(&self, f: &str, args: Vec<V>, st: St, fr: &Fr, k: K) -> R { self.call_path_x(f, f, args, st, fr, k) }
    /// `args[0]` is the receiver for methods.
    fn call_path_x(&self, f: &str, written: &str, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        if let Some(c) = self.con.fns.get(f) {
            if self.repo.fns.contains_key(f) && !c.inline && (c.spec.is_some() || c.inner.is_some()) { return self.call_with_contract(c, args, st, fr, k); }
        }
        if let Some(d) = self.repo.fns.get(f) { return self.inline(d, args, st, fr, k); }
        if let Some(c) = self.ctor(f) { let keep = ["Some", "Ok", "Err"].contains(&c.as_str()); let vs: R<Vec<V>> = args.into_iter().map(|v| if keep { Ok(v) } else { self.deref(&st, v) }).collect(); return k(st.clone(), V::C(c, vs?)); }
        // tuple struct of the crate
        if let Some(t) = self.con.types.get(f) { if self.lib.structs.contains_key(t) && self.repo.structs.contains_key(f) { let mut fs = BTreeMap::new(); for (i, v) in args.into_iter().enumerate() { fs.insert(format!("f{}", i), self.deref(&st, v)?); } return k(st, V::S(t.clone(), fs)); } }
        let args: R<Vec<V>> = args.into_iter().map(|v| if matches!(v, V::Ref(_)) { Ok(v) } else { self.deref(&st, v) }).collect();
        let args = args?;
        if f.starts_with("nom::") { return self.nom(f, args, st, fr, k); }
        let a0 = args.first().cloned();
        let n = f.rsplit("::").next().unwrap();
        match (f, n) {
            ("std::borrow::Cow::from" | "Cow::from" | "std::borrow::Cow::Borrowed" | "std::borrow::Cow::Owned" | "String::from" | "str::to_owned" | "String::from_iter" | "Box::new" | "std::boxed::Box::new" | "Into::into" | "From::from" | "str::to_string" | "ToString::to_string" | "ToOwned::to_owned" | "Clone::clone" | "AsRef::as_ref" | "std::convert::identity" | "Cow::into_owned" | "std::borrow::Cow::into_owned" | "std::vec::Vec::from_iter" | "Vec::from_iter" | "str::to_lowercase" | "str::to_uppercase" | "str::len" | "str::is_empty" | "str::trim" | "std::rc::Rc::new" | "Rc::new" | "std::rc::Rc::from" | "Rc::from" | "Box::from" | "std::boxed::Box::from" | "Arc::from" | "std::sync::Arc::from" | "Some::into" | "IntoIterator::into_iter" | "Option::is_some" | "Option::is_none", _) if !args.is_empty() => {
                if ["to_lowercase", "to_uppercase", "len", "is_empty", "is_some", "is_none", "into_iter"].contains(&n) { return self.method(a0.unwrap(), None, n, args[1..].to_vec(), &[], "", st, fr, k); }
                if n == "from_iter" { let i = self.deref(&st, a0.unwrap())?; return self.method(i, None, "collect", vec![], &[], "", st, fr, k); }
                let v = self.deref(&st, a0.unwrap())?; k(st, v)
            }
            ("String::new" | "std::string::String::new" | "String::with_capacity", _) => k(st, V::Lit(String::new())),
            ("Vec::new" | "Vec::with_capacity" | "std::vec::Vec::new", _) => k(st, e("seq![]", Ty::seq(Ty::Any))),
            ("std::char::from_u32" | "char::from_u32", _) => { let x = self.t(&a0.ok_or("arg")?)?; self.assume("std: char::from_u32"); k(st, e(format!("n_char_from_u32({})", x), Ty::opt(Ty::Char))) }
            ("u32::from_str_radix", _) => { let s = self.strong(&args[0])?; let b = self.t(&args[1])?; self.assume("std: u32::from_str_radix"); k(st, e(format!("o_res(n_from_str_radix({}, {}))", b, s), Ty::Res(Box::new(Ty::Int), Box::new(Ty::Unit)))) }
            _ if f.starts_with("serde::de::Unexpected::") || f.starts_with("Unexpected::") => k(st, V::Opq("what was found, for an error message".into())),
            _ if (f.starts_with("serde::de::Error::") || f.starts_with("de::Error::")) && ["custom", "invalid_value", "invalid_type", "invalid_length", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"].contains(&n) => { self.note("texts of error messages"); k(st, V::C("DeErr::Message".into(), vec![])) }
            ("Default::default", _) => k(st, V::Opq("default".into())),
            ("std::fmt::Display::fmt" | "fmt::Display::fmt", _) => { let v = self.deref(&st, args[0].clone())?; let s = self.display(&v)?; let p = match &args[1] { V::Ref(p) => p.clone(), _ => return Err("formatter".into()) }; self.emit(st, &p, e(s, Ty::Str), k) }
            ("usize::from" | "u32::from" | "u64::from", _) => { let (s, t) = self.ex(&args[0])?; match t { Ty::Bool => k(st, int(format!("(if {} {{ 1int }} else {{ 0int }})", s))), Ty::Char => k(st, int(format!("(({} as u32) as int)", s))), Ty::Int => k(st, int(s)), _ => Err("conversion".into()) } }
            ("std::iter::once" | "iter::once", _) => { let (s, t) = self.ex(&args[0])?; k(st, V::It(Rc::new(It { seq: format!("seq![{}]", s), elem: t, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))) }
            ("std::iter::empty" | "iter::empty", _) => k(st, V::It(Rc::new(It { seq: "seq![]".into(), elem: Ty::Any, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))),
            ("std::cmp::max" | "std::cmp::min" | "cmp::max" | "cmp::min", _) => self.method(args[0].clone(), None, n, args[1..].to_vec(), &[], "", st, fr, k),
            // inherent methods named by path
            _ if (f.starts_with("char::") || f.starts_with("str::") || f.starts_with("Option::") || f.starts_with("String::") || f.starts_with("Result::") || f.starts_with("Iterator::") || f.starts_with("std::str::")) && !args.is_empty() => { let v = self.deref(&st, args[0].clone())?; self.method(v, None, n, args[1..].to_vec(), &[], "", st, fr, k) }
            _ => {
                // `T::default()` and the like on crate types with derived implementations
                if n == "default" { if let Some(p) = f.rfind("::") { if let Ok(t) = parse_str::<Type>(&f[..p]) { let v = self.default_of(&t, &fr.ctx.module, fr)?; return k(st, v); } } }
                Err(format!("call of {} ({})", f, written))
            }
        }
    }
    fn inline(&self, d: &FnDef, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        if fr.ctx.depth > 24 { return Err(format!("{} has no contract and is recursive or too deep", d.key)); }
        self.inlined.borrow_mut().insert(d.key.clone());
        let s0 = st.clone();
        self.joined(&st, fr, &|_, kk| {
            let ctx = fn_ctx(d, fr.ctx.depth + 1);
            let back = s0.scope.clone();
            let mut s = s0.clone();
            s.scope = Default::default();
            let mut pats = vec![];
            let mut i = 0;
            let mut args = args.clone();
            if let Some(FnArg::Receiver(_)) = d.sig.inputs.first() { let v = args.get(0).cloned().ok_or("receiver")?; self.declare(&mut s, "self", v); i = 1; }
            for a in d.sig.inputs.iter().skip(i) { if let FnArg::Typed(t) = a { pats.push(Some((*t.pat).clone())); } }
            args.drain(..i);
            if pats.len() != args.len() { return Err(format!("arity of {}", d.key)); }
            let rty = match &d.sig.output { ReturnType::Type(_, t) => Some(&**t), _ => None };
            let muts = rty.map_or(false, |t| toks(t).replace("'", "").contains("mut "));
            let done = |mut s: St, v: V| -> R { let v = if muts { self.deref(&s, v)? } else { self.unref(&s, v)? }; let v = self.retype(v, rty, &ctx)?; s.scope = back.clone(); kk(s, v) };
            let f = Fr { ctx: &ctx, ret: &done, brk: None, cont: None, rty };
            self.bind_all(args, vec![], &|args| self.pats(args.clone(), pats.clone(), 0, &|i| match &args[i] { V::Ref(p) => Some(p.clone()), _ => None }, s.clone(), &f, &|s| self.block(&d.block, s, &f, &done), &|_| Err("refutable parameter".into())))
        }, k)
    }
    /// Settles a `str::parse` or `default()` whose type the function's signature fixes.
    fn retype(&self, v: V, rty: Option<&Type>, ctx: &Ctx) -> R<V> {
        match (&v, rty) {
            (V::Opq(m), Some(t)) if m == "default" => { let cx = ctx.clone(); let r = |_: St, _: V| -> R { Err("".into()) }; let fr = Fr { ctx: &cx, ret: &r, brk: None, cont: None, rty: None }; let t: Type = if toks(t) == "Self" { parse_str(&ctx.self_ty.clone().unwrap_or_default()).map_err(|e| e.to_string())? } else { t.clone() }; let module = if toks(&t).contains("::") { String::new() } else { ctx.module.clone() }; self.default_full(&t, &module, &fr) }
            (V::C(n, vs), Some(t)) if (n == "Ok" || n == "Some") && vs.len() == 1 => {
                let inner = match t { Type::Path(p) => match &p.path.segments.last().unwrap().arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x { GenericArgument::Type(t) => Some(t.clone()), _ => None }), _ => None }, _ => None };
                Ok(V::C(n.clone(), vec![self.retype(vs[0].clone(), inner.as_ref(), ctx)?]))
            }
            (v0, Some(t)) => {
                // `.into()` a structure of the crate
                let Some(n) = last_seg(t) else { return Ok(v) };
                let full = if n == "Self" { ctx.self_ty.clone().unwrap_or_default() } else { self.repo.resolve(&ctx.module, None, &n) };
                let Some(ct) = self.con.types.get(&full) else { return Ok(v) };
                let key = format!("{}::from", full);
                if !self.lib.structs.contains_key(ct) || matches!(v0, V::Opq(_)) || !self.repo.fns.contains_key(&key) { return Ok(v); }
                let vt = match v0 { V::S(n, _) => Ty::Named(n.clone()), v => self.ex(v)?.1 };
                if vt == Ty::Named(ct.clone()) { return Ok(v); }
                let out = RefCell::new(None);
                let st = St { scope: Default::default(), store: Default::default(), ver: 0, wr: Default::default() };
                let r = |_: St, _: V| -> R { Err("return".into()) };
                let cx = ctx.clone();
                let fr = Fr { ctx: &cx, ret: &r, brk: None, cont: None, rty: None };
                let (t, ty) = self.ex(&v)?;
                let x = self.nm("x");
                let r = self.call_path(&key, vec![e(x.clone(), ty)], st, &fr, &|_, v| { *out.borrow_mut() = Some(v); Ok(HOLE.into()) })?;
                if r != HOLE { return Err("conversion with effects".into()); }
                let (y, ty) = self.ex(&out.into_inner().ok_or("from")?)?;
                Ok(if simple(&t) { let mut m = BTreeMap::new(); m.insert(x, t); e(subst(&y, &m), ty) } else { e(format!("{{ let {} = {}; {} }}", x, t, y), ty) })
            }
            _ => Ok(v),
        }
    }
    fn default_full(&self, t: &Type, module: &str, fr: &Fr) -> R<V> {
        let full = self.repo.resolve(module, None, &toks(t).replace(' ', ""));
        if let Some((_, _)) = self.repo.structs.get(&full) { if let Ok(x) = parse_str::<Type>(full.rsplit("::").next().unwrap()) { let m = full.rfind("::").map_or("", |p| &full[..p]); return self.default_of(&x, m, fr); } }
        self.default_of(t, module, fr)
    }
    /// Use of a contract: the callee is its specification.
    pub fn call_contract(&self, c: &Contract, args: &[V]) -> R<V> {
        self.used.borrow_mut().insert(c.key.clone());
        let mut m = BTreeMap::new();
        let mut tm = BTreeMap::new();
        for ((n, t), v) in c.params.iter().zip(args) {
            let (s, ty) = self.ex(v)?;
            t.unify(&ty, &c.gens, &mut tm);
            m.insert(n.clone(), s);
        }
        let ret = c.ret().subst(&tm);
        let spec = c.spec.clone().ok_or(format!("contract of {} is not an equation", c.key))?;
        let mut g = vec![];
        if let Some(r) = &c.requires { g.push(subst(r, &m)); }
        if let Some((gr, size, rank)) = &c.rec { if let Some((g0, s0, r0)) = &*self.rec.borrow() { if g0 == gr { let s = subst(size, &m); g.push(if rank < r0 { format!("({} <= {})", s, s0) } else { format!("({} < {})", s, s0) }); } } }
        let t = subst(&spec, &m);
        let t = if c.fails() { format!("dn({})", t.trim()) } else { t };
        Ok(e(if g.is_empty() { t.trim().into() } else { format!("(if {} {{ {} }} else {{ arb() }})", g.join(" && "), t) }, ret))
    }
    fn call_with_contract(&self, c: &Contract, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        let d = &self.repo.fns[&c.key];
        if c.params.len() != args.len() { return Err(format!("{} takes {} arguments, its contract {}", c.key, args.len(), c.params.len())); }
        // function arguments become closures of the declared type
        let mut vals = vec![];
        let mut muts = vec![];
        for (i, v) in args.into_iter().enumerate() {
            let t = &c.params[i].1;
            let by_mut = match d.sig.inputs.iter().nth(i) { Some(FnArg::Receiver(r)) => r.reference.is_some() && r.mutability.is_some(), Some(FnArg::Typed(t)) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) || toks(&t.ty).contains("Formatter"), None => false };
            if by_mut { match &v { V::Ref(p) => muts.push(p.clone()), _ => return Err("mutable argument".into()) } }
            if !by_mut && matches!(d.sig.inputs.iter().nth(i), Some(FnArg::Receiver(_))) && d.self_ty.as_deref().map_or(false, |t| self.holds_mut(t)) { return Err("structure holding a mutable reference passed by value".into()); }
            let v = self.whole(&st, v)?;
            let v = match (&v, t) { (V::Fmt(x), _) => (**x).clone(), _ => v };
            vals.push(match t { Ty::Fun(a, r) => match &v { V::E(..) => v, _ => { let (s, rt) = self.as_fun(&v, a, r, &st, fr)?; e(s, Ty::Fun(a.clone(), Box::new(rt))) } }, _ => v });
        }
        if let Some(inner) = &c.inner {
            let mut m = BTreeMap::new();
            for ((n, _), v) in c.params.iter().zip(&vals) { m.insert(n.clone(), self.t(v)?); }
            self.used.borrow_mut().insert(c.key.clone());
            let _ = inner;
            return k(st, V::P(Rc::new(P::Contract(c.clone(), m))));
        }
        self.bind_all(vals, vec![], &|vals| {
            let v = self.call_contract(c, &vals)?;
            if muts.is_empty() { return k(st.clone(), v); }
            self.bind(v, &|v| {
                let (s, t) = self.ex(&v)?;
                let ts = match &t { Ty::Tup(ts) if ts.len() == muts.len() + 1 => ts.clone(), _ => return Err("contract of a mutating function".into()) };
                let mut st = st.clone();
                for (i, p) in muts.iter().enumerate() { let nv = e(format!("{}.{}", self.atom(&s), i), ts[i].clone()); let nv = if matches!(self.read(&st, p)?, V::Fmt(_)) { V::Fmt(Box::new(nv)) } else { nv }; self.write(&mut st, p, nv)?; }
                k(st, e(format!("{}.{}", self.atom(&s), muts.len()), ts[muts.len()].clone()))
            })
        })
    }
    /// A function value as a closure of the contract language.
    fn as_fun(&self, f: &V, a: &Ty, want: &Ty, st: &St, fr: &Fr) -> R<(String, Ty)> {
        if let V::E(s, Ty::Fun(_, r)) = f { return Ok((s.clone(), (**r).clone())); }
        let x = self.nm("a");
        let arity = match f { V::Clo(c) => c.params.len(), V::F(p) => self.repo.fns.get(p).map_or(1, |d| d.sig.inputs.len()), _ => 1 };
        let args = match a { Ty::Tup(ts) if arity == ts.len() && arity > 1 => ts.iter().enumerate().map(|(i, t)| e(format!("{}.{}", x, i), t.clone())).collect(), t => vec![e(x.clone(), t.clone())] };
        let ty = RefCell::new(Ty::Any);
        let want2 = want.clone();
        let t = self.call_value(f, args, st.clone(), fr, &|s, v| {
            if s.ver != st.ver { return Err("function argument with side effects".into()); }
            let v = self.deref(&s, v)?;
            let v = match (&v, &want2) { (V::Parse(x), Ty::Res(i, _)) if **i == Ty::Int => e(format!("o_res(n_from_str_radix(10, {}))", self.strong(x)?), want2.clone()), _ => v };
            let (t, y) = self.ex(&v)?; let j = Ty::join(&ty.borrow(), &y); *ty.borrow_mut() = j; Ok(t)
        })?;
        if let Some(g) = t.strip_prefix("call!(").and_then(|r| r.strip_suffix(&format!(", {})", x))) { if simple(g) && g != x { return Ok((g.into(), ty.into_inner())); } }
        Ok((format!("func!(|{}: {}| {})", x, a.show(), t), ty.into_inner()))
    }
    /// A closure stored where a value of a function type is expected.
    fn coerce(&self, v: V, t: &Ty, st: &St, fr: &Fr) -> R<V> {
        Ok(match (v, t) {
            (v @ (V::Clo(_) | V::F(_)), Ty::Fun(a, r)) => { let (s, rt) = self.as_fun(&v, a, r, st, fr)?; e(s, Ty::Fun(a.clone(), Box::new(rt))) }
            (V::C(n, vs), Ty::Opt(x)) if n == "Some" && vs.len() == 1 => { let v = self.coerce(vs[0].clone(), x, st, fr)?; V::C(n, vec![v]) }
            (v, _) => v,
        })
    }
    fn method_expr(&self, m: &ExprMethodCall, st: St, fr: &Fr, k: K) -> R {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        let turbo = m.turbofish.as_ref().map(|t| toks(&t.args)).unwrap_or_default();
        let pl = self.place(&m.receiver, &st);
        // arguments are evaluated after the receiver
        let recv = |st: St, v: V, pl: Option<Place>| -> R {
            let pl = match &v { V::Ref(p) => Some(p.clone()), _ => pl };
            let v = self.deref(&st, v)?;
            // `a.b(|| ..)` : arguments
            self.ev_all(&args, vec![], st, fr, &|st, vs| { let s0 = st.clone(); let v2 = match &pl { Some(p) => self.read(&st, p)?, None => v.clone() }; self.joined(&st, fr, &|f, kk| self.method(v2.clone(), pl.clone(), &name, vs.clone(), &args, &turbo, s0.clone(), f, kk), k) })
        };
        match &pl {
            Some(p) if !matches!(unparen(&m.receiver), Expr::MethodCall(_)) => { let v = self.read(&st, p)?; recv(st, v, pl.clone()) }
            _ => self.evj(&m.receiver, st, fr, &|st, v| { if pl.is_some() { return recv(st, v, pl.clone()); } self.bind(v, &|v| recv(st.clone(), v, None)) }),
        }
    }
    /// A visitor or seed of serde: an unknown function, which acts on the deserializer
    /// only through what it is given.
    fn visit(&self, f: &str, a: &Ty, r: &Ty, name: &str, args: Vec<V>, st: St, k: K) -> R {
        let rts = match r { Ty::Tup(ts) if ts.len() == 2 => ts.clone(), _ => return Err("result of a visitor".into()) };
        let num = |n: &str| ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "i128", "u128"].iter().position(|x| *x == n);
        let place = |v: &V| -> Option<Place> { match v { V::Ref(p) => Some(p.clone()), V::S(_, fs) => fs.get("de").and_then(|d| if let V::Ref(p) = d { Some(p.clone()) } else { None }), _ => None } };
        let arg = args.first().cloned();
        let (ctor, pl): (V, Option<Place>) = if *a == Ty::Named("SeedIn".into()) {
            if name != "deserialize" { return Err(format!("method {} of a seed", name)); }
            let x = arg.ok_or("seed")?;
            let w = self.whole(&st, x.clone())?;
            if self.ty(&w) == Ty::Str { (V::C("SeedIn::Key".into(), vec![w]), None) } else { (V::C("SeedIn::De".into(), vec![w]), Some(place(&x).ok_or("deserializer passed by value")?)) }
        } else {
            let x = match &arg { Some(x) => Some(self.whole(&st, x.clone())?), None => None };
            match name.strip_prefix("visit_").ok_or(format!("method {} of a visitor", name))? {
                "bool" => (V::C("Visit::Bool".into(), vec![x.ok_or("visit")?]), None),
                "str" | "borrowed_str" | "string" => { self.assume("serde visitors treat borrowed and owned strings alike"); let x = x.ok_or("visit")?; self.strong(&x)?; (V::C("Visit::Text".into(), vec![x]), None) }
                "unit" => (V::C("Visit::Unit".into(), vec![]), None),
                "none" => (V::C("Visit::None".into(), vec![]), None),
                "some" => (V::C("Visit::Some".into(), vec![x.ok_or("visit")?]), Some(place(&arg.unwrap()).ok_or("deserializer passed by value")?)),
                "newtype_struct" => (V::C("Visit::Newtype".into(), vec![x.ok_or("visit")?]), Some(place(&arg.unwrap()).ok_or("deserializer passed by value")?)),
                "map" => (V::C("Visit::Map".into(), vec![x.ok_or("visit")?]), Some(place(&arg.unwrap()).ok_or("deserializer passed by value")?)),
                "seq" => (V::C("Visit::Seq".into(), vec![x.ok_or("visit")?]), Some(place(&arg.unwrap()).ok_or("deserializer passed by value")?)),
                "enum" => (V::C("Visit::Enum".into(), vec![x.ok_or("visit")?]), Some(place(&arg.unwrap()).ok_or("deserializer passed by value")?)),
                n => {
                    let c = num(n).ok_or(format!("visit_{}", n))?;
                    if let Some(V::Num(_, slot)) = &x { let mut s = slot.borrow_mut(); if s.as_deref().map_or(false, |t| t != n) { return Err("number of another type".into()); } *s = Some(n.into()); }
                    (V::C("Visit::Num".into(), vec![int(format!("{}int", c)), x.ok_or("visit")?]), None)
                }
            }
        };
        self.assume("serde: a visitor or seed changes the deserializer only through what it is given");
        let call = format!("call!({}, {})", f, self.t(&ctor)?);
        match pl {
            None => k(st, e(format!("{}.1", call), rts[1].clone())),
            Some(p) => self.bind(e(call, r.clone()), &|v| { let s = self.t(&v)?; let mut st = st.clone(); self.write(&mut st, &p, e(format!("{}.0", s), rts[0].clone()))?; k(st, e(format!("{}.1", s), rts[1].clone())) }),
        }
    }
    fn fun1(&self, f: &V, a: &Ty, st: &St, fr: &Fr) -> R { Ok(self.as_fun(f, a, &Ty::Any, st, fr)?.0) }
    fn set(&self, pl: &Option<Place>, st: &mut St, v: V, what: &str) -> R<()> { let p = pl.as_ref().ok_or(format!("{} on something that is not a place", what))?; self.write(st, p, v) }

    fn method(&self, v: V, pl: Option<Place>, name: &str, args: Vec<V>, xs: &[&Expr], turbo: &str, st: St, fr: &Fr, k: K) -> R {
        if let V::E(f, Ty::Fun(a, r)) = &v {
            if **a == Ty::Named("Visit".into()) || **a == Ty::Named("SeedIn".into()) { return self.visit(f, a, r, name, args, st, k); }
        }
        // nom's traits on values
        match (&v, name) {
            (V::Opq(m), _) => return Err(m.clone()),
            (V::P(_), "parse") => return self.call_value(&v, args, st, fr, k),
            (V::P(_) | V::F(_) | V::Clo(_), "map") => return k(st, V::P(Rc::new(P::Map(v, args[0].clone())))),
            (V::P(_) | V::F(_) | V::Clo(_), "and") => return k(st, V::P(Rc::new(P::Seq(vec![v, args[0].clone()])))),
            (V::P(_) | V::F(_) | V::Clo(_), "or") => return k(st, V::P(Rc::new(P::Alt(vec![v, args[0].clone()])))),
            (V::F(_) | V::Clo(_) | V::P(_), "parse_next") => return Err("parse_next".into()),
            (V::Parse(s), "ok") => { let s = self.strong(s)?; self.assume("std: u32::from_str"); return k(st, e(format!("n_from_str_radix(10, {})", s), Ty::opt(Ty::Int))); }
            (V::Parse(s), "map_err" | "unwrap_or" | "unwrap_or_default" | "is_ok" | "is_err" | "unwrap" | "map" | "or_else" | "and_then" | "ok_or") => { let rt = self.parse_target(fr)?; let r = self.from_str(&rt, s, fr)?; return self.method(r, None, name, args, xs, turbo, st, fr, k); }
            (V::Fmt(_), "write_str") => { let p = pl.ok_or("formatter")?; let a = self.deref(&st, args[0].clone())?; return self.emit(st, &p, a, k); }
            (V::Fmt(_), "write_char") => { let p = pl.ok_or("formatter")?; let a = self.deref(&st, args[0].clone())?; let s = self.t(&a)?; return self.emit(st, &p, e(format!("seq![{}]", s), Ty::Str), k); }
            (_, "fmt") if args.len() == 1 && matches!(&args[0], V::Ref(p) if matches!(self.read(&st, p), Ok(V::Fmt(_)))) && !self.repo.resolve(&fr.ctx.module, None, "Debug").contains("fmt") => {
                let V::Ref(p) = &args[0] else { return Err("formatter".into()) };
                let s = self.display(&v)?;
                return self.emit(st, p, e(s, Ty::Str), k);
            }
            (V::Arr(vs), "iter" | "into_iter") => return k(st, V::Arr(vs.clone())),
            (V::Arr(vs), "find_map") => return self.arr_find_map(vs, &args[0], st, fr, k),
            (V::Arr(vs), "find") => { let vs = vs.clone(); return self.arr_find(&vs, &args[0], st, fr, k); }
            (V::Arr(vs), "contains") => { let x = self.t(&args[0])?; let mut o = vec![]; for v in vs { o.push(format!("({} == {})", self.t(v)?, x)); } return k(st, boolean(format!("({})", o.join(" || ")))); }
            (V::Arr(vs), "len") => return k(st, int(vs.len().to_string())),
            (V::It(i), "find_map") if xs.len() == 1 => { let i = (**i).clone(); return self.find_map_loop(&i, &args[0], xs[0], st, fr, k); }
            (V::It(i), _) => { let i = (**i).clone(); return self.iter_method(i, pl, name, args, st, fr, k); }
            (V::Range(a, b), "clone") => return k(st, V::Range(a.clone(), b.clone())),
            _ => {}
        }
        if let ("as_mut" | "as_deref_mut", false) = (name, self.is_crate_method(&v, name)) {
            let opt = matches!(&v, V::C(n, _) if n == "Some" || n == "None") || matches!(&v, V::E(_, Ty::Opt(_)));
            match (&pl, opt) {
                (Some(p), true) => {
                    let mut q = p.clone();
                    q.proj.push(Pj::Arg(0));
                    return self.case_opt(&v, st, &|mut st, x| { self.refine(&mut st, p, some(x))?; k(st, some(V::Ref(q.clone()))) }, &|st| k(st, none()));
                }
                (Some(p), false) => return k(st, V::Ref(p.clone())),
                (None, _) if matches!(&v, V::C(_, a) if a.iter().all(|x| matches!(x, V::Ref(_)))) => return k(st, v),
                (None, _) => return Err(format!("{} of something that is not a place", name)),
            }
        }
        if let ("borrow_mut" | "by_ref" | "as_mut_slice", Some(p)) = (name, &pl) { if !self.is_crate_method(&v, name) { return k(st, V::Ref(p.clone())); } }
        match name { "clone" | "as_ref" | "as_deref" | "to_owned" | "as_str" | "into_owned" | "borrow" | "by_ref" | "as_slice" | "to_vec" | "into_boxed_str" | "into_string" | "copied" | "cloned" | "into_vec" | "into_deserializer" | "as_mut_slice" | "borrow_mut" if !self.is_crate_method(&v, name) => return k(st, v), "into" => return k(st, v), "to_string" if self.ty(&v) == Ty::Str => return k(st, v), _ => {} }
        let t = match &v { V::C(n, _) if n == "Some" || n == "None" => Ty::opt(Ty::Any), V::C(n, _) if n == "Ok" || n == "Err" => Ty::Res(Box::new(Ty::Any), Box::new(Ty::Any)), V::S(n, _) => Ty::Named(n.clone()), V::Lit(_) => Ty::Str, V::C(n, _) => Ty::Named(n.split("::").next().unwrap().into()), v => self.ex(v)?.1 };
        match t {
            Ty::Str => self.str_method(v, pl, name, args, turbo, st, fr, k),
            Ty::Opt(_) => self.opt_method(v, pl, name, args, st, fr, k),
            Ty::Res(..) => self.res_method(v, name, args, st, fr, k),
            Ty::Char => self.char_method(v, name, args, st, fr, k),
            Ty::Int => self.int_method(v, name, args, st, k),
            Ty::Bool => self.bool_method(v, name, args, xs, st, fr, k),
            Ty::Seq(_) => self.seq_method(v, pl, name, args, st, fr, k),
            Ty::Named(n) => {
                let rts: Vec<String> = self.con.types.iter().filter(|(_, c)| **c == n).map(|(r, _)| r.clone()).collect();
                for rt in &rts {
                    let key = ["", "refmut_", "ref_"].iter().map(|p| format!("{}::{}{}", rt, p, name)).find(|k| self.repo.fns.contains_key(k)).unwrap_or_default();
                    if let Some(d) = self.repo.fns.get(&key) {
                        let byref = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_some());
                        let held = matches!(d.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none()) && self.holds_mut(rt);
                        let me = if held && pl.is_some() { V::Ref(pl.clone().unwrap()) } else if byref { V::Ref(pl.clone().ok_or("receiver of a mutating method")?) } else { v.clone() };
                        let mut a = vec![me];
                        a.extend(args);
                        return self.call_path(&key, a, st, fr, k);
                    }
                }
                if let Some((p, t, s)) = self.con.iters.get(&n) {
                    let next = format!("{}::next", p);
                    if !self.con.fns.contains_key(&next) || !self.repo.fns.contains_key(&next) { return Err(format!("no contract on {}", next)); }
                    self.used.borrow_mut().insert(next);
                    let x = self.t(&v)?;
                    let it = It { seq: s.replace("IT", &self.atom(&x)), elem: t.clone(), maps: vec![], opt: None, enumerated: None, rev: false, place: None };
                    if ["next", "by_ref", "peek", "next_if", "next_if_eq"].contains(&name) { return Err(format!("{} of {}", name, n)); }
                    return self.iter_method(it, None, name, args, st, fr, k);
                }
                match name {
                    "max" | "min" => { let (a, b) = (self.t(&v)?, self.t(&args[0])?); let (ra, rb) = (self.rank(&n, &a).ok_or("ordering")?, self.rank(&n, &b).ok_or("ordering")?); let c = if name == "max" { format!("({} >= {})", rb, ra) } else { format!("({} < {})", rb, ra) }; k(st, e(format!("(if {} {{ {} }} else {{ {} }})", c, b, a), Ty::Named(n))) }
                    "eq" => { let (a, b) = (self.t(&v)?, self.t(&args[0])?); k(st, boolean(format!("({} == {})", a, b))) }
                    "ne" => { let (a, b) = (self.t(&v)?, self.t(&args[0])?); k(st, boolean(format!("({} != {})", a, b))) }
                    _ => Err(format!("method {} of {}", name, n)),
                }
            }
            Ty::Tup(_) | Ty::Unit | Ty::NE | Ty::Fun(..) | Ty::Any => Err(format!("method {} of {}", name, t.show())),
        }
    }
    fn is_crate_method(&self, v: &V, name: &str) -> bool {
        let n = match v { V::S(n, _) => n.clone(), v => match self.ty(v) { Ty::Named(n) => n, _ => return false } };
        self.con.types.iter().any(|(r, c)| *c == n && self.repo.fns.contains_key(&format!("{}::{}", r, name)))
    }
    pub fn parse_target(&self, fr: &Fr) -> R {
        // the type the surrounding code is about: the type of `self`, or the one the result names
        let is_enum = |t: &String| self.con.types.get(t).map_or(false, |c| self.lib.enums.contains_key(c)) && self.con.fns.contains_key(&format!("{}::from_str", t));
        if let Some(t) = fr.ctx.self_ty.clone().filter(is_enum) { return Ok(t); }
        let mut ids = BTreeSet::new();
        if let Some(t) = fr.rty { super::spec::idents(quote::ToTokens::to_token_stream(t), &mut ids); }
        self.con.types.keys().find(|t| is_enum(t) && ids.contains(t.rsplit("::").next().unwrap())).cloned().ok_or("parse() into an unknown type".into())
    }
    fn arr_find_map(&self, vs: &[V], f: &V, st: St, fr: &Fr, k: K) -> R {
        let Some(v) = vs.first() else { return k(st, none()) };
        let (f2, rest) = (f.clone(), vs[1..].to_vec());
        self.call_value(f, vec![v.clone()], st, fr, &|st, r| self.case_opt(&r, st, &|st, x| k(st, some(x)), &|st| self.arr_find_map(&rest, &f2, st, fr, k)))
    }
    fn arr_find(&self, vs: &[V], f: &V, st: St, fr: &Fr, k: K) -> R {
        let Some(v) = vs.first() else { return k(st, none()) };
        self.call_value(f, vec![v.clone()], st, fr, &|st, r| { let c = self.t(&r)?; self.iff(&c, k(st.clone(), some(v.clone())), self.arr_find(&vs[1..], f, st, fr, k)) })
    }
    /// Case split on an option.
    fn case_opt(&self, v: &V, st: St, s: &dyn Fn(St, V) -> R, n: &dyn Fn(St) -> R) -> R {
        match v {
            V::C(c, a) if c == "Some" => s(st, a[0].clone()),
            V::C(c, _) if c == "None" => n(st),
            V::E(t, Ty::Opt(ty)) => {
                // an option built from a condition
                if let Some(V::C(c, a)) = st.store.get(&format!("\u{2}{}", t)).cloned() { return if c == "Some" { s(st, a[0].clone()) } else { n(st) }; }
                let x = self.nm("x");
                let a = s(st.clone(), e(x.clone(), (**ty).clone()))?;
                let b = n(st)?;
                Ok(format!("match {} {{ Some({}) => {{ {} }}, None => {{ {} }} }}", t, if a.contains(x.as_str()) { x.as_str() } else { "_" }, a, b))
            }
            v => Err(format!("option expected, got {}", self.ex(v).map(|x| x.1.show()).unwrap_or_else(|m| m))),
        }
    }
    fn case_res(&self, v: &V, st: St, s: &dyn Fn(St, V) -> R, n: &dyn Fn(St, V) -> R) -> R {
        match v {
            V::C(c, a) if c == "Ok" => s(st, a[0].clone()),
            V::C(c, a) if c == "Err" => n(st, a[0].clone()),
            V::E(t, Ty::Res(ty, er)) => {
                let (x, y) = (self.nm("x"), self.nm("e"));
                let a = s(st.clone(), e(x.clone(), (**ty).clone()))?;
                let b = n(st, e(y.clone(), (**er).clone()))?;
                Ok(format!("match {} {{ Ok({}) => {{ {} }}, Err({}) => {{ {} }} }}", t, if a.contains(x.as_str()) { x.as_str() } else { "_" }, a, if b.contains(y.as_str()) { y.as_str() } else { "_" }, b))
            }
            v => Err(format!("result expected, got {}", self.ex(v).map(|x| x.1.show()).unwrap_or_else(|m| m))),
        }
    }
    fn opt_method(&self, v: V, pl: Option<Place>, name: &str, args: Vec<V>, mut st: St, fr: &Fr, k: K) -> R {
        let a0 = args.first().cloned();
        let dv = |st: &St, v: V| self.deref(st, v);
        match name {
            "map" if matches!(&a0, Some(V::F(p)) if is_conversion(p)) => k(st, v),
            "map" => self.case_opt(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, &|st, y| k(st, some(y))), &|st| k(st, none())),
            "and_then" => self.case_opt(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, k), &|st| k(st, none())),
            "filter" => self.case_opt(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x.clone()], st, fr, &|st, c| { let c = self.t(&c)?; self.iff(&c, k(st.clone(), some(x.clone())), k(st, none())) }), &|st| k(st, none())),
            "or" => self.case_opt(&v, st, &|st, x| k(st, some(x)), &|st| k(st, a0.clone().unwrap())),
            "or_else" => self.case_opt(&v, st, &|st, x| k(st, some(x)), &|st| self.call_value(a0.as_ref().unwrap(), vec![], st, fr, k)),
            "ok_or" => self.case_opt(&v, st, &|st, x| k(st, ok(x)), &|st| { let d = dv(&st, a0.clone().unwrap())?; let d = self.err_value(d); k(st, err(d)) }),
            "ok_or_else" => self.case_opt(&v, st, &|st, x| k(st, ok(x)), &|st| self.call_value(a0.as_ref().unwrap(), vec![], st, fr, &|st, y| k(st, err(y)))),
            "unwrap_or" => self.case_opt(&v, st, &|st, x| k(st, x), &|st| { let d = dv(&st, a0.clone().unwrap())?; k(st, d) }),
            "unwrap_or_else" => self.case_opt(&v, st, &|st, x| k(st, x), &|st| self.call_value(a0.as_ref().unwrap(), vec![], st, fr, k)),
            "unwrap_or_default" => self.case_opt(&v, st, &|st, x| k(st, x), &|st| { let d = match self.ty(&v) { Ty::Opt(t) => match *t { Ty::Str => V::Lit(String::new()), Ty::Int => int("0"), Ty::Bool => boolean("false"), Ty::Seq(t) => e("seq![]", Ty::Seq(t)), t => return Err(format!("default of {}", t.show())) }, _ => return Err("default".into()) }; k(st, d) }),
            "map_or" => self.case_opt(&v, st, &|st, x| self.call_value(&args[1], vec![x], st, fr, k), &|st| k(st, a0.clone().unwrap())),
            "map_or_else" => self.case_opt(&v, st, &|st, x| self.call_value(&args[1], vec![x], st, fr, k), &|st| self.call_value(a0.as_ref().unwrap(), vec![], st, fr, k)),
            "is_some" => self.case_opt(&v, st, &|st, _| k(st, boolean("true")), &|st| k(st, boolean("false"))),
            "is_none" => self.case_opt(&v, st, &|st, _| k(st, boolean("false")), &|st| k(st, boolean("true"))),
            "is_some_and" => self.case_opt(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, k), &|st| k(st, boolean("false"))),
            "unwrap" | "expect" => self.case_opt(&v, st, &|st, x| k(st, x), &|_| Ok("arb()".into())),
            "take" => { self.set(&pl, &mut st, none(), "take")?; k(st, v) }
            "replace" => { let n = dv(&st, a0.unwrap())?; self.set(&pl, &mut st, some(n), "replace")?; k(st, v) }
            "insert" => { let n = dv(&st, a0.unwrap())?; self.set(&pl, &mut st, some(n), "insert")?; k(st, unit()) }
            "into_iter" | "iter" => { let i = self.iter_of(v, None)?; k(st, V::It(Rc::new(i))) }
            "flatten" => self.case_opt(&v, st, &|st, x| k(st, x), &|st| k(st, none())),
            "eq" => { let (a, b) = (self.t(&v)?, self.t(&a0.unwrap())?); k(st, boolean(format!("({} == {})", a, b))) }
            "ne" => { let (a, b) = (self.t(&v)?, self.t(&a0.unwrap())?); k(st, boolean(format!("({} != {})", a, b))) }
            n => Err(format!("Option::{}", n)),
        }
    }
    /// Error values of unit-like crate types carry no information.
    fn err_value(&self, v: V) -> V { match v { V::F(_) => unit(), v => v } }
    fn res_method(&self, v: V, name: &str, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        let a0 = args.first().cloned();
        match name {
            "map" => self.case_res(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, &|st, y| k(st, ok(y))), &|st, x| k(st, err(x))),
            "finish" => { self.note("contents of parser errors"); self.case_res(&v, st, &|st, x| k(st, ok(x)), &|st, _| k(st, err(unit()))) }
            "map_err" => self.case_res(&v, st, &|st, x| k(st, ok(x)), &|st, x| { let r = self.call_value(a0.as_ref().unwrap(), vec![x.clone()], st.clone(), fr, &|st, y| { let y = match y { V::F(_) => unit(), y => y }; k(st, err(y)) }); match r { Err(m) if self.ty(&x) == Ty::Unit && !m.contains(ESC) => { self.note("contents of parser errors"); k(st, err(unit())) } r => r } }),
            "and_then" => self.case_res(&v, st, &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, k), &|st, x| k(st, err(x))),
            "or_else" => self.case_res(&v, st, &|st, x| k(st, ok(x)), &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, k)),
            "ok" => self.case_res(&v, st, &|st, x| k(st, some(x)), &|st, _| k(st, none())),
            "err" => self.case_res(&v, st, &|st, _| k(st, none()), &|st, x| k(st, some(x))),
            "is_ok" => self.case_res(&v, st, &|st, _| k(st, boolean("true")), &|st, _| k(st, boolean("false"))),
            "is_err" => self.case_res(&v, st, &|st, _| k(st, boolean("false")), &|st, _| k(st, boolean("true"))),
            "unwrap_or" => self.case_res(&v, st, &|st, x| k(st, x), &|st, _| k(st, a0.clone().unwrap())),
            "unwrap_or_else" => self.case_res(&v, st, &|st, x| k(st, x), &|st, x| self.call_value(a0.as_ref().unwrap(), vec![x], st, fr, k)),
            "unwrap" | "expect" => self.case_res(&v, st, &|st, x| k(st, x), &|_, _| Ok("arb()".into())),
            n => Err(format!("Result::{}", n)),
        }
    }
    fn bool_method(&self, v: V, name: &str, args: Vec<V>, _xs: &[&Expr], st: St, fr: &Fr, k: K) -> R {
        let c = self.t(&v)?;
        match name {
            "then" => self.iff(&c, self.call_value(&args[0], vec![], st.clone(), fr, &|st, x| { let x = self.deref(&st, x)?; k(st, some(x)) }), k(st.clone(), none())),
            "then_some" => self.iff(&c, k(st.clone(), some(args[0].clone())), k(st.clone(), none())),
            n => Err(format!("bool::{}", n)),
        }
    }
    fn int_method(&self, v: V, name: &str, args: Vec<V>, st: St, k: K) -> R {
        let a = self.t(&v)?;
        let b = || -> R { self.t(&self.deref(&st, args[0].clone())?) };
        let max = "0xFFFF_FFFF_FFFF_FFFFint";
        match name {
            "min" => { let b = b()?; k(st.clone(), int(format!("(if {} <= {} {{ {} }} else {{ {} }})", a, b, a, b))) }
            "max" => { let b = b()?; k(st.clone(), int(format!("(if {} > {} {{ {} }} else {{ {} }})", a, b, a, b))) }
            "saturating_sub" => { let b = b()?; k(st.clone(), int(format!("(if {} >= {} {{ {} - {} }} else {{ 0int }})", a, b, a, b))) }
            "checked_sub" => { let b = b()?; k(st.clone(), e(format!("(if {} >= {} {{ Some({} - {}) }} else {{ None }})", a, b, a, b), Ty::opt(Ty::Int))) }
            "checked_mul" => { let b = b()?; k(st.clone(), e(format!("(if {} * {} <= {} {{ Some({} * {}) }} else {{ None }})", a, b, max, a, b), Ty::opt(Ty::Int))) }
            "checked_add" => { let b = b()?; k(st.clone(), e(format!("(if {} + {} <= {} {{ Some({} + {}) }} else {{ None }})", a, b, max, a, b), Ty::opt(Ty::Int))) }
            "eq" => { let b = b()?; k(st.clone(), boolean(format!("({} == {})", a, b))) }
            "ne" => { let b = b()?; k(st.clone(), boolean(format!("({} != {})", a, b))) }
            n => Err(format!("integer method {}", n)),
        }
    }
    fn char_method(&self, v: V, name: &str, args: Vec<V>, st: St, _fr: &Fr, k: K) -> R {
        let c = self.t(&v)?;
        let c = &c;
        match name {
            "is_alphabetic" => { self.assume("std: char::is_alphabetic"); k(st, boolean(format!("c_alpha({})", c))) }
            "is_alphanumeric" => { self.assume("std: char::is_alphanumeric"); k(st, boolean(format!("c_alnum({})", c))) }
            "is_ascii_digit" => k(st, boolean(format!("c_digit({})", c))),
            "is_ascii_whitespace" => k(st, boolean(format!("c_ascii_ws({})", c))),
            "is_ascii_alphabetic" => k(st, boolean(format!("(('a' <= {0} && {0} <= 'z') || ('A' <= {0} && {0} <= 'Z'))", c))),
            "is_ascii_uppercase" => k(st, boolean(format!("('A' <= {0} && {0} <= 'Z')", c))),
            "is_ascii_lowercase" => k(st, boolean(format!("('a' <= {0} && {0} <= 'z')", c))),
            "is_ascii_alphanumeric" => k(st, boolean(format!("(('a' <= {0} && {0} <= 'z') || ('A' <= {0} && {0} <= 'Z') || c_digit({0}))", c))),
            "is_ascii" => k(st, boolean(format!("((({} as u32) as int) < 128)", c))),
            "len_utf8" => k(st, int(format!("c_blen({})", c))),
            "to_ascii_lowercase" => k(st, e(format!("ascii_lower({})", c), Ty::Char)),
            "eq_ignore_ascii_case" => { let d = self.t(&self.deref(&st, args[0].clone())?)?; k(st, boolean(format!("(ascii_lower({}) == ascii_lower({}))", c, d))) }
            "escape_default" => { self.assume("std: char::escape_default"); k(st, e(format!("x_escape_default({})", c), Ty::Str)) }
            "to_lowercase" => { self.assume("std: char::to_lowercase is str::to_lowercase of the character alone"); k(st, e(format!("x_lower(seq![{}])", c), Ty::Str)) }
            "to_uppercase" => { self.assume("std: char::to_uppercase is str::to_uppercase of the character alone"); k(st, e(format!("x_upper(seq![{}])", c), Ty::Str)) }
            "is_lowercase" => k(st, boolean(format!("c_islower({})", c))),
            "is_uppercase" => k(st, boolean(format!("c_isupper({})", c))),
            "eq" => { let d = self.t(&args[0])?; k(st, boolean(format!("({} == {})", c, d))) }
            n => Err(format!("char::{}", n)),
        }
    }
    /// A pattern argument (`&str`, `char`, or predicate) as (is predicate, text).
    fn str_pat(&self, v: &V, st: &St, fr: &Fr) -> R<(bool, String)> {
        let v = self.deref(st, v.clone())?;
        match &v {
            V::Clo(_) | V::F(_) => Ok((true, self.fun1(&v, &Ty::Char, st, fr)?)),
            V::Arr(vs) => { let mut o = vec![]; for x in vs { o.push(format!("(c == {})", self.t(x)?)); } Ok((true, format!("func!(|c: char| {})", o.join(" || ")))) }
            V::E(s, Ty::Fun(..)) => Ok((true, s.clone())),
            v => { let (s, t) = self.ex(v)?; match t { Ty::Str => Ok((false, s)), Ty::Char => Ok((false, format!("seq![{}]", s))), t => Err(format!("string pattern {}", t.show())) } }
        }
    }
    fn str_method(&self, v: V, pl: Option<Place>, name: &str, args: Vec<V>, turbo: &str, mut st: St, fr: &Fr, k: K) -> R {
        let s = self.t(&v)?;
        let s = self.atom(&s);
        let arg = |i: usize, st: &St| -> R { self.t(&self.deref(st, args.get(i).cloned().ok_or("argument")?)?) };
        let lit = match &v { V::Lit(l) => Some(l.clone()), _ => None };
        match name {
            "len" => k(st, int(match lit { Some(l) => l.len().to_string(), None => format!("blen({})", s) })),
            "input_len" => k(st, int(format!("blen({})", s))),
            "is_empty" => k(st, boolean(format!("({}.len() == 0)", s))),
            "chars" | "iter_elements" => k(st, V::It(Rc::new(It { seq: s, elem: Ty::Char, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))),
            "iter" | "bytes" if lit.as_ref().map_or(false, |l| l.is_ascii()) => k(st, V::It(Rc::new(It { seq: s, elem: Ty::Char, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))),
            "starts_with" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; k(st, boolean(if p { format!("({0}.len() > 0 && call!({1}, {0}[0]))", s, d) } else { format!("pfx({}, {})", s, d) })) }
            "ends_with" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; if p { return Err("ends_with predicate".into()); } k(st, boolean(format!("sfx({}, {})", s, d))) }
            "find" | "find_substring" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; let x = self.nm("k"); k(st, e(if p { format!("(if tw(func!(|c: char| !call!({1}, c)), {0}) < {0}.len() {{ Some(blen({0}.take(tw(func!(|c: char| !call!({1}, c)), {0})))) }} else {{ None }})", s, d) } else { format!("(match find({0}, {1}) {{ Some({2}) => Some(blen({0}.take({2}))), None => None }})", s, d, x) }, Ty::opt(Ty::Int))) }
            "contains" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; let a = self.deref(&st, args[0].clone())?; let ch = self.ex(&a).ok().filter(|x| x.1 == Ty::Char); k(st, boolean(if p { format!("any_char({}, {})", d, s) } else if let Some((c, _)) = ch { format!("contains_char({}, {})", s, c) } else { format!("(match find({}, {}) {{ Some(_) => true, None => false }})", s, d) })) }
            "split_at" => { let n = arg(0, &st)?; self.guard(&format!("bbound({}, {})", s, n), k(st, V::Tup(vec![e(format!("btake({}, {})", s, n), Ty::Str), e(format!("bskip({}, {})", s, n), Ty::Str)]))) }
            "take_split" => { let n = arg(0, &st)?; self.guard(&format!("bbound({}, {})", s, n), k(st, V::Tup(vec![e(format!("bskip({}, {})", s, n), Ty::Str), e(format!("btake({}, {})", s, n), Ty::Str)]))) }
            "slice" => { let a = self.deref(&st, args[0].clone())?; let a = match a { V::E(t, Ty::Tup(ts)) => V::Range(Some(Box::new(e(format!("{}.0", self.atom(&t)), ts[0].clone()))), Some(Box::new(e(format!("{}.1", self.atom(&t)), ts[1].clone())))), a => a }; self.index(v, a, st, k) }
            "get" => Err("str::get".into()),
            "offset" => { let d = arg(0, &st)?; self.assume("nom: offset of a slice within the string it is taken from"); self.guard(&format!("is_suffix({}, {})", d, s), k(st, int(format!("blen({0}.take({0}.len() - {1}.len()))", s, self.atom(&d))))) }
            "rfind" => { let (c, t) = self.ex(&self.deref(&st, args[0].clone())?)?; if t != Ty::Char { return Err("rfind of a string or predicate".into()); } let x = self.nm("k"); k(st, e(format!("(match n_rfind({0}, {1}) {{ Some({2}) => Some(blen({0}.take({2}))), None => None }})", s, c, x), Ty::opt(Ty::Int))) }
            "split" => { let (c, t) = self.ex(&self.deref(&st, args[0].clone())?)?; if t != Ty::Char { return Err("split at a string or predicate".into()); } self.assume("std: str::split"); k(st, V::It(Rc::new(It { seq: format!("n_split_ch({}, {})", c, s), elem: Ty::Str, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))) }
            "lines" => { self.assume("std: str::lines"); k(st, V::It(Rc::new(It { seq: format!("n_lines({})", s), elem: Ty::Str, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))) }
            "char_indices" => { self.assume("std: str::char_indices"); k(st, V::It(Rc::new(It { seq: format!("n_char_indices({})", s), elem: Ty::Tup(vec![Ty::Int, Ty::Char]), maps: vec![], opt: None, enumerated: None, rev: false, place: None }))) }
            "trim_matches" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; let f = if p { d } else { format!("func!(|c: char| c == {}[0])", d) }; if !p && !d_is_char(&args[0], self) { return Err("trim_matches of a string".into()); } k(st, e(format!("trim_both({}, {})", f, s), Ty::Str)) }
            "trim_start_matches" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; if !p { return Err("trim_start_matches of a string".into()); } k(st, e(format!("{0}.skip(tw({1}, {0}))", s, d), Ty::Str)) }
            "trim_end_matches" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; if !p { return Err("trim_end_matches of a string".into()); } k(st, e(format!("trim_end({}, {})", d, s), Ty::Str)) }
            "strip_prefix" => { let (p, d) = self.str_pat(&args[0], &st, fr)?; if p { return Err("strip_prefix predicate".into()); } k(st, e(format!("(if pfx({0}, {1}) {{ Some({0}.skip({1}.len() as int)) }} else {{ None }})", s, d), Ty::opt(Ty::Str))) }
            "to_lowercase" => { self.assume("std: str::to_lowercase"); k(st, e(format!("x_lower({})", s), Ty::Str)) }
            "to_uppercase" => { self.assume("std: str::to_uppercase"); k(st, e(format!("x_upper({})", s), Ty::Str)) }
            "ne" | "eq" => { let a = self.deref(&st, args[0].clone())?; let d = match &a { V::C(n, x) if n == "Some" => format!("seq![{}]", self.t(&x[0])?), V::C(n, _) if n == "None" => "lit!(\"\")".into(), a => self.t(a)? }; k(st, boolean(format!("({} {} {})", s, if name == "eq" { "==" } else { "!=" }, d))) }
            "eq_ignore_ascii_case" => { let d = arg(0, &st)?; self.assume("std: str::eq_ignore_ascii_case"); k(st, boolean(format!("s_eq_nocase({}, {})", s, d))) }
            "split_ascii_whitespace" => { self.assume("std: str::split_ascii_whitespace"); k(st, V::It(Rc::new(It { seq: format!("n_split_ws({})", s), elem: Ty::Str, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))) }
            "parse" => if turbo.contains("u32") { self.assume("std: u32::from_str"); k(st, e(format!("o_res(n_from_str_radix(10, {}))", s), Ty::Res(Box::new(Ty::Int), Box::new(Ty::Unit)))) } else { let t = turbo.trim_start_matches("::").trim_matches(|c| c == '<' || c == '>' || c == ' ').to_string(); if t.is_empty() { k(st, V::Parse(Box::new(v))) } else { let rt = self.path(&t.replace(' ', ""), fr); let r = self.from_str(&rt, &v, fr)?; k(st, r) } },
            "push_str" | "push_cow_raw" => { let a = self.deref(&st, args[0].clone())?; let x = self.strong(&a)?; let n = if s == "lit!(\"\")" { x } else if x == "lit!(\"\")" { s.clone() } else { format!("cat!({}, {})", s, x) }; self.bind(e(n, Ty::Str), &|n| { let mut st = st.clone(); self.set(&pl, &mut st, n, "push_str")?; k(st, unit()) }) }
            "push" => { let x = arg(0, &st)?; let n = if s == "lit!(\"\")" { format!("seq![{}]", x) } else { format!("cat!({}, seq![{}])", s, x) }; self.bind(e(n, Ty::Str), &|n| { let mut st = st.clone(); self.set(&pl, &mut st, n, "push")?; k(st, unit()) }) }
            "clear" => { self.set(&pl, &mut st, V::Lit(String::new()), "clear")?; k(st, unit()) }
            "to_mut" => k(st, V::Ref(pl.ok_or("to_mut")?)),
            "write_str" => { let p = pl.ok_or("write_str")?; let a = self.deref(&st, args[0].clone())?; let cur = self.strong(&v)?; let x = self.strong(&a)?; self.write(&mut st, &p, e(format!("cat!({}, {})", cur, x), Ty::Str))?; k(st, ok(unit())) }
            // a character iterator held in a field
            "next" if pl.is_some() => self.seq_next(&s, Ty::Char, pl, st, k),
            "collect" | "into_iter" => k(st, v),
            "all" | "any" | "try_for_each" | "fold" | "rev" | "by_ref" | "map" | "count" | "nth" | "skip" | "take" => self.iter_method(It { seq: s, elem: Ty::Char, maps: vec![], opt: None, enumerated: None, rev: false, place: None }, pl, name, args, st, fr, k),
            n => Err(format!("str::{}", n)),
        }
    }
    /// Reference to the first element, if any.
    fn first(&self, v: V, mut pl: Place, st: St, k: K) -> R {
        let (s, t) = self.ex(&v)?;
        let s = self.atom(&s);
        let seq = pl.clone();
        pl.proj.push(Pj::Idx("0".into()));
        if matches!(&v, V::Upd { idx, .. } if idx == "0") { return k(st, some(V::Ref(pl))); }
        let mut s1 = st.clone();
        self.refine(&mut s1, &seq, V::Upd { base: s.clone(), ty: t.clone(), idx: "0".into(), elem: Box::new(e(format!("{}[0]", s), self.elem(&t)?)), dirty: false })?;
        self.iff(&format!("({}.len() > 0)", s), k(s1, some(V::Ref(pl))), k(st, none()))
    }
    fn seq_next(&self, s: &str, el: Ty, pl: Option<Place>, st: St, k: K) -> R {
        let mut s1 = st.clone();
        let full = if el == Ty::Char { Ty::Str } else { Ty::seq(el.clone()) };
        self.set(&pl, &mut s1, e(format!("{}.skip(1)", s), full), "next")?;
        self.iff(&format!("({}.len() > 0)", s), k(s1, some(e(format!("{}[0]", s), el))), k(st, none()))
    }
    fn seq_method(&self, v: V, pl: Option<Place>, name: &str, args: Vec<V>, mut st: St, fr: &Fr, k: K) -> R {
        let (s, t) = self.ex(&v)?;
        let el = self.elem(&t)?;
        let s = self.atom(&s);
        match name {
            "len" => k(st, int(format!("({}.len() as int)", s))),
            "is_empty" => k(st, boolean(format!("({}.len() == 0)", s))),
            "push" => { let a = self.deref(&st, args[0].clone())?; let (x, xt) = self.ex(&a)?; let n = e(if s == "seq![]" { format!("seq![{}]", x) } else { format!("{}.push({})", s, x) }, Ty::seq(Ty::join(&el, &xt))); self.bind(n, &|n| { let mut st = st.clone(); self.set(&pl, &mut st, n, "push")?; k(st, unit()) }) }
            "pop" => { let mut s1 = st.clone(); self.set(&pl, &mut s1, e(format!("{}.drop_last()", s), t.clone()), "pop")?; self.iff(&format!("({}.len() > 0)", s), k(s1, some(e(format!("{}.last()", s), el))), k(st, none())) }
            "last" => self.iff(&format!("({}.len() > 0)", s), k(st.clone(), some(e(format!("{}.last()", s), el))), k(st, none())),
            "get" | "first" if pl.is_some() && (name == "first" || matches!(args.first(), Some(V::E(i, _)) if i == "0")) => self.first(v, pl.unwrap(), st, k),
            "get_mut" | "first_mut" if pl.is_some() && (name == "first_mut" || matches!(args.first(), Some(V::E(i, _)) if i == "0")) => self.first(v, pl.unwrap(), st, k),
            "next" if pl.is_some() => match &v {
                V::Upd { base, ty, idx, elem, .. } if idx == "0" => { let mut st = st; self.set(&pl, &mut st, e(format!("{}.skip(1)", self.atom(base)), ty.clone()), "next")?; k(st, some((**elem).clone())) }
                _ => { let mut s1 = st.clone(); self.set(&pl, &mut s1, e(format!("{}.skip(1)", s), t.clone()), "next")?; self.iff(&format!("({}.len() > 0)", s), k(s1, some(e(format!("{}[0]", s), el))), k(st, none())) }
            },
            "first" => self.iff(&format!("({}.len() > 0)", s), k(st.clone(), some(e(format!("{}[0]", s), el))), k(st, none())),
            "get" => { let a = self.deref(&st, args[0].clone())?; if let V::Range(..) = a { return Err("slice get".into()); } let i = self.t(&a)?; self.iff(&format!("(0 <= {} && {} < {}.len())", i, i, s), k(st.clone(), some(e(format!("{}[{}]", s, i), el))), k(st, none())) }
            "get_mut" => { let a = self.deref(&st, args[0].clone())?; let i = self.t(&a)?; let mut p = pl.ok_or("get_mut")?; p.proj.push(Pj::Idx(i.clone())); self.iff(&format!("(0 <= {} && {} < {}.len())", i, i, s), k(st.clone(), some(V::Ref(p))), k(st, none())) }
            "extend" | "append" => { let a = self.deref(&st, args[0].clone())?; let i = self.iter_of(a, None)?; let x = self.mapped(&i, &st, fr)?; self.set(&pl, &mut st, e(format!("cat!({}, {})", s, x.0), Ty::seq(Ty::join(&el, &x.1))), "extend")?; k(st, unit()) }
            "clear" => { self.set(&pl, &mut st, e("seq![]", t), "clear")?; k(st, unit()) }
            "truncate" => { let n = self.t(&args[0])?; self.set(&pl, &mut st, e(format!("(if {1} < {0}.len() {{ {0}.take({1}) }} else {{ {0} }})", s, n), t), "truncate")?; k(st, unit()) }
            "sort_unstable" | "sort" if el == Ty::Int => { self.assume("std: sort of integers"); self.set(&pl, &mut st, e(format!("n_sort({})", s), t), name)?; k(st, unit()) }
            "dedup" if el == Ty::Int => { self.assume("std: Vec::dedup"); self.set(&pl, &mut st, e(format!("n_dedup({})", s), t), name)?; k(st, unit()) }
            "sort_by_key" => { let (f, rt) = self.as_fun(&args[0], &el, &Ty::Any, &st, fr)?; if rt != Ty::Int { return Err("sort_by_key".into()); } self.assume("std: sort_by_key is a stable sort"); self.set(&pl, &mut st, e(format!("n_sort_by({}, {})", f, s), t), name)?; k(st, unit()) }
            "sort_unstable_by_key" => { let (f, rt) = self.as_fun(&args[0], &el, &Ty::Any, &st, fr)?; if rt != Ty::Int { return Err("sort_unstable_by_key".into()); } self.assume("std: sort_unstable_by_key (order of equal keys unknown)"); self.set(&pl, &mut st, e(format!("x_sort_unstable_by({}, {})", f, s), t), name)?; k(st, unit()) }
            "iter" | "into_iter" | "iter_mut" => k(st, V::It(Rc::new(It { seq: s, elem: el, maps: vec![], opt: None, enumerated: None, rev: false, place: if name == "iter_mut" { Some(pl.ok_or("iter_mut")?) } else { None } }))),
            "concat" => k(st, e(format!("flatten({})", s), (el).clone())),
            "contains" => { let x = self.t(&self.deref(&st, args[0].clone())?)?; k(st, boolean(format!("{}.contains({})", s, x))) }
            "eq" => { let x = self.t(&args[0])?; k(st, boolean(format!("({} == {})", s, x))) }
            "size_hint" | "next" | "next_if" | "next_if_eq" | "peek" | "map" | "peekable" | "chain" | "flatten" | "collect" | "enumerate" | "rev" | "fold" | "try_fold" | "try_for_each" | "for_each" | "all" | "any" | "count" => self.iter_method(It { seq: s, elem: el, maps: vec![], opt: None, enumerated: None, rev: false, place: None }, pl, name, args, st, fr, k),
            n => Err(format!("Vec::{}", n)),
        }
    }
    /// The elements an iterator yields, as a sequence.
    fn mapped(&self, i: &It, st: &St, fr: &Fr) -> R<(String, Ty)> {
        if i.enumerated.is_some() || i.rev { return Err("reordered iterator as a sequence".into()); }
        let (mut s, mut t) = (i.seq.clone(), i.elem.clone());
        for m in &i.maps {
            if let V::F(p) = m { if p == "Into::into" { continue; } }
            let (f, r) = self.as_fun(m, &t, &Ty::Any, st, fr)?;
            if identity(&f) { continue; }
            s = format!("s_map({}, {})", f, s);
            t = r;
        }
        Ok((s, t))
    }
    /// Writes something to a formatter for every element; `step` does it for one.
    fn write_each(&self, i: &It, st: St, fr: &Fr, step: &dyn Fn(V, St, &Fr, K) -> R, k: K) -> R {
        if i.enumerated.is_some() || i.rev || i.place.is_some() { return Err("writing each element of this iterator".into()); }
        let fp = st.store.iter().find(|(_, v)| matches!(v, V::Fmt(_))).map(|(k, _)| k.clone()).ok_or("try_for_each")?;
        let x = self.nm("c");
        let mut s0 = st.clone();
        s0.store.insert(fp.clone(), V::Fmt(Box::new(V::Lit(String::new()))));
        let f2 = |_: St, _: V| -> R { Err("return from for_each".into()) };
        let fr2 = Fr { ret: &f2, brk: None, cont: None, ..*fr };
        let piece = self.map_chain(e(x.clone(), i.elem.clone()), &i.maps, s0.clone(), &fr2, &|s, v| step(v, s, &fr2, &|s, _| {
            for (kk, v) in &s0.store { if *kk != fp && !kk.starts_with('\u{2}') && format!("{:?}", s.store.get(kk)) != format!("{:?}", Some(v)) { return Err(format!("for_each with other effects ({}: {:?} {:?})", kk, v, s.store.get(kk))); } }
            match &s.store[&fp] { V::Fmt(v) => self.t(v), _ => Err("formatter".into()) }
        }))?;
        let all = format!("flatten(s_map(func!(|{}: {}| {}), {}))", x, i.elem.show(), piece, i.seq);
        self.emit(st, &Place { key: fp, proj: vec![] }, e(all, Ty::Str), k)
    }
    fn iter_method(&self, i: It, pl: Option<Place>, name: &str, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        // questions to which the order does not matter
        let i = if i.rev && i.enumerated.is_none() && pl.is_none() && ["all", "any", "count", "len"].contains(&name) { It { rev: false, ..i } } else { i };
        let it = |i: It| V::It(Rc::new(i));
        match name {
            "into_iter" | "iter" | "by_ref" | "peekable" | "cloned" | "copied" | "fuse" | "clone" | "as_ref" => k(st, it(i)),
            "map" => { let mut i = i; i.maps.push(args[0].clone()); i.opt = None; k(st, it(i)) }
            "enumerate" => { let mut i = i; if !i.maps.is_empty() || i.rev { return Err("enumerate".into()); } i.enumerated = Some("0".into()); k(st, it(i)) }
            "rev" => { let mut i = i; if !i.maps.is_empty() || i.rev { return Err("rev".into()); } i.rev = true; k(st, it(i)) }
            "flatten" => {
                if let Some((o, t)) = &i.opt {
                    let x = self.nm("x");
                    let el = match t { Ty::Seq(t) => (**t).clone(), t => return Err(format!("flatten of {}", t.show())) };
                    return k(st, it(It { seq: format!("(match {} {{ Some({}) => {}, None => seq![] }})", o, x, x), elem: el, maps: vec![], opt: None, enumerated: None, rev: false, place: None }));
                }
                let (s, t) = self.mapped(&i, &st, fr)?;
                let el = match &t { Ty::Seq(t) => (**t).clone(), Ty::Opt(t) => { let t = (**t).clone(); return k(st, it(It { seq: format!("flatten_o({})", s), elem: t, maps: vec![], opt: None, enumerated: None, rev: false, place: None })); } t => return Err(format!("flatten of {}", t.show())) };
                k(st, it(It { seq: format!("flatten({})", s), elem: el, maps: vec![], opt: None, enumerated: None, rev: false, place: None }))
            }
            "flat_map" => { let mut i = i; i.maps.push(args[0].clone()); i.opt = None; self.iter_method(i, None, "flatten", vec![], st, fr, k) }
            "chain" => { let a = self.deref(&st, args[0].clone())?; let j = self.iter_of(a, None)?; let (x, y) = (self.mapped(&i, &st, fr)?, self.mapped(&j, &st, fr)?); k(st, it(It { seq: format!("cat!({}, {})", x.0, y.0), elem: Ty::join(&x.1, &y.1), maps: vec![], opt: None, enumerated: None, rev: false, place: None })) }
            "collect" => { let (s, t) = self.mapped(&i, &st, fr)?; k(st, e(s, if t == Ty::Char { Ty::Str } else { Ty::seq(t) })) }
            "count" | "len" => { let (s, _) = self.mapped(&i, &st, fr)?; k(st, int(format!("({}.len() as int)", self.atom(&s)))) }
            "size_hint" if i.elem == Ty::Char => { self.assume("std: Chars::size_hint"); k(st, e(format!("chars_hint({})", i.seq), Ty::Tup(vec![Ty::Int, Ty::opt(Ty::Int)]))) }
            "all" | "any" if i.elem == Ty::Char && i.maps.is_empty() => { let f = self.fun1(&args[0], &Ty::Char, &st, fr)?; k(st, boolean(format!("{}({}, {})", if name == "all" { "all_chars" } else { "any_char" }, f, i.seq))) }
            "all" | "any" => { let (s, t) = self.mapped(&i, &st, fr)?; let f = self.fun1(&args[0], &t, &st, fr)?; k(st, boolean(format!("{}({}, {})", if name == "all" { "s_all" } else { "s_any" }, f, s))) }
            "try_fold" => {
                let a = self.deref(&st, args[0].clone())?;
                let (x, at) = self.ex(&a)?;
                // step: accumulator and element, through the pending maps
                let (av, tv) = (self.nm("acc"), self.nm("it"));
                let ty = RefCell::new(Ty::Any);
                let body = self.map_chain(e(tv.clone(), i.elem.clone()), &i.maps, st.clone(), fr, &|s, v| self.call_value(&args[1], vec![e(av.clone(), at.clone()), v], s, fr, &|s, r| { if s.ver != st.ver { return Err("fold with effects".into()); } let (t, y) = self.ex(&r)?; let j = Ty::join(&ty.borrow(), &y); *ty.borrow_mut() = j; Ok(t) }))?;
                let et = match ty.into_inner() { Ty::Res(_, b) => *b, t => return Err(format!("try_fold into {}", t.show())) };
                let p = self.nm("p");
                k(st, e(format!("n_try_fold(func!(|{}: ({}, {})| {{ let {} = {}.0; let {} = {}.1; {} }}), {}, {})", p, at.show(), i.elem.show(), av, p, tv, p, body, x, i.seq), Ty::Res(Box::new(at), Box::new(et))))
            }
            "try_for_each" => self.write_each(&i, st, fr, &|v, s, fr2, kk| self.call_value_raw(&args[0], vec![v], s, fr2, &|s, r| match &r { V::C(n, _) if n == "Ok" => kk(s, r), _ => Err("for_each closure can fail".into()) }), k),
            "find_map" => Err("find_map".into()),
            "next" | "nth" => {
                if i.enumerated.is_some() || i.rev { return Err("next on a reordered iterator".into()); }
                let n = if name == "nth" { self.t(&self.deref(&st, args[0].clone())?)? } else { "0".into() };
                let s = self.atom(&i.seq);
                let (mut s0, mut s1) = (st.clone(), st);
                if pl.is_some() {
                    let mut j = i.clone();
                    j.seq = if n == "0" { format!("{}.skip(1)", s) } else { match n.parse::<u32>() { Ok(n) => format!("{}.skip({})", s, n + 1), _ => format!("{}.skip({} + 1)", s, n) } };
                    self.set(&pl, &mut s1, it(j), name)?;
                    if n != "0" { let mut j = i.clone(); j.seq = format!("{0}.skip({0}.len() as int)", s); self.set(&pl, &mut s0, it(j), name)?; }
                }
                let yes = self.map_chain(e(format!("{}[{}]", s, n), i.elem.clone()), &i.maps, s1, fr, &|st, v| k(st, some(v)));
                self.iff(&format!("({} < {}.len())", n, s), yes, k(s0, none()))
            }
            "skip" if i.maps.is_empty() && i.enumerated.is_none() && !i.rev => { let n = self.t(&self.deref(&st, args[0].clone())?)?; let mut i = i; let s = self.atom(&i.seq); i.opt = None; i.seq = format!("(if {1} <= {0}.len() {{ {0}.skip({1}) }} else {{ {0}.skip({0}.len() as int) }})", s, n); k(st, it(i)) }
            "take" if i.enumerated.is_none() && !i.rev => { let n = self.t(&self.deref(&st, args[0].clone())?)?; let mut i = i; let s = self.atom(&i.seq); i.opt = None; i.seq = format!("(if {1} <= {0}.len() {{ {0}.take({1}) }} else {{ {0} }})", s, n); k(st, it(i)) }
            "peek" => { let s = self.atom(&i.seq); self.iff(&format!("({}.len() > 0)", s), k(st.clone(), some(e(format!("{}[0]", s), i.elem.clone()))), k(st, none())) }
            "next_if" | "next_if_eq" => {
                let s = self.atom(&i.seq);
                let mut j = i.clone();
                j.seq = format!("{}.skip(1)", s);
                let s0 = st.clone();
                let yes = self.map_chain(e(format!("{}[0]", s), i.elem.clone()), &i.maps, st, fr, &|st, head| self.bind(head, &|head| {
                    let mut s1 = st.clone();
                    self.set(&pl, &mut s1, it(j.clone()), name)?;
                    let c = if name == "next_if_eq" { let x = self.t(&self.deref(&st, args[0].clone())?)?; format!("({} == {})", self.t(&head)?, x) } else { self.call_value(&args[0], vec![head.clone()], st.clone(), fr, &|_, v| self.t(&v))? };
                    self.iff(&c, k(s1, some(head.clone())), k(st.clone(), none()))
                }));
                self.iff(&format!("({}.len() > 0)", s), yes, k(s0, none()))
            }
            "skip" | "take" | "filter" | "find" | "zip" | "last" | "position" => Err(format!("Iterator::{}", name)),
            "ne" | "eq" if i.elem == Ty::Char && i.maps.is_empty() => self.str_method(e(i.seq.clone(), Ty::Str), None, name, args, "", st, fr, k),
            n => Err(format!("Iterator::{}", n)),
        }
    }
    /// Calls a closure without joining its branches.
    fn call_value_raw(&self, f: &V, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        match f {
            V::Clo(c) => {
                let back = st.scope.clone();
                let mut s = st;
                s.scope = c.scope.clone();
                let done = |mut s: St, v: V| -> R { s.scope = back.clone(); k(s, v) };
                let inner = Fr { ctx: &c.ctx, ret: &done, brk: None, cont: None, rty: None };
                let _ = fr;
                self.pats(args.clone(), c.params.iter().cloned().map(Some).collect(), 0, &|i| match &args[i] { V::Ref(p) => Some(p.clone()), _ => None }, s, &inner, &|s| self.ev(&c.body, s, &inner, &done), &|_| Err("refutable closure parameter".into()))
            }
            f => self.call_value(f, args, st, fr, k),
        }
    }
}
/// Conversions between representations of the same text.
fn is_conversion(p: &str) -> bool { ["Into::into", "From::from", "Cow::from", "std::borrow::Cow::from", "String::from", "ToOwned::to_owned", "Clone::clone", "std::borrow::Cow::Owned", "std::borrow::Cow::Borrowed", "Cow::into_owned", "std::borrow::Cow::into_owned", "std::convert::identity", "AsRef::as_ref", "Cow::Owned", "Cow::Borrowed", "std::rc::Rc::from", "Rc::from", "Box::from", "std::boxed::Box::from", "std::sync::Arc::from", "Arc::from"].contains(&p) }
/// `func!(|x: T| x)`
fn identity(f: &str) -> bool {
    let Some(r) = f.strip_prefix("func!(|").and_then(|r| r.strip_suffix(')')) else { return false };
    let (Some((x, _)), Some(p)) = (r.split_once(": "), r.rfind("| ")) else { return false };
    let mut b = r[p + 2..].trim();
    while b.starts_with('(') && b.ends_with(')') && balanced(b) { b = b[1..b.len() - 1].trim(); }
    b == x
}
fn d_is_char(v: &V, sx: &Sx) -> bool { sx.ty(v) == Ty::Char }
pub fn fn_ctx(d: &FnDef, depth: usize) -> Ctx {
    Ctx { module: d.module.clone(), self_ty: d.self_ty.clone(), fn_key: d.key.clone(), gens: Rc::new(d.sig.generics.type_params().map(|t| t.ident.to_string()).collect()), depth }
}
