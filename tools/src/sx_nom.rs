// The nom combinators: each is replaced by its documented meaning (an assumed contract on
// the dependency, listed in the evidence), spelled out in the contract language.
fn parsers(v: &V) -> R<Vec<V>> { match v { V::Tup(vs) | V::Arr(vs) => Ok(vs.clone()), v => Ok(vec![v.clone()]) } }
fn pr_of(t: &Ty) -> Option<Ty> {
    match t {
        Ty::Res(a, b) if matches!(**b, Ty::NE | Ty::Any) => match &**a { Ty::Tup(v) if v.len() == 2 && v[0] == Ty::Str => Some(v[1].clone()), Ty::Any => Some(Ty::Any), _ => None },
        Ty::Any => Some(Ty::Any),
        _ => None,
    }
}
impl<'a> Sx<'a> {
    fn nom(&self, f: &str, args: Vec<V>, st: St, fr: &Fr, k: K) -> R {
        let n = f.rsplit("::").next().unwrap();
        let a = |i: usize| -> R<V> { args.get(i).cloned().ok_or(format!("argument of {}", f)) };
        self.assume("nom 7 combinators behave as documented");
        if n == "context" { return k(st, a(1)?); }
        let p = match n {
            "tag" => P::Tag(a(0)?),
            "take_until" => P::TakeUntil(a(0)?, false),
            "take_until1" => P::TakeUntil(a(0)?, true),
            "char" => P::Char(self.t(&a(0)?)?),
            "one_of" => P::OneOf(a(0)?, false),
            "none_of" => P::OneOf(a(0)?, true),
            "satisfy" => P::Satisfy(a(0)?),
            "anychar" if f.contains("character") => return self.nom_direct(P::Take(int("1")), args, true, st, fr, k),
            "take_while" => P::TakeWhile(a(0)?, false, false),
            "take_while1" => P::TakeWhile(a(0)?, true, false),
            "take_till" => P::TakeWhile(a(0)?, false, true),
            "take_till1" => P::TakeWhile(a(0)?, true, true),
            "is_a" => P::IsA(a(0)?, false),
            "is_not" => P::IsA(a(0)?, true),
            "digit1" => return self.nom_direct(P::Digits(10, true), args, false, st, fr, k),
            "digit0" => return self.nom_direct(P::Digits(10, false), args, false, st, fr, k),
            "multispace0" => return self.nom_direct(P::Multispace(false), args, false, st, fr, k),
            "multispace1" => return self.nom_direct(P::Multispace(true), args, false, st, fr, k),
            "rest" => return self.nom_direct(P::Rest, args, false, st, fr, k),
            "eof" => return self.nom_direct(P::Eof, args, false, st, fr, k),
            "fail" => return self.nom_direct(P::Fail, args, false, st, fr, k),
            "take" => P::Take(a(0)?),
            "success" => P::Success(a(0)?),
            "tuple" => P::Seq(parsers(&a(0)?)?),
            "pair" => P::Seq(vec![a(0)?, a(1)?]),
            "terminated" => P::Pick(vec![a(0)?, a(1)?], 0),
            "preceded" => P::Pick(vec![a(0)?, a(1)?], 1),
            "delimited" => P::Pick(vec![a(0)?, a(1)?, a(2)?], 1),
            "separated_pair" => P::Map(V::P(Rc::new(P::Seq(vec![a(0)?, a(1)?, a(2)?]))), V::F("\u{1}outer".into())),
            "alt" => P::Alt(parsers(&a(0)?)?),
            "opt" => P::Opt(a(0)?),
            "recognize" => P::Recognize(a(0)?),
            "consumed" => P::Consumed(a(0)?),
            "peek" => P::Peek(a(0)?),
            "not" => P::Not(a(0)?),
            "cut" => P::Cut(a(0)?),
            "verify" => P::Verify(a(0)?, a(1)?),
            "map" => P::Map(a(0)?, a(1)?),
            "map_res" => P::MapRes(a(0)?, a(1)?, false),
            "map_opt" => P::MapRes(a(0)?, a(1)?, true),
            "value" => P::Value(a(0)?, a(1)?),
            "into" | "complete" => P::Same(a(0)?),
            "many0" => P::Many(a(0)?, false, false),
            "many1" => P::Many(a(0)?, true, false),
            "many0_count" => P::Many(a(0)?, false, true),
            "many1_count" => P::Many(a(0)?, true, true),
            "all_consuming" => P::AllConsuming(a(0)?),
            _ => return Err(format!("nom combinator {}", f)),
        };
        k(st, V::P(Rc::new(p)))
    }
    /// A parser that takes the input directly (`multispace0(input)` or `multispace0` itself).
    fn nom_direct(&self, p: P, args: Vec<V>, ch: bool, st: St, fr: &Fr, k: K) -> R {
        if args.len() != 1 { return Err("parser arity".into()); }
        let i = self.strong(&self.deref(&st, args[0].clone())?)?;
        if ch { return k(st, e(format!("n_satisfy(func!(|c: char| true), {})", i), Ty::pr(Ty::Char))); }
        let (t, ty) = self.apply(&p, &i, &st, fr)?;
        k(st, e(t, ty))
    }
    /// Applies any parser value to an input text; the result is PR-typed.
    fn apply_v(&self, v: &V, i: &str, st: &St, fr: &Fr) -> R<(String, Ty)> {
        match v {
            V::P(p) => self.apply(p, i, st, fr),
            V::Lit(_) => self.apply(&P::Tag(v.clone()), i, st, fr),
            f => {
                let ty = RefCell::new(Ty::Any);
                let t = self.call_value(f, vec![e(i, Ty::Str)], st.clone(), fr, &|s, r| {
                    if s.ver != st.ver { return Err("parser with side effects".into()); }
                    let r = self.deref(&s, r)?;
                    let (t, y) = self.ex(&r)?;
                    let j = Ty::join(&ty.borrow(), &y);
                    *ty.borrow_mut() = j;
                    Ok(t)
                })?;
                let o = pr_of(&ty.borrow()).ok_or(format!("parser result of type {}", ty.borrow().show()))?;
                Ok((t, Ty::pr(o)))
            }
        }
    }
    /// `f` applied to a term, as a term.
    fn app1(&self, f: &V, x: V, st: &St, fr: &Fr) -> R<(String, Ty)> {
        if let V::F(n) = f { if n == "\u{1}outer" { let (a, b) = (self.proj(&x, &Pj::Field("0".into()))?, self.proj(&x, &Pj::Field("2".into()))?); return self.ex(&V::Tup(vec![a, b])); } }
        let ty = RefCell::new(Ty::Any);
        let t = self.call_value(f, vec![x], st.clone(), fr, &|s, r| {
            if s.ver != st.ver { return Err("mapping function with side effects".into()); }
            let r = self.deref(&s, r)?;
            let r = match &r { V::Parse(x) => e(format!("o_res(n_from_str_radix(10, {}))", self.strong(x)?), Ty::Res(Box::new(Ty::Int), Box::new(Ty::Unit))), _ => r };
            let (t, y) = self.ex(&r)?;
            let j = Ty::join(&ty.borrow(), &y);
            *ty.borrow_mut() = j;
            Ok(t)
        })?;
        let y = ty.into_inner();
        Ok((t, y))
    }
    fn sub(&self, v: &V, i: &str, st: &St, fr: &Fr) -> R<(String, Ty)> { let (t, ty) = self.apply_v(v, i, st, fr)?; Ok((t, pr_of(&ty).ok_or("parser")?)) }
    fn rep(&self, v: &V, st: &St, fr: &Fr) -> R<(String, Ty)> { let j = self.nm("j"); let (t, ty) = self.sub(v, &j, st, fr)?; self.rep_ty.borrow_mut().insert(j.clone(), ty.clone()); Ok((format!("func!(|{}: Str| {})", j, t), ty)) }
    fn apply(&self, p: &P, i0: &str, st: &St, fr: &Fr) -> R<(String, Ty)> {
        if !simple(i0) {
            let j = self.nm("i");
            let (t, ty) = self.apply(p, &j, st, fr)?;
            return Ok((format!("{{ let {} = {}; {} }}", j, i0, t), ty));
        }
        let i = i0;
        let (r, x) = (self.nm("r"), self.nm("x"));
        let er = "Err(NE::Error)";
        Ok(match p {
            P::Tag(d) => {
                let n = match d { V::Lit(s) => s.chars().count().to_string(), _ => String::new() };
                let d = self.strong(&self.deref(st, d.clone())?)?;
                (if n.is_empty() { format!("n_tag({}, {})", d, i) } else { format!("(if pfx({0}, {1}) {{ Ok(({0}.skip({2}), {0}.take({2}))) }} else {{ {3} }})", i, d, n, er) }, Ty::pr(Ty::Str))
            }
            P::TakeUntil(d, one) => {
                let d = self.strong(&self.deref(st, d.clone())?)?;
                let t = format!("n_take_until({}, {})", d, i);
                (if *one { format!("(match {} {{ Ok(({r}, {x})) => if {x}.len() == 0 {{ {er} }} else {{ Ok(({r}, {x})) }}, Err(e) => Err(e) }})", t) } else { t }, Ty::pr(Ty::Str))
            }
            P::Char(c) => (format!("(if {0}.len() > 0 && {0}[0] == {1} {{ Ok(({0}.skip(1), {1})) }} else {{ {2} }})", i, c, er), Ty::pr(Ty::Char)),
            P::OneOf(l, none) => {
                let cs: Vec<String> = match l { V::Lit(s) => s.chars().map(char_lit).collect(), V::Arr(vs) => vs.iter().map(|v| self.t(v)).collect::<R<_>>()?, _ => return Err("one_of list".into()) };
                let c = format!("({})", cs.iter().map(|c| format!("{}[0] == {}", i, c)).collect::<Vec<_>>().join(" || "));
                (format!("(if {0}.len() > 0 && {1}{2} {{ Ok(({0}.skip(1), {0}[0])) }} else {{ {3} }})", i, if *none { "!" } else { "" }, c, er), Ty::pr(Ty::Char))
            }
            P::Satisfy(f) => { let (c, _) = self.app1(f, e(format!("{}[0]", i), Ty::Char), st, fr)?; (format!("(if {0}.len() > 0 && {1} {{ Ok(({0}.skip(1), {0}[0])) }} else {{ {2} }})", i, c, er), Ty::pr(Ty::Char)) }
            P::TakeWhile(f, one, till) => { let c = self.nm("c"); let (b, _) = self.app1(f, e(c.clone(), Ty::Char), st, fr)?; (format!("n_take_while{}(func!(|{}: char| {}({})), {})", if *one { "1" } else { "" }, c, if *till { "!" } else { "" }, b, i), Ty::pr(Ty::Str)) }
            P::IsA(l, not) => {
                let cs: Vec<String> = match l { V::Lit(s) => s.chars().map(char_lit).collect(), _ => return Err("is_a list".into()) };
                let b = cs.iter().map(|c| format!("c == {}", c)).collect::<Vec<_>>().join(" || ");
                (format!("n_take_while1(func!(|c: char| {}({})), {})", if *not { "!" } else { "" }, b, i), Ty::pr(Ty::Str))
            }
            P::Digits(_, one) => (format!("n_take_while{}(func!(|c: char| c_digit(c)), {})", if *one { "1" } else { "" }, i), Ty::pr(Ty::Str)),
            P::Multispace(one) => (format!("n_take_while{}(func!(|c: char| s_is_ws(c)), {})", if *one { "1" } else { "" }, i), Ty::pr(Ty::Str)),
            P::Rest => (format!("Ok(({0}.skip({0}.len() as int), {0}))", i), Ty::pr(Ty::Str)),
            P::Eof => (format!("(if {0}.len() == 0 {{ Ok(({0}, {0})) }} else {{ {1} }})", i, er), Ty::pr(Ty::Str)),
            P::Fail => (er.into(), Ty::pr(Ty::Any)),
            P::Take(n) => { let n = self.t(n)?; (format!("(if {0}.len() >= {1} {{ Ok(({0}.skip({1}), {0}.take({1}))) }} else {{ {2} }})", i, n, er), Ty::pr(Ty::Str)) }
            P::Success(v) => { let (t, ty) = self.ex(v)?; (format!("Ok(({}, {}))", i, t), Ty::pr(ty)) }
            P::Seq(vs) | P::Pick(vs, _) => {
                let pick = if let P::Pick(_, n) = p { Some(*n) } else { None };
                fn go(sx: &Sx, vs: &[V], i: &str, done: Vec<(String, Ty)>, pick: Option<usize>, st: &St, fr: &Fr) -> R<(String, Ty)> {
                    let Some(v) = vs.first() else {
                        let o: Vec<V> = done.iter().map(|d| e(d.0.clone(), d.1.clone())).collect();
                        let (t, ty) = match pick { Some(n) => sx.ex(&o[n])?, None => sx.ex(&V::Tup(o))? };
                        return Ok((format!("Ok(({}, {}))", i, t), ty));
                    };
                    let (t, ty) = sx.sub(v, i, st, fr)?;
                    let (r, x) = (sx.nm("r"), sx.nm("x"));
                    let n = done.len();
                    if vs.len() == 1 && pick == Some(n) { return Ok((t, ty)); }
                    let mut d = done; d.push((x.clone(), ty));
                    let keep = pick.map_or(true, |p| p == n);
                    let (b, bt) = go(sx, &vs[1..], &r, d, pick, st, fr)?;
                    Ok((format!("(match {} {{ Err(e) => Err(e), Ok(({}, {})) => {} }})", t, r, if keep { x.as_str() } else { "_" }, b), bt))
                }
                let (t, ty) = go(self, vs, i, vec![], pick, st, fr)?;
                (t, Ty::pr(ty))
            }
            P::Alt(vs) => {
                let mut out: Option<(String, Ty)> = None;
                for v in vs.iter().rev() {
                    let (t, ty) = self.sub(v, i, st, fr)?;
                    let z = self.nm("z");
                    out = Some(match out { None => (t, ty), Some((b, bt)) => (format!("(match {} {{ Err(NE::Error) => {}, {} => {} }})", t, b, z, z), Ty::join(&ty, &bt)) });
                }
                let (t, ty) = out.ok_or("alt of nothing")?;
                (t, Ty::pr(ty))
            }
            P::Opt(v) => { let (t, ty) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok(({r}, {x})) => Ok(({r}, Some({x}))), Err(NE::Error) => Ok(({i}, None)), Err(NE::Failure) => Err(NE::Failure) }})"), Ty::pr(Ty::opt(ty))) }
            P::Recognize(v) => { let (t, _) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok(({r}, _)) => Ok(({r}, consumed({i}, {r}))), Err(e) => Err(e) }})"), Ty::pr(Ty::Str)) }
            P::Consumed(v) => { let (t, ty) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok(({r}, {x})) => Ok(({r}, (consumed({i}, {r}), {x}))), Err(e) => Err(e) }})"), Ty::pr(Ty::Tup(vec![Ty::Str, ty]))) }
            P::Peek(v) => { let (t, ty) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok((_, {x})) => Ok(({i}, {x})), Err(e) => Err(e) }})"), Ty::pr(ty)) }
            P::Not(v) => { let (t, _) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok(_) => {er}, Err(NE::Error) => Ok(({i}, ())), Err(NE::Failure) => Err(NE::Failure) }})"), Ty::pr(Ty::Unit)) }
            P::Cut(v) => { let (t, ty) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Err(_) => Err(NE::Failure), Ok({x}) => Ok({x}) }})"), Ty::pr(ty)) }
            P::Verify(v, f) => { let (t, ty) = self.sub(v, i, st, fr)?; let (c, _) = self.app1(f, e(x.clone(), ty.clone()), st, fr)?; (format!("(match {t} {{ Ok(({r}, {x})) => if {c} {{ Ok(({r}, {x})) }} else {{ {er} }}, Err(e) => Err(e) }})"), Ty::pr(ty)) }
            P::Map(v, f) => { let (t, ty) = self.sub(v, i, st, fr)?; let (y, yt) = self.app1(f, e(x.clone(), ty), st, fr)?; (format!("(match {t} {{ Err(e) => Err(e), Ok(({r}, {x})) => Ok(({r}, {y})) }})"), Ty::pr(yt)) }
            P::MapRes(v, f, o) => {
                let (t, ty) = self.sub(v, i, st, fr)?;
                let (y, yt) = self.app1(f, e(x.clone(), ty), st, fr)?;
                let w = self.nm("w");
                let ot = match &yt { Ty::Res(a, _) if !*o => (**a).clone(), Ty::Opt(a) if *o => (**a).clone(), t => return Err(format!("map_res into {}", t.show())) };
                let arms = if *o { format!("Some({w}) => Ok(({r}, {w})), None => {er}") } else { format!("Ok({w}) => Ok(({r}, {w})), Err(_) => {er}") };
                (format!("(match {t} {{ Err(e) => Err(e), Ok(({r}, {x})) => match {y} {{ {arms} }} }})"), Ty::pr(ot))
            }
            P::Value(v, q) => { let (t, _) = self.sub(q, i, st, fr)?; let (y, yt) = self.ex(&self.deref(st, v.clone())?)?; (format!("(match {t} {{ Err(e) => Err(e), Ok(({r}, _)) => Ok(({r}, {y})) }})"), Ty::pr(yt)) }
            P::Same(v) => self.apply_v(v, i, st, fr)?,
            P::Many(v, one, count) => {
                let (f, ty) = self.rep(v, st, fr)?;
                let t = format!("n_many{}({}, {})", if *one { "1" } else { "0" }, f, i);
                if *count { (format!("(match {t} {{ Ok(({r}, {x})) => Ok(({r}, ({x}.len() as int))), Err(e) => Err(e) }})"), Ty::pr(Ty::Int)) } else { (t, Ty::pr(Ty::seq(ty))) }
            }
            P::AllConsuming(v) => { let (t, ty) = self.sub(v, i, st, fr)?; (format!("(match {t} {{ Ok(({r}, {x})) => if {r}.len() == 0 {{ Ok(({r}, {x})) }} else {{ {er} }}, Err(e) => Err(e) }})"), Ty::pr(ty)) }
            P::AndThen(..) | P::FlatMap(..) => return Err("flat_map".into()),
            P::Contract(c, m) => {
                let inner = c.inner.clone().unwrap_or_default();
                if inner.len() != 1 { return Err("parser contract arity".into()); }
                let mut m = m.clone();
                m.insert(inner[0].0.clone(), i.into());
                (subst(c.spec.as_ref().ok_or("parser contract")?, &m).trim().to_string(), c.ret())
            }
        })
    }
}
