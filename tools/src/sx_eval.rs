impl<'a> Sx<'a> {
    pub fn block(&self, b: &Block, st: St, fr: &Fr, k: K) -> R {
        let outer = st.scope.clone();
        self.stmts(&b.stmts, st, fr, &|mut st, v| { st.scope = outer.clone(); k(st, v) })
    }
    fn stmts(&self, ss: &[Stmt], st: St, fr: &Fr, k: K) -> R {
        let Some(s) = ss.first() else { return k(st, unit()) };
        let rest = &ss[1..];
        match s {
            Stmt::Item(_) => self.stmts(rest, st, fr, k),
            Stmt::Local(l) => {
                let init = match &l.init { Some(i) => i, None => { let mut st = st; if let Pat::Ident(i) = &l.pat { self.declare(&mut st, &i.ident.to_string(), V::Opq("uninitialised".into())); return self.stmts(rest, st, fr, k); } return Err("let without value".into()); } };
                let go = |st: St, v: V| -> R {
                    let sc = st.scope.clone();
                    self.bind(v, &|v| {
                        let pl = match &v { V::Ref(p) => Some(p.clone()), _ => None };
                        if let (Some(p), Pat::Ident(i)) = (&pl, &l.pat) { let mut st = st.clone(); self.declare(&mut st, &i.ident.to_string(), V::Ref(p.clone())); return self.stmts(rest, st, fr, k); }
                        self.pat(v, pl, &l.pat, st.clone(), fr, &|st| self.stmts(rest, st, fr, k), &|mut st| {
                            st.scope = sc.clone();
                            match &init.diverge { Some((_, d)) => self.ev(d, st, fr, &|_, _| Err("let-else falls through".into())), None => Ok("arb()".into()) }
                        })
                    })
                };
                // a value nothing depends on may be outside the subset
                let r = self.evj(&init.expr, st.clone(), fr, &go);
                match (&r, &l.pat) {
                    (Err(m), Pat::Ident(i)) if !m.contains(ESC) && pure_expr(&init.expr) => {
                        let mut st = st;
                        self.declare(&mut st, &i.ident.to_string(), V::Opq(m.clone()));
                        self.stmts(rest, st, fr, k).map_err(|n| if n == *m { n } else { format!("{} (and {})", m, n) })
                    }
                    _ => r,
                }
            }
            Stmt::Expr(x, semi) => {
                if rest.is_empty() && semi.is_none() { return self.ev(x, st, fr, k); }
                let k2 = |st: St, _: V| self.stmts(rest, st, fr, k);
                self.evj(x, st, fr, &k2)
            }
            Stmt::Macro(m) => {
                let x = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                if rest.is_empty() && m.semi_token.is_none() { return self.ev(&x, st, fr, k); }
                self.ev(&x, st, fr, &|st, _| self.stmts(rest, st, fr, k))
            }
        }
    }
    /// Evaluates with branches joined where possible.
    fn evj(&self, x: &Expr, st: St, fr: &Fr, k: K) -> R {
        let s0 = st.clone();
        self.joined(&st, fr, &|f, kk| self.ev(x, s0.clone(), f, kk), k)
    }
    fn ev_all(&self, xs: &[&Expr], done: Vec<V>, st: St, fr: &Fr, k: &dyn Fn(St, Vec<V>) -> R) -> R {
        let Some(x) = xs.first() else { return k(st, done) };
        self.evj(x, st, fr, &|st, v| { let mut d = done.clone(); d.push(v); self.ev_all(&xs[1..], d, st, fr, k) })
    }
    /// Evaluates to one term; fails if evaluation has effects.
    fn term(&self, x: &Expr, st: &St, fr: &Fr) -> R<(String, Ty)> {
        let ty = RefCell::new(Ty::Any);
        let esc = |_: St, _: V| -> R { Err(ESC.into()) };
        let f = Fr { ctx: fr.ctx, ret: &esc, brk: None, cont: None, rty: fr.rty };
        let t = self.ev(x, st.clone(), &f, &|s, v| { if s.ver != st.ver { return Err("effect in an expression".into()); } let (t, y) = self.ex(&v)?; let j = Ty::join(&ty.borrow(), &y); *ty.borrow_mut() = j; Ok(t) })?;
        Ok((t, ty.into_inner()))
    }
    pub fn ev(&self, x: &Expr, st: St, fr: &Fr, k: K) -> R {
        match x {
            Expr::Paren(p) => self.ev(&p.expr, st, fr, k),
            Expr::Group(p) => self.ev(&p.expr, st, fr, k),
            Expr::Lit(l) => k(st, match &l.lit {
                Lit::Str(s) => V::Lit(s.value()),
                Lit::ByteStr(s) => V::Lit(s.value().iter().map(|b| *b as char).collect()),
                Lit::Char(c) => e(char_lit(c.value()), Ty::Char),
                Lit::Byte(c) => e(char_lit(c.value() as char), Ty::Char),
                Lit::Int(i) => int(i.base10_digits()),
                Lit::Bool(b) => boolean(if b.value { "true" } else { "false" }),
                l => return Err(format!("literal {}", toks(l))),
            }),
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some(key) = self.lookup(&st, &n) {
                        let v = st.store.get(&key).cloned().ok_or("unbound")?;
                        return k(st, v);
                    }
                }
                let t = toks(&p.path).replace(' ', "");
                let f = self.path(&strip_generics(&t), fr);
                if let Some(c) = self.ctor(&f) { if c == "None" || self.arity(&c) == Some(0) { return k(st, V::C(c, vec![])); } }
                if let Some((m, _, cx)) = self.repo.consts.get(&f) {
                    let ctx = Ctx { module: m.clone(), self_ty: None, ..fr.ctx.clone() };
                    let fr2 = Fr { ctx: &ctx, ..*fr };
                    let sc = st.scope.clone();
                    let mut st = st;
                    st.scope = Default::default();
                    return self.ev(cx, st, &fr2, &|mut st, v| { st.scope = sc.clone(); k(st, v) });
                }
                k(st, V::F(f))
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Some((p, g)) = self.place_ix(&r.expr, &st) { return self.guard(&g, k(st, V::Ref(p))); }
                }
                self.ev(&r.expr, st, fr, k)
            }
            Expr::Unary(u) => self.ev(&u.expr, st, fr, &|st, v| {
                let v = self.deref(&st, v)?;
                match u.op {
                    UnOp::Deref(_) => k(st, v),
                    UnOp::Not(_) => { let (s, t) = self.ex(&v)?; if t != Ty::Bool { return Err("! on non-bool".into()); } k(st, boolean(match s.as_str() { "true" => "false".into(), "false" => "true".into(), s => format!("!({})", s) })) }
                    UnOp::Neg(_) => k(st, int(format!("(0 - {})", self.t(&v)?))),
                    _ => Err("operator".into()),
                }
            }),
            Expr::Binary(b) => self.binary(b, st, fr, k),
            Expr::Assign(a) => {
                if let Expr::Infer(_) = &*a.left { return self.evj(&a.right, st, fr, &|st, _| k(st, unit())); }
                self.evj(&a.right, st, fr, &|st, v| self.bind(v, &|v| {
                    let mut st = st.clone();
                    let (p, g) = self.place_ix(&a.left, &st).ok_or(format!("assignment to {}", toks(&a.left)))?;
                    let v = self.deref(&st, v)?;
                    let old = self.read(&st, &p).map(|o| self.ty(&o)).unwrap_or(Ty::Any);
                    let v = self.coerce(v, &old, &st, fr)?;
                    self.write(&mut st, &p, v)?;
                    self.guard(&g, k(st, unit()))
                }))
            }
            Expr::Tuple(t) => self.ev_all(&t.elems.iter().collect::<Vec<_>>(), vec![], st, fr, &|st, vs| { let vs: R<Vec<V>> = vs.into_iter().map(|v| self.deref(&st, v)).collect(); k(st.clone(), V::Tup(vs?)) }),
            Expr::Array(t) => self.ev_all(&t.elems.iter().collect::<Vec<_>>(), vec![], st, fr, &|st, vs| k(st, V::Arr(vs))),
            Expr::Block(b) => self.block(&b.block, st, fr, k),
            Expr::Unsafe(_) => Err("unsafe block".into()),
            Expr::If(i) => {
                let sc = st.scope.clone();
                self.cond(&i.cond, st, fr,
                    &|st| self.block(&i.then_branch, st, fr, &|mut st, v| { st.scope = sc.clone(); k(st, v) }),
                    &|mut st| { st.scope = sc.clone(); match &i.else_branch { Some((_, x)) => self.ev(x, st, fr, k), None => k(st, unit()) } })
            }
            Expr::Match(m) => self.scrut(&m.expr, st, fr, &|st, v, pl| { let sc = st.scope.clone(); self.arms(&m.arms, v, pl, sc, st, fr, k) }),
            Expr::Closure(c) => { let cl = V::Clo(Rc::new(Clo { params: c.inputs.iter().cloned().collect(), body: (*c.body).clone(), scope: st.scope.clone(), ctx: fr.ctx.clone() })); k(st, cl) }
            Expr::Return(r) => match &r.expr { Some(x) => self.ev(x, st, fr, &|st, v| (fr.ret)(st, v)), None => (fr.ret)(st, unit()) },
            Expr::Break(b) if b.expr.is_some() && b.label.is_none() && fr.brk.is_some() => self.evj(b.expr.as_ref().unwrap(), st, fr, &|st, v| (fr.ret)(st, v)),
            Expr::Break(b) => { if b.label.is_some() { return Err("break with label".into()); } (fr.brk.ok_or("break outside loop")?)(st) }
            Expr::Continue(c) => { if c.label.is_some() { return Err("labelled continue".into()); } (fr.cont.ok_or("continue outside loop")?)(st) }
            Expr::Try(t) => self.ev(&t.expr, st, fr, &|st, v| { let v = self.deref(&st, v)?; self.try_(v, st, fr, k) }),
            Expr::Field(f) => {
                if let Some(p) = self.place(x, &st) {
                    let v = self.read(&st, &p)?;
                    // a mutable reference held by the structure stays one
                    if let (V::E(..) | V::S(..), Member::Named(n)) = (&v, &f.member) {
                        let mut q = p.clone();
                        q.proj.pop();
                        if let Ok(Ty::Named(b)) = self.read(&st, &q).map(|b| match b { V::S(n, _) => Ty::Named(n), b => self.ty(&b) }) {
                            let held = self.con.types.iter().find(|(_, c)| **c == b).and_then(|(rt, _)| self.repo.structs.get(rt)).map_or(false, |(_, s)| s.fields.iter().any(|d| d.ident.as_ref().map_or(false, |i| i == n) && matches!(&d.ty, Type::Reference(r) if r.mutability.is_some())));
                            if held { return k(st, V::Ref(p)); }
                        }
                    }
                    return k(st, v);
                }
                self.ev(&f.base, st, fr, &|st, v| { let n = match &f.member { Member::Named(n) => n.to_string(), Member::Unnamed(i) => i.index.to_string() }; let v = self.deref(&st, v)?; k(st.clone(), self.proj(&v, &Pj::Field(n))?) })
            }
            Expr::Index(i) => self.ev_all(&[&i.expr, &i.index], vec![], st, fr, &|st, vs| { let v = self.deref(&st, vs[0].clone())?; self.index(v, vs[1].clone(), st, k) }),
            Expr::Range(r) => {
                let xs: Vec<&Expr> = r.start.iter().chain(r.end.iter()).map(|b| &**b).collect();
                self.ev_all(&xs, vec![], st, fr, &|st, vs| {
                    let mut it = vs.into_iter();
                    let a = if r.start.is_some() { it.next().map(Box::new) } else { None };
                    let mut b = if r.end.is_some() { it.next().map(Box::new) } else { None };
                    if matches!(r.limits, RangeLimits::Closed(_)) { b = match b { Some(b) => Some(Box::new(int(format!("({} + 1)", self.t(&b)?)))), None => None }; }
                    k(st, V::Range(a, b))
                })
            }
            Expr::Cast(c) => self.ev(&c.expr, st, fr, &|st, v| {
                let v = self.deref(&st, v)?;
                let to = toks(&c.ty);
                let (s, t) = self.ex(&v)?;
                match (&t, to.as_str()) {
                    (Ty::Char, "char" | "_") => k(st, v),
                    (Ty::Char, "u32" | "usize" | "u64" | "i32") => k(st, int(format!("(({} as u32) as int)", s))),
                    (Ty::Int, "usize" | "u64" | "u32") => k(st, v),
                    (Ty::Bool, "usize" | "u32" | "u64") => k(st, int(format!("(if {} {{ 1int }} else {{ 0int }})", s))),
                    _ => Err(format!("cast of {} to {}", t.show(), to)),
                }
            }),
            Expr::Call(c) => self.call_expr(c, st, fr, k),
            Expr::MethodCall(m) => self.method_expr(m, st, fr, k),
            Expr::Struct(s) => {
                let full = self.path(&toks(&s.path).replace(' ', ""), fr);
                let names: Vec<String> = s.fields.iter().map(|f| toks(&f.member)).collect();
                let mut xs: Vec<&Expr> = s.fields.iter().map(|f| &f.expr).collect();
                if let Some(r) = &s.rest { xs.push(r); }
                let hm = self.holds_mut(&full);
                self.ev_all(&xs, vec![], st, fr, &|st, vs| {
                    let vs: R<Vec<V>> = vs.into_iter().map(|v| if hm && matches!(v, V::Ref(_)) { Ok(v) } else { self.deref(&st, v) }).collect();
                    let vs = vs?;
                    if let Some((c, order)) = self.con.ctors.get(&full) {
                        let mut a = vec![];
                        for o in order { let i = names.iter().position(|n| n == o).ok_or(format!("field {}", o))?; a.push(vs[i].clone()); }
                        return k(st, V::C(c.clone(), a));
                    }
                    let t = self.con.types.get(&full).ok_or(format!("struct {}", full))?;
                    let mut fs: BTreeMap<String, V> = names.iter().cloned().map(|n| if n.chars().all(|c| c.is_ascii_digit()) { format!("f{}", n) } else { n }).zip(vs.iter().cloned()).collect();
                    for (f, _) in self.lib.structs.get(t).ok_or(format!("struct {}", t))? {
                        if !fs.contains_key(f) { if s.rest.is_none() { return Err(format!("field {} of {}", f, t)); } let v = self.proj(vs.last().unwrap(), &Pj::Field(f.clone()))?; fs.insert(f.clone(), v); }
                    }
                    // `Default::default()` as a field: needs the field's type
                    for (f, v) in fs.iter_mut() { if let V::Opq(m) = v { if m == "default" { *v = self.default_field(&full, f, fr)?; } } }
                    k(st, V::S(t.clone(), fs))
                })
            }
            Expr::Macro(m) => self.macro_(&m.mac, st, fr, k),
            Expr::While(w) => self.loop_(x, None, Some(&w.cond), &w.body, st, fr, k),
            Expr::Loop(w) => self.loop_(x, None, None, &w.body, st, fr, k),
            Expr::ForLoop(f) => self.loop_(x, Some((&f.pat, &f.expr)), None, &f.body, st, fr, k),
            Expr::Let(_) => { let s0 = st.clone(); self.cond(x, s0, fr, &|st| k(st, boolean("true")), &|st| k(st, boolean("false"))) }
            x => Err(format!("expression {}", toks(x).chars().take(60).collect::<String>())),
        }
    }
    fn arms(&self, arms: &[Arm], v: V, pl: Option<Place>, sc: Rc<BTreeMap<String, String>>, st: St, fr: &Fr, k: K) -> R {
        let Some(a) = arms.first() else { return Ok("arb()".into()) };
        let next = |mut st: St| { st.scope = sc.clone(); self.arms(&arms[1..], v.clone(), pl.clone(), sc.clone(), st, fr, k) };
        self.pat(v.clone(), pl.clone(), &a.pat, st, fr, &|st| {
            let run = |st: St| self.ev(&a.body, st, fr, &|mut st, v| { st.scope = sc.clone(); k(st, v) });
            match &a.guard { Some((_, g)) => self.cond(g, st, fr, &run, &next), None => run(st) }
        }, &next)
    }
    fn try_(&self, v: V, st: St, fr: &Fr, k: K) -> R {
        match &v {
            V::C(n, a) => match n.as_str() { "Ok" | "Some" => k(st, a[0].clone()), "Err" => (fr.ret)(st, err(a[0].clone())), "None" => (fr.ret)(st, none()), n => Err(format!("? on {}", n)) },
            V::E(s, Ty::Opt(t)) => {
                let x = self.nm("x");
                let y = k(st.clone(), e(x.clone(), (**t).clone()))?;
                let n = (fr.ret)(st, none())?;
                Ok(format!("match {} {{ Some({}) => {{ {} }}, None => {{ {} }} }}", s, x, y, n))
            }
            V::E(s, t @ Ty::Res(a, b)) => {
                let er = self.nm("e");
                if let Some(o) = t.is_pr() {
                    let (r, x) = (self.nm("r"), self.nm("x"));
                    let y = k(st.clone(), V::Tup(vec![e(r.clone(), Ty::Str), e(x.clone(), o)]))?;
                    let n = (fr.ret)(st, err(e(er.clone(), Ty::NE)))?;
                    return Ok(format!("match {} {{ Err({}) => {{ {} }}, Ok(({}, {})) => {{ {} }} }}", s, er, n, r, x, y));
                }
                let x = self.nm("x");
                let y = k(st.clone(), e(x.clone(), (**a).clone()))?;
                let n = (fr.ret)(st, err(e(er.clone(), (**b).clone())))?;
                Ok(format!("match {} {{ Err({}) => {{ {} }}, Ok({}) => {{ {} }} }}", s, er, n, x, y))
            }
            V::Parse(s) => {
                // the number's type is settled by its use
                let slot = Rc::new(RefCell::new(None));
                (fr.ret)(st.clone(), err(V::C("DeErr::ParseIntError".into(), vec![])))?;
                let (s, x) = (self.strong(s)?, self.nm("n"));
                let y = k(st.clone(), V::Num(x.clone(), slot.clone()))?;
                let t = slot.borrow().clone().ok_or("parse() into an unknown type")?;
                let kinds = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "i128", "u128"];
                let c = kinds.iter().position(|x| *x == t).ok_or("parse()")?;
                if !fr.rty.map_or(false, |t| toks(t).contains("DeserializationError") || toks(t).contains("Self :: Error")) { return Err("? after parse()".into()); }
                let er = V::C(if t.starts_with('f') { "DeErr::ParseFloatError" } else { "DeErr::ParseIntError" }.into(), vec![]);
                let n = (fr.ret)(st, err(er))?;
                self.assume("std: parsing of numbers (FromStr)");
                self.note("contents of number parsing errors");
                Ok(format!("match x_parse_num({}int, {}) {{ Some({}) => {{ {} }}, None => {{ {} }} }}", c, s, x, y, n))
            }
            V::Opq(m) => Err(m.clone()),
            v => Err(format!("? on {}", self.ex(v).map(|x| x.1.show()).unwrap_or_else(|m| m))),
        }
    }
    fn arity(&self, c: &str) -> Option<usize> { let (en, v) = c.split_once("::")?; if en == "NE" { return Some(1); } self.lib.enums.get(en)?.iter().find(|x| x.0 == v).map(|x| x.1.len()) }
    fn default_field(&self, full: &str, f: &str, fr: &Fr) -> R<V> {
        let (m, s) = self.repo.structs.get(full).ok_or("default")?;
        let fd = s.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| i == f)).ok_or("default")?;
        self.default_of(&fd.ty, m, fr)
    }
    fn default_of(&self, t: &Type, module: &str, fr: &Fr) -> R<V> {
        let n = last_seg(t).ok_or("default")?;
        Ok(match n.as_str() {
            "Option" => none(), "String" | "Cow" | "str" => V::Lit(String::new()), "bool" => boolean("false"), "usize" | "u32" => int("0"), "Vec" => e("seq![]", Ty::seq(Ty::Any)),
            n => {
                let full = self.repo.resolve(module, None, n);
                let key = format!("{}::default", full);
                let out = RefCell::new(None);
                if self.repo.fns.contains_key(&key) {
                    let st = St { scope: Default::default(), store: Default::default(), ver: 0, wr: Default::default() };
                    self.call_path(&key, vec![], st, fr, &|_, v| { *out.borrow_mut() = Some(v); Ok(HOLE.into()) })?;
                } else if self.repo.derives.get(&full).map_or(false, |d| d.iter().any(|x| x == "Default")) {
                    let (m, s) = self.repo.structs.get(&full).ok_or("default")?;
                    let mut fs = BTreeMap::new();
                    for f in &s.fields { fs.insert(f.ident.as_ref().unwrap().to_string(), self.default_of(&f.ty, m, fr)?); }
                    let t = self.con.types.get(&full).ok_or(format!("struct {}", full))?;
                    return Ok(V::S(t.clone(), fs));
                }
                out.into_inner().ok_or(format!("default of {}", full))?
            }
        })
    }
    fn binary(&self, b: &ExprBinary, st: St, fr: &Fr, k: K) -> R {
        let is_and = matches!(b.op, BinOp::And(_));
        if is_and || matches!(b.op, BinOp::Or(_)) {
            return self.evj(&b.left, st, fr, &|st, l| {
                let l = self.t(&self.deref(&st, l)?)?;
                match (l.as_str(), is_and) { ("true", true) | ("false", false) => return self.ev(&b.right, st, fr, k), ("false", true) => return k(st, boolean("false")), ("true", false) => return k(st, boolean("true")), _ => {} }
                match self.term(&b.right, &st, fr) {
                    Ok((r, _)) => k(st, boolean(format!("({} {} {})", l, if is_and { "&&" } else { "||" }, r))),
                    Err(_) => if is_and { self.iff(&l, self.ev(&b.right, st.clone(), fr, k), k(st, boolean("false"))) } else { self.iff(&l, k(st.clone(), boolean("true")), self.ev(&b.right, st, fr, k)) },
                }
            });
        }
        let opa = match b.op { BinOp::AddAssign(_) => Some("+"), BinOp::SubAssign(_) => Some("-"), BinOp::MulAssign(_) => Some("*"), _ => None };
        if let Some(op) = opa {
            return self.evj(&b.right, st, fr, &|st, r| {
                let p = self.place(&b.left, &st).ok_or("assignment")?;
                let l = self.read(&st, &p)?;
                let r = self.deref(&st, r)?;
                let v = self.arith(op, &l, &r)?;
                let g = if op == "-" { at_least(&self.t(&l)?, &self.t(&r)?) } else { "true".into() };
                let mut st = st;
                self.write(&mut st, &p, v)?;
                self.guard(&g, k(st, unit()))
            });
        }
        self.ev_all(&[&b.left, &b.right], vec![], st, fr, &|st, vs| {
            let (l, r) = (self.deref(&st, vs[0].clone())?, self.deref(&st, vs[1].clone())?);
            let op = match b.op { BinOp::Eq(_) => "==", BinOp::Ne(_) => "!=", BinOp::Lt(_) => "<", BinOp::Le(_) => "<=", BinOp::Gt(_) => ">", BinOp::Ge(_) => ">=", BinOp::Add(_) => "+", BinOp::Sub(_) => "-", BinOp::Mul(_) => "*", BinOp::Div(_) => "/", BinOp::Rem(_) => "%", _ => return Err(format!("operator {}", toks(&b.op))) };
            match op {
                "+" | "-" | "*" => { let g = if op == "-" { at_least(&self.t(&l)?, &self.t(&r)?) } else { "true".into() }; let v = self.arith(op, &l, &r)?; self.guard(&g, k(st, v)) }
                "/" | "%" => { let (a, c) = (self.t(&l)?, self.t(&r)?); self.guard(&format!("({} > 0)", c), k(st, int(format!("({} {} {})", a, op, c)))) }
                "==" | "!=" => {
                    let ((a, ta), (c, tc)) = (self.ex(&l)?, self.ex(&r)?);
                    if matches!(ta, Ty::Fun(..)) || matches!(tc, Ty::Fun(..)) { return Err("comparison of functions".into()); }
                    k(st, boolean(if a == c { (if op == "==" { "true" } else { "false" }).into() } else { format!("({} {} {})", a, op, c) }))
                }
                op => {
                    let ((a, ta), (c, tc)) = (self.ex(&l)?, self.ex(&r)?);
                    let fine = |t: &Ty| matches!(t, Ty::Int | Ty::Char);
                    if fine(&ta) && fine(&tc) { if let (Ok(x), Ok(y)) = (a.parse::<u64>(), c.parse::<u64>()) { return k(st, boolean(match op { "<" => x < y, "<=" => x <= y, ">" => x > y, _ => x >= y }.to_string())); } return k(st, boolean(format!("({} {} {})", a, op, c))); }
                    if let Ty::Named(n) = &ta { if let (Some(ra), Some(rc)) = (self.rank(n, &a), self.rank(n, &c)) { return k(st, boolean(format!("({} {} {})", ra, op, rc))); } }
                    Err(format!("{} on {}", op, ta.show()))
                }
            }
        })
    }
    /// Position in declaration order, for enums that derive `Ord`.
    fn rank(&self, t: &str, x: &str) -> Option<String> {
        let rt = self.con.types.iter().find(|(_, c)| *c == t)?.0;
        if !self.repo.derives.get(rt)?.iter().any(|d| d == "Ord") { return None; }
        let en = self.repo.enums.get(rt)?;
        if en.variants.iter().any(|v| !v.fields.is_empty() || v.discriminant.is_some()) { return None; }
        Some(format!("(match {} {{ {} }})", x, en.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}int", t, v.ident, i)).collect::<Vec<_>>().join(", ")))
    }
    fn arith(&self, op: &str, l: &V, r: &V) -> R<V> {
        let ((a, ta), (c, tc)) = (self.ex(l)?, self.ex(r)?);
        match (&ta, &tc) {
            (Ty::Int, Ty::Int) if a.parse::<u32>().is_ok() && c.parse::<u32>().is_ok() && (op != "-" || a.parse::<u32>().unwrap() >= c.parse::<u32>().unwrap()) => { let (a, c): (u64, u64) = (a.parse().unwrap(), c.parse().unwrap()); Ok(int(match op { "+" => a + c, "-" => a - c, _ => a * c }.to_string())) }
            (Ty::Int, Ty::Int) => { if op != "-" { self.assume("usize additions and multiplications do not overflow (lengths of values in memory)"); } Ok(int(format!("({} {} {})", a, op, c))) }
            (Ty::Str, Ty::Str) if op == "+" => Ok(e(format!("cat!({}, {})", a, c), Ty::Str)),
            _ => Err(format!("{} on {}", op, ta.show())),
        }
    }
    fn index(&self, v: V, i: V, st: St, k: K) -> R {
        match (&v, &i) {
            (V::Arr(vs), V::E(n, _)) if n.parse::<usize>().is_ok() => { let v = vs.get(n.parse::<usize>().unwrap()).cloned().ok_or("index")?; k(st, v) }
            (_, V::Range(a, b)) => {
                let (s, t) = self.ex(&v)?;
                self.bind(e(s, t.clone()), &|v| {
                    let s = self.t(&v)?;
                    let s = self.atom(&s);
                    if t == Ty::Str {
                        let (mut cur, mut g) = (s.clone(), vec![]);
                        if let Some(b) = b { let b = self.t(b)?; g.push(format!("bbound({}, {})", s, b)); if let Some(a) = a { g.push(format!("({} <= {})", self.t(a)?, b)); } cur = format!("btake({}, {})", s, b); }
                        if let Some(a) = a { let a = self.t(a)?; g.push(format!("bbound({}, {})", s, a)); cur = format!("bskip({}, {})", cur, a); }
                        let g = if g.is_empty() { "true".to_string() } else { g.join(" && ") };
                        self.guard(&g, k(st.clone(), e(cur, Ty::Str)))
                    } else {
                        let el = self.elem(&t)?;
                        let a = match a { Some(a) => self.t(a)?, None => "0".into() };
                        let b = match b { Some(b) => self.t(b)?, None => format!("({}.len() as int)", s) };
                        self.guard(&format!("(0 <= {} && {} <= {} && {} <= {}.len())", a, a, b, b, s), k(st.clone(), e(format!("{}.take({}).skip({})", s, b, a), Ty::seq(el))))
                    }
                })
            }
            _ => {
                let ((s, t), (n, tn)) = (self.ex(&v)?, self.ex(&i)?);
                if tn != Ty::Int || t == Ty::Str { return Err("index".into()); }
                let el = self.elem(&t)?;
                let s = self.atom(&s);
                self.guard(&format!("(0 <= {} && {} < {}.len())", n, n, s), k(st, e(format!("{}[{}]", s, n), el)))
            }
        }
    }
    fn macro_(&self, m: &Macro, st: St, fr: &Fr, k: K) -> R {
        let n = toks(&m.path).replace(' ', "");
        let n = n.rsplit("::").next().unwrap().to_string();
        let args = || -> R<Vec<Expr>> { struct A(punctuated::Punctuated<Expr, Token![,]>); impl parse::Parse for A { fn parse(i: parse::ParseStream) -> Result<Self> { Ok(A(punctuated::Punctuated::parse_terminated(i)?)) } } Ok(m.parse_body::<A>().map_err(|e| e.to_string())?.0.into_iter().collect()) };
        match n.as_str() {
            "matches" => {
                struct A(Expr, Pat, Option<Expr>);
                impl parse::Parse for A { fn parse(i: parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; if i.peek(Token![,]) { i.parse::<Token![,]>()?; } Ok(A(e, p, g)) } }
                let a: A = m.parse_body().map_err(|e| e.to_string())?;
                let s0 = st.clone();
                self.joined(&st, fr, &|f, kk| self.scrut(&a.0, s0.clone(), f, &|st, v, _| {
                    let sc = st.scope.clone();
                    self.pat(v, None, &a.1, st, f, &|st| { let (s1, s2) = (sc.clone(), sc.clone()); match &a.2 { None => { let mut st = st; st.scope = sc.clone(); kk(st, boolean("true")) } Some(g) => self.cond(g, st, f, &|mut st| { st.scope = s1.clone(); kk(st, boolean("true")) }, &|mut st| { st.scope = s2.clone(); kk(st, boolean("false")) }) } }, &|mut st| { st.scope = sc.clone(); kk(st, boolean("false")) })
                }), k)
            }
            "vec" => {
                if m.tokens.is_empty() { return k(st, e("seq![]", Ty::seq(Ty::Any))); }
                let a = args()?;
                self.ev_all(&a.iter().collect::<Vec<_>>(), vec![], st, fr, &|st, vs| { let t = self.ex(&V::Arr(vs))?; k(st, V::E(t.0, t.1)) })
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Ok("arb()".into()),
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => { self.note("debug assertions are not compiled into the extraction"); k(st, unit()) }
            "assert" => { let a = args()?; self.cond(&a[0], st, fr, &|st| k(st, unit()), &|_| Ok("arb()".into())) }
            "trace" | "debug" | "info" | "warn" | "println" | "eprintln" => { self.note("logging statements"); k(st, unit()) }
            "format" => { let a = args()?; self.format(&a, st, fr, &|st, s| k(st, s)) }
            "write" | "writeln" => {
                let a = args()?;
                let nl = n == "writeln";
                self.format(&a[1..], st, fr, &|st, s| {
                    let s = if nl { e(format!("cat!({}, lit!(\"\\n\"))", self.t(&s)?), Ty::Str) } else { s };
                    let p = self.place(&a[0], &st).ok_or("write! target")?;
                    self.emit(st, &p, s, k)
                })
            }
            n => Err(format!("macro {}!", n)),
        }
    }
    /// Appends to a formatter; the sink never fails.
    fn emit(&self, mut st: St, p: &Place, s: V, k: K) -> R {
        self.assume("formatting sinks accept everything written to them");
        let cur = self.read(&st, p)?;
        let cur = match cur { V::Fmt(v) => *v, v => v };
        let c = self.strong(&cur)?;
        let x = self.strong(&s)?;
        let v = e(if c == "lit!(\"\")" { x } else { format!("cat!({}, {})", c, x) }, Ty::Str);
        self.write(&mut st, p, V::Fmt(Box::new(v)))?;
        k(st, ok(unit()))
    }
    fn format(&self, a: &[Expr], st: St, fr: &Fr, k: &dyn Fn(St, V) -> R) -> R {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = a.first() else { return Err("format string".into()) };
        let f = f.value();
        let mut named: BTreeMap<String, usize> = BTreeMap::new();
        let mut xs: Vec<Expr> = vec![];
        for (i, x) in a[1..].iter().enumerate() { match x { Expr::Assign(s) => { named.insert(toks(&s.left), i); xs.push((*s.right).clone()); } x => xs.push(x.clone()) } }
        self.ev_all(&xs.iter().collect::<Vec<_>>(), vec![], st, fr, &|st, vs| {
            let mut parts: Vec<String> = vec![];
            let (mut lit, mut next, mut it) = (String::new(), 0, f.chars().peekable());
            while let Some(c) = it.next() {
                match c {
                    '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
                    '}' => { it.next(); lit.push('}'); }
                    '{' => {
                        let mut name = String::new();
                        for c in it.by_ref() { if c == '}' { break; } name.push(c); }
                        // alignment to the right within a width is the only format specification read
                        let mut width: Option<String> = None;
                        if let Some((n, spec)) = name.clone().split_once(':') { width = Some(spec.strip_prefix('>').ok_or("format specification")?.to_string()); name = n.into(); }
                        if !lit.is_empty() { parts.push(format!("lit!({:?})", std::mem::take(&mut lit))); }
                        let v = if name.is_empty() { next += 1; vs.get(next - 1).cloned().ok_or("format argument")? } else if let Ok(i) = name.parse::<usize>() { vs[i].clone() } else if let Some(i) = named.get(&name) { vs[*i].clone() } else { let key = self.lookup(&st, &name).ok_or("format argument")?; st.store[&key].clone() };
                        let v = self.deref(&st, v)?;
                        let mut x = self.display(&v)?;
                        if let Some(w) = width {
                            if !matches!(self.ty(&v), Ty::Str | Ty::Char) { return Err("format specification".into()); }
                            let w = match w.strip_suffix('$') { None => { w.parse::<usize>().map_err(|_| "format specification")?; w } Some(n) => { let wv = if let Ok(i) = n.parse::<usize>() { vs[i].clone() } else if let Some(i) = named.get(n) { vs[*i].clone() } else { let key = self.lookup(&st, n).ok_or("format width")?; st.store[&key].clone() }; let wv = self.deref(&st, wv)?; self.t(&wv)? } };
                            self.assume("std: alignment of strings by format!");
                            x = format!("n_pad_left({}, {})", x, w);
                        }
                        parts.push(x);
                    }
                    c => lit.push(c),
                }
            }
            if !lit.is_empty() { parts.push(format!("lit!({:?})", lit)); }
            let mut out = parts.first().cloned().unwrap_or("lit!(\"\")".into());
            for p in parts.iter().skip(1) { out = format!("cat!({}, {})", out, p); }
            k(st, e(out, Ty::Str))
        })
    }
    /// Text written by `Display` for a value.
    fn display(&self, v: &V) -> R {
        let (s, t) = self.ex(v)?;
        match &t {
            Ty::Str => Ok(s),
            Ty::Char => Ok(format!("seq![{}]", s)),
            Ty::Int => { self.assume("std: decimal rendering of integers"); Ok(format!("n_dec({})", s)) }
            Ty::Named(n) => {
                let rt = self.con.types.iter().find(|(_, c)| *c == n).ok_or(format!("Display for {}", n))?.0.clone();
                let c = self.con.fns.get(&format!("{}::fmt", rt)).ok_or(format!("Display for {} has no contract", rt))?;
                // contract of fmt: what it appends
                self.used.borrow_mut().insert(c.key.clone());
                let mut m = BTreeMap::new();
                m.insert(c.params[0].0.clone(), s);
                // (cat!(f, X), Ok(())) : X
                if let Some(x) = c.spec.as_ref().and_then(|s| s.strip_prefix(&format!("(cat!({}, ", c.params[1].0))).and_then(|s| s.strip_suffix("), Ok(()))")) { if balanced(&format!("({})", x)) { let x = subst(x, &m).trim().to_string(); return Ok(match &c.requires { Some(r) => format!("(if {} {{ {} }} else {{ arb() }})", subst(r, &m), x), None => x }); } }
                m.insert(c.params[1].0.clone(), "lit!(\"\")".into());
                Ok(format!("({}).0", subst(c.spec.as_ref().ok_or("Display contract")?, &m)))
            }
            t => Err(format!("Display for {}", t.show())),
        }
    }

    // --------------------------------------------------------------- loops
    fn loop_(&self, x: &Expr, head: Option<(&Pat, &Expr)>, cond: Option<&Expr>, body: &Block, st: St, fr: &Fr, k: K) -> R {
        use syn::spanned::Spanned;
        let sp = format!("{}@{:?}", fr.ctx.fn_key, x.span().start());
        let no = { let mut l = self.loops.borrow_mut(); let n = l.len(); *l.entry(sp.clone()).or_insert(n) };
        let found = self.con.loops.get(&(self.top.key.clone(), no));
        if let (None, Some((p, it)), true) = (found, head, st.store.values().any(|v| matches!(v, V::Fmt(_)))) {
            // a loop that only writes
            return self.ev(it, st, fr, &|st, v| {
                let i = match self.deref(&st, v.clone())? { V::It(i) => (*i).clone(), w => self.iter_of(w, None)? };
                self.write_each(&i, st, fr, &|v, s, f2, kk| {
                    let sc = s.scope.clone();
                    let next = |mut s: St| -> R { s.scope = sc.clone(); kk(s, unit()) };
                    let f3 = Fr { cont: Some(&next), ..*f2 };
                    self.pat(v, None, p, s, &f3, &|s| self.block(body, s, &f3, &|s, _| next(s)), &|_| Err("refutable loop pattern".into()))
                }, &|st, _| k(st, unit()))
            });
        }
        let con = found.ok_or(format!("loop {} of {} has no contract", no, self.top.key))?.clone();
        let (_, size, _) = con.rec.clone().ok_or("loop without size")?;
        let (mut plain, mut valued) = (false, false);
        breaks(body, &mut plain, &mut valued);
        if valued {
            // the loop's value must be the function's
            let tail = self.repo.fns.get(&fr.ctx.fn_key).and_then(|d| match d.block.stmts.last() { Some(Stmt::Expr(t, None)) => Some(t.span().start() == x.span().start()), _ => None });
            if plain || tail != Some(true) || head.is_some() || cond.is_some() { return Err("break with value from a loop that is not the function's result".into()); }
        }
        let endless = head.is_none() && cond.is_none() && !plain;
        let arb = |_: St, _: V| -> R { Ok("arb()".into()) };
        let k: K = if endless { &arb } else { k };
        match head {
            None => self.loop_go(&con, &size, None, cond, body, st, fr, fr.ret, k),
            Some((p, it)) => self.ev(it, st, fr, &|st, v| {
                let v = match self.deref(&st, v.clone())? { V::It(i) => (*i).clone(), w => self.iter_of(w, if let V::Ref(p) = v { Some(p) } else { None })? };
                self.loop_go(&con, &size, Some((p, &v)), None, body, st, fr, fr.ret, k)
            }),
        }
    }
    /// `find_map` with a closure that changes its captures: a loop left early with the value found.
    fn find_map_loop(&self, i: &It, f: &V, at: &Expr, st: St, fr: &Fr, k: K) -> R {
        use syn::spanned::Spanned;
        let sp = format!("{}@{:?}", fr.ctx.fn_key, at.span().start());
        let no = { let mut l = self.loops.borrow_mut(); let n = l.len(); *l.entry(sp).or_insert(n) };
        let con = self.con.loops.get(&(self.top.key.clone(), no)).ok_or(format!("loop {} of {} has no contract", no, self.top.key))?.clone();
        let (_, size, _) = con.rec.clone().ok_or("loop without size")?;
        let mut s0 = st.clone();
        let sc = s0.scope.clone();
        self.declare(&mut s0, "__f", f.clone());
        let body: Block = parse_quote!({ if let Some(__found) = __f(__elem) { return __found; } });
        let p: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new("__elem", proc_macro2::Span::call_site()), subpat: None });
        self.loop_go(&con, &size, Some((&p, i)), None, &body, s0, fr, &|mut st, v| { st.scope = sc.clone(); k(st, some(v)) }, &|mut st, _| { st.scope = sc.clone(); k(st, none()) })
    }
    /// A loop contract names the loop's variables; `it` is the iterated sequence, `ix` the position.
    fn loop_go(&self, con: &Contract, size: &str, head: Option<(&Pat, &It)>, cond: Option<&Expr>, body: &Block, st: St, fr: &Fr, leave: K, k: K) -> R {
        let spec = con.spec.clone().ok_or("loop contract without meaning")?;
        let ret = con.ret();
        if con.tail { if let Err(m) = (fr.ret)(st.clone(), unit()) { if m.contains(ESC) { return Err(m); } } }
        let brk = match &ret { _ if con.tail => None, Ty::Named(_) => None, Ty::Tup(_) => None, Ty::Res(a, b) => Some(((**a).clone(), (**b).clone())), _ => None };
        // Result<State, Early>: Ok = loop left normally, Err = the function returned
        let state_ty = brk.as_ref().map(|b| b.0.clone()).unwrap_or(ret.clone());
        let names: Vec<String> = con.params.iter().map(|p| p.0.clone()).filter(|n| n != "it" && n != "ix").collect();
        let mut keys = BTreeMap::new();
        for n in &names { let n2 = n.replace("__", "."); let n2 = if n2 == "me" || n2.starts_with("me.") { n2.replacen("me", "self", 1) } else { n2 }; let pl = self.place(&parse_str::<Expr>(&n2).map_err(|e| e.to_string())?, &st).ok_or(format!("loop variable {} not found", n))?; keys.insert(n.clone(), pl); }
        let state: Vec<String> = if con.tail { names.clone() } else { con.gens.clone() };
        // an early result may carry the state along
        let carry: Option<(Vec<Ty>, Ty)> = match &brk { Some((s, Ty::Tup(ts))) if ts.len() == state.len() + 1 && (state.len() == 1 && ts[0] == *s || matches!(s, Ty::Tup(ss) if ss.len() == state.len() && ss[..] == ts[..state.len()])) => Some((ts[..state.len()].to_vec(), ts[state.len()].clone())), _ => None };
        // elements changed in place: what is iterated is part of the loop's state
        let itp = head.and_then(|h| h.1.place.clone());
        if itp.is_some() != state.iter().any(|s| s == "it") { return Err("iter_mut and state".into()); }
        // ---- the obligation: one step from an arbitrary state
        {
            let fresh = self.fresh.replace(100000);
            let mut s0 = st.clone();
            for (_, v) in s0.store.iter_mut() { if !closed(v) { *v = V::Opq("value not named in the loop's contract".into()); } }
            s0.store.retain(|k, _| !k.starts_with('\u{2}'));
            for (n, t) in &con.params { if let Some(p) = keys.get(n) {
                let v = e(n.clone(), t.clone());
                if p.proj.is_empty() { s0.store.insert(p.key.clone(), if matches!(st.store[&p.key], V::Fmt(_)) { V::Fmt(Box::new(v)) } else { v }); } else {
                    // rebuild the enclosing structure from what it was
                    let cur = self.open(&st, p)?; let cur = self.opaque_except(cur); s0.store.insert(p.key.clone(), cur);
                }
            } }
            for (n, t) in &con.params { if let Some(p) = keys.get(n) { if !p.proj.is_empty() { let mut s1 = s0.clone(); self.write(&mut s1, p, e(n.clone(), t.clone()))?; s0 = s1; } } }
            let before = s0.clone();
            let again = |s: St, it_next: Option<(String, String)>| -> R {
                for (kk, v) in &before.store {
                    if keys.iter().any(|(n, p)| p.key == *kk && (state.contains(n) || !p.proj.is_empty())) { continue; }
                    let now = s.store.get(kk);
                    if now.map(|n| format!("{:?}", n)) != Some(format!("{:?}", v)) { return Err(format!("loop changes {}, which its contract does not name as state", kk)); }
                }
                let mut m = BTreeMap::new();
                for (n, _) in &con.params { m.insert(n.clone(), match n.as_str() { "it" => it_next.clone().ok_or("it")?.0, "ix" => it_next.clone().ok_or("ix")?.1, n => { let v = self.read(&s, &keys[n])?; self.t(&self.whole(&s, v)?)? } }); }
                let dec = format!("({} < {})", subst(size, &m), size);
                let inv = match &con.requires { Some(r) => format!("{} && {}", dec, subst(r, &m)), None => dec };
                let again = subst(&spec, &m);
                Ok(format!("(if {} {{ {} }} else {{ arb() }})", inv, if con.fails() { format!("dn({})", again.trim()) } else { again }))
            };
            let sc0 = s0.scope.clone();
            let done = |mut s: St| -> R {
                if con.tail { s.scope = sc0.clone(); return k(s, unit()); }
                let mut parts = vec![];
                for n in &state { if n == "it" { parts.push("it".into()); continue; } let v = self.read(&s, &keys[n])?; parts.push(self.t(&self.whole(&s, v)?)?); }
                let t = if parts.len() == 1 { parts[0].clone() } else { format!("({})", parts.join(", ")) };
                Ok(if brk.is_some() { format!("Ok({})", t) } else { t })
            };
            let early = |s: St, v: V| -> R {
                if con.tail { return leave(s, v); }
                let v = self.whole(&s, v)?;
                if carry.is_some() { let mut parts = vec![]; for n in &state { let w = self.read(&s, &keys[n])?; parts.push(self.t(&self.whole(&s, w)?)?); } parts.push(self.t(&v)?); return Ok(format!("Err(({}))", parts.join(", "))); }
                if brk.is_none() { return Err("early return from a loop whose contract has none".into()); } Ok(format!("Err({})", self.t(&v)?)) };
            let (it0, ix0) = ("it".to_string(), "ix".to_string());
            let next: Option<(String, String)> = head.map(|(_, i)| if i.rev { (it0.clone(), format!("({} - 1)", ix0)) } else if i.enumerated.is_some() { (it0.clone(), format!("({} + 1)", ix0)) } else { (format!("{}.skip(1)", it0), ix0.clone()) });
            let nx = next.clone();
            let cont = |s: St| again(s, nx.clone());
            let nx2 = next.clone();
            let no_brk = |_: St| -> R { Err("break while changing elements".into()) };
            let f2 = Fr { ctx: fr.ctx, ret: &early, brk: if itp.is_some() { Some(&no_brk) } else { Some(&done) }, cont: Some(&cont), rty: fr.rty };
            let sc = s0.scope.clone();
            let text = match (head, cond) {
                (None, Some(c)) => self.cond(c, s0.clone(), &f2, &|s| self.block(body, s, &f2, &|mut s, _| { s.scope = sc.clone(); again(s, nx2.clone()) }), &|mut s| { s.scope = sc.clone(); done(s) })?,
                (None, None) => self.block(body, s0.clone(), &f2, &|s, _| again(s, nx2.clone()))?,
                (Some((p, it)), _) => {
                    let (elem, more) = if it.rev { (e(format!("it[{} - 1]", ix0), it.elem.clone()), format!("({} > 0)", ix0)) } else if it.enumerated.is_some() { (e(format!("it[{}]", ix0), it.elem.clone()), format!("({} < it.len())", ix0)) } else { (e("it[0]", it.elem.clone()), "(it.len() > 0)".into()) };
                    let run = |elem: V, s: St| -> R {
                        let ix = if it.rev { format!("({} - 1)", ix0) } else { ix0.clone() };
                        let mut s = s;
                        // a mutable element is a local written back at the end of the step
                        let (v, wb) = if it.place.is_some() { let key = self.nm("elem"); s.store.insert(key.clone(), elem.clone()); (V::Ref(Place { key: key.clone(), proj: vec![] }), Some(key)) } else { (elem.clone(), None) };
                        let v = if it.enumerated.is_some() { V::Tup(vec![int(ix.clone()), v]) } else { v };
                        let again2 = |s: St| -> R {
                            let mut nx = nx2.clone().unwrap();
                            if let Some(key) = &wb { let v = self.read(&s, &Place { key: key.clone(), proj: vec![] })?; let t = self.t(&v)?; nx.0 = format!("it.update({}, {})", ix, t); }
                            let mut s = s; if let Some(key) = &wb { s.store.remove(key); }
                            again(s, Some(nx))
                        };
                        let f3 = Fr { cont: Some(&again2), ..f2 };
                        self.pat(v, None, p, s, &f3, &|s| self.block(body, s, &f3, &|mut s, _| { s.scope = sc.clone(); again2(s) }), &|_| Err("refutable loop pattern".into()))
                    };
                    let b = self.map_chain(elem, &it.maps, s0.clone(), &f2, &|s, v| run(v, s))?;
                    let d = done(s0.clone())?;
                    format!("(if {} {{ {} }} else {{ {} }})", more, b, d)
                }
            };
            self.fresh.set(fresh);
            // the same step from every place the loop is reached
            if !text.contains(HOLE) {
                let mut ls = self.loop_obls.borrow_mut();
                match ls.iter().find(|l| l.con.id() == con.id()) { Some(l) => if l.text != text { return Err(format!("loop {} is reached in different states", con.id())); }, None => ls.push(LoopObl { con: con.clone(), text }) }
            }
        }
        // ---- the use
        let mut m = BTreeMap::new();
        for (n, _) in &con.params {
            m.insert(n.clone(), match n.as_str() {
                "it" => { let i = head.ok_or("it")?.1; i.seq.clone() }
                "ix" => { let i = head.ok_or("ix")?.1; if i.rev { format!("({}.len() as int)", self.atom(&i.seq)) } else { "0".into() } }
                n => { let v = self.read(&st, &keys[n])?; self.t(&self.whole(&st, v)?)? }
            });
        }
        let call = subst(&spec, &m);
        let call = if con.fails() { format!("dn({})", call.trim()) } else { call };
        let call = match &con.requires { Some(r) => format!("(if {} {{ {} }} else {{ arb() }})", subst(r, &m), call), None => call };
        self.used.borrow_mut().insert(con.id());
        if con.tail { return Ok(call); }
        let after = |x: String| -> R {
            let mut s = st.clone();
            let n = state.len();
            for (i, nme) in state.iter().enumerate() {
                let t = match (&state_ty, n) { (t, 1) => t.clone(), (Ty::Tup(ts), _) => ts[i].clone(), _ => return Err("loop state".into()) };
                let v = e(if n == 1 { x.clone() } else { format!("{}.{}", x, i) }, t);
                if nme == "it" { self.write(&mut s, itp.as_ref().unwrap(), v)?; continue; }
                let v = if matches!(self.read(&s, &keys[nme])?, V::Fmt(_)) { V::Fmt(Box::new(v)) } else { v };
                self.write(&mut s, &keys[nme], v)?;
            }
            k(s, unit())
        };
        let x = self.nm("l");
        match &brk {
            None => { let b = after(x.clone())?; Ok(format!("{{ let {} = {}; {} }}", x, call, b)) }
            Some(_) if carry.is_some() => {
                let (sts, rt) = carry.clone().unwrap();
                let y = self.nm("y");
                let b = after(x.clone())?;
                let mut s2 = st.clone();
                for (i, n) in state.iter().enumerate() { self.write(&mut s2, &keys[n], e(format!("{}.{}", y, i), sts[i].clone()))?; }
                let r = leave(s2, e(format!("{}.{}", y, state.len()), rt))?;
                Ok(format!("match {} {{ Ok({}) => {{ {} }}, Err({}) => {{ {} }} }}", call, x, b, y, r))
            }
            Some((_, rt)) => { let y = self.nm("y"); let b = after(x.clone())?; let mut s2 = st.clone(); for n in &state { let p = if n == "it" { itp.as_ref().unwrap() } else { &keys[n] }; s2.store.insert(p.key.clone(), V::Opq(format!("{} after leaving the loop early", n))); } let r = leave(s2, e(y.clone(), rt.clone()))?; Ok(format!("match {} {{ Ok({}) => {{ {} }}, Err({}) => {{ {} }} }}", call, x, b, y, r)) }
        }
    }
    fn open(&self, st: &St, p: &Place) -> R<V> { st.store.get(&p.key).cloned().ok_or("place".into()) }
    fn opaque_except(&self, v: V) -> V {
        match v {
            V::S(n, fs) => V::S(n, fs.into_iter().map(|(k, v)| (k, self.opaque_except(v))).collect()),
            v if closed(&v) => v,
            V::E(s, Ty::Named(n)) if self.lib.structs.contains_key(&n) => V::S(n.clone(), self.lib.structs[&n].iter().map(|(f, _)| (f.clone(), V::Opq(format!("field {}.{} not named in the loop's contract", s, f)))).collect()),
            _ => V::Opq("value not named in the loop's contract".into()),
        }
    }
    fn iter_of(&self, v: V, place: Option<Place>) -> R<It> {
        match &v {
            V::It(i) => Ok((**i).clone()),
            V::Range(Some(_), Some(_)) => Err("range loop".into()),
            V::C(n, a) if n == "Some" => { let (s, t) = self.ex(&a[0])?; Ok(It { seq: format!("seq![{}]", s), elem: t, maps: vec![], opt: None, enumerated: None, rev: false, place: None }) }
            v => {
                let (s, t) = self.ex(v)?;
                if let Ty::Opt(x) = &t { return Ok(It { seq: format!("o_seq({})", s), elem: (**x).clone(), maps: vec![], opt: Some((s, (**x).clone())), enumerated: None, rev: false, place: None }); }
                let el = match &t { Ty::Str => return Err("iteration over a string".into()), t => self.elem(t)? };
                Ok(It { seq: s, elem: el, maps: vec![], opt: None, enumerated: None, rev: false, place })
            }
        }
    }
    /// Applies a lazy iterator's mapping functions to one element.
    fn map_chain(&self, v: V, maps: &[V], st: St, fr: &Fr, k: K) -> R {
        let Some(f) = maps.first() else { return k(st, v) };
        self.call_value(f, vec![v], st, fr, &|st, v| self.map_chain(v, &maps[1..], st, fr, k))
    }
}
/// Breaks of a loop: without and with a value.
fn breaks(b: &Block, plain: &mut bool, valued: &mut bool) {
    struct F(bool, bool);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_break(&mut self, b: &'ast ExprBreak) { if b.expr.is_some() { self.1 = true } else { self.0 = true } syn::visit::visit_expr_break(self, b) }
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut f = F(false, false);
    syn::visit::Visit::visit_block(&mut f, b);
    *plain = f.0; *valued = f.1;
}
fn at_least(a: &str, b: &str) -> String { match (a.parse::<u64>(), b.parse::<u64>()) { (Ok(x), Ok(y)) if x >= y => "true".into(), _ => format!("({} >= {})", a, b) } }
/// A value that mentions no variable.
fn closed(v: &V) -> bool {
    match v {
        V::Lit(_) | V::F(_) | V::Clo(_) => true,
        V::P(p) => { let s = format!("{:?}", p); !s.contains("E(\"") }
        V::E(s, _) => matches!(s.as_str(), "true" | "false") || s.chars().all(|c| c.is_ascii_digit()),
        V::Tup(vs) | V::Arr(vs) | V::C(_, vs) => vs.iter().all(closed),
        V::Ref(_) => true,
        _ => false,
    }
}
fn strip_generics(s: &str) -> String { let mut d = 0; let mut o = String::new(); for c in s.chars() { match c { '<' => { d += 1; } '>' => { d -= 1; } c => if d == 0 { o.push(c) } } } o.replace("::::", "::").trim_end_matches("::").to_string() }
/// No effects and no way out: may be left untranslated when unused.
fn pure_expr(x: &Expr) -> bool {
    struct F(bool, usize);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_try(&mut self, _: &'ast ExprTry) { if self.1 == 0 { self.0 = false; } }
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { if self.1 == 0 { self.0 = false; } }
        fn visit_expr_break(&mut self, _: &'ast ExprBreak) { if self.1 == 0 { self.0 = false; } }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { if self.1 == 0 { self.0 = false; } }
        fn visit_expr_assign(&mut self, _: &'ast ExprAssign) { self.0 = false; }
        fn visit_expr_reference(&mut self, r: &'ast ExprReference) { if r.mutability.is_some() { self.0 = false; } syn::visit::visit_expr_reference(self, r); }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { if MUTATING.contains(&m.method.to_string().as_str()) { self.0 = false; } syn::visit::visit_expr_method_call(self, m); }
        fn visit_expr_closure(&mut self, c: &'ast ExprClosure) { self.1 += 1; syn::visit::visit_expr_closure(self, c); self.1 -= 1; }
    }
    let mut f = F(true, 0);
    syn::visit::Visit::visit_expr(&mut f, x);
    f.0
}
const MUTATING: &[&str] = &["push", "push_str", "push_cow", "pop", "take", "insert", "extend", "next", "next_if", "next_if_eq", "clear", "truncate", "sort", "sort_by_key", "sort_unstable_by_key", "sort_unstable", "dedup", "remove", "replace", "get_or_insert_with", "insert_at", "remove_at", "advance", "swap", "retain", "drain", "append", "next_back", "get_mut", "iter_mut", "as_mut", "write_str", "write_char", "write_fmt"];
