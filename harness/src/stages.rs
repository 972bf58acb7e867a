//! Where cases come from: per property, exhaustive enumerations over small token sets and
//! seeded random generation.
use crate::conv::*;
use crate::gen::{self, nth, upto, Rng};
use crate::props::Case;
use crate::shape::{num, Shape, Var, NUMS};

pub struct Stage { pub name: &'static str, pub exhaustive: bool, pub count: u64, pub make: Box<dyn Fn(u64, &mut Rng) -> Case + Sync + Send> }
fn ex(name: &'static str, count: u64, f: impl Fn(u64, &mut Rng) -> Case + Sync + Send + 'static) -> Stage { Stage { name, exhaustive: true, count, make: Box::new(f) } }
fn rnd(name: &'static str, count: u64, f: impl Fn(&mut Rng) -> Case + Sync + Send + 'static) -> Stage { Stage { name, exhaustive: false, count, make: Box::new(move |_, r| f(r)) } }
/// Exhaustive over `alpha` up to `len`, inside a frame.
fn toks(name: &'static str, prop: &'static str, kind: &'static str, alpha: &'static [&'static str], len: u32, pre: &'static str, post: &'static str, confs: Vec<Conf>) -> Stage {
    let n = confs.len() as u64;
    ex(name, upto(alpha, len) * n, move |i, _| Case::new(prop, kind).conf(confs[(i % n) as usize].clone()).inp(format!("{}{}{}", pre, nth(alpha, i / n), post)))
}
fn cf(trim: bool, norm: u8, msh: u8, ent: bool) -> Conf { Conf { trim, norm, msh, igd: false, igp: false, ent, pent: ent } }

const SHAPE_NAMES: &[&str] = &["a", "b", "c", "x"];
pub fn leaf(r: &mut Rng) -> Shape { use Shape::*; let n = r.pick(NUMS); [Str, Bool, num(n), num(n), Txt(r.n(5) as u8), Unit, Ignored, Any, Str, Str, num("u8"), num("f64"), UnitStruct][r.n(13)].clone() }
pub fn shape(r: &mut Rng, d: usize) -> Shape {
    use Shape::*;
    if d == 0 { return leaf(r); }
    match r.n(14) {
        12 => New(Box::new(shape(r, d - 1))),
        13 => { let n = 1 + r.n(3); let one = r.p(60); let f = shape(r, d - 1); Tuple(r.p(30), (0..n).map(|_| if one { f.clone() } else { shape(r, d - 1) }).collect()) }
        0 => Opt(Box::new(shape(r, d - 1))),
        1 | 2 => Seq(Box::new(shape(r, d - 1))),
        3 => Map(Box::new(shape(r, d - 1))),
        4..=7 => {
            let mut fs = vec![];
            for n in SHAPE_NAMES { if r.p(60) { fs.push((n.to_string(), if r.p(50) { Opt(Box::new(shape(r, d - 1))) } else { shape(r, d - 1) })); } }
            if r.p(30) { fs.push(("$value".into(), shape(r, d - 1))); }
            Struct(fs)
        }
        8 => {
            let mut vs = vec![];
            for n in SHAPE_NAMES { if r.p(60) { vs.push((n.to_string(), match r.n(8) { 0 | 1 => Var::Unit, 2 => Var::New(leaf(r)), 3 => Var::New(shape(r, d - 1)), 4 => Var::New(Struct(vec![("b".into(), Opt(Box::new(Str)))])), 5 => Var::Tup((0..1 + r.n(3)).map(|_| leaf(r)).collect()), 6 => Var::Rec(vec![("b".into(), Opt(Box::new(leaf(r)))), ("$value".into(), leaf(r))]), _ => { let mut fs = vec![]; for n in SHAPE_NAMES { if r.p(40) { fs.push((n.to_string(), Opt(Box::new(shape(r, d - 1))))); } } Var::Rec(fs) } })); } }
            Enum(vs)
        }
        _ => leaf(r),
    }
}
const VALS: &[&str] = &["", "1", "0", "true", "FALSE", "x", "b", "True", "yes", "12", "-3", "300", "255", "256", "1.5", " 1", "+7", "1e3", "NaN", "é", "a", "B", "\u{a0}1", "tru", "truex", "2147483647", "2147483648", "-2147483648", "inf", "0x1", "00", "false", "TrUe", "-128", "127", "128", "-129", "32767", "32768", "-32768", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "3.4028236e38", "0.1", "16777217", "1e39", "1e309", "-0", "1_0", "1 ", "２"];
/// The events of one element fitting (mostly) a shape.
pub fn elt(r: &mut Rng, name: &str, sh: &Shape, d: usize, out: &mut Vec<HEv>) {
    use Shape::*;
    out.push(Open(name.into()));
    let val = |r: &mut Rng| r.pick(VALS).to_string();
    let fits = |r: &mut Rng, s: &Shape| match s { Bool => r.pick(&["1", "0", "true", "False", "TRUE", "x", ""]).to_string(), Num(n) if !n.starts_with('f') => r.pick(&["0", "7", "255", "256", "-1", "x", "+1", "-128", "128", "32767", "-32769", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "-9223372036854775808", "99999999999999999999"]).to_string(), Num(_) => r.pick(&["0.5", "1", "-2e3", ".", "x"]).to_string(), _ => val(r) };
    let inner = |s: &Shape| -> Shape { let mut s = s.clone(); loop { s = match s { Opt(x) | Seq(x) | New(x) => *x, Tuple(_, v) if !v.is_empty() => v[0].clone(), x => return x } } };
    let mut late: Vec<(String, Shape)> = vec![];
    if r.p(25) { let v = if r.p(30) { None } else { Some(val(r)) }; out.push(Attr(r.pick(&["a", "q", "zz", "b"]).to_string(), v)); }
    if let Struct(fs) = sh {
        for (n, s) in fs {
            let i = inner(s);
            let simple = !matches!(i, Struct(_) | Map(_) | Enum(_));
            if r.p(12) { continue; }
            if n != "$value" && simple && !matches!(s, Seq(_) | Tuple(..)) && r.p(40) { let v = if r.p(20) { None } else if r.p(15) { Some(n.to_uppercase()) } else { Some(fits(r, &i)) }; out.push(Attr(n.clone(), v)); } else { late.push((n.clone(), s.clone())); }
        }
    }
    if r.p(4) { out.push(XmlClose); return; }
    out.push(Close);
    let noise = |r: &mut Rng, out: &mut Vec<HEv>| {
        if r.p(15) { out.push(Chars(r.pick(&["t", " ", "u", "", "\n"]).to_string())); }
        if r.p(8) { let mut v = gen::tree(r, &["zz", "a", "q"], 2, 0); out.push(Open("zz".into())); out.push(Close); out.append(&mut v); out.push(End("zz".into())); }
        if r.p(2) { out.push([Pi("<?p>".into()), Decl("D".into(), "".into()), Section("CDATA".into(), "s".into()), Open("".into()), End("".into())][r.n(5)].clone()); }
    };
    noise(r, out);
    match sh {
        Struct(_) => {
            if r.p(30) && late.len() > 1 { let i = r.n(late.len()); late.swap(0, i); }
            for (n, s) in late {
                let mut t = &s; while let Opt(x) | New(x) = t { t = x; }
                let reps = match t { Seq(_) => r.n(4), Tuple(_, v) => if r.p(85) { v.len() } else { r.n(4) }, _ => 1 };
                for k in 0..reps {
                    if n == "$value" { let nm = r.pick(SHAPE_NAMES).to_string(); if r.p(50) { out.push(Chars(fits(r, &inner(&s)))); } else if d > 0 { elt(r, &nm, &inner(&s), d - 1, out); } }
                    else if d > 0 { let each = match t { Tuple(_, v) if k < v.len() => inner(&v[k]), _ => inner(&s) }; elt(r, &n, &each, d - 1, out); }
                    if k + 1 < reps { if r.p(10) { out.push(Chars(r.pick(&["", "", "t"]).to_string())); } } else { noise(r, out); }
                }
            }
        }
        Map(s) if d > 0 => for _ in 0..r.n(4) { let n = r.pick(SHAPE_NAMES).to_string(); elt(r, &n, &inner(s), d - 1, out); noise(r, out); },
        Any if d > 0 => { out.append(&mut gen::tree(r, SHAPE_NAMES, 2, 0)); }
        Enum(vs) if d > 0 && !vs.is_empty() => { let (n, s) = vs[r.n(vs.len())].clone(); if r.p(30) { out.push(Chars(n)); } else { variant(r, &n, &s, d - 1, out); } }
        _ => {
            out.push(Chars(fits(r, sh)));
            while r.p(25) { match r.n(3) { 0 => out.push(Chars(val(r))), 1 => { let n = r.pick(SHAPE_NAMES).to_string(); elt(r, &n, &Str, 0, out) } _ => { out.append(&mut gen::tree(r, SHAPE_NAMES, 2, 0)) } } }
        }
    }
    if r.p(97) { out.push(End(if r.p(3) { r.pick(SHAPE_NAMES).to_string() } else { name.to_string() })); }
}
/// The elements of one enum variant.
fn variant(r: &mut Rng, n: &str, v: &Var, d: usize, out: &mut Vec<HEv>) {
    match v {
        Var::Unit => elt(r, n, &Shape::Unit, d, out),
        Var::New(s) => elt(r, n, s, d, out),
        Var::Tup(ss) => { for s in ss { elt(r, n, s, d, out); if r.p(5) { out.push(Chars(String::new())); } } if r.p(10) || ss.is_empty() { elt(r, n, &Shape::Str, d, out); } }
        Var::Rec(fs) => elt(r, n, &Shape::Struct(fs.clone()), d, out),
    }
}
fn de_case(prop: &'static str, r: &mut Rng) -> Case {
    use Shape::*;
    let sh = match prop {
        "C20" => { let l = |r: &mut Rng| { let n = r.pick(NUMS); [Bool, Bool, Bool, num(n), num(n), num(n)][r.n(6)].clone() }; if r.p(70) { Struct(vec![("a".into(), l(r)), ("b".into(), Opt(Box::new(l(r)))), ("$value".into(), Opt(Box::new(l(r))))]) } else { l(r) } }
        "C16" => match r.n(8) { 0 | 1 | 2 => Str, 3 => Seq(Box::new(Str)), 4 => Struct(vec![("$value".into(), Str), ("a".into(), Opt(Box::new(Str)))]), 5 => Map(Box::new(Str)), _ => Struct(vec![("a".into(), Opt(Box::new(Str))), ("b".into(), Opt(Box::new(Str))), ("c".into(), Seq(Box::new(Str)))]) },
        _ => { let d = 1 + r.n(3); shape(r, d) }
    };
    let mut evs = vec![];
    let n = r.pick(SHAPE_NAMES).to_string();
    let real = if r.p(95) { sh.clone() } else { shape(r, 2) };
    let mut t = &real; while let Opt(x) | Seq(x) | New(x) = t { t = x; }
    match t {
        Tuple(_, v) => { for s in v { elt(r, &n, s, 2, &mut evs); } if r.p(5) { evs.pop(); } }
        Enum(vs) if !vs.is_empty() && r.p(70) => { let (m, v) = vs[r.n(vs.len())].clone(); variant(r, &m, &v, 2, &mut evs) }
        t => elt(r, &n, t, 3, &mut evs),
    }
    if matches!(sh, Seq(_)) && r.p(50) { elt(r, &n, &t.clone(), 2, &mut evs); }
    if r.p(10) { evs.push([Chars("tail".into()), End("r".into()), Open("b".into()), Pi("<?e>".into())][r.n(4)].clone()); }
    if r.p(4) && !evs.is_empty() { let i = r.n(evs.len()); evs.remove(i); if !wf_enough(&evs) { evs = vec![Open("a".into()), Close, End("a".into())]; } }
    let mut c = Case::new(prop, "de").evs(evs);
    c.shape = Some(sh);
    c
}
/// Start tags still form proper groups.
pub fn wf_enough(evs: &[HEv]) -> bool { crate::contracts::s_wf(false, sevs(evs)) }

/// An event to insert: told apart by its text, or of any kind and possibly equal to others.
fn inserted(r: &mut Rng, i: usize) -> HEv {
    if r.p(40) { return Chars(format!("+{}", i)); }
    let n = ["a", "b", "A", ""][r.n(4)].to_string();
    match r.n(10) { 0 | 1 => Open(n), 2 => Close, 3 => XmlClose, 4 | 5 => End(n), 6 => Attr(n, if r.p(50) { None } else { Some("v".into()) }), 7 => Chars(["", " ", "e0", "+0", "x"][r.n(5)].into()), 8 => Pi("<?p>".into()), _ => gen::events(r, &["a", "b"]).pop().unwrap_or(Close) }
}
fn op_list(r: &mut Rng, len: usize) -> Vec<(i64, i64, Option<HEv>)> {
    (0..r.n(9)).map(|i| { let p = if r.p(7) { r.pick(&[&(i64::MAX - 5), &1000, &(1 << 8), &(1 << 16), &(1 << 31), &(1 << 32), &(1 << 62)]).saturating_add(r.n(3) as i64) } else { r.n(len + 3) as i64 }; if r.p(55) { (0, p, Some(inserted(r, i))) } else { (1, p, None) } }).collect()
}

/// Several short cases in one enumeration index for transforms: events 0..n, ops from a small alphabet.
fn transform_ex(i: u64) -> Case {
    let mut c = Case::new("C13", "ex");
    let n = i % 4; let mut j = i / 4;
    c.evs = (0..n).map(|k| Chars(format!("e{}", k))).collect();
    let mut len = 0u32; let mut block = 1u64;
    while j >= block { j -= block; block *= 8; len += 1; }
    for q in 0..len { let o = j % 8; j /= 8; c.ops.push(if o < 4 { (0, o as i64, Some(Chars(format!("+{}", q)))) } else { (1, o as i64 - 4, None) }); }
    c
}

fn long_line(r: &mut Rng) -> String {
    let n = [5, 38, 39, 40, 41, 42, 43, 44, 45, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 100, 118, 119, 120, 121, 122, 125, 160, 300][r.n(28)];
    let al: &[&str] = match r.n(4) { 0 => &["a"], 1 => &["é", "b"], 2 => &["中", "x", "😀"], _ => &["a", " ", ".", "\t"] };
    (0..n).map(|_| r.pick(al).to_string()).collect()
}
fn error_doc(r: &mut Rng) -> Case {
    let c = gen::conf(r);
    let mut d = String::new();
    for _ in 0..r.n(4) { d += &match r.n(4) { 0 => long_line(r), 1 => "<a>x</a>".into(), 2 => "<a\nb='c\n'>".into(), _ => gen::content(r, &c, 1, false) }; if r.p(60) { d += r.pick(&["\n", "\r\n", "\n\n", "\r"]); } }
    if d.trim().is_empty() { d += "<a>"; }
    d += &match r.n(16) {
        0 => "<a b='unclosed".into(), 1 => "<![FOO[x]]>".into(), 2 => "<!-- unclosed".into(), 3 => "</ >".into(), 4 => "&undefined;".into(), 5 => format!("<a b='{}&nope;'>", long_line(r)),
        6 => "<a =>".into(), 7 => "<![CDATA[ no end".into(), 8 => "<![INCLUDE[<a b=>]]>".into(), 9 => "<?pi".into(), 10 => format!("<a{}b=\"", long_line(r)), 11 => "<!DOCTYPE x [ <!A ".into(), 12 => "</a b>".into(), 13 => "<a b c=\"'>".into(), 14 => "<![ RCDATA\nFOO [".into(), _ => r.pick(gen::ODD).to_string() };
    if r.p(50) { d += &long_line(r); }
    if r.p(50) { d += "\n"; d += &gen::content(r, &c, 1, false); }
    let d = gen::mutate(r, d, 30);
    Case::new("C14", "parse").conf(c).inp(d)
}

const LT: &[&str] = &["<", "a", "!", "-", "/", "]]>", ">", "?", "[", " ", "é", "]"];
const TAG: &[&str] = &["a", "=", "\"", "'", "/", ">", " ", "é", "<", "&#60;"];
const CMT: &[&str] = &["<!", "--", "-", ">", "a", " ", "<b>", "!"];
const CML: &[&str] = &["--a--", "----", " ", "\n", "->", "--", ">", "<b>"];
const SEC: &[&str] = &["<![", "]]>", "]", "a", "<!-->", "<b>", "&#38;", ">", " "];
const SECK: &[&str] = &["<![INCLUDE[", "<![IGNORE[", "<![CDATA[", "<![RCDATA[", "]]>", "a", "</b>", "<!-- ]]> -->", " "];
const DCL: &[&str] = &["'", "\"", "--", "-", "[", "]", "<!A", ">", " ", "x"];
const REF: &[&str] = &["&", "#", "x", "a", ";", "1", "A", ".", "%", "é"];
const KW: &[&str] = &["CDATA", "RCDATA", "IGNORE", "include", "Temp", " ", "X", "\t", "\u{a0}", "\u{c}"];
const WSP: &[&str] = &[" ", "\t", "\n", "\r", "a", "&#32;", "\u{a0}", "\u{c}", "<b>", "&#10;x"];

/// Every character in each of the templates (`{}` marks the place).
fn sweep(prop: &'static str, kind: &'static str, thorough: bool, ts: &'static [&'static str], confs: Vec<Conf>) -> Stage {
    let n = (ts.len() * confs.len()) as u64;
    ex("every character, in templates", n * if thorough { 0x110000 } else { 0x3100 }, move |i, _| {
        let c = char::from_u32((i / n) as u32).unwrap_or('<');
        let j = (i % n) as usize;
        let t = ts[j % ts.len()].replace("{}", &c.to_string());
        let mut k = Case::new(prop, kind).conf(confs[j / ts.len()].clone());
        match prop {
            "C09" => k.evs = vec![Attr("n".into(), Some(t))],
            "C12" => k.evs = vec![Open("a".into()), Close, Open("b".into()), Close, Chars(t.clone()), Open("b".into()), Close, Chars(t), End("a".into())],
            "C20" => {
                let name = c.to_lowercase().to_string();
                k.evs = vec![Open("r".into()), Attr(if j % 2 == 0 { name } else { "k".into() }, Some(t.clone())), Close, Chars(t), End("r".into())];
                k.shape = Some(match j % 3 { 0 => Shape::Map(Box::new(Shape::Bool)), 1 => Shape::Bool, _ => Shape::Struct(vec![("k".into(), Shape::Opt(Box::new(Shape::Bool))), ("$value".into(), num("u8"))]) });
            }
            "C21" if kind == "token" => k.evs = vec![match j % 3 { 0 => Chars(t), 1 => Attr("n".into(), Some(t)), _ => Attr("n".into(), Some(format!("{}\"", t))) }],
            _ => k.input = t,
        }
        k
    })
}
/// Every short list of pieces inside one element, against targets of every form.
fn forms(thorough: bool) -> Stage {
    use Shape::*;
    let u8s = || num("u8");
    let opt = |s| Opt(Box::new(s));
    let st = |v: Vec<(&str, Shape)>| v.into_iter().map(|(n, s)| (n.to_string(), s)).collect::<Vec<_>>();
    let en = || Enum(vec![("T".into(), Var::Tup(vec![u8s(), u8s()])), ("t".into(), Var::Tup(vec![Str])), ("r".into(), Var::Rec(st(vec![("q", opt(u8s())), ("$value", opt(Str))]))), ("b".into(), Var::New(u8s())), ("x".into(), Var::Unit), ("n".into(), Var::New(Seq(Box::new(u8s()))))]);
    let shapes: Vec<Shape> = vec![
        en(), opt(en()), Seq(Box::new(en())), Struct(st(vec![("e", en())])), Struct(st(vec![("e", opt(en())), ("b", opt(u8s()))])), Struct(st(vec![("$value", en())])), Struct(st(vec![("$value", Seq(Box::new(en()))), ("b", opt(u8s()))])),
        Struct(st(vec![("e", Seq(Box::new(en())))])), Map(Box::new(en())), Tuple(false, vec![en(), opt(u8s())]), New(Box::new(en())),
        Struct(st(vec![("T", Tuple(true, vec![u8s(), u8s()])), ("b", opt(Str))])), Struct(st(vec![("T", Tuple(false, vec![u8s(), opt(u8s())])), ("x", opt(Unit))])), Struct(st(vec![("T", Seq(Box::new(u8s()))), ("x", opt(UnitStruct)), ("$value", opt(Str))])),
        Map(Box::new(Seq(Box::new(u8s())))), Map(Box::new(Str)), Seq(Box::new(Map(Box::new(u8s())))), Any, Str, Unit, Ignored, Bool,
        Struct(st(vec![("T", Struct(st(vec![("q", u8s()), ("$value", u8s())]))), ("b", opt(u8s()))])),
    ];
    let pieces: Vec<Vec<HEv>> = {
        let e = |n: &str, a: Option<Option<&str>>, c: &[HEv]| { let mut v = vec![Open(n.into())]; if let Some(x) = a { v.push(Attr("q".into(), x.map(|s| s.into()))); } v.push(Close); v.extend_from_slice(c); v.push(End(n.into())); v };
        let ch = |s: &str| Chars(s.into());
        vec![e("T", None, &[ch("1")]), e("T", Some(Some("2")), &[ch("3")]), e("t", None, &[ch("s")]), e("b", None, &[ch("4")]), e("e", None, &e("T", None, &[ch("5")])), e("e", None, &[ch("x")]), vec![Open("x".into()), XmlClose], e("r", Some(Some("6")), &[ch("w")]), vec![ch("x")], vec![ch("")], e("n", None, &[ch("7")]), e("e", None, &[])]
    };
    let (np, ns) = (pieces.len() as u64, shapes.len() as u64);
    let len = if thorough { 5 } else { 4 };
    let total: u64 = (0..=len).map(|l| np.pow(l)).sum();
    ex("lists of pieces against targets of every form, exhaustive", total * ns * 2, move |i, _| {
        let (bare, i) = (i % 2 == 1, i / 2);
        let sh = shapes[(i % ns) as usize].clone();
        let (mut j, mut l, mut block) = (i / ns, 0, 1u64);
        while j >= block { j -= block; block *= np; l += 1; }
        let mut v = if bare { vec![] } else { vec![Open("R".into()), Close] };
        for _ in 0..l { v.extend_from_slice(&pieces[(j % np) as usize]); j /= np; }
        if !bare { v.push(End("R".into())); }
        let mut k = Case::new("C15", "de").evs(v);
        k.shape = Some(sh);
        k
    })
}
/// Large and deep inputs.
fn bulk(prop: &'static str, thorough: bool) -> Stage {
    rnd("large inputs", if thorough { 4000 } else { 160 }, move |r| {
        let mut c = gen::conf(r);
        let n = [20, 60, 200, 900][r.n(4)];
        let k = Case::new(prop, "doc");
        let rep = |r: &mut Rng, n: usize, f: &dyn Fn(&mut Rng) -> String| -> String { (0..n).map(|_| f(r)).collect() };
        match prop {
            "C01" => { c.ent = false; let d = rep(r, n, &|r| if r.p(50) { gen::start_tag(r, false) } else { gen::end_tag(r) }); k.conf(c).inp(d) }
            "C02" => { c.trim = false; let d = format!("x{}", rep(r, n, &|r| { let a = gen::text(r, false, true); if r.p(10) { format!("{}<b>", a) } else { a } })); k.conf(c).inp(d) }
            "C03" => { let m = 1 + r.n(if c.msh == 2 { 25 } else { 60 }); let kw = if r.p(50) { "IGNORE" } else { "INCLUDE" }; c.msh = [0, 2][r.n(2)]; let d = format!("<a>{}x{}y", format!("<![{}[", kw).repeat(m), "]]>".repeat(if r.p(80) { m } else { r.n(m + 3) })); k.conf(c).inp(d) }
            "C04" => { let d = rep(r, n, &|r| format!("{}{}", r.pick(&["CDATA", "RCDATA", "IGNORE", "include", "Temp"]), r.pick(gen::WS))); Case::new("C04", "kw").inp(d) }
            "C05" | "C06" => { let d = rep(r, n, &|r| gen::text(r, true, true)); Case::new(prop, ["exp", "pexp", "chars"][r.n(3)]).conf(cf(true, 0, 1, r.p(85))).inp(d) }
            "C07" => { let d = rep(r, n.min(200), &|r| gen::text(r, true, true)); Case::new("C07", "esc").inp(d) }
            "C08" => { let d = format!("<r{}>", rep(r, n, &|r| format!(" {}", gen::attr(r, false)))); k.conf(c).inp(d) }
            "C10" => { let d = format!("<r>{}", rep(r, n, &|r| format!("{}<b>", rep(r, 3, &|r| format!("{}{}", r.pick(gen::WS), gen::text(r, false, false)))))); k.conf(c).inp(d) }
            "C12" => {
                let mut v = vec![];
                let depth = 2 + r.n(60);
                for i in 0..depth { v.push(Open(["a", "b", "c", "d"][if r.p(70) { i % 4 } else { r.n(4) }].into())); v.push(Close); if r.p(20) { v.push(Chars(r.pick(&["x", " "]).to_string())); } }
                for _ in 0..r.n(depth + 3) { v.push(End(r.pick(&["a", "b", "c", "d"]).to_string())); if r.p(30) { v.append(&mut gen::tree(r, &["a", "e"], 2, 50)); } }
                Case::new("C12", "net").evs(v)
            }
            "C14" => { let d = rep(r, n, &|r| format!("{}{}", long_line(r), r.pick(&["\n", "\r\n"]))).replace('<', "") + "<a b='x"; Case::new("C14", "parse").conf(c).inp(d) }
            "C18" => { let d = format!("<a>{}", rep(r, n, &|r| format!("{}{}", gen::comment(r), if r.p(50) { gen::start_tag(r, false) } else { String::new() }))); k.conf(c).inp(d) }
            "C15" | "C16" => {
                let depth = 2 + r.n(40);
                let mut v = vec![];
                for i in 0..depth { v.push(Open(["a", "b"][i % 2].into())); v.push(Close); if r.p(40) { v.push(Chars(r.pick(&["t", "", " u"]).to_string())); } if r.p(20) { v.append(&mut gen::tree(r, &["a", "b"], 2, 0)); } }
                for i in (0..depth).rev() { if r.p(30) { v.push(Chars(r.pick(&["v", "w "]).to_string())); } v.push(End(["a", "b"][i % 2].into())); }
                let mut sh = if prop == "C16" { Shape::Str } else { [Shape::Str, Shape::Any, Shape::Unit, Shape::Ignored][r.n(4)].clone() };
                for i in (0..r.n(depth)).rev() { sh = Shape::Struct(vec![(["b", "a"][i % 2].into(), Shape::Opt(Box::new(sh)))]); }
                let mut k = Case::new(prop, "de").evs(v);
                k.shape = Some(sh);
                k
            }
            _ => { let d = rep(r, n.min(200), &|r| gen::content(r, &Conf::default(), 1, false)); k.conf(c).inp(d) }
        }
    })
}

pub fn stages(prop: &str, thorough: bool) -> Vec<Stage> {
    let mut v = stages_of(prop, thorough);
    let t = thorough;
    let p = |t: bool| vec![cf(t, 0, 2, false)];
    match prop {
        "C01" => { v.push(sweep("C01", "focus", t, &["<{}>", "<a{}>", "</a{}>", "<a {}=1>", "</{}>", "<a{}b/>"], p(false))); v.push(toks("comments in tags, exhaustive", "C01", "focus", INTAG, 4, "<a ", ">", p(true))); v.push(bulk("C01", t)); }
        "C02" => { v.push(sweep("C02", "focus", t, &["x<{}y", "{}", "x{}<b>", "x</{}", "x<!{}", "a]{}]>"], p(false))); v.push(bulk("C02", t)); }
        "C03" => { v.push(sweep("C03", "focus", t, &["<a><![CDATA[{}]]>", "<a><![IGNORE[<!{}[]]>]]>", "<a><![{}CDATA[x]]>", "<a><![CDATA{}[x]]>y"], vec![cf(false, 0, 2, false), cf(false, 0, 0, false)])); v.push(toks("keyword delimiters, exhaustive", "C03", "focus", &["CDATA", "[", "]", "<", ">", "!", " ", "&", "%C;", "x"], 4, "<a><![", "[x]]>", vec![cf(false, 0, 0, false), cf(false, 0, 0, true), cf(false, 0, 2, true)])); v.push(bulk("C03", t)); }
        "C04" => { v.push(sweep("C04", "kw", t, &["CDATA{}IGNORE", "{}TEMP", "INCLUDE{}", "{}", "C{}DATA"], p(false)));
            v.push(toks("keyword delimiters, exhaustive", "C04", "focus", &["CDATA", "[", "]", "<", ">", "!", " ", "%C;", "x"], 4, "<a><![", "[x]]>", vec![cf(false, 0, 0, false), cf(false, 0, 0, true), cf(false, 0, 2, true)])); v.push(bulk("C04", t)); }
        "C05" => { v.push(sweep("C05", "exp", t, &["&{};", "&a{};", "&a{}b", "a{}&lt;"], vec![cf(true, 0, 1, true)])); v.push(bulk("C05", t)); }
        "C06" => { v.push(sweep("C06", "exp", t, &["&#{};", "&#1{};", "&#x{};", "&#x1{}"], vec![cf(true, 0, 1, true)])); v.push(bulk("C06", t)); }
        "C07" => { v.push(sweep("C07", "esc", t, &["{}", "<{}"], p(false))); v.push(bulk("C07", t)); }
        "C08" => { v.push(sweep("C08", "focus", t, &["<r b={}>", "<r b=x{}y>", "<r b{}=x>", "<r b='{}'>", "<r b{}c>", "<r b ={}c>"], p(false))); v.push(toks("comments in tags, exhaustive", "C08", "focus", INTAG, 4, "<a ", ">", p(true))); v.push(bulk("C08", t)); }
        "C09" => v.push(sweep("C09", "a", t, &["{}", "'{}\"", "\"{}"], p(false))),
        "C10" => { v.push(sweep("C10", "focus", t, &["<r>{}x{}</r>", "<r>{}</r>", "<r b=' {}'>", "<r> <![CDATA[{}]]> "], vec![cf(true, 0, 2, false), cf(false, 0, 2, false)])); v.push(bulk("C10", t)); }
        "C12" => { v.push(sweep("C12", "net", t, &["{}", " {}"], p(false))); v.push(bulk("C12", t)); }
        "C14" => { v.push(sweep("C14", "parse", t, &["ab{}c<a b={}", "{}\n<a>{}<a b='", "<a><![x{}[", "x<![{}"], p(true))); v.push(bulk("C14", t)); }
        "C15" => { v.insert(0, forms(t)); v.push(bulk("C15", t)); }
        "C16" => v.push(bulk("C16", t)),
        "C18" => { v.push(sweep("C18", "focus", t, &["<!--a{}--><b>", "<!----{}--><b>", "<!{}><b>", "<!-- -{}- --><b>"], p(true))); v.push(toks("comments in tags, exhaustive", "C18", "focus", INTAG, 4, "<a ", ">", p(true))); v.push(bulk("C18", t)); }
        "C20" => v.push(sweep("C20", "de", t, &["{}", "tru{}", "{}1", "fals{}", "k{}", "{}rue"], p(true))),
        "C21" => v.push(sweep("C21", "token", t, &["{}", "a{}'", "<{}>"], p(true))),
        _ => {}
    }
    v.push(crate::scale::scale(Box::leak(prop.to_string().into_boxed_str()), t));
    v
}
const INTAG: &[&str] = &["<!-- c -->", "--c--", "<!>", " ", "b", "=", "1", ">", "/"];
fn stages_of(prop: &str, thorough: bool) -> Vec<Stage> {
    let big = |q: u64| if thorough { q * 60 } else { q * 25 };
    let x = |a: u32| if thorough { a + 2 } else { a + 1 };
    let docs = |p: &'static str, n: u64| rnd("random documents", big(n), move |r| { let c = gen::conf(r); let d = gen::doc(r, &c); Case::new(p, "doc").conf(c).inp(d) });
    let inc = || cf(false, 0, 2, true);
    match prop {
        "C01" => vec![
            toks("start tags, exhaustive", "C01", "focus", TAG, x(4), "<a", "", vec![cf(false, 0, 1, false)]),
            toks("after <, exhaustive", "C01", "focus", &["<", "a", ">", "/", " ", "É", "b=c"], x(5), "<", ">", vec![cf(true, 1, 1, false)]),
            rnd("random start tags", big(20000), |r| { let mut c = gen::conf(r); c.ent = false; let mut d = String::new(); for _ in 0..1 + r.n(3) { d += &gen::start_tag(r, false); if r.p(30) { d += &gen::end_tag(r); } if r.p(30) { d += &gen::ws1(r); } } let d = gen::mutate(r, d, 20); Case::new("C01", "focus").conf(c).inp(d) }),
            docs("C01", 30000),
        ],
        "C02" => vec![
            toks("text and near-markup, exhaustive", "C02", "focus", LT, x(4), "x", "", vec![cf(false, 0, 2, false)]),
            toks("text inside INCLUDE, exhaustive", "C02", "focus", LT, if thorough { 5 } else { 3 }, "<![INCLUDE[x", "y]]>z", vec![cf(false, 0, 2, false)]),
            rnd("random text", big(20000), |r| { let mut c = gen::conf(r); c.trim = false; let mut d = String::from("x"); for _ in 0..1 + r.n(5) { d += &match r.n(5) { 0 => gen::start_tag(r, c.ent), 1 => gen::end_tag(r), 2 => gen::comment(r), _ => gen::text(r, c.ent, true) }; } Case::new("C02", "focus").conf(c).inp(d) }),
            rnd("random documents, untrimmed", big(30000), |r| { let mut c = gen::conf(r); c.trim = false; let d = gen::doc(r, &c); Case::new("C02", "doc").conf(c).inp(d) }),
        ],
        "C03" => vec![
            toks("nested ignored sections, exhaustive", "C03", "focus", &["<![", "]]>", "]", "a"], if thorough { 9 } else { 7 }, "<a><![IGNORE[", "]]>b", vec![inc(), cf(true, 0, 0, false)]),
            toks("bodies of CDATA, exhaustive", "C03", "focus", SEC, x(4), "<a><![CDATA[", "]]>b", vec![inc(), cf(true, 0, 1, false), cf(false, 0, 0, false)]),
            toks("bodies of RCDATA, exhaustive", "C03", "focus", SEC, x(3), "<a><![RCDATA[", "]]>b", vec![inc(), cf(true, 0, 1, false), cf(false, 0, 0, false)]),
            toks("bodies of INCLUDE, exhaustive", "C03", "focus", SEC, x(4), "<a><![INCLUDE[", "]]>b", vec![inc(), cf(false, 0, 0, false)]),
            toks("nested sections, exhaustive", "C03", "focus", SECK, x(4), "<a>", "", vec![inc(), cf(false, 0, 0, false)]),
            rnd("random sections", big(30000), |r| { let c = gen::conf(r); let d = format!("{}<r>{}{}</r>", if r.p(20) { gen::section(r, &c, 1) } else { String::new() }, gen::section(r, &c, 0), if r.p(40) { gen::section(r, &c, 0) } else { gen::text(r, false, false) }); let d = gen::mutate(r, d, 15); Case::new("C03", "focus").conf(c).inp(d) }),
            docs("C03", 15000),
        ],
        "C04" => vec![
            ex("keyword lists, exhaustive", upto(KW, x(4)), |i, _| Case::new("C04", "kw").inp(nth(KW, i))),
            ex("keyword lists in documents, exhaustive", upto(&KW[..9], x(3)) * 3, |i, _| Case::new("C04", "kwdoc").conf(cf(true, 0, (i % 3) as u8, true)).inp(nth(&KW[..9], i / 3))),
            rnd("random keyword lists", big(40000), |r| { let msh = r.n(3) as u8; let pent = r.p(60); let k = gen::keywords(r, msh, pent); let k = if r.p(10) { gen::mutate(r, k, 100) } else { k }; Case::new("C04", if r.p(50) { "kw" } else { "kwdoc" }).conf(cf(r.p(50), 0, msh, pent)).inp(k) }),
        ],
        "C05" => vec![
            ex("references, exhaustive", upto(REF, x(5)) * 2, |i, _| Case::new("C05", if i % 2 == 0 { "exp" } else { "pexp" }).conf(cf(true, 0, 1, true)).inp(nth(REF, i / 2))),
            rnd("random text with references", big(60000), |r| { let n = 1 + r.n(4); let mut t = String::new(); for _ in 0..n { t += &gen::text(r, true, true); } let t = if r.p(40) { t.replace('&', "%") } else { t }; Case::new("C05", ["exp", "pexp", "chars", "exp"][r.n(4)]).conf(cf(true, 0, 1, r.p(85))).inp(t) }),
        ],
        "C06" => vec![
            ex("code numbers", if thorough { 0x110400 } else { 66000 }, move |i, r| { let mut c = Case::new("C06", "code"); let n = if thorough { i as i64 } else { match i { 0..=2999 => i as i64, 3000..=6999 => 0xD800 - 1000 + (i as i64 - 3000), 7000..=9999 => 0x10FFFF - 1500 + (i as i64 - 7000), 10000..=10100 => 0xFFFF_FFFF - 50 + (i as i64 - 10000), 10101..=10200 => (1i64 << 32) * (i as i64 - 10100), _ => r.n(0x120000) as i64 } }; c.ops.push((n, 0, None)); c }),
            ex("numeric references, exhaustive", upto(&["&", "#", "x", "0", "9", "A", "f", "g", ";", "."], x(5)), |i, _| Case::new("C06", "exp").conf(cf(true, 0, 1, i % 2 == 0)).inp(nth(&["&", "#", "x", "0", "9", "A", "f", "g", ";", "."], i))),
            rnd("long numbers", big(20000), |r| { let mut t = String::new(); for _ in 0..1 + r.n(3) { t += r.pick(&["&#", "&#x", "&#X", "%#", "a&#"]); for _ in 0..r.n(14) { t += r.pick(&["0", "1", "6", "5", "4", "2", "9", "D", "8", "F", "f", "g", "-", "٣"]); } t += r.pick(&[";", "", " ", ";;"]); } Case::new("C06", ["exp", "pexp", "chars"][r.n(3)]).conf(cf(true, 0, 1, r.p(60))).inp(t) }),
        ],
        "C07" => vec![
            ex("escape, exhaustive", upto(&["<", ">", "&", "a", "#60;", "é", "\"", "😀"], x(5)), |i, _| Case::new("C07", "esc").inp(nth(&["<", ">", "&", "a", "#60;", "é", "\"", "😀"], i))),
            rnd("random text", big(20000), |r| { let t = format!("{}{}{}", gen::text(r, true, true), gen::text(r, true, true), gen::attr_value(r, true)); Case::new("C07", "esc").inp(t) }),
        ],
        "C08" => vec![
            toks("attributes, exhaustive", "C08", "focus", TAG, x(4), "<r b", ">", vec![cf(false, 0, 1, true)]),
            toks("attribute values, exhaustive", "C08", "focus", &["\"", "'", " ", "a", "/", "&lt;", "=", ">", "\n"], x(4), "<r b=", ">", vec![cf(true, 2, 1, true)]),
            rnd("random attributes", big(40000), |r| { let c = gen::conf(r); let d = format!("<r {}{}>", { let mut a = gen::attr(r, c.ent); for _ in 0..r.n(4) { a += r.pick(&[" ", "\n", "", "  "]); a += &gen::attr(r, c.ent); } a }, gen::ws0(r)); Case::new("C08", "focus").conf(c).inp(d) }),
            docs("C08", 15000),
        ],
        "C09" => vec![
            ex("values, exhaustive", upto(&["\"", "'", "&", "<", ">", "a", " ", "#34;", "\n"], x(5)), |i, _| Case::new("C09", "a").evs(vec![Attr("n".into(), Some(nth(&["\"", "'", "&", "<", ">", "a", " ", "#34;", "\n"], i)))])),
            rnd("random attributes", big(30000), |r| { let v = format!("{}{}", gen::attr_value(r, true), gen::text(r, true, true)); let v = if r.p(90) { Some(v) } else { None }; Case::new("C09", "a").evs(vec![Attr(gen::name(r), v)]) }),
        ],
        "C10" => vec![
            toks("whitespace, exhaustive", "C10", "focus", WSP, x(4), "<r>", "</r>", vec![cf(true, 0, 1, false), cf(false, 0, 1, false)]),
            toks("whitespace in sections, exhaustive", "C10", "focus", WSP, x(3), "<r> <![CDATA[", "]]>\t<![RCDATA[ a ]]> <a b=' c '> ", vec![cf(true, 0, 1, false), cf(false, 0, 1, false), cf(true, 0, 0, false)]),
            toks("whitespace in RCDATA, exhaustive", "C10", "focus", WSP, x(3), "<r> <![RCDATA[", "]]>", vec![cf(true, 0, 1, false), cf(true, 0, 0, false)]),
            rnd("random", big(20000), |r| { let mut c = gen::conf(r); c.trim = r.p(70); let mut d = gen::prolog(r, &c); d += "<r>"; for _ in 0..1 + r.n(4) { d += &match r.n(6) { 0 => gen::start_tag(r, c.ent), 1 => gen::section(r, &c, 1), 2 => gen::pi(r), _ => format!("{}{}{}{}", r.pick(gen::WS), r.pick(gen::ODDWS), gen::text(r, c.ent, false), r.pick(gen::WS)) }; } Case::new("C10", "focus").conf(c).inp(d) }),
            docs("C10", 15000),
        ],
        "C11" => vec![
            ex("every character", if thorough { 0x110000 } else { 0x20000 }, |i, _| { let c = char::from_u32(i as u32).unwrap_or('a'); Case::new("C11", "norm").inp(match i % 3 { 0 => format!("{}", c), 1 => format!("a{}", c), _ => format!("A{}Σ", c) }) }),
            rnd("random names", big(20000), |r| { let n: String = (0..1 + r.n(4)).map(|_| gen::name(r)).collect(); Case::new("C11", "norm").inp(n) }),
            rnd("random documents, names converted", big(30000), |r| { let mut c = gen::conf(r); c.norm = [1, 2, 1, 2, 0][r.n(5)]; let d = gen::doc(r, &c); Case::new("C11", "doc").conf(c).inp(d) }),
        ],
        "C12" => {
            const T: &[&str] = &["<a>", "<b>", "</a>", "</b>", "x", " ", "/>", "?"];
            let conv = |s: &str| -> Vec<HEv> { let mut v = vec![]; let b = s.as_bytes(); let mut i = 0; while i < b.len() { match b[i] { b'<' => { let close = b[i + 1] == b'/'; let n = (b[i + if close { 2 } else { 1 }] as char).to_string(); if close { v.push(End(n)); i += 4 } else { v.push(Open(n)); v.push(Close); i += 3 } } b'/' => { if let (Some(Close), true) = (v.last().cloned(), true) { v.pop(); v.push(XmlClose); } i += 2 } b'?' => { v.push(Pi("<?p>".into())); i += 1 } c => { v.push(Chars((c as char).to_string())); i += 1 } } } v };
            vec![
                ex("tag sequences, exhaustive", upto(T, if thorough { 8 } else { 6 }), move |i, _| Case::new("C12", "net").evs(conv(&nth(T, i)))),
                rnd("random trees with omitted end tags", big(60000), |r| { let o = [0, 40, 70, 95][r.n(4)]; let v = gen::tree(r, &["a", "b", "c"], 0, o); Case::new("C12", "net").evs(v) }),
                rnd("random event lists", big(30000), |r| { let n: &[&str] = if r.p(10) { &["a", "b", ""] } else { &["a", "b", "A"] }; let v = gen::events(r, n); Case::new("C12", "net").evs(v) }),
            ]
        }
        "C13" => vec![
            ex("operation lists, exhaustive", 4 * (0..=if thorough { 6 } else { 4 }).map(|l| 8u64.pow(l)).sum::<u64>(), |i, _| transform_ex(i)),
            ex("insertions of every kind, exhaustive", 2 * (0..=if thorough { 5 } else { 4 }).map(|l| 14u64.pow(l)).sum::<u64>(), |i, _| {
                let mut c = Case::new("C13", "ex");
                c.evs = [Open("a".into()), Close][..(i % 2) as usize + 1].to_vec();
                let (mut j, mut len, mut block) = (i / 2, 0, 1u64);
                while j >= block { j -= block; block *= 14; len += 1; }
                for _ in 0..len { let o = j % 14; j /= 14; let p = (o % 2) as i64; c.ops.push(match o / 2 { 0 => (0, p, Some(Open("a".into()))), 1 => (0, p, Some(Close)), 2 => (0, p, Some(End("a".into()))), 3 => (0, p, Some(Chars("x".into()))), 4 => (0, p, Some(Attr("a".into(), None))), 5 => (0, p, Some(XmlClose)), _ => (1, p, None) }); }
                c
            }),
            rnd("many insertions", big(3000), |r| { let v = gen::events(r, &["a", "b"]); let mut c = Case::new("C13", "t"); let at = [r.n(v.len() + 1) as i64, r.n(v.len() + 1) as i64, r.n(v.len() + 1) as i64]; for q in 0..21 + r.n(60) { { let p = at[r.n(3)]; let e = inserted(r, q); c.ops.push((0, p, Some(e))); } if r.p(5) && !v.is_empty() { c.ops.push((1, r.n(v.len()) as i64, None)); } } c.evs = v; c }),
            rnd("random edits", big(60000), |r| { let v = gen::events(r, &["a", "b"]); let mut c = Case::new("C13", "t"); c.ops = op_list(r, v.len()); c.evs = v; c }),
        ],
        "C14" => vec![
            toks("short inputs, exhaustive", "C14", "parse", &["<", "a", "!", "-", "[", "]", ">", "'", "=", "\n", "&", "/"], x(4), "", "", vec![cf(true, 0, 2, true)]),
            rnd("random failing documents", big(30000), |r| error_doc(r)),
            rnd("random positions", big(40000), |r| { let mut t = String::new(); for _ in 0..r.n(5) { t += &long_line(r); t += r.pick(&["\n", "\r\n", "\n\n", "", "\r"]); } t += &long_line(r); let mut c = Case::new("C14", "loc").inp(t); for _ in 0..1 + r.n(3) { c.ops.push((r.n(100000) as i64, r.n(2) as i64, None)); } c }),
            rnd("random documents", big(15000), |r| { let c = gen::conf(r); let d = gen::doc(r, &c); let d = gen::mutate(r, d, 60); Case::new("C14", "parse").conf(c).inp(d) }),
        ],
        "C15" => vec![
            rnd("random targets and elements", big(120000), |r| de_case("C15", r)),
            rnd("unknown elements added", big(30000), |r| { let mut c = de_case("C15", r); c.kind = "extra".into(); if r.p(80) { c.shape = Some(Shape::Struct(SHAPE_NAMES.iter().map(|n| (n.to_string(), Shape::Opt(Box::new(leaf(r))))).collect())); c.evs = vec![Open("a".into()), Close]; for n in SHAPE_NAMES { if r.p(60) { elt(r, n, &Shape::Str, 0, &mut c.evs); } } c.evs.push(End("a".into())); } let mut v = gen::tree(r, &["zz", "a", "yy"], 1, 0); let mut e = vec![Open("zz".into())]; if r.p(30) { e.push(Attr("a".into(), None)); } if r.p(15) { e.push(XmlClose) } else { e.push(Close); e.append(&mut v); e.push(End("zz".into())); } c.ops = e.into_iter().map(|e| (0, 0, Some(e))).collect(); c }),
        ],
        "C16" => vec![rnd("random text values", big(120000), |r| de_case("C16", r))],
        "C20" => vec![
            ex("scalar values", VALS.len() as u64 * 13 * 3, |i, _| { use Shape::*; let v = VALS[(i % VALS.len() as u64) as usize]; let j = i / VALS.len() as u64; let sh = { let k = (j % 13) as usize; if k < 10 { num(NUMS[k]) } else { [Bool, Opt(Box::new(Bool)), Any][k - 10].clone() } }; let mut c = Case::new("C20", "de"); match j / 13 { 0 => { c.evs = vec![Open("b".into()), Close, Chars(v.into()), End("b".into())]; c.shape = Some(sh); } 1 => { c.evs = vec![Open("r".into()), Attr("b".into(), Some(v.into())), Close, End("r".into())]; c.shape = Some(Struct(vec![("b".into(), sh)])); } _ => { c.evs = vec![Open("r".into()), Close, Chars(v.into()), End("r".into())]; c.shape = Some(Struct(vec![("$value".into(), sh)])); } } c }),
            rnd("random flags and numbers", big(100000), |r| de_case("C20", r)),
            rnd("random digits", big(20000), |r| { use Shape::*; let v: String = (0..r.n(6)).map(|_| r.pick(&["0", "1", "2", "5", "9", "-", "+", " ", ".", "e", "t", "r", "u", "E"]).to_string()).collect(); let mut c = Case::new("C20", "de"); c.evs = vec![Open("r".into()), Attr("b".into(), Some(v)), Close, End("r".into())]; c.shape = Some(Struct(vec![("b".into(), { let n = r.pick(NUMS); [Bool, num(n), num(n), num(n)][r.n(4)].clone() })])); c }),
        ],
        "C17" => vec![
            rnd("random option settings", big(40000), |r| { let mut c = Case::new("C17", "cfg"); for _ in 0..r.n(9) { c.ops.push((r.n(9) as i64, r.n(30) as i64, None)); } c }),
            ex("option pairs", 9 * 6 * 9 * 6 + 9 * 6, |i, _| { let mut c = Case::new("C17", "cfg"); if i >= 54 { let j = (i - 54) / 54; c.ops.push(((j / 6) as i64, (j % 6) as i64, None)); } let j = i % 54; c.ops.push(((j / 6) as i64, (j % 6) as i64, None)); c }),
            rnd("ignored events", big(30000), |r| { let c = gen::conf(r); let mut d = gen::prolog(r, &c); for _ in 0..r.n(3) { d += &gen::decl(r); d += &gen::pi(r); } d += "<r>"; d += &gen::content(r, &c, 0, false); if r.p(50) { d += &gen::pi(r); } if r.p(20) { d += &gen::pi(r); } let d = gen::mutate(r, d, 15); Case::new("C17", "ignore").conf(c).inp(d) }),
        ],
        "C18" => vec![
            toks("lists of comments, exhaustive", "C18", "focus", CML, x(5), "<a><!", "<b>", vec![cf(true, 0, 1, false)]),
            toks("lists of comments elsewhere, exhaustive", "C18", "focus", CML, x(4), "<!--1--", ">x<![INCLUDE[<!--2--", vec![cf(true, 0, 2, false)]),
            toks("comment syntax, exhaustive", "C18", "focus", CMT, x(5), "<a><!", "<b>", vec![cf(true, 0, 1, false)]),
            toks("comment syntax in text, exhaustive", "C18", "focus", CMT, x(4), "<a>x", "y<b>", vec![cf(false, 0, 1, false)]),
            toks("comments before content, exhaustive", "C18", "focus", CMT, x(4), "<!", "<a>", vec![cf(true, 0, 1, false)]),
            toks("comments in INCLUDE, exhaustive", "C18", "focus", CMT, x(4), "<a><![INCLUDE[<!", "]]>", vec![cf(true, 0, 2, false)]),
            rnd("comments added", big(40000), |r| {
                let c = gen::conf(r);
                let mut p = vec![gen::prolog(r, &c)];
                // constructs never adjacent to text on both sides
                let mut last_text = true;
                let n = 1 + r.n(6);
                for i in 0..n {
                    let cmt = if i == 0 && !p[0].is_empty() && !p[0].ends_with(">") { String::new() } else if r.p(60) { (0..1 + r.n(2)).map(|_| gen::comment(r)).collect() } else { String::new() };
                    let text_next = i > 0 && !last_text && r.p(35);
                    p.push(cmt);
                    p.push(if text_next { gen::text(r, false, false).replace('<', "") } else { match r.n(6) { 0 => gen::end_tag(r), 1 => gen::pi(r), 2 => format!("<![CDATA[{}]]>", gen::word(r)), 3 => if c.msh == 2 { format!("<![INCLUDE[{}{}]]>", gen::start_tag(r, false), gen::word(r)) } else { gen::start_tag(r, false) }, _ => gen::start_tag(r, false) } });
                    last_text = text_next;
                    if p.last().unwrap().trim().is_empty() { last_text = true; }
                }
                p.push(if r.p(50) { gen::comment(r) } else { String::new() });
                p.push(if last_text { "<z>".into() } else { gen::ws0(r) });
                let mut k = Case::new("C18", "parts").conf(c);
                k.parts = p;
                k
            }),
            docs("C18", 10000),
        ],
        "C19" => vec![rnd("random events", big(30000), |r| { let c = gen::conf(r); let mut v = gen::events(r, &["a", "é", ""]); if r.p(50) { if let Ok(mut e) = real(&c, &gen::doc(r, &c)) { v.append(&mut e); } } v.push(Attr(gen::name(r), if r.p(50) { Some(gen::attr_value(r, false)) } else { None })); v.push(Section(gen::keywords(r, 2, false), gen::word(r))); v.push(Decl(gen::name(r), gen::word(r))); Case::new("C19", "ev").evs(v) })],
        "C21" => vec![
            rnd("random tokens", big(30000), |r| { let mut v = gen::events(r, &["a", "é"]); v.push(Attr(gen::name(r), if r.p(70) { Some(gen::attr_value(r, true)) } else { None })); v.push(Chars(gen::text(r, true, true))); v.push(Decl(gen::name(r), r.pick(&["", "x", "y z", "[]"]).to_string())); let e = v[r.n(v.len())].clone(); Case::new("C21", "token").evs(vec![e]) }),
            rnd("random documents printed and parsed again", big(40000), |r| { let mut c = Conf::default(); c.trim = r.p(60); c.ent = r.p(40); let d = gen::doc(r, &c); Case::new("C21", "doc").conf(c).inp(d) }),
            ex("text printed and parsed again, exhaustive", upto(&["<", ">", "&", "a", " ", "]]>", "#60;", "!--", "\n", "/"], x(4)), |i, _| Case::new("C21", "evs").evs(vec![Chars(nth(&["<", ">", "&", "a", " ", "]]>", "#60;", "!--", "\n", "/"], i))])),
        ],
        _ => vec![],
    }
}
