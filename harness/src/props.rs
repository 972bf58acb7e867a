//! Per property: how cases are made, and how the compiled crate is judged on one case
//! against the executable contracts.
use crate::contracts as k;
use crate::conv::*;
use crate::gen::{self, Rng};
use crate::shape::{self, Shape, Val};
use serde::{Deserialize, Serialize};
use sgmlish::parser::ContextualizedError;
use sgmlish::{entities, text as rtext, transforms, SgmlEvent, SgmlFragment};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Hash)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    #[serde(default)] pub conf: Conf,
    #[serde(default)] pub input: String,
    #[serde(default)] pub evs: Vec<HEv>,
    #[serde(default)] pub ops: Vec<(i64, i64, Option<HEv>)>,
    #[serde(default)] pub parts: Vec<String>,
    #[serde(default)] pub shape: Option<Shape>,
}
impl Case {
    pub fn new(prop: &str, kind: &str) -> Case { Case { prop: prop.into(), kind: kind.into(), conf: Conf::default(), input: String::new(), evs: vec![], ops: vec![], parts: vec![], shape: None } }
    pub fn inp(mut self, s: impl Into<String>) -> Case { self.input = s.into(); self }
    pub fn conf(mut self, c: Conf) -> Case { self.conf = c; self }
    pub fn evs(mut self, e: Vec<HEv>) -> Case { self.evs = e; self }
}
/// Ok(true) = the property was really exercised; Ok(false) = vacuous; Err = violated.
pub type Verdict = Result<bool, String>;

macro_rules! same { ($what:expr, $got:expr, $want:expr) => {{ let (g, w) = (&$got, &$want); if g != w { return Err(format!("{}: got {:?}, the contract requires {:?}", $what, g, w)); } }} }

fn blank(e: &HEv) -> HEv { match e { Decl(..) => Decl("".into(), "".into()), Pi(_) => Pi("".into()), Section(..) => Section("".into(), "".into()), Open(_) => Open("".into()), Attr(..) => Attr("".into(), None), End(_) => End("".into()), Chars(_) => Chars("".into()), e => e.clone() } }
fn project(prop: &str, evs: &[HEv]) -> Vec<HEv> {
    evs.iter().filter_map(|e| match prop {
        // start and end tags: their names and grouping
        "C01" => match e { Open(_) | Close | XmlClose | End(_) => Some(e.clone()), Attr(..) => Some(blank(e)), _ => None },
        // text, and what it stands between
        "C02" => match e { Chars(_) => Some(e.clone()), Attr(..) => None, e => Some(blank(e)) },
        "C08" => match e { Attr(..) => Some(e.clone()), Open(_) => Some(blank(e)), _ => None },
        // what trimming may and may not touch
        "C10" => match e { Chars(_) | Attr(..) | Decl(..) | Pi(_) | Section(..) => Some(e.clone()), _ => None },
        _ => Some(e.clone()),
    }).collect()
}
/// Compiled parser against the document contract, under the property's projection.
fn judge_doc(c: &Case, acceptance: bool) -> Verdict {
    let r = real(&c.conf, &c.input);
    let s = spec(&c.conf, &c.input);
    if c.prop == "C01" { if let Ok(e) = &r { if !k::s_wf(false, sevs(e)) { return Err(format!("start tag events are not well-formed groups: {:?}", e)); } } }
    match (r, s) {
        (Ok(r), Ok(s)) => {
            let (pr, ps) = (project(&c.prop, &r), project(&c.prop, &s));
            if pr != ps { return Err(format!("events: got {:?}, the contract requires {:?}", pr, ps)); }
            Ok(!pr.is_empty())
        }
        (Err(_), Err(())) => Ok(acceptance),
        (Ok(r), Err(())) => if acceptance { Err(format!("accepted as {:?}, the contract requires a refusal", r)) } else { Ok(false) },
        (Err(e), Ok(s)) => if acceptance { Err(format!("refused ({}), the contract requires {:?}", e, s)) } else { Ok(false) },
    }
}

// ------------------------------------------------------------ C05, C06
fn judge_expand(c: &Case) -> Verdict {
    let params = c.kind.starts_with("pexp");
    let t = c.input.as_str();
    let table = if params { PENTS } else { ENTS };
    let seen = RefCell::new(vec![]);
    let f = |n: &str| { seen.borrow_mut().push(n.to_string()); if c.conf.ent { look(table, n) } else { None } };
    let got = if c.kind == "chars" { entities::expand_characters(t) } else if params { entities::expand_parameter_entities(t, f) } else { entities::expand_entities(t, f) };
    let wseen: Rc<RefCell<Vec<String>>> = Rc::new(RefCell::new(vec![]));
    let (ws, ent, nolook) = (wseen.clone(), c.conf.ent, c.kind == "chars");
    let g: k::Fun<k::Str, Option<k::Str>> = Rc::new(move |n: k::Str| { ws.borrow_mut().push(n.string()); if ent && !nolook { look(table, &n.string()).map(s) } else { None } });
    let want = k::s_expand(!params, if params { '%' } else { '&' }, g, s(t));
    let want = match want {
        Ok(w) => Ok(w.string()),
        Err(u) => { let n = t.len(); let (from, after) = (u.from.string().len(), u.after.string().len()); Err((u.name.string(), n - from..n - after)) }
    };
    let got = match got { Ok(g) => Ok(g.into_owned()), Err(e) => Err((e.entity, e.position)) };
    same!("expansion", got, want);
    if !nolook { same!("names looked up", *seen.borrow(), *wseen.borrow()); }
    Ok(t.contains(if params { '%' } else { '&' }))
}
/// Every code number: `&#n;` and `&#xN;` with the number in `ops[0].0`.
fn judge_code(c: &Case) -> Verdict {
    let n = c.ops[0].0 as u64;
    let want = if n <= 0x10FFFF && !(0xD800..0xE000).contains(&n) { char::from_u32(n as u32) } else { None };
    for (i, t) in [format!("a&#{};b", n), format!("a&#x{:x};b", n), format!("a&#x{:X} b", n), format!("&#{}", n), format!("&#0{}&#x00{:X};", n, n)].into_iter().enumerate() {
        let mut calls = vec![];
        let got = entities::expand_entities(&t, |e| { calls.push(e.to_string()); Some("E") }).map(|x| x.into_owned());
        let x = want.map_or("E".to_string(), |c| c.to_string());
        let exp = [format!("a{}b", x), format!("a{}b", x), format!("a{} b", x), x.clone(), format!("{}{}", x, x)][i].clone();
        same!(format!("expansion of {:?}", t), got, Ok(exp));
        let names = if want.is_some() { vec![] } else { [vec![format!("#{}", n)], vec![format!("#x{:x}", n)], vec![format!("#x{:X}", n)], vec![format!("#{}", n)], vec![format!("#0{}", n), format!("#x00{:X}", n)]][i].clone() };
        same!(format!("lookups for {:?}", t), calls, names);
    }
    Ok(true)
}

// ------------------------------------------------------------ C07
fn judge_escape(c: &Case) -> Verdict {
    let t = c.input.as_str();
    for amp in [true, false] {
        let mk = || { let mut e = rtext::escape(t); if !amp { e.set_escape_ampersand(false); } e };
        let want = k::s_escape(amp, s(t)).string();
        let mut it = mk();
        let mut out = String::new();
        loop {
            let left = it.clone().count();
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size bounds ({}, {:?}) after {:?} do not enclose the {} characters left", lo, hi, out, left)); }
            let shown = it.to_string();
            same!("printed form of the rest", shown, want[out.len()..].to_string());
            match it.next() { Some(ch) => out.push(ch), None => break }
        }
        if it.next().is_some() { return Err("yields again after its end".into()); }
        same!("escaped text", out, want);
        if out.contains('<') || out.contains('>') { return Err(format!("markup left in {:?}", out)); }
        if amp { let back = entities::expand_characters(&out).map(|x| x.into_owned()).map_err(|e| e.to_string()); same!("escaped then expanded", back, Ok(t.to_string())); }
    }
    Ok(t.contains(&['<', '>', '&'][..]))
}

// ------------------------------------------------------------ C09, C21
fn judge_attr_print(c: &Case) -> Verdict {
    let e = &c.evs[0];
    let shown = e.sgml(false).to_string();
    if let Attr(n, _) = e { match k::s_name(s(n)) { Ok((r, _)) if r.len() == 0 => {} _ => return Ok(false) } }
    for close in [">", " x>"] {
        let doc = format!("<r {}{}", shown, close);
        let conf = Conf { trim: false, ..Conf::default() };
        let got = real(&conf, &doc);
        let mut want = vec![Open("r".into()), e.clone()];
        if close == " x>" { want.push(Attr("x".into(), None)); }
        want.push(Close);
        same!(format!("parse of {:?}", doc), got, Ok(want));
        let mut conf2 = conf.clone(); conf2.ent = true;
        same!(format!("parse of {:?} with entities", doc), real(&conf2, &doc), real(&conf, &doc));
    }
    Ok(matches!(e, Attr(_, Some(v)) if v.contains(&['"', '\'', '&', '<', '>'][..])))
}
fn join_text(evs: Vec<HEv>) -> Vec<HEv> {
    let mut out: Vec<HEv> = vec![];
    for e in evs { match (out.last_mut(), e) { (Some(Chars(a)), Chars(b)) => a.push_str(&b), (_, Chars(b)) if b.is_empty() => {} (_, e) => out.push(e) } }
    out
}
/// Events inside an element, printed and parsed again with trimming off.
fn judge_reprint(c: &Case) -> Verdict {
    let evs = match c.kind.as_str() { "evs" => c.evs.clone(), _ => match real(&c.conf, &c.input) { Ok(e) => e, Err(_) => return Ok(false) } };
    let mut evs: Vec<HEv> = evs.into_iter().filter(|e| !matches!(e, Decl(..) | Section(..))).collect();
    evs.insert(0, Close); evs.insert(0, Open("r".into())); evs.push(End("r".into()));
    let shown = fragment(&evs, false).to_string();
    same!("printed form", shown, k::s_show_all(sevs(&evs)).string());
    let back = real(&Conf { trim: false, ..Conf::default() }, &shown);
    same!(format!("parse of {:?}", shown), back.map(join_text), Ok(join_text(evs.clone())));
    Ok(evs.len() > 3)
}
fn judge_token(c: &Case) -> Verdict {
    let e = &c.evs[0];
    let shown = e.sgml(true).to_string();
    same!("printed form", shown, k::s_show(e.ev()).string());
    match e {
        Decl(..) | Section(..) => {
            let conf = Conf { trim: false, msh: 0, ..Conf::default() };
            let doc = format!("{}<r>", shown);
            if let Ok(want) = spec(&conf, &doc) { same!("parse of the printed form", real(&conf, &doc), Ok(want)); }
        }
        _ => {}
    }
    Ok(true)
}

// ------------------------------------------------------------ C04
fn mss(m: sgmlish::marked_sections::MarkedSectionStatus) -> k::Mss { use sgmlish::marked_sections::MarkedSectionStatus::*; match m { Include => k::Mss::Include, RcData => k::Mss::RcData, CData => k::Mss::CData, Ignore => k::Mss::Ignore } }
fn judge_keywords(c: &Case) -> Verdict {
    use sgmlish::marked_sections::MarkedSectionStatus as M;
    use sgmlish::parser::MarkedSectionHandling as H;
    let t = c.input.as_str();
    let w = k::s_from_keywords(s(t));
    let wd = w.clone().map_err(|e| e.string());
    same!("status of the keywords", M::from_keywords(t).map(mss).map_err(|e| e.to_string()), wd);
    same!("status of one keyword", t.parse::<M>().ok().map(mss), k::s_keyword(s(t)));
    for (h, kh) in [(H::KeepUnmodified, k::Msh::KeepUnmodified), (H::AcceptOnlyCharacterData, k::Msh::AcceptOnlyCharacterData), (H::ExpandAll, k::Msh::ExpandAll)] {
        same!(format!("status under {:?}", h), h.parse_keywords(t).map(mss).map_err(|e| e.to_string()), k::s_parse_keywords(kh, s(t)).map_err(|e| e.string()));
    }
    let a = [M::Include, M::RcData, M::CData, M::Ignore];
    for x in a { for y in a { same!("order of statuses", mss(x.max(y)), k::s_strictest(mss(x), mss(y))); } }
    Ok(true)
}
fn judge_keywords_doc(c: &Case) -> Verdict {
    let doc = format!("<r><![{}[x]]></r>", c.input);
    let r = real(&c.conf, &doc);
    match (&r, spec(&c.conf, &doc)) {
        (Ok(e), Ok(w)) => same!("events", *e, w),
        (Err(e), Err(())) => {
            // an unknown keyword is named by the error
            if let Ok((_, raw)) = k::s_section_start(s(&doc[3..])) {
                if let Ok(kw) = k::s_decl_text(c.conf.cfg(), raw) {
                    if k::s_parse_keywords(c.conf.cfg().marked_section_handling, kw.clone()).is_err() && !e.contains(&kw.string()) { return Err(format!("error {:?} does not name the keywords {:?}", e, kw.string())); }
                }
            }
        }
        (Ok(e), Err(())) => return Err(format!("keywords {:?} accepted as {:?}, the contract requires a refusal", c.input, e)),
        (Err(e), Ok(w)) => return Err(format!("keywords {:?} refused ({}), the contract requires {:?}", c.input, e, w)),
    }
    Ok(true)
}

// ------------------------------------------------------------ C11
fn judge_normalize(c: &Case) -> Verdict {
    use sgmlish::parser::NameNormalization as N;
    for (n, kn) in [(N::Unchanged, k::Norm::Unchanged), (N::ToLowercase, k::Norm::ToLowercase), (N::ToUppercase, k::Norm::ToUppercase)] {
        let want = k::s_normalize(kn, s(&c.input)).string();
        same!(format!("{:?}", n), n.normalize(Cow::Borrowed(c.input.as_str())).into_owned(), want);
        same!(format!("{:?}", n), n.normalize(Cow::Owned(c.input.clone())).into_owned(), want);
    }
    Ok(c.input.to_lowercase() != c.input.to_uppercase())
}

// ------------------------------------------------------------ C12, C13
fn judge_net(c: &Case) -> Verdict {
    if !k::s_wf(false, sevs(&c.evs)) { return Ok(false); }
    let got = transforms::normalize_end_tags(fragment(&c.evs, false)).map(|f| hevs(&f)).map_err(|e| e.to_string());
    let want = k::s_normalize_end_tags(sevs(&c.evs));
    match (got, want) {
        (Ok(g), Ok(w)) => {
            same!("normalized events", g, of_sevs(&w));
            if !k::s_balanced(k::Seq::new(), sevs(&g)) { return Err(format!("not balanced: {:?}", g)); }
            let again = transforms::normalize_end_tags(fragment(&g, true)).map(|f| hevs(&f)).map_err(|e| e.to_string());
            same!("normalized again", again, Ok(g.clone()));
            Ok(g != c.evs)
        }
        (Err(e), Err(w)) => {
            match w { k::NetErr::Unpaired(n) => if !e.contains(&n.string()) { return Err(format!("error {:?} does not name the unpaired tag {:?}", e, n)); }, k::NetErr::Empty => if !e.contains("empty tag") { return Err(format!("error {:?} for an empty tag", e)); } }
            Ok(true)
        }
        (Ok(g), Err(w)) => Err(format!("gave {:?}, the contract requires {:?}", g, w)),
        (Err(e), Ok(w)) => Err(format!("failed ({}), the contract requires {:?}", e, of_sevs(&w))),
    }
}
fn judge_transform(c: &Case) -> Verdict {
    let mut t = transforms::Transform::new();
    let (mut ins, mut del) = (vec![], vec![]);
    for (kind, pos, e) in &c.ops {
        same!("is_empty", t.is_empty(), ins.is_empty() && del.is_empty());
        match e { Some(e) if *kind == 0 => { t.insert_at(*pos as usize, e.sgml(false)); ins.push((*pos, e.ev())); } _ => { t.remove_at(*pos as usize); del.push(*pos); } }
    }
    let got = hevs(&t.clone().apply(fragment(&c.evs, false)));
    let want = of_sevs(&k::s_apply(ins.into(), del.into(), sevs(&c.evs)));
    same!("transformed events", got, want);
    same!("transformed events (again)", hevs(&t.apply(fragment(&c.evs, true))), want);
    Ok(!c.ops.is_empty())
}

// ------------------------------------------------------------ C14
/// Checks one located line of an error description: number, text, caret.
fn check_location(input: &str, off: usize, num: Option<usize>, lines: &[&str]) -> Result<(), String> {
    let before = &input[..off];
    let want_line = before.matches('\n').count() + 1;
    if let Some(n) = num { if n != want_line { return Err(format!("line number {} given for offset {}, which is on line {}", n, off, want_line)); } }
    let start = before.rfind('\n').map_or(0, |p| p + 1);
    let rest = &input[start..];
    let line = rest.split('\n').next().unwrap();
    let line = line.strip_suffix('\r').filter(|_| rest.len() > line.len()).unwrap_or(line);
    let chars: Vec<char> = line.chars().collect();
    let col = before[start..].chars().count();
    let (shown, caret) = (lines[0], lines[1]);
    if caret.trim_start() != "^" { return Err(format!("no caret line: {:?}", caret)); }
    let at = caret.chars().count() - 1;
    let sh: Vec<char> = shown.chars().collect();
    // the shown text is the line itself or a window on it marked with "..."
    if sh == chars { if at != col { return Err(format!("caret at column {}, the position is at column {} of {:?}", at + 1, col + 1, line)); } return Ok(()); }
    let pre = shown.starts_with("...") && !(line.starts_with("...") && !shown.ends_with("..."));
    let opts: Vec<(bool, bool)> = vec![(pre, shown.ends_with("...")), (true, true), (true, false), (false, true)];
    for (p, q) in opts {
        if (p && !shown.starts_with("...")) || (q && (!shown.ends_with("...") || sh.len() < 3 + if p { 3 } else { 0 })) || (!p && !q) { continue; }
        let body = &sh[if p { 3 } else { 0 }..sh.len() - if q { 3 } else { 0 }];
        // window placed so that the caret is under the position
        let first = (col as i64) - (at as i64) + if p { 3 } else { 0 };
        if first < 0 || (!p && first != 0) { continue; }
        let first = first as usize;
        if first + body.len() > chars.len() || &chars[first..first + body.len()] != body { continue; }
        if !q && first + body.len() != chars.len() { continue; }
        if at < if p { 3 } else { 0 } { continue; }
        if q && at >= sh.len() - 3 { continue; }
        return Ok(());
    }
    Err(format!("offset {} (column {}) of line {:?} is shown as\n{}\n{}", off, col + 1, line, shown, caret))
}
fn judge_error(c: &Case) -> Verdict {
    let input = c.input.as_str();
    let parser = c.conf.parser();
    let err = match parser.parse_with_detailed_errors::<ContextualizedError<&str>>(input) { Ok(_) => { return if parser.parse(input).is_err() { Err("two ways to parse disagree".into()) } else { Ok(false) } } Err(e) => e };
    check_description(input, &err)?;
    same!("description", parser.parse(input).err().map(|e| e.to_string()), Some(err.describe(&input)));
    // other error types take the same path
    if parser.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(input).is_ok() { return Err("accepted with another error type".into()); }
    Ok(true)
}
fn check_description(input: &str, err: &ContextualizedError<&str>) -> Result<(), String> {
    let text = err.describe(&input);
    if input.is_empty() { return if text.is_empty() { Err("empty description".into()) } else { Ok(()) }; }
    let off = |p: &str| p.as_ptr() as usize - input.as_ptr() as usize;
    let num = |head: &str, key: &str| -> Option<usize> { head.find(key).map(|p| head[p + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|d| d.parse().ok()) };
    // the offsets described: the error's own, then each context at a new location
    let mut offs = vec![(off(err.input), "")];
    for (p, ctx) in &err.context { if off(p) != offs.last().unwrap().0 { offs.push((off(p), *ctx)); } }
    let first_nl = |t: &str| t.find('\n').unwrap_or(t.len());
    let mut rest = text.as_str();
    for (i, (o, ctx)) in offs.iter().enumerate() {
        // the head may contain text of the input (entity names have no newline; keywords may)
        let key = if i == 0 { "at line " } else { "line " };
        let head_end = if i == 0 { match &err.error { Some(e) => { let m = e.to_string(); rest.find(&m).map_or(first_nl(rest), |p| p + m.len() + first_nl(&rest[p + m.len()..])) } None => first_nl(rest) } } else { first_nl(rest) };
        let head = &rest[..head_end];
        if i > 0 && !head.contains(ctx) { return Err(format!("context {:?} missing in {:?}", ctx, text)); }
        let n = num(head, key).ok_or_else(|| format!("no line number in {:?} of {:?}", head, text))?;
        rest = rest.get(head_end + 1..).ok_or_else(|| format!("description ends early: {:?}", text))?;
        let mut it = rest.split('\n');
        let (l1, l2) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        check_location(input, *o, Some(n), &[l1, l2]).map_err(|m| format!("{}; whole description:\n{}", m, text))?;
        rest = rest.get(l1.len() + l2.len() + 2..).unwrap_or("");
    }
    if !rest.is_empty() { return Err(format!("unexpected trailing text {:?}", rest)); }
    if let Some(ch) = err.char {
        let exp = format!("expected '{}'", ch);
        if !text.contains(&exp) { return Err(format!("{:?} missing in {:?}", exp, text)); }
    }
    Ok(())
}
/// A description made for a chosen position of a chosen text.
fn judge_locate(c: &Case) -> Verdict {
    let input = c.input.as_str();
    let cut = |i: i64| { let n = input.chars().count() as i64; let i = if n == 0 { 0 } else { i.rem_euclid(n + 1) }; input.char_indices().nth(i as usize).map_or("".len() + input.len(), |(p, _)| p) };
    let p = cut(c.ops[0].0);
    let mut ctx = vec![];
    for o in &c.ops[1..] { ctx.push((&input[cut(o.0)..], "some context")); }
    let err = ContextualizedError { input: &input[p..], char: if c.ops[0].1 % 2 == 0 { Some('>') } else { None }, error: None, context: ctx };
    check_description(input, &err)?;
    Ok(!input.is_empty())
}

// ------------------------------------------------------------ C17
/// The lookup with number `n`: lookup 0 knows no name, the others "e" and one name of their own.
fn lookup_of(kind: &str, n: i64, name: &str) -> Option<String> {
    if n != 0 && name == "e" || name == format!("e{}", n) && n != 0 { Some(format!("{}{}&e;%p;", kind, n)) } else { None }
}
fn judge_builder(c: &Case) -> Verdict {
    use sgmlish::parser::{MarkedSectionHandling as H, NameNormalization as N};
    let mut b = sgmlish::Parser::builder();
    let (mut trim, mut norm, mut msh, mut igd, mut igp, mut ent, mut pent) = (true, N::Unchanged, H::AcceptOnlyCharacterData, false, false, None, None);
    for (op, a, _) in &c.ops {
        match op.rem_euclid(9) {
            0 => { b = b.trim_whitespace(a % 2 == 0); trim = a % 2 == 0; }
            1 => { let v = [N::Unchanged, N::ToLowercase, N::ToUppercase][a.rem_euclid(3) as usize]; b = b.name_normalization(v); norm = v; }
            2 => if a % 2 == 0 { b = b.lowercase_names(); norm = N::ToLowercase; } else { b = b.uppercase_names(); norm = N::ToUppercase; },
            3 => { let v = [H::KeepUnmodified, H::AcceptOnlyCharacterData, H::ExpandAll][a.rem_euclid(3) as usize]; b = b.marked_section_handling(v); msh = v; }
            4 => { b = b.expand_marked_sections(); msh = H::ExpandAll; }
            5 => { b = b.ignore_markup_declarations(a % 2 == 0); igd = a % 2 == 0; }
            6 => { b = b.ignore_processing_instructions(a % 2 == 0); igp = a % 2 == 0; }
            7 => { let n = a.rem_euclid(5); b = b.expand_entities(move |e| lookup_of("ent", n, e)); ent = Some(n); }
            _ => { let n = a.rem_euclid(5); b = b.expand_parameter_entities(move |e| lookup_of("par", n, e)); pent = Some(n); }
        }
    }
    let g = b.into_config();
    same!("trim_whitespace", g.trim_whitespace, trim);
    same!("name_normalization", g.name_normalization, norm);
    same!("marked_section_handling", g.marked_section_handling, msh);
    same!("ignore_markup_declarations", g.ignore_markup_declarations, igd);
    same!("ignore_processing_instructions", g.ignore_processing_instructions, igp);
    type E<'a> = nom::error::VerboseError<&'a str>;
    for name in ["e", "e0", "e1", "e2", "e3", "e4", "lt", "none"] {
        same!(format!("entity lookup of {}", name), g.parse_rcdata::<E>(&format!("&{};", name)).ok().map(|x| x.into_owned()), ent.and_then(|n| lookup_of("ent", n, name)));
        same!(format!("parameter entity lookup of {}", name), g.parse_markup_declaration_text::<E>(&format!("%{};", name)).ok().map(|x| x.into_owned()), pent.and_then(|n| lookup_of("par", n, name)));
    }
    Ok(!c.ops.is_empty())
}
/// Ignoring declarations or instructions removes exactly those events.
fn judge_ignore(c: &Case) -> Verdict {
    let all = real(&Conf { igd: false, igp: false, ..c.conf.clone() }, &c.input);
    let mut n = false;
    for (d, p) in [(true, false), (false, true), (true, true)] {
        let some = real(&Conf { igd: d, igp: p, ..c.conf.clone() }, &c.input);
        match (&all, &some) {
            (Ok(a), Ok(b)) => { let w: Vec<HEv> = a.iter().filter(|e| !(d && matches!(e, Decl(..)) || p && matches!(e, Pi(_)))).cloned().collect(); n |= w.len() < a.len(); same!("events", *b, w); }
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("with everything kept: {:?}; ignoring (declarations {}, instructions {}): {:?}", a, d, p, b)),
        }
    }
    Ok(n)
}

// ------------------------------------------------------------ C18
/// `parts` are constructs with odd positions the comments between them.
fn judge_comments(c: &Case) -> Verdict {
    let without: String = c.parts.iter().step_by(2).cloned().collect();
    let with: String = c.parts.concat();
    // the parts are constructs of their own: the first one swallows nothing of what follows
    if let Some(p) = c.parts.first() { match real(&c.conf, &format!("{}<x>", p)) { Ok(v) if v.len() >= 2 && matches!(&v[v.len() - 2..], [HEv::Open(_), HEv::Close]) => {} _ => return Ok(false) } }
    let (a, b) = (real(&c.conf, &without), real(&c.conf, &with));
    match (&a, &b) { (Ok(a), Ok(b)) => { same!(format!("events of {:?} (without comments: {:?})", with, without), *b, *a); Ok(with != without) } (Ok(a), Err(e)) => Err(format!("{:?} is refused ({}), without comments it gives {:?}", with, e, a)), _ => Ok(false) }
}

// ------------------------------------------------------------ C19
fn judge_owned(c: &Case) -> Verdict {
    for e in &c.evs {
        let x = e.sgml(false);
        let o = x.clone().into_owned();
        if o != x || HEv::from_sgml(&o) != *e { return Err(format!("owned form of {:?} is {:?}", x, o)); }
        let o2 = e.sgml(true).into_owned();
        if o2 != x { return Err(format!("owned form of owned {:?} is {:?}", x, o2)); }
    }
    let f = fragment(&c.evs, false);
    let owned: SgmlFragment<'static> = f.clone().into_owned();
    if owned != f { return Err("owned fragment differs".into()); }
    same!("owned fragment", hevs(&owned), c.evs);
    same!("length", f.len(), c.evs.len());
    same!("slice", f.as_slice().iter().map(HEv::from_sgml).collect::<Vec<_>>(), c.evs);
    same!("iter", f.iter().map(HEv::from_sgml).collect::<Vec<_>>(), c.evs);
    same!("iter from the end", f.iter().rev().map(HEv::from_sgml).collect::<Vec<_>>(), c.evs.iter().rev().cloned().collect::<Vec<_>>());
    same!("by reference", (&f).into_iter().map(HEv::from_sgml).collect::<Vec<_>>(), c.evs);
    let mut g = f.clone();
    same!("iter_mut", g.iter_mut().map(|e| HEv::from_sgml(e)).collect::<Vec<_>>(), c.evs);
    same!("by mutable reference", (&mut g).into_iter().map(|e| HEv::from_sgml(e)).collect::<Vec<_>>(), c.evs);
    same!("by value", g.into_iter().map(|e| HEv::from_sgml(&e)).collect::<Vec<_>>(), c.evs);
    same!("vector", f.into_vec().iter().map(HEv::from_sgml).collect::<Vec<_>>(), c.evs);
    Ok(!c.evs.is_empty())
}

// ------------------------------------------------------------ C15, C16, C20
fn judge_de(c: &Case) -> Verdict {
    if !crate::stages::wf_enough(&c.evs) { return Ok(false); }
    let sh = c.shape.clone().unwrap();
    let want = shape::want(&sh, &c.evs);
    for owned in [false, true] {
        let got = shape::got(&sh, &c.evs, owned);
        match (&got, &want) {
            (_, Err(shape::No::Skip)) => {}
            (Ok(g), Ok(w)) => if !(g == w || (format!("{:?}", g) == format!("{:?}", w))) { return Err(format!("{:?} from {:?}: got {:?}, the contract requires {:?}", sh, c.evs, g, w)); },
            (Err(_), Err(_)) => {}
            (Ok(g), Err(_)) => return Err(format!("{:?} from {:?}: got {:?}, the contract requires an error", sh, c.evs, g)),
            (Err(e), Ok(w)) => return Err(format!("{:?} from {:?}: failed ({}), the contract requires {:?}", sh, c.evs, e, w)),
        }
    }
    Ok(want.is_ok())
}
/// May the value take up several elements in a row?
fn repeats(s: &shape::Shape) -> bool {
    use shape::{Shape::*, Var};
    match s { Seq(_) | Tuple(..) => true, Opt(s) | New(s) => repeats(s), Enum(vs) => vs.iter().any(|v| matches!(v.1, Var::Tup(_)) || matches!(&v.1, Var::New(s) if repeats(s))), _ => false }
}
/// An unknown element (given in `ops`) added inside the root changes no field.
fn judge_extra(c: &Case) -> Verdict {
    if !crate::stages::wf_enough(&c.evs) { return Ok(false); }
    let sh = c.shape.clone().unwrap();
    let base = match shape::got(&sh, &c.evs, false) { Ok(v) => v, Err(_) => return Ok(false) };
    let extra: Vec<HEv> = c.ops.iter().filter_map(|o| o.2.clone()).collect();
    match &sh { shape::Shape::Struct(f) if f.iter().all(|(n, s)| n != "zz" && n != "yy" && n != "$value" && !repeats(s)) => {} _ => return Ok(false) }
    // one complete element
    if !matches!(extra.first(), Some(HEv::Open(_))) { return Ok(false); }
    let mut d = vec![]; let mut intag = false;
    for (i, e) in extra.iter().enumerate() {
        match e {
            HEv::Open(n) if !intag && !n.is_empty() => { if d.is_empty() && i > 0 { return Ok(false); } d.push(n.clone()); intag = true; }
            HEv::Attr(..) if intag => {}
            HEv::Close if intag => intag = false,
            HEv::XmlClose if intag => { intag = false; d.pop(); }
            HEv::End(n) if !intag && d.last() == Some(n) => { d.pop(); }
            HEv::Chars(_) if !intag && !d.is_empty() => {}
            _ => return Ok(false),
        }
    }
    if !d.is_empty() { return Ok(false); }
    // between children of the root element
    let mut depth = 0; let mut places = vec![];
    for (i, e) in c.evs.iter().enumerate() { match e { Open(_) => { if depth == 1 { places.push(i); } depth += 1; } End(_) => { if depth == 1 { places.push(i); } depth -= 1; } XmlClose => depth -= 1, _ => {} } }
    for p in places {
        let mut v = c.evs.clone();
        v.splice(p..p, extra.iter().cloned());
        let got = shape::got(&sh, &v, false);
        if format!("{:?}", got) != format!("{:?}", Ok::<_, String>(base.clone())) { return Err(format!("{:?}: {:?} without, {:?} with the unknown element added at {} of {:?}", sh, base, got, p, v)); }
    }
    Ok(true)
}

pub fn judge(c: &Case) -> Verdict {
    match (c.prop.as_str(), c.kind.as_str()) {
        ("C01" | "C02" | "C03" | "C08" | "C10" | "C11" | "C18", "doc") => judge_doc(c, false),
        (_, "focus") => judge_doc(c, true),
        ("C04", "kw") => judge_keywords(c),
        ("C04", "kwdoc") => judge_keywords_doc(c),
        ("C05" | "C06", "exp" | "pexp" | "chars") => judge_expand(c),
        ("C06", "code") => judge_code(c),
        ("C07", _) => judge_escape(c),
        ("C09", _) => judge_attr_print(c),
        ("C11", "norm") => judge_normalize(c),
        ("C12", _) => judge_net(c),
        ("C13", _) => judge_transform(c),
        ("C14", "parse") => judge_error(c),
        ("C14", "loc") => judge_locate(c),
        ("C15" | "C16" | "C20", "de") => judge_de(c),
        ("C15", "extra") => judge_extra(c),
        ("C17", "cfg") => judge_builder(c),
        ("C17", "ignore") => judge_ignore(c),
        ("C18", "parts") => judge_comments(c),
        ("C19", _) => judge_owned(c),
        ("C21", "token") => judge_token(c),
        ("C21", _) => judge_reprint(c),
        (p, q) => panic!("no judge for {} {}", p, q),
    }
}
