//! The contracts assumed for std and nom, in their executable form, against std and nom themselves.
use crate::contracts::*;
use crate::gen::{nth, upto, Rng};
use crate::sq::*;
use nom::error::ErrorKind;
use std::rc::Rc;

const ALPHA: &[&str] = &["a", "B", "]", ">", " ", "\n", "\r", "é", "7"];
const MORE: &[&str] = &["a", "b", "F", "Z", "0", "9", "+", "-", "&", ";", "#", "<", "!", "[", "]", ">", "--", "]]>", " ", "\t", "\n", "\r", "\r\n", "\x0c", "\x0b", "\u{a0}", "\u{85}", "\u{2028}", "é", "ß", "中", "\u{10ffff}", "😀"];
type N<'a, T> = nom::IResult<&'a str, T, nom::error::Error<&'a str>>;
fn pr(r: N<&str>) -> PR<Str> { match r { Ok((r, t)) => Ok((slit(r), slit(t))), Err(nom::Err::Error(_)) => Err(NE::Error), Err(_) => Err(NE::Failure) } }
fn prs(r: N<Vec<&str>>) -> PR<Seq<Str>> { match r { Ok((r, t)) => Ok((slit(r), Sq::from(t.into_iter().map(slit).collect::<Vec<_>>()))), Err(nom::Err::Error(_)) => Err(NE::Error), Err(_) => Err(NE::Failure) } }
fn strs<'a>(i: impl Iterator<Item = &'a str>) -> Seq<Str> { Sq::from(i.map(slit).collect::<Vec<_>>()) }
fn pred(k: usize) -> fn(char) -> bool { [|c: char| c.is_alphabetic(), |c: char| c != ']', |c: char| c == ' ' || c == '\n' || c == '\r' || c == '\t', |c: char| c.is_ascii_digit()][k % 4] }
fn fun(k: usize) -> Fun<char, bool> { let p = pred(k); Rc::new(move |c| p(c)) }

/// Checks one text with one second text; what differs.
fn one(t: &str, d: &str, k: usize, bad: &mut Vec<String>) {
    use nom::bytes::complete::{tag, take_until, take_while, take_while1};
    use nom::Offset;
    let (i, dd) = (slit(t), slit(d));
    let c = d.chars().next().unwrap_or('\n');
    let mut no = |what: &str, ok: bool| if !ok { bad.push(format!("{} on {:?} with {:?}", what, t, d)); };
    let char_at = |n: Option<usize>| n.map(|n| t[..n].chars().count() as i64);
    no("str::starts_with", pfx(i.clone(), dd.clone()) == t.starts_with(d));
    no("str::ends_with", sfx(i.clone(), dd.clone()) == t.ends_with(d));
    no("str::find", find(i.clone(), dd.clone()) == char_at(t.find(d)));
    no("str::rfind", n_rfind(i.clone(), c) == char_at(t.rfind(c)));
    no("str::contains", contains_char(i.clone(), c) == t.contains(c));
    no("str::trim_matches", trim_both(fun(k), i.clone()) == slit(t.trim_matches(pred(k))));
    no("str::trim_end_matches", trim_end(fun(k), i.clone()) == slit(t.trim_end_matches(pred(k))));
    no("chars().all", all_chars(fun(k), i.clone()) == t.chars().all(pred(k)));
    no("chars().any", any_char(fun(k), i.clone()) == t.chars().any(pred(k)));
    no("str::len", blen(i.clone()) == t.len() as i64);
    for n in 0..=t.len() + 1 {
        no("str::is_char_boundary", bbound(i.clone(), n as i64) == t.is_char_boundary(n));
        if t.is_char_boundary(n) { no("slicing", bskip(i.clone(), n as i64) == slit(&t[n..]) && btake(i.clone(), n as i64) == slit(&t[..n])); no("nom::Offset", t.offset(&t[n..]) == n && blen(i.clone()) - blen(slit(&t[n..])) == n as i64); }
    }
    no("str::split", n_split_ch(c, i.clone()) == strs(t.split(c)));
    no("str::lines", n_lines(i.clone()) == strs(t.lines()));
    no("str::char_indices", n_char_indices(i.clone()).s().to_vec() == t.char_indices().map(|(n, c)| (n as i64, c)).collect::<Vec<_>>());
    no("str::split_ascii_whitespace", n_split_ws(i.clone()) == strs(t.split_ascii_whitespace()));
    no("str::eq_ignore_ascii_case", s_eq_nocase(i.clone(), dd.clone()) == t.eq_ignore_ascii_case(d) && s_eq_nocase(i.clone(), slit(&t.to_ascii_uppercase())));
    for b in [10, 16] { no("u32::from_str_radix", n_from_str_radix(b, i.clone()) == u32::from_str_radix(t, b as u32).ok().map(|x| x as i64)); }
    no("u32::from_str", n_from_str_radix(10, i.clone()) == t.parse::<u32>().ok().map(|x| x as i64));
    let (lo, hi) = t.chars().size_hint();
    no("Chars::size_hint", chars_hint(i.clone()) == (lo as i64, hi.map(|x| x as i64)));
    no("padding", n_pad_left(i.clone(), k as i64) == slit(&format!("{:>1$}", t, k)));
    no("nom tag", n_tag(dd.clone(), i.clone()) == pr(tag(d)(t)));
    if !d.is_empty() { no("nom take_until", n_take_until(dd.clone(), i.clone()) == pr(take_until(d)(t))); }
    no("nom take_while", n_take_while(fun(k), i.clone()) == pr(take_while(pred(k))(t)));
    no("nom take_while1", n_take_while1(fun(k), i.clone()) == pr(take_while1(pred(k))(t)));
    let s = nom::character::complete::satisfy::<_, _, nom::error::Error<&str>>(pred(k))(t);
    no("nom satisfy", n_satisfy(fun(k), i.clone()) == match s { Ok((r, c)) => Ok((slit(r), c)), Err(_) => Err(NE::Error) });
    // a parser that succeeds, fails, fails for good, or takes nothing, by what it sees
    fn p<'a>(d: &'a str, k: usize) -> impl FnMut(&'a str) -> N<'a, &'a str> {
        move |j: &'a str| {
            if k % 5 == 4 && j.starts_with(']') { return Err(nom::Err::Failure(nom::error::Error::new(j, ErrorKind::Tag))); }
            if k % 5 == 3 && j.starts_with('\n') { return Ok((j, "")); }
            match tag::<_, _, nom::error::Error<&str>>(d)(j) { Err(nom::Err::Error(_)) => take_while1(pred(k))(j), x => x }
        }
    }
    let (d2, k2) = (dd.clone(), k);
    let q: Fun<Str, PR<Str>> = Rc::new(move |j: Str| {
        if k2 % 5 == 4 && pfx(j.clone(), slit("]")) { return Err(NE::Failure); }
        if k2 % 5 == 3 && pfx(j.clone(), slit("\n")) { return Ok((j, slit(""))); }
        match n_tag(d2.clone(), j.clone()) { Err(NE::Error) => n_take_while1(fun(k2), j), x => x }
    });
    no("nom many0", n_many0(q.clone(), i.clone()) == prs(nom::multi::many0(p(d, k))(t)));
    no("nom many1", n_many1(q, i.clone()) == prs(nom::multi::many1(p(d, k))(t)));
}
fn lists(r: &mut Rng, bad: &mut Vec<String>) {
    let v: Vec<i64> = (0..r.n(40)).map(|_| r.n(12) as i64).collect();
    let mut s = v.clone(); s.sort_unstable();
    if n_sort(Sq::from(v.clone())).s() != &s[..] { bad.push(format!("sort {:?}", v)); }
    let mut d = s.clone(); d.dedup();
    if n_dedup(Sq::from(s.clone())).s() != &d[..] { bad.push(format!("dedup {:?}", s)); }
    let mut d = v.clone(); d.dedup();
    if n_dedup(Sq::from(v.clone())).s() != &d[..] { bad.push(format!("dedup {:?}", v)); }
    let w: Vec<(i64, i64)> = v.iter().enumerate().map(|(n, k)| (*k, n as i64)).collect();
    let mut z = w.clone(); z.sort_by_key(|x| x.0);
    if n_sort_by(Rc::new(|x: (i64, i64)| x.0), Sq::from(w.clone())).s() != &z[..] { bad.push(format!("sort_by_key {:?}", w)); }
    let lim = r.n(40) as i64;
    let f = move |a: i64, x: i64| if a + x > lim { Err(a) } else { Ok(a + x) };
    if n_try_fold(Rc::new(move |(a, x)| f(a, x)), 0, Sq::from(v.clone())) != v.iter().try_fold(0, |a, x| f(a, *x)) { bad.push(format!("try_fold {:?}", v)); }
    let f = Rc::new(|x: i64| x % 3 != 0);
    if s_all(f.clone(), Sq::from(v.clone())) != v.iter().all(|x| x % 3 != 0) || s_any(f, Sq::from(v.clone())) != v.iter().any(|x| x % 3 != 0) { bad.push(format!("all/any {:?}", v)); }
    let n = if r.p(50) { r.n(100000) as u32 } else { (r.n(1 << 16) as u32) << 5 };
    if n_dec(n as i64) != slit(&n.to_string()) { bad.push(format!("digits of {}", n)); }
    if n_char_from_u32(n as i64) != char::from_u32(n) { bad.push(format!("char::from_u32 {}", n)); }
}
/// All checks; the number of cases and what differs.
pub fn check(deep: bool) -> (u64, Vec<String>) {
    let (mut bad, mut n) = (vec![], 0u64);
    let mut r = Rng(7);
    let ds = ["]]>", "a", "]", "\n", "", "B7", "é", "\r\n"];
    for x in 0..upto(ALPHA, if deep { 4 } else { 3 }) { let t = nth(ALPHA, x); for (k, d) in ds.iter().enumerate() { n += 1; one(&t, d, (k + x as usize) % 24, &mut bad); } }
    for _ in 0..if deep { 40000 } else { 8000 } { let t: String = (0..r.n(14)).map(|_| r.pick(MORE)).collect(); let d: String = (0..r.n(3)).map(|_| r.pick(MORE)).collect(); n += 1; one(&t, &d, r.n(20), &mut bad); }
    for c in ["4294967295", "4294967296", "4294967300", "0000000004294967295", "FFFFFFFF", "100000000", "00000000FFFFFFFFF", "+12", "-1", "+", "", "1_0", "D800", "10FFFF"] { n += 1; one(c, "0", 0, &mut bad); }
    for _ in 0..if deep { 40000 } else { 8000 } { n += 1; lists(&mut r, &mut bad); }
    for x in (0..0x11_0100u32).step_by(if deep { 8 } else { 64 }).chain(0xd7f0..0xe010) { n += 1; if n_char_from_u32(x as i64) != char::from_u32(x) { bad.push(format!("char::from_u32 {}", x)); } }
    (n, bad)
}
