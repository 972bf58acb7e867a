//! Contract language, part 1: data model and string primitives.
//!
//! These files are plain Rust syntax read by `vtool`, which emits each item twice:
//! as a Verus `spec fn` (the contract the verifier uses) and as an executable
//! function (the same contract, run against the compiled crate).
//!   Str = Seq<char>, int = mathematical integer, Fun<A,B> = spec closure,
//!   lit!("..") = literal string, call!(f, x) = closure application.

/// Outcome class of a failed nom parser: recoverable or not.
pub enum NE { Error, Failure }

/// Event model: one constructor per `SgmlEvent` variant, strings as character sequences.
pub enum Ev {
    Decl(Str, Str),
    Pi(Str),
    Section(Str, Str),
    Open(Str),
    Attr(Str, Option<Str>),
    Close,
    XmlClose,
    End(Str),
    Chars(Str),
}

pub enum Norm { Unchanged, ToLowercase, ToUppercase }
pub enum Msh { KeepUnmodified, AcceptOnlyCharacterData, ExpandAll }
pub enum Mss { Include, RcData, CData, Ignore }
pub enum Mse { TreatAsText, StopParsing }
pub enum ERef { Entity(Str), Char(char) }

pub struct Cfg {
    pub trim_whitespace: bool,
    pub name_normalization: Norm,
    pub marked_section_handling: Msh,
    pub ignore_markup_declarations: bool,
    pub ignore_processing_instructions: bool,
    pub entity_fn: Option<Fun<Str, Option<Str>>>,
    pub parameter_entity_fn: Option<Fun<Str, Option<Str>>>,
}

/// `EventIter`: the events still to come are `start`, `middle` from `middle_next`, `end`.
pub struct EvIter { pub start: Option<Ev>, pub middle: Seq<Ev>, pub end: Option<Ev>, pub middle_next: int }
/// `EntityError`: the name (or number) and the byte range of the reference.
pub struct EntErr { pub entity: Str, pub position: (int, int) }

// ---------------------------------------------------------------- strings

/// `i` starts with `d` (hand-written in both back ends: see prelude.rs and harness).
extern_fn! { fn pfx(i: Str, d: Str) -> bool; }

/// First position where `d` occurs in `i`.
pub fn find(i: Str, d: Str) -> Option<int> {
    decreases!(i.len());
    if pfx(i, d) { Some(0) }
    else if i.len() == 0 { None }
    else { match find(i.skip(1), d) { Some(k) => Some(k + 1), None => None } }
}

/// Length of the longest prefix whose characters all satisfy `p`.
pub fn tw(p: Fun<char, bool>, i: Str) -> int {
    decreases!(i.len());
    if i.len() > 0 && call!(p, i[0]) { 1 + tw(p, i.skip(1)) } else { 0 }
}

/// `i` without its longest suffix whose characters all satisfy `p`.
pub fn trim_end(p: Fun<char, bool>, i: Str) -> Str {
    decreases!(i.len());
    if i.len() > 0 && call!(p, i[i.len() - 1]) { trim_end(p, i.take(i.len() - 1)) } else { i }
}

pub fn trim_both(p: Fun<char, bool>, i: Str) -> Str {
    trim_end(p, i.skip(tw(p, i)))
}

pub fn all_chars(p: Fun<char, bool>, i: Str) -> bool {
    decreases!(i.len());
    if i.len() == 0 { true } else { call!(p, i[0]) && all_chars(p, i.skip(1)) }
}

pub fn any_char(p: Fun<char, bool>, i: Str) -> bool {
    decreases!(i.len());
    if i.len() == 0 { false } else { call!(p, i[0]) || any_char(p, i.skip(1)) }
}

pub fn contains_char(i: Str, c: char) -> bool {
    decreases!(i.len());
    if i.len() == 0 { false } else { i[0] == c || contains_char(i.skip(1), c) }
}

/// UTF-8 length of a character.
pub fn c_blen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}

/// UTF-8 length of a string.
pub fn blen(i: Str) -> int {
    decreases!(i.len());
    if i.len() == 0 { 0 } else { c_blen(i[0]) + blen(i.skip(1)) }
}

/// Suffix of `i` starting at byte offset `n` (meaningful at character boundaries).
pub fn bskip(i: Str, n: int) -> Str {
    decreases!(i.len());
    if n <= 0 || i.len() == 0 { i } else { bskip(i.skip(1), n - c_blen(i[0])) }
}

/// Prefix of `i` up to byte offset `n` (meaningful at character boundaries).
pub fn btake(i: Str, n: int) -> Str {
    i.take(i.len() - bskip(i, n).len())
}

/// Is byte offset `n` a character boundary of `i`?
pub fn bbound(i: Str, n: int) -> bool {
    decreases!(i.len());
    if n == 0 { true } else if n < 0 || i.len() == 0 { false } else { bbound(i.skip(1), n - c_blen(i[0])) }
}

// ------------------------------------------------- assumed nom combinators

pub fn n_tag(d: Str, i: Str) -> PR<Str> {
    if pfx(i, d) { Ok((i.skip(d.len() as int), i.take(d.len() as int))) } else { Err(NE::Error) }
}
pub fn n_satisfy(p: Fun<char, bool>, i: Str) -> PR<char> {
    if i.len() > 0 && call!(p, i[0]) { Ok((i.skip(1), i[0])) } else { Err(NE::Error) }
}
pub fn n_take_while(p: Fun<char, bool>, i: Str) -> PR<Str> {
    let k = tw(p, i);
    Ok((i.skip(k), i.take(k)))
}
pub fn n_take_while1(p: Fun<char, bool>, i: Str) -> PR<Str> {
    let k = tw(p, i);
    if k == 0 { Err(NE::Error) } else { Ok((i.skip(k), i.take(k))) }
}
pub fn n_take_until(d: Str, i: Str) -> PR<Str> {
    match find(i, d) { Some(k) => Ok((i.skip(k), i.take(k))), None => Err(NE::Error) }
}
/// The part of `i` consumed when `r` is what remains.
pub fn consumed(i: Str, r: Str) -> Str {
    i.take(i.len() - r.len())
}
pub fn n_many0<T>(p: Fun<Str, PR<T>>, i: Str) -> PR<Seq<T>> {
    decreases!(i.len());
    match call!(p, i) {
        Err(NE::Error) => Ok((i, seq![])),
        Err(NE::Failure) => Err(NE::Failure),
        Ok((r, t)) => if r.len() < i.len() {
            match n_many0(p, r) { Ok((r2, ts)) => Ok((r2, cat!(seq![t], ts))), Err(e) => Err(e) }
        } else { Err(NE::Error) },
    }
}
pub fn n_many1<T>(p: Fun<Str, PR<T>>, i: Str) -> PR<Seq<T>> {
    match call!(p, i) {
        Err(e) => Err(e),
        // a parser never returns more than it was given
        Ok((r, t)) => if r.len() <= i.len() {
            match n_many0(p, r) { Ok((r2, ts)) => Ok((r2, cat!(seq![t], ts))), Err(e) => Err(e) }
        } else { Err(NE::Error) },
    }
}
pub fn flatten<T>(s: Seq<Seq<T>>) -> Seq<T> {
    decreases!(s.len());
    if s.len() == 0 { seq![] } else { cat!(s[0], flatten(s.skip(1))) }
}
pub fn o_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(v) => v, None => d }
}
pub fn o_seq<T>(o: Option<T>) -> Seq<T> {
    match o { Some(v) => seq![v], None => seq![] }
}
pub fn o_res<T>(o: Option<T>) -> Result<T, ()> {
    match o { Some(v) => Ok(v), None => Err(()) }
}
pub fn s_map<T, U>(f: Fun<T, U>, s: Seq<T>) -> Seq<U> {
    decreases!(s.len());
    if s.len() == 0 { seq![] } else { cat!(seq![call!(f, s[0])], s_map(f, s.skip(1))) }
}
pub fn flatten_o<T>(s: Seq<Option<T>>) -> Seq<T> {
    decreases!(s.len());
    if s.len() == 0 { seq![] } else { cat!(o_seq(s[0]), flatten_o(s.skip(1))) }
}
pub fn s_all<T>(f: Fun<T, bool>, s: Seq<T>) -> bool {
    decreases!(s.len());
    if s.len() == 0 { true } else { call!(f, s[0]) && s_all(f, s.skip(1)) }
}
pub fn s_any<T>(f: Fun<T, bool>, s: Seq<T>) -> bool {
    decreases!(s.len());
    if s.len() == 0 { false } else { call!(f, s[0]) || s_any(f, s.skip(1)) }
}
pub fn n_try_fold<A, T, E>(f: Fun<(A, T), Result<A, E>>, acc: A, s: Seq<T>) -> Result<A, E> {
    decreases!(s.len());
    if s.len() == 0 { Ok(acc) }
    else { match call!(f, (acc, s[0])) { Err(e) => Err(e), Ok(a) => n_try_fold(f, a, s.skip(1)) } }
}
/// `i` ends with `d`.
pub fn sfx(i: Str, d: Str) -> bool {
    if d.len() <= i.len() { i.skip(i.len() - d.len()) == d } else { false }
}
/// `std::str::Chars::size_hint`.
pub fn chars_hint(i: Str) -> (int, Option<int>) { ((blen(i) + 3) / 4, Some(blen(i))) }

// ------------------------------------------------------------ std sorting

pub fn n_sort_ins(x: int, s: Seq<int>) -> Seq<int> {
    decreases!(s.len());
    if s.len() == 0 { seq![x] } else if x < s[0] { cat!(seq![x], s) } else { cat!(seq![s[0]], n_sort_ins(x, s.skip(1))) }
}
/// The ascending rearrangement of a sequence of integers.
pub fn n_sort(s: Seq<int>) -> Seq<int> {
    decreases!(s.len());
    if s.len() == 0 { s } else { n_sort_ins(s.last(), n_sort(s.drop_last())) }
}
pub fn n_sort_ins_by<T>(f: Fun<T, int>, x: T, s: Seq<T>) -> Seq<T> {
    decreases!(s.len());
    if s.len() == 0 { seq![x] } else if call!(f, x) < call!(f, s[0]) { cat!(seq![x], s) } else { cat!(seq![s[0]], n_sort_ins_by(f, x, s.skip(1))) }
}
/// The ascending rearrangement by key that keeps equal keys in order (`slice::sort_by_key`).
pub fn n_sort_by<T>(f: Fun<T, int>, s: Seq<T>) -> Seq<T> {
    decreases!(s.len());
    if s.len() == 0 { s } else { n_sort_ins_by(f, s.last(), n_sort_by(f, s.drop_last())) }
}
/// Consecutive duplicates removed (`Vec::dedup`).
pub fn n_dedup(s: Seq<int>) -> Seq<int> {
    decreases!(s.len());
    if s.len() <= 1 { s } else if s[0] == s[1] { n_dedup(s.skip(1)) } else { cat!(seq![s[0]], n_dedup(s.skip(1))) }
}
