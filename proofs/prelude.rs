pub type Str = Seq<char>;
pub type PR<T> = Result<(Seq<char>, T), NE>;
pub type Fun<A, B> = spec_fn(A) -> B;

/// `i` starts with `d`.
pub open spec fn pfx(i: Str, d: Str) -> bool {
    d.len() <= i.len() && forall|k: int| 0 <= k < d.len() ==> #[trigger] i[k] == d[k]
}
/// Unicode classes and case mappings: uninterpreted, constrained only by the axioms below.
pub uninterp spec fn c_alpha(c: char) -> bool;
pub uninterp spec fn c_alnum(c: char) -> bool;
pub uninterp spec fn x_lower(s: Str) -> Str;
pub uninterp spec fn x_upper(s: Str) -> Str;
/// The escaped form of a character in error messages.
pub uninterp spec fn x_escape_default(c: char) -> Str;
pub open spec fn int_to_char(n: int) -> char { choose|c: char| #[trigger] c_code(c) == n }
pub open spec fn c_code(c: char) -> int { c as int }
/// The value of a computation the extraction does not follow (a panic, or a call that would
/// not be covered by the induction on size): nothing is known about it.
pub uninterp spec fn arb<T>() -> T;
/// The result of an operation that may fail, without what it leaves behind when it does.
pub open spec fn dn<S, T, E>(r: (S, Result<T, E>)) -> (S, Result<T, E>) { match r.1 { Ok(_) => r, Err(e) => (arb(), Err(e)) } }
/// Axioms about the Unicode tables, each checked over every character by `harness axioms`.
pub open spec fn ascii_letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub broadcast axiom fn ax_alpha(c: char)
  ensures (c as u32) < 0x80 ==> (#[trigger] c_alpha(c) == ascii_letter(c)), c_alpha(c) ==> c_alnum(c);
pub broadcast axiom fn ax_alnum(c: char)
  ensures (c as u32) < 0x80 ==> (#[trigger] c_alnum(c) == (ascii_letter(c) || ('0' <= c && c <= '9')));
/// A string none of whose characters has a case mapping is its own mapping.
pub broadcast axiom fn ax_lower(s: Str)
  ensures (forall|k: int| 0 <= k < s.len() ==> x_lower(seq![#[trigger] s[k]]) == seq![s[k]]) ==> #[trigger] x_lower(s) == s;
pub broadcast axiom fn ax_upper(s: Str)
  ensures (forall|k: int| 0 <= k < s.len() ==> x_upper(seq![#[trigger] s[k]]) == seq![s[k]]) ==> #[trigger] x_upper(s) == s;
/// Whether a `Cow` borrows its text; never part of a contract's meaning.
pub uninterp spec fn cow_borrowed(s: Str) -> bool;
/// The standard parse of a number of the `k`-th type (see tools/src/sx_call.rs), as a code.
pub uninterp spec fn x_parse_num(k: int, s: Str) -> Option<int>;
/// An ascending rearrangement by key, equal keys in any order (`slice::sort_unstable_by_key`).
pub uninterp spec fn x_sort_unstable_by<T>(f: Fun<T, int>, s: Seq<T>) -> Seq<T>;
