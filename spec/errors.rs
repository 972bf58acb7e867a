//! Contract language, part 7: descriptions of parse errors (src/parser/error.rs).

/// `ContextualizedError`: positions are the text that remained there; `error` is the cause as displayed.
pub struct CErrS { pub input: Str, pub char: Option<char>, pub error: Option<Str>, pub context: Seq<(Str, Str)> }
/// `LocatedLine`
pub struct LineS { pub line: Str, pub line_number: int, pub column_number: int }

// ------------------------------------------------------- assumed library

/// `str::rfind` of a character: its last position.
pub fn n_rfind(i: Str, c: char) -> Option<int> {
    decreases!(i.len());
    if i.len() == 0 { None } else if i.last() == c { Some(i.len() - 1) } else { n_rfind(i.drop_last(), c) }
}
/// `str::split` at a character.
pub fn n_split_ch(c: char, i: Str) -> Seq<Str> {
    decreases!(i.len());
    let k = tw(func!(|x: char| x != c), i);
    if k >= i.len() || k < 0 { seq![i] } else { cat!(seq![i.take(k)], n_split_ch(c, i.skip(k + 1))) }
}
/// The first line: up to a line feed, or a carriage return and line feed.
pub fn n_line1(i: Str) -> Str {
    let k = tw(func!(|x: char| x != '\n'), i);
    if k < i.len() && k > 0 && i[k - 1] == '\r' { i.take(k - 1) } else { i.take(k) }
}
/// `str::lines`
pub fn n_lines(i: Str) -> Seq<Str> {
    decreases!(i.len());
    let k = tw(func!(|x: char| x != '\n'), i);
    if i.len() == 0 { seq![] } else if k >= i.len() || k < 0 { seq![n_line1(i)] } else { cat!(seq![n_line1(i)], n_lines(i.skip(k + 1))) }
}
/// `str::char_indices`
pub fn n_char_indices(i: Str) -> Seq<(int, char)> {
    decreases!(i.len());
    if i.len() == 0 { seq![] } else { cat!(n_char_indices(i.drop_last()), seq![(blen(i.drop_last()), i.last())]) }
}
/// Right alignment within a width.
pub fn n_pad_left(s: Str, w: int) -> Str {
    decreases!(w - s.len());
    if s.len() >= w { s } else { n_pad_left(cat!(lit!(" "), s), w) }
}
/// Decimal digits.
pub fn n_dec(n: int) -> Str {
    decreases!(n);
    if n < 10 { seq![int_to_char(n + 48)] } else { cat!(n_dec(n / 10), seq![int_to_char(n % 10 + 48)]) }
}

// ------------------------------------------------------------- locations

pub fn count_ch(c: char, i: Str) -> int {
    decreases!(i.len());
    if i.len() == 0 { 0 } else if i[0] == c { 1 + count_ch(c, i.skip(1)) } else { count_ch(c, i.skip(1)) }
}
/// Where the last line of `i` starts.
pub fn s_line_start(i: Str) -> int { match n_rfind(i, '\n') { Some(k) => k + 1, None => 0 } }
/// The position of `at`, a suffix of `input`: line and column counted from 1, in characters.
pub fn s_locate(input: Str, at: Str) -> LineS {
    let before = input.take(input.len() - at.len());
    LineS { line: n_line1(input.skip(s_line_start(before))), line_number: count_ch('\n', before) + 1, column_number: before.len() - s_line_start(before) + 1 }
}
pub fn s_skip(l: LineS) -> int { if l.column_number > 40 { l.column_number - 40 } else { 0 } }
pub fn s_from(l: LineS) -> int { if s_skip(l) > 0 { s_skip(l) + 3 } else { 0 } }
pub fn s_to(l: LineS) -> int { if l.line.len() > s_skip(l) + 80 { s_skip(l) + 77 } else { l.line.len() as int } }
/// The line around a position, elided on either side when it is too long, and a caret under the position.
pub fn s_show_line(l: LineS) -> Str {
    cat!(s_show_row(l), cat!(lit!("\n"), n_pad_left(lit!("^"), l.column_number - s_skip(l))))
}
pub fn s_show_row(l: LineS) -> Str {
    cat!(if s_from(l) > 0 { lit!("...") } else { lit!("") }, cat!(l.line.take(s_to(l)).skip(s_from(l)), if s_to(l) < l.line.len() { lit!("...") } else { lit!("") }))
}
/// A column that can be shown: on a character, or right after the line's end.
pub fn s_line_ok(l: LineS) -> bool { 1 <= l.column_number && l.column_number <= l.line.len() + 2 }

// ---------------------------------------------------------- descriptions

pub fn s_context_ok(input: Str, cs: Seq<(Str, Str)>) -> bool {
    decreases!(cs.len());
    if cs.len() == 0 { true } else { is_suffix(cs[0].0, input) && s_context_ok(input, cs.skip(1)) }
}
/// Every position is one of the input.
pub fn s_cerr_ok(e: CErrS, input: Str) -> bool { is_suffix(e.input, input) && s_context_ok(input, e.context) }
pub fn s_got(i: Str) -> Str {
    if i.len() == 0 { lit!("end of input") }
    else if i[0] == ' ' || i[0] == '\t' { lit!("whitespace") }
    else if i[0] == '\r' || i[0] == '\n' { lit!("end of line") }
    else { cat!(cat!(lit!("'"), x_escape_default(i[0])), lit!("'")) }
}
pub fn s_contexts(input: Str, cs: Seq<(Str, Str)>, last: LineS) -> Str {
    decreases!(cs.len());
    if cs.len() == 0 { lit!("") }
    else {
        let l = s_locate(input, cs[0].0);
        if l == last { s_contexts(input, cs.skip(1), last) }
        else {
            cat!(
                cat!(cat!(cat!(cat!(lit!("From "), cs[0].1), lit!(", started at ")), cat!(if l.line_number == last.line_number { lit!("the same ") } else { lit!("") }, cat!(lit!("line "), n_dec(l.line_number)))),
                    cat!(lit!(":\n"), cat!(s_show_line(l), lit!("\n")))),
                s_contexts(input, cs.skip(1), l))
        }
    }
}
pub fn s_describe(e: CErrS, input: Str) -> Str {
    if input.len() == 0 { lit!("parse error: input is empty") }
    else {
        let l = s_locate(input, e.input);
        let here = e.context.len() > 0 && s_locate(input, e.context[0].0) == l;
        cat!(
            cat!(cat!(lit!("parse error "), if here { cat!(cat!(lit!("in "), e.context[0].1), lit!(", ")) } else { lit!("") }), cat!(cat!(lit!("at line "), n_dec(l.line_number)), lit!(":"))),
            cat!(match e.error { Some(x) => cat!(lit!(" "), x), None => lit!("") },
            cat!(match e.char { Some(c) => cat!(cat!(lit!(" expected '"), seq![c]), cat!(lit!("', got "), s_got(e.input))), None => lit!("") },
            cat!(cat!(lit!("\n"), cat!(s_show_line(l), lit!("\n"))),
                s_contexts(input, if here { e.context.skip(1) } else { e.context }, l)))))
    }
}
/// The location reported last.
pub fn s_last_loc(input: Str, cs: Seq<(Str, Str)>, last: LineS) -> LineS {
    decreases!(cs.len());
    if cs.len() == 0 { last } else { s_last_loc(input, cs.skip(1), s_locate(input, cs[0].0)) }
}
