//! Contract language, part 2: the lexical grammar (src/parser/raw.rs, util.rs, entities.rs).

extern_fn! { fn c_alpha(c: char) -> bool; }
extern_fn! { fn c_alnum(c: char) -> bool; }
/// Full Unicode case mappings of a string (`str::to_lowercase` / `to_uppercase`).
extern_fn! { fn x_lower(s: Str) -> Str; }
extern_fn! { fn x_upper(s: Str) -> Str; }

pub fn s_is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub fn s_name_start(c: char) -> bool { c_alpha(c) }
pub fn s_name_char(c: char) -> bool { c_alnum(c) || c == '.' || c == '-' || c == '_' || c == ':' }
pub fn c_digit(c: char) -> bool { '0' <= c && c <= '9' }

pub fn p_ws() -> Fun<char, bool> { func!(|c: char| s_is_ws(c)) }
pub fn skip_ws(i: Str) -> Str { i.skip(tw(p_ws(), i)) }
pub fn s_trim_ws(i: Str) -> Str { trim_both(p_ws(), i) }

/// Everything up to the first `d`, which is consumed; a missing `d` cannot be recovered from.
pub fn s_until(d: Str, i: Str) -> PR<Str> {
    match find(i, d) {
        Some(k) => Ok((i.skip(k + d.len()), i.take(k))),
        None => Err(NE::Failure),
    }
}

/// A name: an alphabetic character, then the longest run of name characters.
pub fn s_name(i: Str) -> PR<Str> {
    if i.len() > 0 && s_name_start(i[0]) {
        let k = 1 + tw(func!(|c: char| s_name_char(c)), i.skip(1));
        Ok((i.skip(k), i.take(k)))
    } else { Err(NE::Error) }
}

/// `-- text --`
pub fn s_comment(i: Str) -> PR<Str> {
    if pfx(i, lit!("--")) { s_until(lit!("--"), i.skip(2)) } else { Err(NE::Error) }
}

/// Further comments of one declaration, each preceded by optional whitespace.
pub fn s_more_comments(i: Str) -> PR<Seq<Str>> {
    n_many0(func!(|j: Str| s_comment(skip_ws(j))), i)
}

/// `<!` then zero or more comments, then `>`.
pub fn s_comment_decl(i: Str) -> PR<Str> {
    if pfx(i, lit!("<!")) && i.len() > 2 && (i[2] == '-' || i[2] == '>') {
        match s_comment(i.skip(2)) {
            Err(NE::Failure) => Err(NE::Failure),
            Err(NE::Error) =>
                if i[2] == '>' { Ok((i.skip(3), i.take(3))) } else { Err(NE::Failure) },
            Ok((r, _)) => match s_more_comments(r) {
                // no recoverable outcome: every comment makes progress
                Err(e) => Err(e),
                Ok((r2, _)) =>
                    if r2.len() > 0 && r2[0] == '>' { Ok((r2.skip(1), consumed(i, r2.skip(1)))) }
                    else { Err(NE::Failure) },
            },
        }
    } else { Err(NE::Error) }
}

/// Any number of comment declarations.
pub fn s_comment_decls(i: Str) -> PR<Seq<Str>> {
    n_many0(func!(|j: Str| s_comment_decl(j)), i)
}

/// Any mix of comment declarations and whitespace.
pub fn s_comments_and_spaces(i: Str) -> PR<Str> {
    match n_many0(func!(|j: Str| match s_comment_decl(j) {
        Err(NE::Error) => n_take_while1(p_ws(), j),
        x => x,
    }), i) {
        Ok((r, _)) => Ok((r, consumed(i, r))),
        Err(e) => Err(e),
    }
}

/// A value between two equal quotes.
pub fn s_quoted(i: Str) -> PR<Str> {
    if i.len() > 0 && (i[0] == '\'' || i[0] == '"') { s_until(seq![i[0]], i.skip(1)) } else { Err(NE::Error) }
}

pub fn s_unq_char(c: char) -> bool { !(c == '"' || c == '\'' || c == '>' || s_is_ws(c)) }

/// The longest non-empty run without quotes, `>` or whitespace.
pub fn s_unquoted(i: Str) -> PR<Str> {
    n_take_while1(func!(|c: char| s_unq_char(c)), i)
}

/// An attribute value and whether it was quoted.
pub fn s_attr_value(i: Str) -> PR<(Str, bool)> {
    if i.len() > 0 && (i[0] == '\'' || i[0] == '"') {
        match s_quoted(i) { Ok((r, v)) => Ok((r, (v, true))), Err(e) => Err(e) }
    } else {
        match s_unquoted(i) { Ok((r, v)) => Ok((r, (v, false))), Err(e) => Err(e) }
    }
}

/// `name` or `name = value`, the value passed through `f`; after `=` nothing is recoverable.
pub fn s_attr_with<T>(f: Fun<(Str, bool), Result<T, NE>>, i: Str) -> PR<(Str, Option<T>)> {
    match s_name(i) {
        Err(e) => Err(e),
        Ok((r, name)) => {
            let eq = skip_ws(r);
            if eq.len() > 0 && eq[0] == '=' {
                match s_attr_value(skip_ws(eq.skip(1))) {
                    Ok((r2, v)) => match call!(f, v) { Ok(t) => Ok((r2, (name, Some(t)))), Err(_) => Err(NE::Failure) },
                    Err(_) => Err(NE::Failure),
                }
            } else { Ok((r, (name, None))) }
        }
    }
}

pub fn s_attr(i: Str) -> PR<(Str, Option<Str>)> {
    s_attr_with(func!(|v: (Str, bool)| Ok(v.0)), i)
}

/// Any token of a declaration body outside quotes, comments and subsets.
pub fn s_decl_plain(c: char) -> bool {
    !(c == '<' || c == '>' || c == '"' || c == '\'' || c == '[' || c == '-' || c == ' ' || c == '\n' || c == '\r' || c == '\t')
}
pub fn s_subset_plain(c: char) -> bool {
    !(c == '<' || c == '>' || c == '"' || c == '\'' || c == '[' || c == ']' || c == '-')
}

/// One token of a declaration body.
pub fn s_decl_item(i: Str) -> PR<Str> {
    decreases!(i.len(), 1int);
    match s_comment(i) {
        Err(NE::Error) => match s_quoted(i) {
            Err(NE::Error) => match s_subset(i) {
                Err(NE::Error) =>
                    if pfx(i, lit!("-")) {
                        if pfx(i, lit!("--")) { Err(NE::Error) } else { Ok((i.skip(1), i.take(1))) }
                    } else { n_take_while1(func!(|c: char| s_decl_plain(c)), i) },
                x => x,
            },
            x => x,
        },
        x => x,
    }
}

/// `<!NAME body>`: name and body without surrounding whitespace.
pub fn s_markup_decl(i: Str) -> PR<(Str, Str)> {
    decreases!(i.len(), 2int);
    if pfx(i, lit!("<!")) {
        match s_name(i.skip(2)) {
            Err(e) => Err(e),
            Ok((r, name)) => {
                let b = skip_ws(r);
                match n_many0(func!(|j: Str| if skip_ws(j).len() < i.len() { s_decl_item(skip_ws(j)) } else { Err(NE::Error) }), b) {
                    Err(_) => Err(NE::Failure),
                    Ok((r2, _)) => {
                        let r3 = skip_ws(r2);
                        if r3.len() > 0 && r3[0] == '>' { Ok((r3.skip(1), (name, consumed(b, r2)))) } else { Err(NE::Failure) }
                    }
                }
            }
        }
    } else { Err(NE::Error) }
}

pub fn s_subset_item(i: Str) -> PR<Str> {
    decreases!(i.len(), 3int);
    match s_comment(i) {
        Err(NE::Error) => match s_quoted(i) {
            Err(NE::Error) => match s_subset(i) {
                Err(NE::Error) => match s_markup_decl(i) {
                    Err(NE::Error) => n_take_while1(func!(|c: char| s_subset_plain(c)), i),
                    Err(e) => Err(e),
                    Ok((r, _)) => Ok((r, consumed(i, r))),
                },
                x => x,
            },
            x => x,
        },
        x => x,
    }
}

/// `[ ... ]` inside a declaration.
pub fn s_subset(i: Str) -> PR<Str> {
    decreases!(i.len(), 0int);
    if i.len() > 0 && i[0] == '[' {
        match n_many0(func!(|j: Str| if j.len() < i.len() { s_subset_item(j) } else { Err(NE::Error) }), i.skip(1)) {
            Err(e) => Err(e),
            Ok((r, _)) =>
                if r.len() > 0 && r[0] == ']' { Ok((r.skip(1), consumed(i.skip(1), r))) } else { Err(NE::Failure) },
        }
    } else { Err(NE::Error) }
}

/// `<![ keywords [`: the keywords without surrounding whitespace.
pub fn s_kw_char(c: char) -> bool { !(c == '[' || c == ']' || c == '<' || c == '>' || c == '!') }
pub fn s_section_start(i: Str) -> PR<Str> {
    if pfx(i, lit!("<![")) {
        let j = i.skip(3);
        let k = tw(func!(|c: char| s_kw_char(c)), j);
        if k < j.len() && j[k] == '[' { Ok((j.skip(k + 1), s_trim_ws(j.take(k)))) } else { Err(NE::Failure) }
    } else { Err(NE::Error) }
}

/// CDATA / RCDATA body: up to the first `]]>`.
pub fn s_section_chars(i: Str) -> PR<Str> { s_until(lit!("]]>"), i) }

/// Position just after the `]]>` that balances `depth` already open `<![`.
pub fn s_ignore_end(depth: int, i: Str) -> Option<Str> {
    decreases!(i.len());
    if pfx(i, lit!("]]>")) {
        if depth <= 0 { Some(i.skip(3)) } else { s_ignore_end(depth - 1, i.skip(3)) }
    } else if pfx(i, lit!("<![")) { s_ignore_end(depth + 1, i.skip(3)) }
    else if i.len() == 0 { None }
    else { s_ignore_end(depth, i.skip(1)) }
}

/// IGNORE body: up to the `]]>` balancing every nested `<![`.
pub fn s_section_ignore(i: Str) -> PR<Str> {
    match s_ignore_end(0, i) {
        Some(r) => Ok((r, i.take(i.len() - r.len() - 3))),
        None => Err(NE::Failure),
    }
}

/// `<? ... >`
pub fn s_pi(i: Str) -> PR<Str> {
    if pfx(i, lit!("<?")) {
        match s_until(lit!(">"), i.skip(2)) { Ok((r, _)) => Ok((r, consumed(i, r))), Err(e) => Err(e) }
    } else { Err(NE::Error) }
}

/// Does the text after a `<` make it the start of markup?
pub fn s_markup_after_lt(j: Str) -> bool {
    pfx(j, lit!("?")) || pfx(j, lit!("!-")) || pfx(j, lit!("!>")) || pfx(j, lit!("!["))
        || (j.len() > 1 && j[0] == '!' && s_name_start(j[1]))
        || (j.len() > 0 && (j[0] == '>' || s_name_start(j[0])))
        || (j.len() > 1 && j[0] == '/' && (j[1] == '>' || s_name_start(j[1])))
}

/// Does a text run end here?
pub fn s_text_stops(stop: Mse, i: Str) -> bool {
    i.len() == 0
        || (stop == Mse::StopParsing && pfx(i, lit!("]]>")))
        || (i[0] == '<' && s_markup_after_lt(i.skip(1)))
}

pub fn s_text_len(stop: Mse, i: Str) -> int {
    decreases!(i.len());
    if s_text_stops(stop, i) { 0 } else { 1 + s_text_len(stop, i.skip(1)) }
}

/// A maximal, non-empty text run.
pub fn s_text(i: Str, stop: Mse) -> PR<Str> {
    let k = s_text_len(stop, i);
    if k == 0 { Err(NE::Error) } else { Ok((i.skip(k), i.take(k))) }
}

/// Length of the text before any `<` (and before `]]>` when it stops parsing).
pub fn s_plain_len(stop: Mse, i: Str) -> int {
    decreases!(i.len());
    if i.len() == 0 || i[0] == '<' || (stop == Mse::StopParsing && pfx(i, lit!("]]>"))) { 0 }
    else { 1 + s_plain_len(stop, i.skip(1)) }
}
pub fn s_plain_text(i: Str, stop: Mse) -> PR<Str> {
    let k = s_plain_len(stop, i);
    if k == 0 { Err(NE::Error) } else { Ok((i.skip(k), i.take(k))) }
}

/// `</name>` or `</>`
pub fn s_end_tag(i: Str) -> PR<Option<Str>> {
    if pfx(i, lit!("</")) {
        match s_name(i.skip(2)) {
            Err(_) => if i.len() > 2 && i[2] == '>' { Ok((i.skip(3), None)) } else { Err(NE::Failure) },
            Ok((r, name)) => {
                let r2 = skip_ws(r);
                if r2.len() > 0 && r2[0] == '>' { Ok((r2.skip(1), Some(name))) } else { Err(NE::Failure) }
            }
        }
    } else { Err(NE::Error) }
}

/// `<name`
pub fn s_open(i: Str) -> PR<Str> {
    if i.len() > 0 && i[0] == '<' { s_name(i.skip(1)) } else { Err(NE::Error) }
}

// ------------------------------------------------------------- references

/// Value of a run of digits in the given base (10 or 16), stopping once above 32 bits.
pub fn digit_val(c: char) -> int {
    if '0' <= c && c <= '9' { (c as u32) as int - 48 }
    else if 'a' <= c && c <= 'f' { (c as u32) as int - 97 + 10 }
    else if 'A' <= c && c <= 'F' { (c as u32) as int - 65 + 10 }
    else { 16 }
}
pub fn number(base: int, acc: int, i: Str) -> Option<int> {
    decreases!(i.len());
    if acc > 0xFFFF_FFFF { None }
    else if i.len() == 0 { Some(acc) }
    else if digit_val(i[0]) >= base { None }
    else { number(base, acc * base + digit_val(i[0]), i.skip(1)) }
}
/// `u32::from_str_radix`
pub fn n_from_str_radix(base: int, i: Str) -> Option<int> {
    let j = if i.len() > 0 && i[0] == '+' { i.skip(1) } else { i };
    if j.len() == 0 { None } else { number(base, 0, j) }
}
extern_fn! { fn int_to_char(n: int) -> char; }
/// `char::from_u32`
pub fn n_char_from_u32(n: int) -> Option<char> {
    if (0 <= n && n < 0xD800) || (0xE000 <= n && n < 0x11_0000) { Some(int_to_char(n)) } else { None }
}

/// Text after `&`: a numeric reference, decoded or (when it denotes no character) kept as a name.
pub fn s_char_ref(i: Str) -> PR<ERef> {
    if pfx(i, lit!("#")) {
        let d = tw(func!(|c: char| c_digit(c)), i.skip(1));
        if d > 0 {
            let r = i.skip(1 + d);
            match number(10, 0, i.skip(1).take(d)) {
                Some(n) => match n_char_from_u32(n) { Some(c) => Ok((r, ERef::Char(c))), None => Ok((r, ERef::Entity(i.take(1 + d)))) },
                None => Ok((r, ERef::Entity(i.take(1 + d)))),
            }
        } else if pfx(i, lit!("#x")) {
            let h = tw(func!(|c: char| s_name_char(c)), i.skip(2));
            if h > 0 {
                let r = i.skip(2 + h);
                match number(16, 0, i.skip(2).take(h)) {
                    Some(n) => match n_char_from_u32(n) { Some(c) => Ok((r, ERef::Char(c))), None => Ok((r, ERef::Entity(i.take(2 + h)))) },
                    None => Ok((r, ERef::Entity(i.take(2 + h)))),
                }
            } else { Err(NE::Error) }
        } else { Err(NE::Error) }
    } else { Err(NE::Error) }
}

/// A name, or `#` and a name.
pub fn s_entity_ref(i: Str) -> PR<ERef> {
    let j = if pfx(i, lit!("#")) { i.skip(1) } else { i };
    match s_name(j) { Ok((r, _)) => Ok((r, ERef::Entity(consumed(i, r)))), Err(e) => Err(e) }
}

pub fn s_entity_or_char_ref(i: Str) -> PR<ERef> {
    match s_char_ref(i) { Err(NE::Error) => s_entity_ref(i), x => x }
}

/// The reference at the start of `i` (just after the prefix), with its optional `;` consumed.
pub fn s_reference(chars: bool, i: Str) -> PR<ERef> {
    match if chars { s_entity_or_char_ref(i) } else { s_entity_ref(i) } {
        Err(e) => Err(e),
        Ok((r, x)) => if pfx(r, lit!(";")) { Ok((r.skip(1), x)) } else { Ok((r, x)) },
    }
}

/// Failure of an expansion: the undefined name, and the reference's extent as lengths of
/// the text that remains from its first character and after its last.
pub struct Undef { pub name: Str, pub from: Str, pub after: Str }

/// Expansion of everything in `i`, left to right, replacement text never rescanned.
pub fn s_expand(chars: bool, pre: char, f: Fun<Str, Option<Str>>, i: Str) -> Result<Str, Undef> {
    decreases!(i.len());
    if i.len() == 0 { Ok(i) }
    else if i[0] == pre {
        match s_reference(chars, i.skip(1)) {
            Ok((r, ERef::Char(c))) => if r.len() < i.len() {
                match s_expand(chars, pre, f, r) { Ok(t) => Ok(cat!(seq![c], t)), Err(e) => Err(e) }
            } else { Ok(i) },
            Ok((r, ERef::Entity(name))) => match call!(f, name) {
                None => Err(Undef { name: name, from: i, after: r }),
                Some(v) => if r.len() < i.len() {
                    match s_expand(chars, pre, f, r) { Ok(t) => Ok(cat!(v, t)), Err(e) => Err(e) }
                } else { Ok(i) },
            },
            Err(_) => match s_expand(chars, pre, f, i.skip(1)) { Ok(t) => Ok(cat!(seq![pre], t)), Err(e) => Err(e) },
        }
    } else {
        match s_expand(chars, pre, f, i.skip(1)) { Ok(t) => Ok(cat!(seq![i[0]], t)), Err(e) => Err(e) }
    }
}
/// The same with the failing reference's byte range.
pub fn s_expand_pos(chars: bool, pre: char, f: Fun<Str, Option<Str>>, i: Str) -> Result<Str, EntErr> {
    match s_expand(chars, pre, f, i) {
        Ok(t) => Ok(t),
        Err(u) => Err(EntErr { entity: u.name, position: (blen(i) - blen(u.from), blen(i) - blen(u.after)) }),
    }
}
/// `r` is what is left of `i` after some prefix.
pub fn is_suffix(r: Str, i: Str) -> bool { r.len() <= i.len() && r == i.skip(i.len() - r.len()) }
/// Meaning of the expansion loop: what is left and what was written once no prefix is left.
pub fn s_exp_loop(chars: bool, pre: char, f: Fun<Str, Option<Str>>, text: Str, rem: Str, out: Str) -> Result<(Str, Str), Result<Str, EntErr>> {
    decreases!(rem.len());
    match find(rem, seq![pre]) {
        None => Ok((rem, out)),
        Some(k) => if 0 <= k && k < rem.len() {
            let c = rem.skip(k);
            let o = cat!(out, rem.take(k));
            match s_reference(chars, c.skip(1)) {
                Ok((r, ERef::Char(x))) => if r.len() < rem.len() { s_exp_loop(chars, pre, f, text, r, cat!(o, seq![x])) } else { Ok((rem, out)) },
                Ok((r, ERef::Entity(name))) => match call!(f, name) {
                    None => Err(Err(EntErr { entity: name, position: (blen(text) - blen(c), blen(text) - blen(r)) })),
                    Some(v) => if r.len() < rem.len() { s_exp_loop(chars, pre, f, text, r, cat!(o, v)) } else { Ok((rem, out)) },
                },
                Err(_) => s_exp_loop(chars, pre, f, text, c.skip(1), cat!(o, seq![pre])),
            }
        } else { Ok((rem, out)) },
    }
}
