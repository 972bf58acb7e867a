//! Contract language, part 3: events (src/parser/events.rs, mod.rs, marked_sections.rs).

pub fn s_trim(cfg: Cfg, i: Str) -> Str { if cfg.trim_whitespace { s_trim_ws(i) } else { i } }

/// Without a closure, every entity is undefined.
pub fn s_lookup(f: Option<Fun<Str, Option<Str>>>) -> Fun<Str, Option<Str>> {
    match f { Some(g) => g, None => func!(|e: Str| None) }
}
/// References expanded; an undefined entity is a (recoverable) parser error.
pub fn s_rcdata(cfg: Cfg, i: Str) -> Result<Str, NE> {
    match s_expand(true, '&', s_lookup(cfg.entity_fn), i) { Ok(t) => Ok(t), Err(_) => Err(NE::Error) }
}
pub fn s_decl_text(cfg: Cfg, i: Str) -> Result<Str, NE> {
    match s_expand(false, '%', s_lookup(cfg.parameter_entity_fn), i) { Ok(t) => Ok(t), Err(_) => Err(NE::Error) }
}

pub fn s_normalize(n: Norm, name: Str) -> Str {
    match n { Norm::Unchanged => name, Norm::ToLowercase => x_lower(name), Norm::ToUppercase => x_upper(name) }
}

// ------------------------------------------------------- section keywords

pub fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { int_to_char((c as u32) as int + 32) } else { c } }
pub fn s_eq_nocase(a: Str, b: Str) -> bool {
    decreases!(a.len());
    if a.len() != b.len() { false }
    else if a.len() == 0 { true }
    else { ascii_lower(a[0]) == ascii_lower(b[0]) && s_eq_nocase(a.skip(1), b.skip(1)) }
}
pub fn s_keyword(k: Str) -> Option<Mss> {
    if s_eq_nocase(lit!("CDATA"), k) { Some(Mss::CData) }
    else if s_eq_nocase(lit!("RCDATA"), k) { Some(Mss::RcData) }
    else if s_eq_nocase(lit!("IGNORE"), k) { Some(Mss::Ignore) }
    else if s_eq_nocase(lit!("INCLUDE"), k) { Some(Mss::Include) }
    else if s_eq_nocase(lit!("TEMP"), k) { Some(Mss::Include) }
    else { None }
}
pub fn s_rank(m: Mss) -> int {
    match m { Mss::Include => 0, Mss::RcData => 1, Mss::CData => 2, Mss::Ignore => 3 }
}
pub fn s_strictest(a: Mss, b: Mss) -> Mss { if s_rank(b) >= s_rank(a) { b } else { a } }
/// Rust's `char::is_ascii_whitespace`.
pub fn c_ascii_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }

/// The whitespace-separated words of `i` (`str::split_ascii_whitespace`).
pub fn n_split_ws(i: Str) -> Seq<Str> {
    decreases!(i.len());
    let j = i.skip(tw(func!(|c: char| c_ascii_ws(c)), i));
    let k = tw(func!(|c: char| !c_ascii_ws(c)), j);
    if k == 0 || j.skip(k).len() >= i.len() { seq![] } else { cat!(seq![j.take(k)], n_split_ws(j.skip(k))) }
}
pub fn s_fold_keywords(acc: Mss, ws: Seq<Str>) -> Result<Mss, Str> {
    decreases!(ws.len());
    if ws.len() == 0 { Ok(acc) }
    else { match s_keyword(ws[0]) { None => Err(ws[0]), Some(m) => s_fold_keywords(s_strictest(acc, m), ws.skip(1)) } }
}
pub fn s_from_keywords(i: Str) -> Result<Mss, Str> { s_fold_keywords(Mss::Include, n_split_ws(i)) }
pub fn s_parse_keywords(h: Msh, i: Str) -> Result<Mss, Str> {
    match h {
        Msh::AcceptOnlyCharacterData => match s_keyword(i) {
            Some(Mss::CData) => Ok(Mss::CData),
            Some(Mss::RcData) => Ok(Mss::RcData),
            _ => Err(i),
        },
        _ => s_from_keywords(i),
    }
}

// ----------------------------------------------------------------- events

pub fn s_ev_decl(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    match s_markup_decl(i) {
        Err(e) => Err(e),
        Ok((r, (k, b))) => Ok((r, if cfg.ignore_markup_declarations { seq![] } else { seq![Ev::Decl(k, b)] })),
    }
}
pub fn s_ev_pi(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    match s_pi(i) {
        Err(e) => Err(e),
        Ok((r, s)) => Ok((r, if cfg.ignore_processing_instructions { seq![] } else { seq![Ev::Pi(s)] })),
    }
}
pub fn s_ev_open(i: Str, cfg: Cfg) -> PR<Ev> {
    match s_open(i) { Err(e) => Err(e), Ok((r, n)) => Ok((r, Ev::Open(s_normalize(cfg.name_normalization, n)))) }
}
pub fn s_ev_attr(i: Str, cfg: Cfg) -> PR<Ev> {
    match s_attr_with(func!(|v: (Str, bool)| if v.1 { s_rcdata(cfg, v.0) } else { Ok(v.0) }), i) {
        Err(e) => Err(e),
        Ok((r, (n, v))) => Ok((r, Ev::Attr(s_normalize(cfg.name_normalization, n), v))),
    }
}
pub fn s_ev_close(i: Str) -> PR<Ev> {
    if pfx(i, lit!("/>")) { Ok((i.skip(2), Ev::XmlClose)) }
    else if i.len() > 0 && i[0] == '>' { Ok((i.skip(1), Ev::Close)) }
    else { Err(NE::Failure) }
}
pub fn s_ev_attrs(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    n_many0(func!(|j: Str| match s_ev_attr(j, cfg) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) }), i)
}
pub fn s_ev_start_tag(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    match s_ev_open(i, cfg) {
        Err(_) => if pfx(i, lit!("<>")) { Ok((i.skip(2), seq![Ev::Open(seq![]), Ev::Close])) } else { Err(NE::Error) },
        Ok((r, o)) => match s_ev_attrs(skip_ws(r), cfg) {
            Err(e) => Err(e),
            Ok((r2, attrs)) => match s_ev_close(r2) {
                Err(e) => Err(e),
                Ok((r3, c)) => Ok((r3, cat!(cat!(seq![o], attrs), seq![c]))),
            },
        },
    }
}
pub fn s_ev_end_tag(i: Str, cfg: Cfg) -> PR<Ev> {
    match s_end_tag(i) {
        Err(e) => Err(e),
        Ok((r, n)) => Ok((r, Ev::End(s_normalize(cfg.name_normalization, o_or(n, seq![]))))),
    }
}
pub fn s_ev_text(i: Str, cfg: Cfg, stop: Mse) -> PR<Seq<Ev>> {
    match s_text(i, stop) {
        Err(e) => Err(e),
        Ok((r, t)) => {
            let s = s_trim(cfg, t);
            if s.len() == 0 { Ok((r, seq![])) }
            else { match s_rcdata(cfg, s) { Ok(v) => Ok((r, seq![Ev::Chars(v)])), Err(e) => Err(e) } }
        }
    }
}

/// Body and end of a marked section whose keywords are already read.
pub fn s_section_body(i: Str, kw: Str, m: Mss, cfg: Cfg) -> PR<Seq<Ev>> {
    decreases!(i.len(), 5int);
    if cfg.marked_section_handling == Msh::KeepUnmodified {
        match match m {
            Mss::Ignore => s_section_ignore(i),
            Mss::CData => s_section_chars(i),
            Mss::RcData => s_section_chars(i),
            Mss::Include => match s_section_include(i, cfg) {
                Err(e) => Err(e),
                Ok((r, _)) => if pfx(r, lit!("]]>")) { Ok((r.skip(3), consumed(i, r))) } else { Err(NE::Error) },
            },
        } {
            Err(e) => Err(e),
            Ok((r, c)) => Ok((r, seq![Ev::Section(kw, c)])),
        }
    } else {
        match m {
            Mss::Ignore => match s_section_ignore(i) { Ok((r, _)) => Ok((r, seq![])), Err(e) => Err(e) },
            Mss::CData => match s_section_chars(i) { Ok((r, c)) => Ok((r, seq![Ev::Chars(s_trim(cfg, c))])), Err(e) => Err(e) },
            Mss::RcData => match s_section_chars(i) {
                Err(e) => Err(e),
                Ok((r, c)) => match s_rcdata(cfg, s_trim(cfg, c)) { Ok(v) => Ok((r, seq![Ev::Chars(v)])), Err(e) => Err(e) },
            },
            Mss::Include => match s_section_include(i, cfg) {
                Err(e) => Err(e),
                Ok((r, evs)) => if pfx(r, lit!("]]>")) { Ok((r.skip(3), evs)) } else { Err(NE::Error) },
            },
        }
    }
}

/// Content of an INCLUDE section: comments, then (possibly no) content.
pub fn s_section_include(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    decreases!(i.len(), 4int);
    match s_comment_decls(i) {
        Err(e) => Err(e),
        Ok((r, _)) => if r.len() <= i.len() {
            match s_content(r, cfg, Mse::StopParsing) {
                Err(NE::Error) => Ok((r, seq![])),
                x => x,
            }
        } else { Err(NE::Error) },
    }
}

pub fn s_section(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    decreases!(i.len(), 0int);
    match s_section_start(i) {
        Err(e) => Err(e),
        Ok((r, raw)) => match s_decl_text(cfg, raw) {
            Err(e) => Err(e),
            Ok(kw) => match s_parse_keywords(cfg.marked_section_handling, kw) {
                Err(_) => Err(NE::Failure),
                Ok(m) => if r.len() < i.len() { s_section_body(r, kw, m, cfg) } else { Err(NE::Error) },
            },
        },
    }
}

/// One unit of content.
pub fn s_content_item(i: Str, cfg: Cfg, stop: Mse) -> PR<Seq<Ev>> {
    decreases!(i.len(), 1int);
    match s_ev_text(i, cfg, stop) {
        Err(NE::Error) => match s_ev_start_tag(i, cfg) {
            Err(NE::Error) => match s_ev_end_tag(i, cfg) {
                Err(NE::Error) => match s_ev_pi(i, cfg) {
                    Err(NE::Error) => s_section(i, cfg),
                    x => x,
                },
                Err(e) => Err(e),
                Ok((r, e)) => Ok((r, seq![e])),
            },
            x => x,
        },
        x => x,
    }
}

/// One unit of content and the comments after it.
pub fn s_content_unit(i: Str, cfg: Cfg, stop: Mse) -> PR<Seq<Ev>> {
    decreases!(i.len(), 2int);
    match s_content_item(i, cfg, stop) {
        Err(e) => Err(e),
        Ok((r, evs)) => match s_comment_decls(r) { Ok((r2, _)) => Ok((r2, evs)), Err(e) => Err(e) },
    }
}

/// One or more units of content.
pub fn s_content(i: Str, cfg: Cfg, stop: Mse) -> PR<Seq<Ev>> {
    decreases!(i.len(), 3int);
    match n_many1(func!(|j: Str| if j.len() <= i.len() { s_content_unit(j, cfg, stop) } else { Err(NE::Error) }), i) {
        Err(e) => Err(e),
        Ok((r, x)) => Ok((r, flatten(x))),
    }
}

pub fn then_comments<T>(x: PR<T>) -> PR<T> {
    match x {
        Err(e) => Err(e),
        Ok((r, v)) => match s_comments_and_spaces(r) { Ok((r2, _)) => Ok((r2, v)), Err(e) => Err(e) },
    }
}

/// Declarations, sections and processing instructions before the content.
pub fn s_prolog(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    match n_many0(func!(|j: Str| then_comments(match s_ev_decl(j, cfg) {
        Err(NE::Error) => match s_section(j, cfg) {
            Err(NE::Error) => s_ev_pi(j, cfg),
            x => x,
        },
        x => x,
    })), i) {
        Err(e) => Err(e),
        Ok((r, x)) => Ok((r, flatten(x))),
    }
}

/// A whole document.
pub fn s_document(i: Str, cfg: Cfg) -> PR<Seq<Ev>> {
    match s_comments_and_spaces(i) {
        Err(e) => Err(e),
        Ok((r, _)) => match s_prolog(r, cfg) {
            Err(e) => Err(e),
            Ok((r2, decls)) => match s_content(r2, cfg, Mse::TreatAsText) {
                Err(_) => Err(NE::Failure),
                Ok((r3, evs)) => match n_many0(func!(|j: Str| then_comments(s_ev_pi(j, cfg))), r3) {
                    Err(e) => Err(e),
                    Ok((r4, epi)) => if r4.len() == 0 { Ok((r4, cat!(cat!(decls, evs), flatten(epi)))) } else { Err(NE::Error) },
                },
            },
        },
    }
}

/// What an `EventIter` will yield.
pub fn s_ei(x: EvIter) -> Seq<Ev> {
    cat!(cat!(o_seq(x.start), if x.middle_next >= 0 && x.middle_next <= x.middle.len() { x.middle.skip(x.middle_next) } else { seq![] }), o_seq(x.end))
}
