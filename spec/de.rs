//! Contract language, part 5: deserialization (src/de).

pub enum DeErr { UnexpectedEof, EmptyStack, ExpectedStartTag, MismatchedCloseTag(Str, Str), Unsupported(Ev), ParseIntError, ParseFloatError, Message }
pub struct DeS { pub events: Seq<Ev>, pub stack: Seq<Str>, pub map_key: Option<Str>, pub accumulated_text: Option<Str> }
pub enum Strat { TextOnly, ElementsAreMapEntries, ElementsAreDollarValue }
pub struct MapS { pub de: DeS, pub stack_size: int, pub map_key: Option<Str>, pub content_strategy: Strat, pub text_content: Option<CowBufS>, pub next_entry_is_dollarvalue: bool }
pub struct SeqS { pub de: DeS, pub stack_size: int, pub tag_name: Option<Str> }
pub struct EnumS { pub de: DeS, pub use_tag_name_for_variant: bool }
pub struct PeekS { pub contains_attributes: bool, pub contains_text: bool, pub contains_child_elements: bool }
/// What a serde visitor is shown, and what a seed is given.
pub enum Visit { Bool(bool), Text(Str), Unit, None, Num(int, int), Some(DeS), Newtype(DeS), Map(MapS), Seq(SeqS), Enum(EnumS) }
pub enum SeedIn { De(DeS), Key(Str) }
/// The value a visitor or seed builds: never inspected by the deserializer.
pub struct W { pub w: int }

// ------------------------------------------------------------ the cursor

/// Events that cannot be deserialized.
pub fn s_unsup(e: Ev) -> bool {
    match e {
        Ev::Decl(_, _) => true,
        Ev::Pi(_) => true,
        Ev::Section(_, _) => true,
        Ev::Open(n) => n.len() == 0,
        Ev::End(n) => n.len() == 0,
        _ => false,
    }
}
pub fn s_norm(d: DeS) -> (DeS, Result<(), DeErr>) {
    if d.events.len() > 0 && s_unsup(d.events[0]) { (DeS { events: d.events.skip(1), ..d }, Err(DeErr::Unsupported(d.events[0]))) } else { (d, Ok(())) }
}
pub fn s_advance(d: DeS) -> (DeS, Result<Ev, DeErr>) {
    if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) } else {
        match s_norm(DeS { events: d.events.skip(1), ..d }) { (e, Ok(_)) => (e, Ok(d.events[0])), (e, Err(x)) => (e, Err(x)) }
    }
}
/// Enters the element whose start tag is at the cursor.
pub fn s_push(d: DeS) -> (DeS, Result<Str, DeErr>) {
    if d.events.len() == 0 { (d, Err(DeErr::ExpectedStartTag)) } else {
        let r = DeS { events: d.events.skip(1), ..d };
        match d.events[0] {
            Ev::Open(name) =>
                if name.len() == 0 { (r, Err(DeErr::Unsupported(Ev::Open(lit!(""))))) }
                else { match s_norm(DeS { stack: d.stack.push(name), ..r }) { (e, Ok(_)) => (e, Ok(name)), (e, Err(x)) => (e, Err(x)) } },
            _ => (r, Err(DeErr::ExpectedStartTag)),
        }
    }
}
/// Leaves the innermost open element, skipping the rest of its content.
pub fn s_pop(d: DeS) -> (DeS, Result<(), DeErr>) {
    decreases!(d.events.len());
    if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) } else {
        let r = DeS { events: d.events.skip(1), ..d };
        match d.events[0] {
            Ev::XmlClose => (DeS { stack: d.stack.drop_last(), ..r }, Ok(())),
            Ev::End(name) =>
                if name == d.stack.last() { (DeS { stack: d.stack.drop_last(), ..r }, Ok(())) }
                else { (DeS { stack: d.stack.drop_last(), ..r }, Err(DeErr::MismatchedCloseTag(d.stack.last(), name))) },
            Ev::Open(name) => match s_pop(DeS { stack: d.stack.push(name), ..r }) {
                (e, Err(x)) => (e, Err(x)),
                (e, Ok(_)) => if e.events.len() < d.events.len() { s_pop(e) } else { (e, Ok(())) },
            },
            _ => s_pop(r),
        }
    }
}

/// What follows the element's own end, `k` levels out.
pub fn s_end(k: int, evs: Seq<Ev>) -> Option<Seq<Ev>> {
    decreases!(evs.len());
    if k <= 0 { Some(evs) } else if evs.len() == 0 { None } else {
        match evs[0] {
            Ev::Open(_) => s_end(k + 1, evs.skip(1)),
            Ev::End(_) => s_end(k - 1, evs.skip(1)),
            Ev::XmlClose => s_end(k - 1, evs.skip(1)),
            _ => s_end(k, evs.skip(1)),
        }
    }
}

pub fn s_peek(d: DeS) -> Result<Ev, DeErr> { if d.events.len() == 0 { Err(DeErr::UnexpectedEof) } else { Ok(d.events[0]) } }
/// Attributes, text and child elements up to the first end (or child).
pub fn m_peek(attrs: bool, text: bool, evs: Seq<Ev>, i: int) -> Result<(bool, bool), (bool, bool, bool)> {
    decreases!(evs.len() - i);
    if i < 0 || i >= evs.len() { Ok((attrs, text)) } else {
        match evs[i] {
            Ev::Open(_) => if i == 0 { m_peek(attrs, text, evs, i + 1) } else { Err((attrs, text, true)) },
            Ev::End(_) => Err((attrs, text, false)),
            Ev::XmlClose => Err((attrs, text, false)),
            Ev::Attr(_, _) => m_peek(true, text, evs, i + 1),
            Ev::Chars(t) => m_peek(attrs, text || t.len() > 0, evs, i + 1),
            _ => m_peek(attrs, text, evs, i + 1),
        }
    }
}
pub fn s_peek_content(d: DeS) -> Result<PeekS, DeErr> {
    match m_peek(false, false, d.events, 0) {
        Ok(_) => Err(DeErr::UnexpectedEof),
        Err(x) => Ok(PeekS { contains_attributes: x.0, contains_text: x.1, contains_child_elements: x.2 }),
    }
}
/// Skips the rest of the start tag.
pub fn m_content(d: DeS) -> Result<DeS, (DeS, Result<(), DeErr>)> {
    decreases!(d.events.len());
    if d.events.len() == 0 { Err((d, Err(DeErr::UnexpectedEof))) } else {
        let go = match d.events[0] { Ev::Attr(_, _) => true, Ev::Close => true, _ => false };
        if go {
            let a = s_advance(d);
            match a.1 { Err(x) => Err((a.0, Err(x))), Ok(_) => if a.0.events.len() < d.events.len() { m_content(a.0) } else { Ok(a.0) } }
        } else { Ok(d) }
    }
}
pub fn s_to_content(d: DeS) -> (DeS, Result<(), DeErr>) { match m_content(d) { Ok(e) => (e, Ok(())), Err(x) => x } }

// ------------------------------------------------------------------ text

/// Collects the text of the elements open above `start`.
pub fn m_text(d: DeS, text: CowBufS, start: int) -> Result<(DeS, CowBufS), (DeS, CowBufS, Result<Str, DeErr>)> {
    decreases!(d.events.len());
    if d.events.len() == 0 { Err((d, text, Err(DeErr::UnexpectedEof))) } else {
        match d.events[0] {
            Ev::Open(_) => {
                let p = s_push(d);
                match p.1 { Err(x) => Err((p.0, text, Err(x))), Ok(_) => if p.0.events.len() < d.events.len() { m_text(p.0, text, start) } else { Ok((d, text)) } }
            },
            Ev::Chars(t) => {
                let a = s_advance(d);
                let all = CowBufS { f0: cat!(text.f0, t) };
                match a.1 { Err(x) => Err((a.0, all, Err(x))), Ok(_) => if a.0.events.len() < d.events.len() { m_text(a.0, all, start) } else { Ok((d, text)) } }
            },
            Ev::End(_) => {
                let p = s_pop(d);
                match p.1 { Err(x) => Err((p.0, text, Err(x))), Ok(_) => if p.0.stack.len() == start { Ok((p.0, text)) } else if p.0.events.len() < d.events.len() { m_text(p.0, text, start) } else { Ok((d, text)) } }
            },
            Ev::XmlClose => {
                let p = s_pop(d);
                match p.1 { Err(x) => Err((p.0, text, Err(x))), Ok(_) => if p.0.stack.len() == start { Ok((p.0, text)) } else if p.0.events.len() < d.events.len() { m_text(p.0, text, start) } else { Ok((d, text)) } }
            },
            _ => {
                let a = s_advance(d);
                match a.1 { Err(x) => Err((a.0, text, Err(x))), Ok(_) => if a.0.events.len() < d.events.len() { m_text(a.0, text, start) } else { Ok((d, text)) } }
            },
        }
    }
}
pub fn s_text_rest(d: DeS, text: CowBufS, start: int) -> (DeS, Result<Str, DeErr>) {
    match m_text(d, text, start) { Ok(r) => (r.0, Ok(r.1.f0)), Err(r) => (r.0, r.2) }
}
pub fn s_consume(d: DeS) -> (DeS, Result<Str, DeErr>) {
    match d.accumulated_text {
        Some(t) => (DeS { accumulated_text: None, ..d }, Ok(t)),
        None => if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) } else {
            match d.events[0] {
                Ev::Attr(_, v) => match s_advance(d) {
                    (e, Ok(_)) => (e, Ok(match v { Some(x) => x, None => lit!("") })),
                    (e, Err(x)) => (e, Err(x)),
                },
                _ => match s_push(d) {
                    (e, Err(x)) => (e, Err(x)),
                    (e, Ok(_)) => s_text_rest(e, CowBufS { f0: lit!("") }, d.stack.len() as int),
                },
            }
        },
    }
}

// --------------------------------------------------------------- scalars

pub fn s_str(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    match s_consume(d) { (e, Ok(t)) => (e, call!(vis, Visit::Text(t)).1), (e, Err(x)) => (e, Err(x)) }
}
pub fn s_num(k: int, d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    match s_consume(d) {
        (e, Ok(t)) => match x_parse_num(k, t) {
            Some(n) => (e, call!(vis, Visit::Num(k, n)).1),
            None => (e, Err(if k == 8 || k == 9 { DeErr::ParseFloatError } else { DeErr::ParseIntError })),
        },
        (e, Err(x)) => (e, Err(x)),
    }
}
/// A bare attribute, an empty one, or one that repeats its name.
pub fn s_flag(e: Ev) -> bool {
    match e { Ev::Attr(n, v) => match v { None => true, Some(x) => x.len() == 0 || s_eq_nocase(x, n) }, _ => false }
}
pub fn s_truth(t: Str) -> Option<bool> {
    if t == lit!("1") || s_eq_nocase(t, lit!("true")) { Some(true) } else if t == lit!("0") || s_eq_nocase(t, lit!("false")) { Some(false) } else { None }
}
pub fn s_bool(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) }
    else if s_flag(d.events[0]) { match s_advance(d) { (e, Ok(_)) => (e, call!(vis, Visit::Bool(true)).1), (e, Err(x)) => (e, Err(x)) } }
    else {
        match s_consume(d) {
            (e, Ok(t)) => match s_truth(t) { Some(b) => (e, call!(vis, Visit::Bool(b)).1), None => (e, Err(DeErr::Message)) },
            (e, Err(x)) => (e, Err(x)),
        }
    }
}

// ------------------------------------------------------------ containers

pub fn s_map_new(d: DeS, emit: bool) -> MapS {
    let st = if emit { match s_peek_content(d) { Ok(p) => if p.contains_child_elements { Strat::ElementsAreDollarValue } else { Strat::TextOnly }, Err(_) => Strat::TextOnly } } else { Strat::ElementsAreMapEntries };
    MapS { de: d, stack_size: d.stack.len() as int, map_key: None, content_strategy: st, text_content: if st == Strat::TextOnly { Some(CowBufS { f0: lit!("") }) } else { None }, next_entry_is_dollarvalue: false }
}
/// An element shown as a map: the visitor's value, once the element has been left.
pub fn s_do_map(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, emit: bool) -> (DeS, Result<W, DeErr>) {
    match s_push(d) {
        (e, Err(x)) => (e, Err(x)),
        (e, Ok(_)) => {
            let v = call!(vis, Visit::Map(s_map_new(e, emit)));
            match v.1 { Err(x) => (v.0, Err(x)), Ok(w) => match s_pop(v.0) { (f, Err(x)) => (f, Err(x)), (f, Ok(_)) => (f, Ok(w)) } }
        },
    }
}
/// An element with nothing of interest in it.
pub fn s_skip_elt(d: DeS) -> (DeS, Result<(), DeErr>) {
    match s_push(d) { (e, Err(x)) => (e, Err(x)), (e, Ok(_)) => match s_pop(e) { (f, Err(x)) => (f, Err(x)), (f, Ok(_)) => (f, Ok(())) } }
}
/// Bounds the forwarding between kinds of values.
pub fn s_any_size(d: DeS) -> int { if d.events.len() == 0 { 1 } else { match d.events[0] { Ev::Open(_) => 3, _ => 1 } } }
pub fn s_unit(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    match d.accumulated_text {
        Some(_) => (DeS { accumulated_text: None, ..d }, call!(vis, Visit::Unit).1),
        None => if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) } else {
            match d.events[0] {
                Ev::Open(_) => match s_skip_elt(d) { (e, Ok(_)) => (e, call!(vis, Visit::Unit).1), (e, Err(x)) => (e, Err(x)) },
                Ev::Attr(_, _) => match s_advance(d) { (e, Ok(_)) => (e, call!(vis, Visit::Unit).1), (e, Err(x)) => (e, Err(x)) },
                _ => (d, Err(DeErr::ExpectedStartTag)),
            }
        },
    }
}
pub fn s_de_any(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    match d.accumulated_text {
        Some(_) => s_str(d, vis),
        None => if d.events.len() == 0 { (d, Err(DeErr::UnexpectedEof)) } else {
            match d.events[0] {
                Ev::Open(_) => match s_peek_content(d) {
                    Err(x) => (d, Err(x)),
                    Ok(c) =>
                        if c.contains_child_elements || c.contains_attributes { s_do_map(d, vis, !c.contains_child_elements) }
                        else if c.contains_text { s_str(d, vis) }
                        else { s_unit(d, vis) },
                },
                Ev::Attr(_, _) => s_str(d, vis),
                _ => (d, Err(DeErr::ExpectedStartTag)),
            }
        },
    }
}
pub fn s_seq(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    let attr = if d.events.len() == 0 { false } else { match d.events[0] { Ev::Attr(_, _) => true, _ => false } };
    if attr { (d, Err(DeErr::ExpectedStartTag)) }
    else { call!(vis, Visit::Seq(SeqS { de: DeS { map_key: None, ..d }, stack_size: d.stack.len() as int, tag_name: d.map_key })) }
}
/// The element at the cursor is the one the map entry is named after.
pub fn s_within(d: DeS) -> bool {
    match d.map_key { None => false, Some(k) => if d.events.len() == 0 { false } else { match d.events[0] { Ev::Open(n) => n == k, _ => false } } }
}
pub fn s_enum(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (DeS, Result<W, DeErr>) {
    if !s_within(d) { call!(vis, Visit::Enum(EnumS { de: d, use_tag_name_for_variant: true })) }
    else {
        match s_peek_content(d) {
            Err(x) => (d, Err(x)),
            Ok(c) =>
                if !c.contains_child_elements { call!(vis, Visit::Enum(EnumS { de: d, use_tag_name_for_variant: false })) }
                else {
                    match s_push(d) {
                        (e, Err(x)) => (e, Err(x)),
                        (e, Ok(_)) => match s_to_content(DeS { map_key: None, ..e }) {
                            (f, Err(x)) => (f, Err(x)),
                            (f, Ok(_)) => {
                                let v = call!(vis, Visit::Enum(EnumS { de: f, use_tag_name_for_variant: true }));
                                match v.1 { Err(x) => (v.0, Err(x)), Ok(w) => match s_pop(v.0) { (g, Err(x)) => (g, Err(x)), (g, Ok(_)) => (g, Ok(w)) } }
                            },
                        },
                    }
                },
        }
    }
}

// --------------------------------------------------- maps, entry by entry

/// No child element before the end.
pub fn s_flat(evs: Seq<Ev>) -> bool {
    decreases!(evs.len());
    if evs.len() == 0 { true } else {
        match evs[0] { Ev::Open(_) => false, Ev::End(_) => true, Ev::XmlClose => true, _ => s_flat(evs.skip(1)) }
    }
}
pub fn s_some(r: Result<W, DeErr>) -> Result<Option<W>, DeErr> { match r { Ok(w) => Ok(Some(w)), Err(x) => Err(x) } }
pub fn m_key(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> Result<MapS, (MapS, Result<Option<W>, DeErr>)> {
    decreases!(m.de.events.len());
    if m.de.events.len() == 0 { Err((m, Err(DeErr::UnexpectedEof))) } else {
        match m.de.events[0] {
            Ev::End(_) => if m.text_content.is_some() { Err((MapS { next_entry_is_dollarvalue: true, map_key: Some(lit!("$value")), ..m }, s_some(call!(seed, SeedIn::Key(lit!("$value"))).1))) } else { Err((m, Ok(None))) },
            Ev::XmlClose => if m.text_content.is_some() { Err((MapS { next_entry_is_dollarvalue: true, map_key: Some(lit!("$value")), ..m }, s_some(call!(seed, SeedIn::Key(lit!("$value"))).1))) } else { Err((m, Ok(None))) },
            Ev::Attr(n, _) => Err((m, s_some(call!(seed, SeedIn::Key(n)).1))),
            Ev::Close => match s_advance(m.de) {
                (e, Err(x)) => Err((MapS { de: e, ..m }, Err(x))),
                (e, Ok(_)) => if e.events.len() < m.de.events.len() { m_key(MapS { de: e, ..m }, seed) } else { Ok(m) },
            },
            Ev::Open(n) => match m.content_strategy {
                Strat::ElementsAreMapEntries => Err((MapS { map_key: Some(n), ..m }, s_some(call!(seed, SeedIn::Key(n)).1))),
                Strat::ElementsAreDollarValue => Err((m, s_some(call!(seed, SeedIn::Key(lit!("$value"))).1))),
                Strat::TextOnly => Ok(m),
            },
            Ev::Chars(t) => match s_advance(m.de) {
                (e, Err(x)) => Err((MapS { de: e, ..m }, Err(x))),
                (e, Ok(_)) => {
                    let tc = match m.text_content { Some(c) => Some(CowBufS { f0: cat!(c.f0, t) }), None => None };
                    if e.events.len() < m.de.events.len() { m_key(MapS { de: e, text_content: tc, ..m }, seed) } else { Ok(m) }
                },
            },
            Ev::Pi(p) => Err((m, Err(DeErr::Unsupported(Ev::Pi(p))))),
            Ev::Decl(k, b) => Err((m, Err(DeErr::Unsupported(Ev::Decl(k, b))))),
            Ev::Section(k, b) => Err((m, Err(DeErr::Unsupported(Ev::Section(k, b))))),
        }
    }
}
pub fn s_key(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> (MapS, Result<Option<W>, DeErr>) {
    match m_key(m, seed) { Err(x) => x, Ok(n) => (n, Ok(None)) }
}
pub fn s_value(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> (MapS, Result<W, DeErr>) {
    if m.next_entry_is_dollarvalue {
        let t = match m.text_content { Some(c) => c.f0, None => lit!("") };
        let v = call!(seed, SeedIn::De(DeS { accumulated_text: Some(t), ..m.de }));
        match v.1 {
            Err(x) => (MapS { de: v.0, text_content: None, ..m }, Err(x)),
            Ok(w) => (MapS { de: DeS { accumulated_text: None, ..v.0 }, text_content: None, ..m }, Ok(w)),
        }
    } else {
        let attr = if m.de.events.len() == 0 { false } else { match m.de.events[0] { Ev::Attr(_, _) => true, _ => false } };
        if attr { let v = call!(seed, SeedIn::De(m.de)); (MapS { de: v.0, ..m }, v.1) }
        else {
            let v = call!(seed, SeedIn::De(DeS { map_key: m.map_key, ..m.de }));
            match v.1 {
                Err(x) => (MapS { de: v.0, map_key: None, ..m }, Err(x)),
                Ok(w) => (MapS { de: DeS { map_key: None, ..v.0 }, map_key: None, ..m }, Ok(w)),
            }
        }
    }
}
pub fn m_elem(s: SeqS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> Result<SeqS, (SeqS, Result<Option<W>, DeErr>)> {
    decreases!(s.de.events.len());
    if s.de.events.len() == 0 { Err((s, Err(DeErr::UnexpectedEof))) } else {
        match s.de.events[0] {
            Ev::Open(n) => {
                let other = match s.tag_name { Some(t) => n != t, None => false };
                if other { Err((s, Ok(None))) }
                else { let v = call!(seed, SeedIn::De(DeS { map_key: s.tag_name, ..s.de })); Err((SeqS { de: v.0, ..s }, s_some(v.1))) }
            },
            Ev::Chars(t) => if t.len() > 0 { Err((s, Ok(None))) } else {
                match s_advance(s.de) {
                    (e, Err(x)) => Err((SeqS { de: e, ..s }, Err(x))),
                    (e, Ok(_)) => if e.events.len() < s.de.events.len() { m_elem(SeqS { de: e, ..s }, seed) } else { Ok(s) },
                }
            },
            _ => Err((s, Ok(None))),
        }
    }
}
pub fn s_elem(s: SeqS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> (SeqS, Result<Option<W>, DeErr>) {
    match m_elem(s, seed) { Err(x) => x, Ok(n) => (n, Ok(None)) }
}

// ----------------------------------------------------------------- enums

pub fn s_variant(e: EnumS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> (EnumS, Result<(W, EnumS), DeErr>) {
    if e.use_tag_name_for_variant {
        if e.de.events.len() == 0 { (e, Err(DeErr::ExpectedStartTag)) } else {
            match e.de.events[0] {
                Ev::Open(n) => (e, match call!(seed, SeedIn::Key(n)).1 { Ok(w) => Ok((w, e)), Err(x) => Err(x) }),
                _ => (e, Err(DeErr::ExpectedStartTag)),
            }
        }
    } else {
        let v = call!(seed, SeedIn::De(e.de));
        let f = EnumS { de: v.0, ..e };
        (f, match v.1 { Ok(w) => Ok((w, f)), Err(x) => Err(x) })
    }
}
pub fn s_in(e: EnumS, r: (DeS, Result<W, DeErr>)) -> (EnumS, Result<W, DeErr>) { (EnumS { de: r.0, ..e }, r.1) }
pub fn s_unit_variant(e: EnumS) -> (EnumS, Result<(), DeErr>) {
    if e.use_tag_name_for_variant { match s_skip_elt(e.de) { (d, Err(x)) => (EnumS { de: d, ..e }, Err(x)), (d, Ok(_)) => (EnumS { de: d, ..e }, Ok(())) } } else { (e, Ok(())) }
}
pub fn s_newtype_variant(e: EnumS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> (EnumS, Result<W, DeErr>) {
    if !e.use_tag_name_for_variant { (e, Err(DeErr::Message)) } else {
        match s_peek_content(e.de) {
            Err(x) => (e, Err(x)),
            Ok(c) => s_in(e,
                if !c.contains_child_elements { call!(seed, SeedIn::De(e.de)) }
                else {
                    match s_push(e.de) {
                        (d, Err(x)) => (d, Err(x)),
                        (d, Ok(_)) => match s_to_content(d) {
                            (f, Err(x)) => (f, Err(x)),
                            (f, Ok(_)) => {
                                let v = call!(seed, SeedIn::De(f));
                                match v.1 { Err(x) => (v.0, Err(x)), Ok(w) => match s_pop(v.0) { (g, Err(x)) => (g, Err(x)), (g, Ok(_)) => (g, Ok(w)) } }
                            },
                        },
                    }
                }),
        }
    }
}
pub fn s_tuple_variant(e: EnumS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (EnumS, Result<W, DeErr>) {
    if !e.use_tag_name_for_variant { (e, Err(DeErr::Message)) }
    else if e.de.events.len() == 0 { (e, Err(DeErr::ExpectedStartTag)) }
    else {
        match e.de.events[0] {
            Ev::Open(n) => s_in(e, s_seq(DeS { map_key: Some(n), ..e.de }, vis)),
            _ => (e, Err(DeErr::ExpectedStartTag)),
        }
    }
}
pub fn s_struct_variant(e: EnumS, emit: bool, vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> (EnumS, Result<W, DeErr>) {
    if !e.use_tag_name_for_variant { (e, Err(DeErr::Message)) } else { s_in(e, s_do_map(e.de, vis, emit)) }
}
