/// How the target type deserializes itself.
pub uninterp spec fn x_deserialize(s: SeedIn) -> (DeS, Result<W, DeErr>);
// Deserialization (src/de).

/// Leaving an element: the stack loses exactly its top, and what is left of the events is what
/// follows the element's own end.
pub broadcast proof fn l_pop(d: DeS)
  requires d.stack.len() > 0
  ensures (#[trigger] s_pop(d)).1 is Ok ==> s_pop(d).0.stack == d.stack.drop_last() && s_pop(d).0.events.len() < d.events.len()
      && s_end(1, d.events) == Some(s_pop(d).0.events)
      && s_pop(d).0.map_key == d.map_key && s_pop(d).0.accumulated_text == d.accumulated_text
  decreases d.events.len()
{
  if d.events.len() > 0 {
    let r = DeS { events: d.events.skip(1), ..d };
    match d.events[0] {
      Ev::Open(name) => {
        let p = DeS { stack: d.stack.push(name), ..r };
        l_pop(p);
        assert(p.stack.drop_last() =~= d.stack);
        let e = s_pop(p).0;
        if s_pop(p).1 is Ok { l_pop(e); l_end_split(1, 1, r.events); }
      }
      Ev::End(_) => { l_end0(r.events); }
      Ev::XmlClose => { l_end0(r.events); }
      _ => { l_pop(r); }
    }
  }
}
pub proof fn l_end0(evs: Seq<Ev>) ensures s_end(0, evs) == Some(evs) { reveal_with_fuel(s_end, 2); }
/// Going out `a + b` levels is going out `a`, then `b`.
pub proof fn l_end_split(a: int, b: int, evs: Seq<Ev>)
  requires a >= 0, b >= 0
  ensures s_end(a + b, evs) == match s_end(a, evs) { Some(r) => s_end(b, r), None => None }
  decreases evs.len()
{
  if a > 0 && evs.len() > 0 {
    match evs[0] {
      Ev::Open(_) => { l_end_split(a + 1, b, evs.skip(1)); assert((a + 1) + b == (a + b) + 1); }
      Ev::End(_) => { l_end_split(a - 1, b, evs.skip(1)); assert((a - 1) + b == (a + b) - 1); }
      Ev::XmlClose => { l_end_split(a - 1, b, evs.skip(1)); assert((a - 1) + b == (a + b) - 1); }
      _ => { l_end_split(a, b, evs.skip(1)); }
    }
  }
}

/// The deserializer a visitor or seed is given.
pub open spec fn v_de(x: Visit) -> Option<DeS> {
  match x {
    Visit::Some(d) => Some(d), Visit::Newtype(d) => Some(d),
    Visit::Map(m) => Some(m.de), Visit::Seq(s) => Some(s.de), Visit::Enum(e) => Some(e.de),
    _ => None,
  }
}
pub open spec fn sd_de(x: SeedIn) -> Option<DeS> { match x { SeedIn::De(d) => Some(d), SeedIn::Key(_) => None } }
pub open spec fn suffix(a: Seq<Ev>, b: Seq<Ev>) -> bool { b.len() <= a.len() && b == a.skip(a.len() - b.len()) }
/// `b` is at the same depth as `a`, further on, and has not gone past the end of the element
/// `a` is in.
pub open spec fn lev(a: DeS, b: DeS) -> bool {
  b.stack == a.stack && s_end(1, b.events) == s_end(1, a.events) && suffix(a.events, b.events)
}
/// ... and an attribute is consumed alone or not at all.
pub open spec fn lev1(a: DeS, b: DeS) -> bool {
  lev(a, b) && (a.events.len() > 0 && a.events[0] is Attr ==> b.events == a.events || b.events == a.events.skip(1))
}
/// What is assumed of visitors and seeds: given a deserializer, they hand it back, on success,
/// at the level they got it. The lemmas `g_*` show that every operation they can perform on it
/// has this property.
pub open spec fn vis_ok(f: Fun<Visit, (DeS, Result<W, DeErr>)>) -> bool {
  forall|x: Visit| (#[trigger] f(x)).1 is Ok ==> match v_de(x) { Some(d) => if x is Map { lev(d, f(x).0) } else { lev1(d, f(x).0) }, None => true }
}
pub open spec fn seed_ok(f: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> bool {
  forall|x: SeedIn| (#[trigger] f(x)).1 is Ok ==> match sd_de(x) { Some(d) => lev1(d, f(x).0), None => true }
}
/// Entering an element.
pub broadcast proof fn l_push(d: DeS)
  ensures (#[trigger] s_push(d)).1 is Ok ==> d.events.len() > 0 && d.events[0] is Open && s_push(d).0.events == d.events.skip(1)
      && s_push(d).0.stack.len() == d.stack.len() + 1 && s_push(d).0.stack.drop_last() == d.stack && s_push(d).0.stack.len() > 0
      && s_push(d).0.accumulated_text == d.accumulated_text && s_push(d).0.map_key == d.map_key
{
  if d.events.len() > 0 { match d.events[0] { Ev::Open(n) => { assert(d.stack.push(n).drop_last() =~= d.stack); } _ => {} } }
}
/// Going to the content of an element stays in it.
pub broadcast proof fn l_content(d: DeS)
  ensures (#[trigger] s_to_content(d)).1 is Ok ==> lev(d, s_to_content(d).0)
    && s_to_content(d).0.accumulated_text == d.accumulated_text && s_to_content(d).0.map_key == d.map_key
  decreases d.events.len()
{
  reveal_with_fuel(s_end, 2);
  l_lev_refl(d, d);
  if d.events.len() > 0 { let a = s_advance(d); if a.1 is Ok { l_content(a.0); l_evs_skip(d.events, 1); if s_to_content(a.0).1 is Ok { l_evs_trans(d.events, a.0.events, s_to_content(a.0).0.events); } } }
}
/// Reading a key ends: the loop is only left with an answer.
pub broadcast proof fn l_key(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires m.content_strategy != Strat::TextOnly || s_flat(m.de.events)
  ensures (#[trigger] m_key(m, seed)) is Err
  decreases m.de.events.len()
{
  if m.de.events.len() > 0 {
    let e = s_advance(m.de).0;
    match m.de.events[0] {
      Ev::Close => { if s_advance(m.de).1 is Ok { l_key(MapS { de: e, ..m }, seed); } }
      Ev::Chars(t) => {
        let tc = match m.text_content { Some(c) => Some(CowBufS { f0: c.f0 + t }), None => None };
        if s_advance(m.de).1 is Ok { l_key(MapS { de: e, text_content: tc, ..m }, seed); }
      }
      _ => {}
    }
  }
}
pub broadcast proof fn l_elem(s: SeqS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  ensures (#[trigger] m_elem(s, seed)) is Err
  decreases s.de.events.len()
{
  if s.de.events.len() > 0 { if s_advance(s.de).1 is Ok { match s.de.events[0] { Ev::Chars(_) => l_elem(SeqS { de: s_advance(s.de).0, ..s }, seed), _ => {} } } }
}

// ------------------------------------------------------- assume-guarantee

pub proof fn l_evs_skip(a: Seq<Ev>, n: int) requires 0 <= n <= a.len() ensures suffix(a, a.skip(n)) {}
pub proof fn l_evs_trans(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>)
  requires suffix(a, b), suffix(b, c)
  ensures suffix(a, c)
{
  assert(c =~= a.skip(a.len() - c.len()));
}
pub proof fn l_end_suffix(k: int, evs: Seq<Ev>)
  requires s_end(k, evs) is Some
  ensures suffix(evs, s_end(k, evs)->0), k > 0 ==> (s_end(k, evs)->0).len() < evs.len()
  decreases evs.len()
{
  if k > 0 {
    let r = evs.skip(1);
    l_evs_skip(evs, 1);
    match evs[0] {
      Ev::Open(_) => { l_end_suffix(k + 1, r); l_evs_trans(evs, r, s_end(k + 1, r)->0); }
      Ev::End(_) => { l_end_suffix(k - 1, r); l_evs_trans(evs, r, s_end(k - 1, r)->0); }
      Ev::XmlClose => { l_end_suffix(k - 1, r); l_evs_trans(evs, r, s_end(k - 1, r)->0); }
      _ => { l_end_suffix(k, r); l_evs_trans(evs, r, s_end(k, r)->0); }
    }
  } else { l_evs_skip(evs, 0); assert(evs.skip(0) =~= evs); }
}
/// One element, from its start tag to its own end, is consumed: the level is kept.
pub proof fn l_element(d: DeS, e: DeS)
  requires d.events.len() > 0, d.events[0] is Open, e.stack == d.stack, s_end(1, d.events.skip(1)) == Some(e.events)
  ensures lev1(d, e)
{
  let r = d.events.skip(1);
  l_end_split(1, 1, r);
  l_end_suffix(1, r);
  l_evs_skip(d.events, 1);
  l_evs_trans(d.events, r, e.events);
  reveal_with_fuel(s_end, 2);
}
pub proof fn l_lev_refl(d: DeS, e: DeS) requires e.stack == d.stack, e.events == d.events ensures lev1(d, e) { assert(d.events.skip(0) =~= d.events); }
/// Entering an element, staying in it, and leaving it consumes exactly that element.
pub proof fn l_enter_leave(d: DeS, v: DeS)
  requires s_push(d).1 is Ok, lev(s_push(d).0, v), s_pop(v).1 is Ok
  ensures s_end(1, d.events.skip(1)) == Some(s_pop(v).0.events), s_pop(v).0.stack == d.stack, lev1(d, s_pop(v).0)
{
  l_push(d); l_pop(v);
  l_element(d, s_pop(v).0);
}
pub proof fn l_advance(d: DeS)
  requires d.events.len() > 0, !(d.events[0] is Open), !(d.events[0] is End), !(d.events[0] is XmlClose)
  ensures s_advance(d).0.events == d.events.skip(1) || s_advance(d).1 is Err, s_advance(d).1 is Ok ==> lev1(d, s_advance(d).0)
{
  l_evs_skip(d.events, 1);
  reveal_with_fuel(s_end, 2);
}

/// The text of what is left of the innermost `k` elements.
pub open spec fn s_inner(k: int, evs: Seq<Ev>) -> Str
  decreases evs.len()
{
  if k <= 0 || evs.len() == 0 { seq![] } else {
    match evs[0] {
      Ev::Open(_) => s_inner(k + 1, evs.skip(1)),
      Ev::End(_) => s_inner(k - 1, evs.skip(1)),
      Ev::XmlClose => s_inner(k - 1, evs.skip(1)),
      Ev::Chars(t) => t + s_inner(k, evs.skip(1)),
      _ => s_inner(k, evs.skip(1)),
    }
  }
}
/// Collecting text collects exactly that, and stops at the element's own end.
pub proof fn l_text(d: DeS, text: CowBufS, start: int)
  requires d.stack.len() > start, start >= 0
  ensures m_text(d, text, start) is Err ==> (m_text(d, text, start)->Err_0).2 is Err, m_text(d, text, start) is Ok ==> {
    let r = (m_text(d, text, start)->Ok_0);
    let k = d.stack.len() - start;
    r.1.f0 == text.f0 + s_inner(k, d.events) && s_end(k, d.events) == Some(r.0.events) && r.0.stack == d.stack.take(start)
  }
  decreases d.events.len()
{
  let k = d.stack.len() - start;
  if d.events.len() > 0 {
    let r = d.events.skip(1);
    match d.events[0] {
      Ev::Open(n) => { let p = s_push(d); l_push(d); if p.1 is Ok { l_text(p.0, text, start); assert(p.0.stack.take(start) =~= d.stack.take(start)); } }
      Ev::End(_) => {
        let p = s_pop(d);
        if p.1 is Ok {
          assert(p.0.stack.take(start) =~= d.stack.take(start));
          if p.0.stack.len() == start { l_end0(r); assert(p.0.stack =~= d.stack.take(start)); assert(s_inner(0, r) =~= seq![]); assert(text.f0 + s_inner(k, d.events) =~= text.f0); }
          else { l_text(p.0, text, start); }
        }
      }
      Ev::XmlClose => {
        let p = s_pop(d);
        if p.1 is Ok {
          assert(p.0.stack.take(start) =~= d.stack.take(start));
          if p.0.stack.len() == start { l_end0(r); assert(p.0.stack =~= d.stack.take(start)); assert(s_inner(0, r) =~= seq![]); assert(text.f0 + s_inner(k, d.events) =~= text.f0); }
          else { l_text(p.0, text, start); }
        }
      }
      Ev::Chars(t) => {
        let a = s_advance(d);
        let all = CowBufS { f0: text.f0 + t };
        if a.1 is Ok { l_text(a.0, all, start); assert((text.f0 + t) + s_inner(k, r) =~= text.f0 + (t + s_inner(k, r))); }
      }
      _ => { let a = s_advance(d); if a.1 is Ok { l_text(a.0, text, start); } }
    }
  }
}
/// C16: the text of an element is all the character data in it, in order, and reading it
/// consumes exactly that element; an attribute is read as its value.
pub proof fn l_consume(d: DeS)
  requires s_consume(d).1 is Ok
  ensures lev1(d, s_consume(d).0), match d.accumulated_text {
    Some(t) => s_consume(d).1 == Ok::<Str, DeErr>(t) && s_consume(d).0.events == d.events,
    None => d.events.len() > 0 && match d.events[0] {
      Ev::Attr(_, v) => s_consume(d).1 == Ok::<Str, DeErr>(match v { Some(x) => x, None => seq![] }) && s_consume(d).0.events == d.events.skip(1),
      Ev::Open(_) => s_consume(d).1 == Ok::<Str, DeErr>(s_inner(1, d.events.skip(1))) && s_end(1, d.events.skip(1)) == Some(s_consume(d).0.events),
      _ => false,
    },
  }
{
  match d.accumulated_text {
    Some(_) => { l_lev_refl(d, s_consume(d).0); }
    None => {
      match d.events[0] {
        Ev::Attr(_, _) => { l_advance(d); }
        _ => {
          l_push(d);
          let e = s_push(d).0;
          assert(s_push(d).1 is Ok);
          assert(d.events[0] is Open);
          l_text(e, CowBufS { f0: seq![] }, d.stack.len() as int);
          assert(e.stack.take(d.stack.len() as int) =~= d.stack);
          assert(seq![] + s_inner(1, e.events) =~= s_inner(1, e.events));
          l_element(d, s_consume(d).0);
        }
      }
    }
  }
}
// every operation on a deserializer
pub proof fn g_scalar(d: DeS, k: int, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  ensures s_str(d, vis).1 is Ok ==> lev1(d, s_str(d, vis).0), s_num(k, d, vis).1 is Ok ==> lev1(d, s_num(k, d, vis).0), s_bool(d, vis).1 is Ok ==> lev1(d, s_bool(d, vis).0)
{
  if s_consume(d).1 is Ok { l_consume(d); }
  if d.events.len() > 0 && s_flag(d.events[0]) { l_advance(d); }
}
pub proof fn g_do_map(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, emit: bool)
  requires vis_ok(vis)
  ensures s_do_map(d, vis, emit).1 is Ok ==> lev1(d, s_do_map(d, vis, emit).0) && d.events.len() > 0 && d.events[0] is Open
      && s_end(1, d.events.skip(1)) == Some(s_do_map(d, vis, emit).0.events)
{
  let e = s_push(d);
  l_push(d);
  if e.1 is Ok { let v = vis(Visit::Map(s_map_new(e.0, emit))); if v.1 is Ok && s_pop(v.0).1 is Ok { l_enter_leave(d, v.0); } }
}
pub proof fn g_skip(d: DeS)
  ensures s_skip_elt(d).1 is Ok ==> lev1(d, s_skip_elt(d).0) && d.events.len() > 0 && d.events[0] is Open && s_end(1, d.events.skip(1)) == Some(s_skip_elt(d).0.events)
{
  let e = s_push(d);
  l_push(d);
  if e.1 is Ok && s_pop(e.0).1 is Ok { l_lev_refl(e.0, e.0); l_enter_leave(d, e.0); }
}
pub proof fn g_unit_any(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires vis_ok(vis)
  ensures s_unit(d, vis).1 is Ok ==> lev1(d, s_unit(d, vis).0), s_de_any(d, vis).1 is Ok ==> lev1(d, s_de_any(d, vis).0)
{
  l_lev_refl(d, DeS { accumulated_text: None, ..d });
  g_scalar(d, 0, vis); g_skip(d); g_do_map(d, vis, true); g_do_map(d, vis, false);
  if d.events.len() > 0 && d.events[0] is Attr { l_advance(d); }
}
pub proof fn g_seq(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires vis_ok(vis)
  ensures s_seq(d, vis).1 is Ok ==> lev1(d, s_seq(d, vis).0)
{
}
pub proof fn g_enum(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires vis_ok(vis)
  ensures s_enum(d, vis).1 is Ok ==> lev1(d, s_enum(d, vis).0)
{
  if s_within(d) && s_peek_content(d) is Ok && (s_peek_content(d)->Ok_0).contains_child_elements {
    l_push(d);
    let e = s_push(d);
    if e.1 is Ok {
      let e1 = DeS { map_key: None, ..e.0 };
      l_content(e1);
      let f = s_to_content(e1);
      if f.1 is Ok {
        let v = vis(Visit::Enum(EnumS { de: f.0, use_tag_name_for_variant: true }));
        if v.1 is Ok && s_pop(v.0).1 is Ok { l_evs_trans(e.0.events, f.0.events, v.0.events); l_enter_leave(d, v.0); }
      }
    }
  }
}
// the content of maps

pub proof fn l_flat_lev(a: Seq<Ev>, b: Seq<Ev>)
  requires s_flat(a), suffix(a, b), s_end(1, a) == s_end(1, b)
  ensures s_flat(b), a.len() > 0 && (a[0] is End || a[0] is XmlClose) ==> a == b
  decreases a.len()
{
  if b.len() == a.len() { assert(a.skip(0) =~= a); }
  else {
    let r = a.skip(1);
    assert(b =~= r.skip(r.len() - b.len()));
    reveal_with_fuel(s_end, 2);
    match a[0] {
      Ev::End(_) => { l_end_suffix(1, b); }
      Ev::XmlClose => { l_end_suffix(1, b); }
      _ => { l_flat_lev(r, b); }
    }
  }
}
pub open spec fn at_end(evs: Seq<Ev>) -> bool { evs.len() > 0 && (evs[0] is End || evs[0] is XmlClose) }
/// What holds of a map between two operations on it: `total` is all the text of the element.
pub open spec fn map_inv(m: MapS, total: Str) -> bool {
  &&& m.content_strategy == Strat::TextOnly ==> s_flat(m.de.events)
  &&& m.next_entry_is_dollarvalue ==> at_end(m.de.events)
  &&& m.text_content is Some ==> m.content_strategy == Strat::TextOnly && (m.text_content->0).f0 + s_inner(1, m.de.events) == total
}
/// ... and after a key has been read, until its value is.
pub open spec fn map_keyed(m: MapS) -> bool {
  m.de.events.len() > 0 && (m.de.events[0] is Attr || m.de.events[0] is Open || at_end(m.de.events) && m.next_entry_is_dollarvalue && m.text_content is Some)
}
pub proof fn l_peek_flat(attrs: bool, text: bool, evs: Seq<Ev>, i: int)
  requires 0 <= i <= evs.len(), i == 0 ==> evs.len() == 0 || !(evs[0] is Open), match m_peek(attrs, text, evs, i) { Ok(_) => true, Err(x) => !x.2 }
  ensures s_flat(evs.skip(i))
  decreases evs.len() - i
{
  if i < evs.len() {
    assert(evs.skip(i)[0] == evs[i]);
    assert(evs.skip(i).skip(1) =~= evs.skip(i + 1));
    match evs[i] {
      Ev::Open(_) => {}
      Ev::End(_) => {}
      Ev::XmlClose => {}
      Ev::Attr(_, _) => { l_peek_flat(true, text, evs, i + 1); }
      Ev::Chars(t) => { l_peek_flat(attrs, text || t.len() > 0, evs, i + 1); }
      _ => { l_peek_flat(attrs, text, evs, i + 1); }
    }
  }
}
/// A map starts with the invariant. (In a parsed fragment a start tag is followed by one of its
/// attributes or its end, never by another start tag.)
pub proof fn g_map_new(d: DeS, emit: bool)
  requires d.events.len() == 0 || !(d.events[0] is Open)
  ensures map_inv(s_map_new(d, emit), s_inner(1, d.events)), s_map_new(d, emit).de == d
{
  if emit && s_map_new(d, emit).content_strategy == Strat::TextOnly { l_peek_flat(false, false, d.events, 0); assert(d.events.skip(0) =~= d.events); }
  assert(seq![] + s_inner(1, d.events) =~= s_inner(1, d.events));
}
pub proof fn g_key(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>, total: Str)
  requires map_inv(m, total)
  ensures s_key(m, seed).1 is Ok ==> lev(m.de, s_key(m, seed).0.de) && map_inv(s_key(m, seed).0, total)
    && ((s_key(m, seed).1->Ok_0) is Some ==> map_keyed(s_key(m, seed).0))
  decreases m.de.events.len()
{
  l_key(m, seed);
  l_lev_refl(m.de, m.de);
  reveal_with_fuel(s_end, 2);
  reveal_with_fuel(s_inner, 2);
  if m.de.events.len() > 0 {
    let e = s_advance(m.de).0;
    match m.de.events[0] {
      Ev::Close => { if s_advance(m.de).1 is Ok { let n = MapS { de: e, ..m }; l_evs_skip(m.de.events, 1); g_key(n, seed, total); if s_key(n, seed).1 is Ok { l_evs_trans(m.de.events, e.events, s_key(n, seed).0.de.events); } } }
      Ev::Chars(t) => {
        let tc = match m.text_content { Some(c) => Some(CowBufS { f0: c.f0 + t }), None => None };
        let n = MapS { de: e, text_content: tc, ..m };
        if s_advance(m.de).1 is Ok {
          l_evs_skip(m.de.events, 1);
          if m.text_content is Some { assert(((m.text_content->0).f0 + t) + s_inner(1, e.events) =~= (m.text_content->0).f0 + (t + s_inner(1, e.events))); }
          g_key(n, seed, total);
          if s_key(n, seed).1 is Ok { l_evs_trans(m.de.events, e.events, s_key(n, seed).0.de.events); }
        }
      }
      _ => {}
    }
  }
}
/// The value of an entry; the catch-all text entry is given all the text of the element (C16).
pub proof fn g_value(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>, total: Str)
  requires map_inv(m, total), map_keyed(m), seed_ok(seed)
  ensures s_value(m, seed).1 is Ok ==> lev(m.de, s_value(m, seed).0.de) && map_inv(s_value(m, seed).0, total),
    m.next_entry_is_dollarvalue && m.text_content is Some ==> (m.text_content->0).f0 == total
      && s_value(m, seed).1 == seed(SeedIn::De(DeS { accumulated_text: Some(total), ..m.de })).1
{
  reveal_with_fuel(s_end, 2);
  reveal_with_fuel(s_inner, 2);
  let n = s_value(m, seed).0;
  if m.next_entry_is_dollarvalue {
    if m.text_content is Some { assert((m.text_content->0).f0 + s_inner(1, m.de.events) =~= (m.text_content->0).f0); }
    if s_value(m, seed).1 is Ok {
      l_at_end_lev(m.de.events, n.de.events);
    }
  }
  if s_value(m, seed).1 is Ok && m.content_strategy == Strat::TextOnly { l_flat_lev(m.de.events, n.de.events); }
}
pub proof fn l_at_end_lev(a: Seq<Ev>, b: Seq<Ev>)
  requires at_end(a), suffix(a, b), s_end(1, a) == s_end(1, b)
  ensures a == b
{
  reveal_with_fuel(s_end, 2);
  if b.len() == a.len() { assert(a.skip(0) =~= a); } else { l_end_suffix(1, b); }
}
pub proof fn g_elem(s: SeqS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires seed_ok(seed)
  ensures s_elem(s, seed).1 is Ok ==> lev(s.de, s_elem(s, seed).0.de) && s_elem(s, seed).0.tag_name == s.tag_name
  decreases s.de.events.len()
{
  l_elem(s, seed);
  l_lev_refl(s.de, s.de);
  if s.de.events.len() > 0 {
    match s.de.events[0] {
      Ev::Chars(_) => {
        if s_advance(s.de).1 is Ok {
          let n = SeqS { de: s_advance(s.de).0, ..s };
          l_advance(s.de); g_elem(n, seed);
          if s_elem(n, seed).1 is Ok { l_evs_trans(s.de.events, n.de.events, s_elem(n, seed).0.de.events); }
        }
      }
      _ => {}
    }
  }
}
pub proof fn g_variant(e: EnumS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires seed_ok(seed)
  ensures s_variant(e, seed).1 is Ok ==> (s_variant(e, seed).1->Ok_0).1 == s_variant(e, seed).0 && lev1(e.de, s_variant(e, seed).0.de)
    && s_variant(e, seed).0.use_tag_name_for_variant == e.use_tag_name_for_variant
    && (e.use_tag_name_for_variant ==> s_variant(e, seed).0 == e)
{
  l_lev_refl(e.de, e.de);
}
pub proof fn g_variants(e: EnumS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, emit: bool)
  requires seed_ok(seed), vis_ok(vis)
  ensures
    s_unit_variant(e).1 is Ok ==> lev1(e.de, s_unit_variant(e).0.de),
    s_newtype_variant(e, seed).1 is Ok ==> lev1(e.de, s_newtype_variant(e, seed).0.de),
    s_tuple_variant(e, vis).1 is Ok ==> lev1(e.de, s_tuple_variant(e, vis).0.de),
    s_struct_variant(e, emit, vis).1 is Ok ==> lev1(e.de, s_struct_variant(e, emit, vis).0.de),
    !e.use_tag_name_for_variant ==> s_unit_variant(e).0 == e && s_newtype_variant(e, seed).1 is Err && s_tuple_variant(e, vis).1 is Err && s_struct_variant(e, emit, vis).1 is Err
{
  l_lev_refl(e.de, e.de);
  g_skip(e.de); g_do_map(e.de, vis, emit);
  if e.de.events.len() > 0 { match e.de.events[0] { Ev::Open(n) => g_seq(DeS { map_key: Some(n), ..e.de }, vis), _ => {} } }
  l_push(e.de);
  let p = s_push(e.de);
  if p.1 is Ok {
    l_content(p.0);
    let f = s_to_content(p.0);
    if f.1 is Ok {
      let v = seed(SeedIn::De(f.0));
      if v.1 is Ok && s_pop(v.0).1 is Ok { l_evs_trans(p.0.events, f.0.events, v.0.events); l_enter_leave(e.de, v.0); }
    }
  }
}

// ------------------------------------------------- which elements end well

/// Every end tag names the innermost open element, until only `base` elements are open.
pub open spec fn s_closes(stack: Seq<Str>, base: int, evs: Seq<Ev>) -> bool
  decreases evs.len()
{
  if stack.len() <= base { true } else if evs.len() == 0 { false } else {
    match evs[0] {
      Ev::Open(n) => s_closes(stack.push(n), base, evs.skip(1)),
      Ev::End(n) => n == stack.last() && s_closes(stack.drop_last(), base, evs.skip(1)),
      Ev::XmlClose => s_closes(stack.drop_last(), base, evs.skip(1)),
      _ => s_closes(stack, base, evs.skip(1)),
    }
  }
}
pub proof fn l_closes_split(stack: Seq<Str>, base: int, mid: int, evs: Seq<Ev>)
  requires 0 <= base <= mid <= stack.len()
  ensures s_closes(stack, base, evs) == (s_closes(stack, mid, evs) && s_end(stack.len() - mid, evs) is Some && s_closes(stack.take(mid), base, s_end(stack.len() - mid, evs)->0))
  decreases evs.len()
{
  if stack.len() > mid {
    if evs.len() > 0 {
      match evs[0] {
        Ev::Open(n) => { l_closes_split(stack.push(n), base, mid, evs.skip(1)); assert(stack.push(n).take(mid) =~= stack.take(mid)); }
        Ev::End(n) => { l_closes_split(stack.drop_last(), base, mid, evs.skip(1)); assert(stack.drop_last().take(mid) =~= stack.take(mid)); }
        Ev::XmlClose => { l_closes_split(stack.drop_last(), base, mid, evs.skip(1)); assert(stack.drop_last().take(mid) =~= stack.take(mid)); }
        _ => { l_closes_split(stack, base, mid, evs.skip(1)); }
      }
    }
  } else { l_end0(evs); assert(stack.take(mid) =~= stack); }
}
/// C15: skipping succeeds exactly when the element ends, with matching end tags all through.
pub proof fn l_pop_closes(d: DeS)
  requires d.stack.len() > 0
  ensures s_pop(d).1 is Ok <==> s_closes(d.stack, d.stack.len() - 1, d.events)
  decreases d.events.len()
{
  if d.events.len() > 0 {
    let r = d.events.skip(1);
    let b = d.stack.len() - 1;
    reveal_with_fuel(s_closes, 2);
    match d.events[0] {
      Ev::Open(n) => {
        let q = DeS { events: r, stack: d.stack.push(n), ..d };
        l_pop_closes(q);
        l_closes_split(q.stack, b, b + 1, r);
        assert(q.stack.take(b + 1) =~= d.stack);
        l_pop(q);
        assert(q.stack.drop_last() =~= d.stack);
        if s_pop(q).1 is Ok { l_pop_closes(s_pop(q).0); }
      }
      _ => { l_pop_closes(DeS { events: r, ..d }); }
    }
  }
}
pub proof fn l_skip_closes(d: DeS)
  requires s_push(d).1 is Ok
  ensures s_skip_elt(d).1 is Ok <==> s_closes(s_push(d).0.stack, d.stack.len() as int, d.events.skip(1))
{
  l_push(d); l_pop_closes(s_push(d).0);
}
/// Nothing that cannot be deserialized in what is left of the innermost `k` elements.
pub open spec fn s_clean(k: int, evs: Seq<Ev>) -> bool
  decreases evs.len()
{
  if k <= 0 { true } else if evs.len() == 0 { false } else {
    !s_unsup(evs[0]) && match evs[0] {
      Ev::Open(_) => s_clean(k + 1, evs.skip(1)),
      Ev::End(_) => s_clean(k - 1, evs.skip(1)),
      Ev::XmlClose => s_clean(k - 1, evs.skip(1)),
      _ => s_clean(k, evs.skip(1)),
    }
  }
}
/// C16: the text of a well-formed element is always read.
pub proof fn l_text_total(d: DeS, text: CowBufS, start: int)
  requires d.stack.len() > start, start >= 0, s_closes(d.stack, start, d.events), s_clean(d.stack.len() - start, d.events)
  ensures m_text(d, text, start) is Ok
  decreases d.events.len()
{
  let k = d.stack.len() - start;
  let r = d.events.skip(1);
  reveal_with_fuel(s_clean, 2);
  match d.events[0] {
    Ev::Open(n) => { l_text_total(s_push(d).0, text, start); }
    Ev::End(_) => { let p = s_pop(d); if p.0.stack.len() > start { l_text_total(p.0, text, start); } }
    Ev::XmlClose => { let p = s_pop(d); if p.0.stack.len() > start { l_text_total(p.0, text, start); } }
    Ev::Chars(t) => { l_text_total(s_advance(d).0, CowBufS { f0: text.f0 + t }, start); }
    _ => { l_text_total(s_advance(d).0, text, start); }
  }
}
pub proof fn l_consume_total(d: DeS)
  requires d.accumulated_text is None, s_push(d).1 is Ok, s_closes(s_push(d).0.stack, d.stack.len() as int, d.events.skip(1)), s_clean(1, d.events.skip(1))
  ensures s_consume(d).1 is Ok
{
  l_push(d); l_text_total(s_push(d).0, CowBufS { f0: seq![] }, d.stack.len() as int);
}

// ------------------------------------------------------------ flags and numbers

/// C20: the value of a boolean, as the rule states it.
pub open spec fn s_bool_rule(e: Ev, text: Str) -> Option<bool> { if s_flag(e) { Some(true) } else { s_truth(text) } }
pub proof fn l_bool(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires d.events.len() > 0, s_consume(d).1 is Ok, d.accumulated_text is None
  ensures s_bool(d, vis).1 == match s_bool_rule(d.events[0], s_consume(d).1->Ok_0) { Some(b) => vis(Visit::Bool(b)).1, None => Err(DeErr::Message) }
{
}
/// No text is both true and false, whatever the case of its letters.
pub proof fn l_truth(t: Str)
  ensures s_truth(t) == Some(true) <==> t == seq!['1'] || s_eq_nocase(t, seq!['t', 'r', 'u', 'e']),
    s_truth(t) == Some(false) <==> t == seq!['0'] || s_eq_nocase(t, seq!['f', 'a', 'l', 's', 'e'])
{
  assert(!s_eq_nocase(seq!['0'], seq!['t', 'r', 'u', 'e']));
  if s_eq_nocase(t, seq!['t', 'r', 'u', 'e']) { assert(t.len() == 4); }
  if s_eq_nocase(t, seq!['f', 'a', 'l', 's', 'e']) { assert(t.len() == 5); }
  if t == seq!['1'] { assert(t.len() == 1); assert(t[0] == '1'); }
  if t == seq!['0'] { assert(t.len() == 1); assert(t[0] == '0'); }
}
pub proof fn l_number(k: int, d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires s_consume(d).1 is Ok
  ensures match x_parse_num(k, s_consume(d).1->Ok_0) { Some(n) => s_num(k, d, vis).1 == vis(Visit::Num(k, n)).1, None => s_num(k, d, vis).1 is Err }
{
}
