// --------------------------------------------------------------- C15, C16
/// What follows once only `n` of the open elements are left: every tag in between pairs with its own.
pub open spec fn e_left(open: Seq<Str>, n: int, evs: Seq<Ev>) -> Option<Seq<Ev>>
  decreases evs.len()
{
  if open.len() <= n { Some(evs) } else if evs.len() == 0 { None } else {
    match evs[0] {
      Ev::Open(m) => e_left(open.push(m), n, evs.skip(1)),
      Ev::End(m) => if m == open.last() { e_left(open.drop_last(), n, evs.skip(1)) } else { None },
      Ev::XmlClose => e_left(open.drop_last(), n, evs.skip(1)),
      _ => e_left(open, n, evs.skip(1)),
    }
  }
}
/// All the character data of an event list, in order.
pub open spec fn e_text(evs: Seq<Ev>) -> Str
  decreases evs.len()
{
  if evs.len() == 0 { Seq::empty() } else { (match evs[0] { Ev::Chars(t) => t, _ => Seq::empty() }) + e_text(evs.skip(1)) }
}
/// The text between two places of the same list.
pub open spec fn e_between(evs: Seq<Ev>, rest: Seq<Ev>) -> Seq<Ev> { evs.take(evs.len() - rest.len()) }
pub proof fn l_left_in(open: Seq<Str>, n: int, evs: Seq<Ev>)
  requires 0 <= n
  ensures match e_left(open, n, evs) { Some(rest) => rest.len() <= evs.len() && rest == evs.skip(evs.len() - rest.len()) && (open.len() > n ==> rest.len() < evs.len()), None => true }
  decreases evs.len()
{
  if open.len() <= n { assert(evs.skip(0) =~= evs); } else if evs.len() > 0 {
    let t = evs.skip(1);
    match evs[0] {
      Ev::Open(m) => { l_left_in(open.push(m), n, t); }
      Ev::End(m) => { l_left_in(open.drop_last(), n, t); }
      Ev::XmlClose => { l_left_in(open.drop_last(), n, t); }
      _ => { l_left_in(open, n, t); }
    }
    match e_left(open, n, evs) { Some(rest) => { assert(t.skip(t.len() - rest.len()) =~= evs.skip(evs.len() - rest.len())); } None => {} }
  }
}
/// Leaving inner elements first leads to the same place.
pub proof fn l_left_step(open: Seq<Str>, n: int, m: int, evs: Seq<Ev>)
  requires 0 <= n <= m
  ensures match e_left(open, m, evs) { Some(mid) => e_left(open, n, evs) == (if m <= open.len() { e_left(open.take(m), n, mid) } else { e_left(open, n, mid) }), None => e_left(open, n, evs) is None }
  decreases evs.len()
{
  if open.len() <= m { if m == open.len() { assert(open.take(m) =~= open); } }
  else if evs.len() > 0 {
    let t = evs.skip(1);
    match evs[0] {
      Ev::Open(x) => { l_left_step(open.push(x), n, m, t); assert(open.push(x).take(m) =~= open.take(m)); }
      Ev::End(x) => { l_left_step(open.drop_last(), n, m, t); assert(open.drop_last().take(m) =~= open.take(m)); }
      Ev::XmlClose => { l_left_step(open.drop_last(), n, m, t); assert(open.drop_last().take(m) =~= open.take(m)); }
      _ => { l_left_step(open, n, m, t); }
    }
  }
}
pub proof fn l_text_step(evs: Seq<Ev>, rest: Seq<Ev>)
  requires evs.len() > 0, rest.len() < evs.len()
  ensures e_text(e_between(evs, rest)) == (match evs[0] { Ev::Chars(t) => t, _ => Seq::<char>::empty() }) + e_text(e_between(evs.skip(1), rest))
{
  let a = e_between(evs, rest);
  assert(a.skip(1) =~= e_between(evs.skip(1), rest));
  assert(a[0] == evs[0]);
}
/// C15: leaving an element takes exactly what is left of it, however deep the skipped content,
/// and fails exactly when its end is missing or some end tag in between is not its own element's.
pub proof fn t_leave_element(d: DeS)
  requires d.stack.len() > 0
  ensures match e_left(d.stack, d.stack.len() - 1, d.events) {
    Some(rest) => s_pop(d) == (DeS { events: rest, stack: d.stack.drop_last(), ..d }, Ok::<(), DeErr>(())),
    None => s_pop(d).1 is Err,
  }
  decreases d.events.len()
{
  let n = d.stack.len() - 1;
  if d.events.len() > 0 {
    let t = d.events.skip(1);
    let r = DeS { events: t, ..d };
    match d.events[0] {
      Ev::Open(m) => {
        let q = DeS { stack: d.stack.push(m), ..r };
        t_leave_element(q);
        l_left_step(q.stack, n, n + 1, t);
        l_left_in(q.stack, n + 1, t);
        assert(q.stack.take(n + 1) =~= d.stack); assert(q.stack.drop_last() =~= d.stack);
        match e_left(q.stack, n + 1, t) {
          Some(mid) => { let e = DeS { events: mid, stack: d.stack, ..d }; assert(s_pop(q).0 == e); t_leave_element(e); }
          None => {}
        }
      }
      Ev::End(m) => { assert(e_left(d.stack.drop_last(), n, t) == Some(t)); }
      Ev::XmlClose => { assert(e_left(d.stack.drop_last(), n, t) == Some(t)); }
      _ => { t_leave_element(r); }
    }
  }
}
/// The reader is still inside the same elements, at or after the place it was.
pub open spec fn e_inside(d: DeS, e: DeS) -> bool {
  &&& e.stack == d.stack
  &&& e.events.len() <= d.events.len()
  &&& forall|n: int| 0 <= n < d.stack.len() ==> #[trigger] e_left(e.stack, n, e.events) == e_left(d.stack, n, d.events)
}
/// What follows the element whose start tag is at the cursor.
pub open spec fn e_after(d: DeS) -> Option<Seq<Ev>> {
  if d.events.len() == 0 { None } else { match d.events[0] { Ev::Open(m) => e_left(d.stack.push(m), d.stack.len() as int, d.events.skip(1)), _ => None } }
}
/// Exactly the element at the cursor is behind the reader.
pub open spec fn e_one(d: DeS, e: DeS) -> bool { e.stack == d.stack && e_after(d) == Some(e.events) }
/// Having read exactly one element, the reader is inside what it was inside before.
pub proof fn l_one_inside(d: DeS, e: DeS)
  requires e_one(d, e)
  ensures e_inside(d, e), e.events.len() < d.events.len()
{
  match d.events[0] {
    Ev::Open(m) => {
      let t = d.events.skip(1);
      l_left_in(d.stack.push(m), d.stack.len() as int, t);
      assert(d.stack.push(m).take(d.stack.len() as int) =~= d.stack);
      assert forall|n: int| 0 <= n < d.stack.len() implies #[trigger] e_left(e.stack, n, e.events) == e_left(d.stack, n, d.events) by { l_left_step(d.stack.push(m), n, d.stack.len() as int, t); }
    }
    _ => {}
  }
}
pub proof fn l_inside_trans(a: DeS, b: DeS, c: DeS)
  requires e_inside(a, b), e_inside(b, c)
  ensures e_inside(a, c)
{
  assert forall|n: int| 0 <= n < a.stack.len() implies #[trigger] e_left(c.stack, n, c.events) == e_left(a.stack, n, a.events) by { assert(e_left(b.stack, n, b.events) == e_left(a.stack, n, a.events)); }
}
/// An event other than a tag is passed without leaving anything.
pub proof fn l_pass(d: DeS)
  requires d.events.len() > 0, !(d.events[0] is Open), !(d.events[0] is End), !(d.events[0] is XmlClose)
  ensures e_inside(d, DeS { events: d.events.skip(1), ..d })
{
  let e = DeS { events: d.events.skip(1), ..d };
  assert forall|n: int| 0 <= n < d.stack.len() implies #[trigger] e_left(e.stack, n, e.events) == e_left(d.stack, n, d.events) by {}
}
/// C15: an element of no interest is skipped whole, and nothing else with it.
pub proof fn t_skip_one(d: DeS)
  ensures s_skip_elt(d).1 is Ok ==> e_one(d, s_skip_elt(d).0)
{
  if d.events.len() > 0 {
    match d.events[0] {
      Ev::Open(m) => {
        let p = DeS { events: d.events.skip(1), stack: d.stack.push(m), ..d };
        t_leave_element(p);
        assert(p.stack.drop_last() =~= d.stack);
        assert(s_push(d).1 is Ok ==> s_push(d).0 == p);
      }
      _ => {}
    }
  }
}
/// C16: what the text of an element collects. It succeeds only at the element's own end, with the
/// text so far followed by all the character data before that end, in order.
pub proof fn t_text_run_all(d: DeS, text: CowBufS, start: int)
  requires 0 <= start < d.stack.len()
  ensures match m_text(d, text, start) {
    Ok(r) => e_left(d.stack, start, d.events) == Some(r.0.events) && r.0 == (DeS { events: r.0.events, stack: d.stack.take(start), ..d }) && r.1.f0 == text.f0 + e_text(e_between(d.events, r.0.events)),
    Err(r) => r.2 is Err,
  }
  decreases d.events.len()
{
  if d.events.len() > 0 {
    let t = d.events.skip(1);
    match d.events[0] {
      Ev::Open(m) => {
        let q = DeS { events: t, stack: d.stack.push(m), ..d };
        if s_push(d).1 is Ok {
          assert(s_push(d).0 == q);
          t_text_run_all(q, text, start);
          assert(q.stack.take(start) =~= d.stack.take(start));
          l_left_in(q.stack, start, t);
          match e_left(q.stack, start, t) { Some(rest) => { l_text_step(d.events, rest); assert(Seq::<char>::empty() + e_text(e_between(t, rest)) =~= e_text(e_between(t, rest))); } None => {} }
        }
      }
      Ev::Chars(c) => {
        let q = DeS { events: t, ..d };
        let all = CowBufS { f0: text.f0 + c };
        if s_advance(d).1 is Ok {
          t_text_run_all(q, all, start);
          l_left_in(q.stack, start, t);
          match e_left(q.stack, start, t) { Some(rest) => { l_text_step(d.events, rest); assert(text.f0 + (c + e_text(e_between(t, rest))) =~= (text.f0 + c) + e_text(e_between(t, rest))); } None => {} }
        }
      }
      Ev::End(m) => { l_text_end(d, text, start); }
      Ev::XmlClose => { l_text_end(d, text, start); }
      _ => {
        let q = DeS { events: t, ..d };
        if s_advance(d).1 is Ok {
          t_text_run_all(q, text, start);
          l_left_in(q.stack, start, t);
          match e_left(q.stack, start, t) { Some(rest) => { l_text_step(d.events, rest); assert(Seq::<char>::empty() + e_text(e_between(t, rest)) =~= e_text(e_between(t, rest))); } None => {} }
        }
      }
    }
  }
}
proof fn l_text_end(d: DeS, text: CowBufS, start: int)
  requires 0 <= start < d.stack.len(), d.events.len() > 0, d.events[0] is End || d.events[0] is XmlClose
  ensures match m_text(d, text, start) {
    Ok(r) => e_left(d.stack, start, d.events) == Some(r.0.events) && r.0 == (DeS { events: r.0.events, stack: d.stack.take(start), ..d }) && r.1.f0 == text.f0 + e_text(e_between(d.events, r.0.events)),
    Err(r) => r.2 is Err,
  }
  decreases d.events.len(), 0int
{
  let t = d.events.skip(1);
  let q = DeS { events: t, stack: d.stack.drop_last(), ..d };
  if s_pop(d).1 is Ok {
    assert(s_pop(d).0 == q);
    l_left_in(q.stack, start, t);
    assert(e_left(d.stack, start, d.events) == e_left(q.stack, start, t));
    assert(q.stack.take(start) =~= d.stack.take(start));
    match e_left(q.stack, start, t) { Some(rest) => { l_text_step(d.events, rest); assert(Seq::<char>::empty() + e_text(e_between(t, rest)) =~= e_text(e_between(t, rest))); } None => {} }
    if q.stack.len() == start {
      assert(q.stack =~= d.stack.take(start));
      assert(e_between(t, t) =~= Seq::<Ev>::empty());
      assert(text.f0 + Seq::<char>::empty() =~= text.f0);
    } else { t_text_run_all(q, text, start); }
  }
}
/// C16: an element read as text is all the character data up to its own end, and the reader then
/// stands right behind that end; an attribute read as text is its value.
pub proof fn t_text_value(d: DeS)
  requires d.accumulated_text is None
  ensures ({
    let r = s_consume(d);
    match r.1 { Err(_) => true, Ok(t) => d.events.len() > 0 && match d.events[0] {
      Ev::Attr(_, v) => t == (match v { Some(x) => x, None => Seq::<char>::empty() }) && r.0 == (DeS { events: d.events.skip(1), ..d }),
      Ev::Open(_) => e_one(d, r.0) && t == e_text(e_between(d.events, r.0.events)),
      _ => false,
    } }
  })
{
  if d.events.len() > 0 {
    match d.events[0] {
      Ev::Open(m) => {
        let t = d.events.skip(1);
        let p = DeS { events: t, stack: d.stack.push(m), ..d };
        if s_push(d).1 is Ok {
          assert(s_push(d).0 == p);
          let no = CowBufS { f0: Seq::<char>::empty() };
          t_text_run_all(p, no, d.stack.len() as int);
          assert(p.stack.take(d.stack.len() as int) =~= d.stack);
          l_left_in(p.stack, d.stack.len() as int, t);
          match e_left(p.stack, d.stack.len() as int, t) { Some(rest) => { l_text_step(d.events, rest); assert(Seq::<char>::empty() + e_text(e_between(t, rest)) =~= e_text(e_between(t, rest))); } None => {} }
        }
      }
      _ => {}
    }
  }
}
/// No event that cannot be deserialized.
pub open spec fn e_clean(evs: Seq<Ev>) -> bool { forall|k: int| 0 <= k < evs.len() ==> !s_unsup(#[trigger] evs[k]) }
proof fn l_text_ok(d: DeS, text: CowBufS, start: int)
  requires 0 <= start < d.stack.len(), e_left(d.stack, start, d.events) is Some,
    e_clean(e_between(d.events, e_left(d.stack, start, d.events)->Some_0))
  ensures m_text(d, text, start) is Ok
  decreases d.events.len()
{
  let rest = e_left(d.stack, start, d.events)->Some_0;
  let t = d.events.skip(1);
  l_left_in(d.stack, start, d.events);
  let a = e_between(d.events, rest);
  let b = e_between(t, rest);
  assert(a[0] == d.events[0]);
  assert(b =~= a.skip(1));
  assert(forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == a[k + 1]);
  assert(e_clean(b));
  let next = t.len() > 0 && b.len() > 0;
  if b.len() > 0 { assert(t[0] == b[0]); assert(!s_unsup(t[0])); }
  match d.events[0] {
    Ev::Open(m) => { let q = DeS { events: t, stack: d.stack.push(m), ..d }; l_left_in(q.stack, start, t); assert(s_push(d) == (q, Ok::<Str, DeErr>(m))); l_text_ok(q, text, start); }
    Ev::Chars(c) => { let q = DeS { events: t, ..d }; l_left_in(q.stack, start, t); assert(s_advance(d) == (q, Ok::<Ev, DeErr>(d.events[0]))); l_text_ok(q, CowBufS { f0: text.f0 + c }, start); }
    Ev::End(m) => { let q = DeS { events: t, stack: d.stack.drop_last(), ..d }; assert(s_pop(d) == (q, Ok::<(), DeErr>(()))); if q.stack.len() != start { l_left_in(q.stack, start, t); l_text_ok(q, text, start); } }
    Ev::XmlClose => { let q = DeS { events: t, stack: d.stack.drop_last(), ..d }; assert(s_pop(d) == (q, Ok::<(), DeErr>(()))); if q.stack.len() != start { l_left_in(q.stack, start, t); l_text_ok(q, text, start); } }
    _ => { let q = DeS { events: t, ..d }; l_left_in(q.stack, start, t); assert(s_advance(d) == (q, Ok::<Ev, DeErr>(d.events[0]))); l_text_ok(q, text, start); }
  }
}
/// C16: and an element whose tags pair, with nothing unsupported in it, is always read.
pub proof fn t_text_read(d: DeS)
  requires d.accumulated_text is None, e_after(d) is Some, e_clean(e_between(d.events, e_after(d)->Some_0))
  ensures s_consume(d).1 is Ok, e_one(d, s_consume(d).0)
{
  let rest = e_after(d)->Some_0;
  match d.events[0] {
    Ev::Open(m) => {
      let t = d.events.skip(1);
      let p = DeS { events: t, stack: d.stack.push(m), ..d };
      let n = d.stack.len() as int;
      l_left_in(p.stack, n, t);
      let a = e_between(d.events, rest);
      let b = e_between(t, rest);
      assert(a[0] == d.events[0]); assert(!s_unsup(a[0]));
      assert(b =~= a.skip(1));
      assert(forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == a[k + 1]);
      assert(e_clean(b));
      assert(t[0] == b[0]);
      assert(s_push(d) == (p, Ok::<Str, DeErr>(m)));
      l_text_ok(p, CowBufS { f0: Seq::<char>::empty() }, n);
      t_text_value(d);
    }
    _ => {}
  }
}
// ------------------------------------------ C15: values made of other values
/// A value that, when it succeeds, leaves the reader inside what it was inside.
pub open spec fn e_seed(seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>) -> bool {
  forall|x: DeS| (#[trigger] seed(SeedIn::De(x))).1 is Ok ==> e_inside(x, seed(SeedIn::De(x)).0)
}
/// A visitor that does the same with every reader it is shown.
pub open spec fn e_vis(vis: Fun<Visit, (DeS, Result<W, DeErr>)>) -> bool {
  &&& forall|x: MapS| (#[trigger] vis(Visit::Map(x))).1 is Ok ==> e_inside(x.de, vis(Visit::Map(x)).0)
  &&& forall|x: SeqS| (#[trigger] vis(Visit::Seq(x))).1 is Ok ==> e_inside(x.de, vis(Visit::Seq(x)).0)
  &&& forall|x: EnumS| (#[trigger] vis(Visit::Enum(x))).1 is Ok ==> e_inside(x.de, vis(Visit::Enum(x)).0)
}
pub proof fn l_inside_same(d: DeS, e: DeS)
  requires e.stack == d.stack, e.events == d.events
  ensures e_inside(d, e)
{}
/// Inside an element entered at `d`, leaving it comes out exactly behind it.
pub proof fn l_in_and_out(d: DeS, v: DeS)
  requires s_push(d).1 is Ok, e_inside(s_push(d).0, v)
  ensures s_pop(v).1 is Ok ==> e_one(d, s_pop(v).0)
{
  match d.events[0] {
    Ev::Open(m) => {
      let p = DeS { events: d.events.skip(1), stack: d.stack.push(m), ..d };
      assert(s_push(d).0 == p);
      t_leave_element(v);
      assert(e_left(v.stack, d.stack.len() as int, v.events) == e_left(p.stack, d.stack.len() as int, p.events));
      assert(p.stack.drop_last() =~= d.stack);
    }
    _ => {}
  }
}
/// C15: an element read as a map or structure is behind the reader, whole, whatever the visitor took of it.
pub proof fn t_map_one(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, emit: bool)
  requires e_vis(vis)
  ensures s_do_map(d, vis, emit).1 is Ok ==> e_one(d, s_do_map(d, vis, emit).0)
{
  let p = s_push(d);
  if p.1 is Ok {
    let v = vis(Visit::Map(s_map_new(p.0, emit)));
    if v.1 is Ok { assert(s_map_new(p.0, emit).de == p.0); l_in_and_out(d, v.0); }
  }
}
pub proof fn l_content_inside(d: DeS)
  ensures match m_content(d) { Ok(e) => e_inside(d, e), Err(x) => x.1 is Err }
  decreases d.events.len()
{
  if d.events.len() > 0 {
    let go = match d.events[0] { Ev::Attr(_, _) => true, Ev::Close => true, _ => false };
    if go {
      let e = DeS { events: d.events.skip(1), ..d };
      l_pass(d);
      if s_advance(d).1 is Ok { assert(s_advance(d).0 == e); l_content_inside(e); match m_content(e) { Ok(f) => { l_inside_trans(d, e, f); } Err(_) => {} } }
    } else { l_inside_same(d, d); }
  } 
}
proof fn l_consume_inside(d: DeS)
  ensures s_consume(d).1 is Ok ==> e_inside(d, s_consume(d).0) && (d.accumulated_text is None && d.events.len() > 0 && d.events[0] is Open ==> e_one(d, s_consume(d).0))
{
  match d.accumulated_text {
    Some(_) => { l_inside_same(d, s_consume(d).0); }
    None => {
      t_text_value(d);
      if s_consume(d).1 is Ok { match d.events[0] { Ev::Attr(_, _) => { l_pass(d); } _ => { l_one_inside(d, s_consume(d).0); } } }
    }
  }
}
/// What reading one value does: whole elements, or an attribute, or the text already at hand.
pub open spec fn e_reads(d: DeS, r: (DeS, Result<W, DeErr>)) -> bool {
  r.1 is Ok ==> e_inside(d, r.0) && (d.accumulated_text is None && d.events.len() > 0 && d.events[0] is Open ==> e_one(d, r.0))
}
/// C15: every scalar takes exactly the element (or attribute) it is read from.
pub proof fn t_scalar_one(d: DeS, k: int, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  ensures e_reads(d, s_str(d, vis)), e_reads(d, s_num(k, d, vis)), e_reads(d, s_bool(d, vis)), e_reads(d, s_unit(d, vis))
{
  l_consume_inside(d);
  t_skip_one(d);
  if d.events.len() > 0 { match d.events[0] { Ev::Attr(_, _) => { l_pass(d); } _ => {} } }
  match d.accumulated_text {
    Some(_) => { l_inside_same(d, s_unit(d, vis).0); }
    None => { if s_skip_elt(d).1 is Ok { l_one_inside(d, s_skip_elt(d).0); } }
  }
}
/// C15: and so does every value of a kind found out from the element itself.
pub proof fn t_any_one(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires e_vis(vis)
  ensures e_reads(d, s_de_any(d, vis))
{
  t_scalar_one(d, 0, vis);
  t_map_one(d, vis, true);
  t_map_one(d, vis, false);
  if s_do_map(d, vis, true).1 is Ok { l_one_inside(d, s_do_map(d, vis, true).0); }
  if s_do_map(d, vis, false).1 is Ok { l_one_inside(d, s_do_map(d, vis, false).0); }
}
/// C15: a sequence, and an enumeration, never take the reader out of what it was inside.
pub proof fn t_list_inside(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires e_vis(vis)
  ensures s_seq(d, vis).1 is Ok ==> e_inside(d, s_seq(d, vis).0)
{
  let x = SeqS { de: DeS { map_key: None, ..d }, stack_size: d.stack.len() as int, tag_name: d.map_key };
  assert(x.de.events == d.events && x.de.stack == d.stack);
  if s_seq(d, vis).1 is Ok { assert(vis(Visit::Seq(x)).1 is Ok); l_inside_same(d, x.de); l_inside_trans(d, x.de, s_seq(d, vis).0); }
}
pub proof fn t_enum_inside(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires e_vis(vis)
  ensures s_enum(d, vis).1 is Ok ==> e_inside(d, s_enum(d, vis).0)
{
  let a = EnumS { de: d, use_tag_name_for_variant: true };
  let b = EnumS { de: d, use_tag_name_for_variant: false };
  assert(vis(Visit::Enum(a)).1 is Ok ==> e_inside(a.de, vis(Visit::Enum(a)).0));
  assert(vis(Visit::Enum(b)).1 is Ok ==> e_inside(b.de, vis(Visit::Enum(b)).0));
  if s_within(d) && s_push(d).1 is Ok {
    let e = s_push(d).0;
    let g = DeS { map_key: None, ..e };
    l_inside_same(e, g);
    l_content_inside(g);
    if s_to_content(g).1 is Ok {
      let f = s_to_content(g).0;
      let c = EnumS { de: f, use_tag_name_for_variant: true };
      let v = vis(Visit::Enum(c));
      if v.1 is Ok {
        assert(e_inside(c.de, v.0));
        l_inside_trans(e, g, f); l_inside_trans(e, f, v.0);
        l_in_and_out(d, v.0);
        if s_pop(v.0).1 is Ok { l_one_inside(d, s_pop(v.0).0); }
      }
    }
  }
}
/// C15: the next key, the value of an entry and the next item of a sequence stay inside as well,
/// so that a visitor or value made of them is one of those above.
pub proof fn t_key_inside(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  ensures s_key(m, seed).1 is Ok ==> e_inside(m.de, s_key(m, seed).0.de)
  decreases m.de.events.len()
{
  l_inside_same(m.de, m.de);
  if m.de.events.len() > 0 {
    let e = DeS { events: m.de.events.skip(1), ..m.de };
    match m.de.events[0] {
      Ev::Close => { if s_advance(m.de).1 is Ok { assert(s_advance(m.de).0 == e); l_pass(m.de); let n = MapS { de: e, ..m }; t_key_inside(n, seed); assert(s_key(m, seed) == s_key(n, seed)); if s_key(n, seed).1 is Ok { l_inside_trans(m.de, e, s_key(n, seed).0.de); } } }
      Ev::Chars(t) => { if s_advance(m.de).1 is Ok {
        assert(s_advance(m.de).0 == e); l_pass(m.de);
        let tc = match m.text_content { Some(c) => Some(CowBufS { f0: c.f0 + t }), None => None };
        let n = MapS { de: e, text_content: tc, ..m };
        t_key_inside(n, seed); assert(s_key(m, seed) == s_key(n, seed)); if s_key(n, seed).1 is Ok { l_inside_trans(m.de, e, s_key(n, seed).0.de); } } }
      _ => {}
    }
  }
}
pub proof fn t_value_inside(m: MapS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires e_seed(seed)
  ensures s_value(m, seed).1 is Ok ==> e_inside(m.de, s_value(m, seed).0.de)
{
  if s_value(m, seed).1 is Ok {
    let t = match m.text_content { Some(c) => c.f0, None => Seq::<char>::empty() };
    let a = DeS { accumulated_text: Some(t), ..m.de };
    let b = DeS { map_key: m.map_key, ..m.de };
    l_inside_same(m.de, a); l_inside_same(m.de, b);
    if m.next_entry_is_dollarvalue { let v = seed(SeedIn::De(a)); assert(v.1 is Ok); l_inside_trans(m.de, a, v.0); l_inside_same(v.0, s_value(m, seed).0.de); l_inside_trans(m.de, v.0, s_value(m, seed).0.de); }
    else {
      let attr = if m.de.events.len() == 0 { false } else { match m.de.events[0] { Ev::Attr(_, _) => true, _ => false } };
      if attr { assert(seed(SeedIn::De(m.de)).1 is Ok); }
      else { let v = seed(SeedIn::De(b)); assert(v.1 is Ok); l_inside_trans(m.de, b, v.0); l_inside_same(v.0, s_value(m, seed).0.de); l_inside_trans(m.de, v.0, s_value(m, seed).0.de); }
    }
  }
}
pub proof fn t_item_inside(s: SeqS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires e_seed(seed)
  ensures s_elem(s, seed).1 is Ok ==> e_inside(s.de, s_elem(s, seed).0.de)
  decreases s.de.events.len()
{
  l_inside_same(s.de, s.de);
  if s.de.events.len() > 0 {
    match s.de.events[0] {
      Ev::Open(n) => {
        let b = DeS { map_key: s.tag_name, ..s.de };
        let v = seed(SeedIn::De(b));
        l_inside_same(s.de, b);
        if v.1 is Ok { l_inside_trans(s.de, b, v.0); }
      }
      Ev::Chars(t) => { if t.len() == 0 && s_advance(s.de).1 is Ok {
        let e = DeS { events: s.de.events.skip(1), ..s.de };
        assert(s_advance(s.de).0 == e); l_pass(s.de);
        let n = SeqS { de: e, ..s };
        t_item_inside(n, seed); assert(s_elem(s, seed) == s_elem(n, seed));
        if s_elem(n, seed).1 is Ok { l_inside_trans(s.de, e, s_elem(n, seed).0.de); } } }
      _ => {}
    }
  }
}
/// C15: the same of the variants of an enumeration.
pub proof fn t_variant_inside(e: EnumS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, emit: bool)
  requires e_seed(seed), e_vis(vis)
  ensures s_variant(e, seed).1 is Ok ==> e_inside(e.de, s_variant(e, seed).0.de),
    s_unit_variant(e).1 is Ok ==> e_inside(e.de, s_unit_variant(e).0.de),
    s_newtype_variant(e, seed).1 is Ok ==> e_inside(e.de, s_newtype_variant(e, seed).0.de),
    s_tuple_variant(e, vis).1 is Ok ==> e_inside(e.de, s_tuple_variant(e, vis).0.de),
    s_struct_variant(e, emit, vis).1 is Ok ==> e_inside(e.de, s_struct_variant(e, emit, vis).0.de),
{
  let d = e.de;
  l_inside_same(d, d);
  assert(seed(SeedIn::De(d)).1 is Ok ==> e_inside(d, seed(SeedIn::De(d)).0));
  t_skip_one(d);
  if s_skip_elt(d).1 is Ok { l_one_inside(d, s_skip_elt(d).0); }
  t_map_one(d, vis, emit);
  if s_do_map(d, vis, emit).1 is Ok { l_one_inside(d, s_do_map(d, vis, emit).0); }
  if d.events.len() > 0 { match d.events[0] { Ev::Open(n) => { let q = DeS { map_key: Some(n), ..d }; t_list_inside(q, vis); l_inside_same(d, q); if s_seq(q, vis).1 is Ok { l_inside_trans(d, q, s_seq(q, vis).0); } } _ => {} } }
  if s_push(d).1 is Ok {
    let p = s_push(d).0;
    l_content_inside(p);
    if s_to_content(p).1 is Ok {
      let f = s_to_content(p).0;
      let v = seed(SeedIn::De(f));
      if v.1 is Ok { l_inside_trans(p, f, v.0); l_in_and_out(d, v.0); if s_pop(v.0).1 is Ok { l_one_inside(d, s_pop(v.0).0); } }
    }
  }
}
/// C16: what an element with text only shows as its catch-all entry: the text before the place
/// reached, all of it and in order, after what was collected before.
pub proof fn t_catch_all(m: MapS, c: CowBufS, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires m.text_content == Some(c), !m.next_entry_is_dollarvalue, m.content_strategy == Strat::TextOnly
  ensures s_key(m, seed).1 is Ok ==> ({
    let r = s_key(m, seed).0;
    &&& r.de.events.len() > 0 && r.de.events.len() <= m.de.events.len()
    &&& match r.text_content { Some(t) => t.f0 == c.f0 + e_text(e_between(m.de.events, r.de.events)), None => false }
    &&& r.next_entry_is_dollarvalue <==> (r.de.events[0] is End || r.de.events[0] is XmlClose)
    &&& r.next_entry_is_dollarvalue || r.de.events[0] is Attr || r.de.events[0] is Open
  })
  decreases m.de.events.len()
{
  let evs = m.de.events;
  assert(e_between(evs, evs) =~= Seq::<Ev>::empty());
  assert(c.f0 + Seq::<char>::empty() =~= c.f0);
  if evs.len() > 0 {
    let e = DeS { events: evs.skip(1), ..m.de };
    match evs[0] {
      Ev::Close => { if s_advance(m.de).1 is Ok {
        assert(s_advance(m.de).0 == e);
        let n = MapS { de: e, ..m };
        t_catch_all(n, c, seed); assert(s_key(m, seed) == s_key(n, seed));
        if s_key(n, seed).1 is Ok { let rest = s_key(n, seed).0.de.events; l_text_step(evs, rest); assert(Seq::<char>::empty() + e_text(e_between(evs.skip(1), rest)) =~= e_text(e_between(evs.skip(1), rest))); } } }
      Ev::Chars(t) => { if s_advance(m.de).1 is Ok {
        assert(s_advance(m.de).0 == e);
        let all = CowBufS { f0: c.f0 + t };
        let n = MapS { de: e, text_content: Some(all), ..m };
        t_catch_all(n, all, seed); assert(s_key(m, seed) == s_key(n, seed));
        if s_key(n, seed).1 is Ok { let rest = s_key(n, seed).0.de.events; l_text_step(evs, rest); assert(c.f0 + (t + e_text(e_between(evs.skip(1), rest))) =~= (c.f0 + t) + e_text(e_between(evs.skip(1), rest))); } } }
      _ => {}
    }
  }
}
/// C16: and that entry's value is read from exactly the collected text.
pub proof fn t_catch_all_value(m: MapS, c: CowBufS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>, seed: Fun<SeedIn, (DeS, Result<W, DeErr>)>)
  requires m.text_content == Some(c), m.next_entry_is_dollarvalue, forall|x: DeS| #[trigger] seed(SeedIn::De(x)) == s_str(x, vis)
  ensures s_value(m, seed).1 == vis(Visit::Text(c.f0)).1
{
  let a = DeS { accumulated_text: Some(c.f0), ..m.de };
  assert(seed(SeedIn::De(a)) == s_str(a, vis));
}
// -------------------------------------------------------------------- C20
/// C20: an attribute read as a flag.
pub proof fn t_flag_attribute(d: DeS, n: Str, v: Option<Str>, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires d.accumulated_text is None, d.events.len() > 0, d.events[0] == Ev::Attr(n, v), s_advance(d).1 is Ok
  ensures s_bool(d, vis).1 == (match v {
    None => vis(Visit::Bool(true)).1,
    Some(x) => if x.len() == 0 || s_eq_nocase(x, n) { vis(Visit::Bool(true)).1 }
      else if x == seq!['1'] || s_eq_nocase(x, seq!['t', 'r', 'u', 'e']) { vis(Visit::Bool(true)).1 }
      else if x == seq!['0'] || s_eq_nocase(x, seq!['f', 'a', 'l', 's', 'e']) { vis(Visit::Bool(false)).1 }
      else { Err::<W, DeErr>(DeErr::Message) },
  })
{}
/// C20: an element read as a flag goes by all of its text.
pub proof fn t_flag_element(d: DeS, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires d.accumulated_text is None, e_after(d) is Some, e_clean(e_between(d.events, e_after(d)->Some_0))
  ensures ({
    let x = e_text(e_between(d.events, e_after(d)->Some_0));
    s_bool(d, vis).1 == (if x == seq!['1'] || s_eq_nocase(x, seq!['t', 'r', 'u', 'e']) { vis(Visit::Bool(true)).1 }
      else if x == seq!['0'] || s_eq_nocase(x, seq!['f', 'a', 'l', 's', 'e']) { vis(Visit::Bool(false)).1 }
      else { Err::<W, DeErr>(DeErr::Message) })
  })
{ t_text_read(d); t_text_value(d); }
/// C20: a number is the parse of the whole text of the element, or of the attribute's value.
pub proof fn t_number_whole(d: DeS, k: int, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires d.accumulated_text is None
  ensures s_num(k, d, vis).1 is Ok ==> ({
    let x = match d.events[0] { Ev::Attr(_, v) => match v { Some(y) => y, None => Seq::<char>::empty() }, _ => e_text(e_between(d.events, e_after(d)->Some_0)) };
    match x_parse_num(k, x) { Some(n) => s_num(k, d, vis).1 == vis(Visit::Num(k, n)).1, None => false }
  })
{ t_text_value(d); }
/// C20: text that is not a number is refused, and nothing else is.
pub proof fn t_number_exact(d: DeS, k: int, vis: Fun<Visit, (DeS, Result<W, DeErr>)>)
  requires d.accumulated_text is None, e_after(d) is Some, e_clean(e_between(d.events, e_after(d)->Some_0))
  ensures match x_parse_num(k, e_text(e_between(d.events, e_after(d)->Some_0))) { Some(n) => s_num(k, d, vis).1 == vis(Visit::Num(k, n)).1, None => s_num(k, d, vis).1 is Err }
{ t_text_read(d); t_text_value(d); }
