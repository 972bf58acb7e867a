// -------------------------------------------------------------------- C03
pub open spec fn ms_end() -> Str { seq![']', ']', '>'] }
pub open spec fn ms_open() -> Str { seq!['<', '!', '['] }
/// Nothing in `b` closes a section, nor does its end together with the closing mark.
pub open spec fn no_end(b: Str) -> bool { forall|k: int| 0 <= k <= b.len() - 3 ==> !(#[trigger] b[k] == ']' && b[k + 1] == ']' && b[k + 2] == '>') }
proof fn l_end_at(b: Str, rest: Str)
  requires no_end(b)
  ensures find(b + ms_end() + rest, ms_end()) == Some(b.len() as int), (b + ms_end() + rest).skip(b.len() as int) =~= ms_end() + rest, (b + ms_end() + rest).skip((b.len() + 3) as int) =~= rest, (b + ms_end() + rest).take(b.len() as int) =~= b
{
  broadcast use l_pfx3;
  let i = b + ms_end() + rest;
  let n = b.len() as int;
  assert(i.skip(n) =~= ms_end() + rest);
  assert(i.skip(n + 3) =~= rest);
  assert(i.take(n) =~= b);
  assert(pfx(i.skip(n), ms_end())) by { assert(i.skip(n)[0] == ']' && i.skip(n)[1] == ']' && i.skip(n)[2] == '>'); }
  l_find_first(i, ms_end()); l_find(i, ms_end());
  match find(i, ms_end()) {
    None => { assert(!pfx(i.skip(n), ms_end())); }
    Some(k) => {
      assert(k <= n) by { if k > n { assert(!pfx(i.skip(n), ms_end())); } }
      if k < n {
        assert(i.skip(k)[0] == i[k] && i.skip(k)[1] == i[k + 1] && i.skip(k)[2] == i[k + 2]);
        if k + 3 <= n { assert(b[k] == i[k] && b[k + 1] == i[k + 1] && b[k + 2] == i[k + 2]); }
        else if k + 3 == n + 1 { assert(i[n] == ']'); }
        else { assert(i[n] == ']' && i[n + 1] == ']'); }
      }
    }
  }
}
/// C03: an expanded CDATA section yields its body literally, up to the first `]]>`.
pub proof fn t_cdata(b: Str, rest: Str, kw: Str, cfg: Cfg)
  requires no_end(b), cfg.marked_section_handling != Msh::KeepUnmodified
  ensures s_section_body(b + ms_end() + rest, kw, Mss::CData, cfg) == Ok::<(Str, Seq<Ev>), NE>((rest, seq![Ev::Chars(s_trim(cfg, b))]))
{ l_end_at(b, rest); }
/// C03: an expanded RCDATA section yields the same body with its references expanded (once).
pub proof fn t_rcdata(b: Str, rest: Str, kw: Str, cfg: Cfg)
  requires no_end(b), cfg.marked_section_handling != Msh::KeepUnmodified
  ensures s_section_body(b + ms_end() + rest, kw, Mss::RcData, cfg) == match s_expand(true, '&', s_lookup(cfg.entity_fn), s_trim(cfg, b)) {
    Ok(v) => Ok::<(Str, Seq<Ev>), NE>((rest, seq![Ev::Chars(v)])), Err(_) => Err(NE::Error) }
{ l_end_at(b, rest); }
/// C03: a character-data section kept unmodified is one event with exactly its source.
pub proof fn t_kept_chars(b: Str, rest: Str, kw: Str, m: Mss, cfg: Cfg)
  requires no_end(b), cfg.marked_section_handling == Msh::KeepUnmodified, m == Mss::CData || m == Mss::RcData
  ensures s_section_body(b + ms_end() + rest, kw, m, cfg) == Ok::<(Str, Seq<Ev>), NE>((rest, seq![Ev::Section(kw, b)]))
{ l_end_at(b, rest); }

/// The number of `<![` of `b` still open at its end when `d` are open before it; none if a `]]>` closes more than that.
pub open spec fn open_at_end(d: int, b: Str) -> Option<int>
  decreases b.len()
{
  if pfx(b, ms_end()) { if d <= 0 { None } else { open_at_end(d - 1, b.skip(3)) } }
  else if pfx(b, ms_open()) { open_at_end(d + 1, b.skip(3)) }
  else if b.len() == 0 { Some(d) }
  else { open_at_end(d, b.skip(1)) }
}
/// Nothing is cut differently because of a closing mark put behind.
proof fn l_mark_first(b: Str, z: Str)
  requires z.len() >= 3, z[0] == ']' && z[1] == ']' && z[2] == '>', b.len() > 0
  ensures pfx(b + z, ms_end()) == pfx(b, ms_end()), pfx(b + z, ms_open()) == pfx(b, ms_open())
{
  broadcast use l_pfx3;
  let i = b + z;
  assert(i[0] == b[0]);
  if b.len() > 1 { assert(i[1] == b[1]); } else { assert(i[1] == ']' && i[2] == ']'); }
  if b.len() > 2 { assert(i[2] == b[2]); } else if b.len() == 2 { assert(i[2] == ']'); }
}
proof fn l_open_at_end(d: int, b: Str, rest: Str)
  requires d >= 0
  ensures match open_at_end(d, b) { Some(e) => e >= 0 && s_ignore_end(d, b + ms_end() + rest) == (if e == 0 { Some(rest) } else { s_ignore_end(e - 1, rest) }), None => match s_ignore_end(d, b + ms_end() + rest) { Some(r) => r.len() > rest.len(), None => false } }
  decreases b.len()
{
  broadcast use l_pfx3;
  let z = ms_end() + rest;
  let i = b + ms_end() + rest;
  assert(i =~= b + z);
  if b.len() == 0 {
    assert(i =~= z);
    assert(z.skip(3) =~= rest);
    assert(z[0] == ']' && z[1] == ']' && z[2] == '>');
  } else {
    l_mark_first(b, z);
    if pfx(b, ms_end()) {
      assert(i.skip(3) =~= b.skip(3) + ms_end() + rest);
      if d > 0 { l_open_at_end(d - 1, b.skip(3), rest); }
    } else if pfx(b, ms_open()) {
      assert(i.skip(3) =~= b.skip(3) + ms_end() + rest);
      l_open_at_end(d + 1, b.skip(3), rest);
    } else {
      assert(i.skip(1) =~= b.skip(1) + ms_end() + rest);
      l_open_at_end(d, b.skip(1), rest);
    }
  }
}
/// C03: an IGNORE section ends at the `]]>` balancing every nested `<![`: if each `<![` of its body
/// has its `]]>` there and none is left over, the body is exactly that.
pub proof fn t_ignore(b: Str, rest: Str, kw: Str, cfg: Cfg)
  requires open_at_end(0, b) == Some(0int)
  ensures s_section_body(b + ms_end() + rest, kw, Mss::Ignore, cfg) == Ok::<(Str, Seq<Ev>), NE>((rest, if cfg.marked_section_handling == Msh::KeepUnmodified { seq![Ev::Section(kw, b)] } else { seq![] }))
{
  let i = b + ms_end() + rest;
  l_open_at_end(0, b, rest);
  assert(i.take(i.len() - rest.len() - 3) =~= b);
}
/// ... and only such a body is one.
pub proof fn t_ignore_only(i: Str)
  ensures match s_section_ignore(i) { Ok((r, b)) => i == b + ms_end() + r && open_at_end(0, b) == Some(0int), Err(_) => true }
{
  match s_section_ignore(i) {
    Ok((r, b)) => {
      l_ignore_end(0, i);
      let n = i.len() - r.len() - 3;
      assert(pfx(i.skip(n), ms_end()));
      assert forall|k: int| 0 <= k < 3 implies i[n + k] == ms_end()[k] by { assert(i.skip(n)[k] == i[n + k]); }
      assert(i =~= b + ms_end() + r);
      l_open_at_end(0, b, r);
      match open_at_end(0, b) { Some(e) => { if e > 0 { l_ignore_end(e - 1, r); } } None => {} }
    }
    Err(_) => {}
  }
}
/// C03: sections nest inside an IGNORE section: one more, with balanced text around it, keeps it balanced.
pub proof fn t_ignore_nests(d: int, a: Str, b: Str, c: Str)
  requires d >= 0, open_at_end(d, a) == Some(d), open_at_end(0, b) == Some(0int), open_at_end(d, c) == Some(d)
  ensures open_at_end(d, a + ms_open() + b + ms_end() + c) == Some(d)
{
  l_nest_text(d, d, a, ms_open() + b + ms_end() + c);
  assert(a + (ms_open() + b + ms_end() + c) =~= a + ms_open() + b + ms_end() + c);
  let m = ms_open() + b + ms_end() + c;
  assert(pfx(m, ms_open()) && !pfx(m, ms_end())) by { broadcast use l_pfx3; assert(m[0] == '<' && m[1] == '!' && m[2] == '['); }
  assert(m.skip(3) =~= b + (ms_end() + c));
  l_shift(0, d + 1, b);
  l_nest_text(d + 1, d + 1, b, ms_end() + c);
  let z = ms_end() + c;
  assert(pfx(z, ms_end())) by { broadcast use l_pfx3; assert(z[0] == ']' && z[1] == ']' && z[2] == '>'); }
  assert(z.skip(3) =~= c);
}
/// The same text with more sections open around it.
proof fn l_shift(d: int, k: int, b: Str)
  requires d >= 0, k >= 0
  ensures match open_at_end(d, b) { Some(e) => open_at_end(d + k, b) == Some(e + k), None => true }
  decreases b.len()
{
  if pfx(b, ms_end()) { if d > 0 { l_shift(d - 1, k, b.skip(3)); } }
  else if pfx(b, ms_open()) { l_shift(d + 1, k, b.skip(3)); }
  else if b.len() > 0 { l_shift(d, k, b.skip(1)); }
}
/// Text read before a mark, opening or closing, is read as on its own.
proof fn l_nest_text(d: int, e: int, a: Str, z: Str)
  requires d >= 0, open_at_end(d, a) == Some(e), pfx(z, ms_open()) || pfx(z, ms_end())
  ensures open_at_end(d, a + z) == open_at_end(e, z)
  decreases a.len()
{
  broadcast use l_pfx3;
  let i = a + z;
  if a.len() == 0 { assert(i =~= z); } else {
    assert(i[0] == a[0]);
    assert(z[0] == z[0]);
    if a.len() > 1 { assert(i[1] == a[1]); } else { assert(i[1] == z[0] && i[2] == z[1]); }
    if a.len() > 2 { assert(i[2] == a[2]); } else if a.len() == 2 { assert(i[2] == z[0]); }
    assert(pfx(i, ms_end()) == pfx(a, ms_end()));
    assert(pfx(i, ms_open()) == pfx(a, ms_open()));
    if pfx(a, ms_end()) { assert(i.skip(3) =~= a.skip(3) + z); l_nest_text(d - 1, e, a.skip(3), z); }
    else if pfx(a, ms_open()) { assert(i.skip(3) =~= a.skip(3) + z); l_nest_text(d + 1, e, a.skip(3), z); }
    else { assert(i.skip(1) =~= a.skip(1) + z); l_nest_text(d, e, a.skip(1), z); }
  }
}

// Sections kept unmodified have the extent they have when expanded.
pub open spec fn c_ms(cfg: Cfg, h: Msh) -> Cfg { Cfg { marked_section_handling: h, ..cfg } }
/// No reference is undefined.
pub open spec fn total(cfg: Cfg) -> bool { forall|s: Str| (#[trigger] s_rcdata(cfg, s)) is Ok }
proof fn l_total(cfg: Cfg, h: Msh)
  requires total(cfg)
  ensures total(c_ms(cfg, h))
{ assert forall|s: Str| (#[trigger] s_rcdata(c_ms(cfg, h), s)) is Ok by { assert(s_rcdata(cfg, s) is Ok); } }
proof fn l_section_x(i: Str, cfg: Cfg)
  requires total(cfg)
  ensures rem(s_section(i, c_ms(cfg, Msh::KeepUnmodified))) == rem(s_section(i, c_ms(cfg, Msh::ExpandAll)))
  decreases i.len(), 0int
{
  hide(s_section_start); hide(s_expand); hide(s_from_keywords);
  match s_section_start(i) { Ok((r, raw)) => match s_decl_text(cfg, raw) { Ok(kw) => match s_from_keywords(kw) {
    Ok(m) => if r.len() < i.len() { l_section_body_x(r, kw, m, cfg); }
    Err(_) => {} } Err(_) => {} } Err(_) => {} }
}
proof fn l_section_body_x(i: Str, kw: Str, m: Mss, cfg: Cfg)
  requires total(cfg)
  ensures rem(s_section_body(i, kw, m, c_ms(cfg, Msh::KeepUnmodified))) == rem(s_section_body(i, kw, m, c_ms(cfg, Msh::ExpandAll)))
  decreases i.len(), 5int
{
  hide(s_section_ignore); hide(s_section_chars); hide(s_rcdata);
  l_total(cfg, Msh::ExpandAll);
  l_include_x(i, cfg);
}
proof fn l_include_x(i: Str, cfg: Cfg)
  requires total(cfg)
  ensures rem(s_section_include(i, c_ms(cfg, Msh::KeepUnmodified))) == rem(s_section_include(i, c_ms(cfg, Msh::ExpandAll)))
  decreases i.len(), 4int
{
  hide(s_comment_decls);
  match s_comment_decls(i) { Ok((r, _)) => if r.len() <= i.len() { l_content_x(r, cfg, Mse::StopParsing); } Err(_) => {} }
}
proof fn l_start_tag_x(i: Str, cfg: Cfg)
  ensures s_ev_start_tag(i, c_ms(cfg, Msh::KeepUnmodified)) == s_ev_start_tag(i, c_ms(cfg, Msh::ExpandAll))
{
  hide(n_many0); hide(s_expand); hide(s_attr_with); hide(s_name);
  broadcast use l_many0_ext, l_attr_with_ext;
  let c = c_ms(cfg, Msh::ExpandAll);
  let c2 = c_ms(cfg, Msh::KeepUnmodified);
  assert forall|j: Str| #[trigger] s_ev_attr(j, c2) == s_ev_attr(j, c) by {}
  match s_ev_open(i, c) { Err(_) => {} Ok((r, o)) => { assert(s_ev_attrs(skip_ws(r), c2) == s_ev_attrs(skip_ws(r), c)); } }
}
proof fn l_unit_x(i: Str, cfg: Cfg, stop: Mse)
  requires total(cfg)
  ensures rem(s_content_unit(i, c_ms(cfg, Msh::KeepUnmodified), stop)) == rem(s_content_unit(i, c_ms(cfg, Msh::ExpandAll), stop))
  decreases i.len(), 2int
{
  hide(s_ev_start_tag); hide(s_expand); hide(s_pi); hide(s_section_start); hide(s_section_body); hide(s_end_tag); hide(s_comment_decls);
  let c = c_ms(cfg, Msh::ExpandAll);
  let c2 = c_ms(cfg, Msh::KeepUnmodified);
  l_section_x(i, cfg);
  l_start_tag_x(i, cfg);
  assert(s_ev_text(i, c2, stop) == s_ev_text(i, c, stop));
  assert(s_ev_pi(i, c2) == s_ev_pi(i, c));
  assert(s_ev_end_tag(i, c2) == s_ev_end_tag(i, c));
  assert(rem(s_content_item(i, c2, stop)) == rem(s_content_item(i, c, stop)));
}
proof fn l_many1_rem<T, U>(p: Fun<Str, PR<T>>, q: Fun<Str, PR<U>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> rem(#[trigger] p(j)) == rem(#[trigger] q(j))
  ensures rem(n_many1(p, i)) == rem(n_many1(q, i))
{
  assert(rem(p(i)) == rem(q(i)));
  if let Ok((r, t)) = p(i) { if r.len() <= i.len() { l_many0_rem(p, q, r); } }
}
proof fn l_content_x(i: Str, cfg: Cfg, stop: Mse)
  requires total(cfg)
  ensures rem(s_content(i, c_ms(cfg, Msh::KeepUnmodified), stop)) == rem(s_content(i, c_ms(cfg, Msh::ExpandAll), stop))
  decreases i.len(), 3int
{
  hide(s_content_unit); hide(n_many1); hide(flatten); hide(n_many0); hide(s_content);
  let c = c_ms(cfg, Msh::ExpandAll);
  let c2 = c_ms(cfg, Msh::KeepUnmodified);
  let f = |j: Str| if j.len() <= i.len() { s_content_unit(j, c, stop) } else { Err(NE::Error) };
  let g = |j: Str| if j.len() <= i.len() { s_content_unit(j, c2, stop) } else { Err(NE::Error) };
  assert forall|j: Str| j.len() <= i.len() implies rem(#[trigger] g(j)) == rem(#[trigger] f(j)) by { l_unit_x(j, cfg, stop); }
  l_many1_rem(g, f, i);
  l_content_open(i, c, stop); l_content_open(i, c2, stop);
}
/// C03: when no reference is undefined, a section kept unmodified ends where the same section
/// ends when expanded, and it is kept whenever it can be expanded.
pub proof fn t_kept_extent(i: Str, cfg: Cfg)
  requires total(cfg)
  ensures rem(s_section(i, c_ms(cfg, Msh::KeepUnmodified))) == rem(s_section(i, c_ms(cfg, Msh::ExpandAll)))
{ l_section_x(i, cfg); }
/// C03: an INCLUDE section yields what its content yields, to its own `]]>`.
pub proof fn t_include(i: Str, kw: Str, cfg: Cfg)
  requires cfg.marked_section_handling != Msh::KeepUnmodified
  ensures match s_section_body(i, kw, Mss::Include, cfg) {
    Ok((r, e)) => match s_comment_decls(i) { Err(_) => false, Ok((j, _)) => match s_content(j, cfg, Mse::StopParsing) { Ok((r2, e2)) => e == e2 && r2 == ms_end() + r, Err(x) => x is Error && e == Seq::<Ev>::empty() && j == ms_end() + r } },
    Err(_) => true }
{
  hide(s_comment_decls);
  match s_section_body(i, kw, Mss::Include, cfg) { Ok((r, e)) => { match s_section_include(i, cfg) { Ok((q, _)) => { broadcast use l_pfx3; assert(q.skip(0) =~= q); assert(q =~= ms_end() + q.skip(3)); } Err(_) => {} } } Err(_) => {} }
}
