// --------------------------------------------------------------- C09, C21
/// A valid name: what `s_name` reads whole.
pub open spec fn v_name(n: Str) -> bool { n.len() > 0 && s_name_start(n[0]) && forall|k: int| 1 <= k < n.len() ==> s_name_char(#[trigger] n[k]) }
pub open spec fn ends_name(r: Str) -> bool { r.len() == 0 || !s_name_char(r[0]) }
proof fn l_name_read(n: Str, r: Str)
  requires v_name(n), ends_name(r)
  ensures s_name(n + r) == Ok::<(Str, Str), NE>((r, n))
{
  let i = n + r;
  let p = |c: char| s_name_char(c);
  assert(i[0] == n[0]);
  assert(i.skip(1) =~= n.skip(1) + r);
  assert forall|k: int| 0 <= k < n.skip(1).len() implies p(#[trigger] n.skip(1)[k]) by { assert(n.skip(1)[k] == n[k + 1]); }
  l_tw_all(p, n.skip(1), r);
  assert(i.skip(n.len() as int) =~= r);
  assert(i.take(n.len() as int) =~= n);
}
/// What `s_name` reads is a valid name.
proof fn l_name_valid(i: Str)
  ensures match s_name(i) { Ok((r, n)) => v_name(n) && i == n + r && ends_name(r), Err(_) => true }
{
  if i.len() > 0 && s_name_start(i[0]) {
    let p = |c: char| s_name_char(c);
    l_tw(p, i.skip(1));
    let k = 1 + tw(p, i.skip(1));
    let n = i.take(k);
    assert(i =~= n + i.skip(k));
    assert forall|j: int| 1 <= j < n.len() implies s_name_char(#[trigger] n[j]) by { assert(p(i.skip(1)[j - 1])); }
    if k < i.len() { assert(!p(i.skip(1)[k - 1])); assert(i.skip(k)[0] == i.skip(1)[k - 1]); }
  }
}
proof fn l_punct()
  ensures !s_name_char('='), !s_name_char(' '), !s_name_char('>'), !s_name_char('/'), !s_name_start('>'), !s_name_start('/'), !s_name_start('?'), !s_name_start('='), !s_name_start('<')
{ broadcast use ax_alpha, ax_alnum; }
proof fn l_ws_none(i: Str)
  requires i.len() == 0 || !s_is_ws(i[0])
  ensures skip_ws(i) == i
{ assert(i.skip(0) =~= i); }
proof fn l_name_not_ws(c: char)
  requires s_name_start(c)
  ensures !s_is_ws(c), c != '<', c != '>', c != '/', c != '=', c != '?', c != '!', c != '"', c != '\''
{ broadcast use ax_alpha; }
proof fn l_contains(s: Str, c: char)
  ensures contains_char(s, c) == !no_char(s, c)
  decreases s.len()
{
  if s.len() > 0 {
    l_contains(s.skip(1), c);
    if !(s[0] == c) {
      if no_char(s.skip(1), c) { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != c by { if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } } }
      else { let k = choose|k: int| 0 <= k < s.skip(1).len() && #[trigger] s.skip(1)[k] == c; assert(s[k + 1] == c); }
    } else { assert(s[0] == c); }
  }
}
proof fn l_until_char(q: char, v: Str, r: Str)
  requires no_char(v, q)
  ensures s_until(seq![q], v + seq![q] + r) == Ok::<(Str, Str), NE>((r, v)), find(v + seq![q] + r, seq![q]) == Some(v.len() as int)
  decreases v.len()
{
  broadcast use l_pfx1;
  let i = v + seq![q] + r;
  if v.len() == 0 { assert(i[0] == q); }
  else {
    assert(i[0] == v[0] && v[0] != q);
    assert(i.skip(1) =~= v.skip(1) + seq![q] + r);
    assert forall|k: int| 0 <= k < v.skip(1).len() implies #[trigger] v.skip(1)[k] != q by { assert(v.skip(1)[k] == v[k + 1]); }
    l_until_char(q, v.skip(1), r);
  }
  assert(i.skip((v.len() + 1) as int) =~= r);
  assert(i.take(v.len() as int) =~= v);
}
/// C08: a quoted value extends to the first matching quote.
pub proof fn t_quoted(q: char, v: Str, r: Str)
  requires q == '"' || q == '\'', no_char(v, q)
  ensures s_attr_value(seq![q] + v + seq![q] + r) == Ok::<(Str, (Str, bool)), NE>((r, (v, true)))
{
  let i = seq![q] + v + seq![q] + r;
  assert(i[0] == q);
  assert(i.skip(1) =~= v + seq![q] + r);
  l_until_char(q, v, r);
}
/// C08: an unquoted value is the longest run of its characters.
pub proof fn t_unquoted(v: Str, r: Str)
  requires v.len() > 0, forall|k: int| 0 <= k < v.len() ==> s_unq_char(#[trigger] v[k]), r.len() == 0 || !s_unq_char(r[0])
  ensures s_attr_value(v + r) == Ok::<(Str, (Str, bool)), NE>((r, (v, false)))
{
  let p = |c: char| s_unq_char(c);
  assert forall|k: int| 0 <= k < v.len() implies p(#[trigger] v[k]) by { assert(s_unq_char(v[k])); }
  l_tw_all(p, v, r);
  assert((v + r)[0] == v[0] && s_unq_char(v[0]));
  assert((v + r).skip(v.len() as int) =~= r);
  assert((v + r).take(v.len() as int) =~= v);
}
proof fn l_attr_escape(f: Fun<Str, Option<Str>>, s: Str)
  ensures s_expand(true, '&', f, s_attr_escape(s)) == Ok::<Str, Undef>(s), no_char(s_attr_escape(s), '"')
  decreases s.len()
{
  if s.len() > 0 {
    let c = s[0];
    let t = s.skip(1);
    l_attr_escape(f, t);
    l_dec_small();
    let e = s_attr_escape(t);
    let h = if c == '"' { seq!['&', '#', '3', '4', ';'] } else if c == '&' { seq!['&', '#', '3', '8', ';'] } else { seq![c] };
    assert(s_attr_escape(s) == h + e);
    if c == '"' { l_ref_lit(f, '"', '3', '4', e); }
    else if c == '&' { l_ref_lit(f, '&', '3', '8', e); }
    else { t_expand_prefix(true, '&', f, seq![c], e); }
    assert(seq![c] + t =~= s);
    assert(no_char(h, '"'));
    assert forall|k: int| 0 <= k < (h + e).len() implies #[trigger] (h + e)[k] != '"' by { if k < h.len() { assert((h + e)[k] == h[k]); } else { assert((h + e)[k] == e[k - h.len()]); } }
  }
}
/// The quoted text of a printed value: the quote, the body, and that the body expands to the value.
proof fn l_show_value(f: Fun<Str, Option<Str>>, v: Str) -> (r: (char, Str))
  ensures r.0 == '"' || r.0 == '\'', no_char(r.1, r.0), s_show_value(v) == seq!['='] + (seq![r.0] + r.1 + seq![r.0]), s_expand(true, '&', f, r.1) == Ok::<Str, Undef>(v)
{
  l_contains(v, '&'); l_contains(v, '"'); l_contains(v, '\'');
  let amp = contains_char(v, '&');
  if !amp && !contains_char(v, '"') {
    t_expand_none(true, '&', f, v);
    assert(s_show_value(v) =~= seq!['='] + (seq!['"'] + v + seq!['"']));
    ('"', v)
  } else if !amp && !contains_char(v, '\'') {
    t_expand_none(true, '&', f, v);
    assert(s_show_value(v) =~= seq!['='] + (seq!['\''] + v + seq!['\'']));
    ('\'', v)
  } else {
    l_attr_escape(f, v);
    assert(s_show_value(v) =~= seq!['='] + (seq!['"'] + s_attr_escape(v) + seq!['"']));
    ('"', s_attr_escape(v))
  }
}
/// C09: a rendered attribute reads back as the same attribute, whatever its value.
pub proof fn t_attr_round(cfg: Cfg, n: Str, v: Option<Str>, r: Str)
  requires v_name(n), cfg.name_normalization is Unchanged,
    v is None ==> ends_name(r) && (skip_ws(r).len() == 0 || skip_ws(r)[0] != '=')
  ensures s_ev_attr(s_show(Ev::Attr(n, v)) + r, cfg) == Ok::<(Str, Ev), NE>((r, Ev::Attr(n, v)))
{
  l_punct();
  let g = |v: (Str, bool)| if v.1 { s_rcdata(cfg, v.0) } else { Ok(v.0) };
  match v {
    None => { l_name_read(n, r); }
    Some(x) => {
      let f = s_lookup(cfg.entity_fn);
      let (q, b) = l_show_value(f, x);
      let val = seq![q] + b + seq![q] + r;
      let rest = seq!['='] + val;
      assert(s_show(Ev::Attr(n, v)) + r =~= n + rest);
      assert(rest[0] == '=');
      l_name_read(n, rest);
      l_ws_none(rest);
      assert(rest.skip(1) =~= val);
      assert(val[0] == q);
      l_ws_none(val);
      t_quoted(q, b, r);
      assert(s_rcdata(cfg, b) == Ok::<Str, NE>(x));
      assert(g((b, true)) == Ok::<Str, NE>(x));
    }
  }
}
// -------------------------------------------------------------------- C21
/// A processing instruction's text.
pub open spec fn v_pi(s: Str) -> bool { s.len() > 2 && s[0] == '<' && s[1] == '?' && s.last() == '>' && forall|k: int| 2 <= k < s.len() - 1 ==> #[trigger] s[k] != '>' }
/// Printable: complete start tags with valid names, valid end tags and processing instructions,
/// non-empty text no two pieces of which are adjacent.
pub open spec fn pc(evs: Seq<Ev>) -> bool
  decreases evs.len(), 0int
{
  if evs.len() == 0 { true } else {
    match evs[0] {
      Ev::Chars(t) => t.len() > 0 && (evs.len() < 2 || !(evs[1] is Chars)) && pc(evs.skip(1)),
      Ev::End(n) => (n.len() == 0 || v_name(n)) && pc(evs.skip(1)),
      Ev::Pi(s) => v_pi(s) && pc(evs.skip(1)),
      Ev::Open(n) => if n.len() == 0 { evs.len() > 1 && evs[1] is Close && pc(evs.skip(2)) } else { v_name(n) && pc_attrs(evs.skip(1)) },
      _ => false,
    }
  }
}
pub open spec fn pc_attrs(evs: Seq<Ev>) -> bool
  decreases evs.len(), 1int
{
  evs.len() > 0 && match evs[0] {
    Ev::Attr(n, _) => v_name(n) && pc_attrs(evs.skip(1)),
    Ev::Close => pc(evs.skip(1)),
    Ev::XmlClose => pc(evs.skip(1)),
    _ => false,
  }
}
/// The printed form starts with markup other than a declaration, or with text, or is empty.
pub open spec fn mk_start(i: Str) -> bool {
  i.len() >= 2 && i[0] == '<' && (i[1] == '?' || i[1] == '>' || s_name_start(i[1]) || (i[1] == '/' && i.len() > 2 && (i[2] == '>' || s_name_start(i[2]))))
}
proof fn l_show_cons(evs: Seq<Ev>)
  requires evs.len() > 0, !(evs[0] is Attr)
  ensures s_show_all(evs) == s_show(evs[0]) + s_show_all(evs.skip(1))
{ assert(Seq::<char>::empty() + s_show(evs[0]) =~= s_show(evs[0])); }
proof fn l_show_attr(evs: Seq<Ev>)
  requires evs.len() > 0, evs[0] is Attr
  ensures s_show_all(evs) == seq![' '] + (s_show(evs[0]) + s_show_all(evs.skip(1)))
{ assert(seq![' '] + s_show(evs[0]) + s_show_all(evs.skip(1)) =~= seq![' '] + (s_show(evs[0]) + s_show_all(evs.skip(1)))); }
proof fn l_show_attrs_start(evs: Seq<Ev>)
  requires pc_attrs(evs)
  ensures ends_name(s_show_all(evs)), s_show_all(evs).len() > 0, skip_ws(s_show_all(evs)).len() > 0, skip_ws(s_show_all(evs))[0] != '='
{
  l_punct();
  let x = s_show_all(evs);
  match evs[0] {
    Ev::Attr(n, v) => {
      l_show_attr(evs);
      let y = s_show(evs[0]) + s_show_all(evs.skip(1));
      assert(y[0] == n[0]);
      l_name_not_ws(n[0]);
      assert(x[0] == ' ');
      assert(x.skip(1) =~= y);
      assert(tw(p_ws(), y) == 0);
      reveal_with_fuel(tw, 3);
      assert(tw(p_ws(), x) == 1);
    }
    Ev::Close => { l_show_cons(evs); assert(x[0] == '>'); l_ws_none(x); }
    _ => { l_show_cons(evs); assert(x[0] == '/'); l_ws_none(x); }
  }
}
/// The attributes at the start of a tag's remaining events, and the events after them.
pub open spec fn attr_run(evs: Seq<Ev>) -> int
  decreases evs.len()
{ if evs.len() > 0 && evs[0] is Attr { 1 + attr_run(evs.skip(1)) } else { 0 } }
proof fn l_attrs_read(evs: Seq<Ev>, cfg: Cfg)
  requires pc_attrs(evs), cfg.name_normalization is Unchanged
  ensures ({
    let k = attr_run(evs);
    0 <= k < evs.len() && (evs[k] is Close || evs[k] is XmlClose) && pc(evs.skip(k + 1))
      && s_ev_attrs(skip_ws(s_show_all(evs)), cfg) == Ok::<(Str, Seq<Ev>), NE>((s_show_all(evs.skip(k)), evs.take(k)))
  })
  decreases evs.len()
{
  l_punct();
  let f = |j: Str| match s_ev_attr(j, cfg) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) };
  let x = s_show_all(evs);
  if evs[0] is Attr {
    let rest = evs.skip(1);
    let k = attr_run(rest);
    match evs[0] { Ev::Attr(n, v) => {
      l_show_attr(evs);
      let y = s_show(evs[0]) + s_show_all(rest);
      assert(y[0] == n[0]);
      l_name_not_ws(n[0]);
      assert(x[0] == ' ');
      assert(x.skip(1) =~= y);
      reveal_with_fuel(tw, 3);
      assert(tw(p_ws(), x) == 1);
      l_show_attrs_start(rest);
      t_attr_round(cfg, n, v, s_show_all(rest));
      l_attrs_read(rest, cfg);
      let z = skip_ws(s_show_all(rest));
      assert(f(y) == Ok::<(Str, Ev), NE>((z, evs[0])));
      l_tw_bound(p_ws(), s_show_all(rest));
      assert(s_show(evs[0]).len() > 0);
      assert(z.len() < y.len());
      assert(evs.skip(k + 1) =~= rest.skip(k));
      assert(evs.skip(k + 2) =~= rest.skip(k + 1));
      assert(evs.take(k + 1) =~= seq![evs[0]] + rest.take(k));
      assert(rest[k] == evs[k + 1]);
      assert(n_many0(f, z) == Ok::<(Str, Seq<Ev>), NE>((s_show_all(rest.skip(k)), rest.take(k))));
    } _ => {} }
  } else {
    l_show_cons(evs);
    match evs[0] { Ev::Close => { assert(x[0] == '>'); } _ => { assert(x[0] == '/'); } }
    l_ws_none(x);
    assert(s_ev_attr(x, cfg) == Err::<(Str, Ev), NE>(NE::Error));
    assert(f(x) == Err::<(Str, Ev), NE>(NE::Error));
    assert(evs.skip(0) =~= evs);
    assert(evs.take(0) =~= seq![]);
    assert(evs.skip(1) == evs.skip((0nat + 1) as int));
  }
}
proof fn l_group_read(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), evs.len() > 0, evs[0] is Open, cfg.name_normalization is Unchanged
  ensures ({
    let k = attr_run(evs.skip(1)) + 2;
    2 <= k <= evs.len() && pc(evs.skip(k)) && s_ev_start_tag(s_show_all(evs), cfg) == Ok::<(Str, Seq<Ev>), NE>((s_show_all(evs.skip(k)), evs.take(k))) && mk_start(s_show_all(evs))
  })
{
  broadcast use l_pfx2, l_pfx1;
  l_punct();
  let i = s_show_all(evs);
  let rest = evs.skip(1);
  l_show_cons(evs);
  match evs[0] { Ev::Open(n) => {
    let rt = s_show_all(rest);
    if n.len() == 0 {
      l_show_cons(rest);
      assert(rest[0] == evs[1]);
      assert(rest.skip(1) =~= evs.skip(2));
      assert(i =~= seq!['<', '>'] + s_show_all(evs.skip(2)));
      assert(i[0] == '<' && i[1] == '>');
      assert(i.skip(1)[0] == '>');
      assert(i.skip(2) =~= s_show_all(evs.skip(2)));
      assert(evs.take(2) =~= seq![Ev::Open(seq![]), Ev::Close]) by { assert(n =~= seq![]); }
      assert(attr_run(rest) == 0);
    } else {
      let k = attr_run(rest);
      assert(i.skip(1) =~= n + rt);
      assert(i[0] == '<' && i[1] == n[0]);
      l_show_attrs_start(rest);
      l_name_read(n, rt);
      l_attrs_read(rest, cfg);
      let c = rest.skip(k);
      assert(c[0] == rest[k]);
      l_show_cons(c);
      let y = s_show_all(c);
      assert(c.skip(1) =~= evs.skip(k + 2));
      match rest[k] {
        Ev::Close => { assert(y[0] == '>'); assert(y.skip(1) =~= s_show_all(c.skip(1))); }
        _ => { assert(y[0] == '/' && y[1] == '>'); assert(y.skip(2) =~= s_show_all(c.skip(1))); }
      }
      assert(s_ev_close(y) == Ok::<(Str, Ev), NE>((s_show_all(evs.skip(k + 2)), rest[k])));
      assert(evs.take(k + 2) =~= seq![evs[0]] + rest.take(k) + seq![rest[k]]);
      assert(rest.skip(k + 1) =~= evs.skip(k + 2));
    }
  } _ => {} }
}
proof fn l_end_read(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), evs.len() > 0, evs[0] is End, cfg.name_normalization is Unchanged
  ensures s_ev_end_tag(s_show_all(evs), cfg) == Ok::<(Str, Ev), NE>((s_show_all(evs.skip(1)), evs[0])), mk_start(s_show_all(evs)),
    s_ev_start_tag(s_show_all(evs), cfg) == Err::<(Str, Seq<Ev>), NE>(NE::Error)
{
  broadcast use l_pfx2, l_pfx1;
  l_punct();
  let i = s_show_all(evs);
  let r = s_show_all(evs.skip(1));
  l_show_cons(evs);
  match evs[0] { Ev::End(n) => {
    assert(i =~= seq!['<', '/'] + (n + (seq!['>'] + r)));
    assert(i[0] == '<' && i[1] == '/');
    assert(i.skip(2) =~= n + (seq!['>'] + r));
    assert(i.skip(1)[0] == '/');
    if n.len() == 0 {
      assert(n =~= seq![]);
      assert(i.skip(2) =~= seq!['>'] + r);
      assert(i[2] == '>');
      assert(i.skip(2)[0] == '>');
      assert(i.skip(3) =~= r);
    } else {
      assert(i[2] == n[0]);
      let g = seq!['>'] + r;
      assert(g[0] == '>');
      l_name_read(n, g);
      l_ws_none(g);
      assert(g.skip(1) =~= r);
    }
  } _ => {} }
}
proof fn l_pi_read(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), evs.len() > 0, evs[0] is Pi, !cfg.ignore_processing_instructions
  ensures s_ev_pi(s_show_all(evs), cfg) == Ok::<(Str, Seq<Ev>), NE>((s_show_all(evs.skip(1)), seq![evs[0]])), mk_start(s_show_all(evs)),
    s_ev_start_tag(s_show_all(evs), cfg) == Err::<(Str, Seq<Ev>), NE>(NE::Error), s_ev_end_tag(s_show_all(evs), cfg) == Err::<(Str, Ev), NE>(NE::Error)
{
  broadcast use l_pfx2, l_pfx1;
  l_punct();
  let i = s_show_all(evs);
  let r = s_show_all(evs.skip(1));
  l_show_cons(evs);
  match evs[0] { Ev::Pi(s) => {
    let b = s.subrange(2, s.len() - 1);
    assert(i[0] == '<' && i[1] == '?');
    assert(i.skip(1)[0] == '?');
    assert(i.skip(2) =~= b + seq!['>'] + r);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] != '>' by { assert(b[k] == s[k + 2]); }
    l_until_char('>', b, r);
    assert(consumed(i, r) =~= s);
  } _ => {} }
}
/// Where text without `<` ends.
proof fn l_text_plain_len(t: Str, r: Str)
  requires no_char(t, '<'), r.len() == 0 || (r[0] == '<' && s_markup_after_lt(r.skip(1)))
  ensures s_text_len(Mse::TreatAsText, t + r) == t.len()
  decreases t.len()
{
  let i = t + r;
  if t.len() == 0 { assert(i =~= r); }
  else {
    assert(i[0] == t[0] && t[0] != '<');
    assert(i.skip(1) =~= t.skip(1) + r);
    assert forall|k: int| 0 <= k < t.skip(1).len() implies #[trigger] t.skip(1)[k] != '<' by { assert(t.skip(1)[k] == t[k + 1]); }
    l_text_plain_len(t.skip(1), r);
  }
}
proof fn l_mk_start(i: Str)
  requires mk_start(i)
  ensures s_markup_after_lt(i.skip(1)), s_text(i, Mse::TreatAsText) == Err::<(Str, Str), NE>(NE::Error), s_comment_decl(i) == Err::<(Str, Str), NE>(NE::Error),
    s_comment_decls(i) == Ok::<(Str, Seq<Str>), NE>((i, seq![]))
{
  broadcast use l_pfx2, l_pfx1, ax_alpha;
  let j = i.skip(1);
  assert(j[0] == i[1]);
  if i.len() > 2 { assert(j[1] == i[2]); }
}
proof fn l_plain_start(i: Str)
  requires i.len() == 0 || i[0] != '<'
  ensures s_comment_decl(i) == Err::<(Str, Str), NE>(NE::Error), s_comment_decls(i) == Ok::<(Str, Seq<Str>), NE>((i, seq![]))
{ broadcast use l_pfx2; }
/// Any printable event list prints to nothing, to text, or to something starting with markup.
proof fn l_pc_start(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), cfg.name_normalization is Unchanged, !cfg.ignore_processing_instructions
  ensures s_comment_decls(s_show_all(evs)) == Ok::<(Str, Seq<Str>), NE>((s_show_all(evs), seq![])),
    evs.len() == 0 ==> s_show_all(evs).len() == 0,
    evs.len() > 0 && !(evs[0] is Chars) ==> mk_start(s_show_all(evs)),
    evs.len() > 0 ==> s_show_all(evs).len() > 0
{
  if evs.len() == 0 { l_plain_start(s_show_all(evs)); }
  else {
    match evs[0] {
      Ev::Chars(t) => { l_show_cons(evs); t_escape_plain(true, t); l_escape_nonempty(t); let x = s_show_all(evs); assert(x[0] == s_escape(true, t)[0]); l_plain_start(x); }
      Ev::End(_) => { l_end_read(evs, cfg); l_mk_start(s_show_all(evs)); }
      Ev::Pi(_) => { l_pi_read(evs, cfg); l_mk_start(s_show_all(evs)); }
      _ => { l_group_read(evs, cfg); l_mk_start(s_show_all(evs)); }
    }
  }
}
proof fn l_escape_nonempty(t: Str)
  requires t.len() > 0
  ensures s_escape(true, t).len() > 0
{ assert(s_escape_char(true, t[0]).len() > 0); }
/// Number of events printed as one unit of content.
pub open spec fn unit_len(evs: Seq<Ev>) -> int { if evs[0] is Open { attr_run(evs.skip(1)) + 2 } else { 1 } }
proof fn l_unit_read(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), evs.len() > 0, cfg.name_normalization is Unchanged, !cfg.ignore_processing_instructions, !cfg.trim_whitespace
  ensures ({
    let k = unit_len(evs);
    1 <= k <= evs.len() && pc(evs.skip(k)) && s_content_unit(s_show_all(evs), cfg, Mse::TreatAsText) == Ok::<(Str, Seq<Ev>), NE>((s_show_all(evs.skip(k)), evs.take(k)))
      && s_show_all(evs.skip(k)).len() < s_show_all(evs).len()
  })
{
  hide(s_section); hide(s_ev_start_tag); hide(s_ev_end_tag); hide(s_ev_pi); hide(s_comment_decls); hide(s_expand);
  let i = s_show_all(evs);
  let k = unit_len(evs);
  let stop = Mse::TreatAsText;
  match evs[0] {
    Ev::Chars(t) => {
      let rest = evs.skip(1);
      let r = s_show_all(rest);
      let e = s_escape(true, t);
      l_show_cons(evs);
      t_escape_plain(true, t);
      l_escape_nonempty(t);
      l_pc_start(rest, cfg);
      if rest.len() > 0 { assert(rest[0] == evs[1]); l_mk_start(r); }
      l_text_plain_len(e, r);
      assert(i.skip(e.len() as int) =~= r);
      assert(i.take(e.len() as int) =~= e);
      t_escape_expand(s_lookup(cfg.entity_fn), t);
      assert(s_ev_text(i, cfg, stop) == Ok::<(Str, Seq<Ev>), NE>((r, seq![Ev::Chars(t)])));
      assert(evs.take(1) =~= seq![evs[0]]);
    }
    Ev::End(_) => { l_end_read(evs, cfg); l_mk_start(i); l_show_cons(evs); l_pc_start(evs.skip(1), cfg); assert(evs.take(1) =~= seq![evs[0]]); }
    Ev::Pi(_) => { l_pi_read(evs, cfg); l_mk_start(i); l_show_cons(evs); l_pc_start(evs.skip(1), cfg); assert(evs.take(1) =~= seq![evs[0]]); }
    _ => { l_group_read(evs, cfg); l_mk_start(i); l_pc_start(evs.skip(k), cfg); l_show_len(evs, k); }
  }
}
proof fn l_show_len(evs: Seq<Ev>, k: int)
  requires 1 <= k <= evs.len(), evs[0] is Open
  ensures s_show_all(evs.skip(k)).len() < s_show_all(evs).len()
{
  l_show_cons(evs);
  l_show_len0(evs.skip(1), k - 1);
  assert(evs.skip(1).skip(k - 1) =~= evs.skip(k));
}
proof fn l_show_len0(evs: Seq<Ev>, k: int)
  requires 0 <= k <= evs.len()
  ensures s_show_all(evs.skip(k)).len() <= s_show_all(evs).len()
  decreases k
{
  if k == 0 { assert(evs.skip(0) =~= evs); }
  else { l_show_len0(evs.skip(1), k - 1); assert(evs.skip(1).skip(k - 1) =~= evs.skip(k)); }
}
proof fn l_units_read(evs: Seq<Ev>, cfg: Cfg, i: Str)
  requires pc(evs), cfg.name_normalization is Unchanged, !cfg.ignore_processing_instructions, !cfg.trim_whitespace, s_show_all(evs).len() <= i.len()
  ensures pr_flat(n_many0(|j: Str| if j.len() <= i.len() { s_content_unit(j, cfg, Mse::TreatAsText) } else { Err(NE::Error) }, s_show_all(evs))) == Ok::<(Str, Seq<Ev>), NE>((seq![], evs))
  decreases evs.len()
{
  let f = |j: Str| if j.len() <= i.len() { s_content_unit(j, cfg, Mse::TreatAsText) } else { Err(NE::Error) };
  if evs.len() == 0 {
    l_nothing(cfg);
    assert(s_show_all(evs) =~= seq![]);
    assert(f(seq![]) == Err::<(Str, Seq<Ev>), NE>(NE::Error));
    assert(evs =~= seq![]);
    assert(flatten(Seq::<Seq<Ev>>::empty()) =~= seq![]);
  } else {
    let k = unit_len(evs);
    l_unit_read(evs, cfg);
    let r = s_show_all(evs.skip(k));
    assert(f(s_show_all(evs)) == Ok::<(Str, Seq<Ev>), NE>((r, evs.take(k))));
    l_units_read(evs.skip(k), cfg, i);
    match n_many0(f, r) { Ok((_, ts)) => { l_flat_head(evs.take(k), ts); assert(evs.take(k) + evs.skip(k) =~= evs); } Err(_) => {} }
  }
}
proof fn l_nothing(cfg: Cfg)
  ensures s_content_unit(seq![], cfg, Mse::TreatAsText) == Err::<(Str, Seq<Ev>), NE>(NE::Error), s_ev_pi(seq![], cfg) == Err::<(Str, Seq<Ev>), NE>(NE::Error)
{ broadcast use l_pfx2, l_pfx1, l_pfx3; }
/// C21: a printable document inside an element parses, trimming off, to the same events.
pub proof fn t_print_parse(evs: Seq<Ev>, cfg: Cfg)
  requires pc(evs), evs.len() > 0, evs[0] is Open, cfg.name_normalization is Unchanged, !cfg.ignore_processing_instructions, !cfg.trim_whitespace
  ensures s_document(s_show_all(evs), cfg) == Ok::<(Str, Seq<Ev>), NE>((seq![], evs))
{
  hide(s_content_unit); hide(s_content); hide(flatten);
  let i = s_show_all(evs);
  let f = |j: Str| if j.len() <= i.len() { s_content_unit(j, cfg, Mse::TreatAsText) } else { Err(NE::Error) };
  let k = unit_len(evs);
  l_unit_read(evs, cfg);
  l_group_read(evs, cfg);
  l_mk_start(i);
  let r = s_show_all(evs.skip(k));
  assert(f(i) == Ok::<(Str, Seq<Ev>), NE>((r, evs.take(k))));
  l_units_read(evs.skip(k), cfg, i);
  match n_many0(f, r) { Ok((_, ts)) => { l_flat_head(evs.take(k), ts); assert(evs.take(k) + evs.skip(k) =~= evs); } Err(_) => {} }
  assert(pr_flat(n_many1(f, i)) == Ok::<(Str, Seq<Ev>), NE>((seq![], evs)));
  l_content_open(i, cfg, Mse::TreatAsText);
  l_before(i, cfg);
  l_document_parts(i, cfg);
  l_after(cfg);
  assert(Seq::<Ev>::empty() + evs + Seq::<Ev>::empty() =~= evs);
}
proof fn l_after(cfg: Cfg)
  ensures s_epilog(seq![], cfg) == Ok::<(Str, Seq<Ev>), NE>((seq![], seq![]))
{
  l_nothing(cfg);
  let g = |j: Str| then_comments(s_ev_pi(j, cfg));
  assert(g(seq![]) == Err::<(Str, Seq<Ev>), NE>(NE::Error));
  assert(n_many0(g, seq![]) == Ok::<(Str, Seq<Seq<Ev>>), NE>((seq![], seq![])));
  assert(flatten(Seq::<Seq<Ev>>::empty()) =~= seq![]);
}
/// Before the first tag there is neither comment nor declaration.
proof fn l_before(i: Str, cfg: Cfg)
  requires mk_start(i), i[1] == '>' || s_name_start(i[1])
  ensures s_comments_and_spaces(i) == Ok::<(Str, Str), NE>((i, seq![])), s_prolog(i, cfg) == Ok::<(Str, Seq<Ev>), NE>((i, seq![]))
{
  broadcast use l_pfx2, l_pfx1, l_pfx3, ax_alpha;
  l_mk_start(i);
  let c = |j: Str| match s_comment_decl(j) { Err(NE::Error) => n_take_while1(p_ws(), j), x => x };
  assert(tw(p_ws(), i) == 0);
  assert(c(i) == Err::<(Str, Str), NE>(NE::Error));
  assert(n_many0(c, i) == Ok::<(Str, Seq<Str>), NE>((i, seq![])));
  assert(consumed(i, i) =~= seq![]);
  let f = |j: Str| then_comments(match s_ev_decl(j, cfg) { Err(NE::Error) => match s_section(j, cfg) { Err(NE::Error) => s_ev_pi(j, cfg), x => x }, x => x });
  assert(f(i) == Err::<(Str, Seq<Ev>), NE>(NE::Error));
  assert(n_many0(f, i) == Ok::<(Str, Seq<Seq<Ev>>), NE>((i, seq![])));
  assert(flatten(Seq::<Seq<Ev>>::empty()) =~= seq![]);
}
