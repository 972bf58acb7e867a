// ------------------------------------------- C18: comments between constructs
/// The two texts agree on their first `h` characters.
pub open spec fn near(i: Str, j: Str, h: int) -> bool { 0 <= h <= i.len() && h <= j.len() && forall|k: int| 0 <= k < h ==> #[trigger] i[k] == j[k] }
/// How much of `i` is gone when `r` is left.
pub open spec fn gone(i: Str, r: Str) -> int { i.len() - r.len() }
/// What was read, and `m` characters behind it, decide the result.
pub open spec fn loc<T>(x: PR<T>, y: PR<T>, i: Str, j: Str, h: int, m: int) -> bool {
  match x {
    Ok((r, v)) => 0 <= gone(i, r) && r == i.skip(gone(i, r)) && (gone(i, r) + m <= h ==> y == Ok::<(Str, T), NE>((j.skip(gone(i, r)), v))),
    Err(_) => true,
  }
}
pub proof fn k_skip(i: Str, j: Str, h: int, c: int)
  requires near(i, j, h), 0 <= c <= h
  ensures near(i.skip(c), j.skip(c), h - c), i.take(c) == j.take(c)
{
  assert forall|k: int| 0 <= k < h - c implies #[trigger] i.skip(c)[k] == j.skip(c)[k] by { assert(i[c + k] == j[c + k]); }
  assert(i.take(c) =~= j.take(c));
}
pub proof fn k_part(i: Str, j: Str, h: int, g: int)
  requires near(i, j, h), 0 <= g <= h
  ensures near(i, j, g)
{}
pub proof fn k_tw(p: Fun<char, bool>, i: Str, j: Str, h: int)
  requires near(i, j, h), tw(p, i) < h
  ensures tw(p, j) == tw(p, i)
  decreases i.len()
{
  broadcast use l_tw_bound;
  if i.len() > 0 {
    assert(0 <= tw(p, i)); assert(h > 0); assert(i[0] == j[0]);
    if p(i[0]) { k_skip(i, j, h, 1); k_tw(p, i.skip(1), j.skip(1), h - 1); }
  }
}
pub proof fn k_pfx(i: Str, j: Str, h: int, d: Str)
  requires near(i, j, h), d.len() <= h
  ensures pfx(i, d) == pfx(j, d)
{
  if pfx(i, d) { assert forall|k: int| 0 <= k < d.len() implies #[trigger] j[k] == d[k] by { assert(i[k] == d[k]); } }
  if pfx(j, d) { assert forall|k: int| 0 <= k < d.len() implies #[trigger] i[k] == d[k] by { assert(j[k] == d[k]); } }
}
pub proof fn k_find(i: Str, j: Str, h: int, d: Str)
  requires near(i, j, h)
  ensures match find(i, d) { Some(k) => 0 <= k && (k + d.len() <= h ==> find(j, d) == Some(k)), None => true }
  decreases i.len()
{
  if pfx(i, d) { if d.len() <= h { k_pfx(i, j, h, d); } }
  else if i.len() > 0 {
    if h > 0 { k_skip(i, j, h, 1); k_find(i.skip(1), j.skip(1), h - 1, d); match find(i.skip(1), d) { Some(k) => { if k + 1 + d.len() <= h { k_pfx(i, j, h, d); } } None => {} } }
    else { k_find(i.skip(1), i.skip(1), 0, d); }
  }
}
pub proof fn k_until(d: Str, i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures loc(s_until(d, i), s_until(d, j), i, j, h, 0)
{
  broadcast use l_find;
  k_find(i, j, h, d);
  match find(i, d) { Some(k) => { if k + d.len() <= h { k_skip(i, j, h, k); } } None => {} }
}
pub proof fn k_ws(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures 0 <= gone(i, skip_ws(i)) <= i.len(), gone(i, skip_ws(i)) == tw(p_ws(), i), skip_ws(i) == i.skip(tw(p_ws(), i)), gone(i, skip_ws(i)) < h ==> skip_ws(j) == j.skip(gone(i, skip_ws(i)))
{
  broadcast use l_tw_bound;
  if tw(p_ws(), i) < h { k_tw(p_ws(), i, j, h); }
}
pub proof fn k_name(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures loc(s_name(i), s_name(j), i, j, h, 1), s_name(i) is Err && h > 0 ==> s_name(j) is Err, s_name(i) is Ok ==> s_name(i)->Ok_0.0.len() < i.len()
{
  broadcast use l_tw_bound;
  if h > 0 { assert(i[0] == j[0]); }
  if i.len() > 0 && s_name_start(i[0]) && h > 0 {
    let q = |c: char| s_name_char(c);
    k_skip(i, j, h, 1);
    let k = 1 + tw(q, i.skip(1));
    if k + 1 <= h { k_tw(q, i.skip(1), j.skip(1), h - 1); k_skip(i, j, h, k); }
  }
}
/// Repetition of such a parser, when it stops in the same place.
pub proof fn k_many0<T>(p: Fun<Str, PR<T>>, i: Str, j: Str, h: int, m: int)
  requires near(i, j, h), 0 <= m, forall|a: Str, b: Str, g: int| #[trigger] near(a, b, g) && a.len() <= i.len() ==> loc(p(a), p(b), a, b, g, m)
  ensures match n_many0(p, i) {
    Ok((r, ts)) => 0 <= gone(i, r) && r == i.skip(gone(i, r)) && p(r) == Err::<(Str, T), NE>(NE::Error)
      && (gone(i, r) + m <= h && p(j.skip(gone(i, r))) == Err::<(Str, T), NE>(NE::Error) ==> n_many0(p, j) == Ok::<(Str, Seq<T>), NE>((j.skip(gone(i, r)), ts))),
    Err(_) => true,
  }
  decreases i.len()
{
  broadcast use l_many0_len;
  assert(loc(p(i), p(j), i, j, h, m));
  match p(i) {
    Ok((r, t)) => {
      if r.len() < i.len() {
        let c = gone(i, r);
        if c <= h {
          k_skip(i, j, h, c);
          k_many0(p, r, j.skip(c), h - c, m);
          match n_many0(p, r) { Ok((r2, ts)) => {
            let d = gone(r, r2);
            assert(i.skip(c).skip(d) =~= i.skip(c + d));
            if c + d <= h { assert(j.skip(c).skip(d) =~= j.skip(c + d)); }
          } Err(_) => {} }
        } else {
          assert(near(r, r, 0));
          k_many0(p, r, r, 0, m);
          match n_many0(p, r) { Ok((r2, ts)) => { assert(i.skip(c).skip(gone(r, r2)) =~= i.skip(c + gone(r, r2))); } Err(_) => {} }
        }
      }
    }
    Err(_) => { assert(i.skip(0) =~= i); assert(j.skip(0) =~= j); }
  }
}
pub proof fn k_comment(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures loc(s_comment(i), s_comment(j), i, j, h, 0)
{
  broadcast use l_pfx2;
  if pfx(i, seq!['-', '-']) {
    if h >= 2 {
      assert(i[0] == j[0] && i[1] == j[1]);
      k_skip(i, j, h, 2);
      k_until(seq!['-', '-'], i.skip(2), j.skip(2), h - 2);
      match s_until(seq!['-', '-'], i.skip(2)) { Ok((r, _)) => { let d = gone(i.skip(2), r); assert(i.skip(2).skip(d) =~= i.skip(2 + d)); if 2 + d <= h { assert(j.skip(2).skip(d) =~= j.skip(2 + d)); } } Err(_) => {} }
    } else {
      broadcast use l_find;
      match s_until(seq!['-', '-'], i.skip(2)) { Ok((r, _)) => { let d = gone(i.skip(2), r); assert(i.skip(2).skip(d) =~= i.skip(2 + d)); } Err(_) => {} }
    }
  }
}
pub proof fn k_ws_comment(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures loc(s_comment(skip_ws(i)), s_comment(skip_ws(j)), i, j, h, 0)
{
  broadcast use l_pfx2;
  k_ws(i, j, h);
  let c = gone(i, skip_ws(i));
  let a = i.skip(c);
  if c < h { k_skip(i, j, h, c); k_comment(a, j.skip(c), h - c); } else { assert(near(a, a, 0)); k_comment(a, a, 0); }
  match s_comment(a) { Ok((r, _)) => { let d = gone(a, r); assert(i.skip(c).skip(d) =~= i.skip(c + d)); assert(d >= 2) by { broadcast use l_find; } if c + d <= h { assert(j.skip(c).skip(d) =~= j.skip(c + d)); } } Err(_) => {} }
}
/// The first characters of a comment declaration.
pub open spec fn cd_head(i: Str) -> bool { i.len() > 2 && i[0] == '<' && i[1] == '!' && (i[2] == '-' || i[2] == '>') }
pub proof fn k_comment_decl(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures loc(s_comment_decl(i), s_comment_decl(j), i, j, h, 0), s_comment_decl(i) == Err::<(Str, Str), NE>(NE::Error) <==> !cd_head(i), s_comment_decl(i) is Ok ==> s_comment_decl(i)->Ok_0.0.len() + 3 <= i.len()
{
  broadcast use l_pfx2;
  broadcast use l_more_comments;
  if cd_head(i) {
    let a = i.skip(2);
    if h >= 2 { k_skip(i, j, h, 2); k_comment(a, j.skip(2), h - 2); } else { assert(near(a, a, 0)); k_comment(a, a, 0); }
    if h >= 3 { assert(i[0] == j[0] && i[1] == j[1] && i[2] == j[2]); }
    match s_comment(a) {
      Ok((r, _)) => {
        let c = gone(a, r);
        assert(c >= 2) by { broadcast use l_find; }
        let p = |x: Str| s_comment(skip_ws(x));
        assert forall|x: Str, y: Str, g: int| #[trigger] near(x, y, g) && x.len() <= r.len() implies loc(p(x), p(y), x, y, g, 0) by { k_ws_comment(x, y, g); }
        let b = j.skip(2).skip(c);
        let n = 2 + c <= h;
        if n { k_skip(a, j.skip(2), h - 2, c); k_many0(p, r, b, h - 2 - c, 0); } else { assert(near(r, r, 0)); k_many0(p, r, r, 0, 0); }
        match n_many0(p, r) {
          Ok((r2, ts)) => {
            assert(s_more_comments(r) == Ok::<(Str, Seq<Str>), NE>((r2, ts)));
            let d = gone(r, r2);
            assert(r2 =~= i.skip(2 + c + d));
            if r2.len() > 0 && r2[0] == '>' {
              let e = 2 + c + d + 1;
              assert(r2.skip(1) =~= i.skip(e));
              if e <= h {
                let s2 = b.skip(d);
                assert(s2 =~= j.skip(2 + c + d));
                assert(i[2 + c + d] == j[2 + c + d]);
                assert(s2[0] == '>');
                assert(tw(p_ws(), s2) == 0);
                assert(s2.skip(0) =~= s2);
                assert(p(s2) == Err::<(Str, Str), NE>(NE::Error));
                assert(s2.skip(1) =~= j.skip(e));
                k_skip(i, j, h, e);
              }
            }
          }
          Err(_) => {}
        }
      }
      Err(e) => { if i[2] == '>' && h >= 3 { k_skip(i, j, h, 3); } }
    }
  }
}
pub proof fn k_comment_decls(i: Str, j: Str, h: int)
  requires near(i, j, h)
  ensures match s_comment_decls(i) {
    Ok((r, v)) => 0 <= gone(i, r) && r == i.skip(gone(i, r)) && !cd_head(r) && (gone(i, r) <= h && !cd_head(j.skip(gone(i, r))) ==> s_comment_decls(j) == Ok::<(Str, Seq<Str>), NE>((j.skip(gone(i, r)), v))),
    Err(_) => true,
  }
{
  let p = |x: Str| s_comment_decl(x);
  assert forall|x: Str, y: Str, g: int| #[trigger] near(x, y, g) && x.len() <= i.len() implies loc(p(x), p(y), x, y, g, 0) by { k_comment_decl(x, y, g); }
  k_many0(p, i, j, h, 0);
  match n_many0(p, i) { Ok((r, v)) => {
    assert(near(r, r, 0)); k_comment_decl(r, r, 0);
    let s = j.skip(gone(i, r)); assert(near(s, s, 0)); k_comment_decl(s, s, 0);
  } Err(_) => {} }
}
/// Where a comment declaration ends, and what is in it, does not depend on what stands behind it.
pub proof fn t_comment_local(c: Str, b: Str, d: Str)
  requires s_comment_decl(c + b) is Ok, s_comment_decl(c + b)->Ok_0.0 == b
  ensures s_comment_decl(c + d) == Ok::<(Str, Str), NE>((d, s_comment_decl(c + b)->Ok_0.1))
{
  assert forall|k: int| 0 <= k < c.len() implies #[trigger] (c + b)[k] == (c + d)[k] by {}
  k_comment_decl(c + b, c + d, c.len() as int);
  assert((c + b).skip(c.len() as int) =~= b);
  assert((c + d).skip(c.len() as int) =~= d);
}
