// ---------------------------------------------------------------- sequences
pub broadcast proof fn l_skip_skip<T>(s: Seq<T>, a: int, b: int)
  requires 0 <= a, 0 <= b, a + b <= s.len()
  ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn l_skip_0<T>(s: Seq<T>)
  ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn l_take_len<T>(s: Seq<T>, n: int)
  requires n == s.len()
  ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn l_take_skip<T>(s: Seq<T>, a: int)
  requires 0 <= a <= s.len()
  ensures #[trigger] s.take(a) + #[trigger] s.skip(a) == s
{ assert(s.take(a) + s.skip(a) =~= s); }

pub broadcast proof fn l_pfx1(i: Str, a: char)
  ensures #[trigger] pfx(i, seq![a]) == (i.len() >= 1 && i[0] == a)
{ let d = seq![a]; assert(d.len() == 1 && d[0] == a); if i.len() >= 1 && i[0] == a { assert forall|k: int| 0 <= k < d.len() implies #[trigger] i[k] == d[k] by {} } }
pub broadcast proof fn l_pfx2(i: Str, a: char, b: char)
  ensures #[trigger] pfx(i, seq![a, b]) == (i.len() >= 2 && i[0] == a && i[1] == b)
{ let d = seq![a, b]; assert(d.len() == 2 && d[0] == a && d[1] == b); if i.len() >= 2 && i[0] == a && i[1] == b { assert forall|k: int| 0 <= k < d.len() implies #[trigger] i[k] == d[k] by {} } else if pfx(i, d) { assert(i[0] == d[0]); assert(i[1] == d[1]); } }
pub broadcast proof fn l_pfx3(i: Str, a: char, b: char, c: char)
  ensures #[trigger] pfx(i, seq![a, b, c]) == (i.len() >= 3 && i[0] == a && i[1] == b && i[2] == c)
{ let d = seq![a, b, c]; assert(d.len() == 3 && d[0] == a && d[1] == b && d[2] == c); if i.len() >= 3 && i[0] == a && i[1] == b && i[2] == c { assert forall|k: int| 0 <= k < d.len() implies #[trigger] i[k] == d[k] by {} } else if pfx(i, d) { assert(i[0] == d[0]); assert(i[1] == d[1]); assert(i[2] == d[2]); } }

// --------------------------------------------------------------- tw, find
pub broadcast proof fn l_tw_bound(p: Fun<char, bool>, i: Str)
  ensures 0 <= #[trigger] tw(p, i) <= i.len()
  decreases i.len()
{ if i.len() > 0 && p(i[0]) { l_tw_bound(p, i.skip(1)); } }
pub proof fn l_tw_ext1(p: Fun<char, bool>, q: Fun<char, bool>, i: Str)
  requires forall|c: char| #[trigger] p(c) == q(c)
  ensures tw(p, i) == tw(q, i)
  decreases i.len()
{ if i.len() > 0 && p(i[0]) { l_tw_ext1(p, q, i.skip(1)); } }
pub broadcast proof fn l_tw_ext(p: Fun<char, bool>, q: Fun<char, bool>, i: Str)
  requires forall|c: char| #[trigger] p(c) == q(c)
  ensures #[trigger] tw(p, i) == #[trigger] tw(q, i)
{ l_tw_ext1(p, q, i); }
pub broadcast proof fn l_trim_end_ext(p: Fun<char, bool>, q: Fun<char, bool>, i: Str)
  requires forall|c: char| #[trigger] p(c) == q(c)
  ensures #[trigger] trim_end(p, i) == #[trigger] trim_end(q, i)
  decreases i.len()
{ if i.len() > 0 && p(i[i.len() - 1]) { l_trim_end_ext(p, q, i.take(i.len() - 1)); } }
/// Where `tw` stops.
pub proof fn l_tw(p: Fun<char, bool>, i: Str)
  ensures 0 <= tw(p, i) <= i.len(), forall|k: int| 0 <= k < tw(p, i) ==> p(#[trigger] i[k]), tw(p, i) < i.len() ==> !p(i[tw(p, i)])
  decreases i.len()
{
  if i.len() > 0 && p(i[0]) {
    l_tw(p, i.skip(1));
    assert forall|k: int| 0 <= k < tw(p, i) implies p(#[trigger] i[k]) by { if k > 0 { assert(i[k] == i.skip(1)[k - 1]); } }
    if tw(p, i) < i.len() { assert(i[tw(p, i)] == i.skip(1)[tw(p, i) - 1]); }
  }
}
pub broadcast proof fn l_find(i: Str, d: Str)
  ensures match #[trigger] find(i, d) {
    Some(k) => 0 <= k && k + d.len() <= i.len() && pfx(i.skip(k), d),
    None => true,
  }
  decreases i.len()
{ if !pfx(i, d) && i.len() > 0 { l_find(i.skip(1), d); if let Some(k) = find(i.skip(1), d) { assert(i.skip(1).skip(k) =~= i.skip(k + 1)); } } else { assert(i.skip(0) =~= i); } }

pub proof fn l_find_first(i: Str, d: Str)
  ensures match find(i, d) {
    Some(k) => forall|j: int| 0 <= j < k ==> !pfx(#[trigger] i.skip(j), d),
    None => forall|j: int| 0 <= j <= i.len() ==> !pfx(#[trigger] i.skip(j), d),
  }
  decreases i.len()
{
  assert(i.skip(0) =~= i);
  if !pfx(i, d) && i.len() > 0 {
    let t = i.skip(1);
    l_find_first(t, d); l_find(t, d);
    match find(t, d) {
      Some(k) => {
        assert(find(i, d) == Some(k + 1));
        assert forall|j: int| 0 <= j < k + 1 implies !pfx(#[trigger] i.skip(j), d) by {
          if j > 0 { assert(!pfx(t.skip(j - 1), d)); assert(i.skip(j) =~= t.skip(j - 1)); }
        }
      }
      None => {
        assert forall|j: int| 0 <= j <= i.len() implies !pfx(#[trigger] i.skip(j), d) by {
          if j > 0 { assert(!pfx(t.skip(j - 1), d)); assert(i.skip(j) =~= t.skip(j - 1)); }
        }
      }
    }
  }
}
pub proof fn l_pfx_take(i: Str, k: int, j: int, d: Str)
  requires 0 <= j <= k <= i.len()
  ensures pfx(i.take(k).skip(j), d) <==> (j + d.len() <= k && pfx(i.skip(j), d))
{
  let a = i.take(k).skip(j);
  let b = i.skip(j);
  assert(a.len() == k - j && b.len() == i.len() - j);
  assert forall|m: int| 0 <= m < a.len() implies a[m] == b[m] by {}
  if pfx(a, d) { assert forall|m: int| 0 <= m < d.len() implies #[trigger] b[m] == d[m] by { assert(a[m] == d[m]); } }
  if j + d.len() <= k && pfx(b, d) { assert forall|m: int| 0 <= m < d.len() implies #[trigger] a[m] == d[m] by { assert(b[m] == d[m]); } }
}

// ------------------------------------------------------------ byte offsets
pub broadcast proof fn l_blen_split(i: Str, k: int)
  requires 0 <= k <= i.len()
  ensures #[trigger] blen(i.take(k)) + blen(i.skip(k)) == blen(i)
  decreases i.len()
{
  if k > 0 {
    l_blen_split(i.skip(1), k - 1);
    assert(i.take(k).skip(1) =~= i.skip(1).take(k - 1));
    assert(i.skip(1).skip(k - 1) =~= i.skip(k));
    assert(i.take(k)[0] == i[0]);
  } else { assert(i.skip(0) =~= i); }
}
pub broadcast proof fn l_blen_pos(i: Str)
  ensures i.len() <= #[trigger] blen(i) <= 4 * i.len()
  decreases i.len()
{ if i.len() > 0 { l_blen_pos(i.skip(1)); } }
pub broadcast proof fn l_byte(i: Str, k: int)
  requires 0 <= k <= i.len()
  ensures bskip(i, #[trigger] blen(i.take(k))) == i.skip(k), bbound(i, blen(i.take(k)))
  decreases i.len()
{
  if k > 0 {
    l_byte(i.skip(1), k - 1);
    assert(i.take(k).skip(1) =~= i.skip(1).take(k - 1));
    assert(i.skip(1).skip(k - 1) =~= i.skip(k));
    assert(i.take(k)[0] == i[0]);
    l_blen_pos(i.take(k).skip(1));
  } else { assert(i.skip(0) =~= i); assert(i.take(0).len() == 0); }
}
pub broadcast proof fn l_byte_end(i: Str)
  ensures bskip(i, #[trigger] blen(i)) == i.skip(i.len() as int), bbound(i, blen(i))
{ l_byte(i, i.len() as int); assert(i.take(i.len() as int) =~= i); }
pub broadcast proof fn l_blen_mono(i: Str, a: int, b: int)
  requires 0 <= a <= b <= i.len()
  ensures #![trigger blen(i.take(a)), blen(i.take(b))] blen(i.take(b)) - blen(i.take(a)) >= b - a
{
  l_blen_split(i.take(b), a);
  assert(i.take(b).take(a) =~= i.take(a));
  l_blen_pos(i.take(b).skip(a));
}
/// Byte length of a run of ASCII characters.
pub proof fn l_blen_ascii(i: Str)
  requires forall|k: int| 0 <= k < i.len() ==> (#[trigger] i[k] as u32) < 0x80
  ensures blen(i) == i.len()
  decreases i.len()
{ if i.len() > 0 { assert forall|k: int| 0 <= k < i.skip(1).len() implies (#[trigger] i.skip(1)[k] as u32) < 0x80 by { assert(i.skip(1)[k] == i[k + 1]); } l_blen_ascii(i.skip(1)); } }
/// The offset just after an ASCII marker found at `k`.
pub proof fn l_byte_after(i: Str, k: int, d: Str)
  requires 0 <= k, k + d.len() <= i.len(), pfx(i.skip(k), d), forall|m: int| 0 <= m < d.len() ==> (#[trigger] d[m] as u32) < 0x80
  ensures blen(i.take(k + d.len())) == blen(i.take(k)) + d.len()
{
  let t = i.take(k + d.len());
  l_blen_split(t, k);
  assert(t.take(k) =~= i.take(k));
  let u = t.skip(k);
  assert forall|m: int| 0 <= m < d.len() implies u[m] == d[m] by { assert(i.skip(k)[m] == d[m]); }
  assert(u =~= d);
  l_blen_ascii(d);
}

// ------------------------------------------------------------- repetition
pub open spec fn rem<T>(r: PR<T>) -> PR<()> { match r { Ok((r, _)) => Ok((r, ())), Err(e) => Err(e) } }
pub broadcast proof fn l_many0_len<T>(p: Fun<Str, PR<T>>, i: Str)
  ensures match #[trigger] n_many0(p, i) { Ok((r, v)) => r.len() <= i.len() && (r.len() == i.len() ==> v.len() == 0), Err(_) => true }
  decreases i.len()
{ if let Ok((r, t)) = p(i) { if r.len() < i.len() { l_many0_len(p, r); } } }
pub broadcast proof fn l_many0_ext<T>(p: Fun<Str, PR<T>>, q: Fun<Str, PR<T>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> #[trigger] p(j) == #[trigger] q(j)
  ensures #[trigger] n_many0(p, i) == #[trigger] n_many0(q, i)
  decreases i.len()
{ assert(p(i) == q(i)); if let Ok((r, t)) = p(i) { if r.len() < i.len() { l_many0_ext(p, q, r); } } }
pub broadcast proof fn l_many0_rem<T, U>(p: Fun<Str, PR<T>>, q: Fun<Str, PR<U>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> rem(#[trigger] p(j)) == rem(#[trigger] q(j))
  ensures rem(#[trigger] n_many0(p, i)) == rem(#[trigger] n_many0(q, i))
  decreases i.len()
{ assert(rem(p(i)) == rem(q(i))); if let Ok((r, t)) = p(i) { if r.len() < i.len() { l_many0_rem(p, q, r); } } }
pub broadcast proof fn l_many1_ext<T>(p: Fun<Str, PR<T>>, q: Fun<Str, PR<T>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> #[trigger] p(j) == #[trigger] q(j)
  ensures #[trigger] n_many1(p, i) == #[trigger] n_many1(q, i)
{
  assert(p(i) == q(i));
  if let Ok((r, t)) = p(i) { if r.len() <= i.len() { l_many0_ext(p, q, r); } }
}
/// Repetition of a parser that always makes progress has no recoverable outcome.
pub proof fn l_many0_noerr<T>(p: Fun<Str, PR<T>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> match #[trigger] p(j) { Ok((r, _)) => r.len() < j.len(), Err(_) => true }
  ensures n_many0(p, i) != Err::<(Str, Seq<T>), NE>(NE::Error)
  decreases i.len()
{ assert(match p(i) { Ok((r, _)) => r.len() < i.len(), Err(_) => true }); if let Ok((r, t)) = p(i) { l_many0_noerr(p, r); } }

// ----------------------------------------------------------- the grammar
pub broadcast proof fn l_more_comments(i: Str)
  ensures #[trigger] s_more_comments(i) != Err::<(Str, Seq<Str>), NE>(NE::Error)
{
  broadcast use g_base;
  l_many0_noerr(|j: Str| s_comment(skip_ws(j)), i);
}

pub proof fn l_plain_len(stop: Mse, i: Str)
  ensures ({
    let n = match find(i, seq!['<']) { Some(k) => k, None => i.len() as int };
    let m = match find(i, seq![']', ']', '>']) { Some(k) => k, None => i.len() as int };
    s_plain_len(stop, i) == if stop == Mse::StopParsing && m < n { m } else { n }
  }), 0 <= s_plain_len(stop, i) <= i.len()
  decreases i.len()
{
  if i.len() > 0 {
    l_plain_len(stop, i.skip(1));
    l_find(i, seq!['<']); l_find(i, seq![']', ']', '>']);
    l_find(i.skip(1), seq!['<']); l_find(i.skip(1), seq![']', ']', '>']);
    assert(pfx(i, seq!['<']) <==> i[0] == '<');
    assert(pfx(i, seq![']', ']', '>']) ==> i[0] == ']');
  }
}
pub broadcast proof fn l_plain_bound(stop: Mse, i: Str)
  ensures 0 <= #[trigger] s_plain_len(stop, i) <= i.len()
{ l_plain_len(stop, i); }
pub broadcast proof fn l_text_bound(stop: Mse, i: Str)
  ensures 0 <= #[trigger] s_text_len(stop, i) <= i.len()
{ l_text_plain(stop, i); }
pub proof fn l_text_plain(stop: Mse, i: Str)
  ensures 0 <= s_text_len(stop, i) <= i.len(), 0 <= s_plain_len(stop, i) <= i.len(), s_text_len(stop, i) == s_plain_len(stop, i) + s_text_len(stop, i.skip(s_plain_len(stop, i))), s_plain_len(stop, i.skip(s_plain_len(stop, i))) == 0
  decreases i.len()
{
  assert(i.skip(0) =~= i);
  if i.len() > 0 { l_text_plain(stop, i.skip(1)); if s_plain_len(stop, i) > 0 { assert(i.skip(1).skip(s_plain_len(stop, i) - 1) =~= i.skip(s_plain_len(stop, i))); } }
}
/// One `<` that is text, and the plain text after it.
pub open spec fn text_chunk(stop: Mse, j: Str) -> PR<()> {
  if j.len() > 0 && j[0] == '<' && !s_markup_after_lt(j.skip(1)) { Ok((j.skip(1 + s_plain_len(stop, j.skip(1))), ())) } else { Err(NE::Error) }
}
pub proof fn l_text_chunks(stop: Mse, i: Str)
  requires s_plain_len(stop, i) == 0
  ensures rem(n_many0(|j: Str| text_chunk(stop, j), i)) == Ok::<(Str, ()), NE>((i.skip(s_text_len(stop, i)), ())), 0 <= s_text_len(stop, i) <= i.len()
  decreases i.len()
{
  broadcast use g_base;
  let p = |j: Str| text_chunk(stop, j);
  let c = seq![']', ']', '>'];
  if pfx(i, c) { assert(i[0] == c[0]); }
  if i.len() > 0 && i[0] == '<' && !s_markup_after_lt(i.skip(1)) {
    let j = i.skip(1);
    l_text_plain(stop, j);
    let n = s_plain_len(stop, j);
    let r = i.skip(1 + n);
    assert(r =~= j.skip(n));
    l_text_chunks(stop, r);
    assert(p(i) == Ok::<(Str, ()), NE>((r, ())));
    assert(s_text_len(stop, i) == 1 + s_text_len(stop, j));
    let m = s_text_len(stop, r);
    assert(r.skip(m) =~= i.skip(1 + n + m));
    assert(n_many0(p, i) == match n_many0(p, r) { Ok((r2, ts)) => Ok((r2, seq![()] + ts)), Err(e) => Err(e) });
  } else {
    if i.len() > 0 { l_text_plain(stop, i.skip(1)); }
    assert(s_text_stops(stop, i));
    assert(i.skip(0) =~= i);
    assert(p(i) == Err::<(Str, ()), NE>(NE::Error));
  }
}

/// Where the text closing an IGNORE section is.
pub proof fn l_ignore_end(d: int, i: Str)
  ensures match s_ignore_end(d, i) { None => true, Some(r) => i.len() - r.len() >= 3 && r == i.skip(i.len() - r.len()) && pfx(i.skip(i.len() - r.len() - 3), seq![']', ']', '>']) }
  decreases i.len()
{
  assert(i.skip(0) =~= i);
  if pfx(i, seq![']', ']', '>']) {
    if d > 0 { l_ignore_end(d - 1, i.skip(3)); if let Some(r) = s_ignore_end(d - 1, i.skip(3)) { l_suffix(i, 3, r); } }
  } else if pfx(i, seq!['<', '!', '[']) { l_ignore_end(d + 1, i.skip(3)); if let Some(r) = s_ignore_end(d + 1, i.skip(3)) { l_suffix(i, 3, r); } }
  else if i.len() > 0 { l_ignore_end(d, i.skip(1)); if let Some(r) = s_ignore_end(d, i.skip(1)) { l_suffix(i, 1, r); } }
}
proof fn l_suffix(i: Str, n: int, r: Str)
  requires 0 <= n <= i.len(), i.skip(n).len() - r.len() >= 3, r == i.skip(n).skip(i.skip(n).len() - r.len()), pfx(i.skip(n).skip(i.skip(n).len() - r.len() - 3), seq![']', ']', '>'])
  ensures r == i.skip(i.len() - r.len()), pfx(i.skip(i.len() - r.len() - 3), seq![']', ']', '>'])
{
  broadcast use l_skip_skip;
  assert(i.skip(n).skip(i.skip(n).len() - r.len()) == i.skip(i.len() - r.len()));
  assert(i.skip(n).skip(i.skip(n).len() - r.len() - 3) == i.skip(i.len() - r.len() - 3));
}
/// Text without markers is skipped.
pub proof fn l_ignore_skip(d: int, i: Str, n: int)
  requires 0 <= n <= i.len(), forall|j: int| 0 <= j < n ==> !pfx(#[trigger] i.skip(j), seq![']', ']', '>']) && !pfx(i.skip(j), seq!['<', '!', '['])
  ensures s_ignore_end(d, i) == s_ignore_end(d, i.skip(n))
  decreases n
{
  assert(i.skip(0) =~= i);
  if n > 0 {
    assert(!pfx(i.skip(0), seq![']', ']', '>']));
    assert forall|j: int| 0 <= j < n - 1 implies !pfx(#[trigger] i.skip(1).skip(j), seq![']', ']', '>']) && !pfx(i.skip(1).skip(j), seq!['<', '!', '[']) by { assert(i.skip(1).skip(j) =~= i.skip(j + 1)); }
    l_ignore_skip(d, i.skip(1), n - 1);
    assert(i.skip(1).skip(n - 1) =~= i.skip(n));
  }
}
/// Closing a + b + 1 sections is closing a + 1 of them, then b more... each `]]>` closes one.
pub proof fn l_ignore_nest(a: int, b: int, i: Str)
  requires a >= 0, b >= 0
  ensures s_ignore_end(a + b + 1, i) == match s_ignore_end(a, i) { Some(r) => s_ignore_end(b, r), None => None }
  decreases i.len()
{
  if pfx(i, seq![']', ']', '>']) { if a > 0 { l_ignore_nest(a - 1, b, i.skip(3)); } }
  else if pfx(i, seq!['<', '!', '[']) { l_ignore_nest(a + 1, b, i.skip(3)); }
  else if i.len() > 0 { l_ignore_nest(a, b, i.skip(1)); }
}
pub proof fn l_ignore(i: Str)
  ensures ({
    let c = seq![']', ']', '>'];
    let o = seq!['<', '!', '['];
    match find(i, c) {
      None => s_ignore_end(0, i) is None,
      Some(k) => match find(i.take(k), o) {
        None => s_ignore_end(0, i) == Some(i.skip(k + 3)),
        Some(n) => n + 3 <= k && blen(i.take(n + 3)) == blen(i.take(k).take(n)) + 3 && s_ignore_end(0, i) == match s_ignore_end(0, i.skip(n + 3)) { None => None, Some(r) => s_ignore_end(0, r) },
      }
    }
  }),
  match s_ignore_end(0, i) { None => true, Some(r) => i.len() - r.len() >= 3 && r == i.skip(i.len() - r.len()) && blen(i) - blen(r) - 3 == blen(i.take(i.len() - r.len() - 3)) }
{
  let c = seq![']', ']', '>'];
  let o = seq!['<', '!', '['];
  l_find(i, c); l_find_first(i, c); l_ignore_end(0, i);
  if let Some(r) = s_ignore_end(0, i) {
    let m = i.len() - r.len() - 3;
    assert forall|k: int| 0 <= k < 3 implies (#[trigger] c[k] as u32) < 0x80 by {}
    l_byte_after(i, m, c);
    l_blen_split(i, m + 3);
  }
  match find(i, c) {
    None => { if let Some(r) = s_ignore_end(0, i) { assert(!pfx(i.skip(i.len() - r.len() - 3), c)); } }
    Some(k) => {
      let x = i.take(k);
      l_find(x, o); l_find_first(x, o);
      match find(x, o) {
        None => {
          assert forall|j: int| 0 <= j < k implies !pfx(#[trigger] i.skip(j), c) && !pfx(i.skip(j), o) by {
            assert(!pfx(x.skip(j), o));
            l_pfx_take(i, k, j, o);
            if pfx(i.skip(j), o) { assert(j + 3 > k); assert(i.skip(k)[0] == c[0]); assert(i.skip(j)[k - j] == i.skip(k)[0]); assert(i.skip(j)[k - j] == o[k - j]); }
          }
          l_ignore_skip(0, i, k);
          assert(i.skip(k).skip(3) =~= i.skip(k + 3));
        }
        Some(n) => {
          l_pfx_take(i, k, n, o);
          assert forall|j: int| 0 <= j < n implies !pfx(#[trigger] i.skip(j), c) && !pfx(i.skip(j), o) by {
            assert(!pfx(x.skip(j), o));
            l_pfx_take(i, k, j, o);
            if pfx(i.skip(j), o) { assert(i.skip(k)[0] == c[0]); assert(i.skip(j)[k - j] == i.skip(k)[0]); assert(i.skip(j)[k - j] == o[k - j]); }
          }
          l_ignore_skip(0, i, n);
          assert(i.skip(n).skip(3) =~= i.skip(n + 3));
          assert(i.skip(n)[0] == o[0]);
          l_ignore_nest(0, 0, i.skip(n + 3));
          assert forall|m: int| 0 <= m < 3 implies (#[trigger] o[m] as u32) < 0x80 by {}
          l_byte_after(i, n, o);
          assert(x.take(n) =~= i.take(n));
        }
      }
    }
  }
}
pub broadcast group g_base { ax_alpha, ax_alnum, l_pfx1, l_pfx2, l_pfx3, l_many1_ext, l_skip_skip, l_skip_0, l_take_len, l_tw_bound, l_tw_ext, l_trim_end_ext, l_find, l_many0_len, l_many0_ext, l_many0_rem, l_blen_split, l_blen_pos, l_byte, l_byte_end, l_blen_mono }
pub broadcast group g_gram { l_plain_bound, l_text_bound, l_more_comments }
pub broadcast group g_all { g_base, g_gram }

// ------------------------------------- characters of a string, as quantifiers
pub broadcast proof fn l_all_q(p: Fun<char, bool>, i: Str)
  ensures #[trigger] all_chars(p, i) == (forall|k: int| 0 <= k < i.len() ==> p(#[trigger] i[k]))
  decreases i.len()
{
  if i.len() > 0 {
    l_all_q(p, i.skip(1));
    if all_chars(p, i) { assert forall|k: int| 0 <= k < i.len() implies p(#[trigger] i[k]) by { if k > 0 { assert(i[k] == i.skip(1)[k - 1]); } } }
    if forall|k: int| 0 <= k < i.len() ==> p(#[trigger] i[k]) { assert forall|k: int| 0 <= k < i.skip(1).len() implies p(#[trigger] i.skip(1)[k]) by { assert(i.skip(1)[k] == i[k + 1]); } assert(p(i[0])); }
  }
}
pub broadcast proof fn l_any_q(p: Fun<char, bool>, i: Str)
  ensures #[trigger] any_char(p, i) == !(forall|k: int| 0 <= k < i.len() ==> !p(#[trigger] i[k]))
  decreases i.len()
{
  if i.len() > 0 {
    l_any_q(p, i.skip(1));
    if !any_char(p, i) { assert forall|k: int| 0 <= k < i.len() implies !p(#[trigger] i[k]) by { if k > 0 { assert(i[k] == i.skip(1)[k - 1]); } } }
    if forall|k: int| 0 <= k < i.len() ==> !p(#[trigger] i[k]) { assert forall|k: int| 0 <= k < i.skip(1).len() implies !p(#[trigger] i.skip(1)[k]) by { assert(i.skip(1)[k] == i[k + 1]); } assert(!p(i[0])); }
  }
}
pub broadcast proof fn l_tw_q(p: Fun<char, bool>, i: Str)
  ensures 0 <= #[trigger] tw(p, i) <= i.len(), forall|k: int| 0 <= k < tw(p, i) ==> p(#[trigger] i[k]), tw(p, i) < i.len() ==> !p(i[tw(p, i)])
{ l_tw(p, i); }
pub broadcast proof fn l_contains_q(i: Str, c: char)
  ensures #[trigger] contains_char(i, c) == (exists|k: int| 0 <= k < i.len() && #[trigger] i[k] == c)
  decreases i.len()
{
  if i.len() > 0 {
    l_contains_q(i.skip(1), c);
    if contains_char(i, c) { if i[0] != c { let k = choose|k: int| 0 <= k < i.skip(1).len() && #[trigger] i.skip(1)[k] == c; assert(i[k + 1] == c); } }
    if exists|k: int| 0 <= k < i.len() && #[trigger] i[k] == c { let k = choose|k: int| 0 <= k < i.len() && #[trigger] i[k] == c; if k > 0 { assert(i.skip(1)[k - 1] == c); } }
  }
}
pub broadcast proof fn l_contains_push(s: Str, x: char, c: char)
  ensures #[trigger] contains_char(s.push(x), c) == (contains_char(s, c) || x == c)
{
  l_contains_q(s, c); l_contains_q(s.push(x), c);
  let t = s.push(x);
  if contains_char(t, c) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == c; if k < s.len() { assert(s[k] == c); } }
  if contains_char(s, c) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == c; assert(t[k] == c); }
  if x == c { assert(t[s.len() as int] == c); }
}
pub broadcast proof fn l_contains_nil(c: char)
  ensures #[trigger] contains_char(Seq::empty(), c) == false
{}
/// `trim_end` keeps everything up to the last character outside the class.
pub broadcast proof fn l_trim_end_q(p: Fun<char, bool>, i: Str)
  ensures (#[trigger] trim_end(p, i)).len() <= i.len(), trim_end(p, i) == i.take(trim_end(p, i).len() as int),
    forall|k: int| trim_end(p, i).len() <= k < i.len() ==> p(#[trigger] i[k]),
    trim_end(p, i).len() > 0 ==> !p(i[trim_end(p, i).len() - 1])
  decreases i.len()
{
  if i.len() > 0 && p(i[i.len() - 1]) {
    let j = i.take(i.len() - 1);
    l_trim_end_q(p, j);
    assert(trim_end(p, i) == trim_end(p, j));
    assert(j.take(trim_end(p, j).len() as int) =~= i.take(trim_end(p, j).len() as int));
    assert forall|k: int| trim_end(p, i).len() <= k < i.len() implies p(#[trigger] i[k]) by { if k < i.len() - 1 { assert(i[k] == j[k]); } }
    if trim_end(p, i).len() > 0 { assert(j[trim_end(p, j).len() - 1] == i[trim_end(p, j).len() - 1]); }
  } else { assert(i.take(i.len() as int) =~= i); }
}
/// Slicing at where a remainder starts.
pub broadcast proof fn l_suffix_bytes(i: Str, k: int)
  requires 0 <= k <= i.len()
  ensures #![trigger blen(i), blen(i.skip(k))]
    blen(i) - blen(i.skip(k)) == blen(i.take(k)), bskip(i, blen(i) - blen(i.skip(k))) == i.skip(k), btake(i, blen(i) - blen(i.skip(k))) == i.take(k), bbound(i, blen(i) - blen(i.skip(k)))
{ l_blen_split(i, k); l_byte(i, k); assert(i.take(i.len() - i.skip(k).len()) =~= i.take(k)); }
pub broadcast proof fn l_seq_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
  ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn l_seq_nil<T>(s: Seq<T>)
  ensures #![trigger s + Seq::<T>::empty()] #![trigger Seq::<T>::empty() + s] s + Seq::<T>::empty() == s, Seq::<T>::empty() + s == s
{ assert(s + Seq::<T>::empty() =~= s); assert(Seq::<T>::empty() + s =~= s); }
pub broadcast group g_more { g_all, g_class, g_small, l_suffix_bytes, l_seq_assoc, l_seq_nil }
/// Trimming both ends commutes.
pub broadcast proof fn l_trim_comm(p: Fun<char, bool>, i: Str)
  ensures trim_end(p, i).skip(#[trigger] tw(p, trim_end(p, i))) == trim_end(p, i.skip(tw(p, i)))
{
  let e = trim_end(p, i); let a = tw(p, e); let b = tw(p, i); let j = i.skip(b); let f = trim_end(p, j);
  l_trim_end_q(p, i); l_tw_q(p, e); l_tw_q(p, i); l_trim_end_q(p, j);
  assert forall|k: int| 0 <= k < e.len() implies e[k] == #[trigger] i[k] by {}
  if e.len() == 0 {
    assert forall|k: int| 0 <= k < i.len() implies p(#[trigger] i[k]) by {}
    if b < i.len() { assert(!p(i[b])); }
    assert(j.len() == 0);
    assert(e.skip(a) =~= f);
  } else {
    let n = e.len() as int;
    assert(!p(i[n - 1]));
    if a == n { assert(p(e[n - 1])); }
    assert(!p(e[a])); assert(e[a] == i[a]);
    if a < b { assert(p(i[a])); }
    if b < a { assert(e[b] == i[b]); }
    assert(a == b);
    let m = f.len() as int;
    assert forall|k: int| 0 <= k < j.len() implies j[k] == #[trigger] i[k + b] by {}
    if m == 0 { assert(j[n - 1 - b] == i[n - 1]); assert(p(j[n - 1 - b])); }
    assert(f[m - 1] == j[m - 1]);
    if b + m < n { assert(j[n - 1 - b] == i[n - 1]); }
    if b + m > n { assert(j[m - 1] == i[b + m - 1]); assert(p(i[b + m - 1])); }
    assert(e.skip(a) =~= f);
  }
}
pub broadcast group g_class { l_all_q, l_any_q, l_tw_q, l_contains_q, l_contains_push, l_contains_nil, l_trim_end_q, l_trim_comm }
/// Facts on small strings.
pub broadcast proof fn l_nil<T>(s: Seq<T>)
  ensures #[trigger] s.len() == 0 ==> s == Seq::<T>::empty()
{ if s.len() == 0 { assert(s =~= Seq::<T>::empty()); } }
pub broadcast proof fn l_one<T>(x: T)
  ensures (#[trigger] Seq::<T>::empty().push(x))[0] == x, Seq::<T>::empty().push(x).len() == 1
{}
pub broadcast proof fn l_nocase(a: Str, b: Str)
  ensures #[trigger] s_eq_nocase(a, b) == s_eq_nocase(b, a), s_eq_nocase(a, b) ==> a.len() == b.len()
  decreases a.len()
{ if a.len() == b.len() && a.len() > 0 { l_nocase(a.skip(1), b.skip(1)); } }
/// What was skipped does not matter.
pub broadcast proof fn l_update_skip<T>(s: Seq<T>, i: int, x: T, n: int)
  ensures 0 <= i < n <= s.len() ==> #[trigger] s.update(i, x).skip(n) == s.skip(n)
{ if 0 <= i < n <= s.len() { assert(s.update(i, x).skip(n) =~= s.skip(n)); } }
pub broadcast group g_small { l_nil, l_one, l_nocase, l_update_skip }
