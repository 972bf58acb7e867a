// ------------------------------------------------- references and expansion
pub broadcast proof fn l_suffix_skip(i: Str, k: int)
  requires 0 <= k <= i.len()
  ensures is_suffix(#[trigger] i.skip(k), i)
{ assert(i.skip(k) =~= i.skip(i.len() - i.skip(k).len())); }
pub proof fn l_suffix_blen(r: Str, i: Str)
  requires is_suffix(r, i)
  ensures blen(r) <= blen(i), r.len() < i.len() ==> blen(r) < blen(i), r.len() == i.len() ==> r == i
{
  l_blen_split(i, i.len() - r.len());
  l_blen_pos(i.take(i.len() - r.len()));
  assert(i.skip(0) =~= i);
}
pub proof fn l_suffix_trans(a: Str, b: Str, c: Str)
  requires is_suffix(a, b), is_suffix(b, c)
  ensures is_suffix(a, c)
{ assert(a =~= c.skip(c.len() - a.len())); }
pub proof fn l_name_suffix(i: Str)
  ensures match s_name(i) { Ok((r, n)) => is_suffix(r, i) && r.len() < i.len() && n.len() > 0 && n == i.take(i.len() - r.len()) && s_name_start(n[0]), Err(e) => e == NE::Error }
{
  broadcast use {l_suffix_skip, l_tw_bound};
  if i.len() > 0 && s_name_start(i[0]) { let k = 1 + tw(|c: char| s_name_char(c), i.skip(1)); assert(is_suffix(i.skip(k), i)); }
}
pub proof fn l_reference(chars: bool, i: Str)
  ensures match s_reference(chars, i) { Ok((r, _)) => is_suffix(r, i), Err(_) => true }
{
  broadcast use {l_suffix_skip, l_tw_bound, l_pfx1, l_pfx2};
  l_name_suffix(i);
  if i.len() > 0 { l_name_suffix(i.skip(1)); if let Ok((r, _)) = s_name(i.skip(1)) { l_suffix_trans(r, i.skip(1), i); } }
  let d = tw(|c: char| c_digit(c), i.skip(1));
  let h = tw(|c: char| s_name_char(c), i.skip(2));
  if pfx(i, seq!['#']) { assert(is_suffix(i.skip(1 + d), i)); }
  if pfx(i, seq!['#', 'x']) { assert(is_suffix(i.skip(2 + h), i)); }
  match if chars { s_entity_or_char_ref(i) } else { s_entity_ref(i) } {
    Ok((r, _)) => { assert(is_suffix(r, i)); if pfx(r, seq![';']) { l_suffix_trans(r.skip(1), r, i); } }
    Err(_) => {}
  }
}
/// Characters that are not the prefix stay.
pub proof fn l_expand_skip(chars: bool, pre: char, f: Fun<Str, Option<Str>>, i: Str, k: int)
  requires 0 <= k <= i.len(), forall|j: int| 0 <= j < k ==> #[trigger] i[j] != pre
  ensures s_expand(chars, pre, f, i) == match s_expand(chars, pre, f, i.skip(k)) { Ok(t) => Ok::<Str, Undef>(i.take(k) + t), Err(e) => Err(e) }
  decreases k
{
  hide(s_reference); hide(s_char_ref);
  assert(i.skip(0) =~= i);
  if k == 0 { if let Ok(t) = s_expand(chars, pre, f, i) { assert(i.take(0) + t =~= t); } }
  else {
    let u = i.skip(1);
    assert forall|j: int| 0 <= j < k - 1 implies #[trigger] u[j] != pre by { assert(u[j] == i[j + 1]); }
    l_expand_skip(chars, pre, f, u, k - 1);
    assert(u.skip(k - 1) =~= i.skip(k));
    if let Ok(t) = s_expand(chars, pre, f, i.skip(k)) { assert(seq![i[0]] + (u.take(k - 1) + t) =~= i.take(k) + t); }
  }
}
pub proof fn l_find_char(i: Str, c: char)
  ensures match find(i, seq![c]) {
    Some(k) => 0 <= k < i.len() && i[k] == c && i.skip(k).len() == i.len() - k && i.skip(k)[0] == c && forall|j: int| 0 <= j < k ==> #[trigger] i[j] != c,
    None => forall|j: int| 0 <= j < i.len() ==> #[trigger] i[j] != c,
  }
{
  broadcast use l_pfx1;
  let d = seq![c];
  l_find(i, d); l_find_first(i, d);
  match find(i, d) {
    Some(k) => { assert(pfx(i.skip(k), d)); assert forall|j: int| 0 <= j < k implies #[trigger] i[j] != c by { assert(!pfx(i.skip(j), d)); assert(i.skip(j)[0] == i[j]); } }
    None => { assert forall|j: int| 0 <= j < i.len() implies #[trigger] i[j] != c by { assert(!pfx(i.skip(j), d)); assert(i.skip(j)[0] == i[j]); } }
  }
}
/// The loop writes the expansion, except for what is left, which has no prefix.
/// The loop's result `x`, against the expansion `e` of what was left (`rem`) when it started with `out`.
pub open spec fn exp_ok(x: Result<(Str, Str), Result<Str, EntErr>>, e: Result<Str, Undef>, text: Str, rem: Str, out: Str) -> bool {
  match x {
    Ok((r, o)) => (match e { Ok(t) => out + t == o + r, Err(_) => false })
      && is_suffix(r, rem) && (r.len() == rem.len() ==> o == out && e == Ok::<Str, Undef>(rem)),
    Err(Err(z)) => match e {
      Err(u) => z == EntErr { entity: u.name, position: (blen(text) - blen(u.from), blen(text) - blen(u.after)) },
      Ok(_) => false,
    },
    Err(Ok(_)) => false,
  }
}
/// One turn: `pre` was written and `rem` shrank to the suffix `r`.
proof fn l_exp_turn(x: Result<(Str, Str), Result<Str, EntErr>>, e: Result<Str, Undef>, e2: Result<Str, Undef>, text: Str, r: Str, rem: Str, pre: Str, out: Str)
  requires exp_ok(x, e, text, r, out + pre), is_suffix(r, rem), r.len() < rem.len(),
    e2 == (match e { Ok(t) => Ok::<Str, Undef>(pre + t), Err(u) => Err(u) })
  ensures exp_ok(x, e2, text, rem, out)
{
  match x {
    Ok((r2, o2)) => {
      l_suffix_trans(r2, r, rem);
      assert(r2.len() <= r.len());
      if let Ok(t) = e { assert((out + pre) + t =~= out + (pre + t)); }
    }
    Err(_) => {}
  }
}
proof fn l_exp_none(chars: bool, pre: char, f: Fun<Str, Option<Str>>, text: Str, rem: Str, out: Str)
  requires find(rem, seq![pre]) is None
  ensures exp_ok(Ok((rem, out)), s_expand(chars, pre, f, rem), text, rem, out)
{
  hide(s_reference);
  l_find_char(rem, pre);
  assert(rem.skip(rem.len() as int) =~= Seq::<char>::empty());
  l_expand_skip(chars, pre, f, rem, rem.len() as int);
  assert(rem.take(rem.len() as int) + Seq::<char>::empty() =~= rem);
  assert(rem.skip(0) =~= rem);
}
/// What the expansion is at the first prefix character, given its continuation.
proof fn l_exp_at(chars: bool, pre: char, f: Fun<Str, Option<Str>>, rem: Str, k: int)
  requires find(rem, seq![pre]) == Some(k)
  ensures 0 <= k < rem.len(), ({
    let c = rem.skip(k);
    &&& c.len() > 0
    &&& c.skip(1).len() < rem.len()
    &&& is_suffix(c.skip(1), rem)
    &&& match s_reference(chars, c.skip(1)) {
      Ok((r, ERef::Char(x))) => is_suffix(r, rem) && r.len() < rem.len() && s_expand(chars, pre, f, rem) == (match s_expand(chars, pre, f, r) { Ok(t) => Ok::<Str, Undef>((rem.take(k) + seq![x]) + t), Err(u) => Err(u) }),
      Ok((r, ERef::Entity(n))) => is_suffix(r, rem) && r.len() < rem.len() && (match f(n) {
        Some(v) => s_expand(chars, pre, f, rem) == (match s_expand(chars, pre, f, r) { Ok(t) => Ok::<Str, Undef>((rem.take(k) + v) + t), Err(u) => Err(u) }),
        None => s_expand(chars, pre, f, rem) == Err::<Str, Undef>(Undef { name: n, from: c, after: r }),
      }),
      Err(_) => s_expand(chars, pre, f, rem) == (match s_expand(chars, pre, f, c.skip(1)) { Ok(t) => Ok::<Str, Undef>((rem.take(k) + seq![pre]) + t), Err(u) => Err(u) }),
    }
  })
{
  hide(s_reference);
  l_find_char(rem, pre);
  let c = rem.skip(k);
  l_expand_skip(chars, pre, f, rem, k);
  l_reference(chars, c.skip(1));
  l_suffix_skip(rem, k); l_suffix_skip(c, 1);
  l_suffix_trans(c.skip(1), c, rem);
  match s_reference(chars, c.skip(1)) {
    Ok((r, e)) => {
      l_suffix_trans(r, c.skip(1), rem);
      if let Ok(t) = s_expand(chars, pre, f, r) {
        match e {
          ERef::Char(x) => { assert(rem.take(k) + (seq![x] + t) =~= (rem.take(k) + seq![x]) + t); }
          ERef::Entity(n) => { if let Some(v) = f(n) { assert(rem.take(k) + (v + t) =~= (rem.take(k) + v) + t); } }
        }
      }
    }
    Err(_) => { if let Ok(t) = s_expand(chars, pre, f, c.skip(1)) { assert(rem.take(k) + (seq![pre] + t) =~= (rem.take(k) + seq![pre]) + t); } }
  }
}
pub proof fn l_exp_loop(chars: bool, pre: char, f: Fun<Str, Option<Str>>, text: Str, rem: Str, out: Str)
  requires is_suffix(rem, text)
  ensures exp_ok(s_exp_loop(chars, pre, f, text, rem, out), s_expand(chars, pre, f, rem), text, rem, out)
  decreases rem.len()
{
  hide(s_reference); hide(find); hide(blen); hide(is_suffix); hide(s_expand); hide(exp_ok);
  match find(rem, seq![pre]) {
    None => { l_exp_none(chars, pre, f, text, rem, out); }
    Some(k) => {
      let c = rem.skip(k);
      let e2 = s_expand(chars, pre, f, rem);
      l_exp_at(chars, pre, f, rem, k);
      match s_reference(chars, c.skip(1)) {
        Ok((r, e)) => {
          l_suffix_trans(r, rem, text);
          match e {
            ERef::Char(x) => {
              let p = rem.take(k) + seq![x];
              assert((out + rem.take(k)) + seq![x] =~= out + p);
              l_exp_loop(chars, pre, f, text, r, out + p);
              l_exp_turn(s_exp_loop(chars, pre, f, text, r, out + p), s_expand(chars, pre, f, r), e2, text, r, rem, p, out);
            }
            ERef::Entity(n) => match f(n) {
              Some(v) => {
                let p = rem.take(k) + v;
                assert((out + rem.take(k)) + v =~= out + p);
                l_exp_loop(chars, pre, f, text, r, out + p);
                l_exp_turn(s_exp_loop(chars, pre, f, text, r, out + p), s_expand(chars, pre, f, r), e2, text, r, rem, p, out);
              }
              None => { reveal(exp_ok); }
            }
          }
        }
        Err(_) => {
          let r = c.skip(1);
          let p = rem.take(k) + seq![pre];
          assert((out + rem.take(k)) + seq![pre] =~= out + p);
          l_suffix_trans(r, rem, text);
          l_exp_loop(chars, pre, f, text, r, out + p);
          l_exp_turn(s_exp_loop(chars, pre, f, text, r, out + p), s_expand(chars, pre, f, r), e2, text, r, rem, p, out);
        }
      }
    }
  }
}
/// From the loop's result to the expansion: nothing was replaced exactly when nothing was consumed.
pub proof fn l_expand_done(chars: bool, pre: char, f: Fun<Str, Option<Str>>, text: Str)
  ensures s_expand_pos(chars, pre, f, text) == match s_exp_loop(chars, pre, f, text, text, Seq::<char>::empty()) {
    Ok((r, o)) => Ok::<Str, EntErr>(if blen(r) == blen(text) { text } else { o + r }),
    Err(y) => y,
  }
{
  l_suffix_skip(text, 0); assert(text.skip(0) =~= text);
  l_exp_loop(chars, pre, f, text, text, seq![]);
  match s_exp_loop(chars, pre, f, text, text, Seq::<char>::empty()) { Ok((r, o)) => { l_suffix_blen(r, text); if let Ok(t) = s_expand(chars, pre, f, text) { assert(seq![] + t =~= t); } } Err(_) => {} }
}
/// One step of the loop.
pub proof fn l_exp_step(chars: bool, pre: char, f: Fun<Str, Option<Str>>, text: Str, rem: Str)
  requires is_suffix(rem, text), (pre as u32) < 0x80
  ensures blen(rem) <= blen(text), match find(rem, seq![pre]) {
    None => true,
    Some(k) => ({
      let c = rem.skip(k);
      &&& 0 <= k < rem.len() && bbound(rem, blen(rem.take(k))) && bskip(rem, blen(rem.take(k))) == c && btake(rem, blen(rem.take(k))) == rem.take(k)
      &&& bbound(c, 1) && bskip(c, 1) == c.skip(1) && c.skip(1).len() < rem.len() && is_suffix(c.skip(1), text)
      &&& blen(c) <= blen(text) && match s_reference(chars, c.skip(1)) { Ok((r, _)) => r.len() < rem.len() && is_suffix(r, text) && blen(r) <= blen(text), Err(_) => true }
    }),
  }
{
  l_suffix_blen(rem, text);
  l_find_char(rem, pre);
  if let Some(k) = find(rem, seq![pre]) {
    let c = rem.skip(k);
    l_byte(rem, k);
    assert(c.take(1) =~= seq![pre]);
    assert(c.take(1).skip(1) =~= seq![]);
    assert(blen(c.take(1)) == 1) by { assert(c.take(1)[0] == pre); assert(blen(seq![]) == 0); }
    l_byte(c, 1);
    l_suffix_skip(rem, k); l_suffix_skip(c, 1);
    l_suffix_trans(c, rem, text); l_suffix_trans(c.skip(1), c, text);
    l_suffix_blen(c, text);
    l_reference(chars, c.skip(1));
    if let Ok((r, _)) = s_reference(chars, c.skip(1)) { l_suffix_trans(r, c.skip(1), text); l_suffix_blen(r, text); }
  }
}

// ------------------------------------------------------- section keywords
pub proof fn l_fold_keywords(f: Fun<(Mss, Str), Result<Mss, Str>>, acc: Mss, ws: Seq<Str>)
  requires forall|a: Mss, w: Str| #[trigger] f((a, w)) == (match s_keyword(w) { None => Err::<Mss, Str>(w), Some(m) => Ok(s_strictest(a, m)) })
  ensures n_try_fold(f, acc, ws) == s_fold_keywords(acc, ws)
  decreases ws.len()
{ if ws.len() > 0 { assert(f((acc, ws[0])) == f((acc, ws[0]))); if let Ok(a) = f((acc, ws[0])) { l_fold_keywords(f, a, ws.skip(1)); } } }
pub broadcast proof fn l_fold_keywords_b(f: Fun<(Mss, Str), Result<Mss, Str>>, acc: Mss, ws: Seq<Str>)
  requires forall|a: Mss, w: Str| #[trigger] f((a, w)) == (match s_keyword(w) { None => Err::<Mss, Str>(w), Some(m) => Ok(s_strictest(a, m)) })
  ensures #[trigger] n_try_fold(f, acc, ws) == s_fold_keywords(acc, ws)
{ l_fold_keywords(f, acc, ws); }

// ------------------------------------------------------------ name case
pub proof fn l_any_char(p: Fun<char, bool>, i: Str)
  ensures any_char(p, i) <==> exists|k: int| 0 <= k < i.len() && p(#[trigger] i[k])
  decreases i.len()
{
  if i.len() > 0 {
    let u = i.skip(1);
    l_any_char(p, u);
    if any_char(p, u) { let k = choose|k: int| 0 <= k < u.len() && p(#[trigger] u[k]); assert(u[k] == i[k + 1]); }
    if exists|k: int| 0 <= k < i.len() && p(#[trigger] i[k]) { let k = choose|k: int| 0 <= k < i.len() && p(#[trigger] i[k]); if k > 0 { assert(u[k - 1] == i[k]); } }
  }
}
pub broadcast proof fn l_any_char_no(p: Fun<char, bool>, i: Str)
  ensures (!#[trigger] any_char(p, i)) ==> forall|k: int| 0 <= k < i.len() ==> !p(#[trigger] i[k])
{ l_any_char(p, i); }
