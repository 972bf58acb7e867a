// -------------------------------------------------------------------- C02
/// A text run is non-empty, does not stop inside itself, and stops where it ends: it is maximal.
pub proof fn t_text_run(i: Str, stop: Mse)
  ensures match s_text(i, stop) {
    Ok((r, t)) => t.len() > 0 && i == t + r && s_text_stops(stop, r) && forall|k: int| 0 <= k < t.len() ==> !s_text_stops(stop, #[trigger] i.skip(k)),
    Err(_) => s_text_stops(stop, i),
  }
{ l_text_run(stop, i); let k = s_text_len(stop, i); assert(i.take(k) + i.skip(k) =~= i); }
proof fn l_text_run(stop: Mse, i: Str)
  ensures 0 <= s_text_len(stop, i) <= i.len(), s_text_stops(stop, i.skip(s_text_len(stop, i))),
    forall|k: int| 0 <= k < s_text_len(stop, i) ==> !s_text_stops(stop, #[trigger] i.skip(k))
  decreases i.len()
{
  assert(i.skip(0) =~= i);
  if !s_text_stops(stop, i) {
    let t = i.skip(1);
    l_text_run(stop, t);
    let n = s_text_len(stop, t);
    assert(t.skip(n) =~= i.skip(n + 1));
    assert forall|k: int| 0 <= k < n + 1 implies !s_text_stops(stop, #[trigger] i.skip(k)) by { if k > 0 { assert(t.skip(k - 1) =~= i.skip(k)); } }
  }
}
// -------------------------------------------------------------------- C04
pub open spec fn kw_known(ws: Seq<Str>) -> bool { forall|k: int| 0 <= k < ws.len() ==> #[trigger] s_keyword(ws[k]) is Some }
pub open spec fn kw_rank(w: Str) -> int { match s_keyword(w) { Some(m) => s_rank(m), None => 0 } }
proof fn l_keywords(acc: Mss, ws: Seq<Str>)
  ensures match s_fold_keywords(acc, ws) {
    Ok(m) => kw_known(ws) && s_rank(m) >= s_rank(acc) && (forall|k: int| 0 <= k < ws.len() ==> s_rank(m) >= #[trigger] kw_rank(ws[k]))
      && (m == acc || exists|k: int| 0 <= k < ws.len() && s_keyword(#[trigger] ws[k]) == Some(m)),
    Err(w) => exists|k: int| 0 <= k < ws.len() && #[trigger] ws[k] == w && s_keyword(w) is None,
  }
  decreases ws.len()
{
  if ws.len() > 0 {
    let t = ws.skip(1);
    match s_keyword(ws[0]) {
      None => {}
      Some(m0) => {
        let a2 = s_strictest(acc, m0);
        l_keywords(a2, t);
        match s_fold_keywords(a2, t) {
          Ok(m) => {
            assert forall|k: int| 0 <= k < ws.len() implies #[trigger] s_keyword(ws[k]) is Some by { if k > 0 { assert(ws[k] == t[k - 1]); assert(s_keyword(t[k - 1]) is Some); } }
            assert forall|k: int| 0 <= k < ws.len() implies s_rank(m) >= #[trigger] kw_rank(ws[k]) by { if k > 0 { assert(ws[k] == t[k - 1]); assert(s_rank(m) >= kw_rank(t[k - 1])); } }
            if m != acc {
              if m == a2 { assert(s_keyword(ws[0]) == Some(m)); }
              else { let k = choose|k: int| 0 <= k < t.len() && s_keyword(#[trigger] t[k]) == Some(m); assert(ws[k + 1] == t[k]); }
            }
          }
          Err(w) => { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == w && s_keyword(w) is None; assert(ws[k + 1] == t[k]); }
        }
      }
    }
  }
}
/// C04: the status is that of some keyword of the highest rank (INCLUDE when there is none);
/// it is refused exactly when some keyword is unknown.
pub proof fn t_keywords(i: Str)
  ensures ({
    let ws = n_split_ws(i);
    match s_from_keywords(i) {
      Ok(m) => kw_known(ws) && (forall|k: int| 0 <= k < ws.len() ==> s_rank(m) >= #[trigger] kw_rank(ws[k])) && (m is Include || exists|k: int| 0 <= k < ws.len() && s_keyword(#[trigger] ws[k]) == Some(m)),
      Err(w) => !kw_known(ws),
    }
  })
{
  let ws = n_split_ws(i);
  l_keywords(Mss::Include, ws);
  match s_from_keywords(i) { Err(w) => { let k = choose|k: int| 0 <= k < ws.len() && #[trigger] ws[k] == w && s_keyword(w) is None; assert(!(s_keyword(ws[k]) is Some)); } Ok(_) => {} }
}
// -------------------------------------------------------------------- C05
pub open spec fn no_char(i: Str, c: char) -> bool { forall|k: int| 0 <= k < i.len() ==> #[trigger] i[k] != c }
/// C05: text before a reference is copied unchanged, and expansion continues after it.
pub proof fn t_expand_prefix(chars: bool, pre: char, f: Fun<Str, Option<Str>>, a: Str, b: Str)
  requires no_char(a, pre)
  ensures match s_expand(chars, pre, f, b) { Ok(t) => s_expand(chars, pre, f, a + b) == Ok::<Str, Undef>(a + t), Err(u) => s_expand(chars, pre, f, a + b) == Err::<Str, Undef>(u) }
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); match s_expand(chars, pre, f, b) { Ok(t) => { assert(a + t =~= t); } Err(_) => {} } }
  else {
    let c = a + b;
    assert(c[0] == a[0] && a[0] != pre);
    assert(c.skip(1) =~= a.skip(1) + b);
    assert forall|k: int| 0 <= k < a.skip(1).len() implies #[trigger] a.skip(1)[k] != pre by { assert(a.skip(1)[k] == a[k + 1]); }
    t_expand_prefix(chars, pre, f, a.skip(1), b);
    match s_expand(chars, pre, f, b) { Ok(t) => { assert(seq![a[0]] + (a.skip(1) + t) =~= a + t); } Err(_) => {} }
  }
}
/// C05: without the reference prefix nothing changes and the lookup is not consulted.
pub proof fn t_expand_none(chars: bool, pre: char, f: Fun<Str, Option<Str>>, a: Str)
  requires no_char(a, pre)
  ensures s_expand(chars, pre, f, a) == Ok::<Str, Undef>(a)
{ t_expand_prefix(chars, pre, f, a, seq![]); assert(a + Seq::<char>::empty() =~= a); }
/// C05: a reference is replaced by what the lookup returned, its optional `;` goes with it, and the
/// replacement is not looked at again.
pub proof fn t_expand_ref(chars: bool, pre: char, f: Fun<Str, Option<Str>>, i: Str)
  requires i.len() > 0, i[0] == pre
  ensures match s_reference(chars, i.skip(1)) {
    Ok((r, ERef::Entity(name))) => match f(name) {
      None => s_expand(chars, pre, f, i) == Err::<Str, Undef>(Undef { name: name, from: i, after: r }),
      Some(v) => match s_expand(chars, pre, f, r) { Ok(t) => s_expand(chars, pre, f, i) == Ok::<Str, Undef>(v + t), Err(u) => s_expand(chars, pre, f, i) == Err::<Str, Undef>(u) },
    },
    Ok((r, ERef::Char(c))) => chars && match s_expand(chars, pre, f, r) { Ok(t) => s_expand(chars, pre, f, i) == Ok::<Str, Undef>(seq![c] + t), Err(u) => s_expand(chars, pre, f, i) == Err::<Str, Undef>(u) },
    Err(_) => match s_expand(chars, pre, f, i.skip(1)) { Ok(t) => s_expand(chars, pre, f, i) == Ok::<Str, Undef>(seq![pre] + t), Err(u) => s_expand(chars, pre, f, i) == Err::<Str, Undef>(u) },
  }
{ l_reference(chars, i.skip(1)); }
// -------------------------------------------------------------------- C06
/// The character of a decimal digit.
pub open spec fn dig(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
/// The decimal numeral of a natural number.
pub open spec fn dec(n: int) -> Str
  decreases n
{ if n < 10 { seq![dig(n)] } else { dec(n / 10).push(dig(n % 10)) } }
pub open spec fn all_digits(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] c_digit(s[k]) }
proof fn l_number_push(base: int, acc: int, s: Str, c: char)
  requires base == 10, acc >= 0, c_digit(c), all_digits(s)
  ensures number(base, acc, s.push(c)) == match number(base, acc, s) { None => None, Some(v) => if v * base + digit_val(c) > 0xFFFF_FFFF { None } else { Some(v * base + digit_val(c)) } },
    match number(base, acc, s) { Some(v) => v >= 0, None => true }
  decreases s.len()
{
  reveal_with_fuel(number, 3);
  let p = s.push(c);
  if s.len() == 0 {
    assert(p[0] == c && p.skip(1) =~= seq![]);
    assert(s =~= seq![]);
  } else if acc <= 0xFFFF_FFFF {
    assert(c_digit(s[0]));
    assert(p[0] == s[0] && p.skip(1) =~= s.skip(1).push(c));
    assert forall|k: int| 0 <= k < s.skip(1).len() implies #[trigger] c_digit(s.skip(1)[k]) by { assert(c_digit(s[k + 1])); }
    assert(acc * base + digit_val(s[0]) >= 0) by(nonlinear_arith) requires base == 10, acc >= 0, digit_val(s[0]) >= 0;
    l_number_push(base, acc * base + digit_val(s[0]), s.skip(1), c);
  }
}
proof fn l_dec(n: int)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures all_digits(dec(n)), dec(n).len() > 0, number(10, 0, dec(n)) == Some(n)
  decreases n
{
  reveal_with_fuel(number, 3);
  if n < 10 { let s = seq![dig(n)]; assert(s[0] == dig(n)); assert(s.skip(1) =~= seq![]); }
  else {
    l_dec(n / 10);
    l_number_push(10, 0, dec(n / 10), dig(n % 10));
    assert forall|k: int| 0 <= k < dec(n).len() implies #[trigger] c_digit(dec(n)[k]) by { if k < dec(n / 10).len() { assert(c_digit(dec(n / 10)[k])); } }
  }
}
proof fn l_tw_all(p: Fun<char, bool>, a: Str, b: Str)
  requires forall|k: int| 0 <= k < a.len() ==> p(#[trigger] a[k]), b.len() == 0 || !p(b[0])
  ensures tw(p, a + b) == a.len()
  decreases a.len()
{
  let c = a + b;
  if a.len() == 0 { assert(c =~= b); }
  else {
    assert(c[0] == a[0]);
    assert(c.skip(1) =~= a.skip(1) + b);
    assert forall|k: int| 0 <= k < a.skip(1).len() implies p(#[trigger] a.skip(1)[k]) by { assert(a.skip(1)[k] == a[k + 1]); }
    l_tw_all(p, a.skip(1), b);
  }
}
pub open spec fn scalar(n: int) -> bool { (0 <= n < 0xD800) || (0xE000 <= n < 0x11_0000) }
/// A decimal reference for a code point, its `;`, and what follows.
pub open spec fn dec_ref(n: int, rest: Str) -> Str { seq!['#'] + dec(n) + seq![';'] + rest }
proof fn l_dec_ref(n: int, rest: Str)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures s_reference(true, dec_ref(n, rest)) == Ok::<(Str, ERef), NE>((rest, match n_char_from_u32(n) { Some(c) => ERef::Char(c), None => ERef::Entity(seq!['#'] + dec(n)) }))
{
  broadcast use l_pfx1;
  let i = dec_ref(n, rest);
  l_dec(n);
  let d = |c: char| c_digit(c);
  let tail = seq![';'] + rest;
  assert(i.skip(1) =~= dec(n) + tail);
  assert(forall|k: int| 0 <= k < dec(n).len() ==> d(#[trigger] dec(n)[k]));
  assert(tail[0] == ';');
  l_tw_all(d, dec(n), tail);
  let k = dec(n).len() as int;
  assert(tw(d, i.skip(1)) == k);
  assert(i.skip(1).take(k) =~= dec(n));
  assert(i.skip(1 + k) =~= tail);
  assert(i.take(1 + k) =~= seq!['#'] + dec(n));
  assert(i[0] == '#');
  assert(tail.skip(1) =~= rest);
  assert(s_char_ref(i) == Ok::<(Str, ERef), NE>((tail, match n_char_from_u32(n) { Some(c) => ERef::Char(c), None => ERef::Entity(seq!['#'] + dec(n)) })));
}
/// C06: a decimal reference to a scalar value becomes exactly that character, without the lookup.
pub proof fn t_decimal(f: Fun<Str, Option<Str>>, n: int, rest: Str)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures ({
    let i = seq!['&'] + dec_ref(n, rest);
    if scalar(n) { match s_expand(true, '&', f, rest) { Ok(t) => s_expand(true, '&', f, i) == Ok::<Str, Undef>(seq![int_to_char(n)] + t), Err(u) => s_expand(true, '&', f, i) == Err::<Str, Undef>(u) } }
    else { match f(seq!['#'] + dec(n)) { None => s_expand(true, '&', f, i) is Err, Some(v) => match s_expand(true, '&', f, rest) { Ok(t) => s_expand(true, '&', f, i) == Ok::<Str, Undef>(v + t), Err(u) => s_expand(true, '&', f, i) == Err::<Str, Undef>(u) } } }
  })
{
  let i = seq!['&'] + dec_ref(n, rest);
  assert(i.skip(1) =~= dec_ref(n, rest));
  l_dec_ref(n, rest);
  t_expand_ref(true, '&', f, i);
}
/// C06: in parameter-entity mode no reference is decoded as a character.
pub proof fn t_param_names(i: Str)
  ensures match s_reference(false, i) { Ok((_, x)) => x is Entity, Err(_) => true }
{}
// -------------------------------------------------------------------- C07
proof fn l_dec_small()
  ensures dec(60) == seq!['6', '0'], dec(62) == seq!['6', '2'], dec(38) == seq!['3', '8'], dec(34) == seq!['3', '4']
{
  reveal_with_fuel(dec, 3);
  assert(dec(60) =~= seq!['6', '0']); assert(dec(62) =~= seq!['6', '2']); assert(dec(38) =~= seq!['3', '8']); assert(dec(34) =~= seq!['3', '4']);
}
proof fn l_code(c: char)
  ensures int_to_char(c_code(c)) == c
{ let d = int_to_char(c_code(c)); assert(c_code(c) == c_code(c)); assert(c_code(d) == c_code(c)); }
/// The escaped form of one character, followed by `rest`, expands to it.
proof fn l_ref_lit(f: Fun<Str, Option<Str>>, c: char, a: char, b: char, rest: Str)
  requires c_code(c) < 100, dec(c_code(c)) == seq![a, b]
  ensures match s_expand(true, '&', f, rest) { Ok(t) => s_expand(true, '&', f, seq!['&', '#', a, b, ';'] + rest) == Ok::<Str, Undef>(seq![c] + t), Err(u) => s_expand(true, '&', f, seq!['&', '#', a, b, ';'] + rest) == Err::<Str, Undef>(u) }
{
  t_decimal(f, c_code(c), rest);
  l_code(c);
  assert(seq!['&', '#', a, b, ';'] + rest =~= seq!['&'] + dec_ref(c_code(c), rest));
}
/// C07: escaping and then expanding gives back the text, whatever the lookup.
pub proof fn t_escape_expand(f: Fun<Str, Option<Str>>, s: Str)
  ensures s_expand(true, '&', f, s_escape(true, s)) == Ok::<Str, Undef>(s)
  decreases s.len()
{
  if s.len() > 0 {
    let c = s[0];
    let t = s.skip(1);
    t_escape_expand(f, t);
    l_dec_small();
    let e = s_escape(true, t);
    if c == '<' { l_ref_lit(f, '<', '6', '0', e); }
    else if c == '>' { l_ref_lit(f, '>', '6', '2', e); }
    else if c == '&' { l_ref_lit(f, '&', '3', '8', e); }
    else { t_expand_prefix(true, '&', f, seq![c], e); }
    assert(seq![c] + t =~= s);
  }
}
/// C07: the escaped form has no angle bracket.
pub proof fn t_escape_plain(amp: bool, s: Str)
  ensures no_char(s_escape(amp, s), '<'), no_char(s_escape(amp, s), '>')
  decreases s.len()
{
  if s.len() > 0 {
    t_escape_plain(amp, s.skip(1));
    let a = s_escape_char(amp, s[0]);
    let b = s_escape(amp, s.skip(1));
    assert(no_char(a, '<') && no_char(a, '>'));
    assert forall|k: int| 0 <= k < (a + b).len() implies #[trigger] (a + b)[k] != '<' && (a + b)[k] != '>' by { if k < a.len() { assert((a + b)[k] == a[k]); } else { assert((a + b)[k] == b[k - a.len()]); } }
  }
}
/// C07: escaping goes piece by piece, wherever the text is cut.
pub proof fn t_escape_keeps(amp: bool, a: Str, b: Str)
  ensures s_escape(amp, a + b) == s_escape(amp, a) + s_escape(amp, b)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); assert(s_escape(amp, a) + s_escape(amp, b) =~= s_escape(amp, b)); }
  else {
    assert((a + b)[0] == a[0]); assert((a + b).skip(1) =~= a.skip(1) + b);
    t_escape_keeps(amp, a.skip(1), b);
    assert(s_escape_char(amp, a[0]) + (s_escape(amp, a.skip(1)) + s_escape(amp, b)) =~= (s_escape_char(amp, a[0]) + s_escape(amp, a.skip(1))) + s_escape(amp, b));
  }
}
/// C07: characters other than the three pass unchanged, and the ampersand too unless asked for.
pub proof fn t_escape_char(amp: bool, c: char)
  requires c != '<', c != '>', c != '&' || !amp
  ensures s_escape_char(amp, c) == seq![c], s_escape(amp, seq![c]) == seq![c]
{
  assert(seq![c].skip(1) =~= Seq::<char>::empty());
  assert(s_escape(amp, Seq::<char>::empty()) == Seq::<char>::empty());
  assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
}
/// Starts with one of the references that escaping introduces.
pub open spec fn e_own_ref(x: Str) -> bool { x.len() >= 5 && (x.take(5) == seq!['&', '#', '6', '0', ';'] || x.take(5) == seq!['&', '#', '6', '2', ';'] || x.take(5) == seq!['&', '#', '3', '8', ';']) }
/// C07: every ampersand of the escaped form starts a reference that escaping introduced.
pub proof fn t_escape_amps(s: Str)
  ensures forall|k: int| 0 <= k < s_escape(true, s).len() && s_escape(true, s)[k] == '&' ==> e_own_ref(#[trigger] s_escape(true, s).skip(k))
  decreases s.len()
{
  if s.len() > 0 {
    t_escape_amps(s.skip(1));
    let a = s_escape_char(true, s[0]);
    let b = s_escape(true, s.skip(1));
    let x = a + b;
    assert(s_escape(true, s) == x);
    l_dec_small();
    assert forall|k: int| 0 <= k < x.len() && x[k] == '&' implies e_own_ref(#[trigger] x.skip(k)) by {
      if k < a.len() {
        assert(x[k] == a[k]);
        assert(k == 0 && a.len() == 5);
        assert(x.skip(0).take(5) =~= a);
      } else { assert(x.skip(k) =~= b.skip(k - a.len())); assert(x[k] == b[k - a.len()]); }
    }
  }
}
/// C07: text without an ampersand comes back with ampersand escaping disabled as well.
pub proof fn t_escape_expand_off(f: Fun<Str, Option<Str>>, s: Str)
  requires no_char(s, '&')
  ensures s_escape(false, s) == s_escape(true, s), s_expand(true, '&', f, s_escape(false, s)) == Ok::<Str, Undef>(s)
  decreases s.len()
{
  t_escape_expand(f, s);
  if s.len() > 0 { assert(s[0] != '&'); assert(forall|k: int| 0 <= k < s.skip(1).len() ==> #[trigger] s.skip(1)[k] == s[k + 1]); assert(no_char(s.skip(1), '&')); t_escape_expand_off(f, s.skip(1)); }
}
// -------------------------------------------------------------------- C10
proof fn l_trim_end(p: Fun<char, bool>, i: Str)
  ensures trim_end(p, i).len() <= i.len(), trim_end(p, i) == i.take(trim_end(p, i).len() as int),
    trim_end(p, i).len() > 0 ==> !p(trim_end(p, i).last()),
    forall|k: int| trim_end(p, i).len() <= k < i.len() ==> p(#[trigger] i[k])
  decreases i.len()
{
  assert(i.take(i.len() as int) =~= i);
  if i.len() > 0 && p(i[i.len() - 1]) {
    let t = i.take(i.len() - 1);
    l_trim_end(p, t);
    let n = trim_end(p, t).len() as int;
    assert(t.take(n) =~= i.take(n));
    assert forall|k: int| n <= k < i.len() implies p(#[trigger] i[k]) by { if k < i.len() - 1 { assert(t[k] == i[k]); } }
  }
}
/// C10: trimming removes exactly the leading and trailing spaces, tabs, returns and newlines.
pub proof fn t_trim(i: Str)
  ensures exists|a: int, b: int| 0 <= a <= b <= i.len() && #[trigger] i.subrange(a, b) == s_trim_ws(i)
    && (forall|k: int| 0 <= k < a ==> s_is_ws(#[trigger] i[k])) && (forall|k: int| b <= k < i.len() ==> s_is_ws(#[trigger] i[k]))
    && (a < b ==> !s_is_ws(i[a]) && !s_is_ws(i[b - 1]))
{
  let p = p_ws();
  l_tw(p, i);
  let a = tw(p, i);
  let j = i.skip(a);
  l_trim_end(p, j);
  let b = a + trim_end(p, j).len();
  assert(i.subrange(a, b) =~= s_trim_ws(i));
  assert forall|k: int| b <= k < i.len() implies s_is_ws(#[trigger] i[k]) by { assert(p(j[k - a])); }
  assert forall|k: int| 0 <= k < a implies s_is_ws(#[trigger] i[k]) by { assert(p(i[k])); }
  if a < b { assert(!p(i[a])); assert(trim_end(p, j).last() == i[b - 1]); assert(!p(i[b - 1])); }
}
