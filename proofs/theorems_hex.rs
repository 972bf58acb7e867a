// -------------------------------------------------------------------- C06
/// The character of a hexadecimal digit.
pub open spec fn hdig(d: int) -> char { if d < 10 { dig(d) } else if d == 10 { 'a' } else if d == 11 { 'b' } else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' } }
/// The hexadecimal numeral of a natural number.
pub open spec fn hex(n: int) -> Str
  decreases n
{ if n < 16 { seq![hdig(n)] } else { hex(n / 16).push(hdig(n % 16)) } }
pub open spec fn all_hex(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> digit_val(#[trigger] s[k]) < 16 }
proof fn l_number_push16(acc: int, s: Str, c: char)
  requires acc >= 0, digit_val(c) < 16, all_hex(s)
  ensures number(16, acc, s.push(c)) == match number(16, acc, s) { None => None, Some(v) => if v * 16 + digit_val(c) > 0xFFFF_FFFF { None } else { Some(v * 16 + digit_val(c)) } },
    match number(16, acc, s) { Some(v) => v >= 0, None => true }
  decreases s.len()
{
  reveal_with_fuel(number, 3);
  let p = s.push(c);
  if s.len() == 0 {
    assert(p[0] == c && p.skip(1) =~= seq![]);
    assert(s =~= seq![]);
  } else if acc <= 0xFFFF_FFFF {
    assert(digit_val(s[0]) < 16);
    assert(p[0] == s[0] && p.skip(1) =~= s.skip(1).push(c));
    assert forall|k: int| 0 <= k < s.skip(1).len() implies digit_val(#[trigger] s.skip(1)[k]) < 16 by { assert(digit_val(s[k + 1]) < 16); }
    l_number_push16(acc * 16 + digit_val(s[0]), s.skip(1), c);
  }
}
proof fn l_hdig(d: int)
  requires 0 <= d < 16
  ensures digit_val(hdig(d)) == d, s_name_char(hdig(d)), hdig(d) != '#'
{ broadcast use ax_alnum; }
proof fn l_hex(n: int)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures all_hex(hex(n)), hex(n).len() > 0, number(16, 0, hex(n)) == Some(n), forall|k: int| 0 <= k < hex(n).len() ==> s_name_char(#[trigger] hex(n)[k])
  decreases n
{
  reveal_with_fuel(number, 3);
  if n < 16 { l_hdig(n); let s = seq![hdig(n)]; assert(s[0] == hdig(n)); assert(s.skip(1) =~= seq![]); }
  else {
    l_hex(n / 16);
    l_hdig(n % 16);
    l_number_push16(0, hex(n / 16), hdig(n % 16));
    assert forall|k: int| 0 <= k < hex(n).len() implies digit_val(#[trigger] hex(n)[k]) < 16 && s_name_char(hex(n)[k]) by { if k < hex(n / 16).len() { assert(hex(n)[k] == hex(n / 16)[k]); } }
  }
}
/// A hexadecimal reference for a code point, its `;`, and what follows.
pub open spec fn hex_ref(n: int, rest: Str) -> Str { seq!['#', 'x'] + hex(n) + seq![';'] + rest }
proof fn l_hex_ref(n: int, rest: Str)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures s_reference(true, hex_ref(n, rest)) == Ok::<(Str, ERef), NE>((rest, match n_char_from_u32(n) { Some(c) => ERef::Char(c), None => ERef::Entity(seq!['#', 'x'] + hex(n)) }))
{
  broadcast use l_pfx1, l_pfx2, ax_alnum;
  let i = hex_ref(n, rest);
  l_hex(n);
  let d = |c: char| s_name_char(c);
  let tail = seq![';'] + rest;
  assert(i.skip(2) =~= hex(n) + tail);
  assert(forall|k: int| 0 <= k < hex(n).len() ==> d(#[trigger] hex(n)[k]));
  assert(tail[0] == ';' && !s_name_char(';'));
  l_tw_all(d, hex(n), tail);
  let k = hex(n).len() as int;
  assert(tw(d, i.skip(2)) == k);
  assert(i.skip(2).take(k) =~= hex(n));
  assert(i.skip(2 + k) =~= tail);
  assert(i.take(2 + k) =~= seq!['#', 'x'] + hex(n));
  assert(i[0] == '#' && i[1] == 'x');
  assert(i.skip(1)[0] == 'x');
  let q = |c: char| c_digit(c);
  assert(tw(q, i.skip(1)) == 0);
  assert(tail.skip(1) =~= rest);
  assert(s_char_ref(i) == Ok::<(Str, ERef), NE>((tail, match n_char_from_u32(n) { Some(c) => ERef::Char(c), None => ERef::Entity(seq!['#', 'x'] + hex(n)) })));
}
/// C06: a hexadecimal reference to a scalar value becomes exactly that character, without the lookup;
/// one to another number is looked up whole.
pub proof fn t_hexadecimal(f: Fun<Str, Option<Str>>, n: int, rest: Str)
  requires 0 <= n <= 0xFFFF_FFFF
  ensures ({
    let i = seq!['&'] + hex_ref(n, rest);
    if scalar(n) { match s_expand(true, '&', f, rest) { Ok(t) => s_expand(true, '&', f, i) == Ok::<Str, Undef>(seq![int_to_char(n)] + t), Err(u) => s_expand(true, '&', f, i) == Err::<Str, Undef>(u) } }
    else { match f(seq!['#', 'x'] + hex(n)) { None => s_expand(true, '&', f, i) is Err, Some(v) => match s_expand(true, '&', f, rest) { Ok(t) => s_expand(true, '&', f, i) == Ok::<Str, Undef>(v + t), Err(u) => s_expand(true, '&', f, i) == Err::<Str, Undef>(u) } } }
  })
{
  let i = seq!['&'] + hex_ref(n, rest);
  assert(i.skip(1) =~= hex_ref(n, rest));
  l_hex_ref(n, rest);
  t_expand_ref(true, '&', f, i);
}
/// C06: a number that does not fit 32 bits denotes no character, however many digits it has.
pub proof fn t_number_bound(base: int, acc: int, s: Str)
  requires base == 10 || base == 16, acc >= 0
  ensures match number(base, acc, s) { Some(v) => 0 <= v <= 0xFFFF_FFFF, None => true }
  decreases s.len()
{
  if acc <= 0xFFFF_FFFF && s.len() > 0 && digit_val(s[0]) < base {
    assert(acc * base + digit_val(s[0]) >= 0) by(nonlinear_arith) requires base == 10 || base == 16, acc >= 0, digit_val(s[0]) >= 0;
    t_number_bound(base, acc * base + digit_val(s[0]), s.skip(1));
  }
}
