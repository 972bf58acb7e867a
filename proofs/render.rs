// ------------------------------------------------------------------ rendering
pub broadcast proof fn l_flat_single(f: Fun<char, Str>, s: Str)
  ensures (forall|c: char| #[trigger] f(c) == seq![c]) ==> #[trigger] flatten(s_map(f, s)) == s
  decreases s.len()
{
  if s.len() > 0 {
    l_flat_single(f, s.skip(1));
    l_flat_cons(f, s);
    if forall|c: char| #[trigger] f(c) == seq![c] { assert(f(s[0]) == seq![s[0]]); assert(seq![s[0]] + s.skip(1) =~= s); }
  } else { assert(s_map(f, s) =~= seq![]); assert(flatten(s_map(f, s)) =~= s); }
}
pub proof fn l_flat_cons<T>(f: Fun<T, Str>, s: Seq<T>)
  requires s.len() > 0
  ensures flatten(s_map(f, s)) == f(s[0]) + flatten(s_map(f, s.skip(1)))
{
  let m = s_map(f, s);
  assert(m[0] == f(s[0]));
  assert(m.skip(1) =~= s_map(f, s.skip(1)));
}
pub open spec fn attr_char(c: char) -> Str { if c == '"' { lit5('&', '#', '3', '4', ';') } else if c == '&' { lit5('&', '#', '3', '8', ';') } else { seq![c] } }
pub open spec fn lit5(a: char, b: char, c: char, d: char, e: char) -> Str { seq![a, b, c, d, e] }
pub broadcast proof fn l_flat_attr(f: Fun<char, Str>, s: Str)
  ensures (forall|c: char| #[trigger] f(c) == attr_char(c)) ==> #[trigger] flatten(s_map(f, s)) == s_attr_escape(s)
  decreases s.len()
{
  if s.len() > 0 {
    l_flat_attr(f, s.skip(1));
    l_flat_cons(f, s);
    if forall|c: char| #[trigger] f(c) == attr_char(c) { assert(f(s[0]) == attr_char(s[0])); }
  } else { assert(s_map(f, s) =~= seq![]); assert(flatten(s_map(f, s)) =~= s); }
}
pub open spec fn show_one(e: Ev) -> Str { (match e { Ev::Attr(_, _) => seq![' '], _ => seq![] }) + s_show(e) }
pub broadcast proof fn l_flat_show(f: Fun<Ev, Str>, s: Seq<Ev>)
  ensures (forall|e: Ev| #[trigger] f(e) == show_one(e)) ==> #[trigger] flatten(s_map(f, s)) == s_show_all(s)
  decreases s.len()
{
  if s.len() > 0 {
    l_flat_show(f, s.skip(1));
    l_flat_cons(f, s);
    if forall|e: Ev| #[trigger] f(e) == show_one(e) { assert(f(s[0]) == show_one(s[0])); }
  } else { assert(s_map(f, s) =~= seq![]); assert(flatten(s_map(f, s)) =~= seq![]); }
}
pub broadcast proof fn l_escape_len(amp: bool, i: Str)
  ensures i.len() <= (#[trigger] s_escape(amp, i)).len() <= 5 * i.len()
  decreases i.len()
{ if i.len() > 0 { l_escape_len(amp, i.skip(1)); } }
pub broadcast proof fn l_blen_len(i: Str)
  ensures i.len() <= #[trigger] blen(i) <= 4 * i.len()
  decreases i.len()
{ if i.len() > 0 { l_blen_len(i.skip(1)); } }
pub broadcast proof fn l_cat_nil(s: Str)
  ensures #[trigger] (s + Seq::<char>::empty()) == s, #[trigger] (Seq::<char>::empty() + s) == s
{ assert(s + Seq::<char>::empty() =~= s); assert(Seq::<char>::empty() + s =~= s); }
pub broadcast proof fn l_cat_assoc(a: Str, b: Str, c: Str)
  ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast group g_render { l_flat_single, l_flat_attr, l_flat_show, l_escape_len, l_blen_len, l_cat_nil, l_cat_assoc }
