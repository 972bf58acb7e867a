// -------------------------------------------------------------------- C12
/// No start tag, end tag or XML-style closing.
pub open spec fn e_neutral(evs: Seq<Ev>) -> bool { forall|k: int| 0 <= k < evs.len() ==> !(#[trigger] evs[k] is Open) && !(evs[k] is End) && !(evs[k] is XmlClose) }
pub proof fn l_bal_neutral(open: Seq<Str>, a: Seq<Ev>, b: Seq<Ev>)
  requires e_neutral(a)
  ensures s_balanced(open, a + b) == s_balanced(open, b)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    assert((a + b)[0] == a[0]);
    assert((a + b).skip(1) =~= a.skip(1) + b);
    assert forall|k: int| 0 <= k < a.skip(1).len() implies !(#[trigger] a.skip(1)[k] is Open) && !(a.skip(1)[k] is End) && !(a.skip(1)[k] is XmlClose) by { assert(a.skip(1)[k] == a[k + 1]); }
    l_bal_neutral(open, a.skip(1), b);
    assert(!(a[0] is Open) && !(a[0] is End) && !(a[0] is XmlClose));
  }
}
/// `b` is `a` with end tags added and XML-style closings replaced.
pub open spec fn e_extends(a: Seq<Ev>, b: Seq<Ev>) -> bool
  decreases b.len()
{
  if b.len() == 0 { a.len() == 0 } else {
    (a.len() > 0 && (a[0] == b[0] || (a[0] is XmlClose && b[0] is Close)) && e_extends(a.skip(1), b.skip(1))) || (b[0] is End && e_extends(a, b.skip(1)))
  }
}
pub proof fn l_ext_insert(a: Seq<Ev>, b: Seq<Ev>, k: int, e: Ev)
  requires e_extends(a, b), 0 <= k <= b.len(), e is End
  ensures e_extends(a, s_insert(b, k, e))
  decreases b.len()
{
  let c = s_insert(b, k, e);
  if k == b.len() {
    assert(c =~= seq![e] + b);
    assert(c.skip(1) =~= b);
    assert(c[0] == e);
  } else {
    assert(c[0] == b[0]);
    assert(c.skip(1) =~= s_insert(b.skip(1), k, e));
    if a.len() > 0 && (a[0] == b[0] || (a[0] is XmlClose && b[0] is Close)) && e_extends(a.skip(1), b.skip(1)) { l_ext_insert(a.skip(1), b.skip(1), k, e); }
    else { l_ext_insert(a, b.skip(1), k, e); }
  }
}
pub proof fn l_ext_head(a: Seq<Ev>, x: Ev, b: Seq<Ev>, y: Ev)
  requires e_extends(a, b), x == y || (x is XmlClose && y is Close)
  ensures e_extends(seq![x] + a, seq![y] + b)
{
  let c = seq![x] + a;
  let d = seq![y] + b;
  assert(c[0] == x && d[0] == y && c.skip(1) =~= a && d.skip(1) =~= b);
}
pub open spec fn net_inv(inside: bool, evs: Seq<Ev>, st: Net) -> bool {
  &&& s_balanced(st.stack, st.out)
  &&& e_extends(evs, st.out)
  &&& 0 <= st.ins <= st.out.len()
  &&& e_neutral(st.out.take(st.out.len() - st.ins))
  &&& match st.xml { None => true, Some(k) => inside && 0 <= k <= st.out.len() && e_neutral(st.out.take(st.out.len() - k)) }
}
proof fn l_neutral_cons(e: Ev, out: Seq<Ev>, k: int)
  requires 0 <= k <= out.len(), e_neutral(out.take(out.len() - k)), e_neutral(seq![e])
  ensures e_neutral((seq![e] + out).take(out.len() + 1 - k))
{
  let o = (seq![e] + out).take(out.len() + 1 - k);
  assert forall|j: int| 0 <= j < o.len() implies !(#[trigger] o[j] is Open) && !(o[j] is End) && !(o[j] is XmlClose) by {
    if j == 0 { assert(o[0] == seq![e][0]); } else { assert(o[j] == out.take(out.len() - k)[j - 1]); }
  }
}
proof fn l_bal_insert(stack: Seq<Str>, out: Seq<Ev>, k: int, name: Str)
  requires 0 <= k <= out.len(), e_neutral(out.take(out.len() - k)), s_balanced(stack, out)
  ensures s_balanced(stack, seq![Ev::Open(name)] + s_insert(out, k, Ev::End(name)))
{
  let a = out.take(out.len() - k);
  let r = out.skip(out.len() - k);
  let x = s_insert(out, k, Ev::End(name));
  assert(out =~= a + r);
  l_bal_neutral(stack, a, r);
  assert(x =~= a + (seq![Ev::End(name)] + r));
  l_bal_neutral(stack.push(name), a, seq![Ev::End(name)] + r);
  assert((seq![Ev::End(name)] + r).skip(1) =~= r);
  assert(stack.push(name).drop_last() =~= stack);
  let y = seq![Ev::Open(name)] + x;
  assert(y[0] == Ev::Open(name) && y.skip(1) =~= x);
}
proof fn l_net_inv(inside: bool, evs: Seq<Ev>)
  requires s_wf(inside, evs)
  ensures match s_net(evs) { Ok(st) => net_inv(inside, evs, st), Err(_) => true }
  decreases evs.len()
{
  if evs.len() == 0 {
    assert(e_neutral(seq![]));
    assert(Seq::<Ev>::empty().take(0) =~= seq![]);
  } else {
    let rest = evs.skip(1);
    let e = evs[0];
    assert(evs =~= seq![e] + rest);
    l_net_inv(match e { Ev::Open(_) => true, Ev::Attr(_, _) => true, _ => false }, rest);
    match s_net(rest) { Err(_) => {} Ok(st) => {
      let o1 = seq![e] + st.out;
      assert(o1[0] == e && o1.skip(1) =~= st.out);
      match e {
        Ev::Open(name) => if name.len() > 0 {
          match st.xml {
            Some(k) => {
              l_bal_insert(st.stack, st.out, k, name);
              l_ext_insert(rest, st.out, k, Ev::End(name));
              let x = s_insert(st.out, k, Ev::End(name));
              l_ext_head(rest, e, x, e);
              assert((seq![e] + x).take(0) =~= seq![]);
            }
            None => if st.stack.len() > 0 && st.stack.last() == name {
              assert(st.stack.drop_last().push(name) =~= st.stack);
              l_ext_head(rest, e, st.out, e);
              assert(o1.take(0) =~= seq![]);
            } else {
              l_bal_insert(st.stack, st.out, st.ins, name);
              l_ext_insert(rest, st.out, st.ins, Ev::End(name));
              let x = s_insert(st.out, st.ins, Ev::End(name));
              l_ext_head(rest, e, x, e);
              assert((seq![e] + x).take(0) =~= seq![]);
            }
          }
        },
        Ev::End(name) => if name.len() > 0 {
          l_ext_head(rest, e, st.out, e);
          assert(o1.take(0) =~= seq![]);
          assert(st.stack.push(name).drop_last() =~= st.stack);
        },
        Ev::XmlClose => {
          l_ext_head(rest, e, st.out, Ev::Close);
          let o = seq![Ev::Close] + st.out;
          assert(o[0] == Ev::Close && o.skip(1) =~= st.out);
          assert(e_neutral(seq![Ev::Close]));
          l_neutral_cons(Ev::Close, st.out, st.ins);
          assert(e_neutral(st.out.take(0)));
          l_neutral_cons(Ev::Close, st.out, st.out.len() as int);
        }
        _ => {
          l_ext_head(rest, e, st.out, e);
          assert(e_neutral(seq![e]));
          l_neutral_cons(e, st.out, st.ins);
          match st.xml { Some(k) => { l_neutral_cons(e, st.out, k); } None => {} }
          assert(o1.take(0) =~= seq![]);
        }
      }
    } }
  }
}
/// C12: a successful normalization is balanced and is the input with end tags added and
/// XML-style closings made ordinary.
pub proof fn t_net_balanced(evs: Seq<Ev>)
  requires s_wf(false, evs)
  ensures match s_normalize_end_tags(evs) { Ok(out) => s_balanced(seq![], out) && e_extends(evs, out), Err(_) => true }
{
  l_net_inv(false, evs);
  match s_net(evs) { Ok(st) => { if st.stack.len() == 0 { assert(st.stack =~= seq![]); } } Err(_) => {} }
}
pub open spec fn no_empty_tag(evs: Seq<Ev>) -> bool { forall|k: int| 0 <= k < evs.len() ==> match #[trigger] evs[k] { Ev::Open(n) => n.len() > 0, Ev::End(n) => n.len() > 0, _ => true } }
proof fn l_net_same(open: Seq<Str>, evs: Seq<Ev>)
  requires s_balanced(open, evs), no_empty_tag(evs)
  ensures match s_net(evs) { Ok(st) => st.out == evs && st.stack == open && st.xml is None, Err(_) => false }
  decreases evs.len()
{
  if evs.len() == 0 { assert(evs =~= seq![]); assert(open =~= seq![]); }
  else {
    let rest = evs.skip(1);
    assert(evs =~= seq![evs[0]] + rest);
    assert forall|k: int| 0 <= k < rest.len() implies match #[trigger] rest[k] { Ev::Open(n) => n.len() > 0, Ev::End(n) => n.len() > 0, _ => true } by { assert(rest[k] == evs[k + 1]); }
    let o2 = match evs[0] { Ev::Open(n) => open.push(n), Ev::End(n) => open.drop_last(), _ => open };
    l_net_same(o2, rest);
    match evs[0] {
      Ev::Open(n) => { assert(open.push(n).drop_last() =~= open); assert(open.push(n).last() == n); }
      Ev::End(n) => { assert(open.drop_last().push(n) =~= open); }
      _ => {}
    }
  }
}
/// C12: a balanced fragment is returned unchanged.
pub proof fn t_net_unchanged(evs: Seq<Ev>)
  requires s_balanced(seq![], evs), no_empty_tag(evs)
  ensures s_normalize_end_tags(evs) == Ok::<Seq<Ev>, NetErr>(evs)
{ l_net_same(seq![], evs); }
/// C12: an empty tag anywhere makes normalization fail.
proof fn l_net_empty(evs: Seq<Ev>)
  requires !no_empty_tag(evs)
  ensures s_net(evs) is Err
  decreases evs.len()
{
  let rest = evs.skip(1);
  if evs.len() > 0 {
    if no_empty_tag(rest) {
      let k = choose|k: int| 0 <= k < evs.len() && !match #[trigger] evs[k] { Ev::Open(n) => n.len() > 0, Ev::End(n) => n.len() > 0, _ => true };
      if k > 0 { assert(rest[k - 1] == evs[k]); }
    } else { l_net_empty(rest); }
  }
}
pub proof fn t_net_empty(evs: Seq<Ev>)
  requires !no_empty_tag(evs)
  ensures s_normalize_end_tags(evs) is Err
{ l_net_empty(evs); }
// ------------------------------------------------- placement of end tags
pub open spec fn e_is_blank(e: Ev) -> bool { match e { Ev::Chars(t) => s_blank(t), _ => false } }
/// Blank text only, then a tag or the end.
pub open spec fn e_tag_next(b: Seq<Ev>) -> bool
  decreases b.len()
{ b.len() == 0 || b[0] is Open || b[0] is End || (e_is_blank(b[0]) && e_tag_next(b.skip(1))) }
/// `b` is `a` with end tags added and XML-style closings replaced, each added end tag standing
/// directly after such a closing (`px`: one was just passed), or directly before the next tag
/// save for blank text, and itself not after blank text
/// (`pb`: one was just passed); and no tag standing between it and its start tag (`own`).
pub open spec fn e_placed(px: bool, pb: bool, own: bool, a: Seq<Ev>, b: Seq<Ev>) -> bool
  decreases b.len()
{
  if b.len() == 0 { a.len() == 0 } else {
    (a.len() > 0 && (a[0] == b[0] || (a[0] is XmlClose && b[0] is Close)) && e_placed(a[0] is XmlClose, e_is_blank(b[0]), e_own(own, b[0]), a.skip(1), b.skip(1)))
    || (b[0] is End && own && (px || (!pb && e_tag_next(b.skip(1)))) && e_placed(false, false, false, a, b.skip(1)))
  }
}
/// Whether a start tag was passed and no tag since.
pub open spec fn e_own(own: bool, e: Ev) -> bool { e is Open || (own && !(e is End)) }
proof fn l_pl_weaken(px: bool, pb: bool, own: bool, a: Seq<Ev>, b: Seq<Ev>)
  requires e_placed(false, true, false, a, b)
  ensures e_placed(px, pb, own, a, b)
  decreases b.len()
{ if b.len() > 0 { l_pl_own(a[0] is XmlClose, e_is_blank(b[0]), e_own(false, b[0]), e_own(own, b[0]), a.skip(1), b.skip(1)); } }
proof fn l_pl_own(px: bool, pb: bool, own: bool, own2: bool, a: Seq<Ev>, b: Seq<Ev>)
  requires e_placed(px, pb, own, a, b), own ==> own2
  ensures e_placed(px, pb, own2, a, b)
  decreases b.len()
{
  if b.len() > 0 {
    if a.len() > 0 && (a[0] == b[0] || (a[0] is XmlClose && b[0] is Close)) && e_placed(a[0] is XmlClose, e_is_blank(b[0]), e_own(own, b[0]), a.skip(1), b.skip(1)) {
      l_pl_own(a[0] is XmlClose, e_is_blank(b[0]), e_own(own, b[0]), e_own(own2, b[0]), a.skip(1), b.skip(1));
    }
  }
}
proof fn l_pl_cons(px: bool, pb: bool, own: bool, a: Seq<Ev>, x: Ev, b: Seq<Ev>, y: Ev)
  requires e_placed(x is XmlClose, e_is_blank(y), e_own(own, y), a, b), x == y || (x is XmlClose && y is Close)
  ensures e_placed(px, pb, own, seq![x] + a, seq![y] + b)
{
  let c = seq![x] + a;
  let d = seq![y] + b;
  assert(c[0] == x && d[0] == y && c.skip(1) =~= a && d.skip(1) =~= b);
}
/// An end tag added after `j` events that are the same in both.
proof fn l_pl_insert(px: bool, pb: bool, a: Seq<Ev>, b: Seq<Ev>, j: int, e: Ev)
  requires
    e is End, 0 <= j <= a.len(), j <= b.len(),
    forall|k: int| 0 <= k < j ==> (#[trigger] b[k] == a[k] || (a[k] is XmlClose && b[k] is Close)) && !(b[k] is Open) && !(b[k] is End),
    e_placed(false, true, false, a.skip(j), b.skip(j)),
    if j == 0 { px || (!pb && e_tag_next(b)) } else { a[j - 1] is XmlClose || (!e_is_blank(b[j - 1]) && e_tag_next(b.skip(j))) }
  ensures e_placed(px, pb, true, a, s_insert(b, b.len() - j, e))
  decreases j
{
  let c = s_insert(b, b.len() - j, e);
  if j == 0 {
    assert(c =~= seq![e] + b);
    assert(c[0] == e && c.skip(1) =~= b);
    assert(a.skip(0) =~= a && b.skip(0) =~= b);
    l_pl_weaken(false, false, false, a, b);
  } else {
    let (a1, b1) = (a.skip(1), b.skip(1));
    assert(c[0] == b[0]);
    assert(b[0] == a[0] || (a[0] is XmlClose && b[0] is Close));
    assert(c.skip(1) =~= s_insert(b1, b1.len() - (j - 1), e));
    assert(a1.skip(j - 1) =~= a.skip(j) && b1.skip(j - 1) =~= b.skip(j));
    assert forall|k: int| 0 <= k < j - 1 implies (#[trigger] b1[k] == a1[k] || (a1[k] is XmlClose && b1[k] is Close)) && !(b1[k] is Open) && !(b1[k] is End) by { assert(b1[k] == b[k + 1] && a1[k] == a[k + 1]); }
    if j == 1 { assert(b1.skip(0) =~= b1); } else { assert(a1[j - 2] == a[j - 1] && b1[j - 2] == b[j - 1]); }
    l_pl_insert(a[0] is XmlClose, e_is_blank(b[0]), a1, b1, j - 1, e);
  }
}
pub open spec fn pl_inv(inside: bool, evs: Seq<Ev>, st: Net) -> bool {
  &&& e_placed(false, true, false, evs, st.out)
  &&& match st.xml {
    None => {
      let j = st.out.len() - st.ins;
      &&& 0 <= j <= st.out.len() && j <= evs.len()
      &&& forall|k: int| 0 <= k < j ==> #[trigger] st.out[k] == evs[k] && !(st.out[k] is Open) && !(st.out[k] is End)
      &&& j > 0 ==> !e_is_blank(st.out[j - 1])
      &&& e_tag_next(st.out.skip(j))
      &&& e_placed(false, true, false, evs.skip(j), st.out.skip(j))
    }
    Some(q) => {
      let j = st.out.len() - q;
      &&& inside && 1 <= j <= st.out.len() && j <= evs.len()
      &&& forall|k: int| 0 <= k < j - 1 ==> #[trigger] st.out[k] == evs[k] && !(st.out[k] is Open) && !(st.out[k] is End)
      &&& evs[j - 1] is XmlClose && st.out[j - 1] is Close
      &&& e_placed(false, true, false, evs.skip(j), st.out.skip(j))
    }
  }
}
proof fn l_net_placed(inside: bool, evs: Seq<Ev>)
  requires s_wf(inside, evs)
  ensures match s_net(evs) { Ok(st) => pl_inv(inside, evs, st), Err(_) => true }
  decreases evs.len()
{
  if evs.len() == 0 {
    assert(evs.skip(0) =~= evs);
    assert(Seq::<Ev>::empty().skip(0) =~= Seq::<Ev>::empty());
  } else {
    let rest = evs.skip(1);
    let e = evs[0];
    assert(evs =~= seq![e] + rest);
    l_net_placed(match e { Ev::Open(_) => true, Ev::Attr(_, _) => true, _ => false }, rest);
    match s_net(rest) { Err(_) => {} Ok(st) => {
      let n = st.out.len() as int;
      let y = if e is XmlClose { Ev::Close } else { e };
      let o1 = seq![y] + st.out;
      assert(o1[0] == y && o1.skip(1) =~= st.out);
      assert(o1.skip(0) =~= o1 && evs.skip(0) =~= evs);
      l_pl_weaken(e is XmlClose, e_is_blank(y), e_own(false, y), rest, st.out);
      l_pl_cons(false, true, false, rest, e, st.out, y);
      let j = match st.xml { None => n - st.ins, Some(q) => n - q };
      assert(o1.skip(j + 1) =~= st.out.skip(j));
      assert(evs.skip(j + 1) =~= rest.skip(j));
      assert forall|k: int| 1 <= k <= j implies #[trigger] o1[k] == st.out[k - 1] by {}
      assert forall|k: int| 1 <= k <= j implies #[trigger] evs[k] == rest[k - 1] by {}
      match e {
        Ev::Open(name) => if name.len() > 0 && !(st.xml is None && st.stack.len() > 0 && st.stack.last() == name) {
          let x = s_insert(st.out, n - j, Ev::End(name));
          if j == 0 { assert(st.out.skip(0) =~= st.out); }
          assert forall|k: int| 0 <= k < j implies (#[trigger] st.out[k] == rest[k] || (rest[k] is XmlClose && st.out[k] is Close)) && !(st.out[k] is Open) && !(st.out[k] is End) by {}
          l_pl_insert(false, false, rest, st.out, j, Ev::End(name));
          l_pl_cons(false, true, false, rest, e, x, e);
          let o2 = seq![e] + x;
          assert(o2[0] == e && o2.skip(0) =~= o2);
        },
        Ev::XmlClose => { assert(st.xml is None); assert(o1.skip(1) =~= st.out); }
        _ => {}
      }
    } }
  }
}
/// C12: every end tag that normalization adds stands right after the XML-style closing it
/// replaces, or after the text of its element and before the next tag, blank text aside.
pub proof fn t_net_placed(evs: Seq<Ev>)
  requires s_wf(false, evs)
  ensures match s_normalize_end_tags(evs) { Ok(out) => e_placed(false, true, false, evs, out), Err(_) => true }
{ l_net_placed(false, evs); }
