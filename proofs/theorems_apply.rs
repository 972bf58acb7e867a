// -------------------------------------------------------------------- C13
/// What comes out for the positions below `q`: at each, the insertions in recording order,
/// then the event unless it is removed.
pub open spec fn e_before(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, q: int) -> Seq<Ev>
  decreases q
{
  if q <= 0 { Seq::empty() } else { e_before(ins, del, evs, q - 1) + s_ins_at(ins, q - 1) + e_kept(del, evs, q - 1) }
}
pub open spec fn e_kept(del: Seq<int>, evs: Seq<Ev>, p: int) -> Seq<Ev> { if s_has_int(del, p) { Seq::empty() } else { seq![evs[p]] } }
/// The result is the concatenation over the positions, then everything inserted at or beyond the end.
pub proof fn t_apply_split(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, q: int)
  requires 0 <= q <= evs.len()
  ensures
    s_apply(ins, del, evs) == e_before(ins, del, evs, q) + s_apply_from(ins, del, evs, q),
    q == evs.len() ==> s_apply_from(ins, del, evs, q) == s_ins_tail(ins.len() as int, ins, q)
  decreases q
{
  if q > 0 {
    t_apply_split(ins, del, evs, q - 1);
    let b = e_before(ins, del, evs, q - 1);
    let i = s_ins_at(ins, q - 1);
    let k = e_kept(del, evs, q - 1);
    let r = s_apply_from(ins, del, evs, q);
    assert(s_apply_from(ins, del, evs, q - 1) == (i + k) + r);
    assert(b + ((i + k) + r) =~= (b + i + k) + r);
  } else { assert(Seq::<Ev>::empty() + s_apply_from(ins, del, evs, 0) =~= s_apply_from(ins, del, evs, 0)); }
}
proof fn l_ins_push(ins: Seq<(int, Ev)>, x: (int, Ev), q: int)
  ensures s_ins_at(ins.push(x), q) == (if x.0 == q { s_ins_at(ins, q).push(x.1) } else { s_ins_at(ins, q) })
  decreases ins.len()
{
  let p = ins.push(x);
  if ins.len() == 0 {
    assert(p.skip(1) =~= ins);
    assert(s_ins_at(ins, q) =~= Seq::<Ev>::empty());
    assert(s_ins_at(p.skip(1), q) =~= Seq::<Ev>::empty());
    assert(p[0] == x);
    assert(s_ins_at(p, q) =~= (if x.0 == q { s_ins_at(ins, q).push(x.1) } else { s_ins_at(ins, q) }));
  } else {
    assert(p[0] == ins[0]);
    assert(p.skip(1) =~= ins.skip(1).push(x));
    l_ins_push(ins.skip(1), x, q);
    assert(s_ins_at(p, q) =~= (if x.0 == q { s_ins_at(ins, q).push(x.1) } else { s_ins_at(ins, q) }));
  }
}
proof fn l_has_push(del: Seq<int>, x: int, q: int)
  ensures s_has_int(del.push(x), q) == (x == q || s_has_int(del, q))
  decreases del.len()
{
  let p = del.push(x);
  if del.len() == 0 { assert(p.skip(1) =~= del); assert(p[0] == x); assert(!s_has_int(p.skip(1), q)); }
  else { assert(p[0] == del[0]); assert(p.skip(1) =~= del.skip(1).push(x)); l_has_push(del.skip(1), x, q); }
}
proof fn l_before_same(a: Seq<(int, Ev)>, b: Seq<(int, Ev)>, da: Seq<int>, db: Seq<int>, evs: Seq<Ev>, q: int)
  requires
    forall|k: int| 0 <= k < q ==> #[trigger] s_ins_at(a, k) == s_ins_at(b, k),
    forall|k: int| 0 <= k < q ==> #[trigger] s_has_int(da, k) == s_has_int(db, k)
  ensures e_before(a, da, evs, q) == e_before(b, db, evs, q)
  decreases q
{
  if q > 0 {
    l_before_same(a, b, da, db, evs, q - 1);
    assert(s_ins_at(a, q - 1) == s_ins_at(b, q - 1));
    assert(s_has_int(da, q - 1) == s_has_int(db, q - 1));
  }
}
/// Recording an insertion at a position of the fragment adds that event right before the event
/// of that position, after the ones recorded there before, and changes nothing else.
pub proof fn t_apply_insert(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, q: int, e: Ev)
  requires 0 <= q < evs.len()
  ensures
    s_apply(ins, del, evs) == (e_before(ins, del, evs, q) + s_ins_at(ins, q)) + (e_kept(del, evs, q) + s_apply_from(ins, del, evs, q + 1)),
    s_apply(ins.push((q, e)), del, evs) == (e_before(ins, del, evs, q) + s_ins_at(ins, q)) + seq![e] + (e_kept(del, evs, q) + s_apply_from(ins, del, evs, q + 1))
{
  let ins2 = ins.push((q, e));
  t_apply_split(ins, del, evs, q);
  t_apply_split(ins2, del, evs, q);
  assert forall|k: int| #[trigger] s_ins_at(ins2, k) == (if q == k { s_ins_at(ins, k).push(e) } else { s_ins_at(ins, k) }) by { l_ins_push(ins, (q, e), k); }
  l_before_same(ins2, ins, del, del, evs, q);
  l_apply_same(ins2, ins, del, del, evs, q + 1);
  let b = e_before(ins, del, evs, q);
  let i = s_ins_at(ins, q);
  let k = e_kept(del, evs, q);
  let r = s_apply_from(ins, del, evs, q + 1);
  assert(s_apply_from(ins, del, evs, q) == (i + k) + r);
  assert(s_apply_from(ins2, del, evs, q) == (i.push(e) + k) + r);
  assert(b + ((i + k) + r) =~= (b + i) + (k + r));
  assert(b + ((i.push(e) + k) + r) =~= (b + i) + seq![e] + (k + r));
}
/// Recording a removal takes out exactly the event of that position; one recorded before,
/// or of no event, changes nothing.
pub proof fn t_apply_remove(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, x: int)
  ensures
    s_has_int(del, x) || x < 0 || x >= evs.len() ==> s_apply(ins, del.push(x), evs) == s_apply(ins, del, evs),
    0 <= x < evs.len() && !s_has_int(del, x) ==> ({
      let a = e_before(ins, del, evs, x) + s_ins_at(ins, x);
      let b = s_apply_from(ins, del, evs, x + 1);
      &&& s_apply(ins, del, evs) == a + seq![evs[x]] + b
      &&& s_apply(ins, del.push(x), evs) == a + b
    })
{
  let del2 = del.push(x);
  assert forall|k: int| #[trigger] s_has_int(del2, k) == (x == k || s_has_int(del, k)) by { l_has_push(del, x, k); }
  if s_has_int(del, x) || x < 0 {
    l_apply_same(ins, ins, del2, del, evs, 0);
  } else if x >= evs.len() {
    t_apply_split(ins, del, evs, evs.len() as int);
    t_apply_split(ins, del2, evs, evs.len() as int);
    l_before_same(ins, ins, del2, del, evs, evs.len() as int);
  } else {
    t_apply_split(ins, del, evs, x);
    t_apply_split(ins, del2, evs, x);
    l_before_same(ins, ins, del2, del, evs, x);
    l_apply_same(ins, ins, del2, del, evs, x + 1);
    let b = e_before(ins, del, evs, x);
    let i = s_ins_at(ins, x);
    let r = s_apply_from(ins, del, evs, x + 1);
    assert(s_apply_from(ins, del, evs, x) == (i + seq![evs[x]]) + r);
    assert(s_apply_from(ins, del2, evs, x) == (i + Seq::<Ev>::empty()) + r);
    assert(b + ((i + seq![evs[x]]) + r) =~= (b + i) + seq![evs[x]] + r);
    assert(b + ((i + Seq::<Ev>::empty()) + r) =~= (b + i) + r);
  }
}
/// An insertion at or beyond the end, and not before one recorded earlier, comes last.
pub proof fn t_apply_append(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, q: int, e: Ev)
  requires q >= evs.len(), forall|k: int| 0 <= k < ins.len() ==> (#[trigger] ins[k]).0 <= q
  ensures s_apply(ins.push((q, e)), del, evs) == s_apply(ins, del, evs).push(e)
{
  let n = evs.len() as int;
  let ins2 = ins.push((q, e));
  t_apply_split(ins, del, evs, n);
  t_apply_split(ins2, del, evs, n);
  assert forall|k: int| #[trigger] s_ins_at(ins2, k) == (if q == k { s_ins_at(ins, k).push(e) } else { s_ins_at(ins, k) }) by { l_ins_push(ins, (q, e), k); }
  l_before_same(ins2, ins, del, del, evs, n);
  l_cnt_bound(ins, n); l_cnt_bound(ins2, n);
  l_tail_push(ins2.len() as int, ins.len() as int, ins, n, q, e);
  assert(e_before(ins, del, evs, n) + s_ins_tail(ins.len() as int, ins, n).push(e) =~= (e_before(ins, del, evs, n) + s_ins_tail(ins.len() as int, ins, n)).push(e));
}
proof fn l_tail_push(f: int, g: int, ins: Seq<(int, Ev)>, p: int, q: int, e: Ev)
  requires p <= q, forall|k: int| 0 <= k < ins.len() ==> (#[trigger] ins[k]).0 <= q, f >= cnt(ins.push((q, e)), p), g >= cnt(ins, p)
  ensures s_ins_tail(f, ins.push((q, e)), p) == s_ins_tail(g, ins, p).push(e)
  decreases q - p
{
  let ins2 = ins.push((q, e));
  assert forall|k: int| #[trigger] s_ins_at(ins2, k) == (if q == k { s_ins_at(ins, k).push(e) } else { s_ins_at(ins, k) }) by { l_ins_push(ins, (q, e), k); }
  assert forall|k: int| k > q implies #[trigger] s_ins_at(ins, k) == Seq::<Ev>::empty() by { l_ins_absent(ins, k); }
  l_next_pos(ins, p); l_next_pos(ins2, p);
  l_cnt_bound(ins, p); l_cnt_bound(ins2, p);
  assert(s_ins_at(ins2, q).len() > 0);
  let m = s_next_pos(ins2, p).unwrap();
  assert(s_next_pos(ins2, p) is Some && p <= m <= q);
  assert(s_ins_at(ins2, m).len() > 0);
  l_cnt_bound(ins2, m + 1);
  l_cnt_bound(ins, m + 1);
  assert(f > 0);
  if m == q {
    assert(s_ins_tail(f - 1, ins2, q + 1) == Seq::<Ev>::empty()) by { assert forall|k: int| 0 <= k < ins2.len() implies (#[trigger] ins2[k]).0 < q + 1 by { if k < ins.len() { assert(ins2[k] == ins[k]); } } l_tail_absent(ins2, f - 1, q + 1); }
    assert(s_ins_tail(g - 1, ins, q + 1) == Seq::<Ev>::empty()) by { l_tail_absent(ins, g - 1, q + 1); }
    assert(s_ins_tail(f, ins2, p) =~= s_ins_at(ins2, q));
    match s_next_pos(ins, p) {
      None => { assert(s_ins_at(ins, q).len() == 0); assert(s_ins_tail(g, ins, p) =~= Seq::<Ev>::empty()); assert(s_ins_at(ins, q) =~= Seq::<Ev>::empty()); }
      Some(k) => {
        assert(s_ins_at(ins, k).len() > 0);
        if k < q { assert(s_ins_at(ins2, k) == s_ins_at(ins, k)); }
        assert(k == q);
        assert(g > 0);
        assert(s_ins_tail(g, ins, p) =~= s_ins_at(ins, q));
      }
    }
  } else {
    assert(s_ins_at(ins2, m) == s_ins_at(ins, m));
    match s_next_pos(ins, p) {
      None => { assert(s_ins_at(ins, m).len() == 0); }
      Some(k) => {
        assert(s_ins_at(ins, k).len() > 0);
        if k < m { assert(s_ins_at(ins2, k) == s_ins_at(ins, k)); }
        assert(k == m);
      }
    }
    l_cnt_bound(ins, m + 1); l_cnt_bound(ins2, m + 1);
    l_tail_push(f - 1, g - 1, ins, m + 1, q, e);
    assert(s_ins_at(ins, m) + s_ins_tail(g - 1, ins, m + 1).push(e) =~= (s_ins_at(ins, m) + s_ins_tail(g - 1, ins, m + 1)).push(e));
  }
}
