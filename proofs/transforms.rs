// ------------------------------------------------------------ transforms

pub open spec fn srt(ins: Seq<(int, Ev)>, k: int) -> bool
  decreases ins.len()
{ ins.len() == 0 || (ins[0].0 >= k && srt(ins.skip(1), ins[0].0)) }
pub open spec fn incr(del: Seq<int>, k: int) -> bool
  decreases del.len()
{ del.len() == 0 || (del[0] >= k && incr(del.skip(1), del[0] + 1)) }
pub open spec fn ndec(del: Seq<int>, k: int) -> bool
  decreases del.len()
{ del.len() == 0 || (del[0] >= k && ndec(del.skip(1), del[0])) }
/// Entries at `p` or later.
pub open spec fn cnt(ins: Seq<(int, Ev)>, p: int) -> int
  decreases ins.len()
{ if ins.len() == 0 { 0 } else { (if ins[0].0 >= p { 1int } else { 0int }) + cnt(ins.skip(1), p) } }
pub open spec fn same_ins(a: Seq<(int, Ev)>, b: Seq<(int, Ev)>, k: int) -> bool { forall|p: int| p >= k ==> #[trigger] s_ins_at(a, p) == s_ins_at(b, p) }
pub open spec fn same_del(a: Seq<int>, b: Seq<int>, k: int) -> bool { forall|p: int| p >= k ==> #[trigger] s_has_int(a, p) == s_has_int(b, p) }

proof fn l_srt_weaken(ins: Seq<(int, Ev)>, k: int, j: int)
  requires srt(ins, k), j <= k
  ensures srt(ins, j)
{}
proof fn l_ins_none(ins: Seq<(int, Ev)>, k: int, p: int)
  requires srt(ins, k), p < k
  ensures s_ins_at(ins, p) == Seq::<Ev>::empty()
  decreases ins.len()
{ if ins.len() > 0 { l_ins_none(ins.skip(1), ins[0].0, p); } }
proof fn l_has_none(del: Seq<int>, k: int, p: int)
  requires incr(del, k), p < k
  ensures !s_has_int(del, p)
  decreases del.len()
{ if del.len() > 0 { l_has_none(del.skip(1), del[0] + 1, p); } }
proof fn l_cnt_bound(ins: Seq<(int, Ev)>, p: int)
  ensures 0 <= cnt(ins, p) <= ins.len()
  decreases ins.len()
{ if ins.len() > 0 { l_cnt_bound(ins.skip(1), p); } }
/// What `s_next_pos` finds.
proof fn l_next_pos(ins: Seq<(int, Ev)>, p: int)
  ensures match s_next_pos(ins, p) {
    None => (forall|q: int| q >= p ==> (#[trigger] s_ins_at(ins, q)).len() == 0) && cnt(ins, p) == 0,
    Some(m) => m >= p && s_ins_at(ins, m).len() > 0 && (forall|q: int| p <= q < m ==> (#[trigger] s_ins_at(ins, q)).len() == 0) && cnt(ins, m + 1) < cnt(ins, p),
  }
  decreases ins.len()
{
  if ins.len() > 0 {
    let r = ins.skip(1);
    l_next_pos(r, p);
    l_cnt_mono(r, p);
    let h = ins[0].0;
    assert forall|q: int| ((#[trigger] s_ins_at(ins, q)).len() == 0) == (h != q && s_ins_at(r, q).len() == 0) by {}
    match s_next_pos(r, p) {
      None => {
        if h >= p {
          assert(s_ins_at(ins, h).len() > 0);
          assert(cnt(r, h + 1) <= cnt(r, p));
          l_cnt_bound(r, h + 1);
          assert forall|q: int| p <= q < h implies (#[trigger] s_ins_at(ins, q)).len() == 0 by { assert(s_ins_at(r, q).len() == 0); }
        } else {
          assert forall|q: int| q >= p implies (#[trigger] s_ins_at(ins, q)).len() == 0 by { assert(s_ins_at(r, q).len() == 0); }
        }
      }
      Some(m) => {
        if h >= p && h < m {
          assert(s_ins_at(ins, h).len() > 0);
          assert(cnt(r, h + 1) <= cnt(r, p));
          assert forall|q: int| p <= q < h implies (#[trigger] s_ins_at(ins, q)).len() == 0 by { assert(s_ins_at(r, q).len() == 0); }
        } else {
          assert(s_ins_at(ins, m).len() > 0);
          assert forall|q: int| p <= q < m implies (#[trigger] s_ins_at(ins, q)).len() == 0 by { assert(s_ins_at(r, q).len() == 0); }
        }
      }
    }
  }
}
proof fn l_cnt_mono(ins: Seq<(int, Ev)>, p: int)
  ensures forall|q: int| q >= p ==> #[trigger] cnt(ins, q) <= cnt(ins, p)
  decreases ins.len()
{ if ins.len() > 0 { l_cnt_mono(ins.skip(1), p); assert forall|q: int| q >= p implies #[trigger] cnt(ins, q) <= cnt(ins, p) by { assert(cnt(ins.skip(1), q) <= cnt(ins.skip(1), p)); } } }
/// The tail depends only on what is inserted where.
proof fn l_tail_same(f: int, a: Seq<(int, Ev)>, g: int, b: Seq<(int, Ev)>, p: int)
  requires same_ins(a, b, p), f >= cnt(a, p), g >= cnt(b, p)
  ensures s_ins_tail(f, a, p) == s_ins_tail(g, b, p)
  decreases f + g
{
  l_next_pos(a, p); l_next_pos(b, p);
  l_cnt_bound(a, p); l_cnt_bound(b, p);
  match s_next_pos(a, p) {
    None => { if let Some(m) = s_next_pos(b, p) { assert(s_ins_at(a, m) == s_ins_at(b, m)); } }
    Some(m) => {
      assert(s_ins_at(a, m) == s_ins_at(b, m));
      match s_next_pos(b, p) {
        None => {}
        Some(n) => {
          assert(s_ins_at(a, n) == s_ins_at(b, n));
          assert(m == n);
          l_cnt_bound(a, m + 1); l_cnt_bound(b, m + 1);
          l_tail_same(f - 1, a, g - 1, b, m + 1);
        }
      }
    }
  }
}
proof fn l_apply_same(a: Seq<(int, Ev)>, b: Seq<(int, Ev)>, da: Seq<int>, db: Seq<int>, evs: Seq<Ev>, p: int)
  requires same_ins(a, b, p), same_del(da, db, p), 0 <= p <= evs.len()
  ensures s_apply_from(a, da, evs, p) == s_apply_from(b, db, evs, p)
  decreases evs.len() - p
{
  if p < evs.len() {
    assert(s_ins_at(a, p) == s_ins_at(b, p));
    assert(s_has_int(da, p) == s_has_int(db, p));
    l_apply_same(a, b, da, db, evs, p + 1);
  } else {
    l_cnt_bound(a, p); l_cnt_bound(b, p);
    l_tail_same(a.len() as int, a, b.len() as int, b, p);
  }
}
proof fn l_run(ins: Seq<(int, Ev)>, i: int, res: Seq<Ev>)
  requires srt(ins, i)
  ensures ({
    let s = m_run(ins, i, res);
    &&& s.1 == res + s_ins_at(ins, i)
    &&& srt(s.0, i + 1)
    &&& same_ins(s.0, ins, i + 1)
    &&& s.0.len() <= ins.len()
    &&& (ins.len() > 0 && ins[0].0 == i ==> s.0.len() < ins.len())
    &&& ev_of(ins) == s_ins_at(ins, i) + ev_of(s.0)
  })
  decreases ins.len()
{
  if ins.len() > 0 && ins[0].0 == i {
    l_run(ins.skip(1), i, res.push(ins[0].1));
    let s = m_run(ins, i, res);
    assert(s_ins_at(ins, i) == seq![ins[0].1] + s_ins_at(ins.skip(1), i));
    assert(s.1 =~= res + s_ins_at(ins, i));
    assert forall|p: int| p >= i + 1 implies #[trigger] s_ins_at(s.0, p) == s_ins_at(ins, p) by { assert(s_ins_at(s.0, p) == s_ins_at(ins.skip(1), p)); }
    assert(ev_of(ins) =~= s_ins_at(ins, i) + ev_of(s.0));
  } else {
    if ins.len() > 0 { l_ins_none(ins, ins[0].0, i); }
    assert(s_ins_at(ins, i) =~= Seq::<Ev>::empty());
    assert(res + s_ins_at(ins, i) =~= res);
    assert(ev_of(ins) =~= s_ins_at(ins, i) + ev_of(ins));
  }
}
pub open spec fn ev_of(ins: Seq<(int, Ev)>) -> Seq<Ev>
  decreases ins.len()
{ if ins.len() == 0 { Seq::empty() } else { seq![ins[0].1] + ev_of(ins.skip(1)) } }
/// The rest of sorted insertions, in order, is everything inserted from there on.
proof fn l_tail_sorted(ins: Seq<(int, Ev)>, p: int)
  requires srt(ins, p)
  ensures ev_of(ins) == s_ins_tail(ins.len() as int, ins, p)
  decreases ins.len()
{
  l_next_pos(ins, p);
  if ins.len() > 0 {
    let m = ins[0].0;
    assert(s_ins_at(ins, m).len() > 0);
    match s_next_pos(ins, p) {
      None => {}
      Some(n) => {
        if n < m { l_ins_none(ins, m, n); }
        assert(n == m);
        let s = m_run(ins, m, Seq::empty());
        l_run(ins, m, Seq::empty());
        l_tail_sorted(s.0, m + 1);
        l_cnt_bound(ins, m + 1); l_cnt_bound(ins, p); l_cnt_bound(s.0, m + 1);
        l_tail_same(ins.len() - 1, ins, s.0.len() as int, s.0, m + 1);
      }
    }
  }
}
proof fn l_merge(ins: Seq<(int, Ev)>, del: Seq<int>, res: Seq<Ev>, it: Seq<Ev>, ix: int)
  requires srt(ins, ix), incr(del, ix), 0 <= ix <= it.len()
  ensures ({ let s = m_apply(ins, del, res, it, ix); s.2 + ev_of(s.0) == res + s_apply_from(ins, del, it, ix) })
  decreases it.len() - ix
{
  if ix < it.len() {
    let s = m_run(ins, ix, res);
    l_run(ins, ix, res);
    let hit = del.len() > 0 && del[0] == ix;
    let d2 = if hit { del.skip(1) } else { del };
    let r2 = if hit { s.1 } else { s.1.push(it[ix]) };
    if hit {} else if del.len() > 0 { l_has_none(del, del[0], ix); }
    assert(s_has_int(del, ix) == hit);
    assert forall|p: int| p >= ix + 1 implies #[trigger] s_has_int(d2, p) == s_has_int(del, p) by {}
    l_merge(s.0, d2, r2, it, ix + 1);
    l_apply_same(s.0, ins, d2, del, it, ix + 1);
    let rest = s_apply_from(ins, del, it, ix + 1);
    assert(r2 + rest =~= res + s_apply_from(ins, del, it, ix));
  } else {
    l_tail_sorted(ins, ix);
  }
}
// sorting
proof fn l_sort_ins(f: spec_fn((int, Ev)) -> int, x: (int, Ev), s: Seq<(int, Ev)>, k: int)
  requires forall|y: (int, Ev)| #[trigger] f(y) == y.0, srt(s, k), x.0 >= k
  ensures srt(n_sort_ins_by(f, x, s), k),
    forall|p: int| #[trigger] s_ins_at(n_sort_ins_by(f, x, s), p) == s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() })
  decreases s.len()
{
  let r = n_sort_ins_by(f, x, s);
  if s.len() == 0 {
    assert(f(x) == x.0);
    assert(r.skip(1) =~= Seq::<(int, Ev)>::empty());
    assert(r[0] == x);
    assert(srt(r.skip(1), r[0].0));
    assert forall|p: int| #[trigger] s_ins_at(r, p) == s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }) by {
      assert(s_ins_at(r.skip(1), p) =~= Seq::<Ev>::empty());
      assert(s_ins_at(r, p) =~= s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }));
    }
  } else {
    assert(f(x) == x.0 && f(s[0]) == s[0].0);
    if x.0 < s[0].0 {
      assert(r.skip(1) =~= s);
      assert(srt(s, x.0));
      assert forall|p: int| #[trigger] s_ins_at(r, p) == s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }) by {
        if p == x.0 { l_ins_none(s, s[0].0, p); }
        assert(s_ins_at(r, p) =~= s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }));
      }
    } else {
      let t = n_sort_ins_by(f, x, s.skip(1));
      l_sort_ins(f, x, s.skip(1), s[0].0);
      assert(r.skip(1) =~= t);
      assert forall|p: int| #[trigger] s_ins_at(r, p) == s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }) by {
        assert(s_ins_at(t, p) == s_ins_at(s.skip(1), p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }));
        assert(s_ins_at(r, p) =~= s_ins_at(s, p) + (if x.0 == p { seq![x.1] } else { Seq::<Ev>::empty() }));
      }
    }
  }
}
proof fn l_ins_at_last(s: Seq<(int, Ev)>, p: int)
  requires s.len() > 0
  ensures s_ins_at(s, p) == s_ins_at(s.drop_last(), p) + (if s.last().0 == p { seq![s.last().1] } else { Seq::<Ev>::empty() })
  decreases s.len()
{
  if s.len() == 1 {
    assert(s.skip(1) =~= Seq::<(int, Ev)>::empty());
    assert(s.drop_last() =~= Seq::<(int, Ev)>::empty());
    assert(s_ins_at(s.skip(1), p) =~= Seq::<Ev>::empty());
    assert(s_ins_at(s.drop_last(), p) =~= Seq::<Ev>::empty());
    assert(s_ins_at(s, p) =~= s_ins_at(s.drop_last(), p) + (if s.last().0 == p { seq![s.last().1] } else { Seq::<Ev>::empty() }));
  } else {
    l_ins_at_last(s.skip(1), p);
    assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    assert(s_ins_at(s, p) =~= s_ins_at(s.drop_last(), p) + (if s.last().0 == p { seq![s.last().1] } else { Seq::<Ev>::empty() }));
  }
}
proof fn l_pos_ok_last(s: Seq<(int, Ev)>)
  requires s.len() > 0, s_pos_ok(s)
  ensures s_pos_ok(s.drop_last()), s.last().0 >= 0
  decreases s.len()
{
  if s.len() > 1 { l_pos_ok_last(s.skip(1)); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); }
}
proof fn l_sort_by(f: spec_fn((int, Ev)) -> int, s: Seq<(int, Ev)>)
  requires forall|y: (int, Ev)| #[trigger] f(y) == y.0, s_pos_ok(s)
  ensures srt(n_sort_by(f, s), 0), forall|p: int| #[trigger] s_ins_at(n_sort_by(f, s), p) == s_ins_at(s, p)
  decreases s.len()
{
  if s.len() > 0 {
    l_pos_ok_last(s);
    l_sort_by(f, s.drop_last());
    let t = n_sort_by(f, s.drop_last());
    l_sort_ins(f, s.last(), t, 0);
    assert forall|p: int| #[trigger] s_ins_at(n_sort_by(f, s), p) == s_ins_at(s, p) by {
      l_ins_at_last(s, p);
      assert(s_ins_at(t, p) == s_ins_at(s.drop_last(), p));
    }
  }
}
proof fn l_isort_ins(x: int, s: Seq<int>, k: int)
  requires ndec(s, k), x >= k
  ensures ndec(n_sort_ins(x, s), k), forall|p: int| #[trigger] s_has_int(n_sort_ins(x, s), p) == (x == p || s_has_int(s, p))
  decreases s.len()
{
  let r = n_sort_ins(x, s);
  if s.len() == 0 {
    assert(r.skip(1) =~= Seq::<int>::empty());
    assert(r[0] == x && ndec(r.skip(1), r[0]));
    assert forall|p: int| #[trigger] s_has_int(r, p) == (x == p || s_has_int(s, p)) by { assert(!s_has_int(r.skip(1), p)); }
  } else if x < s[0] {
    assert(r.skip(1) =~= s);
    assert(r[0] == x && ndec(s, x));
  } else {
    let t = n_sort_ins(x, s.skip(1));
    l_isort_ins(x, s.skip(1), s[0]);
    assert(r.skip(1) =~= t);
    assert forall|p: int| #[trigger] s_has_int(r, p) == (x == p || s_has_int(s, p)) by { assert(s_has_int(t, p) == (x == p || s_has_int(s.skip(1), p))); }
  }
}
proof fn l_has_last(s: Seq<int>, p: int)
  requires s.len() > 0
  ensures s_has_int(s, p) == (s.last() == p || s_has_int(s.drop_last(), p))
  decreases s.len()
{
  if s.len() == 1 { assert(!s_has_int(s.skip(1), p)); assert(!s_has_int(s.drop_last(), p)); }
  else { l_has_last(s.skip(1), p); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); }
}
proof fn l_ints_ok_last(s: Seq<int>)
  requires s.len() > 0, s_ints_ok(s)
  ensures s_ints_ok(s.drop_last()), s.last() >= 0
  decreases s.len()
{
  if s.len() > 1 { l_ints_ok_last(s.skip(1)); assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); }
}
proof fn l_isort(s: Seq<int>)
  requires s_ints_ok(s)
  ensures ndec(n_sort(s), 0), forall|p: int| #[trigger] s_has_int(n_sort(s), p) == s_has_int(s, p)
  decreases s.len()
{
  if s.len() > 0 {
    l_ints_ok_last(s);
    l_isort(s.drop_last());
    let t = n_sort(s.drop_last());
    l_isort_ins(s.last(), t, 0);
    assert forall|p: int| #[trigger] s_has_int(n_sort(s), p) == s_has_int(s, p) by { l_has_last(s, p); assert(s_has_int(t, p) == s_has_int(s.drop_last(), p)); }
  }
}
proof fn l_dedup(s: Seq<int>, k: int)
  requires ndec(s, k)
  ensures incr(n_dedup(s), k), forall|p: int| #[trigger] s_has_int(n_dedup(s), p) == s_has_int(s, p),
    s.len() > 0 ==> n_dedup(s).len() > 0 && n_dedup(s)[0] == s[0]
  decreases s.len()
{
  let r = n_dedup(s);
  if s.len() <= 1 {
    if s.len() == 1 { assert(s.skip(1) =~= Seq::<int>::empty()); assert(incr(s.skip(1), s[0] + 1)); }
  } else if s[0] == s[1] {
    l_dedup(s.skip(1), s[0]);
    assert forall|p: int| #[trigger] s_has_int(r, p) == s_has_int(s, p) by { assert(s_has_int(n_dedup(s.skip(1)), p) == s_has_int(s.skip(1), p)); assert(s_has_int(s.skip(1), p) == (s[1] == p || s_has_int(s.skip(1).skip(1), p))); }
  } else {
    let t = n_dedup(s.skip(1));
    l_dedup(s.skip(1), s[0]);
    assert(r.skip(1) =~= t);
    assert(t[0] == s[1] && s[1] > s[0]);
    assert(incr(t, s[0] + 1));
    assert forall|p: int| #[trigger] s_has_int(r, p) == s_has_int(s, p) by { assert(s_has_int(t, p) == s_has_int(s.skip(1), p)); }
  }
}
proof fn l_map_ev(f: spec_fn((int, Ev)) -> Ev, s: Seq<(int, Ev)>)
  requires forall|y: (int, Ev)| #[trigger] f(y) == y.1
  ensures s_map(f, s) == ev_of(s)
  decreases s.len()
{ if s.len() > 0 { l_map_ev(f, s.skip(1)); assert(f(s[0]) == s[0].1); } }
proof fn l_apply_none(evs: Seq<Ev>, p: int)
  requires 0 <= p <= evs.len()
  ensures s_apply_from(Seq::empty(), Seq::empty(), evs, p) == evs.skip(p)
  decreases evs.len() - p
{
  if p < evs.len() {
    l_apply_none(evs, p + 1);
    assert(s_ins_at(Seq::<(int, Ev)>::empty(), p) =~= Seq::<Ev>::empty());
    assert(!s_has_int(Seq::<int>::empty(), p));
    assert((Seq::<Ev>::empty() + seq![evs[p]]) + evs.skip(p + 1) =~= evs.skip(p));
  } else { assert(evs.skip(p) =~= Seq::<Ev>::empty()); }
}
proof fn l_apply(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>)
  requires s_pos_ok(ins), s_ints_ok(del)
  ensures
    ins.len() == 0 && del.len() == 0 ==> s_apply(ins, del, evs) == evs,
    forall|f: spec_fn((int, Ev)) -> int, g: spec_fn((int, Ev)) -> Ev, e: Seq<Ev>|
      #![trigger n_sort_by(f, ins), s_map(g, m_apply(n_sort_by(f, ins), n_dedup(n_sort(del)), e, evs, 0).0)]
      (forall|y: (int, Ev)| #[trigger] f(y) == y.0) && (forall|y: (int, Ev)| #[trigger] g(y) == y.1) && e.len() == 0 ==> ({
      let s = m_apply(n_sort_by(f, ins), n_dedup(n_sort(del)), e, evs, 0);
      s.2 + s_map(g, s.0) == s_apply(ins, del, evs)
    })
{
  if ins.len() == 0 && del.len() == 0 {
    l_apply_none(evs, 0);
    assert(ins =~= Seq::<(int, Ev)>::empty()); assert(del =~= Seq::<int>::empty());
    assert(evs.skip(0) =~= evs);
  }
  assert forall|f: spec_fn((int, Ev)) -> int, g: spec_fn((int, Ev)) -> Ev, e: Seq<Ev>|
      #![trigger n_sort_by(f, ins), s_map(g, m_apply(n_sort_by(f, ins), n_dedup(n_sort(del)), e, evs, 0).0)]
      (forall|y: (int, Ev)| #[trigger] f(y) == y.0) && (forall|y: (int, Ev)| #[trigger] g(y) == y.1) && e.len() == 0 implies ({
      let s = m_apply(n_sort_by(f, ins), n_dedup(n_sort(del)), e, evs, 0);
      s.2 + s_map(g, s.0) == s_apply(ins, del, evs)
    }) by {
    let si = n_sort_by(f, ins);
    let sd = n_dedup(n_sort(del));
    let s = m_apply(si, sd, e, evs, 0);
    l_sort_by(f, ins); l_isort(del); l_dedup(n_sort(del), 0);
    l_merge(si, sd, e, evs, 0);
    l_map_ev(g, s.0);
    assert forall|p: int| p >= 0 implies #[trigger] s_has_int(sd, p) == s_has_int(del, p) by { assert(s_has_int(n_sort(del), p) == s_has_int(del, p)); }
    l_apply_same(si, ins, sd, del, evs, 0);
    assert(e + s_apply(ins, del, evs) =~= s_apply(ins, del, evs));
  }
}

// ----------------------------------------------------- normalize_end_tags

/// Every recorded position is above `lo` and within the fragment.
pub open spec fn above(ins: Seq<(int, Ev)>, lo: int, hi: int) -> bool { forall|q: int| 0 <= q < ins.len() ==> lo < (#[trigger] ins[q]).0 <= hi }
proof fn l_ins_absent(ins: Seq<(int, Ev)>, p: int)
  requires forall|q: int| 0 <= q < ins.len() ==> (#[trigger] ins[q]).0 != p
  ensures s_ins_at(ins, p) == Seq::<Ev>::empty()
  decreases ins.len()
{
  if ins.len() > 0 {
    let r = ins.skip(1);
    assert forall|q: int| 0 <= q < r.len() implies (#[trigger] r[q]).0 != p by { assert(r[q] == ins[q + 1]); }
    assert(ins[0].0 != p);
    l_ins_absent(r, p);
  }
}
proof fn l_tail_absent(ins: Seq<(int, Ev)>, f: int, p: int)
  requires forall|q: int| 0 <= q < ins.len() ==> (#[trigger] ins[q]).0 < p
  ensures s_ins_tail(f, ins, p) == Seq::<Ev>::empty()
{
  l_next_pos(ins, p);
  if let Some(m) = s_next_pos(ins, p) { l_ins_absent(ins, m); }
}
proof fn l_pos_ok_above(ins: Seq<(int, Ev)>, hi: int)
  requires above(ins, 0, hi)
  ensures s_pos_ok(ins)
  decreases ins.len()
{
  if ins.len() > 0 {
    let r = ins.skip(1);
    assert forall|q: int| 0 <= q < r.len() implies 0 < (#[trigger] r[q]).0 <= hi by { assert(r[q] == ins[q + 1]); }
    assert(ins[0].0 > 0);
    l_pos_ok_above(r, hi);
  }
}
/// The output for the events from `p` on.
pub open spec fn ap(ins: Seq<(int, Ev)>, it: Seq<Ev>, p: int) -> Seq<Ev> { s_apply_from(ins, Seq::empty(), it, p) }
proof fn l_ap_unfold(ins: Seq<(int, Ev)>, it: Seq<Ev>, p: int)
  requires 0 <= p < it.len()
  ensures ap(ins, it, p) == (s_ins_at(ins, p) + seq![it[p]]) + ap(ins, it, p + 1), ap(ins, it, p).len() > ap(ins, it, p + 1).len()
{ assert(!s_has_int(Seq::<int>::empty(), p)); }
proof fn l_ap_mono(ins: Seq<(int, Ev)>, it: Seq<Ev>, p: int, q: int)
  requires 0 <= p <= q <= it.len()
  ensures ap(ins, it, p).len() >= ap(ins, it, q).len(), p < q ==> ap(ins, it, p).len() > ap(ins, it, q).len()
  decreases q - p
{ if p < q { l_ap_unfold(ins, it, p); l_ap_mono(ins, it, p + 1, q); } }
/// Events before `p` do not matter.
proof fn l_ap_it(ins: Seq<(int, Ev)>, a: Seq<Ev>, b: Seq<Ev>, p: int)
  requires a.len() == b.len(), 0 <= p <= a.len(), forall|q: int| p <= q < a.len() ==> #[trigger] a[q] == b[q]
  ensures ap(ins, a, p) == ap(ins, b, p)
  decreases a.len() - p
{ if p < a.len() { l_ap_unfold(ins, a, p); l_ap_unfold(ins, b, p); assert(a[p] == b[p]); l_ap_it(ins, a, b, p + 1); } }
/// One more insertion, before every other.
proof fn l_ap_insert(ins: Seq<(int, Ev)>, it: Seq<Ev>, k: int, e: Ev, p: int)
  requires 0 <= p <= k <= it.len(), above(ins, k, it.len() as int)
  ensures ap(ins.push((k, e)), it, p) == s_insert(ap(ins, it, p), ap(ins, it, k).len() as int, e)
  decreases k - p
{
  let n = ins.push((k, e));
  assert(n.drop_last() =~= ins);
  assert(n.last() == (k, e));
  let c = ap(ins, it, k).len() as int;
  if p == k {
    assert(s_insert(ap(ins, it, k), c, e) =~= seq![e] + ap(ins, it, k));
    l_ins_absent(ins, k);
    l_ins_at_last(n, k);
    assert(s_ins_at(n, k) =~= seq![e]);
    assert forall|q: int| q >= k + 1 implies #[trigger] s_ins_at(n, q) == s_ins_at(ins, q) by { l_ins_at_last(n, q); assert(s_ins_at(n, q) =~= s_ins_at(ins, q)); }
    if k < it.len() {
      l_apply_same(n, ins, Seq::empty(), Seq::empty(), it, k + 1);
      l_ap_unfold(n, it, k); l_ap_unfold(ins, it, k);
      assert(ap(n, it, k) =~= seq![e] + ap(ins, it, k));
    } else {
      assert(ins.len() == 0) by { if ins.len() > 0 { assert(ins[0].0 > k); } }
      l_tail_absent(ins, ins.len() as int, k);
      l_next_pos(n, k);
      assert(s_next_pos(n, k) == Some(k)) by {
        match s_next_pos(n, k) { None => { assert(s_ins_at(n, k).len() == 0); } Some(m) => { if m > k { assert(s_ins_at(n, k).len() == 0); } } }
      }
      l_tail_absent(n, n.len() - 1, k + 1);
      assert(ap(n, it, k) =~= seq![e] + ap(ins, it, k));
    }
  } else {
    l_ap_insert(ins, it, k, e, p + 1);
    l_ap_unfold(n, it, p); l_ap_unfold(ins, it, p);
    l_ins_at_last(n, p);
    assert(s_ins_at(n, p) =~= s_ins_at(ins, p));
    l_ap_mono(ins, it, p + 1, k);
    let a = s_ins_at(ins, p) + seq![it[p]];
    let b = ap(ins, it, p + 1);
    assert(s_insert(a + b, c, e) =~= a + s_insert(b, c, e));
  }
}
/// How the scan's state describes what it has produced for the events from `ix` on.
pub open spec fn net_rel(st: Net, it: Seq<Ev>, tr: TransformS, stack: Seq<Str>, next: int, xml: Option<int>, ix: int) -> bool {
  &&& 0 <= ix <= next <= it.len()
  &&& tr.deletions == Seq::<int>::empty()
  &&& above(tr.insertions, next, it.len() as int)
  &&& above(tr.insertions, ix, it.len() as int)
  &&& st.stack == stack
  &&& st.out == ap(tr.insertions, it, ix)
  &&& st.ins == ap(tr.insertions, it, next).len()
  &&& match xml { Some(k) => ix <= k <= it.len() && above(tr.insertions, k, it.len() as int) && st.xml == Some(ap(tr.insertions, it, k).len() as int), None => st.xml is None }
}
proof fn l_net_err(evs: Seq<Ev>, ix: int)
  requires 0 <= ix <= evs.len()
  ensures match s_net(evs.skip(ix)) { Err(e) => s_net(evs) == Err::<Net, NetErr>(e), Ok(_) => true }
  decreases ix
{
  if ix > 0 {
    let s = evs.skip(ix - 1);
    assert(s.skip(1) =~= evs.skip(ix));
    l_net_err(evs, ix - 1);
  } else { assert(evs.skip(0) =~= evs); }
}
/// The state after one event, given that it is related before.
proof fn l_net_step(st: Net, it: Seq<Ev>, tr: TransformS, stack: Seq<Str>, next: int, xml: Option<int>, ix: int)
  requires net_rel(st, it, tr, stack, next, xml, ix), ix > 0
  ensures ({
    let j = ix - 1;
    match it[j] {
      Ev::Open(name) => if name.len() == 0 { s_net_step(it[j], st) == Err::<Net, NetErr>(NetErr::Empty) } else {
        match xml {
          Some(k) => match s_net_step(it[j], st) { Ok(s2) => net_rel(s2, it, TransformS { insertions: tr.insertions.push((k, Ev::End(name))), ..tr }, stack, j, None, j), Err(_) => false },
          None => match s_net_step(it[j], st) { Ok(s2) =>
            if stack.len() > 0 && stack.last() == name { net_rel(s2, it, tr, stack.drop_last(), j, None, j) }
            else { net_rel(s2, it, TransformS { insertions: tr.insertions.push((next, Ev::End(name))), ..tr }, stack, j, None, j) }, Err(_) => false },
        }
      },
      Ev::End(name) => if name.len() == 0 { s_net_step(it[j], st) == Err::<Net, NetErr>(NetErr::Empty) } else { match s_net_step(it[j], st) { Ok(s2) => net_rel(s2, it, tr, stack.push(name), j, xml, j), Err(_) => false } },
      Ev::XmlClose => match s_net_step(it[j], st) { Ok(s2) => net_rel(s2, it.update(j, Ev::Close), tr, stack, next, Some(ix), j), Err(_) => false },
      Ev::Chars(t) => match s_net_step(it[j], st) { Ok(s2) => net_rel(s2, it, tr, stack, if next == ix && s_blank(t) { j } else { next }, xml, j), Err(_) => false },
      _ => match s_net_step(it[j], st) { Ok(s2) => net_rel(s2, it, tr, stack, next, xml, j), Err(_) => false },
    }
  })
{
  hide(s_blank); hide(s_apply_from);
  let j = ix - 1;
  let ins = tr.insertions;
  let e = it[j];
  l_ap_unfold(ins, it, j);
  l_ins_absent(ins, j);
  assert(ap(ins, it, j) =~= seq![e] + ap(ins, it, ix));
  l_ap_mono(ins, it, ix, next);
  if next > ix { l_ap_mono(ins, it, ix, next); }
  match e {
    Ev::Open(name) => if name.len() > 0 {
      let at = match xml { Some(k) => k, None => next };
      let end = Ev::End(name);
      let n = ins.push((at, end));
      l_ap_mono(ins, it, ix, at);
      l_ap_insert(ins, it, at, end, ix);
      assert(ap(n, it, ix).len() == ap(ins, it, ix).len() + 1);
      l_ap_unfold(n, it, j);
      assert forall|q: int| 0 <= q < n.len() implies j < (#[trigger] n[q]).0 <= it.len() by { if q < ins.len() { assert(n[q] == ins[q]); } }
      l_ins_absent(n, j);
      assert(ap(n, it, j) =~= seq![e] + ap(n, it, ix));
      assert forall|q: int| 0 <= q < ins.len() implies j < (#[trigger] ins[q]).0 <= it.len() by {}
    },
    Ev::XmlClose => {
      let u = it.update(j, Ev::Close);
      l_ap_it(ins, it, u, ix);
      l_ap_it(ins, it, u, next);
      l_ap_unfold(ins, u, j);
      assert(ap(ins, u, j) =~= seq![Ev::Close] + ap(ins, u, ix));
      if let Some(k) = xml { l_ap_it(ins, it, u, k); }
    }
    _ => {}
  }
}
proof fn l_net(evs: Seq<Ev>, st: Net, it: Seq<Ev>, tr: TransformS, stack: Seq<Str>, next: int, xml: Option<int>, ix: int)
  requires 0 <= ix <= evs.len(), it.len() == evs.len(), forall|q: int| 0 <= q < ix ==> #[trigger] it[q] == evs[q],
    s_net(evs.skip(ix)) == Ok::<Net, NetErr>(st), net_rel(st, it, tr, stack, next, xml, ix)
  ensures match m_net(tr, stack, next, xml, it, ix) {
    Ok((it2, tr2, stack2, next2, xml2)) => match s_net(evs) { Ok(s2) => net_rel(s2, it2, tr2, stack2, next2, xml2, 0), Err(_) => false },
    Err(Err(e)) => s_net(evs) == Err::<Net, NetErr>(e),
    Err(Ok(_)) => false,
  }
  decreases ix
{
  hide(net_rel); hide(s_net_step); hide(s_blank);
  if ix == 0 { assert(evs.skip(0) =~= evs); }
  else {
    let j = ix - 1;
    let e = it[j];
    assert(evs.skip(j).skip(1) =~= evs.skip(ix));
    assert(evs.skip(j)[0] == e);
    assert(s_net(evs.skip(j)) == s_net_step(e, st));
    l_net_step(st, it, tr, stack, next, xml, ix);
    l_net_err(evs, j);
    match s_net_step(e, st) {
      Err(x) => {}
      Ok(s2) => {
        match e {
          Ev::Open(name) => { if name.len() > 0 { match xml {
            Some(k) => { l_net(evs, s2, it, TransformS { insertions: tr.insertions.push((k, Ev::End(name))), ..tr }, stack, j, None, j); }
            None => { if stack.len() > 0 && stack.last() == name { l_net(evs, s2, it, tr, stack.drop_last(), j, None, j); } else { l_net(evs, s2, it, TransformS { insertions: tr.insertions.push((next, Ev::End(name))), ..tr }, stack, j, None, j); } }
          } } }
          Ev::End(name) => { if name.len() > 0 { l_net(evs, s2, it, tr, stack.push(name), j, xml, j); } }
          Ev::XmlClose => { l_net(evs, s2, it.update(j, Ev::Close), tr, stack, next, Some(ix), j); }
          Ev::Chars(t) => { l_net(evs, s2, it, tr, stack, if next == ix && s_blank(t) { j } else { next }, xml, j); }
          _ => { l_net(evs, s2, it, tr, stack, next, xml, j); }
        }
      }
    }
  }
}
proof fn l_net_all(evs: Seq<Ev>)
  ensures forall|tr: TransformS, stack: Seq<Str>| tr.insertions.len() == 0 && tr.deletions.len() == 0 && stack.len() == 0 ==> ({
    match #[trigger] m_net(tr, stack, evs.len() as int, None, evs, evs.len() as int) {
      Ok((it2, tr2, stack2, next2, xml2)) => s_pos_ok(tr2.insertions) && s_ints_ok(tr2.deletions) && match s_net(evs) { Ok(s2) => s2.stack == stack2 && s2.out == s_apply(tr2.insertions, tr2.deletions, it2), Err(_) => false },
      Err(Err(e)) => s_net(evs) == Err::<Net, NetErr>(e),
      Err(Ok(_)) => false,
    }
  })
{
  assert forall|tr: TransformS, stack: Seq<Str>| tr.insertions.len() == 0 && tr.deletions.len() == 0 && stack.len() == 0 implies ({
    match #[trigger] m_net(tr, stack, evs.len() as int, None, evs, evs.len() as int) {
      Ok((it2, tr2, stack2, next2, xml2)) => s_pos_ok(tr2.insertions) && s_ints_ok(tr2.deletions) && match s_net(evs) { Ok(s2) => s2.stack == stack2 && s2.out == s_apply(tr2.insertions, tr2.deletions, it2), Err(_) => false },
      Err(Err(e)) => s_net(evs) == Err::<Net, NetErr>(e),
      Err(Ok(_)) => false,
    }
  }) by {
    let n = evs.len() as int;
    let st = Net { out: Seq::empty(), stack: Seq::empty(), ins: 0, xml: None };
    assert(evs.skip(n) =~= Seq::<Ev>::empty());
    assert(tr.insertions =~= Seq::<(int, Ev)>::empty());
    assert(tr.deletions =~= Seq::<int>::empty());
    assert(stack =~= Seq::<Str>::empty());
    l_tail_absent(tr.insertions, 0, n);
    assert(ap(tr.insertions, evs, n) == Seq::<Ev>::empty());
    l_net(evs, st, evs, tr, stack, n, None, n);
    if let Ok((it2, tr2, stack2, next2, xml2)) = m_net(tr, stack, n, None, evs, n) { l_pos_ok_above(tr2.insertions, it2.len() as int); }
  }
}
