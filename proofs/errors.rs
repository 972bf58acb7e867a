// ------------------------------------------------ locations and descriptions
pub proof fn l_char_indices(i: Str)
  ensures n_char_indices(i).len() == i.len(), forall|k: int| 0 <= k < i.len() ==> (#[trigger] n_char_indices(i)[k]).0 == blen(i.take(k))
  decreases i.len()
{
  if i.len() > 0 {
    let d = i.drop_last();
    l_char_indices(d);
    assert forall|k: int| 0 <= k < i.len() implies (#[trigger] n_char_indices(i)[k]).0 == blen(i.take(k)) by {
      if k < d.len() { assert(n_char_indices(i)[k] == n_char_indices(d)[k]); assert(d.take(k) =~= i.take(k)); } else { assert(d =~= i.take(k)); }
    }
  }
}
pub proof fn l_rfind(i: Str, c: char)
  ensures match n_rfind(i, c) {
    Some(k) => 0 <= k < i.len() && i[k] == c && forall|j: int| k < j < i.len() ==> #[trigger] i[j] != c,
    None => forall|j: int| 0 <= j < i.len() ==> #[trigger] i[j] != c,
  }
  decreases i.len()
{
  if i.len() > 0 && i.last() != c {
    let d = i.drop_last();
    l_rfind(d, c);
    assert forall|j: int| 0 <= j < d.len() implies i[j] == #[trigger] d[j] by {}
    match n_rfind(d, c) {
      Some(k) => { assert forall|j: int| k < j < i.len() implies #[trigger] i[j] != c by { if j < d.len() { assert(d[j] == i[j]); } } }
      None => { assert forall|j: int| 0 <= j < i.len() implies #[trigger] i[j] != c by { if j < d.len() { assert(d[j] == i[j]); } } }
    }
  }
}
proof fn l_count_tw(c: char, i: Str)
  ensures count_ch(c, i) == ({ let k = tw(|x: char| x != c, i); if 0 <= k < i.len() { 1 + count_ch(c, i.skip(k + 1)) } else { 0 } })
  decreases i.len()
{
  let p = |x: char| x != c;
  l_tw_bound(p, i);
  if i.len() > 0 {
    if i[0] == c { assert(tw(p, i) == 0); } else {
      let t = i.skip(1);
      l_count_tw(c, t);
      l_tw_bound(p, t);
      assert(tw(p, i) == 1 + tw(p, t));
      if tw(p, t) < t.len() { assert(t.skip(tw(p, t) + 1) =~= i.skip(tw(p, i) + 1)); }
    }
  }
}
pub proof fn l_split_count(c: char, i: Str)
  ensures n_split_ch(c, i).len() == count_ch(c, i) + 1
  decreases i.len()
{
  broadcast use l_tw_ext;
  let k = tw(|x: char| x != c, i);
  l_tw_bound(|x: char| x != c, i);
  l_count_tw(c, i);
  if k < i.len() { l_split_count(c, i.skip(k + 1)); }
}
/// The first of the lines.
pub proof fn l_lines_first(i: Str)
  ensures i.len() > 0 ==> n_lines(i).len() > 0 && n_lines(i)[0] == n_line1(i), i.len() == 0 ==> n_lines(i).len() == 0 && n_line1(i) == Seq::<char>::empty()
{ broadcast use l_tw_ext; let k = tw(|x: char| x != '\n', i); l_tw_bound(|x: char| x != '\n', i); if i.len() == 0 { assert(i.take(k) =~= Seq::<char>::empty()); } }

/// Offsets of a piece.
pub proof fn l_piece(i: Str, a: int, b: int)
  requires 0 <= a <= b <= i.len()
  ensures bbound(i, blen(i.take(a))), bbound(i, blen(i.take(b))), blen(i.take(a)) <= blen(i.take(b)), btake(i, blen(i.take(b))) == i.take(b), bskip(i, blen(i.take(a))) == i.skip(a), bskip(btake(i, blen(i.take(b))), blen(i.take(a))) == i.take(b).skip(a), bbound(i.take(b), blen(i.take(a)))
{
  l_byte(i, a); l_byte(i, b); l_blen_mono(i, a, b);
  assert(i.take(b).take(a) =~= i.take(a));
  l_byte(i.take(b), a);
}
pub proof fn l_line_start(i: Str)
  ensures 0 <= s_line_start(i) <= i.len(), s_line_start(i) > 0 ==> i[s_line_start(i) - 1] == '\n', forall|j: int| s_line_start(i) <= j < i.len() ==> #[trigger] i[j] != '\n',
    match n_rfind(i, '\n') { Some(k) => blen(i.take(k + 1)) == blen(i.take(k)) + 1, None => true }
{
  l_rfind(i, '\n');
  if let Some(k) = n_rfind(i, '\n') {
    let d = seq!['\n'];
    assert(i.skip(k)[0] == i[k]);
    l_pfx1(i.skip(k), '\n');
    assert forall|m: int| 0 <= m < d.len() implies (#[trigger] d[m] as u32) < 0x80 by {}
    l_byte_after(i, k, d);
  }
}
/// C14: a location is the position's: lines are counted by line feeds, the column from the
/// start of the line, and the line shown is the input's own text without any line feed.
pub proof fn l_located(input: Str, at: Str)
  requires is_suffix(at, input)
  ensures ({
    let l = s_locate(input, at);
    let pos = input.len() - at.len();
    let start = pos - (l.column_number - 1);
    &&& s_line_ok(l)
    &&& 0 <= start <= pos
    &&& (start == 0 || input[start - 1] == '\n')
    &&& (forall|j: int| start <= j < pos ==> #[trigger] input[j] != '\n')
    &&& l.line_number == 1 + count_ch('\n', input.take(pos))
    &&& start + l.line.len() <= input.len()
    &&& l.line == input.skip(start).take(l.line.len() as int)
    &&& (forall|j: int| 0 <= j < l.line.len() ==> #[trigger] l.line[j] != '\n')
    &&& (start + l.line.len() < input.len() ==> input[start + l.line.len()] == '\n' || (input[start + l.line.len()] == '\r' && start + l.line.len() + 1 < input.len() && input[start + l.line.len() + 1] == '\n'))
  })
{
  let pos = input.len() - at.len();
  let before = input.take(pos);
  l_line_start(before);
  let start = s_line_start(before);
  let rest = input.skip(start);
  let p = |x: char| x != '\n';
  l_tw(p, rest);
  let k = tw(p, rest);
  if start > 0 { assert(input[start - 1] == before[start - 1]); }
  assert forall|j: int| start <= j < pos implies #[trigger] input[j] != '\n' by { assert(before[j] == input[j]); }
  if k < pos - start { assert(rest[k] == input[start + k]); }
  let l = s_locate(input, at);
  assert forall|j: int| 0 <= j < l.line.len() implies #[trigger] l.line[j] != '\n' by { assert(rest[j] == l.line[j]); assert(p(rest[j])); }
  if k < rest.len() { assert(rest[k] == input[start + k]); if k > 0 { assert(rest[k - 1] == input[start + k - 1]); } }
  assert(l.line =~= rest.take(l.line.len() as int));
}
pub proof fn l_context_ok(input: Str, cs: Seq<(Str, Str)>)
  requires s_context_ok(input, cs)
  ensures cs.len() > 0 ==> is_suffix(cs[0].0, input) && s_line_ok(s_locate(input, cs[0].0)) && s_context_ok(input, cs.skip(1))
{ if cs.len() > 0 { l_located(input, cs[0].0); } }
pub proof fn l_pad(s: Str, w: int)
  ensures n_pad_left(s, w).len() == if w > s.len() { w } else { s.len() as int }, n_pad_left(s, w).skip(n_pad_left(s, w).len() - s.len()) == s, forall|j: int| 0 <= j < n_pad_left(s, w).len() - s.len() ==> #[trigger] n_pad_left(s, w)[j] == ' '
  decreases w - s.len()
{
  if s.len() >= w { assert(s.skip(0) =~= s); } else {
    let t = seq![' '] + s;
    assert(t.len() == s.len() + 1);
    l_pad(t, w);
    let r = n_pad_left(t, w);
    assert(r.skip(r.len() - s.len()) =~= r.skip(r.len() - t.len()).skip(1));
    assert(t.skip(1) =~= s);
    assert forall|j: int| 0 <= j < r.len() - s.len() implies #[trigger] r[j] == ' ' by { if j == r.len() - t.len() { assert(r[j] == r.skip(r.len() - t.len())[0]); } }
  }
}
/// C14: the caret is under the character at the position, and nothing of the row is invented.
pub proof fn l_caret(l: LineS)
  requires s_line_ok(l)
  ensures ({
    let row = s_show_row(l);
    let caret = n_pad_left(seq!['^'], l.column_number - s_skip(l));
    &&& s_show_line(l) == row + (seq!['\n'] + caret)
    &&& caret.len() == l.column_number - s_skip(l) && caret.last() == '^'
    &&& (forall|j: int| 0 <= j < caret.len() - 1 ==> #[trigger] caret[j] == ' ')
    &&& (l.column_number <= l.line.len() ==> caret.len() <= row.len() && row[caret.len() - 1] == l.line[l.column_number - 1])
    &&& row.len() <= 80
    &&& (l.line.len() <= 80 && l.column_number <= 40 ==> row == l.line)
  })
{
  let row = s_show_row(l);
  let n = l.column_number - s_skip(l);
  l_pad(seq!['^'], n);
  let caret = n_pad_left(seq!['^'], n);
  assert(seq!['^'].len() == 1);
  assert(caret.last() == caret.skip(caret.len() - 1)[0]);
  if l.line.len() <= 80 && l.column_number <= 40 { assert(row =~= l.line); }
}
pub proof fn l_cerr(e: CErrS, input: Str)
  requires s_cerr_ok(e, input)
  ensures is_suffix(e.input, input), s_line_ok(s_locate(input, e.input)), s_context_ok(input, e.context), e.context.len() > 0 ==> is_suffix(e.context[0].0, input) && s_line_ok(s_locate(input, e.context[0].0)) && s_context_ok(input, e.context.skip(1))
{ l_located(input, e.input); l_context_ok(input, e.context); }
