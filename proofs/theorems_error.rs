// -------------------------------------------------------------------- C14
proof fn l_context_push(input: Str, cs: Seq<(Str, Str)>, at: Str, ctx: Str)
  requires s_context_ok(input, cs), is_suffix(at, input)
  ensures s_context_ok(input, cs + seq![(at, ctx)])
  decreases cs.len()
{
  let q = cs + seq![(at, ctx)];
  if cs.len() == 0 {
    assert(q =~= seq![(at, ctx)]);
    assert(q.skip(1) =~= seq![]);
    assert(q[0].0 == at);
    reveal_with_fuel(s_context_ok, 3);
  } else {
    l_context_push(input, cs.skip(1), at, ctx);
    assert(q[0] == cs[0]);
    assert(q.skip(1) =~= cs.skip(1) + seq![(at, ctx)]);
  }
}
/// C14: errors built and extended at places of the input, as nom does, stay errors of places of the
/// input: what `describe` requires.
pub proof fn t_error_places(input: Str, at: Str, e: CErrS, ctx: Str, c: Option<char>, x: Option<Str>)
  requires is_suffix(at, input)
  ensures s_cerr_ok(CErrS { input: at, char: c, error: x, context: seq![] }, input),
    s_cerr_ok(e, input) ==> s_cerr_ok(CErrS { context: e.context + seq![(at, ctx)], ..e }, input),
{
  reveal_with_fuel(s_context_ok, 2);
  if s_cerr_ok(e, input) { l_context_push(input, e.context, at, ctx); }
}
