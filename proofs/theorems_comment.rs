// -------------------------------------------------------------------- C18
/// What is left after any mix of comment declarations and whitespace (or how it fails).
pub open spec fn after_cs(i: Str) -> Result<Str, NE> { match s_comments_and_spaces(i) { Ok((r, _)) => Ok(r), Err(e) => Err(e) } }
/// What is left after any number of comment declarations (or how it fails).
pub open spec fn after_cd(i: Str) -> Result<Str, NE> { match s_comment_decls(i) { Ok((r, _)) => Ok(r), Err(e) => Err(e) } }

/// A comment declaration in front of comments and whitespace goes with them.
pub proof fn t_comment_cs(i: Str)
  ensures match s_comment_decl(i) { Ok((r, _)) => after_cs(i) == after_cs(r), Err(_) => true }
{
  l_comment_decl_len(i);
}
/// A comment declaration in front of others goes with them.
pub proof fn t_comment_cd(i: Str)
  ensures match s_comment_decl(i) { Ok((r, _)) => after_cd(i) == after_cd(r), Err(_) => true }
{
  l_comment_decl_len(i);
}
proof fn l_comment_decl_len(i: Str)
  ensures match s_comment_decl(i) { Ok((r, _)) => r.len() < i.len(), Err(_) => true }
{ broadcast use g_all, g_more; }
/// C18: a comment declaration in front of a document changes nothing.
pub proof fn t_comment_first(i: Str, cfg: Cfg)
  ensures match s_comment_decl(i) { Ok((r, _)) => s_document(i, cfg) == s_document(r, cfg), Err(_) => true }
{
  t_comment_cs(i);
}
/// C18: after a construct of the content a comment declaration yields nothing and parsing goes on behind it.
pub proof fn t_comment_after(i: Str, cfg: Cfg, stop: Mse)
  ensures match s_content_item(i, cfg, stop) {
    Ok((m, e)) => m.len() < i.len() ==> match s_comment_decl(m) { Ok((r, _)) => match s_content_unit(i, cfg, stop) { Ok((r2, e2)) => e2 == e && after_cd(r) == Ok::<Str, NE>(r2), Err(x) => after_cd(r) == Err::<Str, NE>(x) }, Err(_) => true },
    Err(_) => true,
  }
{
  match s_content_item(i, cfg, stop) { Ok((m, _)) => { t_comment_cd(m); } Err(_) => {} }
}
/// C18: after a declaration, section or instruction of the prolog likewise.
pub proof fn t_comment_prolog<T>(m: Str, v: T)
  ensures match s_comment_decl(m) { Ok((r, _)) => then_comments(Ok::<(Str, T), NE>((m, v))) == then_comments(Ok::<(Str, T), NE>((r, v))), Err(_) => true }
{
  t_comment_cs(m);
}

/// `--a--`
pub open spec fn cm(a: Str) -> Str { seq!['-', '-'] + a + seq!['-', '-'] }
/// The first `--` after `a` is the one that is put there.
pub open spec fn cm_text(a: Str) -> bool { forall|j: int| 0 <= j < a.len() ==> !(#[trigger] a[j] == '-' && (j + 1 == a.len() || a[j + 1] == '-')) }
pub open spec fn all_ws(w: Str) -> bool { forall|k: int| 0 <= k < w.len() ==> s_is_ws(#[trigger] w[k]) }
/// Whitespace and a comment, repeated.
pub open spec fn more_cm(cs: Seq<(Str, Str)>) -> Str
  decreases cs.len()
{ if cs.len() == 0 { seq![] } else { cs[0].0 + cm(cs[0].1) + more_cm(cs.skip(1)) } }
pub open spec fn cms_ok(cs: Seq<(Str, Str)>) -> bool { forall|k: int| 0 <= k < cs.len() ==> all_ws((#[trigger] cs[k]).0) && cm_text(cs[k].1) }
proof fn l_cm(a: Str, z: Str)
  requires cm_text(a)
  ensures s_comment(cm(a) + z) == Ok::<(Str, Str), NE>((z, a))
{
  broadcast use l_pfx2;
  let i = cm(a) + z;
  let t = i.skip(2);
  let d = seq!['-', '-'];
  assert(t =~= a + d + z);
  let n = a.len() as int;
  l_find(t, d); l_find_first(t, d);
  assert(t.skip(n)[0] == '-' && t.skip(n)[1] == '-');
  assert(pfx(t.skip(n), d));
  match find(t, d) {
    None => {}
    Some(k) => {
      if k > n { assert(!pfx(t.skip(n), d)); }
      if k < n { assert(t.skip(k)[0] == a[k]); assert(t.skip(k)[1] == t[k + 1]); if k + 1 < n { assert(t[k + 1] == a[k + 1]); } assert(false); }
    }
  }
  assert(t.skip(n + 2) =~= z);
  assert(t.take(n) =~= a);
  assert(i[0] == '-' && i[1] == '-');
}
proof fn l_more_cm(cs: Seq<(Str, Str)>, z: Str)
  requires cms_ok(cs), z.len() > 0, z[0] == '>'
  ensures match s_more_comments(more_cm(cs) + z) { Ok((r, _)) => r == z, Err(_) => false }
  decreases cs.len()
{
  let p = |j: Str| s_comment(skip_ws(j));
  let w = p_ws();
  if cs.len() == 0 {
    assert(more_cm(cs) + z =~= z);
    assert(tw(w, z) == 0);
    assert(z.skip(0) =~= z);
    assert(!pfx(z, seq!['-', '-'])) by { broadcast use l_pfx2; }
    assert(p(z) == Err::<(Str, Str), NE>(NE::Error));
  } else {
    let rest = more_cm(cs.skip(1)) + z;
    let i = more_cm(cs) + z;
    let b = cm(cs[0].1) + rest;
    assert(i =~= cs[0].0 + b);
    assert(all_ws(cs[0].0) && cm_text(cs[0].1));
    assert(forall|k: int| 0 <= k < cs[0].0.len() ==> w(#[trigger] cs[0].0[k]));
    assert(b[0] == '-');
    l_tw_all(w, cs[0].0, b);
    assert(skip_ws(i) =~= b);
    l_cm(cs[0].1, rest);
    assert(p(i) == Ok::<(Str, Str), NE>((rest, cs[0].1)));
    assert forall|k: int| 0 <= k < cs.skip(1).len() implies all_ws((#[trigger] cs.skip(1)[k]).0) && cm_text(cs.skip(1)[k].1) by { assert(cs.skip(1)[k] == cs[k + 1]); }
    l_more_cm(cs.skip(1), z);
    assert(n_many0(p, rest) == s_more_comments(rest));
  }
}
/// C18: `<!`, comments whose text holds no `--`, whitespace between them, and `>` form one declaration,
/// whatever markup the comments hold.
pub proof fn t_comment_form(a: Str, cs: Seq<(Str, Str)>, rest: Str)
  requires cm_text(a), cms_ok(cs)
  ensures match s_comment_decl(seq!['<', '!'] + cm(a) + more_cm(cs) + seq!['>'] + rest) { Ok((r, _)) => r == rest, Err(_) => false }
{
  broadcast use l_pfx2;
  let z = seq!['>'] + rest;
  let i = seq!['<', '!'] + cm(a) + more_cm(cs) + seq!['>'] + rest;
  assert(i[0] == '<' && i[1] == '!' && i[2] == '-');
  assert(i.skip(2) =~= cm(a) + (more_cm(cs) + z));
  l_cm(a, more_cm(cs) + z);
  l_more_cm(cs, z);
  assert(z.skip(1) =~= rest);
}
/// C18: `<!>` is a declaration without comments.
pub proof fn t_comment_none(rest: Str)
  ensures match s_comment_decl(seq!['<', '!', '>'] + rest) { Ok((r, _)) => r == rest, Err(_) => false }
{
  broadcast use l_pfx2;
  let i = seq!['<', '!', '>'] + rest;
  assert(i[0] == '<' && i[1] == '!' && i[2] == '>');
  assert(i.skip(2)[0] == '>');
  assert(i.skip(3) =~= rest);
}
