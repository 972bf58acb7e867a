// -------------------------------------------------------------------- C21
/// Printable but for text that may be empty or adjacent, declarations and sections.
pub open spec fn pw(evs: Seq<Ev>) -> bool
  decreases evs.len(), 0int
{
  if evs.len() == 0 { true } else {
    match evs[0] {
      Ev::Chars(_) => pw(evs.skip(1)),
      Ev::Decl(_, _) => pw(evs.skip(1)),
      Ev::Section(_, _) => pw(evs.skip(1)),
      Ev::End(n) => (n.len() == 0 || v_name(n)) && pw(evs.skip(1)),
      Ev::Pi(s) => v_pi(s) && pw(evs.skip(1)),
      Ev::Open(n) => if n.len() == 0 { evs.len() > 1 && evs[1] is Close && pw(evs.skip(2)) } else { v_name(n) && pw_attrs(evs.skip(1)) },
      _ => false,
    }
  }
}
pub open spec fn pw_attrs(evs: Seq<Ev>) -> bool
  decreases evs.len(), 1int
{
  evs.len() > 0 && match evs[0] {
    Ev::Attr(n, _) => v_name(n) && pw_attrs(evs.skip(1)),
    Ev::Close => pw(evs.skip(1)),
    Ev::XmlClose => pw(evs.skip(1)),
    _ => false,
  }
}
proof fn l_pw_cat(a: Seq<Ev>, b: Seq<Ev>)
  requires pw(b)
  ensures pw(a) ==> pw(a + b), pw_attrs(a) ==> pw_attrs(a + b)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    assert((a + b)[0] == a[0]);
    assert((a + b).skip(1) =~= a.skip(1) + b);
    l_pw_cat(a.skip(1), b);
    if a.len() > 1 {
      assert((a + b)[1] == a[1]);
      assert((a + b).skip(2) =~= a.skip(2) + b);
      l_pw_cat(a.skip(2), b);
    }
  }
}
proof fn l_pi_valid(i: Str)
  ensures match s_pi(i) { Ok((_, s)) => v_pi(s), Err(_) => true }
{
  if pfx(i, seq!['<', '?']) {
    let t = i.skip(2);
    l_find(t, seq!['>']);
    l_find_first(t, seq!['>']);
    match find(t, seq!['>']) { None => {} Some(k) => {
      assert(t.skip(k)[0] == '>');
      let s = i.take(k + 3);
      assert(consumed(i, t.skip(k + 1)) =~= s);
      assert(s.last() == t[k]);
      assert(i.take(2) =~= seq!['<', '?']);
      assert(i[0] == i.take(2)[0] && i[1] == i.take(2)[1]);
      assert forall|q: int| 2 <= q < s.len() - 1 implies #[trigger] s[q] != '>' by {
        let u = t.skip(q - 2);
        assert(!pfx(u, seq!['>']));
        assert(u[0] == s[q]);
        if u[0] == '>' { assert(u.take(1) =~= seq!['>']); assert(u =~= seq!['>'] + u.skip(1)); }
      }
    } }
  }
}
proof fn l_attrs_pw(f: Fun<Str, PR<Ev>>, i: Str, c: Ev)
  requires
    forall|j: Str| match #[trigger] f(j) { Ok((_, Ev::Attr(n, _))) => v_name(n), Ok(_) => false, Err(_) => true },
    c is Close || c is XmlClose
  ensures match n_many0(f, i) { Ok((_, s)) => pw_attrs(s + seq![c]), Err(_) => true }
  decreases i.len()
{
  reveal_with_fuel(pw_attrs, 3); reveal_with_fuel(pw, 3);
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() {
      l_attrs_pw(f, r, c);
      match n_many0(f, r) { Ok((_, ts)) => {
        let s = seq![t] + ts;
        assert((s + seq![c])[0] == t);
        assert((s + seq![c]).skip(1) =~= ts + seq![c]);
      } Err(_) => {} }
    }
    Err(_) => { let s = Seq::<Ev>::empty() + seq![c]; assert(s[0] == c); assert(s.skip(1) =~= seq![]); }
  }
}
proof fn l_start_tag_pw(i: Str, cfg: Cfg)
  requires cfg.name_normalization is Unchanged
  ensures match s_ev_start_tag(i, cfg) { Ok((_, e)) => pw(e), Err(_) => true }
{
  reveal_with_fuel(pw, 3);
  match s_ev_open(i, cfg) {
    Err(_) => { let s = seq![Ev::Open(seq![]), Ev::Close]; assert(s.skip(2) =~= seq![]); assert(s[1] is Close); }
    Ok((r, o)) => {
      l_name_valid(i.skip(1));
      let f = |j: Str| match s_ev_attr(j, cfg) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) };
      assert forall|j: Str| match #[trigger] f(j) { Ok((_, Ev::Attr(n, _))) => v_name(n), Ok(_) => false, Err(_) => true } by { l_name_valid(j); }
      match s_ev_attrs(skip_ws(r), cfg) { Ok((r2, attrs)) => match s_ev_close(r2) { Ok((r3, c)) => {
        l_attrs_pw(f, skip_ws(r), c);
        let s = seq![o] + attrs + seq![c];
        assert(s[0] == o);
        assert(s.skip(1) =~= attrs + seq![c]);
      } Err(_) => {} } Err(_) => {} }
    }
  }
}
proof fn l_one_pw(e: Ev)
  requires match e { Ev::Chars(_) => true, Ev::Decl(_, _) => true, Ev::Section(_, _) => true, Ev::End(n) => n.len() == 0 || v_name(n), Ev::Pi(s) => v_pi(s), _ => false }
  ensures pw(seq![e])
{ reveal_with_fuel(pw, 2); assert(seq![e].skip(1) =~= seq![]); }
/// The events of a parse are printable once text is joined and declarations and sections are left out.
pub proof fn l_document_pw(i: Str, cfg: Cfg)
  requires cfg.name_normalization is Unchanged
  ensures match s_document(i, cfg) { Ok((_, e)) => pw(e), Err(_) => true }
{
  let p = |e: Seq<Ev>| pw(e);
  assert forall|a: Seq<Ev>, b: Seq<Ev>| p(a) && p(b) implies #[trigger] p(a + b) by { l_pw_cat(a, b); }
  assert(p(seq![]));
  assert forall|i: Str, stop: Mse| pr_p(p, #[trigger] s_ev_text(i, cfg, stop)) by { match s_ev_text(i, cfg, stop) { Ok((_, e)) => { if e.len() > 0 { l_one_pw(e[0]); } } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_start_tag(i, cfg)) by { l_start_tag_pw(i, cfg); }
  assert forall|i: Str| match #[trigger] s_ev_end_tag(i, cfg) { Ok((_, e)) => p(seq![e]), Err(_) => true } by { l_name_valid(i.skip(2)); match s_ev_end_tag(i, cfg) { Ok((_, e)) => { l_one_pw(e); } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_pi(i, cfg)) by { l_pi_valid(i); match s_ev_pi(i, cfg) { Ok((_, e)) => { if e.len() > 0 { l_one_pw(e[0]); } } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_decl(i, cfg)) by { match s_ev_decl(i, cfg) { Ok((_, e)) => { if e.len() > 0 { l_one_pw(e[0]); } } Err(_) => {} } }
  assert forall|k: Str, c: Str| #[trigger] p1(p, Ev::Section(k, c)) by { l_one_pw(Ev::Section(k, c)); }
  assert forall|c: Str| #[trigger] p1(p, Ev::Chars(c)) by { l_one_pw(Ev::Chars(c)); }
  l_document_p(p, i, cfg);
}
/// Text put before events, joined with text they start with.
pub open spec fn e_text_before(t: Str, evs: Seq<Ev>) -> Seq<Ev> {
  if evs.len() > 0 && evs[0] is Chars { match evs[0] { Ev::Chars(u) => seq![Ev::Chars(t + u)] + evs.skip(1), _ => evs } }
  else if t.len() == 0 { evs } else { seq![Ev::Chars(t)] + evs }
}
/// Declarations and marked sections left out, adjacent text joined.
pub open spec fn e_join(evs: Seq<Ev>) -> Seq<Ev>
  decreases evs.len()
{
  if evs.len() == 0 { seq![] } else {
    let r = e_join(evs.skip(1));
    match evs[0] { Ev::Decl(_, _) => r, Ev::Section(_, _) => r, Ev::Chars(t) => e_text_before(t, r), e => seq![e] + r }
  }
}
proof fn l_join_pc(evs: Seq<Ev>)
  ensures pw(evs) ==> pc(e_join(evs)), pw_attrs(evs) ==> pc_attrs(e_join(evs))
  decreases evs.len()
{
  if evs.len() > 0 {
    let rest = evs.skip(1);
    let r = e_join(rest);
    let j = e_join(evs);
    l_join_pc(rest);
    match evs[0] {
      Ev::Decl(_, _) => {} Ev::Section(_, _) => {}
      Ev::Chars(t) => {
        if r.len() > 0 && r[0] is Chars {
          assert(j.skip(1) =~= r.skip(1));
          if r.len() > 1 { assert(j[1] == r[1]); }
        } else if t.len() > 0 {
          assert(j.skip(1) =~= r);
          if r.len() > 0 { assert(j[1] == r[0]); }
        }
      }
      Ev::Open(n) => {
        assert(j[0] == evs[0] && j.skip(1) =~= r);
        if n.len() == 0 && pw(evs) {
          assert(evs[1] is Close && rest[0] == evs[1]);
          assert(rest.skip(1) =~= evs.skip(2));
          assert(r.skip(1) =~= e_join(evs.skip(2)));
          assert(j.skip(2) =~= r.skip(1));
          assert(j[1] == r[0]);
          l_join_pc(evs.skip(2));
        }
      }
      _ => { assert(j[0] == evs[0] && j.skip(1) =~= r); }
    }
  }
}
proof fn l_pc_end(d: Seq<Ev>, n: Str)
  requires v_name(n)
  ensures pc(d) ==> pc(d + seq![Ev::End(n)]), pc_attrs(d) ==> pc_attrs(d + seq![Ev::End(n)])
  decreases d.len()
{
  let x = d + seq![Ev::End(n)];
  if d.len() == 0 { assert(x[0] == Ev::End(n)); assert(x.skip(1) =~= seq![]); assert(pc(seq![])); }
  else {
    assert(x[0] == d[0]);
    assert(x.skip(1) =~= d.skip(1) + seq![Ev::End(n)]);
    l_pc_end(d.skip(1), n);
    if d.len() > 1 { assert(x[1] == d[1]); assert(x.skip(2) =~= d.skip(2) + seq![Ev::End(n)]); l_pc_end(d.skip(2), n); }
    else { assert(x[1] == Ev::End(n)); }
  }
}
/// C21: the events of any document parsed with names unchanged, without their declarations and
/// sections and with adjacent text joined, print inside an element to a document that parses,
/// trimming off, to the same events.
pub proof fn t_print_back(i: Str, cfg: Cfg, root: Str, back: Cfg)
  requires
    cfg.name_normalization is Unchanged, v_name(root),
    back.name_normalization is Unchanged, !back.ignore_processing_instructions, !back.trim_whitespace
  ensures match s_document(i, cfg) { Err(_) => true, Ok((_, evs)) => {
    let doc = seq![Ev::Open(root), Ev::Close] + e_join(evs) + seq![Ev::End(root)];
    s_document(s_show_all(doc), back) == Ok::<(Str, Seq<Ev>), NE>((seq![], doc))
  } }
{
  l_document_pw(i, cfg);
  match s_document(i, cfg) { Err(_) => {} Ok((_, evs)) => {
    let d = e_join(evs);
    l_join_pc(evs);
    l_pc_end(d, root);
    let t = d + seq![Ev::End(root)];
    let doc = seq![Ev::Open(root), Ev::Close] + d + seq![Ev::End(root)];
    assert(doc[0] == Ev::Open(root) && doc[1] == Ev::Close);
    assert(doc.skip(1)[0] == Ev::Close);
    assert(doc.skip(1).skip(1) =~= t);
    assert(pc_attrs(doc.skip(1)));
    t_print_parse(doc, back);
  } }
}
/// The printed forms carry their own delimiters, and text has no markup.
pub proof fn t_show_delimiters(e: Ev)
  ensures match e {
    Ev::Decl(_, _) => pfx(s_show(e), seq!['<', '!']) && s_show(e).last() == '>',
    Ev::Section(_, _) => pfx(s_show(e), seq!['<', '!', '[']) && s_show(e).len() >= 6 && s_show(e).skip(s_show(e).len() - 3) == seq![']', ']', '>'],
    Ev::Open(n) => s_show(e) == seq!['<'] + n,
    Ev::Close => s_show(e) == seq!['>'],
    Ev::XmlClose => s_show(e) == seq!['/', '>'],
    Ev::End(n) => s_show(e) == seq!['<', '/'] + n + seq!['>'],
    Ev::Chars(_) => no_char(s_show(e), '<') && no_char(s_show(e), '>'),
    Ev::Attr(n, _) => s_show(e).len() >= n.len() && s_show(e).take(n.len() as int) == n,
    Ev::Pi(s) => s_show(e) == s,
  }
{
  let s = s_show(e);
  match e {
    Ev::Decl(_, _) => { assert(s.take(2) =~= seq!['<', '!']); assert(s =~= seq!['<', '!'] + s.skip(2)); }
    Ev::Section(_, _) => { assert(s.take(3) =~= seq!['<', '!', '[']); assert(s =~= seq!['<', '!', '['] + s.skip(3)); assert(s.skip(s.len() - 3) =~= seq![']', ']', '>']); }
    Ev::Chars(t) => { t_escape_plain(true, t); }
    Ev::Attr(n, _) => { assert(s.take(n.len() as int) =~= n); }
    Ev::Open(n) => { assert(s =~= seq!['<'] + n); }
    _ => {}
  }
}
