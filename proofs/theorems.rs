// =====================================================================
// Property-level theorems over the contracts (listed in bin/props.py).

// ---------------------------------------------------------------- C01, C11
pub proof fn l_wf_cat(inside: bool, a: Seq<Ev>, b: Seq<Ev>)
  requires s_wf(inside, a), s_wf(false, b)
  ensures s_wf(inside, a + b)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    assert((a + b)[0] == a[0]);
    assert((a + b).skip(1) =~= a.skip(1) + b);
    match a[0] {
      Ev::Open(_) => { l_wf_cat(true, a.skip(1), b); }
      Ev::Attr(_, _) => { l_wf_cat(true, a.skip(1), b); }
      _ => { l_wf_cat(false, a.skip(1), b); }
    }
  }
}
/// What the event groups of a parse may be: a property of event lists kept by concatenation.
pub open spec fn ev_closed(p: spec_fn(Seq<Ev>) -> bool) -> bool {
  p(seq![]) && forall|a: Seq<Ev>, b: Seq<Ev>| p(a) && p(b) ==> #[trigger] p(a + b)
}
pub open spec fn pr_p(p: spec_fn(Seq<Ev>) -> bool, x: PR<Seq<Ev>>) -> bool { match x { Ok((_, e)) => p(e), Err(_) => true } }
pub open spec fn p1(p: spec_fn(Seq<Ev>) -> bool, e: Ev) -> bool { p(seq![e]) }
/// `p` holds of whatever each single construct yields.
pub open spec fn ev_units(p: spec_fn(Seq<Ev>) -> bool, cfg: Cfg) -> bool {
  &&& ev_closed(p)
  &&& forall|i: Str, stop: Mse| pr_p(p, #[trigger] s_ev_text(i, cfg, stop))
  &&& forall|i: Str| pr_p(p, #[trigger] s_ev_start_tag(i, cfg))
  &&& forall|i: Str| match #[trigger] s_ev_end_tag(i, cfg) { Ok((_, e)) => p(seq![e]), Err(_) => true }
  &&& forall|i: Str| pr_p(p, #[trigger] s_ev_pi(i, cfg))
  &&& forall|i: Str| pr_p(p, #[trigger] s_ev_decl(i, cfg))
  &&& forall|k: Str, c: Str| #[trigger] p1(p, Ev::Section(k, c))
  &&& forall|c: Str| #[trigger] p1(p, Ev::Chars(c))
}
pub open spec fn all_p(p: spec_fn(Seq<Ev>) -> bool, s: Seq<Seq<Ev>>) -> bool { forall|k: int| 0 <= k < s.len() ==> p(#[trigger] s[k]) }
pub proof fn l_flatten_p(p: spec_fn(Seq<Ev>) -> bool, s: Seq<Seq<Ev>>)
  requires ev_closed(p), all_p(p, s)
  ensures p(flatten(s))
  decreases s.len()
{
  if s.len() > 0 {
    assert(all_p(p, s.skip(1))) by { assert forall|k: int| 0 <= k < s.skip(1).len() implies p(#[trigger] s.skip(1)[k]) by { assert(s.skip(1)[k] == s[k + 1]); } }
    l_flatten_p(p, s.skip(1));
    assert(p(s[0]));
  }
}
pub proof fn l_many0_p(p: spec_fn(Seq<Ev>) -> bool, f: Fun<Str, PR<Seq<Ev>>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> pr_p(p, #[trigger] f(j))
  ensures match n_many0(f, i) { Ok((_, s)) => all_p(p, s), Err(_) => true }
  decreases i.len()
{
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() { assert(pr_p(p, f(i))); l_many0_p(p, f, r); }
    Err(_) => {}
  }
}
pub proof fn l_many1_p(p: spec_fn(Seq<Ev>) -> bool, f: Fun<Str, PR<Seq<Ev>>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> pr_p(p, #[trigger] f(j))
  ensures match n_many1(f, i) { Ok((_, s)) => all_p(p, s), Err(_) => true }
{
  match f(i) {
    Ok((r, t)) => if r.len() <= i.len() { assert(pr_p(p, f(i))); l_many0_p(p, f, r); }
    Err(_) => {}
  }
}
pub proof fn l_section_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_section(i, cfg))
  decreases i.len(), 0int
{
  match s_section_start(i) { Ok((r, raw)) => match s_decl_text(cfg, raw) { Ok(kw) => match s_parse_keywords(cfg.marked_section_handling, kw) {
    Ok(m) => if r.len() < i.len() { l_section_body_p(p, r, kw, m, cfg); }
    Err(_) => {} } Err(_) => {} } Err(_) => {} }
}
pub proof fn l_section_body_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, kw: Str, m: Mss, cfg: Cfg)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_section_body(i, kw, m, cfg))
  decreases i.len(), 5int
{
  l_include_p(p, i, cfg);
  match s_section_body(i, kw, m, cfg) { Err(_) => {} Ok((_, e)) => {
    if cfg.marked_section_handling == Msh::KeepUnmodified || m is CData || m is RcData {
      assert(e.len() == 1 && e =~= seq![e[0]]);
      assert(p1(p, e[0])) by { match e[0] { Ev::Section(k, c) => { assert(p1(p, Ev::Section(k, c))); } Ev::Chars(c) => { assert(p1(p, Ev::Chars(c))); } _ => {} } }
    }
  } }
}
pub proof fn l_include_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_section_include(i, cfg))
  decreases i.len(), 4int
{
  match s_comment_decls(i) { Ok((r, _)) => if r.len() <= i.len() { l_content_p(p, r, cfg, Mse::StopParsing); } Err(_) => {} }
}
pub proof fn l_item_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg, stop: Mse)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_content_item(i, cfg, stop))
  decreases i.len(), 1int
{
  l_section_p(p, i, cfg);
  assert(pr_p(p, s_ev_text(i, cfg, stop)));
  assert(pr_p(p, s_ev_start_tag(i, cfg)));
  assert(pr_p(p, s_ev_pi(i, cfg)));
  assert(match s_ev_end_tag(i, cfg) { Ok((_, e)) => p(seq![e]), Err(_) => true });
}
pub proof fn l_unit_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg, stop: Mse)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_content_unit(i, cfg, stop))
  decreases i.len(), 2int
{ l_item_p(p, i, cfg, stop); }
pub proof fn l_content_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg, stop: Mse)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_content(i, cfg, stop))
  decreases i.len(), 3int
{
  hide(s_content_unit); hide(n_many1); hide(flatten); hide(n_many0); hide(s_content);
  let f = |j: Str| if j.len() <= i.len() { s_content_unit(j, cfg, stop) } else { Err(NE::Error) };
  assert forall|j: Str| j.len() <= i.len() implies pr_p(p, #[trigger] f(j)) by { l_unit_p(p, j, cfg, stop); }
  l_many1_p(p, f, i);
  match n_many1(f, i) { Ok((_, x)) => { l_flatten_p(p, x); } Err(_) => {} }
  l_content_open(i, cfg, stop);
}
pub proof fn l_document_p(p: spec_fn(Seq<Ev>) -> bool, i: Str, cfg: Cfg)
  requires ev_units(p, cfg)
  ensures pr_p(p, s_document(i, cfg))
{
  match s_comments_and_spaces(i) { Err(_) => {} Ok((r, _)) => {
    let f = |j: Str| then_comments(match s_ev_decl(j, cfg) {
        Err(NE::Error) => match s_section(j, cfg) { Err(NE::Error) => s_ev_pi(j, cfg), x => x },
        x => x,
    });
    assert forall|j: Str| j.len() <= r.len() implies pr_p(p, #[trigger] f(j)) by {
      l_section_p(p, j, cfg); assert(pr_p(p, s_ev_decl(j, cfg))); assert(pr_p(p, s_ev_pi(j, cfg)));
    }
    l_many0_p(p, f, r);
    assert(s_prolog(r, cfg) == match n_many0(f, r) { Err(e) => Err(e), Ok((r2, x)) => Ok((r2, flatten(x))) });
    match n_many0(f, r) { Ok((r2, x)) => {
      l_flatten_p(p, x);
      l_content_p(p, r2, cfg, Mse::TreatAsText);
      match s_content(r2, cfg, Mse::TreatAsText) { Err(_) => {} Ok((r3, evs)) => {
        let g = |j: Str| then_comments(s_ev_pi(j, cfg));
        assert forall|j: Str| j.len() <= r3.len() implies pr_p(p, #[trigger] g(j)) by { assert(pr_p(p, s_ev_pi(j, cfg))); }
        l_many0_p(p, g, r3);
        match n_many0(g, r3) { Ok((r4, epi)) => { l_flatten_p(p, epi); } Err(_) => {} }
      } }
    } Err(_) => {} }
  } }
}
/// Start tags of any parse are complete groups.
pub proof fn l_attrs_wf(f: Fun<Str, PR<Ev>>, i: Str, c: Ev)
  requires forall|j: Str| match #[trigger] f(j) { Ok((_, e)) => e is Attr, Err(_) => true }, c is Close || c is XmlClose
  ensures match n_many0(f, i) { Ok((_, s)) => s_wf(true, s + seq![c]), Err(_) => true }
  decreases i.len()
{
  reveal_with_fuel(s_wf, 3);
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() {
      l_attrs_wf(f, r, c);
      match n_many0(f, r) { Ok((_, ts)) => {
        let s = seq![t] + ts;
        assert((s + seq![c])[0] == t);
        assert((s + seq![c]).skip(1) =~= ts + seq![c]);
      } Err(_) => {} }
    }
    Err(_) => { let s = Seq::<Ev>::empty() + seq![c]; assert(s[0] == c); assert(s.skip(1) =~= seq![]); }
  }
}
pub proof fn l_start_tag_wf(i: Str, cfg: Cfg)
  ensures match s_ev_start_tag(i, cfg) { Ok((_, e)) => s_wf(false, e), Err(_) => true }
{
  reveal_with_fuel(s_wf, 3);
  match s_ev_open(i, cfg) {
    Err(_) => { let s = seq![Ev::Open(seq![]), Ev::Close]; assert(s.skip(1) =~= seq![Ev::Close]); assert(s.skip(1).skip(1) =~= seq![]); }
    Ok((r, o)) => {
      let f = |j: Str| match s_ev_attr(j, cfg) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) };
      assert forall|j: Str| match #[trigger] f(j) { Ok((_, e)) => e is Attr, Err(_) => true } by {}
      match s_ev_attrs(skip_ws(r), cfg) { Ok((r2, attrs)) => match s_ev_close(r2) { Ok((r3, c)) => {
        l_attrs_wf(f, skip_ws(r), c);
        let s = seq![o] + attrs + seq![c];
        assert(s[0] == o);
        assert(s.skip(1) =~= attrs + seq![c]);
      } Err(_) => {} } Err(_) => {} }
    }
  }
}
pub proof fn l_one_wf(e: Ev)
  requires !(e is Open), !(e is Attr), !(e is Close), !(e is XmlClose)
  ensures s_wf(false, seq![e])
{ reveal_with_fuel(s_wf, 2); assert(seq![e].skip(1) =~= seq![]); }
/// C01: the events of a successful parse are complete start-tag groups and single other events.
pub proof fn t_document_wf(i: Str, cfg: Cfg)
  ensures match s_document(i, cfg) { Ok((_, e)) => s_wf(false, e), Err(_) => true }
{
  let p = |e: Seq<Ev>| s_wf(false, e);
  assert forall|a: Seq<Ev>, b: Seq<Ev>| p(a) && p(b) implies #[trigger] p(a + b) by { l_wf_cat(false, a, b); }
  assert(p(seq![]));
  assert forall|i: Str, stop: Mse| pr_p(p, #[trigger] s_ev_text(i, cfg, stop)) by { match s_ev_text(i, cfg, stop) { Ok((_, e)) => { if e.len() > 0 { l_one_wf(e[0]); } } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_start_tag(i, cfg)) by { l_start_tag_wf(i, cfg); }
  assert forall|i: Str| match #[trigger] s_ev_end_tag(i, cfg) { Ok((_, e)) => p(seq![e]), Err(_) => true } by { match s_ev_end_tag(i, cfg) { Ok((_, e)) => { l_one_wf(e); } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_pi(i, cfg)) by { match s_ev_pi(i, cfg) { Ok((_, e)) => { if e.len() > 0 { l_one_wf(e[0]); } } Err(_) => {} } }
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_decl(i, cfg)) by { match s_ev_decl(i, cfg) { Ok((_, e)) => { if e.len() > 0 { l_one_wf(e[0]); } } Err(_) => {} } }
  assert forall|k: Str, c: Str| #[trigger] p1(p, Ev::Section(k, c)) by { l_one_wf(Ev::Section(k, c)); }
  assert forall|c: Str| #[trigger] p1(p, Ev::Chars(c)) by { l_one_wf(Ev::Chars(c)); }
  l_document_p(p, i, cfg);
}
/// Every name in `e` is a source name put through the case rule (or empty).
pub open spec fn names_ok(n: Norm, e: Seq<Ev>) -> bool {
  forall|k: int| 0 <= k < e.len() ==> match #[trigger] e[k] {
    Ev::Open(x) => name_ok(n, x), Ev::End(x) => name_ok(n, x), Ev::Attr(x, _) => name_ok(n, x), _ => true }
}
pub open spec fn name_ok(n: Norm, x: Str) -> bool { x.len() == 0 || exists|y: Str| x == #[trigger] s_normalize(n, y) }
pub proof fn l_attrs_names(cfg: Cfg, f: Fun<Str, PR<Ev>>, i: Str)
  requires forall|j: Str| match #[trigger] f(j) { Ok((_, e)) => names_ok(cfg.name_normalization, seq![e]), Err(_) => true }
  ensures match n_many0(f, i) { Ok((_, s)) => names_ok(cfg.name_normalization, s), Err(_) => true }
  decreases i.len()
{
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() {
      l_attrs_names(cfg, f, r);
      match n_many0(f, r) { Ok((_, ts)) => {
        let s = seq![t] + ts;
        assert(names_ok(cfg.name_normalization, seq![t]));
        assert(seq![t][0] == t);
        assert forall|k: int| 0 <= k < s.len() implies match #[trigger] s[k] { Ev::Open(x) => name_ok(cfg.name_normalization, x), Ev::End(x) => name_ok(cfg.name_normalization, x), Ev::Attr(x, _) => name_ok(cfg.name_normalization, x), _ => true } by {
          if k > 0 { assert(s[k] == ts[k - 1]); }
        }
      } Err(_) => {} }
    }
    Err(_) => {}
  }
}
/// C11: start tags, end tags and attributes all carry names put through the one configured case rule.
pub proof fn t_document_names(i: Str, cfg: Cfg)
  ensures match s_document(i, cfg) { Ok((_, e)) => names_ok(cfg.name_normalization, e), Err(_) => true }
{
  let n = cfg.name_normalization;
  let p = |e: Seq<Ev>| names_ok(n, e);
  assert forall|a: Seq<Ev>, b: Seq<Ev>| p(a) && p(b) implies #[trigger] p(a + b) by {}
  assert forall|i: Str| pr_p(p, #[trigger] s_ev_start_tag(i, cfg)) by {
    match s_ev_open(i, cfg) { Err(_) => {} Ok((r, o)) => {
      let f = |j: Str| match s_ev_attr(j, cfg) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) };
      assert forall|j: Str| match #[trigger] f(j) { Ok((_, e)) => names_ok(n, seq![e]), Err(_) => true } by {}
      l_attrs_names(cfg, f, skip_ws(r));
    } }
  }
  assert forall|i: Str| match #[trigger] s_ev_end_tag(i, cfg) { Ok((_, e)) => p(seq![e]), Err(_) => true } by {}
  l_document_p(p, i, cfg);
}

// -------------------------------------------------------------------- C17
/// `evs` without markup declarations (when `d`) and processing instructions (when `q`).
pub open spec fn e_drop(d: bool, q: bool, evs: Seq<Ev>) -> Seq<Ev>
  decreases evs.len()
{
  if evs.len() == 0 { seq![] } else {
    let t = e_drop(d, q, evs.skip(1));
    match evs[0] { Ev::Decl(_, _) => if d { t } else { seq![evs[0]] + t }, Ev::Pi(_) => if q { t } else { seq![evs[0]] + t }, _ => seq![evs[0]] + t }
  }
}
pub open spec fn pr_drop(d: bool, q: bool, x: PR<Seq<Ev>>) -> PR<Seq<Ev>> { match x { Ok((r, e)) => Ok((r, e_drop(d, q, e))), Err(e) => Err(e) } }
pub open spec fn pr_flat(x: PR<Seq<Seq<Ev>>>) -> PR<Seq<Ev>> { match x { Ok((r, e)) => Ok((r, flatten(e))), Err(e) => Err(e) } }
pub open spec fn c_ign(cfg: Cfg, d: bool, q: bool) -> Cfg { Cfg { ignore_markup_declarations: d, ignore_processing_instructions: q, ..cfg } }
pub proof fn l_drop_cat(d: bool, q: bool, a: Seq<Ev>, b: Seq<Ev>)
  ensures e_drop(d, q, a + b) == e_drop(d, q, a) + e_drop(d, q, b)
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); assert(e_drop(d, q, a) + e_drop(d, q, b) =~= e_drop(d, q, b)); }
  else {
    assert((a + b)[0] == a[0]);
    assert((a + b).skip(1) =~= a.skip(1) + b);
    l_drop_cat(d, q, a.skip(1), b);
    assert(seq![a[0]] + (e_drop(d, q, a.skip(1)) + e_drop(d, q, b)) =~= (seq![a[0]] + e_drop(d, q, a.skip(1))) + e_drop(d, q, b));
  }
}
pub open spec fn e_none(evs: Seq<Ev>) -> bool { forall|k: int| 0 <= k < evs.len() ==> !(#[trigger] evs[k] is Decl) && !(evs[k] is Pi) }
pub proof fn l_drop_none(d: bool, q: bool, a: Seq<Ev>)
  requires e_none(a)
  ensures e_drop(d, q, a) == a
  decreases a.len()
{
  if a.len() > 0 {
    assert(!(a[0] is Decl) && !(a[0] is Pi));
    assert forall|k: int| 0 <= k < a.skip(1).len() implies !(#[trigger] a.skip(1)[k] is Decl) && !(a.skip(1)[k] is Pi) by { assert(a.skip(1)[k] == a[k + 1]); }
    l_drop_none(d, q, a.skip(1));
    assert(seq![a[0]] + a.skip(1) =~= a);
  } else { assert(a =~= seq![]); }
}
pub proof fn l_many0_drop(d: bool, q: bool, f: Fun<Str, PR<Seq<Ev>>>, g: Fun<Str, PR<Seq<Ev>>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> #[trigger] g(j) == pr_drop(d, q, f(j))
  ensures pr_flat(n_many0(g, i)) == pr_drop(d, q, pr_flat(n_many0(f, i)))
  decreases i.len()
{
  assert(g(i) == pr_drop(d, q, f(i)));
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() {
      l_many0_drop(d, q, f, g, r);
      match n_many0(f, r) { Ok((_, ts)) => { l_flat_head(t, ts); l_drop_cat(d, q, t, flatten(ts)); match n_many0(g, r) { Ok((_, us)) => { l_flat_head(e_drop(d, q, t), us); } Err(_) => {} } } Err(_) => {} }
    }
    Err(_) => { reveal_with_fuel(flatten, 2); assert(e_drop(d, q, seq![]) =~= seq![]); }
  }
}
pub proof fn l_flat_head(t: Seq<Ev>, ts: Seq<Seq<Ev>>)
  ensures flatten(seq![t] + ts) == t + flatten(ts)
{ let s = seq![t] + ts; assert(s[0] == t); assert(s.skip(1) =~= ts); }
pub proof fn l_many1_drop(d: bool, q: bool, f: Fun<Str, PR<Seq<Ev>>>, g: Fun<Str, PR<Seq<Ev>>>, i: Str)
  requires forall|j: Str| j.len() <= i.len() ==> #[trigger] g(j) == pr_drop(d, q, f(j))
  ensures pr_flat(n_many1(g, i)) == pr_drop(d, q, pr_flat(n_many1(f, i)))
{
  assert(g(i) == pr_drop(d, q, f(i)));
  match f(i) {
    Ok((r, t)) => if r.len() <= i.len() {
      l_many0_drop(d, q, f, g, r);
      match n_many0(f, r) { Ok((_, ts)) => { l_flat_head(t, ts); l_drop_cat(d, q, t, flatten(ts)); match n_many0(g, r) { Ok((_, us)) => { l_flat_head(e_drop(d, q, t), us); } Err(_) => {} } } Err(_) => {} }
    }
    Err(_) => {}
  }
}
pub proof fn l_section_d(d: bool, q: bool, i: Str, cfg: Cfg)
  ensures s_section(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_section(i, c_ign(cfg, false, false)))
  decreases i.len(), 0int
{
  match s_section_start(i) { Ok((r, raw)) => match s_decl_text(cfg, raw) { Ok(kw) => match s_parse_keywords(cfg.marked_section_handling, kw) {
    Ok(m) => if r.len() < i.len() { l_section_body_d(d, q, r, kw, m, cfg); }
    Err(_) => {} } Err(_) => {} } Err(_) => {} }
}
pub proof fn l_section_body_d(d: bool, q: bool, i: Str, kw: Str, m: Mss, cfg: Cfg)
  ensures s_section_body(i, kw, m, c_ign(cfg, d, q)) == pr_drop(d, q, s_section_body(i, kw, m, c_ign(cfg, false, false)))
  decreases i.len(), 5int
{
  hide(s_section_ignore); hide(s_section_chars); hide(s_expand); hide(s_content); hide(s_comment_decls);
  l_include_d(d, q, i, cfg);
  match s_section_body(i, kw, m, c_ign(cfg, false, false)) { Err(_) => {} Ok((_, e)) => { if cfg.marked_section_handling == Msh::KeepUnmodified || !(m is Include) { l_drop_none(d, q, e); } } }
}
pub proof fn l_include_d(d: bool, q: bool, i: Str, cfg: Cfg)
  ensures s_section_include(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_section_include(i, c_ign(cfg, false, false)))
  decreases i.len(), 4int
{ match s_comment_decls(i) { Ok((r, _)) => if r.len() <= i.len() { l_content_d(d, q, r, cfg, Mse::StopParsing); assert(e_drop(d, q, seq![]) =~= seq![]); } Err(_) => {} } }
pub proof fn l_attrs_none(f: Fun<Str, PR<Ev>>, i: Str)
  requires forall|j: Str| match #[trigger] f(j) { Ok((_, e)) => e is Attr, Err(_) => true }
  ensures match n_many0(f, i) { Ok((_, s)) => e_none(s), Err(_) => true }
  decreases i.len()
{
  match f(i) {
    Ok((r, t)) => if r.len() < i.len() {
      l_attrs_none(f, r);
      match n_many0(f, r) { Ok((_, ts)) => {
        let s = seq![t] + ts;
        assert forall|k: int| 0 <= k < s.len() implies !(#[trigger] s[k] is Decl) && !(s[k] is Pi) by { if k > 0 { assert(s[k] == ts[k - 1]); } }
      } Err(_) => {} }
    }
    Err(_) => {}
  }
}
pub proof fn l_start_tag_d(d: bool, q: bool, i: Str, cfg: Cfg)
  ensures s_ev_start_tag(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_ev_start_tag(i, c_ign(cfg, false, false)))
{
  hide(n_many0); hide(s_expand); hide(s_attr_with); hide(s_name);
  broadcast use l_many0_ext, l_attr_with_ext;
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  assert forall|j: Str| #[trigger] s_ev_attr(j, c2) == s_ev_attr(j, c) by {}
  let f = |j: Str| match s_ev_attr(j, c) { Ok((r, a)) => Ok((skip_ws(r), a)), Err(e) => Err(e) };
  match s_ev_open(i, c) { Err(_) => {} Ok((r, o)) => {
    assert(s_ev_attrs(skip_ws(r), c2) == s_ev_attrs(skip_ws(r), c));
    l_attrs_none(f, skip_ws(r));
  } }
  match s_ev_start_tag(i, c) { Ok((_, e)) => { l_drop_none(d, q, e); } Err(_) => {} }
}
pub broadcast proof fn l_attr_with_ext<T>(f: Fun<(Str, bool), Result<T, NE>>, g: Fun<(Str, bool), Result<T, NE>>, i: Str)
  requires forall|v: (Str, bool)| #[trigger] f(v) == g(v)
  ensures #[trigger] s_attr_with(f, i) == #[trigger] s_attr_with(g, i)
{}
pub proof fn l_drop_decl(d: bool, q: bool, i: Str, cfg: Cfg)
  ensures s_ev_decl(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_ev_decl(i, c_ign(cfg, false, false)))
{
  reveal_with_fuel(e_drop, 2);
  match s_markup_decl(i) { Ok((r, (k, b))) => { let s = seq![Ev::Decl(k, b)]; assert(s.skip(1) =~= seq![]); assert(e_drop(d, q, s) =~= if d { seq![] } else { s }); } Err(_) => {} }
}
pub proof fn l_drop_pi(d: bool, q: bool, i: Str, cfg: Cfg)
  ensures s_ev_pi(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_ev_pi(i, c_ign(cfg, false, false)))
{
  reveal_with_fuel(e_drop, 2);
  match s_pi(i) { Ok((r, k)) => { let s = seq![Ev::Pi(k)]; assert(s.skip(1) =~= seq![]); assert(e_drop(d, q, s) =~= if q { seq![] } else { s }); } Err(_) => {} }
}
pub proof fn l_unit_d(d: bool, q: bool, i: Str, cfg: Cfg, stop: Mse)
  ensures s_content_unit(i, c_ign(cfg, d, q), stop) == pr_drop(d, q, s_content_unit(i, c_ign(cfg, false, false), stop))
  decreases i.len(), 2int
{
  hide(s_ev_start_tag); hide(s_expand); hide(s_pi); hide(s_section_body); hide(s_section_start); hide(s_end_tag); hide(s_comment_decls);
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  l_section_d(d, q, i, cfg);
  l_start_tag_d(d, q, i, cfg);
  l_drop_pi(d, q, i, cfg);
  assert(s_ev_text(i, c2, stop) == s_ev_text(i, c, stop));
  match s_ev_text(i, c, stop) { Ok((_, e)) => { l_drop_none(d, q, e); } Err(_) => {} }
  match s_ev_end_tag(i, c) { Ok((_, e)) => { l_drop_none(d, q, seq![e]); } Err(_) => {} }
  assert(s_content_item(i, c2, stop) == pr_drop(d, q, s_content_item(i, c, stop)));
}
/// `s_content` without its recursion bound.
proof fn l_content_open(i: Str, c: Cfg, stop: Mse)
  ensures s_content(i, c, stop) == pr_flat(n_many1(|j: Str| if j.len() <= i.len() { s_content_unit(j, c, stop) } else { Err(NE::Error) }, i))
{
  hide(n_many1); hide(flatten); hide(n_many0); hide(s_content_item); hide(s_comment_decls);
  broadcast use l_many1_ext;
}
pub proof fn l_content_d(d: bool, q: bool, i: Str, cfg: Cfg, stop: Mse)
  ensures s_content(i, c_ign(cfg, d, q), stop) == pr_drop(d, q, s_content(i, c_ign(cfg, false, false), stop))
  decreases i.len(), 3int
{
  hide(s_content_unit); hide(n_many1); hide(flatten); hide(n_many0); hide(s_content); hide(e_drop);
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  let f = |j: Str| if j.len() <= i.len() { s_content_unit(j, c, stop) } else { Err(NE::Error) };
  let g = |j: Str| if j.len() <= i.len() { s_content_unit(j, c2, stop) } else { Err(NE::Error) };
  assert forall|j: Str| j.len() <= i.len() implies #[trigger] g(j) == pr_drop(d, q, f(j)) by { l_unit_d(d, q, j, cfg, stop); }
  l_many1_drop(d, q, f, g, i);
  l_content_open(i, c, stop); l_content_open(i, c2, stop);
}
proof fn l_prolog_d(d: bool, q: bool, r: Str, cfg: Cfg)
  ensures s_prolog(r, c_ign(cfg, d, q)) == pr_drop(d, q, s_prolog(r, c_ign(cfg, false, false)))
{
  hide(s_section); hide(s_ev_decl); hide(s_ev_pi); hide(s_comments_and_spaces); hide(n_many0); hide(e_drop); hide(flatten);
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  let f = |j: Str| then_comments(match s_ev_decl(j, c) { Err(NE::Error) => match s_section(j, c) { Err(NE::Error) => s_ev_pi(j, c), x => x }, x => x });
  let g = |j: Str| then_comments(match s_ev_decl(j, c2) { Err(NE::Error) => match s_section(j, c2) { Err(NE::Error) => s_ev_pi(j, c2), x => x }, x => x });
  assert forall|j: Str| j.len() <= r.len() implies #[trigger] g(j) == pr_drop(d, q, f(j)) by { l_section_d(d, q, j, cfg); l_drop_decl(d, q, j, cfg); l_drop_pi(d, q, j, cfg); }
  l_many0_drop(d, q, f, g, r);
  assert(s_prolog(r, c) == pr_flat(n_many0(f, r)));
  assert(s_prolog(r, c2) == pr_flat(n_many0(g, r)));
}
pub open spec fn s_epilog(i: Str, cfg: Cfg) -> PR<Seq<Ev>> { pr_flat(n_many0(|j: Str| then_comments(s_ev_pi(j, cfg)), i)) }
proof fn l_epilog_d(d: bool, q: bool, r: Str, cfg: Cfg)
  ensures s_epilog(r, c_ign(cfg, d, q)) == pr_drop(d, q, s_epilog(r, c_ign(cfg, false, false)))
{
  hide(s_ev_pi); hide(s_comments_and_spaces); hide(n_many0); hide(e_drop); hide(flatten);
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  let f3 = |j: Str| then_comments(s_ev_pi(j, c));
  let g3 = |j: Str| then_comments(s_ev_pi(j, c2));
  assert forall|j: Str| j.len() <= r.len() implies #[trigger] g3(j) == pr_drop(d, q, f3(j)) by { l_drop_pi(d, q, j, cfg); }
  l_many0_drop(d, q, f3, g3, r);
  assert(s_epilog(r, c) == pr_flat(n_many0(f3, r)));
  assert(s_epilog(r, c2) == pr_flat(n_many0(g3, r)));
}
/// A document is its prolog, its content and its trailing processing instructions.
proof fn l_document_parts(i: Str, cfg: Cfg)
  ensures s_document(i, cfg) == match s_comments_and_spaces(i) {
        Err(e) => Err(e),
        Ok((r, _)) => match s_prolog(r, cfg) {
            Err(e) => Err(e),
            Ok((r2, decls)) => match s_content(r2, cfg, Mse::TreatAsText) {
                Err(_) => Err(NE::Failure),
                Ok((r3, evs)) => match s_epilog(r3, cfg) {
                    Err(e) => Err(e),
                    Ok((r4, epi)) => if r4.len() == 0 { Ok((r4, decls + evs + epi)) } else { Err(NE::Error) },
                },
            },
        },
    }
{
  hide(s_ev_pi); hide(s_comments_and_spaces); hide(n_many0); hide(flatten); hide(s_content); hide(s_prolog);
}
/// C17: ignoring declarations or processing instructions removes exactly those events and changes
/// neither the other events nor whether the parse succeeds.
pub proof fn t_document_ignore(i: Str, cfg: Cfg, d: bool, q: bool)
  ensures s_document(i, c_ign(cfg, d, q)) == pr_drop(d, q, s_document(i, c_ign(cfg, false, false)))
{
  hide(s_document); hide(s_prolog); hide(s_content); hide(s_epilog); hide(s_comments_and_spaces); hide(e_drop);
  let c = c_ign(cfg, false, false);
  let c2 = c_ign(cfg, d, q);
  l_document_parts(i, c); l_document_parts(i, c2);
  match s_comments_and_spaces(i) { Err(_) => {} Ok((r, _)) => {
    l_prolog_d(d, q, r, cfg);
    match s_prolog(r, c) { Err(_) => {} Ok((r2, decls)) => {
      l_content_d(d, q, r2, cfg, Mse::TreatAsText);
      match s_content(r2, c, Mse::TreatAsText) { Err(_) => {} Ok((r3, evs)) => {
        l_epilog_d(d, q, r3, cfg);
        match s_epilog(r3, c) { Ok((r4, epi)) => { l_drop_cat(d, q, decls + evs, epi); l_drop_cat(d, q, decls, evs); } Err(_) => {} }
      } }
    } }
  } }
}
