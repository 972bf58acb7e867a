//! Contract language, part 4: transforms, rendering, fragments.

// ------------------------------------------------------ Transform::apply

/// Events recorded for insertion at exactly position `p`, in recording order.
pub fn s_ins_at(ins: Seq<(int, Ev)>, p: int) -> Seq<Ev> {
    decreases!(ins.len());
    if ins.len() == 0 { seq![] }
    else if ins[0].0 == p { cat!(seq![ins[0].1], s_ins_at(ins.skip(1), p)) }
    else { s_ins_at(ins.skip(1), p) }
}
/// Smallest recorded position that is at least `p`.
pub fn s_next_pos(ins: Seq<(int, Ev)>, p: int) -> Option<int> {
    decreases!(ins.len());
    if ins.len() == 0 { None } else {
        match s_next_pos(ins.skip(1), p) {
            None => if ins[0].0 >= p { Some(ins[0].0) } else { None },
            Some(m) => if ins[0].0 >= p && ins[0].0 < m { Some(ins[0].0) } else { Some(m) },
        }
    }
}
/// Everything inserted at `p` or later, by position and then recording order.
pub fn s_ins_tail(fuel: int, ins: Seq<(int, Ev)>, p: int) -> Seq<Ev> {
    decreases!(fuel);
    if fuel <= 0 { seq![] } else {
        match s_next_pos(ins, p) {
            None => seq![],
            Some(m) => cat!(s_ins_at(ins, m), s_ins_tail(fuel - 1, ins, m + 1)),
        }
    }
}
pub fn s_has_int(del: Seq<int>, p: int) -> bool {
    decreases!(del.len());
    if del.len() == 0 { false } else { del[0] == p || s_has_int(del.skip(1), p) }
}
pub fn s_apply_from(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>, p: int) -> Seq<Ev> {
    decreases!(evs.len() - p);
    if p < evs.len() && 0 <= p {
        cat!(cat!(s_ins_at(ins, p), if s_has_int(del, p) { seq![] } else { seq![evs[p]] }), s_apply_from(ins, del, evs, p + 1))
    } else { s_ins_tail(ins.len() as int, ins, p) }
}
pub fn s_apply(ins: Seq<(int, Ev)>, del: Seq<int>, evs: Seq<Ev>) -> Seq<Ev> { s_apply_from(ins, del, evs, 0) }

// ----------------------------------------------------- normalize_end_tags

pub enum NetErr { Unpaired(Str), Empty }

/// State of the scan from the end: output for the suffix, end tags not yet paired,
/// and the places (as lengths of the output after them) where an omitted end tag goes.
pub struct Net { pub out: Seq<Ev>, pub stack: Seq<Str>, pub ins: int, pub xml: Option<int> }

pub fn s_blank(i: Str) -> bool { all_chars(p_ws(), i) }
pub fn s_insert(out: Seq<Ev>, k: int, e: Ev) -> Seq<Ev> {
    cat!(cat!(out.take(out.len() - k), seq![e]), out.skip(out.len() - k))
}
pub fn s_net_step(e: Ev, st: Net) -> Result<Net, NetErr> {
    let n = st.out.len() as int;
    match e {
        Ev::Open(name) =>
            if name.len() == 0 { Err(NetErr::Empty) } else {
                match st.xml {
                    Some(k) => Ok(Net { out: cat!(seq![e], s_insert(st.out, k, Ev::End(name))), stack: st.stack, ins: n + 2, xml: None }),
                    None => if st.stack.len() > 0 && st.stack.last() == name {
                        Ok(Net { out: cat!(seq![e], st.out), stack: st.stack.drop_last(), ins: n + 1, xml: None })
                    } else {
                        Ok(Net { out: cat!(seq![e], s_insert(st.out, st.ins, Ev::End(name))), stack: st.stack, ins: n + 2, xml: None })
                    },
                }
            },
        Ev::End(name) =>
            if name.len() == 0 { Err(NetErr::Empty) }
            else { Ok(Net { out: cat!(seq![e], st.out), stack: st.stack.push(name), ins: n + 1, xml: st.xml }) },
        Ev::XmlClose => Ok(Net { out: cat!(seq![Ev::Close], st.out), stack: st.stack, ins: st.ins, xml: Some(n) }),
        Ev::Chars(t) =>
            if st.ins == n && s_blank(t) { Ok(Net { out: cat!(seq![e], st.out), stack: st.stack, ins: n + 1, xml: st.xml }) }
            else { Ok(Net { out: cat!(seq![e], st.out), stack: st.stack, ins: st.ins, xml: st.xml }) },
        _ => Ok(Net { out: cat!(seq![e], st.out), stack: st.stack, ins: st.ins, xml: st.xml }),
    }
}
pub fn s_net(evs: Seq<Ev>) -> Result<Net, NetErr> {
    decreases!(evs.len());
    if evs.len() == 0 { Ok(Net { out: seq![], stack: seq![], ins: 0, xml: None }) }
    else { match s_net(evs.skip(1)) { Err(e) => Err(e), Ok(st) => s_net_step(evs[0], st) } }
}
pub fn s_normalize_end_tags(evs: Seq<Ev>) -> Result<Seq<Ev>, NetErr> {
    match s_net(evs) {
        Err(e) => Err(e),
        Ok(st) => if st.stack.len() > 0 { Err(NetErr::Unpaired(st.stack.last())) } else { Ok(st.out) },
    }
}

// --------------------------------------------------------------- rendering

pub fn s_escape_char(amp: bool, c: char) -> Str {
    if c == '<' { lit!("&#60;") } else if c == '>' { lit!("&#62;") } else if c == '&' && amp { lit!("&#38;") } else { seq![c] }
}
pub fn s_escape(amp: bool, i: Str) -> Str {
    decreases!(i.len());
    if i.len() == 0 { i } else { cat!(s_escape_char(amp, i[0]), s_escape(amp, i.skip(1))) }
}
pub fn s_attr_escape(i: Str) -> Str {
    decreases!(i.len());
    if i.len() == 0 { i } else {
        cat!(if i[0] == '"' { lit!("&#34;") } else if i[0] == '&' { lit!("&#38;") } else { seq![i[0]] }, s_attr_escape(i.skip(1)))
    }
}
pub fn s_show_value(v: Str) -> Str {
    let amp = contains_char(v, '&');
    if !amp && !contains_char(v, '"') { cat!(cat!(lit!("=\""), v), lit!("\"")) }
    else if !amp && !contains_char(v, '\'') { cat!(cat!(lit!("='"), v), lit!("'")) }
    else { cat!(cat!(lit!("=\""), s_attr_escape(v)), lit!("\"")) }
}
pub fn s_show(e: Ev) -> Str {
    match e {
        Ev::Decl(k, b) => cat!(cat!(cat!(lit!("<!"), k), if b.len() == 0 { b } else { cat!(lit!(" "), b) }), lit!(">")),
        Ev::Pi(s) => s,
        Ev::Section(k, c) => cat!(cat!(cat!(cat!(lit!("<!["), k), lit!("[")), c), lit!("]]>")),
        Ev::Open(n) => cat!(lit!("<"), n),
        Ev::Attr(n, None) => n,
        Ev::Attr(n, Some(v)) => cat!(n, s_show_value(v)),
        Ev::Close => lit!(">"),
        Ev::XmlClose => lit!("/>"),
        Ev::End(n) => cat!(cat!(lit!("</"), n), lit!(">")),
        Ev::Chars(t) => s_escape(true, t),
    }
}
pub fn s_show_all(evs: Seq<Ev>) -> Str {
    decreases!(evs.len());
    if evs.len() == 0 { seq![] } else {
        cat!(cat!(match evs[0] { Ev::Attr(_, _) => lit!(" "), _ => lit!("") }, s_show(evs[0])), s_show_all(evs.skip(1)))
    }
}

// ---------------------------------------------------------- well-formedness

/// Start tags are groups Open Attr* (Close | XmlClose); `inside` = within such a group.
pub fn s_wf(inside: bool, evs: Seq<Ev>) -> bool {
    decreases!(evs.len());
    if evs.len() == 0 { !inside } else {
        match evs[0] {
            Ev::Open(_) => !inside && s_wf(true, evs.skip(1)),
            Ev::Attr(_, _) => inside && s_wf(true, evs.skip(1)),
            Ev::Close => inside && s_wf(false, evs.skip(1)),
            Ev::XmlClose => inside && s_wf(false, evs.skip(1)),
            _ => !inside && s_wf(false, evs.skip(1)),
        }
    }
}
/// Every start tag is closed by its own end tag, properly nested (`open` = names still open).
pub fn s_balanced(open: Seq<Str>, evs: Seq<Ev>) -> bool {
    decreases!(evs.len());
    if evs.len() == 0 { open.len() == 0 } else {
        match evs[0] {
            Ev::Open(n) => s_balanced(open.push(n), evs.skip(1)),
            Ev::End(n) => open.len() > 0 && open.last() == n && s_balanced(open.drop_last(), evs.skip(1)),
            Ev::XmlClose => false,
            _ => s_balanced(open, evs.skip(1)),
        }
    }
}

// ------------------------------------------- the merge that `apply` performs

/// Positions are natural numbers (`usize`).
pub fn s_pos_ok(ins: Seq<(int, Ev)>) -> bool {
    decreases!(ins.len());
    if ins.len() == 0 { true } else { ins[0].0 >= 0 && s_pos_ok(ins.skip(1)) }
}
pub fn s_ints_ok(del: Seq<int>) -> bool {
    decreases!(del.len());
    if del.len() == 0 { true } else { del[0] >= 0 && s_ints_ok(del.skip(1)) }
}
/// The pending insertions at exactly `i` moved to the result.
pub fn m_run(ins: Seq<(int, Ev)>, i: int, res: Seq<Ev>) -> (Seq<(int, Ev)>, Seq<Ev>) {
    decreases!(ins.len());
    if ins.len() > 0 && ins[0].0 == i { m_run(ins.skip(1), i, res.push(ins[0].1)) } else { (ins, res) }
}
/// The merge of pending insertions and deletions over the events from `ix` on.
pub fn m_apply(ins: Seq<(int, Ev)>, del: Seq<int>, res: Seq<Ev>, it: Seq<Ev>, ix: int) -> (Seq<(int, Ev)>, Seq<int>, Seq<Ev>) {
    decreases!(it.len() - ix);
    if ix < it.len() && 0 <= ix {
        let s = m_run(ins, ix, res);
        if del.len() > 0 && del[0] == ix { m_apply(s.0, del.skip(1), s.1, it, ix + 1) }
        else { m_apply(s.0, del, s.1.push(it[ix]), it, ix + 1) }
    } else { (ins, del, res) }
}
/// The scan of `normalize_end_tags` over the events before `ix`, from the last to the first.
pub fn m_net(tr: TransformS, stack: Seq<Str>, next: int, xml: Option<int>, it: Seq<Ev>, ix: int) -> Result<(Seq<Ev>, TransformS, Seq<Str>, int, Option<int>), Result<FragS, NetErr>> {
    decreases!(ix);
    if ix <= 0 || ix > it.len() { Ok((it, tr, stack, next, xml)) } else {
        let j = ix - 1;
        match it[j] {
            Ev::Open(name) => if name.len() == 0 { Err(Err(NetErr::Empty)) } else {
                match xml {
                    Some(k) => m_net(TransformS { insertions: tr.insertions.push((k, Ev::End(name))), ..tr }, stack, j, None, it, j),
                    None => if stack.len() > 0 && stack.last() == name { m_net(tr, stack.drop_last(), j, None, it, j) }
                        else { m_net(TransformS { insertions: tr.insertions.push((next, Ev::End(name))), ..tr }, stack, j, None, it, j) },
                }
            },
            Ev::End(name) => if name.len() == 0 { Err(Err(NetErr::Empty)) } else { m_net(tr, stack.push(name), j, xml, it, j) },
            Ev::XmlClose => m_net(tr, stack, next, Some(ix), it.update(j, Ev::Close), j),
            Ev::Chars(t) => m_net(tr, stack, if next == ix && s_blank(t) { j } else { next }, xml, it, j),
            _ => m_net(tr, stack, next, xml, it, j),
        }
    }
}
