//! Deterministic pseudo-random generators of inputs.
use crate::conv::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T { xs[self.n(xs.len())] }
    pub fn small(&mut self) -> usize { [0, 1, 1, 2, 2, 3, 4, 6][self.n(8)] }
}

pub const NAMES: &[&str] = &["a", "b", "B", "Ab", "é", "É", "ǅ", "ß", "ΑΣ", "İ", "x-y", "n.1", "p:q", "a_b", "h1", "ŉ", "中", "a-", "ﬁ", "ω", "A", "xyz", "r", "Z-1", "ª", "ⅷb", "aⅧ"];
pub const WS: &[&str] = &[" ", "\t", "\n", "\r", "\r\n", "  ", " \n\t"];
pub const ODDWS: &[&str] = &["\u{a0}", "\x0C", "\x0B", "\u{2003}", "\u{85}", "\u{2028}", "\u{feff}", "\u{3000}"];
pub const REFS: &[&str] = &["&#38;", "&#60;", "&#x3C;", "&#32;", "&#10;", "&#9731", "&#x1F600;", "&#65;;", "&#065;", "&#x", "&#", "&", "&;", "&&", "& ", "&1;", "&#59;", "&#0;", "&#13;", "&#34;", "&#39;"];
pub const EREFS: &[&str] = &["&lt;", "&amp;", "&foo;", "&empty;", "&ws;", "&é;", "&a;", "&a.b;", "&lt", "&amp;amp;", "&#SPACE;", "&x;", "&nope;", "&#RE", "&tag;", "&quot;", "&nbsp;", "&#xD800;", "&#1114112;", "&#99999999999;", "&A;", "&b-c;", "&long;", "&lt;&gt;"];
pub const ODD: &[&str] = &["<", "<3", "<!", "<! ", "< b", "<<", "<-", "</", "</ a>", "]", "]]", "]]>", "]>", "[", "-->", "--", "-", ">", "/", "/>", "=", "\"", "'", "!", "<!a", "<?", "<![", "?>", "é<", "%", "%C;", ";", "#", "<1", "</3", "<>", "</>", "<\u{301}", "<é", "</é", "<_", "<:", "<!1", "<!é", "<!_"];

pub fn name(r: &mut Rng) -> String { r.pick(NAMES).to_string() }
pub fn ws0(r: &mut Rng) -> String { if r.p(60) { String::new() } else { r.pick(WS).to_string() } }
pub fn ws1(r: &mut Rng) -> String { r.pick(WS).to_string() }
pub fn word(r: &mut Rng) -> String { r.pick(&["x", "foo", "Bar", "é", "中文", "😀", "1", "hello world", "ß", "A.b", "İ", "tail "]).to_string() }

/// Text with references, whitespace at the edges, odd characters.
pub fn text(r: &mut Rng, ent: bool, odd: bool) -> String {
    let mut t = String::new();
    for _ in 0..1 + r.small() {
        match r.n(10) {
            0 | 1 | 2 => t += &word(r),
            3 => t += r.pick(WS),
            4 => t += r.pick(ODDWS),
            5 | 6 => t += r.pick(REFS),
            7 if ent => t += r.pick(EREFS),
            8 if odd => t += r.pick(ODD),
            _ => t += &word(r),
        }
    }
    t
}
pub fn comment(r: &mut Rng) -> String {
    let c = |r: &mut Rng| format!("--{}--", r.pick(&["", "c", " c ", "<a>", "]]>", "<![CDATA[", ">", "&nope;", "- ", "é", "'", "\"", "<!>", "\n"]));
    match r.n(10) {
        0 | 1 => "<!>".into(),
        2 | 3 => { let mut d = format!("<!{}", c(r)); for _ in 0..1 + r.n(4) { d += r.pick(&["", " ", "\n"]); d += &c(r); } d + ">" }
        _ => format!("<!{}>", c(r)),
    }
}
pub fn attr_value(r: &mut Rng, ent: bool) -> String {
    let mut v = String::new();
    for _ in 0..r.small() {
        match r.n(10) {
            0 | 1 => v += &word(r),
            2 => v += r.pick(WS),
            3 => v += r.pick(REFS),
            4 if ent => v += r.pick(EREFS),
            5 => v += r.pick(&["<", ">", "/", "=", "'", "\"", "]]>", "<b>", "<!--", "--", "/>", "'\"", "\u{a0}", ";"]),
            _ => v += &word(r),
        }
    }
    v
}
pub fn attr(r: &mut Rng, ent: bool) -> String {
    let n = name(r);
    match r.n(8) {
        0 | 1 => n,
        2 | 3 => { let v = attr_value(r, ent).replace('"', ""); format!("{}{}={}\"{}\"", n, ws0(r), ws0(r), v) }
        4 => { let v = attr_value(r, ent).replace('\'', ""); format!("{}{}={}'{}'", n, ws0(r), ws0(r), v) }
        5 => format!("{}={}", n, r.pick(&["x", "1", "a=b", "x/", "/", "&amp;", "&#65;", "é", "a,b", "<", "[", "x/y", "&nope;", "-", "http://x/?a=b", "\u{a0}", "\x0C", "x</b", "&lt;x", "%"])),
        6 => { let v = attr_value(r, ent).replace(&['"', '\'', '>', ' ', '\t', '\r', '\n'][..], ""); if v.is_empty() { n } else { format!("{}{}={}{}", n, ws0(r), ws0(r), v) } }
        _ => format!("{}={}", n, r.pick(&["\"\"", "''", "\"'\"", "'\"'", "\" x \"", "'&#38;amp;'", "\"&#34;\"", "'\n'"])),
    }
}
pub fn start_tag(r: &mut Rng, ent: bool) -> String {
    if r.p(4) { return "<>".into(); }
    let mut t = format!("<{}", name(r));
    let n = r.small().min(4);
    for _ in 0..n { t += &if r.p(92) { ws1(r) } else { ws0(r) }; t += &attr(r, ent); }
    t += &ws0(r);
    t += if r.p(12) { "/>" } else { ">" };
    t
}
pub fn end_tag(r: &mut Rng) -> String { if r.p(6) { "</>".into() } else { format!("</{}{}>", name(r), ws0(r)) } }
pub fn pi(r: &mut Rng) -> String { format!("<?{}>", r.pick(&["pi", "", "xml version='1.0'?", "é", "a <b", "--", " ]]", "P Q", "&nope;"])) }
pub fn decl(r: &mut Rng) -> String {
    let n = r.pick(&["DOCTYPE", "ENTITY", "x", "É", "Element"]);
    let b = r.pick(&["", " html", " a 'b>c' ", " a [<!ENTITY x \"y\">]", " -- c -- z", " - o -", " PUBLIC \"-//W3C//DTD\" 'x'  ", " x [ ]", " x [<!A [<!-- c -->]>]", "\n k \t", " a-b", " q [ 'a' -- b ] -- c ]", " é", " [<!x>]", " a[b]c", " '' \"\""]);
    format!("<!{}{}>", n, b)
}
pub const KWS: &[&str] = &["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "cdata", "RcData", "Ignore", "include", "temp", "CDAT", "CDATAX", "", "İGNORE", "K", "RCDATA ", "%C;", "%INC;", "%I;", "%R;", "%two;", "%none;", "%bad;", "%nope;"];
pub fn keywords(r: &mut Rng, msh: u8, pent: bool) -> String {
    let n = if msh == 1 { if r.p(85) { 1 } else { r.n(3) } } else { [1, 1, 1, 0, 2, 2, 3][r.n(7)] };
    let mut k = String::new();
    for i in 0..n {
        if i > 0 { k += r.pick(&[" ", " ", "\t", "\n", "  ", "\x0C", "\u{a0}"]); }
        k += match r.n(12) {
            0..=6 => if msh == 1 { r.pick(&["CDATA", "RCDATA", "cdata", "RCdata"]) } else { r.pick(&["CDATA", "RCDATA", "IGNORE", "INCLUDE", "TEMP", "include", "Ignore"]) },
            7..=9 if pent => r.pick(&["%C;", "%INC;", "%I;", "%R;", "%two;", "%none;", "%C"]),
            _ => if r.p(40) { r.pick(KWS) } else { r.pick(&KWS[..10]) },
        };
    }
    let a = ws0(r);
    let b = ws0(r);
    if r.p(8) { k = format!("{}{}", k, r.pick(&["\u{a0}", "\x0C", ";"])); }
    format!("{}{}{}", a, k, b)
}
pub fn section(r: &mut Rng, c: &Conf, depth: usize) -> String {
    let kw = keywords(r, c.msh, c.pent);
    let mut b = String::new();
    let up = kw.to_uppercase();
    if (up.contains("INC") || up.contains("TEMP") || up.trim().is_empty()) && r.p(85) {
        b = content(r, c, depth + 1, true);
    } else {
        for _ in 0..r.small() {
            b += &match r.n(12) {
                0 | 1 => text(r, c.ent, true),
                2 => "]]".to_string(),
                3 => "]]]>".to_string(),
                4 => "<![".to_string(),
                5 => "]]>".to_string(),
                6 => format!("<![IGNORE[{}]]>", word(r)),
                7 => "<!-- ]]> -->".to_string(),
                8 => "<a b=\"]]>\">".to_string(),
                9 => "> ]".to_string(),
                10 => "<![x[ <![".to_string(),
                _ => start_tag(r, c.ent),
            };
        }
    }
    format!("<![{}[{}]]>", kw, b)
}
pub fn content(r: &mut Rng, c: &Conf, depth: usize, inner: bool) -> String {
    let mut out = String::new();
    let n = if depth == 0 { 1 + r.n(6) } else { r.small() };
    for _ in 0..n {
        out += &match r.n(14) {
            0 | 1 | 2 => text(r, c.ent, true),
            3 | 4 | 5 => start_tag(r, c.ent),
            6 | 7 => end_tag(r),
            8 => comment(r),
            9 => pi(r),
            10 | 11 if depth < 3 => section(r, c, depth),
            12 if inner => ws1(r),
            12 => ws1(r),
            _ => word(r),
        };
    }
    out
}
pub fn conf(r: &mut Rng) -> Conf {
    Conf { trim: r.p(50), norm: [0, 0, 1, 2][r.n(4)], msh: [0, 1, 1, 2, 2, 2][r.n(6)], igd: r.p(20), igp: r.p(20), ent: r.p(60), pent: r.p(60) }
}
pub fn prolog(r: &mut Rng, c: &Conf) -> String {
    let mut d = ws0(r);
    if r.p(50) {
        for _ in 0..r.n(3) {
            d += &match r.n(5) { 0 => comment(r), 1 => pi(r), 2 if r.p(30) => section(r, c, 1), _ => decl(r) };
            d += &ws0(r);
        }
    }
    d
}
pub fn doc(r: &mut Rng, c: &Conf) -> String {
    let mut d = prolog(r, c);
    d += &content(r, c, 0, false);
    mutate(r, d, 15)
}
pub fn mutate(r: &mut Rng, d: String, pct: usize) -> String {
    if !r.p(pct) { return d; }
    let mut cs: Vec<char> = d.chars().collect();
    for _ in 0..1 + r.n(2) {
        if cs.is_empty() { break; }
        let i = r.n(cs.len());
        match r.n(5) {
            0 => { cs.remove(i); }
            1 => { let c = cs[r.n(cs.len())]; cs.insert(i, c); }
            2 => { cs.truncate(i); }
            3 => { let t: Vec<char> = r.pick(ODD).chars().collect(); for (k, c) in t.into_iter().enumerate() { cs.insert(i + k, c); } }
            _ => { let j = r.n(cs.len()); cs.swap(i, j); }
        }
    }
    cs.into_iter().collect()
}
/// The `n`-th string over `alphabet` in length order (exhaustive enumeration).
pub fn nth(alphabet: &[&str], mut n: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    let mut block = 1u64;
    while n >= block { n -= block; block *= k; len += 1; }
    let mut v = vec![];
    for _ in 0..len { v.push(alphabet[(n % k) as usize]); n /= k; }
    v.concat()
}
pub fn upto(alphabet: &[&str], len: u32) -> u64 { (0..=len).map(|l| (alphabet.len() as u64).pow(l)).sum() }

/// A list of events with well-formed start tags, names from a tiny alphabet.
pub fn events(r: &mut Rng, names: &[&str]) -> Vec<HEv> {
    let mut v = vec![];
    for _ in 0..r.n(9) {
        match r.n(12) {
            0..=4 => {
                v.push(Open(r.pick(names).to_string()));
                for _ in 0..[0, 0, 1, 2][r.n(4)] { v.push(Attr(r.pick(names).to_string(), if r.p(50) { Some(r.pick(names).to_string()) } else { None })); }
                v.push(if r.p(20) { XmlClose } else { Close });
            }
            5..=7 => v.push(End(r.pick(names).to_string())),
            8 | 9 => v.push(Chars(r.pick(&["x", " ", "", "\n", " y ", "\u{a0}"]).to_string())),
            10 => v.push(Pi("<?p>".into())),
            _ => v.push(match r.n(3) { 0 => Decl("D".into(), "e".into()), 1 => Section("CDATA".into(), "z".into()), _ => Chars("t".into()) }),
        }
    }
    v
}
/// A tree of elements with some end tags omitted.
pub fn tree(r: &mut Rng, names: &[&str], depth: usize, omit: usize) -> Vec<HEv> {
    let mut v = vec![];
    for _ in 0..r.small().min(4) {
        match r.n(6) {
            0 | 1 => v.push(Chars(r.pick(&["x", " ", "y", "", "\n\t"]).to_string())),
            2 if r.p(30) => v.push(Pi("<?p>".into())),
            _ if depth < 4 => {
                let n = r.pick(names).to_string();
                v.push(Open(n.clone()));
                for _ in 0..[0, 0, 1, 2][r.n(4)] { v.push(Attr(r.pick(names).to_string(), None)); }
                if r.p(12) { v.push(XmlClose); continue; }
                v.push(Close);
                let inner = tree(r, names, depth + 1, omit);
                let leaf = inner.iter().all(|e| matches!(e, Chars(_) | Pi(_)));
                v.extend(inner);
                if !(leaf && r.p(omit)) && !r.p(omit / 12) { v.push(End(n)); }
            }
            _ => v.push(Chars("q".into())),
        }
    }
    v
}
