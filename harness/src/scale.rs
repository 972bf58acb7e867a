//! Cases of growing size, around the borders of small counters and buffers.
use crate::conv::HEv::*;
use crate::conv::*;
use crate::props::Case;
use crate::shape::{num, Shape};
use crate::stages::Stage;

const SIZES: &[usize] = &[8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 80, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600];
const LARGE: &[usize] = &[999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
const HUGE: &[usize] = &[65534, 65535, 65536, 65537];

fn conf(trim: bool, norm: u8, msh: u8) -> Conf { Conf { trim, norm, msh, igd: false, igp: false, ent: true, pent: true } }
fn run(v: Vec<(usize, Vec<Case>)>) -> Vec<Case> { let mut v = v; v.sort_by_key(|x| x.0); v.into_iter().flat_map(|x| x.1).collect() }

fn nest(n: usize, inner: Vec<HEv>) -> Vec<HEv> {
    let nm = |i: usize| ["a", "b", "c"][i % 3].to_string();
    let mut v = vec![];
    for i in 0..n { v.push(Open(nm(i))); v.push(Close); }
    v.extend(inner);
    for i in (0..n).rev() { v.push(End(nm(i))); }
    v
}
fn of(prop: &'static str, n: usize) -> Vec<Case> {
    let c = conf(n % 2 == 1, 0, 2);
    let rep = |s: &str| s.repeat(n);
    let num_rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let docs = |v: Vec<String>| -> Vec<Case> { v.into_iter().map(|d| Case::new(prop, "focus").conf(c.clone()).inp(d)).collect() };
    let flat = n > 600;
    let huge = n > 5000;
    match prop {
        "C01" => docs(if huge { vec![format!("<{}>", rep("é"))] } else { vec![rep("<a>"), rep("</a>"), format!("<{}>x</{}>", rep("é"), rep("ab")), rep("<a b/>"), format!("<a {}/>", rep(" ")), format!("<a{}>", num_rep(&|i| format!(" a{}", i)))] }),
        "C02" => docs(if huge { vec![format!("<a>{}", rep("é"))] } else { vec![rep("é"), rep("x<b>"), format!("<a>{}", rep("< ")), format!("<a>{}", rep("]")), format!("<a><![INCLUDE[{}]]>", rep("]] ")), format!("<a>{}", rep("\n"))] }),
        "C03" => if huge { docs(vec![format!("<a><![CDATA[{}]]>", rep("]"))]) } else {
            let mut v = vec![format!("<a><![CDATA[{}]]>x", rep("]")), format!("<a><![RCDATA[{}]]>x", rep("&lt;")), format!("<a>{}", rep("<![CDATA[x]]>")), format!("<a><![IGNORE[{}]]>z", rep("<![]]>"))];
            if !flat { v.push(format!("<a><![IGNORE[{}x{}]]>z]]>", rep("<!["), rep("]]>"))); v.push(format!("<a><![IGNORE[{}x{}]]>z", rep("<![CDATA["), rep("]]>"))); }
            if n <= 130 { v.push(format!("<a>{}x{}]]>", rep("<![INCLUDE["), rep("]]>"))); }
            let mut w = docs(v.clone());
            let k = conf(false, 0, 0);
            w.extend(v.into_iter().map(|d| Case::new(prop, "focus").conf(k.clone()).inp(d)));
            w
        },
        "C04" => if huge { vec![] } else { [rep("cdata "), format!("{}ignore", rep("TEMP ")), format!("{}x", rep("temp ")), format!("{}x{}", rep("temp "), rep(" cdata")), format!("temp{}cdata", rep(" ")), rep("é")].into_iter().map(|d| Case::new(prop, "kw").inp(d)).collect() },
        "C05" | "C06" => {
            let k = |kind: &str, d: String| Case::new(prop, kind).conf(conf(true, 0, 1)).inp(d);
            if huge { return vec![k("exp", format!("{}&lt;", rep("é")))]; }
            vec![k("exp", rep("&lt;")), k("exp", rep("&lt")), k("exp", format!("{}&nope;", rep("é"))), k("exp", format!("&lt;{}&gt;", rep("x"))), k("exp", rep("&")), k("exp", format!("&{};", rep("a"))), k("pexp", rep("%C;")), k("chars", rep("&#60;")), k("chars", format!("&#{}65;", rep("0"))), k("chars", format!("&#x{}41;", rep("0"))), k("exp", format!("&#{};", rep("9"))), k("exp", rep("&#xe9;"))]
        }
        "C07" => if n > 1100 { vec![] } else { [rep("<"), rep("é"), rep("&"), rep("x>"), rep("&#60;")].into_iter().map(|d| Case::new(prop, "esc").inp(d)).collect() },
        "C08" => docs(if huge { vec![format!("<r b={}>", rep("x")), format!("<r b='{}'>", rep("x"))] } else { vec![format!("<r{}>", rep(" b=c")), format!("<r{}>", rep(" b='c'")), format!("<r{}>", rep(" b")), format!("<r b='{}' c>", rep("é")), format!("<r b={} c>", rep("é")), format!("<r b=\"{}\" c>", rep("&lt;")), format!("<r b={}'x'>", rep(" ")), format!("<r b=\"{}\">", rep("'")), format!("<r {}=x>", rep("n"))] }),
        "C09" => if huge { vec![] } else { [rep("\""), rep("é"), rep("&"), rep("'\"")].into_iter().map(|d| Case::new(prop, "a").evs(vec![Attr("n".into(), Some(d))])).collect() },
        "C10" => { let c = conf(true, 0, 2); let w = format!("{}x{}", rep(" "), rep("\n")); vec![format!("<r>{}</r>", w), format!("<r>{}</r>", rep(" \t")), format!("<r><![CDATA[{}]]>", w), format!("<r><![RCDATA[{}]]>", w), format!("<r b='{}'>", w)].into_iter().map(|d| Case::new(prop, "focus").conf(c.clone()).inp(d)).collect() }
        "C11" => { let mut v: Vec<Case> = vec![Case::new(prop, "norm").inp(rep("É")), Case::new(prop, "norm").inp(rep("aB"))]; if !huge { for m in 1..3 { v.push(Case::new(prop, "focus").conf(conf(false, m, 2)).inp(format!("{}x{}", rep("<aB>"), rep("</Ab>")))); v.push(Case::new(prop, "focus").conf(conf(false, m, 2)).inp(format!("<{} {}=X></{}>", rep("aB"), rep("Cd"), rep("Éx")))); } } v }
        "C12" => {
            if n > 1100 { return vec![]; }
            let nm = |i: usize| ["a", "b", "c"][i % 3].to_string();
            let open = || (0..n).flat_map(|i| [Open(nm(i)), Close]).collect::<Vec<_>>();
            let mut half = open(); for i in (0..n).rev() { if i % 2 == 0 { half.push(End(nm(i))); } }
            let k = |v: Vec<HEv>| Case::new(prop, "net").evs(v);
            let mut xml = vec![]; for i in 0..n { xml.push(Open(nm(i))); xml.push(XmlClose); }
            let mut text = vec![]; for i in 0..n { text.push(Open(nm(i))); text.push(Close); text.push(Chars("x".into())); text.push(Chars(" ".into())); }
            let mut long = vec![Open("a".into()), Close]; for _ in 0..n { long.push(Chars(" ".into())); } long.push(Open("b".into())); long.push(Close);
            let mut over = open(); for i in (0..n + 1).rev() { over.push(End(nm(i))); }
            let mut at = vec![Open("a".into())]; for i in 0..n { at.push(Attr(nm(i), None)); } at.push(XmlClose);
            vec![k(open()), k(half), k(nest(n, vec![Chars("x".into())])), k(xml), k(text), k(long), k(over), k(at)]
        }
        "C13" => {
            if n > 1100 { return vec![]; }
            let evs: Vec<HEv> = (0..n).map(|i| Chars(format!("e{}", i))).collect();
            let k = |ops: Vec<(i64, i64, Option<HEv>)>| { let mut c = Case::new(prop, "t").evs(evs.clone()); c.ops = ops; c };
            let m = n as i64;
            let ins = |p: i64, q: i64| (0, p, Some(Chars(format!("+{}", q))));
            vec![k((0..m).map(|i| (1, i, None)).collect()), k((0..m).map(|i| ins(i, i)).collect()), k((0..m).rev().map(|i| ins(i, i)).collect()), k((0..m).map(|i| ins(1, i)).collect()), k((0..m).map(|_| (1, 1, None)).collect()), k((0..m).map(|i| if i % 2 == 0 { ins(m - i, i) } else { (1, i, None) }).collect()), k(vec![ins(m, 0), ins(m - 1, 1), (1, m - 1, None)])]
        }
        "C14" => {
            let mut v = vec![];
            let p = |d: String| Case::new(prop, "parse").conf(c.clone()).inp(d);
            v.push(p(format!("<a>{}<b c='", rep("\n")))); v.push(p(format!("<a>{}<b c='", rep("x")))); v.push(p(format!("<a>{}<b c='{}", rep("é"), rep("中"))));
            if !huge { v.push(p(format!("<a {}='", rep("x ")))); v.push(p(format!("{}<b", rep("<a>\r\n")))); v.push(p(format!("<a b='{}", rep("\nx"))));
                let mut l = Case::new(prop, "loc").inp(format!("{}{}", rep("ab\n"), rep("é"))); let m = n as i64; l.ops = vec![(4 * m - 1, 0, None), (3 * m, 0, None), (1, 0, None), (m, 0, None)]; v.push(l);
                let mut l = Case::new(prop, "loc").inp("x".repeat(50)); l.ops = (0..n).map(|i| (i as i64 % 50, 0, None)).collect(); v.push(l); }
            v
        }
        "C15" | "C16" => {
            use Shape::*;
            if flat { return vec![]; }
            let k = |evs: Vec<HEv>, s: Shape| { let mut c = Case::new(prop, "de").evs(evs); c.shape = Some(s); c };
            let wrap = |v: Vec<HEv>| { let mut w = vec![Open("r".into()), Close]; w.extend(v); w.push(End("r".into())); w };
            let deep = nest(n, vec![Chars("x".into())]);
            let mut two = deep.clone(); two.extend(vec![Open("z".into()), Close, Chars("y".into()), End("z".into())]);
            let mut sl = vec![]; for i in 0..n { sl.extend(vec![Open("a".into()), Close, Chars(i.to_string()), End("a".into())]); }
            sl.extend(vec![Open("z".into()), Close, End("z".into())]);
            let txt: Vec<HEv> = (0..n).map(|i| Chars(i.to_string())).collect();
            let mut atts = vec![Open("r".into())]; for i in 0..n { atts.push(Attr(format!("k{}", i), Some(i.to_string()))); } atts.push(Attr("z".into(), Some("q".into()))); atts.push(Close); atts.push(End("r".into()));
            let z = || Struct(vec![("z".into(), Str)]);
            let za = || Struct(vec![("a".into(), Seq(Box::new(Str))), ("z".into(), Opt(Box::new(Str)))]);
            let mut v = vec![k(deep.clone(), Str), k(wrap(two.clone()), z()), k(wrap(sl.clone()), za()), k(wrap(sl), Struct(vec![("z".into(), Str)])), k(wrap(txt.clone()), Str), k(wrap(txt), Struct(vec![("$value".into(), Str)])), k(atts.clone(), z()), k(atts, Map(Box::new(Str))), k(wrap(vec![Chars("é".repeat(n))]), Str)];
            if prop == "C15" { v.push(k(deep, Unit)); v.push(k(wrap(two), Map(Box::new(Ignored)))); }
            v
        }
        "C18" => docs(if huge { vec![format!("<a><!--{}--><b>", rep("é"))] } else { vec![format!("<a>{}<b>", rep("<!--c-->")), format!("<a><!{}><b>", rep("--c-- ")), format!("<a><!{}><b>", rep("--c--")), format!("{}<b>", rep("<!--c--> ")), format!("<a><!--{}--><b>", rep("- ")), format!("<a><!--{}--><b>", rep("é")), format!("<a><!--x--{}--y--><b>", rep(" ")), format!("<a>{}<b>", rep("<!>")), format!("<a><!{}-<b>", rep("--c--"))] }),
        "C19" => { let mut v = vec![]; for i in 0..n { v.push(if i % 2 == 0 { Open("a".into()) } else { Attr("b".into(), Some("".into())) }); } vec![Case::new(prop, "own").evs(v), Case::new(prop, "own").evs(vec![Chars(rep("é")), Pi(rep("p")), Decl(rep("d"), rep("e")), Section(rep("s"), rep("t")), End(rep("n")), Attr(rep("a"), Some(rep("b")))])] }
        "C20" => {
            let mut v = vec![];
            if n > 600 { return v; }
            for s in ["u8", "i64", "u64", "f64", "i8"] { for d in [format!("{}7", rep("0")), rep("9"), format!("7{}", rep(" ")), format!("-{}1", rep("0"))] { let mut c = Case::new(prop, "de").evs(vec![Open("n".into()), Close, Chars(d), End("n".into())]); c.shape = Some(num(s)); v.push(c); } }
            v
        }
        "C21" => {
            if flat { return vec![]; }
            let d = vec![rep("<a>"), format!("<a{}>", num_rep(&|i| format!(" a{}='{}\"'", i, i))), format!("<a>{}", rep("&lt;x")), format!("<a b='{}'>", rep("é\"")), rep("<a>x</a>"), format!("<a><?{}>", rep("p"))];
            d.into_iter().map(|d| Case::new(prop, "doc").conf(Conf::default()).inp(d)).collect()
        }
        "C17" => if flat { vec![] } else { let mut k = Case::new(prop, "ignore").inp(format!("{}<r>{}</r>", rep("<!D d>"), rep("<?p>"))); k.conf = c.clone(); vec![k] },
        _ => vec![],
    }
}
pub fn scale(prop: &'static str, thorough: bool) -> Stage {
    let mut v: Vec<(usize, Vec<Case>)> = SIZES.iter().map(|n| (*n, of(prop, *n))).collect();
    v.extend(LARGE.iter().filter(|n| thorough || [1000, 1024, 1025, 4096, 4097].contains(*n)).map(|n| (*n, of(prop, *n))));
    v.extend(HUGE.iter().filter(|n| thorough || **n > 65535).map(|n| (*n, of(prop, *n))));
    let v = run(v);
    Stage { name: "growing sizes", exhaustive: true, count: v.len() as u64, make: Box::new(move |i, _| v[i as usize].clone()) }
}
