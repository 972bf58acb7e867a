#![allow(warnings)]
mod sq;
mod contracts { use super::sq; pub use super::sq::*; include!(concat!(env!("VERIF_GEN"), "/spec_exec.rs")); }
mod conv;
mod gen;
mod library;
mod props;
mod scale;
mod shape;
mod stages;
use props::Case;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn judge(c: &Case) -> props::Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::judge(c))) {
        Ok(v) => v,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
fn smaller(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let cs: Vec<char> = c.input.chars().collect();
    for w in [cs.len() / 2, cs.len() / 4, 3, 2, 1] {
        if w == 0 { continue; }
        let mut i = 0;
        while i + w <= cs.len() { let mut d = c.clone(); d.input = cs[..i].iter().chain(&cs[i + w..]).collect(); out.push(d); i += w.max(1); }
    }
    for i in 0..c.evs.len() { let mut d = c.clone(); d.evs.remove(i); out.push(d); }
    for i in 0..c.evs.len() {
        for j in i + 1..c.evs.len().min(i + 8) { let mut d = c.clone(); d.evs.drain(i..=j); out.push(d); let mut d = c.clone(); d.evs.remove(j); d.evs.remove(i); out.push(d); }
    }
    for i in 0..c.ops.len() { let mut d = c.clone(); d.ops.remove(i); out.push(d); }
    for i in 0..c.parts.len() { if !c.parts[i].is_empty() { let mut d = c.clone(); d.parts[i].clear(); out.push(d); } }
    if let Some(shape::Shape::Struct(f)) = &c.shape { for i in 0..f.len() { let mut d = c.clone(); let mut g = f.clone(); g.remove(i); d.shape = Some(shape::Shape::Struct(g)); out.push(d); } }
    let dc = conv::Conf::default();
    if c.conf != dc { let mut d = c.clone(); d.conf = dc.clone(); out.push(d); let mut d = c.clone(); d.conf = conv::Conf { msh: c.conf.msh, trim: c.conf.trim, ..dc }; out.push(d); }
    out
}
fn shrink(mut c: Case, mut msg: String) -> (Case, String) {
    let t = Instant::now();
    'o: loop {
        for d in smaller(&c) {
            if t.elapsed() > Duration::from_secs(20) { break 'o; }
            if matches!(c.kind.as_str(), "code") || (c.kind == "loc" && d.ops.is_empty()) { continue; }
            if let Err(m) = judge(&d) { c = d; msg = m; continue 'o; }
        }
        break;
    }
    (c, msg)
}
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> { std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap() }

// ---- memory guard: a case that makes the crate allocate without end is reported, not suffered
struct Guard;
static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const ROOM: usize = 6 << 30;
unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 4096 && USED.fetch_add(l.size(), SeqCst) > ROOM { std::process::abort(); }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { if l.size() >= 4096 { USED.fetch_sub(l.size(), SeqCst); } std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.size() >= 4096 { USED.fetch_sub(l.size(), SeqCst); }
        if n >= 4096 && USED.fetch_add(n, SeqCst) > ROOM { std::process::abort(); }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Guard = Guard;

const PATIENCE: Duration = Duration::from_secs(30);

fn case_of(stages: &[stages::Stage], seed: u64, si: usize, i: u64) -> Case {
    let mut r = gen::Rng(seed ^ ((si as u64) << 56) ^ i.wrapping_mul(0xD1342543DE82EF95));
    r.next();
    (stages[si].make)(i, &mut r)
}

/// What judging the case does in a process of its own: None if it returns a verdict that is fine.
fn apart(c: &Case, file: &str) -> Option<String> {
    std::fs::write(file, serde_json::json!({"case": c}).to_string()).unwrap();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(file).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match st.code() { Some(0) => None, Some(1) => Some("see replay".into()), Some(3) => Some(format!("did not return within {} s", PATIENCE.as_secs())), Some(n) => Some(format!("ended the process with {}", n)), None => Some("crashed the process (stack overflow, abort or running out of memory)".into()) };
        }
        if t.elapsed() > PATIENCE * 2 { ch.kill().ok(); ch.wait().ok(); return Some(format!("did not return within {} s", PATIENCE.as_secs())); }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // search PROP SEED TIER SECONDS OUT: runs the search in a process of its own and takes over when that dies
        "search" => {
            std::fs::remove_file(&a[6]).ok();
            let slots = format!("{}.slots", a[6]);
            std::fs::write(&slots, vec![0xffu8; 128]).unwrap();
            let t0 = Instant::now();
            let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
            cmd.arg("search-inner").args(&a[2..]).stderr(std::process::Stdio::null());
            let mut ch = cmd.spawn().unwrap();
            let limit = Duration::from_secs_f64(a[5].parse::<f64>().unwrap() + 75.0);
            let code = loop {
                if let Some(st) = ch.try_wait().unwrap() { break st.code(); }
                if t0.elapsed() > limit { ch.kill().ok(); ch.wait().ok(); break None; }
                std::thread::sleep(Duration::from_millis(20));
            };
            if matches!(code, Some(0) | Some(1)) || (std::path::Path::new(&a[6]).exists()) { std::fs::remove_file(&slots).ok(); let bad = std::fs::read_to_string(&a[6]).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()).map_or(true, |v| !v["violation"].is_null()); std::process::exit(if bad { 1 } else { 0 }); }
            let stages = stages::stages(&a[2], a[4] == "thorough");
            let seed: u64 = a[3].parse().unwrap();
            let b = std::fs::read(&slots).unwrap();
            let mut viol = serde_json::Value::Null;
            for w in 0..8 {
                let rd = |k: usize| u64::from_le_bytes(b[k..k + 8].try_into().unwrap());
                let (si, i) = (rd(w * 16), rd(w * 16 + 8));
                if si == u64::MAX { continue; }
                let mut c = case_of(&stages, seed, si as usize, i);
                if let Some(mut m) = apart(&c, &slots) {
                    if !m.starts_with("did not") {
                        let t = Instant::now();
                        'o: while t.elapsed() < Duration::from_secs(30) {
                            for d in smaller(&c) { if t.elapsed() > Duration::from_secs(30) { break 'o; } if let Some(k) = apart(&d, &slots) { if k == m { c = d; continue 'o; } } }
                            break;
                        }
                    }
                    viol = serde_json::json!({"case": c, "what": m});
                    break;
                }
            }
            std::fs::remove_file(&slots).ok();
            let bad = !viol.is_null();
            let out = serde_json::json!({"property": a[2], "evaluations": 0, "distinct_nontrivial": 0, "stages": [], "samples": [], "violation": viol, "died": format!("{:?}", code), "wall_s": t0.elapsed().as_secs_f64()});
            std::fs::write(&a[6], serde_json::to_string_pretty(&out).unwrap()).unwrap();
            std::process::exit(if bad { 1 } else { 0 });
        }
        "search-inner" => {
            let (prop, seed, thorough, secs) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4] == "thorough", a[5].parse::<f64>().unwrap());
            let t0 = Instant::now();
            let slots = Arc::new(std::fs::OpenOptions::new().write(true).open(format!("{}.slots", a[6])).unwrap());
            let busy: Arc<Vec<AtomicU64>> = Arc::new((0..9).map(|_| AtomicU64::new(0)).collect());
            let watched = busy.clone();
            // a case that runs on and on: leave it to the parent process
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = t0.elapsed().as_millis() as u64;
                for b in watched.iter() { let s = b.load(SeqCst); if s > 0 && now > s + PATIENCE.as_millis() as u64 { std::process::exit(77); } }
            });
            let stages = Arc::new(stages::stages(&prop, thorough));
            let found: Arc<Mutex<Option<(usize, u64, Case, String)>>> = Default::default();
            let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
            let samples: Arc<Mutex<Vec<serde_json::Value>>> = Default::default();
            let mut rep = vec![];
            let mut evals = 0u64;
            let n = stages.len();
            for si in 0..n {
                let share = (secs - t0.elapsed().as_secs_f64()) / (n - si) as f64;
                let until = Instant::now() + Duration::from_secs_f64(share.max(1.0));
                let next = Arc::new(AtomicU64::new(0));
                let done = Arc::new(AtomicU64::new(0));
                let stop = Arc::new(AtomicBool::new(false));
                let hs: Vec<_> = (0..8usize).map(|w| {
                    let (stages, next, done, stop, found, seen, samples, busy, slots) = (stages.clone(), next.clone(), done.clone(), stop.clone(), found.clone(), seen.clone(), samples.clone(), busy.clone(), slots.clone());
                    let (slow, prop2) = (std::env::var("SLOW").is_ok(), prop.clone());
                    big(move || {
                        use std::os::unix::fs::FileExt;
                        let st = &stages[si];
                        let mut mine: HashSet<u64> = HashSet::new();
                        'w: loop {
                            let step = (st.count / 256).clamp(1, 64);
                            let lo = next.fetch_add(step, SeqCst);
                            if lo >= st.count || stop.load(SeqCst) { break; }
                            for i in lo..(lo + step).min(st.count) {
                                if Instant::now() > until { stop.store(true, SeqCst); break 'w; }
                                let c = case_of(&stages, seed, si, i);
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                slots.write_at(&b, w as u64 * 16).unwrap();
                                busy[w].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                let v = judge(&c);
                                if slow { let ms = t0.elapsed().as_millis() as u64 + 1 - busy[w].load(SeqCst); if ms > 400 { eprintln!("{} {} {} {} ms {:.80}", prop2, st.name, i, ms, c.input); } }
                                busy[w].store(0, SeqCst);
                                done.fetch_add(1, SeqCst);
                                match v {
                                    Ok(true) => { let mut h = std::collections::hash_map::DefaultHasher::new(); c.hash(&mut h); mine.insert(h.finish()); if i % 997 == 5 { let mut s = samples.lock().unwrap(); if s.len() < 3 * (si + 1) { s.push(serde_json::to_value(&c).unwrap()); } } }
                                    Ok(false) => {}
                                    Err(m) => { let mut f = found.lock().unwrap(); if f.as_ref().map_or(true, |x| (x.0, x.1) > (si, i)) { *f = Some((si, i, c, m)); } stop.store(true, SeqCst); break 'w; }
                                }
                            }
                        }
                        slots.write_at(&[0xff; 16], w as u64 * 16).unwrap();
                        seen.lock().unwrap().extend(mine);
                    })
                }).collect();
                for h in hs { h.join().unwrap(); }
                let d = done.load(SeqCst);
                evals += d;
                rep.push(serde_json::json!({"stage": stages[si].name, "planned": stages[si].count, "done": d, "exhaustive": stages[si].exhaustive && d == stages[si].count}));
                if found.lock().unwrap().is_some() { break; }
            }
            let f = found.lock().unwrap().take();
            let distinct = seen.lock().unwrap().len();
            let put = |viol: Option<serde_json::Value>| {
                let out = serde_json::json!({"property": prop, "evaluations": evals, "distinct_nontrivial": distinct, "stages": rep, "samples": *samples.lock().unwrap(), "violation": viol, "wall_s": t0.elapsed().as_secs_f64()});
                std::fs::write(&a[6], serde_json::to_string_pretty(&out).unwrap()).unwrap();
            };
            let Some((_, _, c, m)) = f else { put(None); std::process::exit(0) };
            put(Some(serde_json::json!({"case": c, "what": m})));
            busy[8].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
            let (c, m) = big(move || shrink(c, m)).join().unwrap();
            put(Some(serde_json::json!({"case": c, "what": m})));
            std::process::exit(1);
        }
        // axioms: the axioms of proofs/prelude.rs about the Unicode tables, over every character
        "axioms" => {
            let letter = |c: char| c.is_ascii_lowercase() || c.is_ascii_uppercase();
            let (mut bad, mut n, mut fixed) = (vec![], 0u64, [vec![], vec![]]);
            for c in '\0'..=char::MAX {
                n += 1;
                let s = c.to_string();
                let (lo, up) = (s.to_lowercase(), s.to_uppercase());
                let mut no = |w: &str| bad.push(format!("{} at U+{:04X}", w, c as u32));
                if c.is_ascii() && c.is_alphabetic() != letter(c) || c.is_alphabetic() && !c.is_alphanumeric() { no("ax_alpha"); }
                if c.is_ascii() && c.is_alphanumeric() != (letter(c) || c.is_ascii_digit()) { no("ax_alnum"); }
                // a character's own mapping is that of the one-character string
                if c.to_lowercase().collect::<String>() != lo || c.to_uppercase().collect::<String>() != up { no("mapping of a character"); }
                if lo == s { fixed[0].push(c); }
                if up == s { fixed[1].push(c); }
            }
            // strings of unmapped characters: all of them at once (the only mapping that looks
            // at its neighbours is that of capital sigma, which is not among them), and samples
            if fixed[0].contains(&'Σ') { bad.push("ax_lower: capital sigma".into()); }
            let mut r = gen::Rng(1);
            for (k, f) in fixed.iter().enumerate() {
                let map = |s: &str| if k == 0 { s.to_lowercase() } else { s.to_uppercase() };
                let all: String = f.iter().collect();
                if map(&all) != all { bad.push(format!("ax_{}", k)); }
                for _ in 0..200000 { let s: String = (0..r.n(6)).map(|_| f[if r.p(50) { r.n(f.len()) } else { r.n(f.len().min(2000)) }]).collect(); n += 1; if map(&s) != s { bad.push(format!("ax_{} {:?}", k, s)); } }
            }
            println!("{} cases, {} failures {:?}", n, bad.len(), &bad[..bad.len().min(5)]);
            std::process::exit(if bad.is_empty() { 0 } else { 1 });
        }
        // library: the assumed contracts of std and nom, executable, against the libraries
        "library" => {
            let (n, bad) = library::check(a.get(2).map_or(false, |x| x == "thorough"));
            println!("{} cases, {} differences {:?}", n, bad.len(), &bad[..bad.len().min(5)]);
            std::process::exit(if bad.is_empty() { 0 } else { 1 });
        }
        // replay FILE
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
            std::thread::spawn(|| { std::thread::sleep(PATIENCE); println!("did not return within {} s", PATIENCE.as_secs()); std::process::exit(3) });
            let r = big(move || judge(&c)).join().unwrap();
            println!("{:?}", r);
            std::process::exit(if r.is_err() { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
