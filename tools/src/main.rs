mod contract;
mod gen;
mod repo;
mod spec;
mod sx;
mod ty;
use spec::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // spec verus|exec FILES.. : print the contract language in one back end
        "spec" => {
            let mode = if a[2] == "verus" { Mode::Verus } else { Mode::Exec };
            for f in &a[3..] {
                let src = std::fs::read_to_string(f).unwrap();
                let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("{}: {} {:?}", f, e, e.span().start()));
                print!("{}", Em::new(mode).file(&file).unwrap_or_else(|e| panic!("{}: {}", f, e)));
            }
        }
        // gen REPO --spec FILES.. --ct FILES.. : every obligation, as JSON
        "gen" => {
            let (mut sp, mut ct, mut cur) = (vec![], vec![], 0);
            for x in &a[3..] { match x.as_str() { "--spec" => cur = 1, "--ct" => cur = 2, _ => if cur == 1 { sp.push(x.clone()) } else { ct.push(x.clone()) } } }
            // symbolic execution nests deeply
            let root = a[2].clone();
            let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || gen::run(&root, &sp, &ct)).unwrap().join().unwrap();
            match r { Ok(v) => println!("{}", serde_json::to_string_pretty(&v).unwrap()), Err(e) => { eprintln!("{}", e); std::process::exit(3) } }
        }
        _ => std::process::exit(2),
    }
}
