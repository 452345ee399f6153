//! Bounded exhaustive exploration of parsegen: every grammar of a bounded space against an independent
//! LR(1) reference (model layer), and every input, fault, history or schedule up to a bound against
//! rustc-compiled macro output (execution layer). See /verif/DESIGN.md.
mod batch;
mod checks;
mod ctx;
mod json;
mod layers;
mod notation;
mod outproc;
mod patterns;
mod pool;
mod product;
mod purity;
mod render;
mod space;
mod tables;
mod types;
mod worker;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    batch::clock();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker::main(),
        Some("check") => std::process::exit(checks::check(&a[1])),
        Some("expand") => {
            let body = std::fs::read_to_string(&a[1]).unwrap();
            match worker::expand(&body) {
                worker::Expanded::Tokens(t) => println!("ACCEPTED\n{t}"),
                worker::Expanded::CompileError(e) => println!("REJECTED {e}"),
                worker::Expanded::Dead(_, e) => println!("REJECTED (dies) {e}"),
                worker::Expanded::Panic(e) => println!("REJECTED (panic) {e}"),
            }
        }
        Some("run-case") => {
            let src = std::path::PathBuf::from(&a[1]);
            let bin = batch::scratch().join("case");
            let mut c = std::process::Command::new("rustc");
            let config = a.iter().find_map(|x| x.strip_prefix("config=")).map_or(0, |x| x.parse().unwrap());
            let a: Vec<&String> = a.iter().filter(|x| !x.starts_with("config=")).collect();
            c.args(batch::rustc_args(&src, &bin, config).iter().filter(|x| *x != "--error-format=json"));
            let st = c.status().unwrap();
            println!("rustc: {st}");
            let mut code = st.code().unwrap_or(1);
            if st.success() && a.get(2).map(|s| s.as_str()) != Some("expect-reject") {
                let st = std::process::Command::new(&bin).args(&a[2..]).status().unwrap();
                println!("run: {st}");
                code = st.code().unwrap_or(1);
            }
            batch::cleanup();
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: vmc check <property> | expand <file> | run-case <file> args");
            std::process::exit(2);
        }
    }
}
