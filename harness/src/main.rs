mod enc;
mod gen;
mod prof;
mod rng;
mod run;
use std::io::{BufRead, Write};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // gen PROFILE SEED COUNT
        "gen" => {
            let (seed, n): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let out = std::io::stdout();
            let mut out = std::io::BufWriter::new(out.lock());
            for h in prof::histories(&a[2], seed, n) {
                writeln!(out, "{}", h.line()).unwrap();
            }
        }
        // run POOL CONC LEAK < histories
        "run" => {
            let o = run::Opts { pool: a[2].parse().unwrap(), conc: a[3].parse().unwrap(), leak: a[4] == "1" };
            let inp = std::io::stdin();
            let mut it = inp.lock().lines().map(|l| l.unwrap());
            run::run(&mut it, &o);
        }
        _ => std::process::exit(2),
    }
}
