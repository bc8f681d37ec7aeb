mod ast;
mod common;
mod corpus;
mod cover;
mod engine;
mod gen;
mod inject;
mod lsp;
mod lspprops;
mod mutate;
mod names;
mod props;
mod refjson;
mod reflex;
mod refparse;
mod refsem;
mod reftdg;
mod render;
mod rng;
mod sut;
mod wide;

use std::path::Path;

fn main() {
    sut::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| engine::harness_error("bad arguments"));
    let code = match arg(1) {
        // check PROPERTY TIER SEED VERIF
        "check" => engine::check(arg(2), arg(3), num(4), Path::new(arg(5))),
        "worker" => engine::worker(arg(2), arg(3), num(4), num(5), num(6), Path::new(arg(7))),
        // one PROPERTY DIR REPEAT (tape FILE | case SEED N) [LOG]
        "one" => {
            let dir = Path::new(arg(3));
            let (tape, seed, case, log) = if arg(5) == "tape" {
                let t: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(arg(6)).unwrap()).unwrap();
                (Some(t), 0, 0, arg(7))
            } else {
                (None, num(6), num(7), arg(8))
            };
            let log = if log.is_empty() { None } else { Some(Path::new(log)) };
            if num(4) == 1 {
                sut::dump_to(dir);
            }
            engine::one(arg(2), tape, seed, case, num(4) as usize, dir, log)
        }
        "once" => {
            let d = std::fs::read(arg(2)).unwrap();
            let p = if arg(3).is_empty() { None } else { Some(std::fs::read(arg(3)).unwrap()) };
            print!("{}", props::everything(&d, p.as_ref()));
            0
        }
        "replay" => engine::replay(Path::new(arg(2))),
        _ => engine::harness_error("usage: hv check PROPERTY TIER SEED VERIF | replay FILE"),
    };
    std::process::exit(code);
}
