//! Checks of simulate_from_snapshot: its sources are built as they are, with stand-ins for the crates
//! which cannot be fetched (../shims).
mod archive;
#[path = "../../../harness/src/cases.rs"]
mod cases;
mod append;
#[path = "../../../harness/src/par.rs"]
mod par;
mod parallel;
#[path = "../../../harness/src/report.rs"]
mod report;
mod rpc;
mod whole;
mod writer;

use report::Report;
use std::path::PathBuf;

pub fn workers() -> usize {
    if let Some(n) = std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map_or(4, |x| x.get())
}

fn all(property: &str, thorough: bool) -> Vec<Box<dyn cases::Cases>> {
    match property {
        "E01" => rpc::all(thorough),
        "E02" => archive::all(thorough),
        "E03" => parallel::all(thorough),
        "E04" => whole::all(thorough),
        _ => vec![],
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let property = args.get(1).cloned().unwrap_or_default();
    let mut thorough = std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                thorough = args[i] == "thorough";
            }
            "--replay" => {
                i += 1;
                std::panic::set_hook(Box::new(|_| {}));
                replay(&args[i]);
                return;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let root = std::env::var("VERIF_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from);
    let list = all(&property, thorough);
    let report = Report::new(&property, thorough, root);
    std::panic::set_hook(Box::new(|_| {}));
    if list.is_empty() {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    }
    for c in list {
        cases::explore(&*c, &report);
    }
    report.assume("stand-ins for the crates which cannot be fetched (sim/shims) behave like them in what the program uses: the JSON-RPC server, the reader of tar archives, the layouts of solana-accounts-db and solana-runtime 1.18, the arguments, the client of the stream");
    let rc = report.finish();
    writer::clean();
    std::process::exit(rc);
}

fn replay(path: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let name = v["scenario"].as_str().unwrap_or("");
    let i = v["indices"][0].as_u64().unwrap_or(0) as usize;
    let property = v["property"].as_str().unwrap_or("");
    for c in all(property, v["tier"] == "thorough") {
        if c.name() == name {
            println!("{}", cases::replay(&*c, i).join("\n"));
            writer::clean();
            return;
        }
    }
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
}
