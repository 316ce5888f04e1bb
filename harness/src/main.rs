mod cases;
mod composed;
mod damaged;
mod filters;
mod filters_conc;
mod large;
mod live;
mod main_conc;
mod main_model;
mod main_seq;
mod ondemand;
mod par;
mod report;
mod sched;
mod seq;
mod token_cases;
mod token_conc;
mod token_model;
mod token_seq;
mod token_storage_conc;
mod util;

use report::Report;
use std::path::PathBuf;

/// two accounts have the other order than with the first seed
const HASH_SEED_2: u8 = 0x22;
static HASH_SEED: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0x5a);

/// same hash seeds in every thread, so that executions can be repeated
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = HASH_SEED.load(std::sync::atomic::Ordering::Relaxed) ^ (i as u8);
    }
    len as isize
}

pub fn workers() -> usize {
    if let Some(n) = std::env::var("MC_WORKERS").ok().and_then(|x| x.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map_or(4, |x| x.get())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let property = args.get(1).cloned().unwrap_or_default();
    let mut thorough = std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough");
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                thorough = args[i] == "thorough";
            }
            "--replay" => {
                i += 1;
                std::panic::set_hook(Box::new(|_| {}));
                replay(&args[i]);
                return;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let root = std::env::var("VERIF_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from);
    let report = Report::new(&property, thorough, root);
    std::panic::set_hook(Box::new(|_| {}));
    match property.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "R01" => {
            dashmap_shards(2);
            main_seq::run(&property, &report)
        }
        "C07" => main_conc::run(&report),
        "R02" => main_conc::run_router(&report),
        "R03" => {
            dashmap_shards(2);
            composed::run(&report)
        }
        "T07" => {
            token_conc::run(&report);
            token_storage_conc::run(&report)
        }
        "D04" => live::run(&report),
        "C14" => filters_conc::run(&report),
        "D01" | "D02" | "D03" => ondemand::run(&property, &report),
        "C09" | "C10" | "C11" | "C12" | "C13" => {
            dashmap_shards(2);
            filters::run(&property, &report)
        }
        "T03" | "T04" | "T05" | "T06" => {
            dashmap_shards(2);
            token_seq::run(&property, &report);
            token_cases::run(&property, &report)
        }
        "S01" => {
            dashmap_shards(2);
            damaged::run(&report)
        }
        "T01" | "T02" | "T08" => {
            dashmap_shards(2);
            token_cases::run(&property, &report)
        }
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    large::run(&property, &report);
    std::process::exit(report.finish());
}

/// number of shards of the maps of dashmap; with one shard, hash maps of new threads also have another
/// order
pub fn dashmap_shards(n: usize) {
    HASH_SEED.store(if n == 1 { HASH_SEED_2 } else { 0x5a }, std::sync::atomic::Ordering::Relaxed);
    dashmap::MC_SHARDS.store(n, std::sync::atomic::Ordering::Relaxed);
}

fn replay(path: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let name = v["scenario"].as_str().unwrap_or("");
    dashmap_shards(2);
    let property = v["property"].as_str().unwrap_or("");
    let lines = if v["kind"] == "case" {
        let i = v["indices"][0].as_u64().unwrap_or(0) as usize;
        filters::replay(property, v["tier"] == "thorough", name, i)
            .or_else(|| large::replay(property, v["tier"] == "thorough", name, i))
            .or_else(|| token_seq::replay_case(name, i))
            .or_else(|| token_cases::replay_case(v["tier"] == "thorough", name, i))
            .or_else(|| live::replay_case(name, i))
            .or_else(|| damaged::replay_case(v["tier"] == "thorough", name, i))
    } else if v["kind"] == "schedule" {
        let prefix = v["prefix"].as_str().unwrap_or("");
        main_conc::replay(name, prefix).or_else(|| token_conc::replay(name, prefix)).or_else(|| token_storage_conc::replay(name, prefix)).or_else(|| ondemand::replay(name, prefix)).or_else(|| live::replay(name, prefix)).or_else(|| filters_conc::replay(name, prefix))
    } else {
        let idx: Vec<usize> = v["indices"]
            .as_array()
            .map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
        main_seq::replay(name, &idx)
            .or_else(|| token_seq::replay(name, &idx))
            .or_else(|| token_cases::replay(name, &idx))
            .or_else(|| live::replay_seq(name, &idx))
            .or_else(|| composed::replay(name, &idx))
    };
    match lines {
        Some(l) => println!("{}", l.join("\n")),
        None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
    }
}
