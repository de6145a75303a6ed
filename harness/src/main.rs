#![allow(unused_imports, unused_variables, unused_mut, dead_code)]
//! Drives the real library and records what it does as a trace of the
//! specification (spec/Trace.tla).
mod alg;
mod ctx;
mod hist;
mod io;
mod json;
mod mix;
mod rec;
mod rep;
mod rng;
mod world;

use ctx::Ctx;
use hist::Knobs;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn dispatch(c: &mut Ctx) {
    let p = c.prop.clone();
    match p.as_ref() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" => {
            hist::histories(c, Knobs { quick: 260, thorough: 4000, derived: p != "C01", handles: 0 });
            if p == "C04" || p == "C07" {
                hist::extremes(c);
            }
        }
        "C26" => {
            hist::extremes(c);
            hist::histories(c, Knobs { quick: 120, thorough: 2000, derived: true, handles: 0 });
        }
        "C25" => {
            rep::known_handles(c);
            hist::histories(c, Knobs { quick: 300, thorough: 4000, derived: false, handles: 150 });
        }
        "C06" => {
            rep::tables(c);
            hist::histories(c, Knobs { quick: 120, thorough: 1500, derived: true, handles: 0 });
        }
        "C08" => rep::equality(c),
        "C09" => rep::clones(c),
        "C10" => rep::statics(c),
        "C11" => rep::csr(c),
        "C12" => io::dumps(c),
        "C13" => io::exports(c),
        "C14" => io::csv_round(c),
        "C15" => io::csv_rows(c),
        "C16" => io::faults(c),
        "C17" => alg::traversals(c, 0),
        "C18" => alg::traversals(c, 1),
        "C19" => alg::components(c),
        "C20" => alg::subgraphs(c),
        "C21" => alg::binary(c, "union"),
        "C22" => alg::binary(c, "minus"),
        "C23" => alg::reordering(c),
        "C24" => alg::generators(c),
        "C27" => io::ldbc(c),
        "C28" => io::typed_maps(c),
        _ => panic!("unknown property {}", p),
    }
    match p.as_ref() {
        "C03" | "C25" => rec::records(c, 60, 800),
        _ => {}
    }
    match p.as_ref() {
        // what the mixtures do not touch
        "C11" | "C15" | "C16" | "C25" | "C27" | "C28" => {}
        _ => mix::mixtures(c, 63, 900),
    }
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
/// soft limits: address space (RLIMIT_AS = 9), file size (RLIMIT_FSIZE = 1)
pub fn limit(resource: i32, soft: u64) {
    let r = Rlimit { cur: soft, max: u64::max_value() };
    unsafe {
        setrlimit(resource, &r);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|x| x == k).map(|i| args[i + 1].clone());
    let prop = opt("--prop").expect("--prop");
    let shard = opt("--shard").unwrap_or_else(|| "0/1".into());
    let mut sh = shard.split('/').map(|x| x.parse::<u64>().unwrap());
    let trace = PathBuf::from(opt("--out").expect("--out"));
    let base = PathBuf::from(opt("--tmp").expect("--tmp"));
    let mut c = Ctx {
        mask: world::mask_of(&prop),
        thorough: opt("--tier").map_or(false, |t| t == "thorough"),
        seed: opt("--seed").map_or(1, |x| x.parse().unwrap()),
        shard: sh.next().unwrap(),
        nshards: sh.next().unwrap(),
        idx: 0,
        only: opt("--only").map(|x| x.parse().unwrap()),
        sched: opt("--sched")
            .map(|p| std::fs::read_to_string(p).unwrap().lines().map(|x| x.to_owned()).collect())
            .unwrap_or_default(),
        base: base.clone(),
        trace: trace.clone(),
        prop,
        count: 0,
    };
    std::fs::create_dir_all(&base).expect("scratch");
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::var("VH_LOUD").is_ok() {
        let _ = std::panic::take_hook();
    }
    limit(9, 6 << 30);
    unsafe {
        signal(25, 1); // SIGXFSZ: ignore
    }
    let patience: u64 = std::env::var("VH_PATIENCE").ok().map_or(60, |x| x.parse().unwrap());
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = world::PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(patience) {
                let mut f = std::fs::OpenOptions::new().append(true).open(&trace).unwrap();
                f.write_all(b"{\"op\":\"hang\"}\n").ok();
                std::process::exit(3);
            }
        }
    });
    dispatch(&mut c);
    std::fs::remove_dir_all(&base).ok();
    println!("scenarios {} of {}", c.count, c.idx);
}
