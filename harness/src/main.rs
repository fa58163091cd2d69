//! Worker process of the model checker: explores its share of a property's scenarios.

mod anydoc;
mod doc;
mod engine;
mod gen;
mod iter;
mod mem;
mod props;
mod refcodec;
mod sched;
mod shape;

use engine::*;
use serde_json::{json, Value as J};
use std::collections::HashSet;

#[global_allocator]
static GLOBAL: mem::Alloc = mem::Alloc;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    mem::install_crash_handler();
    match args.first().map(String::as_str) {
        Some("list") => {
            let t = tier(&arg(&args, "--tier").unwrap_or_default());
            let s = props::scenarios(&arg(&args, "--prop").unwrap(), t).expect("unknown property");
            for x in s {
                println!("{}\t{}", x.name, x.bounds);
            }
        }
        Some("worker") => {
            // not to go on when the check is ended
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(&args)
        }
        Some("replay") => std::process::exit(do_replay(&args)),
        _ => {
            eprintln!("usage: mc worker|replay|list");
            std::process::exit(2)
        }
    }
}

fn worker(args: &[String]) {
    let prop = arg(args, "--prop").unwrap();
    let t = tier(&arg(args, "--tier").unwrap());
    let scens = props::scenarios(&prop, t).expect("unknown property");
    let known: HashSet<String> = args
        .iter()
        .enumerate()
        .filter(|(_, a)| *a == "--known")
        .filter_map(|(i, _)| args.get(i + 1).cloned())
        .collect();
    let ticket_list = arg(args, "--ticket-list").map(|f| {
        let j: J = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        (
            j["scenario_index"].as_u64().unwrap() as usize,
            j["tickets"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
        )
    });
    let cfg = RunCfg {
        tickets: arg(args, "--tickets").map(|f| map_shared(&f, 8 * scens.len().max(1)) as *mut u64),
        ticket_list,
        state: arg(args, "--state"),
        deadline: arg(args, "--deadline").map_or(1e9, |d| d.parse().unwrap()),
        known,
    };
    let r = run(&scens, &cfg);
    let j = json!({
        "scenarios": r.scenarios.iter().map(|s| json!({
            "name": s.name, "bounds": s.bounds, "executions": s.c.executions, "pruned": s.c.pruned,
            "nodes": s.c.nodes, "ops": s.c.ops, "cases": s.c.cases, "complete": s.complete, "wall": s.wall,
        })).collect::<Vec<_>>(),
        "violation": r.violation.as_ref().map(|v| json!({
            "scenario": v.scenario, "path": v.path, "sig": v.sig, "detail": v.detail,
            "notes": v.notes, "tickets": v.tickets,
        })),
        "samples": r.samples.iter().map(|s| json!({"scenario": s.scenario, "path": s.path, "notes": s.notes})).collect::<Vec<_>>(),
        "outcomes": r.outcomes,
        "known": r.known,
        "engine_error": r.engine_error,
    });
    let out = arg(args, "--out").unwrap();
    std::fs::write(&out, serde_json::to_string(&j).unwrap()).unwrap();
}

fn do_replay(args: &[String]) -> i32 {
    let j: J = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let prop = j["property"].as_str().unwrap();
    let t = tier(j["tier"].as_str().unwrap_or("quick"));
    let scens = props::scenarios(prop, t).expect("unknown property");
    let name = j["scenario"].as_str().unwrap();
    let Some(s) = scens.iter().find(|s| s.name == name) else {
        eprintln!("no scenario {name:?}");
        return 2;
    };
    let path: Vec<u32> = j["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let state = arg(args, "--state").map(|f| StateFile::open(&f));
    let (f, notes) = replay(s, &path, state);
    for n in &notes {
        println!("  {n}");
    }
    match f {
        Some(f) if f.sig == "ENGINE" => {
            println!("ENGINE {}", f.detail);
            2
        }
        Some(f) => {
            println!("REPRODUCED {}: {}", f.sig, f.detail);
            1
        }
        None => {
            println!("NOT REPRODUCED");
            0
        }
    }
}
