mod alloc;
mod custom;
mod dict;
mod engine;
mod guard;
mod num;
mod oracle;
mod props;
mod rng;
mod sched;
mod spec;
mod tol;

use engine::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    if std::env::var("RDV_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or(d.to_string());
    let id = get("prop", "");
    let props = props::all();
    if cmd == "list" {
        for p in &props {
            println!("{}", p.id());
        }
        return;
    }
    let p = match props.iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    let ctx = Ctx {
        tier: get("tier", "quick"),
        seed: get("seed", "1").parse().unwrap(),
        profile: get("profile", "release"),
        scale: get("scale", "1").parse().unwrap(),
    };
    match cmd.as_str() {
        "worker" => {
            let a = RunArgs {
                ctx,
                budget_s: get("budget", "0").parse().unwrap(),
                progress: get("progress", "/dev/null"),
                case_cpu_limit_s: get("case-cpu", "90").parse().unwrap(),
            };
            let v = run_all(p.as_ref(), &a);
            println!("RESULT {}", v);
            std::process::exit(if v["status"] == "ok" { 0 } else { 3 });
        }
        // run one case given as JSON on the command line (isolated process)
        "one" => {
            let case: Value = serde_json::from_str(&std::fs::read_to_string(get("case", "")).expect("case file")).expect("case json");
            let case = if case.get("case").is_some() { case["case"].clone() } else { case };
            let reps: usize = get("reps", "1").parse().unwrap();
            // same stack size as in a worker
            let r: Result<f64, String> = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        let mut ratio = 0.0f64;
                        for _ in 0..reps {
                            ratio = ratio.max(p.run(&case)?.ratio);
                        }
                        Ok(ratio)
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            match r {
                Ok(ratio) => println!("RESULT {}", json!({"status":"ok","ratio":ratio})),
                Err(m) => {
                    println!("RESULT {}", json!({"status":"fail","message":m}));
                    std::process::exit(3);
                }
            }
        }
        // shrink candidates of a case
        "candidates" => {
            let case: Value = serde_json::from_str(&std::fs::read_to_string(get("case", "")).expect("case file")).expect("case json");
            println!("RESULT {}", Value::Array(p.shrink(&case)));
        }
        // the case with a given round and index
        "case" => {
            let cs = p.cases(&ctx, get("round", "0").parse().unwrap());
            println!("RESULT {}", cs[get("index", "0").parse::<usize>().unwrap()]);
        }
        "count" => println!("{}", p.cases(&ctx, get("round", "0").parse().unwrap()).len()),
        _ => {
            eprintln!("usage: rdv list|worker|one|candidates|case --prop ID ...");
            std::process::exit(2);
        }
    }
}
