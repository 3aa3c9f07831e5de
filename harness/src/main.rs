//! Checks of the properties of vcard4 by generated-input search.
//!
//! harness run ID --seed N --cases N --threads N --out FILE [--trace DIR]
//! harness one ID --seed N --index N --input FILE      one case of a run, its input written first
//! harness replay FILE                                 run a recorded failure again
//! harness worker                                      parse texts from stdin, for comparing configurations
//! harness config                                      print the features of this build
mod clock;
mod dates;
mod engine;
mod genr;
mod model;
mod props;
mod reader;
mod render;

use engine::*;
use serde_json::{Value, json};
use std::collections::HashMap;

#[global_allocator]
static ALLOC: props::c23::Scan = props::c23::Scan;

fn features() -> Vec<&'static str> {
    let mut v = Vec::new();
    for (on, name) in [
        (cfg!(feature = "zero"), "zeroize"),
        (cfg!(feature = "mime"), "mime"),
        (cfg!(feature = "lang"), "language-tags"),
        (cfg!(feature = "serde"), "serde"),
    ] {
        if on {
            v.push(name);
        }
    }
    v
}

fn find(id: &str) -> Spec {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("ERROR: no check {id}");
        std::process::exit(2)
    })
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut opts: HashMap<&str, &str> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opts.insert(&args[i][2..], &args[i + 1]);
        i += 2;
    }
    let num = |k: &str, d: u64| opts.get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    match args.first().map(|s| &s[..]) {
        Some("run") => {
            let prop = find(&args[1]);
            let seed = num("seed", 1);
            let thorough = opts.get("tier") == Some(&"thorough");
            let scale = num("scale", 100);
            let cases = num("cases", if thorough { prop.thorough } else { prop.quick } * scale / 100);
            let threads = if prop.serial { 1 } else { num("threads", 8) as usize };
            let start = std::time::Instant::now();
            let rep = run(&prop, seed, cases, threads, opts.get("trace").copied());
            let mut out = json!({
                "id": prop.id, "rule": prop.rule, "cases": rep.evaluations, "evaluations": rep.evals,
                "distinct_nontrivial": rep.distinct_nontrivial, "classes": rep.labels, "samples": rep.samples,
                "features": features(), "seconds": start.elapsed().as_secs_f64(), "violation": Value::Null,
            });
            let mut code = 0;
            if let Some(f) = rep.failure {
                let first = f.message.clone();
                let f = shrink(prop.check, f);
                // A failure has to be reproducible
                let (again, ctx, _) = replay(prop.check, &f.tape, f.size);
                let Err(again) = again else {
                    eprintln!("ERROR: failure of case {} is not reproducible: {first}", f.index);
                    std::process::exit(5);
                };
                out["violation"] = json!({
                    "id": prop.id, "features": features(), "seed": seed, "index": f.index, "size": f.size,
                    "tape": f.tape, "message": again.0, "first_message": first, "input": ctx.input,
                });
                code = 1;
            } else {
                let missing: Vec<_> =
                    prop.must_see.iter().filter(|l| !rep.labels.contains_key(**l)).collect();
                if !missing.is_empty() && rep.evaluations > 2000 {
                    eprintln!("ERROR: {} never generated {missing:?}", prop.id);
                    code = 6;
                }
            }
            std::fs::write(opts["out"], serde_json::to_string_pretty(&out).unwrap()).expect("write report");
            std::process::exit(code);
        }
        Some("one") => {
            let prop = find(&args[1]);
            if let Some(f) = opts.get("input") {
                set_input_file(f);
            }
            match one(&prop, num("seed", 1), num("index", 0)) {
                Ok(()) => println!("ok"),
                Err(f) => {
                    println!("FAIL {}", f.0);
                    std::process::exit(1);
                }
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).unwrap();
            let prop = find(v["id"].as_str().unwrap());
            if v["tape"].is_null() {
                match one(&prop, v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap()) {
                    Ok(()) => println!("the property holds for the recorded case"),
                    Err(f) => {
                        println!("FAIL {}", f.0);
                        std::process::exit(1);
                    }
                }
                return;
            }
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|n| n.as_u64().unwrap()).collect();
            let (r, ctx, _) = replay(prop.check, &tape, v["size"].as_u64().unwrap());
            println!("input:\n{}", ctx.input);
            match r {
                Ok(()) => println!("the property holds for the recorded case"),
                Err(f) => {
                    println!("FAIL {}", f.0);
                    std::process::exit(1);
                }
            }
        }
        Some("worker") => props::c29::worker(),
        Some("config") => println!("{}", features().join(",")),
        Some("list") => {
            for p in props::all() {
                println!("{} {} {} {}", p.id, p.quick, p.thorough, p.rule);
            }
        }
        _ => {
            eprintln!("ERROR: usage");
            std::process::exit(2);
        }
    }
}
