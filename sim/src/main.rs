#![allow(dead_code, unused_imports)]
mod chain;
mod codes;
mod engine;
mod plans;
mod rng;
mod stubs;
mod worlds;

fn main() {
    // contract panics are transaction failures; keep them quiet
    if std::env::var("SIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let rc = match cmd {
        "check" => {
            let p = plans::plans().into_iter().find(|p| Some(p.property) == a.get(2).map(|s| s.as_str()));
            match p {
                Some(p) => {
                    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                    let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
                    engine::check(&p, seed, &tier)
                }
                None => {
                    eprintln!("no such property");
                    2
                }
            }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("read replay")).expect("json");
            let w = v["world"].as_str().unwrap_or("").to_string();
            let p = v["property"].as_str().unwrap_or("").to_string();
            let verbose = a.get(3).map_or(true, |s| s != "-q");
            match plans::worlds().into_iter().find(|e| e.name == w) {
                Some(e) => match (e.replay)(v, verbose) {
                    Some(x) => {
                        println!("{}", x.msg);
                        println!("VIOLATION property={} replay={}", p, a[2]);
                        1
                    }
                    None => {
                        println!("no violation");
                        0
                    }
                },
                None => 2,
            }
        }
        // one run, verbosely: run PROPERTY WORLD SEED RUN
        "run" => {
            let e = plans::worlds().into_iter().find(|e| e.name == a[3]).expect("world");
            let o = (e.run)(&a[2], a[4].parse().unwrap(), a[5].parse().unwrap(), &[], true);
            println!("{:?}", o.violation.map(|v| v.0));
            for (k, v) in o.stats.c {
                println!("{} {}", k, v);
            }
            0
        }
        "list" => {
            for p in plans::plans() {
                println!("{} {}", p.property, p.worlds.iter().map(|w| format!("{}:{}", w.0.name, w.1)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: dao-sim check PROPERTY [tier] | replay FILE | run PROPERTY WORLD SEED RUN | list");
            2
        }
    };
    std::process::exit(rc);
}
