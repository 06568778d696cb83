//! Command line of the harness and of generated programs.

use crate::{props, run::*};

fn usage() -> ! {
    eprintln!("usage: mon run ID [--seed N] [--tier quick|thorough] [--worker I --workers N] [--count N] [--secs S] [--progress F] [--out F] [--case N]\n       mon list\n       mon deep KIND DEPTH");
    std::process::exit(2)
}

pub fn main(all: fn() -> Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in all() {
                println!("{} quick={} thorough={} directed={}", p.id, p.quick, p.thorough, p.directed.len());
            }
        }
        Some("deep") => props::mem::deep_child(&args[2], args[3].parse().unwrap()),
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let mut o = Opts {
                seed: 1,
                tier: Tier::Quick,
                worker: 0,
                workers: 1,
                count: None,
                secs: 1e9,
                progress: None,
                out: None,
                only: None,
            };
            let mut i = 3;
            while i + 1 < args.len() {
                let v = &args[i + 1];
                match args[i].as_str() {
                    "--seed" => o.seed = v.parse().unwrap(),
                    "--tier" => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
                    "--worker" => o.worker = v.parse().unwrap(),
                    "--workers" => o.workers = v.parse().unwrap(),
                    "--count" => o.count = Some(v.parse().unwrap()),
                    "--secs" => o.secs = v.parse().unwrap(),
                    "--progress" => o.progress = Some(v.clone()),
                    "--out" => o.out = Some(v.clone()),
                    "--case" => o.only = Some(v.parse().unwrap()),
                    _ => usage(),
                }
                i += 2;
            }
            let body = move || {
                let p = all().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
                work(&p, &o)
            };
            let code = if cfg!(miri) {
                body()
            } else {
                std::thread::Builder::new().stack_size(512 << 20).spawn(body).unwrap().join().unwrap_or(3)
            };
            std::process::exit(code);
        }
        _ => usage(),
    }
}
