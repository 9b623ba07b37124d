//! Exhaustive bounded exploration of trust-graph, fluence-keypair and the trust-graph service.
//!   mc check <property> <quick|thorough> <verif dir>
//!   mc replay <replay file> <verif dir>
mod air;
mod aqua;
mod common;
mod graphs;
mod hist;
mod keys;
mod memstore;
mod model;
mod net;
mod props;
mod sys;

use common::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: mc check <property> <quick|thorough> <dir> | mc replay <file> <dir>");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 5 => {
            let (id, tier, dir) = (&args[2], &args[3], &args[4]);
            load_known(&format!("{dir}/known_findings.json"));
            let Some(p) = props::property(id, tier == "thorough") else { usage() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let code = run(
                RunCfg {
                    property: id.clone(),
                    level: p.level.into(),
                    rule: p.rule.into(),
                    assumptions: p.assumptions.iter().map(|s| s.to_string()).collect(),
                    tier: tier.clone(),
                    seed,
                    evidence: format!("{dir}/evidence/{id}.json"),
                    replay_dir: format!("{dir}/replays"),
                },
                p.families,
            );
            std::process::exit(code)
        }
        Some("replay") if args.len() == 4 => {
            load_known(&format!("{}/known_findings.json", args[3]));
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            let (id, tier, name) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap(), v["family"].as_str().unwrap());
            let case: Vec<u64> = v["case"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let Some(p) = props::property(id, tier == "thorough") else { usage() };
            for f in p.families {
                if f.name() == name {
                    let mut cx = Ctx { thorough: tier == "thorough", ..Default::default() };
                    match f.replay(&case, &mut cx) {
                        Ok(()) => println!("{id}: {name} {case:?} holds"),
                        Err(e) => {
                            println!("{id}: {name} {case:?}: {e}");
                            println!("VIOLATION property={id} replay={}", args[2]);
                            std::process::exit(1)
                        }
                    }
                    return;
                }
            }
            eprintln!("no family {name} in {id}");
            std::process::exit(2)
        }
        _ => usage(),
    }
}
