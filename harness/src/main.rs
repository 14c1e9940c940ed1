mod alloc;
mod b;
mod corpus;
mod engine;
mod exer;
mod f;
mod io;
mod log;
mod outcome;
mod p;

use engine::{Report, Tier};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s.as_str()) == Some("--c20-child") {
        p::c20::child();
        return;
    }
    let mut id = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut i = 0;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if a.get(i).map(|s| s.as_str()) == Some("thorough") {
                    Tier::Thorough
                } else {
                    Tier::Quick
                };
            }
            "--replay" => {
                i += 1;
                replay = a.get(i).cloned();
            }
            x => id = x.into(),
        }
        i += 1;
    }
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    if let Some(r) = &replay {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(r).expect("replay file")).expect("json");
        if j["tier"] == "thorough" {
            tier = Tier::Thorough;
        }
        let rep: Report = p::report(&id, tier).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        });
        let idx = j["index"].as_u64().unwrap_or(0);
        let space = match j["space"].as_str() {
            Some(s) => s.to_string(),
            None => rep.spaces[j["space_no"].as_u64().unwrap_or(0) as usize]
                .name
                .clone(),
        };
        std::process::exit(engine::replay(rep, &space, idx));
    }
    let Some(rep) = p::report(&id, tier) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    std::process::exit(engine::run(rep, &verif));
}
