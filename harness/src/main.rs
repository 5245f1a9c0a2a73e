mod engine;
mod fold;
mod geom;
mod graph;
mod math;
mod order;
mod poly;
mod util;

use engine::{Plan, Tier};

fn plan(prop: &str, tier: Tier) -> Plan {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C28" => graph::plan(prop, tier),
        "C07" => geom::c07(tier),
        "C08" => poly::c08(tier),
        "C09" => poly::c09(tier),
        "C10" => poly::c10(tier),
        "C11" => geom::c11(tier),
        "C12" => geom::c12(tier),
        "C13" => geom::c13(tier),
        "C14" => geom::c14(tier),
        "C15" => geom::c15(tier),
        "C16" => math::c16(tier),
        "C17" => math::c17(tier),
        "C18" => math::c18(tier),
        "C19" => math::c19(tier),
        "C20" => math::c20(tier),
        "C21" => math::c21(tier),
        "C22" => math::c22(tier),
        "C23" => math::c23(tier),
        "C24" => fold::c24(tier),
        "C25" => fold::c25(tier),
        "C26" => fold::c26(tier),
        "C27" => order::c27(tier),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {}", s);
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    engine::set_hash_base();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let t = tier(&a[3]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            engine::run_check(&a[2], &plan(&a[2], t), t, seed)
        }
        Some("worker") => {
            engine::worker(&a[2], &plan(&a[2], tier(&a[3])), &a[4], a[5].parse().unwrap(), &a[6]);
            0
        }
        Some("replay") => {
            let n = a[7].parse().unwrap();
            let m = match a[6].as_str() { "only" => engine::Mode::Only(n), "through" => engine::Mode::Through(n), _ => engine::Mode::Describe(n) };
            let trail: Vec<usize> = a.get(9).map_or(vec![], |s| s.split(',').filter_map(|x| x.parse().ok()).collect());
            engine::replay_one(&a[2], &plan(&a[2], tier(&a[3])), a[4].parse().unwrap(), a[5].parse().unwrap(), m, &trail, &a[8]);
            0
        }
        Some("families") => { poly::list_families(); 0 }
        Some("replay-file") => engine::replay_cmd(&a[2], &plan),
        _ => {
            eprintln!("usage: kamimc check <property> <quick|thorough> | replay-file <path>");
            2
        }
    };
    std::process::exit(code);
}
