mod bin;
mod chain;
mod engine;
mod gen;
mod p_avg;
mod p_bin;
mod p_dyn;
mod p_energy;
mod p_fit;
mod p_indep;
mod p_init;
mod p_lang;
mod p_mc;
mod p_modes;
mod p_spin;
mod p_state;
mod therm;
mod util;

use engine::*;

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "D01" => p_dyn::d01(),
        "D02" => p_dyn::d02(),
        "D03" => p_dyn::d03(),
        "D04" => p_dyn::d04(),
        "D05" => p_dyn::d05(),
        "F01" => p_dyn::f01(),
        "E01" => p_energy::e01(),
        "E02" => p_energy::e02(),
        "E03" => p_energy::e03(),
        "G01" => p_energy::g01(),
        "I01" => p_init::i01(),
        "I02" => p_init::i02(),
        "I03" => p_init::i03(),
        "B01" => p_bin::b01(),
        "B02" => p_bin::b02(),
        "B03" => p_avg::b03(),
        "B04" => p_avg::b04(),
        "B05" => p_modes::b05(),
        "B06" => p_fit::b06(),
        "B07" => p_bin::b07(),
        "B08" => p_bin::b08(),
        "B09" => p_indep::b09(),
        "C01" => p_init::c01(),
        "L01" => p_lang::l01(),
        "L02" => p_lang::l02(),
        "L03" => p_lang::l03(),
        "M01" => p_mc::m01(),
        "M02" => p_mc::m02(),
        "M03" => p_mc::m03(),
        "M04" => p_mc::m04(),
        "U01" => p_state::u01(),
        "S01" => p_spin::s01(),
        "S02" => p_spin::s02(),
        _ => return None,
    })
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("oneop") {
        p_state::oneop();
        return;
    }
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("SC_ROOT").unwrap_or_else(|_| "/verif".to_string());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    for a in &args {
        if a == "--thorough" {
            thorough = true;
        }
        if a == "--quick" {
            thorough = false;
        }
    }
    // no check may hang: a run that does not come back is no answer, not a violation
    let limit: u64 = std::env::var("SC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 14400 } else { 840 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("HARNESS ERROR: no result within {} s", limit);
        std::process::exit(2);
    });
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => match args.get(2).and_then(|id| property(id)) {
            Some(p) => run_property(p, thorough, seed, &root),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        Some("replay") => replay(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: spinverif check <ID> [--quick|--thorough] | replay <file>");
            2
        }
    };
    let _ = std::fs::remove_dir_all(chain::scratch());
    std::process::exit(code);
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let p = match property(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    for f in p.families.iter() {
        if Some(f.name()) == v["family"].as_str() {
            return match f.replay(&v["case"]) {
                Ok(Ok(i)) => {
                    println!("property {} holds on this case: {:?}", id, i);
                    0
                }
                Ok(Err(Fail::Violation(m))) => {
                    println!("  {}", m);
                    println!("VIOLATION property={} replay={}", id, path);
                    1
                }
                Ok(Err(Fail::Harness(m))) => {
                    eprintln!("HARNESS ERROR: {}", m);
                    2
                }
                Err(e) => {
                    eprintln!("cannot read case: {}", e);
                    2
                }
            };
        }
    }
    eprintln!("no such family");
    2
}
