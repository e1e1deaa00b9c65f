mod engine;
mod grammar;
mod masks;
mod props_api;
mod props_conc;
mod props_doc;
mod props_misc;
mod props_num;
mod props_text;
mod props_util;
mod props_xml;
mod refread;
mod xt;

use engine::*;
use std::path::PathBuf;

macro_rules! with_model {
    ($id:expr, $m:ident => $e:expr) => {
        match $id {
            "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => {
                let $m = &props_xml::model($id);
                $e
            }
            "C08" => {
                let $m = &props_doc::Spell;
                $e
            }
            "C09" => {
                let $m = &props_doc::Broken;
                $e
            }
            "C10" => {
                let $m = &props_doc::Damage::new();
                $e
            }
            "C11" => {
                let $m = &props_doc::Sinks::new();
                $e
            }
            "C12" => {
                let $m = &props_num::Attr;
                $e
            }
            "C13" => {
                let $m = &props_num::Prov;
                $e
            }
            "C14" => {
                let $m = &props_num::Label;
                $e
            }
            "C15" => {
                let $m = &props_num::Recog;
                $e
            }
            "C16" => {
                let $m = &props_text::c16();
                $e
            }
            "C17" => {
                let $m = &props_text::c17();
                $e
            }
            "C18" => {
                let $m = &props_text::c18();
                $e
            }
            "C19" => {
                let $m = &props_text::Dates;
                $e
            }
            "C20" => {
                let $m = &props_text::c20();
                $e
            }
            "C21" => {
                let $m = &props_util::c21();
                $e
            }
            "C22" => {
                let $m = &props_util::c22();
                $e
            }
            "C23" => {
                let $m = &props_util::c23();
                $e
            }
            "C24" => {
                let $m = &props_util::c24();
                $e
            }
            "C25" => {
                let $m = &props_misc::Json;
                $e
            }
            "C26" => {
                let $m = &props_misc::Silent::new();
                $e
            }
            "C27" => {
                let $m = &props_misc::History::new();
                $e
            }
            "C28" => {
                let $m = &props_api::Pieces;
                $e
            }
            "C29" => {
                let $m = &props_api::Address;
                $e
            }
            "C30" => {
                let $m = &props_api::Equal;
                $e
            }
            "C31" => {
                let $m = &props_doc::Named;
                $e
            }
            "C32" => {
                let $m = &props_conc::Threads::new();
                $e
            }
            _ => {
                eprintln!("unknown property {}", $id);
                2
            }
        }
    };
}

fn verif_dir() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            supervise(&verif_dir(), &a[2], tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick")), seed)
        }
        Some("work") => {
            limit_as(16 << 30);
            let cfg = Cfg {
                id: a[2].clone(),
                tier: tier(&a[3]),
                seed: a[4].parse().unwrap(),
                scratch: PathBuf::from(&a[5]),
                hang_s: a[6].parse().unwrap(),
                threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
                known: load_known(&verif_dir()),
            };
            with_model!(a[2].as_str(), m => { explore(m, &cfg); 0 })
        }
        Some("one") => {
            limit_as(4 << 30);
            let key = std::fs::read_to_string(&a[4]).unwrap();
            with_model!(a[2].as_str(), m => run_one(m, &key))
        }
        Some("keys") => {
            let t = tier(&a[3]);
            with_model!(a[2].as_str(), m => { dump_keys(m, t); 0 })
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            let key = v["key"].as_str().unwrap().to_string();
            println!("{key}");
            with_model!(id.as_str(), m => run_one(m, &key))
        }
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | mc replay <file>");
            2
        }
    };
    std::process::exit(code)
}
