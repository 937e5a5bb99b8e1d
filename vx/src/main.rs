//! vx: mechanical extraction of functions from /repo into Verus units.
//! usage: vx gen --repo R --unit U --out O --map M [--external f,g] [--entry-false] [--exit-false f]
//!        vx locals --repo R --file F
mod iter;
mod locks;
mod names;
mod print;
mod rewrite;
mod template;

use std::collections::{BTreeMap, BTreeSet, HashMap};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        if k == "entry-false" {
            opt.insert(k, "1".into());
            i += 1;
        } else {
            opt.insert(k, args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        }
    }
    match args.get(1).map(String::as_str) {
        Some("gen") => {
            let ext: BTreeSet<String> = opt
                .get("external")
                .map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect())
                .unwrap_or_default();
            let base = std::path::Path::new(&opt["unit"]).with_file_name("baseline.json");
            let renames = std::fs::read_to_string(base)
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .map(|b| names::renames(&opt["repo"], &b))
                .unwrap_or_default();
            let g = template::generate(&template::Options {
                repo: opt["repo"].clone(),
                unit: opt["unit"].clone(),
                external: ext,
                entry_false: opt.contains_key("entry-false"),
                exit_false: opt.get("exit-false").cloned(),
                renames,
            });
            std::fs::write(&opt["out"], g.text).unwrap();
            std::fs::write(&opt["map"], serde_json::to_string_pretty(&g.map).unwrap()).unwrap();
        }
        Some("baseline") => {
            std::fs::write(&opt["out"], serde_json::to_string_pretty(&names::baseline(&opt["repo"])).unwrap() + "\n").unwrap();
        }
        Some("locals") => {
            let f = rewrite::SourceFile::load(&opt["repo"], &opt["file"], &BTreeMap::new()).unwrap();
            for (k, v) in &f.fns {
                println!("{k}: {}", rewrite::let_locals(&v.block).join(" "));
            }
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
    let _: BTreeMap<(), ()> = BTreeMap::new();
}
