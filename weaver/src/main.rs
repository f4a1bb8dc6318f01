//! vx: mechanical extraction of functions from /repo's current source and weaving of contracts.
//! usage: vx UNIT.vx REPO_ROOT OUT.rs OUT.json [--vacuity] [--stub F|G] [--open F|G]
//! --stub: contract only (body outside the verifier's reach); --open: loops of these functions keep the
//! facts known outside them (`loop_isolation(false)`: what a hoisted local equals)
//! The body text of every function is copied from the source; the only changes made to executable
//! text are the rewrites listed in `rewrite.rs`, each recorded in OUT.json.
mod rewrite;
mod simplify;
mod unit;
mod weave;
use std::collections::BTreeMap;
use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx UNIT.vx REPO OUT.rs OUT.json [--vacuity]");
        std::process::exit(2);
    }
    let vacuity = args.iter().any(|a| a == "--vacuity");
    let list = |opt: &str| -> Vec<String> { args.iter().position(|a| a == opt).and_then(|i| args.get(i + 1)).map(|s| s.split('|').map(|x| x.to_string()).collect()).unwrap_or_default() };
    let (stubs, open) = (list("--stub"), list("--open"));
    let text = fs::read_to_string(&args[1]).expect("unit file");
    let udir = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let unit = unit::parse(&text, &udir);
    let mut cache: BTreeMap<String, weave::Source> = BTreeMap::new();
    let res = weave::weave(&unit, &args[2], &mut cache, vacuity, &stubs, &open);
    fs::write(&args[3], &res.text).unwrap();
    fs::write(&args[4], serde_json::to_string_pretty(&res.json()).unwrap()).unwrap();
}
