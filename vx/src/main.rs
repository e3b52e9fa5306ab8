//! vx: mechanical extraction of functions and types from the crate under verification into a
//! self-contained Verus file. A unit file is Verus text with directive lines (`//@...`); every
//! directive is replaced by source text sliced out of the crate's current files.
mod emit;
mod index;
mod mine;

use std::collections::BTreeMap;
use std::path::PathBuf;

fn main() {
    let mut args: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        args.insert(k.trim_start_matches("--").to_string(), v);
    }
    let src = PathBuf::from(args.get("src").expect("--src"));
    let index = match index::Index::build(&src) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    if let Some(q) = args.get("list") {
        for k in index.fns.keys() {
            if k.contains(q.as_str()) {
                println!("{k}");
            }
        }
        return;
    }
    if args.contains_key("api") {
        mine::api(&index);
        return;
    }
    if args.contains_key("mine") {
        mine::run(&index);
        return;
    }
    let unit = args.get("unit").expect("--unit");
    let text = std::fs::read_to_string(unit).expect("unit file");
    let dir = PathBuf::from(unit).parent().unwrap().to_path_buf();
    let out = emit::run(
        &index,
        &text,
        &dir,
        args.get("ext").map(|s| s.split('\u{1f}').map(|x| x.to_string()).collect()).unwrap_or_default(),
    );
    std::fs::write(args.get("out").expect("--out"), &out.text).expect("write out");
    if let Some(m) = args.get("map") {
        std::fs::write(m, serde_json::to_string_pretty(&out.map()).unwrap()).expect("write map");
    }
}
