//! C05: every picture resolves to its own bytes.
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use std::collections::BTreeMap;

pub fn check(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    // pictures of every part, by their width marker
    let mut found: BTreeMap<String, Vec<(String, Option<String>)>> = BTreeMap::new();
    for n in p.names.iter().filter(|n| n.ends_with(".xml")) {
        let Ok(x) = p.xml(n) else { continue };
        for d in x.all("w:drawing") {
            let cx = d.all("wp:extent").first().and_then(|e| e.attr("cx")).unwrap_or("").to_string();
            let id = d.all("a:blip").first().and_then(|e| e.attr("r:embed")).map(|s| s.to_string());
            found.entry(cx).or_default().push((n.clone(), id));
        }
    }
    for (w, bytes, place) in &g.f.images {
        let key = if place.contains("header") { "header" } else if place.contains("footer") { "footer" } else { "body" };
        let hits = found.get(&w.to_string()).cloned().unwrap_or_default();
        if hits.len() != 1 {
            bad.push((format!("count:{key}"), format!("picture cx={w} at {place} occurs {} times", hits.len())));
            continue;
        }
        let (part, id) = &hits[0];
        let want = match key { "header" => "word/header", "footer" => "word/footer", _ => "word/document" };
        if !part.starts_with(want) {
            bad.push((format!("part:{key}"), format!("picture cx={w} at {place} is in {part}")));
        }
        let Some(id) = id else {
            bad.push((format!("no-ref:{key}"), format!("picture cx={w} at {place} has no image reference")));
            continue;
        };
        let rels = p.rels(part).unwrap_or_default();
        let rs: Vec<_> = rels.iter().filter(|r| r.id == *id).collect();
        if rs.len() != 1 {
            bad.push((format!("rel:{key}"), format!("picture cx={w} at {place}: {} relationships {id} in {part}", rs.len())));
            continue;
        }
        if !rs[0].ty.ends_with("/image") {
            bad.push((format!("kind:{key}"), format!("picture cx={w} at {place}: relationship {id} of {part} is {}", rs[0].ty)));
            continue;
        }
        match p.parts.get(&rs[0].target) {
            None => bad.push((format!("no-media:{key}"), format!("picture cx={w} at {place}: {} is not in the package", rs[0].target))),
            Some(b) if b != bytes => bad.push((format!("bytes:{key}"), format!("picture cx={w} at {place}: {} holds {:?}, supplied were {:?}", rs[0].target, b, bytes))),
            _ => {}
        }
    }
    bad
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document with pictures (shared bytes, colliding ids) in every container, packed; each picture followed to its bytes; distinct = document".into();
    let n = if c.thorough { 24000 } else { 4000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.props = false;
        o.wild = false;
        o.clash = i % 2 == 0;
        o.many_images = true;
        if i % 5 == 0 {
            o.blocks = 10;
        }
        let seed = c.seed.wrapping_mul(1_000_039).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p, &g) {
                    c.bad(&k, m, g.log.clone());
                }
            }
        }
    });
}
