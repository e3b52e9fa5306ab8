//! C04: paragraph ids of produced packages.
use crate::c12;
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use std::collections::BTreeMap;

pub fn check(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    let mut where_: BTreeMap<String, String> = BTreeMap::new();
    let mut by_marker: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    let given: std::collections::BTreeSet<&str> = g.f.paras.iter().map(|x| x.0.as_str()).collect();
    for n in p.names.iter().filter(|n| n.starts_with("word/") && n.ends_with(".xml")) {
        let Ok(x) = p.xml(n) else { continue };
        for e in x.all("w:p") {
            let Some(id) = e.attr("w14:paraId") else {
                bad.push((format!("no-id:{}", crate::c06::kind_of(n)), format!("a paragraph of {n} has no id")));
                continue;
            };
            if let Some(o) = where_.insert(id.to_string(), n.clone()) {
                bad.push((format!("dup:{}:{}", crate::c06::kind_of(&o), crate::c06::kind_of(n)), format!("paragraph id {id} occurs in {o} and in {n}")));
            }
            let ok = id.len() == 8 && matches!(u32::from_str_radix(id, 16), Ok(v) if v > 0 && v < 0x8000_0000);
            if !ok && !given.contains(id) {
                bad.push(("form".into(), format!("generated paragraph id {id:?} in {n}")));
            }
            let mk = e.kids_named("w:r").map(|r| r.text()).find(|t| !t.is_empty()).unwrap_or_default();
            by_marker.entry(mk).or_default().push((id.to_string(), n.clone()));
        }
    }
    let mut count: BTreeMap<&str, usize> = BTreeMap::new();
    for (id, _, _) in &g.f.paras {
        *count.entry(id).or_default() += 1;
    }
    for (id, mk, place) in &g.f.paras {
        let last = place.rsplit('/').nth(1).unwrap_or("").to_string();
        match by_marker.get(mk) {
            None => bad.push((format!("lost:{last}"), format!("paragraph {mk:?} at {place} is not in the package"))),
            Some(v) => {
                if count[id.as_str()] == 1 && !id.is_empty() && !v.iter().any(|x| x.0 == *id) {
                    bad.push((format!("changed:{last}"), format!("paragraph {mk:?} at {place} had the unique id {id}, written as {v:?}")));
                }
            }
        }
    }
    bad.extend(c12::check_threads(p, g));
    bad
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document whose paragraphs carry given, equal, empty and generated ids in every container, packed; ids of all parts collected; distinct = document".into();
    let n = if c.thorough { 24000 } else { 4000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.props = false;
        o.ids = true;
        o.images = i % 4 == 0;
        if i % 5 == 0 {
            o.blocks = 10;
        }
        let seed = c.seed.wrapping_mul(1_000_081).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p, &g) {
                    c.bad(&k, m, g.log.clone());
                }
            }
        }
    });
}
