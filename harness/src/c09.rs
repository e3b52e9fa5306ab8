//! C09: numbering definitions and references.
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use crate::xml::El;
use std::collections::{BTreeMap, BTreeSet};

fn val<'a>(e: &'a El, n: &'a str) -> Option<&'a str> {
    e.child(n).and_then(|c| c.attr("w:val"))
}

pub fn check(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    // numbered paragraphs as written
    let mut have: BTreeMap<(String, String), usize> = BTreeMap::new();
    for n in p.names.iter().filter(|n| n.starts_with("word/") && n.ends_with(".xml")) {
        let Ok(x) = p.xml(n) else { continue };
        for e in x.all("w:p") {
            if let Some(np) = e.child("w:pPr").and_then(|q| q.child("w:numPr")) {
                *have.entry((val(np, "w:numId").unwrap_or("").into(), val(np, "w:ilvl").unwrap_or("").into())).or_default() += 1;
            }
        }
    }
    let mut want: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (id, lv, _) in &g.f.numbered {
        *want.entry((id.to_string(), lv.to_string())).or_default() += 1;
    }
    if have != want {
        bad.push(("paragraphs".into(), format!("numbered paragraphs (id, level) -> count are {have:?}, placed were {want:?}")));
    }
    let target = crate::c06::rels_of_kind(p, "numbering");
    if !g.f.numbered.is_empty() {
        match &target {
            None => {
                bad.push(("unreferenced".into(), format!("numbered paragraphs at {:?}, but the numbering part is not referenced", g.f.numbered.iter().map(|x| x.2.clone()).collect::<BTreeSet<_>>())));
                return bad;
            }
            Some(t) if !p.parts.contains_key(t) => {
                bad.push(("absent".into(), format!("numbering part {t} is absent")));
                return bad;
            }
            _ => {}
        }
    }
    let Some(x) = target.and_then(|t| p.xml(&t).ok()) else { return bad };
    let mut abs: BTreeMap<String, &El> = BTreeMap::new();
    for e in x.kids_named("w:abstractNum") {
        let id = e.attr("w:abstractNumId").unwrap_or("").to_string();
        if abs.insert(id.clone(), e).is_some() {
            bad.push(("dup-abstract".into(), format!("two abstract definitions {id}")));
        }
    }
    let mut nums: BTreeMap<String, &El> = BTreeMap::new();
    for e in x.kids_named("w:num") {
        let id = e.attr("w:numId").unwrap_or("").to_string();
        if nums.insert(id.clone(), e).is_some() {
            bad.push(("dup-num".into(), format!("two numberings {id}")));
        }
        let a = val(e, "w:abstractNumId").unwrap_or("");
        if !abs.contains_key(a) {
            bad.push(("dangling".into(), format!("numbering {id} refers to abstract definition {a:?}, which is absent")));
        }
    }
    for (id, a) in &g.f.num_defs {
        match nums.get(&id.to_string()) {
            None => bad.push(("num-lost".into(), format!("numbering {id} is absent"))),
            Some(e) => {
                if val(e, "w:abstractNumId") != Some(&a.to_string()) {
                    bad.push(("num-abs".into(), format!("numbering {id} refers to {:?}, given was {a}", val(e, "w:abstractNumId"))));
                }
                let got: BTreeSet<(String, String)> = e.kids_named("w:lvlOverride").filter_map(|o| Some((o.attr("w:ilvl")?.to_string(), val(o, "w:startOverride")?.to_string()))).collect();
                let want: BTreeSet<(String, String)> = g.f.overrides.iter().filter(|o| o.0 == *id).map(|o| (o.1.to_string(), o.2.to_string())).collect();
                if got != want {
                    bad.push(("override".into(), format!("numbering {id} has overrides {got:?}, given were {want:?}")));
                }
            }
        }
    }
    for (a, levels) in &g.f.abs_defs {
        match abs.get(&a.to_string()) {
            None => bad.push(("abs-lost".into(), format!("abstract definition {a} is absent"))),
            Some(e) => {
                let got: Vec<String> = e.kids_named("w:lvl").map(|l| l.attr("w:ilvl").unwrap_or("").to_string()).collect();
                let want: Vec<String> = levels.iter().map(|l| l.to_string()).collect();
                if got != want {
                    bad.push(("levels".into(), format!("abstract definition {a} has levels {got:?}, given were {want:?}")));
                }
                for l in e.kids_named("w:lvl") {
                    let k: usize = l.attr("w:ilvl").and_then(|s| s.parse().ok()).unwrap_or(99);
                    let v = (val(l, "w:start"), val(l, "w:numFmt"), val(l, "w:lvlText"), val(l, "w:lvlJc"));
                    if v != (Some(&(k + 1).to_string()), Some("decimal"), Some(&format!("%{}.", k + 1)), Some("left")) {
                        bad.push(("level".into(), format!("level {k} of abstract definition {a} is written as {v:?}")));
                    }
                }
            }
        }
    }
    bad
}

/// What the reader makes of the definitions.
fn reread(d: &docx_rs::Docx, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    for (id, a) in &g.f.num_defs {
        let v: Vec<_> = d.numberings.numberings.iter().filter(|n| n.id == *id).collect();
        if v.len() != 1 || v[0].abstract_num_id != *a {
            bad.push(("read-num".into(), format!("numbering {id} -> {a} is read as {:?}", v.iter().map(|n| n.abstract_num_id).collect::<Vec<_>>())));
            continue;
        }
        let got: BTreeSet<(usize, Option<usize>)> = v[0].level_overrides.iter().map(|o| (o.level, o.override_start)).collect();
        let want: BTreeSet<(usize, Option<usize>)> = g.f.overrides.iter().filter(|o| o.0 == *id).map(|o| (o.1, Some(o.2))).collect();
        if got != want {
            bad.push(("read-override".into(), format!("overrides of numbering {id} are read as {got:?}, given were {want:?}")));
        }
    }
    for (a, levels) in &g.f.abs_defs {
        let v: Vec<_> = d.numberings.abstract_nums.iter().filter(|n| n.id == *a).collect();
        let one = |l: &docx_rs::Level| {
            let j = serde_json::to_value(l).unwrap_or_default();
            let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
            (l.level, j["start"].as_u64().unwrap_or(0) as usize, s("format"), s("text"), s("jc"))
        };
        let got: Vec<Vec<(usize, usize, String, String, String)>> = v.iter().map(|n| n.levels.iter().map(one).collect()).collect();
        let want: Vec<(usize, usize, String, String, String)> = levels.iter().map(|k| (*k, k + 1, "decimal".to_string(), format!("%{}.", k + 1), "left".to_string())).collect();
        if got != vec![want.clone()] {
            bad.push(("read-abs".into(), format!("abstract definition {a} is read as {got:?}, given was {want:?}")));
        }
    }
    bad
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document with numbered paragraphs in every container and random numbering tables, packed and read; distinct = document".into();
    let n = if c.thorough { 24000 } else { 4000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.props = false;
        o.images = false;
        o.styles = false;
        match i % 4 {
            0 => o.blocks = 2,
            1 => o.blocks = 10,
            _ => {}
        }
        let seed = c.seed.wrapping_mul(1_000_117).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p, &g) {
                    c.bad(&k, m, g.log.clone());
                }
                if crate::c06::rels_of_kind(&p, "numbering").is_some() {
                    match pkg::guard(|| docx_rs::read_docx(&b)) {
                        Ok(Ok(d)) => {
                            for (k, m) in reread(&d, &g) {
                                c.bad(&k, m, g.log.clone());
                            }
                        }
                        e => c.bad("read-fails", format!("reading the package fails: {:?}", e.map(|r| r.err())), g.log.clone()),
                    }
                }
            }
        }
    });
    tables(c);
}

/// JSON with an absent left or right indent shown as 0, which is how an indent is written.
fn shown(mut v: serde_json::Value) -> String {
    fn walk(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                if m.contains_key("startChars") {
                    for k in ["start", "end"] {
                        if m.get(k).is_some_and(|x| x.is_null()) {
                            m.insert(k.into(), 0.into());
                        }
                    }
                }
                m.values_mut().for_each(walk);
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(walk),
            _ => {}
        }
    }
    walk(&mut v);
    v.to_string()
}

/// Definitions with every level setting: what is read is what was given.
fn tables(c: &mut Ctx) {
    use docx_rs::*;
    let n = if c.thorough { 12000 } else { 3000 };
    c.par(n, |c, i| {
        let seed = c.seed.wrapping_mul(2_000_147).wrapping_add(i as u64);
        let mut g = Gen::new(seed, Opt::all());
        let mut d = Docx::new();
        let mut abs = vec![];
        let mut nums = vec![];
        for k in 0..1 + g.r.below(4) {
            let mut a = AbstractNumbering::new(20 + k * 3);
            if g.r.chance(25) { a = a.style_link("SL"); }
            if g.r.chance(25) { a = a.num_style_link("NSL"); }
            for l in 0..g.r.below(10) {
                let lv = g.level(l);
                a = a.add_level(lv);
            }
            let mut m = Numbering::new(30 + k, a.id);
            for l in 0..g.r.below(4) {
                let mut o = LevelOverride::new(l * 2);
                if g.r.chance(60) { o = o.start(g.r.below(40)); }
                if g.r.chance(40) { let lv = g.level(l * 2); o = o.level(lv); }
                m = m.add_override(o);
            }
            d = d.add_abstract_numbering(a.clone()).add_numbering(m.clone());
            abs.push(a);
            nums.push(m);
        }
        d = d.add_paragraph(Paragraph::new().numbering(NumberingId::new(30), IndentLevel::new(0)));
        let log = format!("numbering tables, seed {seed}: {} {}", serde_json::to_string(&abs).unwrap_or_default(), serde_json::to_string(&nums).unwrap_or_default());
        c.case(&log);
        let b = match pkg::pack(d) {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), log),
            Ok(b) => b,
        };
        let r = match pkg::guard(|| docx_rs::read_docx(&b)) {
            Ok(Ok(r)) => r,
            e => return c.bad("read-fails", format!("reading the package fails: {:?}", e.map(|r| r.err())), log),
        };
        for a in &abs {
            let got: Vec<_> = r.numberings.abstract_nums.iter().filter(|x| x.id == a.id).collect();
            let (x, y) = (shown(serde_json::to_value(&got).unwrap_or_default()), shown(serde_json::to_value(&[a]).unwrap_or_default()));
            if x != y {
                c.bad("table-abs", format!("abstract definition {} is read as {x}, given was {y}", a.id), log.clone());
            }
        }
        for m in &nums {
            let got: Vec<_> = r.numberings.numberings.iter().filter(|x| x.id == m.id).collect();
            let (x, y) = (shown(serde_json::to_value(&got).unwrap_or_default()), shown(serde_json::to_value(&[m]).unwrap_or_default()));
            if x != y {
                c.bad("table-num", format!("numbering {} is read as {x}, given was {y}", m.id), log.clone());
            }
        }
    });
}
