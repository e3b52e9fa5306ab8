//! C07: headers and footers land in their own slot.
use crate::c06::kind_of;
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use crate::xml::El;
use std::collections::BTreeSet;

pub fn check(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    let x = match p.xml("word/document.xml") {
        Ok(x) => x,
        Err(e) => return vec![("malformed".into(), e)],
    };
    let body = x.child("w:body");
    let mut sects: Vec<(usize, Option<&El>)> = vec![];
    let mut inner = vec![];
    for e in x.all("w:pPr") {
        if let Some(s) = e.child("w:sectPr") {
            inner.push(s);
        }
    }
    if inner.len() != g.f.sections {
        bad.push(("sections".into(), format!("{} sections were added, {} are in the document", g.f.sections, inner.len())));
        return bad;
    }
    for (i, s) in inner.into_iter().enumerate() {
        sects.push((i, Some(s)));
    }
    sects.push((usize::MAX, body.and_then(|b| b.els().last()).filter(|e| e.name == "w:sectPr")));
    let rels = p.rels("word/document.xml").unwrap_or_default();
    let mut used: BTreeSet<String> = BTreeSet::new();
    for (i, s) in &sects {
        let who = if *i == usize::MAX { "the document".to_string() } else { format!("section {i}") };
        let Some(s) = s else {
            bad.push(("no-sectPr".into(), format!("{who} has no section properties")));
            continue;
        };
        for header in [true, false] {
            let el = if header { "w:headerReference" } else { "w:footerReference" };
            for kind in ["default", "first", "even"] {
                let want = g.f.hdrs.iter().find(|h| h.section == *i && h.header == header && h.kind == kind);
                let refs: Vec<_> = s.kids_named(el).filter(|e| e.attr("w:type") == Some(kind)).collect();
                let key = format!("{el}:{kind}");
                match (want, refs.len()) {
                    (None, 0) => {}
                    (None, n) => bad.push((format!("stray:{key}"), format!("{who} has {n} {kind} {el} that were not set"))),
                    (Some(h), 1) => {
                        let id = refs[0].attr("r:id").unwrap_or("");
                        let r: Vec<_> = rels.iter().filter(|r| r.id == id).collect();
                        let target = r.first().map(|r| r.target.clone()).unwrap_or_default();
                        if r.len() != 1 || !p.parts.contains_key(&target) {
                            bad.push((format!("unresolved:{key}"), format!("{kind} {el} {id:?} of {who} leads to {target:?} ({} relationships)", r.len())));
                            continue;
                        }
                        if !used.insert(target.clone()) {
                            bad.push((format!("shared:{key}"), format!("{target} is referenced more than once")));
                        }
                        let t = p.xml(&target).map(|x| x.text()).unwrap_or_default();
                        if !t.contains(&h.marker) {
                            bad.push((format!("content:{key}"), format!("{kind} {el} of {who} should hold {:?}, {target} holds {t:?}", h.marker)));
                        }
                    }
                    (Some(h), n) => bad.push((format!("missing:{key}"), format!("{who} has {n} {kind} {el}, set was {:?}", h.marker))),
                }
            }
            let other = s.kids_named(el).filter(|e| !matches!(e.attr("w:type"), Some("default" | "first" | "even"))).count();
            if other > 0 {
                bad.push((format!("type:{el}"), format!("{who} has a {el} of unknown type")));
            }
        }
        let first = g.f.hdrs.iter().any(|h| h.section == *i && h.kind == "first") || g.f.title_pg.contains(i);
        let has = s.kids_named("w:titlePg").any(|e| on(e));
        if first != has {
            bad.push((format!("titlePg:{}", if *i == usize::MAX { "document" } else { "section" }), format!("{who}: title page switch is {has}, first-page header or footer {first}")));
        }
    }
    let even = g.f.hdrs.iter().any(|h| h.kind == "even");
    let has = p.xml("word/settings.xml").map(|x| x.kids_named("w:evenAndOddHeaders").any(on)).unwrap_or(false);
    if even != has {
        bad.push(("evenAndOdd".into(), format!("even/odd switch is {has}, even-page headers or footers {even}")));
    }
    // every marker in one part only, replaced ones nowhere
    for n in p.names.iter().filter(|n| n.starts_with("word/") && n.ends_with(".xml") && (n.contains("/header") || n.contains("/footer"))) {
        if !used.contains(n) {
            bad.push((format!("unreferenced:{}", kind_of(n)), format!("{n} is not referenced by any section")));
        }
        let t = p.xml(n).map(|x| x.text()).unwrap_or_default();
        for m in &g.f.replaced {
            if t.contains(m.as_str()) {
                bad.push(("replaced".into(), format!("{n} holds {m:?}, which was replaced")));
            }
        }
        let k = g.f.hdrs.iter().filter(|h| t.contains(h.marker.as_str())).count();
        if k > 1 {
            bad.push(("mixed".into(), format!("{n} holds the content of {k} headers or footers")));
        }
    }
    bad
}

fn on(e: &El) -> bool {
    !matches!(e.attr("w:val"), Some("0" | "false" | "off"))
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document with headers and footers set in random order and repetition on document and sections, packed; references followed from every section; distinct = document".into();
    let n = if c.thorough { 24000 } else { 4000 };
    c.par(n, |c, i| {
        let mut o = if i % 2 == 0 { Opt::none() } else { Opt::all() };
        o.headers = true;
        o.sections = true;
        o.psect = false;
        o.props = false;
        o.blocks = if i % 4 < 2 { 4 } else { 14 };
        let seed = c.seed.wrapping_mul(1_000_099).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p, &g) {
                    c.bad(&k, m, g.log.clone());
                }
            }
        }
    });
}
