//! C06: relationships, relationship ids, content types and part names of produced packages.
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use std::collections::{BTreeMap, BTreeSet};

const OD: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";

/// Content type a part must have, by the kind of relationship that leads to it.
fn expected_type(rel: &str) -> Option<&'static str> {
    let w = |k: &str| -> Option<&'static str> {
        Some(match k {
            "officeDocument" => "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
            "styles" => "application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml",
            "settings" => "application/vnd.openxmlformats-officedocument.wordprocessingml.settings+xml",
            "fontTable" => "application/vnd.openxmlformats-officedocument.wordprocessingml.fontTable+xml",
            "comments" => "application/vnd.openxmlformats-officedocument.wordprocessingml.comments+xml",
            "numbering" => "application/vnd.openxmlformats-officedocument.wordprocessingml.numbering+xml",
            "footnotes" => "application/vnd.openxmlformats-officedocument.wordprocessingml.footnotes+xml",
            "header" => "application/vnd.openxmlformats-officedocument.wordprocessingml.header+xml",
            "footer" => "application/vnd.openxmlformats-officedocument.wordprocessingml.footer+xml",
            "extended-properties" => "application/vnd.openxmlformats-officedocument.extended-properties+xml",
            "custom-properties" => "application/vnd.openxmlformats-officedocument.custom-properties+xml",
            "customXmlProps" => "application/vnd.openxmlformats-officedocument.customXmlProperties+xml",
            "image" => "image/png",
            _ => return None,
        })
    };
    if let Some(k) = rel.strip_prefix(OD) {
        return w(k);
    }
    match rel {
        "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" => Some("application/vnd.openxmlformats-package.core-properties+xml"),
        "http://schemas.microsoft.com/office/2011/relationships/commentsExtended" => Some("application/vnd.openxmlformats-officedocument.wordprocessingml.commentsExtended+xml"),
        "http://schemas.microsoft.com/office/2011/relationships/webextensiontaskpanes" => Some("application/vnd.ms-office.webextensiontaskpanes+xml"),
        "http://schemas.microsoft.com/office/2011/relationships/webextension" => Some("application/vnd.ms-office.webextension+xml"),
        _ => None,
    }
}

/// Kind of relationship the use of a relationship id requires.
fn required_kind(el: &str, attr: &str) -> Option<&'static str> {
    Some(match (el, attr) {
        ("w:hyperlink", "r:id") => "hyperlink",
        ("a:blip", "r:embed") => "image",
        ("v:imagedata", "r:id") => "image",
        ("w:headerReference", "r:id") => "header",
        ("w:footerReference", "r:id") => "footer",
        ("wetp:webextensionref", "r:id") => "webextension",
        _ => return None,
    })
}

pub fn kind_of(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).collect()
}

pub fn check(p: &Pkg) -> Vec<(String, String)> {
    let mut bad: Vec<(String, String)> = vec![];
    let mut v = |k: String, m: String| bad.push((k, m));
    let mut seen = BTreeSet::new();
    for n in &p.names {
        if !seen.insert(n.to_ascii_lowercase()) {
            v("dup-part".into(), format!("part name {n} occurs twice"));
        }
    }
    // content types
    let ct = match p.xml("[Content_Types].xml") {
        Ok(x) => x,
        Err(e) => return vec![("content-types".into(), e)],
    };
    let mut over: BTreeMap<String, String> = BTreeMap::new();
    for o in ct.kids_named("Override") {
        let (n, t) = (o.attr("PartName").unwrap_or(""), o.attr("ContentType").unwrap_or(""));
        let n = n.trim_start_matches('/').to_string();
        if !p.parts.contains_key(&n) {
            v(format!("override-absent:{}", kind_of(&n)), format!("content type given for {n}, which is not in the package"));
        }
        if over.insert(n.clone(), t.to_string()).is_some() {
            v("override-twice".into(), format!("two content types for {n}"));
        }
    }
    let mut def: BTreeMap<String, String> = BTreeMap::new();
    for o in ct.kids_named("Default") {
        let (n, t) = (o.attr("Extension").unwrap_or("").to_ascii_lowercase(), o.attr("ContentType").unwrap_or(""));
        if def.insert(n.clone(), t.to_string()).is_some() {
            v("default-twice".into(), format!("two default content types for extension {n}"));
        }
    }
    let type_of = |n: &str| -> Option<String> {
        over.get(n).or_else(|| n.rsplit_once('.').and_then(|(_, e)| def.get(&e.to_ascii_lowercase()))).cloned()
    };
    for n in &p.names {
        if n != "[Content_Types].xml" && type_of(n).is_none() {
            v(format!("no-content-type:{}", kind_of(n)), format!("part {n} has no content type"));
        }
        if n.ends_with(".rels") && n != "_rels/.rels" {
            let src = n.replace("_rels/", "").trim_end_matches(".rels").to_string();
            if !p.parts.contains_key(&src) {
                v(format!("rels-without-part:{}", kind_of(n)), format!("relationships {n} belong to no part"));
            }
        }
    }
    // relationships
    let mut sources: Vec<String> = vec![String::new()];
    sources.extend(p.names.iter().filter(|n| n.ends_with(".xml") && *n != "[Content_Types].xml").cloned());
    for s in &sources {
        let rels = match p.rels(s) {
            Ok(r) => r,
            Err(e) => {
                v("rels-malformed".into(), e);
                continue;
            }
        };
        let mut ids = BTreeMap::new();
        for r in &rels {
            if ids.insert(r.id.clone(), r.clone()).is_some() {
                v(format!("rel-id-twice:{}", kind_of(s)), format!("relationship id {} occurs twice in the relationships of {s:?}", r.id));
            }
            if r.id.is_empty() {
                v("rel-id-empty".into(), format!("empty relationship id in {s:?}"));
            }
            let k = r.ty.rsplit('/').next().unwrap_or("");
            if k == "hyperlink" && !r.external {
                v("hyperlink-internal".into(), format!("hyperlink {} of {s:?} is not marked external", r.id));
            }
            if r.external {
                if k != "hyperlink" {
                    v("external".into(), format!("relationship {} of {s:?} of type {} is external", r.id, r.ty));
                }
                continue;
            }
            if !p.parts.contains_key(&r.target) {
                v(format!("target-absent:{}", kind_of(&r.target)), format!("relationship {} of {s:?} leads to {}, which is not in the package", r.id, r.target));
                continue;
            }
            if let Some(t) = expected_type(&r.ty) {
                if type_of(&r.target).as_deref() != Some(t) {
                    v(format!("wrong-content-type:{}", kind_of(&r.target)), format!("part {} has content type {:?}, its relationship requires {t}", r.target, type_of(&r.target)));
                }
            }
        }
        if s.is_empty() {
            let mains = rels.iter().filter(|r| r.ty == format!("{OD}officeDocument")).count();
            if mains != 1 {
                v("main-document".into(), format!("{mains} relationships to a main document"));
            }
            continue;
        }
        let x = match p.xml(s) {
            Ok(x) => x,
            Err(e) => {
                v("malformed".into(), e);
                continue;
            }
        };
        x.walk(&mut |e| {
            for (a, val) in &e.attrs {
                if !a.starts_with("r:") {
                    continue;
                }
                match ids.get(val) {
                    None => v(format!("undeclared:{}:{}{}", kind_of(s), e.name, if e.name == "wetp:webextensionref" && !p.names.iter().any(|n| n.contains("/webextension")&& !n.contains("taskpanes")) { ":no-extension" } else { "" }), format!("{} of {} in {s} uses relationship {val:?}, which is not declared", a, e.name)),
                    Some(r) => {
                        if let Some(k) = required_kind(&e.name, a) {
                            if r.ty.rsplit('/').next() != Some(k) {
                                v(format!("kind:{}:{}", kind_of(s), e.name), format!("{} of {} in {s} uses relationship {val:?} of type {}, needs {k}", a, e.name, r.ty));
                            }
                        }
                    }
                }
            }
        });
        // things referred to by id in another part
        let related = |k: &str| rels_of_kind(p, k);
        for (el, k, item) in [("w:footnoteReference", "footnotes", "w:footnote"), ("w:commentReference", "comments", "w:comment")] {
            if s != "word/document.xml" {
                continue;
            }
            let uses = x.all(el);
            if uses.is_empty() {
                continue;
            }
            match related(k) {
                None => v(format!("unrelated:{k}"), format!("{el} in {s}, but the document has no relationship to {k}")),
                Some(t) => {
                    if let Ok(tx) = p.xml(&t) {
                        let have: BTreeSet<&str> = tx.all(item).iter().filter_map(|e| e.attr("w:id")).collect();
                        for u in uses {
                            if !have.contains(u.attr("w:id").unwrap_or("")) {
                                v(format!("no-item:{k}"), format!("{el} {:?} has no entry in {t}", u.attr("w:id")));
                            }
                        }
                    }
                }
            }
        }
    }
    bad
}

pub fn rels_of_kind(p: &Pkg, k: &str) -> Option<String> {
    p.rels("word/document.xml").ok()?.into_iter().find(|r| r.ty.rsplit('/').next() == Some(k)).map(|r| r.target)
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document through the builder API, packed; relationship targets, ids, uses and content types of every part checked; distinct = document".into();
    let n = if c.thorough { 20000 } else { 3000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.props = i % 4 == 0;
        if i % 5 == 0 {
            o.blocks = 10;
        }
        o.wild = i % 6 == 1;
        o.clash = i % 2 == 0;
        o.aux_media = i % 40 == 7;
        let seed = c.seed.wrapping_mul(1_000_033).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p) {
                    c.bad(&k, m, g.log.clone());
                }
            }
        }
    });
    // documents that were read and are written again
    c.par(n / 4, |c, i| {
        let mut o = Opt::all();
        o.props = false;
        o.images = false;
        o.run_comments = false;
        let seed = c.seed.wrapping_mul(1_000_037).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        let log = format!("{}\nthen read back and packed again", g.log);
        c.case(&log);
        let Ok(b) = pkg::pack(d) else { return };
        let Ok(Ok(d2)) = pkg::guard(|| docx_rs::read_docx(&b)) else { return };
        match pkg::pack(d2).and_then(|b| Pkg::open(&b)) {
            Err(e) => c.bad("repack-fails", format!("packing what was read fails: {e}"), log),
            Ok(p) => {
                for (k, m) in check(&p) {
                    c.bad(&format!("reread:{k}"), m, log.clone());
                }
            }
        }
    });
}
