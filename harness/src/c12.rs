//! C12: comments, their ranges and their threads.
use crate::ctx::Ctx;
use crate::gen::{CommentFact, Gen, Opt};
use crate::pkg::{self, Pkg};
use serde_json::Value;
use std::collections::BTreeMap;

fn where_of(c: &CommentFact) -> String {
    c.place.rsplit('/').next().unwrap_or("").to_string()
}

/// Thread entries name the last paragraphs of their comments.
pub fn check_threads(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    if g.f.comments.is_empty() {
        return bad;
    }
    let (Ok(cs), Ok(ex)) = (p.xml("word/comments.xml"), p.xml("word/commentsExtended.xml")) else {
        return vec![("no-parts".into(), "the comments parts are missing or malformed".into())];
    };
    let mut last: BTreeMap<String, String> = BTreeMap::new();
    for c in cs.kids_named("w:comment") {
        let id = c.kids_named("w:p").last().and_then(|q| q.attr("w14:paraId")).unwrap_or("").to_string();
        last.insert(c.attr("w:id").unwrap_or("").into(), id);
    }
    let entries: Vec<(String, Option<String>)> = ex.kids_named("w15:commentEx").map(|e| (e.attr("w15:paraId").unwrap_or("").into(), e.attr("w15:paraIdParent").map(|s| s.into()))).collect();
    for (id, _) in &entries {
        if !last.values().any(|v| v == id) {
            bad.push(("thread-stray".into(), format!("a thread entry names paragraph {id}, which is not the last paragraph of a comment")));
        }
    }
    for c in &g.f.comments {
        let Some(pid) = last.get(&c.id.to_string()) else { continue };
        let e: Vec<_> = entries.iter().filter(|e| e.0 == *pid).collect();
        let parent = c.parent.and_then(|q| last.get(&q.to_string())).cloned();
        if e.len() != 1 || e[0].1 != parent {
            bad.push((format!("thread:{}", where_of(c)), format!("comment {} (paragraph {pid}) at {} with parent {:?} (paragraph {parent:?}) has thread entries {e:?}", c.id, c.place, c.parent)));
        }
    }
    bad
}

fn direct_texts(e: &crate::xml::El) -> Vec<String> {
    e.kids_named("w:p").map(|p| p.text()).collect()
}

pub fn check(p: &Pkg, g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    let Ok(doc) = p.xml("word/document.xml") else { return vec![("malformed".into(), "document".into())] };
    let cs = match p.xml("word/comments.xml") {
        Ok(x) => x,
        Err(e) => return if g.f.comments.is_empty() { bad } else { vec![("no-part".into(), e)] },
    };
    let all: Vec<_> = cs.kids_named("w:comment").collect();
    if all.len() != g.f.comments.len() {
        bad.push(("number".into(), format!("{} comments were attached, {} are in the comments part", g.f.comments.len(), all.len())));
    }
    if !g.f.comments.is_empty() && crate::c06::rels_of_kind(p, "comments").as_deref() != Some("word/comments.xml") {
        bad.push(("unreferenced".into(), "the comments part is not referenced".into()));
    }
    for c in &g.f.comments {
        let id = c.id.to_string();
        let w = where_of(c);
        let v: Vec<_> = all.iter().filter(|e| e.attr("w:id") == Some(&id)).collect();
        if v.len() != 1 {
            bad.push((format!("count:{w}"), format!("comment {id} at {} occurs {} times in the comments part", c.place, v.len())));
            continue;
        }
        let e = v[0];
        if e.attr("w:author") != Some(&c.author) || e.attr("w:date") != Some(&c.date) {
            bad.push((format!("who:{w}"), format!("comment {id} by {:?} on {:?} is written with {:?} {:?}", c.author, c.date, e.attr("w:author"), e.attr("w:date"))));
        }
        if direct_texts(e) != c.texts || e.kids_named("w:tbl").count() != c.tables {
            bad.push((format!("text:{w}"), format!("comment {id} at {} has text {:?} (+{} tables), written is {:?} (+{})", c.place, c.texts, c.tables, direct_texts(e), e.kids_named("w:tbl").count())));
        }
        for el in ["w:commentRangeStart", "w:commentRangeEnd", "w:commentReference"] {
            let k = doc.all(el).iter().filter(|e| e.attr("w:id") == Some(&id)).count();
            if k != 1 {
                bad.push((format!("{el}:{w}"), format!("comment {id} at {} has {k} {el}", c.place)));
            }
        }
        // the range covers something: start before end
        let mut order = vec![];
        doc.walk(&mut |e| {
            if e.attr("w:id") == Some(&id) && e.name.starts_with("w:comment") {
                order.push(e.name.clone());
            }
        });
        if order.len() == 3 && order != ["w:commentRangeStart", "w:commentRangeEnd", "w:commentReference"] {
            bad.push((format!("order:{w}"), format!("markers of comment {id} occur in the order {order:?}")));
        }
    }
    bad.extend(check_threads(p, g));
    bad
}

fn json_texts(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            if let (Some(Value::String(t)), Some(d)) = (m.get("type"), m.get("data")) {
                if t == "text" {
                    if let Some(Value::String(s)) = d.get("text") {
                        out.push_str(s);
                    }
                    return;
                }
            }
            for x in m.values() {
                json_texts(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| json_texts(x, out)),
        _ => {}
    }
}

fn json_comments(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(m) => {
            if m.get("type") == Some(&Value::String("commentRangeStart".into())) {
                if let Some(c) = m.get("data").and_then(|d| d.get("comment")) {
                    out.push(c.clone());
                }
            }
            m.values().for_each(|x| json_comments(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| json_comments(x, out)),
        _ => {}
    }
}

fn reread(b: &[u8], g: &Gen) -> Vec<(String, String)> {
    let mut bad = vec![];
    let d = match pkg::guard(|| docx_rs::read_docx(b)) {
        Ok(Ok(d)) => d,
        e => return vec![("read-fails".into(), format!("reading the package fails: {:?}", e.map(|r| r.err())))],
    };
    let j: Value = serde_json::from_str(&d.json()).unwrap_or(Value::Null);
    let mut cs = vec![];
    json_comments(&j["document"], &mut cs);
    for c in &g.f.comments {
        let w = where_of(c);
        let v: Vec<_> = cs.iter().filter(|x| x["id"].as_u64() == Some(c.id as u64)).collect();
        if v.len() != 1 {
            bad.push((format!("read-count:{w}"), format!("comment {} at {} is read {} times", c.id, c.place, v.len())));
            continue;
        }
        let kids = v[0]["children"].as_array().cloned().unwrap_or_default();
        let mut texts = vec![];
        for k in kids.iter().filter(|k| k["type"] == "paragraph") {
            let mut s = String::new();
            json_texts(&k["data"]["children"], &mut s);
            texts.push(s);
        }
        let tables = kids.iter().filter(|k| k["type"] == "table").count();
        if texts != c.texts || tables != c.tables {
            bad.push((format!("read-text:{w}"), format!("comment {} at {} has text {:?} (+{} tables), read is {texts:?} (+{tables})", c.id, c.place, c.texts, c.tables)));
        }
        if v[0]["author"].as_str() != Some(&c.author) || v[0]["date"].as_str() != Some(&c.date) {
            bad.push((format!("read-who:{w}"), format!("comment {} by {:?} on {:?} is read with {} {}", c.id, c.author, c.date, v[0]["author"], v[0]["date"])));
        }
        if v[0]["parentCommentId"].as_u64().map(|x| x as usize) != c.parent {
            bad.push((format!("read-parent:{w}"), format!("comment {} at {} has parent {:?}, read is {}", c.id, c.place, c.parent, v[0]["parentCommentId"])));
        }
    }
    bad
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document with comments and replies attached in every container, packed and read back; distinct = document".into();
    let n = if c.thorough { 20000 } else { 3000 };
    c.par(n, |c, i| {
        let mut o = Opt::all();
        o.props = false;
        o.images = false;
        o.headers = i % 4 == 0;
        o.run_comments = i % 4 == 1;
        o.ids = i % 3 == 0;
        if i % 2 == 0 {
            o.blocks = 10;
        }
        let seed = c.seed.wrapping_mul(1_000_121).wrapping_add(i as u64);
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        c.case(&g.log);
        let b = match if i % 3 == 0 { pkg::build_pack(d) } else { pkg::pack(d) } {
            Err(e) => return c.bad("pack-fails", format!("packing fails: {e}"), g.log.clone()),
            Ok(b) => b,
        };
        match Pkg::open(&b) {
            Err(e) => c.bad("zip", e, g.log.clone()),
            Ok(p) => {
                for (k, m) in check(&p, &g) {
                    c.bad(&k, m, g.log.clone());
                }
                // comment markers among the children of a run are not read
                if i % 4 != 1 {
                    for (k, m) in reread(&b, &g) {
                        c.bad(&k, m, g.log.clone());
                    }
                }
            }
        }
    });
}
