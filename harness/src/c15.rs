//! C15: custom XML items, document variables and custom properties survive.
use crate::ctx::Ctx;
use crate::pkg::{self, guard, Pkg};
use crate::rng::Rng;
use crate::xml::{El, Node};
use docx_rs::*;
use std::collections::{BTreeMap, BTreeSet};

const WORDS: &[&str] = &[
    "a", "B c", " ", "&", "<", ">", "\"", "'", "é", "漢字", "]]", "&amp;", "{}", "\n", "0", "://x?y=1&z", "--", "xml", "  x", ";", "#", "\u{1F600}", "%",
];
const NAMES: &[&str] = &["a", "b", "item", "x-1", "ds:item", "p:a", "p:b", "_u", "v.w", "Ünï", "w:p"];

fn words(r: &mut Rng, n: usize) -> String {
    (0..r.below(n)).map(|_| *r.pick(WORDS)).collect()
}

/// One caller string for an element, and what an XML parser sees in it.
fn element(r: &mut Rng, depth: usize, root: bool, out: &mut String) {
    let name = *r.pick(NAMES);
    out.push('<');
    out.push_str(name);
    if root {
        out.push_str(" xmlns:ds='urn:d' xmlns:p=\"urn:p\" xmlns:w=\"urn:w\"");
    } else if r.chance(15) {
        out.push_str(" xmlns:p=\"urn:other\"");
    }
    if r.chance(15) {
        out.push_str(" xmlns=\"urn:default\"");
    }
    let mut used = BTreeSet::new();
    for _ in 0..r.below(4) {
        let k = *r.pick(&["k", "id", "p:k", "ds:id", "x.y", "w:val", "xml:space"]);
        if used.insert(k) {
            let v = if k == "xml:space" { "preserve".to_string() } else { words(r, 4) };
            out.push_str(if r.chance(20) { "\n  " } else { " " });
            out.push_str(k);
            out.push_str(if r.chance(20) { " = " } else { "=" });
            attr(r, &v, out);
        }
    }
    let what = r.below(5);
    if what == 0 {
        out.push_str(if r.chance(50) { "/>" } else { " />" });
        return;
    }
    out.push('>');
    if what == 1 || depth == 0 {
        // text only, in pieces
        for _ in 0..1 + r.below(3) {
            let t = words(r, 4);
            text(r, &t, out);
            if r.chance(25) {
                out.push_str(*r.pick(&["<!-- c -->", "<?pi x?>", "<!---->"]));
            }
        }
    } else {
        for _ in 0..r.below(4) {
            if r.chance(30) {
                out.push_str(*r.pick(&["\n", "  ", "\t", "\n\n  ", "<!-- c -->", "<?pi?>"]));
            }
            element(r, depth - 1, false, out);
        }
        if r.chance(30) {
            out.push('\n');
        }
    }
    out.push_str("</");
    out.push_str(name);
    out.push_str(if r.chance(10) { " >" } else { ">" });
}

fn text(r: &mut Rng, t: &str, out: &mut String) {
    if r.chance(20) && !t.contains("]]>") {
        out.push_str("<![CDATA[");
        out.push_str(t);
        out.push_str("]]>");
        return;
    }
    for c in t.chars() {
        match c {
            '&' => out.push_str(*r.pick(&["&amp;", "&#38;", "&#x26;"])),
            '<' => out.push_str(*r.pick(&["&lt;", "&#60;"])),
            '>' => out.push_str("&gt;"),
            '"' => out.push_str(*r.pick(&["\"", "&quot;"])),
            '\'' => out.push_str(*r.pick(&["'", "&apos;", "&#39;"])),
            c => out.push(c),
        }
    }
}

fn attr(r: &mut Rng, v: &str, out: &mut String) {
    let q = *r.pick(&['"', '\'']);
    out.push(q);
    for c in v.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' if r.chance(50) => out.push_str("&gt;"),
            '\n' => out.push_str("&#10;"),
            c if c == q => out.push_str(if q == '"' { "&quot;" } else { "&apos;" }),
            c => out.push(c),
        }
    }
    out.push(q);
}

/// Text without surrounding white space, no white space between elements.
fn norm(e: &El) -> El {
    let mut kids: Vec<Node> = e.els().map(|k| Node::El(norm(k))).collect();
    let own: String = e.kids.iter().filter_map(|k| if let Node::Text(t) = k { Some(t.as_str()) } else { None }).collect();
    if !own.trim().is_empty() {
        kids.insert(0, Node::Text(own.trim().to_string()));
    }
    let mut attrs = e.attrs.clone();
    attrs.sort();
    El { name: e.name.clone(), attrs, kids }
}

fn pairs(v: &[(String, String)]) -> BTreeMap<String, String> {
    v.iter().cloned().collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random custom XML items (prefixes, default namespaces, comments, processing instructions, CDATA, references, white space), properties and variables; one evaluation = one package or one malformed item; distinct by item texts".into();
    let n = if ctx.thorough { 30000 } else { 4000 };
    ctx.par(n, |ctx, i| {
        let mut r = Rng::new(crate::ctx::hash(format!("c15 {} {i}", ctx.seed).as_bytes()));
        let mut items: Vec<(String, String)> = vec![];
        for k in 0..r.below(4) {
            let mut x = String::new();
            if r.chance(20) {
                x.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
            }
            let depth = r.below(4);
            element(&mut r, depth, true, &mut x);
            items.push((format!("06AC5857-5C65-A94A-BCEC-0000{i:04X}{k:04X}"), x));
        }
        let mut props: Vec<(String, String)> = vec![];
        let mut vars: Vec<(String, String)> = vec![];
        for _ in 0..r.below(4) {
            props.push((words(&mut r, 4), words(&mut r, 4)));
        }
        for _ in 0..r.below(4) {
            vars.push((words(&mut r, 4), words(&mut r, 4)));
        }
        let shown = format!("items {items:?} props {props:?} vars {vars:?}");
        ctx.case(&shown);
        let made = guard(|| {
            let mut d = Docx::new();
            for (id, x) in &items {
                d = d.add_custom_item(id, x);
            }
            for (k, v) in &props {
                d = d.custom_property(k, v);
            }
            for (k, v) in &vars {
                d = d.add_doc_var(k, v);
            }
            d
        });
        let d = match made {
            Ok(d) => d,
            Err(m) => return ctx.bad("panic", format!("adding panics: {m}: {shown}"), shown),
        };
        let b = match if i % 2 == 0 { pkg::pack(d) } else { pkg::build_pack(d) } {
            Ok(b) => b,
            Err(m) => return ctx.bad("pack", format!("packing fails: {m}: {shown}"), shown),
        };
        let p = match Pkg::open(&b) {
            Ok(p) => p,
            Err(m) => return ctx.bad("open", format!("{m}: {shown}"), shown),
        };
        let rels = p.rels("word/document.xml").unwrap_or_default();
        let parts: Vec<String> = rels.iter().filter(|x| x.ty.ends_with("/customXml")).map(|x| x.target.clone()).collect();
        if parts.len() != items.len() {
            return ctx.bad("count", format!("{} items, {} relationships: {shown}", items.len(), parts.len()), shown);
        }
        let mut seen = BTreeSet::new();
        for (k, (id, x)) in items.iter().enumerate() {
            let want = match crate::xml::parse(x) {
                Ok(e) => norm(&e),
                Err(m) => return ctx.bad("harness", format!("own XML is wrong: {m}: {x}"), x.clone()),
            };
            let part = &parts[k];
            match p.xml(part) {
                Ok(e) if norm(&e) == want => {}
                Ok(e) => ctx.bad("item", format!("item {k} differs: {x:?} became {e:?}"), x.clone()),
                Err(m) => ctx.bad("item", format!("item {k} unreadable ({m}): {x:?}"), x.clone()),
            }
            let pr = p.rels(part).unwrap_or_default();
            let [pr] = &pr[..] else { return ctx.bad("props", format!("item {k} has {} properties parts: {shown}", pr.len()), shown) };
            let target = pr.target.clone();
            if !seen.insert(target.clone()) {
                ctx.bad("props", format!("two items share {target}: {shown}"), shown.clone());
            }
            let got = p.xml(&target).ok().and_then(|e| e.attr("ds:itemID").map(|s| s.to_string()));
            if got != Some(format!("{{{id}}}")) {
                ctx.bad("id", format!("item {k} with id {id} has store id {got:?}: {shown}"), shown.clone());
            }
        }
        let got: Vec<(String, String)> = match p.xml("docProps/custom.xml") {
            Ok(e) => e.all("property").into_iter().map(|x| (x.attr("name").unwrap_or("?").to_string(), x.text())).collect(),
            Err(m) => return ctx.bad("custom.xml", format!("{m}: {shown}"), shown),
        };
        if got.len() != pairs(&props).len() || pairs(&got) != pairs(&props) {
            ctx.bad("properties", format!("{props:?} written as {got:?}"), shown.clone());
        }
        let pids: Vec<Option<u32>> = p.xml("docProps/custom.xml").map(|e| e.all("property").iter().map(|x| x.attr("pid").and_then(|p| p.parse().ok())).collect()).unwrap_or_default();
        if pids.iter().any(|p| p.map_or(true, |p| p < 2)) || pids.iter().collect::<BTreeSet<_>>().len() != pids.len() {
            ctx.bad("pid", format!("property ids {pids:?}: {shown}"), shown.clone());
        }
        let got: Vec<(String, String)> = match p.xml("word/settings.xml") {
            Ok(e) => e.all("w:docVar").into_iter().map(|x| (x.attr("w:name").unwrap_or("?").to_string(), x.attr("w:val").unwrap_or("?").to_string())).collect(),
            Err(m) => return ctx.bad("settings.xml", format!("{m}: {shown}"), shown),
        };
        if got != vars {
            ctx.bad("variables", format!("{vars:?} written as {got:?}"), shown.clone());
        }
        match guard(|| read_docx(&b)) {
            Ok(Ok(back)) => {
                let have: BTreeMap<String, String> = back.doc_props.custom.properties.into_iter().collect();
                if have != pairs(&props) {
                    ctx.bad("read properties", format!("{props:?} read as {have:?}"), shown.clone());
                }
            }
            x => ctx.bad("read", format!("{:?}: {shown}", x.map(|x| x.err())), shown.clone()),
        }
        // malformed items are refused, not a crash
        if let Some((_, x)) = items.first() {
            let cut: String = x.chars().take(r.below(x.chars().count())).collect();
            ctx.case(&cut);
            if let Err(m) = guard(|| cut.parse::<CustomItem>().is_ok()) {
                ctx.bad("panic", format!("parsing a truncated item panics: {m}: {cut}"), cut);
            }
        }
    });
    // many and deeply nested elements
    for (what, x) in [("many", format!("<a>{}</a>", "<b>t</b>".repeat(20000))), ("deep", format!("{}{}", "<a>".repeat(200), "</a>".repeat(200)))] {
        ctx.case(what);
        let me = std::env::current_exe().unwrap();
        let file = std::env::temp_dir().join(format!("c15-{}-{what}.xml", std::process::id()));
        let _ = std::fs::write(&file, &x);
        let ok = std::process::Command::new(me).arg("C15-child").arg(&file).output();
        let _ = std::fs::remove_file(&file);
        match ok {
            Ok(o) if o.status.success() => {}
            Ok(o) => ctx.bad(what, format!("an item with {what} elements is not written: {:?} {}", o.status, String::from_utf8_lossy(&o.stdout)), format!("{what} elements")),
            Err(e) => ctx.bad("harness", e.to_string(), what),
        }
    }
}

/// Runs in its own process: a crash there is a finding here.
pub fn child(file: &str) -> bool {
    let x = std::fs::read_to_string(file).unwrap();
    let b = pkg::pack(Docx::new().add_custom_item("06AC5857-5C65-A94A-BCEC-000000000000", &x)).unwrap();
    let got = Pkg::open(&b).unwrap().xml("customXml/item1.xml").unwrap();
    norm(&got) == norm(&crate::xml::parse(&x).unwrap())
}
