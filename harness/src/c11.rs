//! C11: what was written is read back.
//!
//! A document is written, read, written, read and written: the values read are compared field by field with
//! those of the document, the parts written the first and second time element by element, and the parts
//! written the second and third time must be the same.
use crate::ctx::Ctx;
use crate::gen::{Gen, Opt};
use crate::pkg::{self, Pkg};
use crate::xml::{El, Node};
use docx_rs::*;
use serde_json::{json, Value};

/// Fields that only the writer or only the reader knows, or that are given out anew: (field holding the value, field).
/// An empty first part stands for any.
const FIELDS: &[(&str, &str)] = &[
    ("", "stretch"), ("page_size", "orient"), ("", "alias"), ("property", "layout"), ("table_property", "layout"), ("", "data_binding"),
    ("", "cant_split"), ("", "bidi"), ("", "columns"), ("section_property", "space"), ("section_property", "text_direction"),
    ("", "has_numbering"), ("", "history"), ("", "grid_before"), ("", "grid_after"), ("", "width_before"), ("", "width_after"),
    ("", "hanging_chars"), ("", "first_line_chars"), ("header_reference", "id"), ("first_header_reference", "id"),
    ("even_header_reference", "id"), ("footer_reference", "id"), ("first_footer_reference", "id"), ("even_footer_reference", "id"),
    ("", "next"), ("", "semi_hidden"), ("", "unhide_when_used"), ("", "ui_priority"), ("", "path"), ("", "div_id"),
    // read back with default content in its place
    ("", "doc_id"),
];

/// Switches that are written only when they are on.
const ON_ONLY: &[&str] = &["keep_next", "keep_lines", "page_break_before", "widow_control"];

/// The value as a reader of what was written is to see it.
fn clean(v: &Value, holder: &str) -> Value {
    match v {
        Value::Object(m) => {
            let mut o = serde_json::Map::new();
            for (k, x) in m {
                if FIELDS.iter().any(|(h, f)| f == k && (h.is_empty() || *h == holder)) {
                    continue;
                }
                if ON_ONLY.contains(&k.as_str()) && x == &json!(false) {
                    continue;
                }
                let y = match k.as_str() {
                    // an instruction is read as its text
                    "InstrText" | "InstrTextString" => {
                        o.insert("Instruction".into(), Value::Null);
                        continue;
                    }
                    // the height rule is an attribute of the height
                    "height_rule" if m.get("row_height").map_or(true, Value::is_null) => continue,
                    "height_rule" if x.is_null() => json!("AtLeast"),
                    // only table styles are written with table properties
                    "table_property" | "table_cell_property" if m.get("style_type").map_or(false, |t| t != "Table") => continue,
                    // a cell without content holds an empty paragraph
                    "children" if holder == "TableCell" && x == &json!([]) => continue,
                    "children" if holder == "TableCell" && empty_paragraph(&clean(x, k)) => continue,
                    // indents are written with both sides
                    "start" | "end" if holder == "indent" && x.is_null() => json!(0),
                    "indent" if x.get("width") == Some(&json!(0)) => continue,
                    "text" if holder == "Text" || holder == "DeleteText" => json!(plain(x.as_str().unwrap_or(""))),
                    // header and footer: id and content
                    "tuple" => match x {
                        Value::Array(a) => clean(&Value::Array(a.iter().filter(|e| !e.is_string()).cloned().collect()), k),
                        _ => clean(x, k),
                    },
                    _ => clean(x, k),
                };
                if !y.is_null() {
                    o.insert(k.clone(), y);
                }
            }
            Value::Object(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| clean(x, holder)).collect()),
        _ => v.clone(),
    }
}

fn empty_paragraph(x: &Value) -> bool {
    matches!(x.as_array(), Some(a) if a.len() == 1 && a[0].get("Paragraph").map_or(false, |p| p["children"] == json!([]) && p["property"] == json!({"run_property": {}, "tabs": []})))
}

/// Text as it is read; both sides are in the form a debugging print gives.
fn plain(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\\\"").replace("&apos;", "'").replace("&amp;", "&")
}

/// Differences between two values, as (place, what).
fn vdiff(a: &Value, b: &Value, at: &str, out: &mut Vec<(String, String)>) {
    let sub = |k: &str| format!("{}.{k}", at.rsplit_once('.').map_or(at, |p| p.1));
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                vdiff(v, y.get(k).unwrap_or(&Value::Null), &sub(k), out);
            }
            for (k, v) in y.iter().filter(|(k, _)| !x.contains_key(*k)) {
                vdiff(&Value::Null, v, &sub(k), out);
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).for_each(|(v, w)| vdiff(v, w, at, out)),
        _ if a != b => {
            let f = |v: &Value| v.to_string().chars().take(200).collect::<String>();
            out.push((at.to_string(), format!("{} was read back as {}", f(a), f(b))))
        }
        _ => {}
    }
}

/// Elements the reader does not know: (parent, element).
const UNREAD: &[(&str, &str)] = &[
    ("w:rPr", "w:w"), ("w:tblPr", "w:tblLayout"), ("w:trPr", "w:cantSplit"), ("w:pPr", "w:bidi"), ("w:sectPr", "w:cols"),
    ("w:sectPr", "w:textDirection"), ("w:sdt", "w:sdtPr"), ("w:style", "w:next"), ("w:style", "w:semiHidden"),
    ("w:style", "w:unhideWhenUsed"), ("w:style", "w:uiPriority"), ("w:r", "w:delInstrText"), ("w:r", "w:commentReference"),
];

/// Attributes the reader does not know, or that are given out anew whenever a part is written: (element, attribute).
const UNREAD_ATTRS: &[(&str, &str)] = &[
    ("w:pgSz", "w:orient"), ("w:ins", "w:id"), ("w:del", "w:id"), ("w:moveFrom", "w:id"), ("w:moveTo", "w:id"), ("w:pPrChange", "w:id"),
    ("w:instrText", "xml:space"),
];

/// What is compared of an element. `again`: it was written from what had been read.
fn norm(e: &El, parent: &str, again: bool) -> El {
    let keep = |k: &str| !UNREAD_ATTRS.contains(&(e.name.as_str(), k));
    let mut o = El { name: e.name.clone(), attrs: e.attrs.iter().filter(|a| keep(&a.0)).cloned().collect(), kids: vec![] };
    for k in &e.kids {
        let c = match k {
            Node::Text(t) => {
                o.kids.push(Node::Text(t.clone()));
                continue;
            }
            Node::El(c) => c,
        };
        let n = c.name.as_str();
        let d = norm(c, &e.name, again);
        let dropped = if again {
            // the end of a comment is written with runs of its own
            n == "w:r" && d.els().all(|k| k.name == "w:commentReference" || k.name == "w:rPr" && k.kids.is_empty())
        } else {
            UNREAD.contains(&(e.name.as_str(), n))
                // only the last section's headers and footers are read
                || e.name == "w:sectPr" && parent == "w:pPr" && (n == "w:headerReference" || n == "w:footerReference")
                || n == "w:widowControl" && c.attr("w:val") == Some("0")
                || n == "w:tblInd" && c.attr("w:w") == Some("0")
                // nothing to see
                || d.kids.is_empty() && (n == "w:t" || n == "w:rPr" || n == "w:r")
        };
        if !dropped {
            o.kids.push(Node::El(d));
        }
    }
    o
}

/// Differences between two trees, as (place, what).
fn diff(a: &El, b: &El, at: &str, out: &mut Vec<(String, String)>) {
    for (k, v) in &a.attrs {
        match b.attr(k) {
            None => out.push((format!("{at}@{k}"), format!("{v:?} is lost"))),
            Some(w) if w != v => out.push((format!("{at}@{k}"), format!("{v:?} became {w:?}"))),
            _ => {}
        }
    }
    for (k, w) in b.attrs.iter().filter(|(k, _)| a.attr(k).is_none()) {
        out.push((format!("{at}@{k}"), format!("{w:?} is new")));
    }
    let name = |n: &Node| match n {
        Node::El(e) if ["w:style", "w:abstractNum", "w:num", "w:lvl"].contains(&e.name.as_str()) => {
            let id = ["w:styleId", "w:abstractNumId", "w:numId", "w:ilvl"].iter().find_map(|k| e.attr(k));
            format!("{} {}", e.name, id.unwrap_or(""))
        }
        Node::El(e) => e.name.clone(),
        Node::Text(_) => "text".to_string(),
    };
    let (x, y) = (&a.kids, &b.kids);
    // pair what the longest common subsequence of names pairs
    let (n, m) = (x.len(), y.len());
    let (nx, ny): (Vec<_>, Vec<_>) = (x.iter().map(name).collect(), y.iter().map(name).collect());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if nx[i] == ny[j] { 1 + l[i + 1][j + 1] } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let up = at.rsplit_once('/').map_or(at, |p| p.1);
    while i < n || j < m {
        if i < n && j < m && nx[i] == ny[j] {
            match (&x[i], &y[j]) {
                (Node::El(p), Node::El(q)) => diff(p, q, &format!("{up}/{}", p.name), out),
                (Node::Text(p), Node::Text(q)) if p != q => out.push((format!("{up}/text"), format!("{p:?} became {q:?}"))),
                _ => {}
            }
            i += 1;
            j += 1;
        } else if j >= m || (i < n && l[i + 1][j] >= l[i][j + 1]) {
            out.push((format!("{up}/{}", nx[i]), "is lost".to_string()));
            i += 1;
        } else {
            out.push((format!("{up}/{}", ny[j]), "is new".to_string()));
            j += 1;
        }
    }
}

fn part_kind(nm: &str) -> String {
    nm.trim_start_matches("word/").chars().filter(|c| !c.is_ascii_digit()).collect()
}

/// Compares the parts of two packages.
fn compare(c: &mut Ctx, p1: &Pkg, p2: &Pkg, again: bool, log: &str) {
    for nm in &p1.names {
        let kind = part_kind(nm);
        if !Pkg::is_xml(nm) || !again && !["document.xml", "header.xml", "footer.xml", "styles.xml", "comments.xml"].contains(&kind.as_str()) {
            continue;
        }
        // definitions nothing refers to are written but not read
        if kind == "numbering.xml" && !p1.rels("word/document.xml").unwrap_or_default().iter().any(|r| &r.target == nm) {
            continue;
        }
        if !p2.parts.contains_key(nm) {
            if again {
                c.bad(&format!("again:part:{kind}"), format!("part {nm} is lost when what was read is written and read again"), log.to_string());
            }
            // headers and footers of inner sections are not read
            continue;
        }
        let (x, y) = match (p1.xml(nm), p2.xml(nm)) {
            (Ok(x), Ok(y)) => (x, y),
            (a, b) => {
                let e = a.err().or(b.err()).unwrap_or_default();
                c.bad("malformed", format!("{nm}: {e}"), log.to_string());
                continue;
            }
        };
        let (x, y) = (norm(&x, "", again), norm(&y, "", again));
        let mut v = vec![];
        diff(&x, &y, &x.name, &mut v);
        if let Some((at, what)) = v.into_iter().next() {
            let (key, how) = if again { ("again", "written, read and written again") } else { ("part", "written and read") };
            let at = at.split(' ').next().unwrap_or("").to_string();
            c.bad(&format!("{key}:{kind}:{at}"), format!("{nm}: {at}: {what} when {how}"), format!("{log}\n--- before\n{}\n--- after\n{}", show(&x), show(&y)));
        }
    }
}

fn show(e: &El) -> String {
    let mut s = format!("<{}", e.name);
    for (k, v) in &e.attrs {
        s += &format!(" {k}={v:?}");
    }
    s += ">";
    for k in &e.kids {
        match k {
            Node::Text(t) => s += t,
            Node::El(c) => s += &show(c),
        }
    }
    s + &format!("</{}>", e.name)
}

fn read(b: &[u8]) -> Result<Docx, String> {
    match pkg::guard(|| read_docx(b)) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("error {e}")),
        Err(e) => Err(format!("panic {e}")),
    }
}

fn one(c: &mut Ctx, d: Docx, values: bool, log: &str) {
    let before = values.then(|| (clean(&crate::c13::view(&d.document), ""), clean(&crate::c13::view(&d.styles.styles), "styles")));
    let b1 = match pkg::pack(d) {
        Ok(b) => b,
        Err(e) => return c.bad("unwritable", format!("the document is not written: {e}"), log.to_string()),
    };
    let r1 = match read(&b1) {
        Ok(d) => d,
        Err(e) => return c.bad("unreadable", format!("what was written is not read: {e}"), log.to_string()),
    };
    if let Some((doc, styles)) = before {
        let own: Vec<_> = r1.styles.styles.iter().filter(|s| s.style_id != "Normal").cloned().collect();
        let mut v = vec![];
        vdiff(&doc, &clean(&crate::c13::view(&r1.document), ""), "document", &mut v);
        vdiff(&styles, &clean(&crate::c13::view(&own), "styles"), "styles", &mut v);
        if let Some((at, what)) = v.into_iter().next() {
            c.bad(&format!("value:{at}"), format!("{at}: {what}"), log.to_string());
        }
    }
    let b2 = match pkg::build_pack(r1) {
        Ok(b) => b,
        Err(e) => return c.bad("unwritable-again", format!("what was read is not written: {e}"), log.to_string()),
    };
    let r2 = match read(&b2) {
        Ok(d) => d,
        Err(e) => return c.bad("unreadable-again", format!("what was read and written is not read: {e}"), log.to_string()),
    };
    let b3 = match pkg::build_pack(r2) {
        Ok(b) => b,
        Err(e) => return c.bad("unwritable-again", format!("what was read twice is not written: {e}"), log.to_string()),
    };
    let (Ok(p1), Ok(p2), Ok(p3)) = (Pkg::open(&b1), Pkg::open(&b2), Pkg::open(&b3)) else {
        return c.bad("zip", "a package is not a zip archive".to_string(), log.to_string());
    };
    compare(c, &p1, &p2, false, log);
    compare(c, &p2, &p3, true, log);
}

/// Documents that are known not to come back as they were.
fn known(c: &mut Ctx) {
    let p = || Paragraph::new().add_run(Run::new().add_text("a"));
    let back = |d: Docx| pkg::build_pack(d).and_then(|b| read(&b));
    let texts = |d: &Docx| {
        d.document.children.iter().map(|x| if let DocumentChild::Paragraph(p) = x { p.children.len() } else { 0 }).sum::<usize>()
    };
    c.case("comment");
    let d = Docx::new().add_paragraph(Paragraph::new().add_comment_start(Comment::new(1).author("A").date("2020-01-01T00:00:00Z").add_paragraph(p())).add_run(Run::new().add_text("a")).add_comment_end(1));
    match back(d).map(|d| (texts(&d), d)).and_then(|(n, d)| Ok((n, texts(&back(d)?)))) {
        Ok((a, b)) if a == 3 && b == 3 => {}
        r => c.bad("comment-end:empty-runs", format!("a paragraph of a comment start, a run and a comment end has, read once and twice, this many children: {r:?}"), "comment".to_string()),
    }
    c.case("widow control");
    match back(Docx::new().add_paragraph(p().widow_control(false))).map(|d| first(&d).and_then(|p| p.property.widow_control)) {
        Ok(Some(false)) => {}
        r => c.bad("widow-control:off", format!("widow control switched off is read back as {r:?}"), "widow control".to_string()),
    }
    c.case("style");
    match back(Docx::new().add_style(Style::new("Q", StyleType::Paragraph).q_format(false))).map(|d| d.styles.styles.iter().find(|s| s.style_id == "Q").map(|s| s.q_format)) {
        Ok(Some(false)) => {}
        r => c.bad("style:not-primary", format!("a style that is not a primary one is read back with this mark: {r:?}"), "style".to_string()),
    }
    c.case("table indent");
    let t = Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p())])]).indent(0);
    let want = crate::c13::view(&t)["property"]["indent"].clone();
    match back(Docx::new().add_table(t)).map(|d| crate::c13::view(&d.document.children[0])["Table"]["property"]["indent"].clone()) {
        Ok(v) if v == want => {}
        r => c.bad("table-indent:zero", format!("a table indent of zero, {want}, is read back as {r:?}"), "table indent".to_string()),
    }
}

fn first(d: &Docx) -> Option<&Paragraph> {
    d.document.children.iter().find_map(|x| if let DocumentChild::Paragraph(p) = x { Some(&**p) } else { None })
}

pub fn run(c: &mut Ctx) {
    c.rule = "a random document, written, read, written, read, written: values and parts compared; distinct = document".into();
    known(c);
    let n = if c.thorough { 12000 } else { 2400 };
    c.par(n, |c, i| {
        let values = i % 2 == 0;
        let mut o = Opt::all();
        o.images = false;
        o.run_comments = false;
        o.isdt = false;
        o.entities = false;
        o.footnotes = false;
        o.toc = i % 10 == 9;
        o.blocks = 3;
        o.wild = i % 4 >= 2;
        o.empties = true;
        if values {
            o.comments = false;
            o.sections = i % 4 == 0;
            o.psect = true;
            o.page_fields = false;
        }
        let seed = crate::ctx::hash(format!("c11 {} {i}", c.seed).as_bytes());
        let mut g = Gen::new(seed, o);
        let d = g.doc();
        let values = values && !d.document.children.iter().any(|x| matches!(x, DocumentChild::Section(_)));
        c.case(&g.log);
        one(c, d, values, &g.log);
    });
}
