//! C02: caller strings are recovered exactly from the place where they were put.
use crate::ctx::Ctx;
use crate::pkg::{self, guard, Pkg};
use crate::rng::Rng;
use crate::xml::{is_xml_char, El};
use docx_rs::*;

const ALPHA: &[&str] = &[
    "&", "<", ">", "\"", "'", "\n", "\r", "\t", " ", "a", "Z", ";", "#", "é", "漢", "🦀", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;",
    "&#65;", "&#x41;", "]]>", "<w:p>", "</w:t>", "<!--", "&nbsp;", "\u{1}", "\u{b}", "\u{fffe}", "\u{ffff}", "\u{7f}", "\u{85}", "\u{2028}", "&;", "&#;", "&#x;", "&#+5;", "x&",
    "&amp", "--", "=\"", "/>", "\\", "%20",
];

fn word(r: &mut Rng) -> String {
    let n = r.below(7);
    (0..n).map(|_| *r.pick(ALPHA)).collect()
}

/// What an XML parser must see in character data / attribute values.
fn legal(s: &str) -> String {
    s.chars().filter(|c| *c != '\r' && is_xml_char(*c)).collect()
}
fn in_text(s: &str) -> String {
    legal(s).replace('\n', "")
}
fn in_attr(s: &str) -> String {
    legal(s).replace('\t', " ")
}

/// What the caller supplies, one string per place.
const N: usize = 40;

pub fn build(s: &[String]) -> Docx {
    let k = |i: usize| s[i].clone();
    let d = "2020-01-01T00:00:00Z";
    let run = |t: &str| Run::new().add_text(t);
    let fonts = |i: usize| RunFonts::new().ascii(k(i)).hi_ansi(k(i + 1)).east_asia(k(i + 2)).cs(k(i + 3));
    Docx::new()
        .add_style(Style::new(k(0), StyleType::Paragraph).name(k(1)).based_on(k(2)).next(k(3)).link(k(4)).fonts(fonts(5)))
        .add_paragraph(Paragraph::new().add_run(Run::new().add_text(k(9)).add_delete_text(k(10)).fonts(fonts(11)).style(&k(15))).style(&k(16)))
        .add_paragraph(Paragraph::new().add_insert(Insert::new(run("i")).author(k(17)).date(d)))
        .add_paragraph(Paragraph::new().add_delete(Delete::new().author(k(18)).date(d).add_run(Run::new().add_delete_text(k(19)))))
        .add_paragraph(Paragraph::new().add_move_from(MoveFrom::new().author(k(20)).date(d).add_run(Run::new().add_delete_text(k(21)))))
        .add_paragraph(Paragraph::new().add_move_to(MoveTo::new(run("m")).author(k(22)).date(d)))
        .add_paragraph(Paragraph::new().paragraph_property_change(ParagraphPropertyChange::new().author(k(23)).date(d).property(ParagraphProperty::new().align(AlignmentType::Center))))
        .add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new(k(24), HyperlinkType::External).add_run(Run::new().add_text(k(25)))))
        .add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new(k(26), HyperlinkType::Anchor).add_run(Run::new().add_text(k(27)))))
        .add_paragraph(Paragraph::new().add_comment_start(Comment::new(7).author(k(28)).date(d).add_paragraph(Paragraph::new().add_run(Run::new().add_text(k(29))))).add_run(run("c")).add_comment_end(7))
        .add_paragraph(Paragraph::new().delete(k(30), d).add_run(run("x")))
        .add_paragraph(Paragraph::new().insert(k(31), d).add_run(run("x")))
        .add_paragraph(Paragraph::new().add_insert(Insert::new(run("i")).author(k(32)).date(d).add_delete(Delete::new().author(k(33)).date(d).add_run(Run::new().add_delete_text(k(34))))))
        .add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text(k(35))))])]).style(k(36)))
        .header(Header::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text(k(37)))))
        .footer(Footer::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text(k(38)).style(&k(39)))))
}

fn first<'a>(e: &'a El, path: &[&str]) -> Option<&'a El> {
    let mut e = e;
    for p in path {
        e = e.child(p)?;
    }
    Some(e)
}

/// (place index, what is found there)
pub fn extract(p: &Pkg) -> Result<Vec<(usize, &'static str, Option<String>)>, String> {
    let mut o: Vec<(usize, &'static str, Option<String>)> = vec![];
    let doc = p.xml("word/document.xml")?;
    let body = doc.child("w:body").ok_or("no body")?;
    let ps: Vec<&El> = body.kids_named("w:p").collect();
    let styles = p.xml("word/styles.xml")?;
    let st = styles.kids_named("w:style").last().ok_or("no style")?;
    let val = |e: Option<&El>| e.and_then(|e| e.attr("w:val")).map(|s| s.to_string());
    let att = |e: Option<&El>, a: &str| e.and_then(|e| e.attr(a)).map(|s| s.to_string());
    let txt = |e: Option<&El>| e.map(|e| e.text());
    o.push((0, "style id", att(Some(st), "w:styleId")));
    o.push((1, "style name", val(st.child("w:name"))));
    o.push((2, "style basedOn", val(st.child("w:basedOn"))));
    o.push((3, "style next", val(st.child("w:next"))));
    o.push((4, "style link", val(st.child("w:link"))));
    let f = first(st, &["w:rPr", "w:rFonts"]);
    for (i, a) in ["w:ascii", "w:hAnsi", "w:eastAsia", "w:cs"].iter().enumerate() {
        o.push((5 + i, "style font", att(f, a)));
    }
    let g = |i: usize| -> Result<&El, String> { ps.get(i).copied().ok_or(format!("paragraph {i} missing")) };
    let r = g(0)?.child("w:r");
    o.push((9, "run text", txt(r.and_then(|r| r.child("w:t")))));
    o.push((10, "deleted text in run", txt(r.and_then(|r| r.child("w:delText")))));
    let f = r.and_then(|r| first(r, &["w:rPr", "w:rFonts"]));
    for (i, a) in ["w:ascii", "w:hAnsi", "w:eastAsia", "w:cs"].iter().enumerate() {
        o.push((11 + i, "run font", att(f, a)));
    }
    o.push((15, "run style id", val(r.and_then(|r| first(r, &["w:rPr", "w:rStyle"])))));
    o.push((16, "paragraph style id", val(first(g(0)?, &["w:pPr", "w:pStyle"]))));
    o.push((17, "insert author", att(g(1)?.child("w:ins"), "w:author")));
    o.push((18, "delete author", att(g(2)?.child("w:del"), "w:author")));
    o.push((19, "deleted text", txt(first(g(2)?, &["w:del", "w:r", "w:delText"]))));
    o.push((20, "moveFrom author", att(g(3)?.child("w:moveFrom"), "w:author")));
    o.push((21, "moved text", txt(first(g(3)?, &["w:moveFrom", "w:r", "w:delText"]))));
    o.push((22, "moveTo author", att(g(4)?.child("w:moveTo"), "w:author")));
    o.push((23, "property change author", att(first(g(5)?, &["w:pPr", "w:pPrChange"]), "w:author")));
    let rid = att(g(6)?.child("w:hyperlink"), "r:id");
    let tgt = match &rid {
        None => None,
        Some(rid) => {
            let rels = p.xml("word/_rels/document.xml.rels")?;
            let x = rels.kids_named("Relationship").find(|e| e.attr("Id") == Some(rid)).and_then(|e| e.attr("Target")).map(|s| s.to_string());
            x
        }
    };
    o.push((24, "hyperlink target", tgt));
    o.push((25, "hyperlink text", txt(first(g(6)?, &["w:hyperlink", "w:r", "w:t"]))));
    o.push((26, "hyperlink anchor", att(g(7)?.child("w:hyperlink"), "w:anchor")));
    o.push((27, "anchor text", txt(first(g(7)?, &["w:hyperlink", "w:r", "w:t"]))));
    let cm = p.xml("word/comments.xml")?;
    let c = cm.child("w:comment");
    o.push((28, "comment author", att(c, "w:author")));
    o.push((29, "comment text", txt(c.and_then(|c| first(c, &["w:p", "w:r", "w:t"])))));
    o.push((30, "paragraph delete author", att(first(g(9)?, &["w:pPr", "w:rPr", "w:del"]), "w:author")));
    o.push((31, "paragraph insert author", att(first(g(10)?, &["w:pPr", "w:rPr", "w:ins"]), "w:author")));
    o.push((32, "outer insert author", att(g(11)?.child("w:ins"), "w:author")));
    o.push((33, "nested delete author", att(first(g(11)?, &["w:ins", "w:del"]), "w:author")));
    o.push((34, "nested deleted text", txt(first(g(11)?, &["w:ins", "w:del", "w:r", "w:delText"]))));
    let t = body.child("w:tbl").ok_or("no table")?;
    o.push((35, "cell text", txt(first(t, &["w:tr", "w:tc", "w:p", "w:r", "w:t"]))));
    o.push((36, "table style id", val(first(t, &["w:tblPr", "w:tblStyle"]))));
    let h = p.xml("word/header1.xml")?;
    o.push((37, "header text", txt(first(&h, &["w:p", "w:r", "w:t"]))));
    let h = p.xml("word/footer1.xml")?;
    o.push((38, "footer text", txt(first(&h, &["w:p", "w:r", "w:t"]))));
    o.push((39, "footer run style", val(first(&h, &["w:p", "w:r", "w:rPr", "w:rStyle"]))));
    Ok(o)
}

const TEXTS: &[usize] = &[9, 10, 19, 21, 25, 27, 29, 34, 35, 37, 38];

fn check(c: &mut Ctx, s: &[String], tag: &str) -> Option<Vec<u8>> {
    let d = build(s);
    let rep = format!("strings by place: {s:?}");
    let b = match pkg::pack(d) {
        Ok(b) => b,
        Err(e) => {
            c.bad("pack-fails", e, rep);
            return None;
        }
    };
    let p = match Pkg::open(&b) {
        Ok(p) => p,
        Err(e) => {
            c.bad("zip", e, rep);
            return None;
        }
    };
    match extract(&p) {
        Err(e) => c.bad("malformed", format!("{tag}: {e}"), rep),
        Ok(v) => {
            for (i, what, got) in v {
                let want = if TEXTS.contains(&i) { in_text(&s[i]) } else { in_attr(&s[i]) };
                if got.as_deref() != Some(want.as_str()) {
                    c.bad(&format!("altered:{what}"), format!("{what}: supplied {:?}, an XML parser recovers {got:?} instead of {want:?}", s[i]), rep.clone());
                }
            }
            return Some(b);
        }
    }
    None
}

/// every run / deleted text, in document order, as the reader delivers it
fn texts(j: &serde_json::Value, out: &mut Vec<String>) {
    match j {
        serde_json::Value::Object(m) => {
            let ty = m.get("type").and_then(|t| t.as_str()).unwrap_or("");
            if ty == "text" || ty == "deleteText" {
                out.push(m["data"]["text"].as_str().unwrap_or("?").to_string());
                return;
            }
            for (_, v) in m {
                texts(v, out);
            }
        }
        serde_json::Value::Array(a) => a.iter().for_each(|v| texts(v, out)),
        _ => {}
    }
}
fn read_texts(b: &[u8]) -> Result<(Vec<String>, Docx), String> {
    let d = guard(|| read_docx(b))?.map_err(|e| format!("{e}"))?;
    let j: serde_json::Value = serde_json::from_str(&d.json()).map_err(|e| format!("{e}"))?;
    let mut v = vec![];
    texts(&j["document"], &mut v);
    Ok((v, d))
}

pub fn entity_like(s: &str) -> bool {
    ["&lt;", "&gt;", "&amp;", "&quot;", "&#", "&apos;", "&nbsp;"].iter().any(|e| s.contains(e))
}

fn reread(c: &mut Ctx, s: &[String], b: &[u8], known: bool) {
    let rep = format!("strings by place: {s:?}");
    let key = |k: &str| if known { format!("entity-text:{k}") } else { k.to_string() };
    let (a, d) = match read_texts(b) {
        Ok(x) => x,
        Err(e) => return c.bad("own-package-unreadable", e, rep),
    };
    let b2 = match pkg::pack(d) {
        Ok(b) => b,
        Err(e) => return c.bad("rewrite-fails", e, rep),
    };
    match read_texts(&b2) {
        Err(e) => c.bad("rewritten-unreadable", e, rep.clone()),
        Ok((a2, _)) => {
            if a != a2 {
                c.bad(&key("reread-text-differs"), format!("read {a:?}, written and read again {a2:?}"), rep.clone());
            }
        }
    }
    if let Ok(p) = Pkg::open(&b2) {
        for n in p.names.iter().filter(|n| Pkg::is_xml(n)) {
            if let Err(e) = p.xml(n) {
                c.bad("rewritten-malformed", format!("{n}: {e}"), rep.clone());
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    c.rule = "random strings in 40 places of a document (plus all short strings over the special characters), packed, strict XML parse; then read, written and read again; distinct = vector of strings".into();
    // all strings of length <= 2 over the special characters, 40 at a time
    let mut all: Vec<String> = vec![String::new()];
    for a in ALPHA {
        all.push(a.to_string());
        for b in ALPHA {
            all.push(format!("{a}{b}"));
            all.push(format!("k{a}{b}z"));
        }
    }
    let m = all.len().div_ceil(N);
    let all = &all;
    c.par(m, |c, i| {
        // rotate so that every string visits text and attribute places
        for rot in [0usize, 9, 21, 31] {
            let s: Vec<String> = (0..N).map(|j| all[(i * N + (j + rot) % N) % all.len()].clone()).collect();
            c.case(&format!("{s:?}"));
            check(c, &s, "short strings");
        }
    });
    let n = if c.thorough { 6000 } else { 900 };
    c.par(n, |c, i| {
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(i as u64));
        let s: Vec<String> = (0..N).map(|_| word(&mut r)).collect();
        c.case(&format!("{s:?}"));
        check(c, &s, "random strings");
        // reading back: texts that do not spell out a character reference
        let s: Vec<String> = s.iter().map(|x| if entity_like(x) { x.replace('&', "+") } else { x.clone() }).collect();
        if let Some(b) = check(c, &s, "random strings") {
            reread(c, &s, &b, false);
        }
    });
    // the known finding's own input
    let mut s: Vec<String> = vec!["t".to_string(); N];
    s[9] = "&amp;lt;".into();
    s[9] = "&amp;amp;amp;".into();
    if let Some(b) = check(c, &s, "entity text") {
        reread(c, &s, &b, true);
    }
}
