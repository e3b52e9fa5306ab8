//! C10: reading arbitrary input returns a document or an error; it never panics, overflows the stack or hangs.
//! Cases run in child processes with a memory limit; the parent watches progress.
use crate::ctx::{hash, Ctx};
use crate::gen::{Gen, Opt};
use crate::pkg::{self, guard};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(25);
const VALUES: &[&str] = &[
    "", " ", "0", "1", "-1", "2", "9", "10", "255", "256", "65535", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "18446744073709551615", "18446744073709551616", "-9223372036854775808", "99999999999999999999999", "1e400", "-1e400", "NaN", "inf", "1.5", "-0.5", "0.0000001", "%", "50%", "5000%", "é",
    "漢字", "\u{1F600}", "true", "false", "on", "off", "none", "auto", "FFFFFF", "12345678", "0x10", "+5", "+", "-", ".", "a b c", "&amp;", "&lt;x&gt;", "&#0;", "&#xFFFFFF;", "rId1", "rId99", "single", "center",
    "1pt", "12pt", "-3pt", "pt", "é3pt", "TOC \\o \"1-3\" \\h", "TOC \\o", "PAGEREF _x \\h", "HYPERLINK \"x\" \\l", "\\", "\"", "style=\"width:1pt\"", "width:1pt;height:2pt", "width:", ";;", "../..", "/", "//", "/word/document.xml", "http://x",
];

pub struct Seeds {
    names: Vec<String>,
    docs: Vec<Vec<(String, Vec<u8>)>>,
}

fn unzip(b: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let mut z = zip::ZipArchive::new(Cursor::new(b)).ok()?;
    let mut v = vec![];
    for i in 0..z.len() {
        let mut f = z.by_index(i).ok()?;
        if !f.is_dir() {
            let mut d = vec![];
            f.read_to_end(&mut d).ok()?;
            v.push((f.name().to_string(), d));
        }
    }
    Some(v)
}

fn zipped(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(vec![]));
    let opt: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default();
    for (n, d) in parts {
        if z.start_file(n.as_str(), opt).is_ok() {
            let _ = z.write_all(d);
        }
    }
    z.finish().map(|c| c.into_inner()).unwrap_or_default()
}

fn files(dir: &str, ext: &str, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p.to_string_lossy(), ext, out);
        } else if p.extension().is_some_and(|e| e == ext) {
            out.push(p);
        }
    }
}

impl Seeds {
    /// Names the reader looks for, found in its source, and packages to start from.
    pub fn load(seed: u64) -> Seeds {
        let mut names = BTreeSet::new();
        let mut src = vec![];
        files("/repo/docx-core/src/reader", "rs", &mut src);
        for p in src {
            let s = std::fs::read_to_string(p).unwrap_or_default();
            let s = s.split("mod tests").next().unwrap_or("");
            for (k, x) in s.split('"').enumerate() {
                if k % 2 == 1 && !x.is_empty() && x.len() < 30 && x.chars().all(|c| c.is_ascii_alphanumeric()) && !x.starts_with(|c: char| c.is_ascii_digit()) {
                    names.insert(x.to_string());
                }
            }
        }
        let mut docs = vec![];
        let mut fx = vec![];
        files("/repo/fixtures", "docx", &mut fx);
        for p in fx {
            if let Ok(b) = std::fs::read(&p) {
                if b.len() < 60_000 {
                    docs.extend(unzip(&b));
                }
            }
        }
        for i in 0..40 {
            let mut o = Opt::all();
            o.props = i % 2 == 0;
            if i % 4 == 0 {
                o.blocks = 8;
            }
            let mut g = Gen::new(seed.wrapping_mul(7919).wrapping_add(i), o);
            let d = g.doc();
            if let Ok(b) = pkg::pack(d) {
                docs.extend(unzip(&b));
            }
        }
        Seeds { names: names.into_iter().collect(), docs }
    }

    fn value(&self, r: &mut Rng) -> String {
        match r.below(4) {
            0 => format!("{}{}", r.pick(VALUES), r.pick(VALUES)),
            1 => r.pick(&self.names).clone(),
            _ => r.pick(VALUES).to_string(),
        }
    }

    fn tag(&self, r: &mut Rng) -> String {
        let p = *r.pick(&["w:", "w:", "w:", "w:", "w:", "wp:", "a:", "pic:", "v:", "wps:", "mc:", "", "w14:", "x:", "vt:"]);
        format!("{p}{}", r.pick(&self.names))
    }

    fn tree(&self, r: &mut Rng, depth: usize, budget: &mut usize, out: &mut String) {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        // mostly names the reader knows in the places where it looks for them
        let t = match r.below(10) {
            0 => "w:p".to_string(),
            1 => "w:r".to_string(),
            2 => (*r.pick(&["w:tbl", "w:tr", "w:tc", "w:sdt", "w:sdtContent", "w:hyperlink", "w:ins", "w:del", "w:moveFrom", "w:moveTo"])).to_string(),
            3 => (*r.pick(&["w:pPr", "w:rPr", "w:tblPr", "w:trPr", "w:tcPr", "w:sectPr", "w:sdtPr", "w:numPr", "w:lvl", "w:abstractNum", "w:num", "w:style"])).to_string(),
            4 => (*r.pick(&["w:drawing", "wp:inline", "wp:anchor", "a:graphic", "a:graphicData", "pic:pic", "wps:wsp", "wps:txbx", "w:txbxContent", "w:pict", "v:shape", "v:imagedata", "mc:AlternateContent", "mc:Choice", "mc:Fallback"])).to_string(),
            _ => self.tag(r),
        };
        out.push('<');
        out.push_str(&t);
        for _ in 0..r.below(4) {
            let k = match r.below(4) {
                0 => "w:val".to_string(),
                1 => format!("w:{}", r.pick(&self.names)),
                2 => (*r.pick(&["w:id", "r:id", "r:embed", "w:type", "w:w", "w:left", "w:hanging", "w:firstLine", "w:ilvl", "w:pos", "style", "Id", "Target", "Type", "name", "cx", "cy", "relativeFrom", "w:line", "w:lineRule", "w:before", "w:sz", "w:space", "w:gridSpan"])).to_string(),
                _ => r.pick(&self.names).clone(),
            };
            let v = self.value(r).replace('"', "&quot;").replace('<', "&lt;");
            out.push_str(&format!(" {k}=\"{v}\""));
        }
        if depth == 0 || r.chance(20) {
            out.push_str("/>");
            return;
        }
        out.push('>');
        for _ in 0..r.below(5) {
            if r.chance(25) {
                out.push_str(&self.value(r).replace('<', "&lt;"));
            } else {
                self.tree(r, depth - 1, budget, out);
            }
        }
        out.push_str(&format!("</{t}>"));
    }

    /// Changes one place of an XML text.
    fn mutate(&self, r: &mut Rng, s: &str) -> String {
        let tags: Vec<(usize, usize)> = s.match_indices('<').filter_map(|(i, _)| s[i..].find('>').map(|j| (i, i + j + 1))).collect();
        if tags.is_empty() {
            return s.to_string();
        }
        let (a, b) = *r.pick(&tags);
        let attrs: Vec<(usize, usize)> = {
            let q: Vec<usize> = s.match_indices("=\"").map(|x| x.0 + 2).collect();
            q.into_iter().filter_map(|i| s[i..].find('"').map(|j| (i, i + j))).collect()
        };
        match r.below(16) {
            0 => format!("{}{}", &s[..a], &s[b..]),
            1 => format!("{}{}{}", &s[..b], &s[a..b], &s[b..]),
            2 | 3 | 4 | 5 if !attrs.is_empty() => {
                let (i, j) = *r.pick(&attrs);
                let v = self.value(r).replace('"', "&quot;").replace('<', "&lt;");
                format!("{}{v}{}", &s[..i], &s[j..])
            }
            6 if !attrs.is_empty() => {
                // drop an attribute
                let (i, j) = *r.pick(&attrs);
                let k = s[..i].rfind(' ').unwrap_or(i);
                format!("{}{}", &s[..k], &s[j + 1..])
            }
            7 => {
                let mut c = r.below(s.len());
                while !s.is_char_boundary(c) {
                    c -= 1;
                }
                s[..c].to_string()
            }
            8 => {
                // an unrelated element here
                let mut x = String::new();
                self.tree(r, 3, &mut 12, &mut x);
                format!("{}{x}{}", &s[..a], &s[a..])
            }
            9 => {
                // rename an element and its end
                let e = s[a + 1..b].find([' ', '>', '/']).map(|k| a + 1 + k).unwrap_or(b);
                let n = &s[a + 1..e];
                if n.is_empty() || n.starts_with(['?', '!']) {
                    return s.to_string();
                }
                let to = self.tag(r);
                let all = r.chance(30);
                if all {
                    s.replace(&format!("<{n} "), &format!("<{to} ")).replace(&format!("<{n}>"), &format!("<{to}>")).replace(&format!("<{n}/"), &format!("<{to}/")).replace(&format!("</{n}>"), &format!("</{to}>"))
                } else {
                    format!("{}{to}{}", &s[..a + 1], &s[e..])
                }
            }
            10 => {
                // move a slice elsewhere
                let (c, d) = *r.pick(&tags);
                let (lo, hi) = (b.min(d), b.max(d));
                let piece = s[lo..hi].to_string();
                let (p, _) = *r.pick(&tags);
                if piece.len() > 4000 || c == a {
                    return s.to_string();
                }
                format!("{}{piece}{}", &s[..p], &s[p..])
            }
            11 => format!("{}{}{}", &s[..b], self.value(r), &s[b..]),
            12 => {
                // an element becomes empty: everything up to some later tag disappears
                let (_, d) = *r.pick(&tags);
                if d <= a { s.to_string() } else { format!("{}{}", &s[..a], &s[d..]) }
            }
            13 if !attrs.is_empty() => {
                let (i, j) = *r.pick(&attrs);
                let (k, l) = *r.pick(&attrs);
                let v = s[k..l].to_string();
                format!("{}{v}{}", &s[..i], &s[j..])
            }
            14 => format!("{}<!-- {} -->{}", &s[..b], r.pick(&["x", "<w:p>", "é"]), &s[b..]),
            _ => s.replacen("w:", *r.pick(&["", "ww:", "W:", ":"]), 1 + r.below(3)),
        }
    }

    /// The case with this number: a package, or the text of a flat package.
    pub fn case(&self, seed: u64, i: usize) -> (Vec<u8>, Option<String>, String) {
        let mut r = Rng::new(hash(format!("c10 {seed} {i}").as_bytes()));
        let mut parts = r.pick(&self.docs).clone();
        let mut shown = String::new();
        match r.below(20) {
            0 => {
                let mut b = zipped(&parts);
                for _ in 0..1 + r.below(6) {
                    let k = r.below(b.len());
                    b[k] = r.below(256) as u8;
                }
                return (b, None, format!("package {i} with garbled bytes"));
            }
            1 => {
                let mut b = zipped(&parts);
                b.truncate(r.below(b.len()));
                return (b, None, format!("package {i} truncated"));
            }
            2 => {
                let n = r.below(400);
                return ((0..n).map(|_| r.below(256) as u8).collect(), None, format!("{n} random bytes"));
            }
            3 => {
                let k = r.below(parts.len());
                shown = format!("without {}", parts[k].0);
                parts.remove(k);
            }
            4 => {
                let (a, b) = (r.below(parts.len()), r.below(parts.len()));
                shown = format!("{} has the content of {}", parts[a].0, parts[b].0);
                parts[a].1 = parts[b].1.clone();
            }
            _ => {}
        }
        let xmls: Vec<usize> = (0..parts.len()).filter(|k| parts[*k].0.ends_with(".xml") || parts[*k].0.ends_with(".rels")).collect();
        for _ in 0..if xmls.is_empty() { 0 } else { 1 + r.below(3) } {
            let doc = xmls.iter().position(|k| parts[*k].0.ends_with("document.xml"));
            let k = if r.chance(50) && doc.is_some() { xmls[doc.unwrap()] } else { *r.pick(&xmls) };
            let mut s = String::from_utf8_lossy(&parts[k].1).into_owned();
            if r.chance(25) {
                // a new body of this kind of part
                let root = match s.find(|c: char| c == '<').map(|_| ()) {
                    _ => s.match_indices('<').map(|(i, _)| i).find(|i| s[i + 1..].starts_with(|c: char| c.is_alphabetic())).and_then(|i| s[i + 1..].find([' ', '>', '/']).map(|j| s[i + 1..i + 1 + j].to_string())),
                };
                let root = root.unwrap_or("w:document".into());
                let mut x = format!("<{root}>");
                if root == "w:document" {
                    x.push_str("<w:body>");
                }
                let mut budget = 60;
                for _ in 0..1 + r.below(8) {
                    self.tree(&mut r, 6, &mut budget, &mut x);
                }
                if root == "w:document" {
                    x.push_str("</w:body>");
                }
                x.push_str(&format!("</{root}>"));
                s = x;
            } else {
                for _ in 0..1 + r.below(8) {
                    s = self.mutate(&mut r, &s);
                }
            }
            shown.push_str(&format!(" {}:\n{s}\n", parts[k].0));
            parts[k].1 = if r.chance(3) {
                let mut b = s.into_bytes();
                let n = b.len().max(1);
                if !b.is_empty() {
                    let k = r.below(n);
                    b[k] = 0x80 | (r.below(128) as u8);
                }
                b
            } else {
                s.into_bytes()
            };
        }
        let flat = if i % 4 == 0 {
            let mut x = String::from("<?xml version=\"1.0\"?><pkg:package xmlns:pkg=\"urn:p\">");
            for (n, d) in &parts {
                let s = String::from_utf8_lossy(d);
                let body = s.split_once("?>").map(|x| x.1).unwrap_or(&s);
                if n.ends_with(".xml") || n.ends_with(".rels") {
                    x.push_str(&format!("<pkg:part pkg:name=\"/{n}\" pkg:contentType=\"application/xml\"><pkg:xmlData>{body}</pkg:xmlData></pkg:part>"));
                } else {
                    x.push_str(&format!("<pkg:part pkg:name=\"/{n}\" pkg:contentType=\"image/png\"><pkg:binaryData>QUJD{}</pkg:binaryData></pkg:part>", self.value(&mut r)));
                }
            }
            x.push_str("</pkg:package>");
            for _ in 0..r.below(3) {
                x = self.mutate(&mut r, &x);
            }
            Some(x)
        } else {
            None
        };
        (zipped(&parts), flat, shown)
    }
}

/// Places where the reader looks for elements: kind of part, text before, text after.
fn places() -> Vec<(&'static str, String, String)> {
    let mut v = vec![];
    let mut add = |part: &'static str, root: &str, paths: &[&str]| {
        for p in paths {
            let (mut a, mut b) = (format!("<{root}>"), format!("</{root}>"));
            for t in p.split_whitespace() {
                a.push_str(&format!("<{t}>"));
                b = format!("</{t}>{b}");
            }
            v.push((part, a, b));
        }
    };
    add("document", "w:document", &[
        "w:body", "w:body w:p", "w:body w:p w:r", "w:body w:p w:r w:rPr", "w:body w:p w:pPr", "w:body w:p w:pPr w:rPr", "w:body w:p w:pPr w:pBdr", "w:body w:p w:pPr w:tabs", "w:body w:p w:pPr w:numPr", "w:body w:p w:pPr w:pPrChange",
        "w:body w:p w:hyperlink", "w:body w:p w:ins", "w:body w:p w:del", "w:body w:p w:moveFrom", "w:body w:p w:moveTo", "w:body w:p w:sdt", "w:body w:p w:r w:instrText", "w:body w:p w:r w:t",
        "w:body w:tbl", "w:body w:tbl w:tblPr", "w:body w:tbl w:tblPr w:tblBorders", "w:body w:tbl w:tblPr w:tblCellMar", "w:body w:tbl w:tblGrid", "w:body w:tbl w:tr", "w:body w:tbl w:tr w:trPr", "w:body w:tbl w:tr w:tc", "w:body w:tbl w:tr w:tc w:tcPr",
        "w:body w:tbl w:tr w:tc w:tcPr w:tcBorders", "w:body w:tbl w:tr w:tc w:tcPr w:tcMar", "w:body w:sectPr", "w:body w:p w:pPr w:sectPr", "w:body w:sdt", "w:body w:sdt w:sdtPr", "w:body w:sdt w:sdtContent",
        "w:body w:p w:r w:drawing", "w:body w:p w:r w:drawing wp:inline", "w:body w:p w:r w:drawing wp:anchor", "w:body w:p w:r w:drawing wp:anchor wp:positionH", "w:body w:p w:r w:drawing wp:anchor wp:positionV",
        "w:body w:p w:r w:drawing wp:anchor a:graphic", "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData", "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData pic:pic", "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData pic:pic pic:blipFill",
        "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData pic:pic pic:spPr a:xfrm", "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData wps:wsp", "w:body w:p w:r w:drawing wp:anchor a:graphic a:graphicData wps:wsp wps:txbx w:txbxContent",
        "w:body w:p w:r w:pict", "w:body w:p w:r w:pict v:shape", "w:body w:p w:r mc:AlternateContent", "w:body w:p w:r mc:AlternateContent mc:Fallback", "w:body w:p w:r w:rPr w:rPrChange",
    ]);
    add("styles", "w:styles", &["", "w:style", "w:style w:pPr", "w:style w:rPr", "w:style w:tblPr", "w:style w:tcPr", "w:docDefaults", "w:docDefaults w:rPrDefault", "w:docDefaults w:pPrDefault", "w:docDefaults w:rPrDefault w:rPr"]);
    add("numbering", "w:numbering", &["", "w:abstractNum", "w:abstractNum w:lvl", "w:abstractNum w:lvl w:pPr", "w:abstractNum w:lvl w:rPr", "w:num", "w:num w:lvlOverride", "w:num w:lvlOverride w:lvl"]);
    add("settings", "w:settings", &["", "w:docVars"]);
    add("web", "w:webSettings", &["", "w:divs", "w:divs w:div", "w:divs w:div w:divBdr", "w:divs w:div w:divsChild"]);
    add("theme", "a:theme", &["", "a:themeElements a:fontScheme", "a:themeElements a:fontScheme a:majorFont", "a:themeElements a:fontScheme a:minorFont"]);
    add("comments", "w:comments", &["", "w:comment", "w:comment w:p"]);
    add("commentsEx", "w15:commentsEx", &[""]);
    add("header", "w:hdr", &["", "w:p"]);
    add("footer", "w:ftr", &["", "w:p"]);
    add("custom", "Properties", &["", "property"]);
    add("rels", "Relationships", &[""]);
    add("types", "Types", &[""]);
    v
}

fn read_part(part: &str, x: &[u8]) {
    use docx_rs::*;
    match part {
        "document" => drop(Document::from_xml(x)),
        "styles" => drop(Styles::from_xml(x)),
        "numbering" => drop(Numberings::from_xml(x)),
        "settings" => drop(Settings::from_xml(x)),
        "web" => drop(WebSettings::from_xml(x)),
        "theme" => drop(Theme::from_xml(x)),
        "comments" => drop(Comments::from_xml(x)),
        "commentsEx" => drop(CommentsExtended::from_xml(x)),
        "header" => drop(Header::from_xml(x)),
        "footer" => drop(Footer::from_xml(x)),
        "custom" => drop(CustomProps::from_xml(x)),
        "rels" => drop(Rels::from_xml(x)),
        _ => drop(ContentTypes::from_xml(x)),
    }
}

/// Every element name in one place with every value, and the same cut short.
fn sweep(s: &Seeds, places: &[(&'static str, String, String)], seed: u64, k: usize) -> Result<(), String> {
    let (part, a, b) = &places[k / s.names.len()];
    let name = &s.names[k % s.names.len()];
    let last = a[..a.len() - 1].rsplit('<').next().unwrap_or("");
    let own = last.split_once(':').map_or("w", |x| x.0);
    let mut r = Rng::new(hash(format!("sweep {seed} {k}").as_bytes()));
    for (n, v) in VALUES.iter().enumerate() {
        let v = v.replace('"', "&quot;").replace('<', "&lt;");
        let p = if n % 3 == 0 { own } else { *r.pick(&["w", "w", "wp", "a", "pic", "v", "wps", "mc", "w15", "vt", "r"]) };
        let mut at = format!(" w:val=\"{v}\"");
        if n % 2 == 0 {
            at.push_str(&format!(" w14:val=\"{v}\" w15:val=\"{v}\""));
        }
        for _ in 0..2 + r.below(4) {
            let q = *r.pick(&["w:", "w:", "", "", "r:", "w14:", "w15:"]);
            at.push_str(&format!(" {q}{}=\"{}\"", r.pick(&s.names), if r.chance(70) { v.clone() } else { s.value(&mut r).replace('"', "&quot;").replace('<', "&lt;") }));
        }
        let body = match r.below(4) {
            0 => format!("<{p}:{name}{at}/>"),
            1 => format!("<{p}:{name}{at}>{v}</{p}:{name}>"),
            2 => format!("<{p}:{name}{at}><{p}:{} w:val=\"{v}\"/></{p}:{name}>", r.pick(&s.names)),
            _ => format!("<{p}:{name}{at}>"),
        };
        let x = if r.chance(10) { format!("{a}{body}") } else { format!("{a}{body}{b}") };
        guard(|| read_part(part, x.as_bytes())).map_err(|m| format!("{m}: {x}"))?;
    }
    Ok(())
}

fn deep() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (o, c) in [
        ("<w:tbl><w:tr><w:tc>", "</w:tc></w:tr></w:tbl>"),
        ("<w:sdt><w:sdtContent>", "</w:sdtContent></w:sdt>"),
        ("<w:p><w:r><w:drawing><wp:anchor><a:graphic><a:graphicData><wps:wsp><wps:txbx><w:txbxContent>", "</w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r></w:p>"),
        ("<w:p><w:ins>", "</w:ins></w:p>"),
        ("<w:ins><w:del>", "</w:del></w:ins>"),
        ("<w:foo>", "</w:foo>"),
        ("<w:p><w:pPr><w:rPr>", "</w:rPr></w:pPr></w:p>"),
        ("<w:divs>", "</w:divs>"),
        ("<w:div><w:divsChild>", "</w:divsChild></w:div>"),
    ] {
        for n in [30, 1000, 30000] {
            let d = format!("<w:document><w:body><w:p>{}{}</w:p></w:body></w:document>", o.repeat(n), c.repeat(n));
            let e = format!("<w:document><w:body>{}{}</w:body></w:document>", o.repeat(n), c.repeat(n));
            let f = format!("<w:document><w:body>{}", o.repeat(n));
            let w = format!("<w:webSettings><w:divs>{}{}</w:divs></w:webSettings>", o.repeat(n), c.repeat(n));
            for (part, x) in [("word/document.xml", d), ("word/document.xml", e), ("word/document.xml", f), ("word/webSettings.xml", w)] {
                v.push((format!("{part}: {n} times {o}"), package(part, x.as_bytes())));
            }
        }
    }
    // many elements, long texts
    for x in [
        format!("<w:document><w:body>{}</w:body></w:document>", "<w:p><w:r><w:t>x</w:t></w:r></w:p>".repeat(20000)),
        format!("<w:document><w:body><w:p><w:r>{}</w:r></w:p></w:body></w:document>", "<w:tab/>".repeat(50000)),
        format!("<w:document><w:body><w:p><w:r><w:t>{}</w:t></w:r></w:p></w:body></w:document>", "&amp;x".repeat(100000)),
        format!("<w:document><w:body>{}</w:body></w:document>", "<w:sdt/>".repeat(50000)),
        format!("<w:document><w:body><w:p>{}</w:p></w:body></w:document>", "<w:hyperlink r:id=\"a\"/>".repeat(50000)),
    ] {
        v.push((format!("long: {}", &x[..80]), package("word/document.xml", x.as_bytes())));
    }
    v
}

fn package(part: &str, x: &[u8]) -> Vec<u8> {
    let b = pkg::pack(docx_rs::Docx::new()).unwrap();
    let mut parts = unzip(&b).unwrap();
    match parts.iter_mut().find(|p| p.0 == part) {
        Some(p) => p.1 = x.to_vec(),
        None => {
            parts.push((part.to_string(), x.to_vec()));
            for p in &mut parts {
                if p.0 == "word/_rels/document.xml.rels" {
                    let s = String::from_utf8_lossy(&p.1).replace("</Relationships>", "<Relationship Id=\"rIdW\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/webSettings\" Target=\"webSettings.xml\"/></Relationships>");
                    p.1 = s.into_bytes();
                }
            }
        }
    }
    zipped(&parts)
}

fn read(b: &[u8]) -> Result<(), String> {
    guard(|| {
        let _ = docx_rs::read_docx(b);
    })
}

/// `--tier first:step:count` `--out progress file`; prints one line per case that panics.
pub fn child(seed: u64, spec: &str, out: &str) {
    let v: Vec<usize> = spec.split(':').map(|x| x.parse().unwrap_or(0)).collect();
    let deep = deep();
    let s = Seeds::load(seed);
    let pl = places();
    let blocks = pl.len() * s.names.len();
    let mut i = v[0];
    let mut f = std::fs::File::create(out).expect("progress");
    while i < v[2] + deep.len() + blocks {
        use std::io::Seek;
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = write!(f, "{i:012}");
        let r = if i < deep.len() {
            let b = deep[i].1.clone();
            // the usual stack of a main thread
            match std::thread::Builder::new().stack_size(8 << 20).spawn(move || read(&b)).unwrap().join() {
                Ok(r) => r,
                Err(_) => Err("panic".into()),
            }
        } else if i >= v[2] + deep.len() {
            sweep(&s, &pl, seed, i - v[2] - deep.len())
        } else {
            let (b, flat, _) = s.case(seed, i - deep.len());
            let mut r = read(&b);
            if r.is_ok() {
                if let Some(x) = flat {
                    r = guard(|| {
                        let _ = docx_rs::read_xml(&x);
                    });
                }
            }
            r
        };
        if let Err(m) = r {
            println!("{i} {}", m.replace('\n', " "));
        }
        i += v[1];
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "packages made by mutating parts of generated documents and of the repository's fixtures (attribute values, missing, repeated, renamed, moved and truncated elements), random element trees over the names in the reader's source, garbled archives, every element name in every place with a range of attribute values, deep and long structures; distinct by package bytes".into();
    let n = if ctx.thorough { 200_000 } else { 24_000 };
    let s = Seeds::load(ctx.seed);
    let deep = deep();
    let pl = places();
    let blocks = pl.len() * s.names.len();
    let me = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir();
    let workers = 8;
    let bad: Vec<(usize, String)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (me, dir, seed, total) = (me.clone(), dir.clone(), ctx.seed, n + deep.len() + blocks);
                sc.spawn(move || {
                    let mut bad = vec![];
                    let mut first = w;
                    let mut tries = 0;
                    while first < total && tries < 3 {
                        tries += 1;
                        let progress = dir.join(format!("c10-{}-{w}", std::process::id()));
                        let _ = std::fs::remove_file(&progress);
                        let cmd = format!("ulimit -v 6000000; exec '{}' C10-child --seed {seed} --tier {first}:{workers}:{n} --out '{}'", me.display(), progress.display());
                        let mut c = match Command::new("sh").arg("-c").arg(cmd).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                            Ok(c) => c,
                            Err(e) => {
                                bad.push((usize::MAX, e.to_string()));
                                break;
                            }
                        };
                        let mut so = c.stdout.take().unwrap();
                        let rd = std::thread::spawn(move || {
                            let mut s = String::new();
                            let _ = so.read_to_string(&mut s);
                            s
                        });
                        let at = || std::fs::read_to_string(&progress).ok().and_then(|s| s.parse::<usize>().ok());
                        let (mut last, mut since) = (at(), Instant::now());
                        let end = loop {
                            if let Ok(Some(st)) = c.try_wait() {
                                break if st.success() { None } else { Some(format!("the process dies: {st}")) };
                            }
                            let now = at();
                            if now != last {
                                (last, since) = (now, Instant::now());
                            } else if since.elapsed() > HANG {
                                let _ = c.kill();
                                let _ = c.wait();
                                break Some(format!("no answer in {HANG:?}"));
                            }
                            std::thread::sleep(Duration::from_millis(20));
                        };
                        for l in rd.join().unwrap_or_default().lines() {
                            if let Some((i, m)) = l.split_once(' ') {
                                bad.push((i.parse().unwrap_or(usize::MAX), m.to_string()));
                            }
                        }
                        let stopped = at();
                        let _ = std::fs::remove_file(&progress);
                        match (end, stopped) {
                            (None, _) => break,
                            (Some(m), Some(i)) => {
                                bad.push((i, m));
                                first = i + workers;
                            }
                            (Some(m), None) => {
                                bad.push((usize::MAX, m));
                                break;
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for (i, m) in bad {
        let key: String = m.chars().take(60).collect();
        let k = seen.entry(key.clone()).or_default();
        *k += 1;
        if *k > 3 {
            continue;
        }
        if i == usize::MAX {
            ctx.bad("harness", m, "");
        } else if i < deep.len() {
            ctx.bad(&key, format!("reading {} : {m}", deep[i].0), format!("{}\n{}", deep[i].0, hex(&deep[i].1)));
        } else if i >= n + deep.len() {
            let k = i - n - deep.len();
            let (part, a, _) = &pl[k / s.names.len()];
            ctx.bad(&key, format!("reading {part} part, element {} in {a}: {m}", s.names[k % s.names.len()]), m.clone());
        } else {
            let (b, flat, shown) = s.case(ctx.seed, i - deep.len());
            let what = if let Some(x) = &flat { format!("{shown}\nflat package:\n{x}") } else { shown.clone() };
            ctx.bad(&key, format!("reading case {} : {m}: {}", i - deep.len(), shown.chars().take(200).collect::<String>()), format!("{what}\npackage in hexadecimal:\n{}", hex(&b)));
        }
    }
    for i in 0..n {
        ctx.case(&format!("{} {i}", ctx.seed));
    }
    for d in &deep {
        ctx.case(&d.0);
    }
    for k in 0..blocks {
        ctx.case(&format!("sweep {} {k}", ctx.seed));
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().take(200_000).map(|x| format!("{x:02x}")).collect()
}
