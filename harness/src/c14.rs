//! C14: table-of-contents instructions survive printing and parsing.
use crate::ctx::Ctx;
use crate::pkg::{self, guard, Pkg};
use crate::rng::Rng;
use docx_rs::*;
use std::str::FromStr;

const WORDS: &[&str] = &[
    "a", "Fig", " ", "  ", "-", ":", ".", "\\", "\\h", "\\o", "\\f", "x y", "Heading 1", "'", "&", "<", ">", "é", "漢", "1-3", ";", "#", "/", "\\z \\u", "a b c", "TOC", "=", "10", "[", "\u{a0}",
];

const JUNK: &[&str] = &[
    "\\a", "\\f", "\\t", "\\n", "\\o", "\\l", " ", "\"", "&quot;", ",", "1", "-", "1-3", "TOC", "é", "\\", "99999999999999999999", ",,", "a,1",
];

fn value(r: &mut Rng) -> String {
    let n = r.below(5);
    (0..n).map(|_| *r.pick(WORDS)).collect()
}

fn level(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.below(10),
        1 => 0,
        2 => r.next() as usize,
        _ => 1 + r.below(9),
    }
}

/// The switches of `mask` with values from `v` (free text) and `l` (levels).
fn toc(mask: usize, v: &mut dyn FnMut() -> String, l: &mut dyn FnMut() -> usize, styles: usize) -> InstrToC {
    let mut t = InstrToC::new();
    let on = |i: usize| mask >> i & 1 == 1;
    if on(0) {
        t = t.caption_label(v());
    }
    if on(1) {
        t = t.entry_bookmark_name(v());
    }
    if on(2) {
        t = t.caption_label_including_numbers(v());
    }
    if on(3) {
        t = t.sequence_and_page_numbers_separator(v());
    }
    if on(4) {
        t = t.tc_field_identifier(Some(v()).filter(|v| on(5) && !v.is_empty()));
    }
    if on(6) {
        t = t.tc_field_level_range(l(), l());
    }
    if on(7) {
        t = t.omit_page_numbers_level_range(l(), l());
    }
    if on(8) {
        t = t.heading_styles_range(l(), l());
    }
    if on(9) {
        t = t.entry_and_page_number_separator(v());
    }
    if on(10) {
        t = t.seq_field_identifier_for_prefix(v());
    }
    if on(11) {
        for _ in 0..styles {
            t = t.add_style_with_level(StyleWithLevel::new(v().replace(',', ""), l()));
        }
    }
    if on(12) {
        t = t.hyperlink();
    }
    if on(13) {
        t = t.use_applied_paragraph_line_level();
    }
    if on(14) {
        t = t.preserve_tab();
    }
    if on(15) {
        t = t.preserve_new_line();
    }
    if on(16) {
        t = t.hide_tab_and_page_numbers_in_webview();
    }
    t
}

/// The instruction as a reader of the package sees it.
fn printed(t: &InstrToC) -> Result<String, String> {
    let x = String::from_utf8(t.build()).map_err(|e| e.to_string())?;
    crate::xml::parse(&format!("<a>{x}</a>")).map(|e| e.text())
}

fn same(ctx: &mut Ctx, what: &str, t: &InstrToC, text: &str) {
    let got = match guard(|| InstrToC::from_str(text)) {
        Ok(Ok(x)) => x,
        Ok(Err(())) => return ctx.bad("rejected", format!("{what}: printed instruction is rejected: {text}"), text),
        Err(m) => return ctx.bad("panic", format!("{what}: parsing panics ({m}): {text}"), text),
    };
    if got != *t {
        return ctx.bad("differs", format!("{what}: {text:?} is printed for {t:?} and parses to {got:?}"), text);
    }
    match guard(|| printed(&got)) {
        Ok(Ok(again)) if again == text => {}
        x => ctx.bad("again", format!("{what}: {text:?} parses to something printed as {x:?}"), text),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every combination of switches with fixed values; random switches with random values, printed alone and inside a package; arbitrary instruction texts. One evaluation = one instruction; distinct by text".into();
    let all = 1 << 17;
    let step = if ctx.thorough { 1 } else { 2 };
    ctx.par(all / step, |ctx, i| {
        let mask = if step == 1 { i } else { i * 2 + (i ^ ctx.seed as usize) % 2 };
        let mut k = 0;
        let mut v = || {
            k += 1;
            format!("v{k} w")
        };
        let mut n = 0;
        let mut l = || {
            n += 1;
            n
        };
        let t = toc(mask, &mut v, &mut l, 1 + mask % 3);
        let text = printed(&t).unwrap_or_default();
        ctx.case(&text);
        same(ctx, "every combination", &t, &text);
    });
    let n = if ctx.thorough { 60000 } else { 8000 };
    ctx.par(n, |ctx, i| {
        let mut r = Rng::new(crate::ctx::hash(format!("{} {i}", ctx.seed).as_bytes()));
        let mask = (r.next() & r.next()) as usize;
        let (mut a, mut b) = (Rng::new(r.next()), Rng::new(r.next()));
        let t = toc(mask, &mut || value(&mut a), &mut || level(&mut b), r.below(4) + 1);
        match printed(&t) {
            Ok(text) => {
                ctx.case(&text);
                same(ctx, "random values", &t, &text)
            }
            Err(e) => ctx.bad("not XML", format!("{t:?}: {e}"), format!("{t:?}")),
        }
        if i % 10 == 0 {
            // inside a package
            let mut c = TableOfContents::new();
            c.instr = t.clone();
            if r.chance(30) {
                c = c.add_item(TableOfContentsItem::new().text("x").toc_key("k").level(1).page_ref("1"));
            }
            if r.chance(20) {
                c = c.delete("me", "2020-01-01T00:00:00Z");
            }
            let deleted = c.delete.is_some();
            let d = Docx::new().add_table_of_contents(c);
            let p = pkg::pack(d).ok().and_then(|b| Pkg::open(&b).ok());
            let x = p.and_then(|p| p.xml("word/document.xml").ok());
            let found: Vec<String> = x.iter().flat_map(|x| { let mut v = x.all("w:instrText"); v.extend(x.all("w:delInstrText")); v }.into_iter().map(|e| e.text())).collect();
            match found.iter().find(|s| s.starts_with("TOC")) {
                Some(s) => same(ctx, "in a package", &t, s),
                None => ctx.bad("missing", format!("no instruction in the package (deleted: {deleted}): {t:?}"), format!("{t:?}")),
            }
        }
        // arbitrary text
        let mut junk = String::new();
        for _ in 0..r.below(12) {
            junk += *r.pick(JUNK);
            junk += ["", " "][r.below(2)];
        }
        ctx.case(&junk);
        if let Err(m) = guard(|| InstrToC::from_str(&junk)) {
            ctx.bad("panic", format!("parsing {junk:?} panics: {m}"), &junk[..]);
        }
    });
}
