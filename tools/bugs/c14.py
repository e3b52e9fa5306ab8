X = r'''
use docx_rs::*;
use std::str::FromStr;
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
fn trip(t: InstrToC) { let x = String::from_utf8(t.build()).unwrap().replace("&quot;", "\"").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&");
 let b = InstrToC::from_str(&x).unwrap(); if b != t { fail(format!("{x}\n{t:?}\n{b:?}")) } }
'''
F="documents/elements/instr_toc.rs"
BUGS=[
dict(id="s29-toc-reversed-range",prop="C14",edits=[(F,"                    return Some((s, e));","                    return Some((s, e.max(s)));")],
 needs="a level range whose end is below its start",breaks="the parsed range differs from the one printed",
 demo=X+r'''fn main(){ trip(InstrToC::new().heading_styles_range(1, 3)); trip(InstrToC::new().omit_page_numbers_level_range(4, 2)); }'''),
dict(id="s30-toc-identifier-backslash",prop="C14",edits=[(F,'if !n.starts_with("\\\\") {',"if !n.contains('\\\\') {")],
 needs="an entry identifier with a backslash in it",breaks="the identifier is read as absent",
 demo=X+r'''fn main(){ trip(InstrToC::new().tc_field_identifier(Some("a".into()))); trip(InstrToC::new().tc_field_identifier(Some("x\\y".into())).hyperlink()); }'''),
dict(id="s31-toc-blank-style",prop="C14",edits=[(F,"if let Some(style) = r.next() {","if let Some(style) = r.next().map(str::trim) {")],
 needs="a style name with a space at either end",breaks="the style name is trimmed when parsed",
 demo=X+r'''fn main(){ trip(InstrToC::new().add_style_with_level(StyleWithLevel::new("A b", 1))); trip(InstrToC::new().add_style_with_level(StyleWithLevel::new("A ", 1))); }'''),
]
