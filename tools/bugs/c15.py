X = r'''
use docx_rs::*;
use std::str::FromStr;
fn part<B: BuildXML>(b: &B) -> String { String::from_utf8(b.build()).unwrap() }
fn item(x: &str) -> String { part(&CustomItem::from_str(x).unwrap()) }
fn need(ok: bool, m: &str) { if !ok { eprintln!("{m}"); std::process::exit(1) } }
'''
F="xml_json/mod.rs"
BUGS=[
dict(id="s35-custom-short-prefixed",prop="C15",edits=[(F,"Some(prefix) if !attr.name.local_name.is_empty() => {","Some(prefix) if attr.name.local_name.len() > 1 => {")],
 needs="a prefixed attribute with a one-letter name",breaks="the attribute loses its name",
 demo=X+r'''fn main(){ let t = item(r#"<a xmlns:q="u" q:bb="1" q:b="2"/>"#); need(t.contains("q:bb=\"1\"") && t.contains("q:b=\"2\""), &t); }'''),
dict(id="s36-custom-empty-attribute",prop="C15",edits=[(F,"for (key, val) in self.attributes.iter() {","for (key, val) in self.attributes.iter().filter(|(_, v)| !v.is_empty()) {")],
 needs="an attribute whose value is empty",breaks="the attribute is not written",
 demo=X+r'''fn main(){ let t = item(r#"<a b="1" c=""/>"#); need(t.contains("b=\"1\"") && t.contains("c=\"\""), &t); }'''),
dict(id="s37-custom-property-replaced",prop="C15",edits=[("documents/doc_props/custom.rs","self.properties.insert(name.into(), item.into());","self.properties\n            .entry(name.into())\n            .or_insert_with(|| item.into());")],
 needs="a custom property set twice",breaks="the value set last is not written",
 demo=r'''
use docx_rs::*;
fn main(){ let mut d = Docx::new().custom_property("k", "old").custom_property("k", "new"); let b = d.build(); let t = String::from_utf8(b.doc_props.custom).unwrap();
 if !t.contains("new") || t.contains("old") { eprintln!("{t}"); std::process::exit(1) } }'''),
dict(id="s52-property-colon",prop="C15",edits=[("reader/custom_properties.rs","if let Some(key) = read_name(&attributes) {","if let Some(key) = read_name(&attributes).filter(|k| !k.contains(':')) {")],
 needs="a custom property whose name holds a colon",breaks="the property is not read",
 demo=r"""
use docx_rs::*;
fn main(){ let mut w = std::io::Cursor::new(Vec::new()); Docx::new().custom_property("a:b", "one").custom_property("c", "two").build().pack(&mut w).unwrap(); let d = read_docx(w.get_ref()).unwrap();
 let p = &d.doc_props.custom.properties; if p.get("a:b").map(String::as_str) != Some("one") || p.get("c").map(String::as_str) != Some("two") { eprintln!("{p:?}"); std::process::exit(1) } }"""),
]
