X = r'''
use docx_rs::*;
fn doc(body: &str) -> String { format!(r#"<w:document xmlns:w="w" xmlns:v="v"><w:body>{body}</w:body></w:document>"#) }
'''
BUGS=[
dict(id="s32-bookmark-missing-name",prop="C10",edits=[("reader/bookmark_start.rs","if id.is_none() || name.is_none() {","if id.is_none() && name.is_none() {")],
 needs="a bookmark start that has only one of its two attributes",breaks="the reader panics",
 demo=X+r'''fn main(){ let ok = Document::from_xml(doc(r#"<w:bookmarkStart w:id="1" w:name="a"/>"#).as_bytes()).is_ok(); assert!(ok);
 let _ = Document::from_xml(doc(r#"<w:bookmarkStart w:id="1"/>"#).as_bytes()); }'''),
dict(id="s33-doc-id-braces",prop="C10",edits=[("reader/settings.rs",".doc_id(a.value.to_owned().replace(['{', '}'], \"\"));",".doc_id(a.value[1..a.value.len() - 1].to_owned());")],
 needs="settings whose document id is shorter than two bytes",breaks="the reader panics",
 demo=X+r'''fn main(){ for v in ["{A-B}", "", "{", "é"] { let _ = Settings::from_xml(format!(r#"<w:settings xmlns:w="w" xmlns:w15="x"><w15:docId w15:val="{v}"/></w:settings>"#).as_bytes()); } }'''),
dict(id="s34-shape-truncated",prop="C10",edits=[("reader/shape.rs","                Err(_) => return Err(ReaderError::XMLReadError),","                Err(_) => continue,")],
 needs="a part that ends inside a drawn shape",breaks="the reader loops forever",
 demo=X+r'''fn main(){ std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); std::process::exit(1) });
 let whole = doc(r#"<w:p><w:r><w:pict><v:shape><v:imagedata r:id="a"/></v:shape></w:pict></w:r></w:p>"#);
 assert!(Document::from_xml(whole.as_bytes()).is_ok()); let cut = whole.find("</v:shape").unwrap(); let _ = Document::from_xml(whole[..cut].as_bytes()); }'''),
]
