X = r'''
use docx_rs::*;
fn again(d: Docx) -> Docx { let mut w = std::io::Cursor::new(Vec::new()); let mut d = d; d.build().pack(&mut w).unwrap(); read_docx(w.get_ref()).unwrap() }
fn para(d: &Docx) -> Paragraph { for c in d.document.children.iter() { if let DocumentChild::Paragraph(p) = c { return (**p).clone(); } } panic!() }
fn need(ok: bool, m: &str) { if !ok { eprintln!("{m}"); std::process::exit(1) } }
'''
R="reader/"
BUGS=[
dict(id="s48-moved-date",prop="C11",edits=[(R+"move_to.rs",'} else if local_name == "date" {','} else if local_name == "date" && !mt.children.is_empty() {')],
 needs="a tracked move whose target holds no run",breaks="the date of the move is not read",
 demo=X+r"""fn main(){ for m in [MoveTo::new_with_empty(), MoveTo::new(Run::new().add_text("a"))] { let p = Paragraph::new().add_move_to(m.author("x").date("2020-01-02T00:00:00Z"));
 let q = para(&again(Docx::new().add_paragraph(p))); let s = format!("{:?}", q.children); need(s.contains("2020-01-02T00:00:00Z"), &s); } }"""),
dict(id="s49-blank-deleted",prop="C11",edits=[(R+"run.rs",'Ok(XmlEvent::Whitespace(c)) => match text_state {\n                    TextState::Delete => {','Ok(XmlEvent::Whitespace(c)) => match text_state {\n                    TextState::Delete if c.len() < 3 => {')],
 needs="deleted text that is nothing but three or more blanks",breaks="the deleted text is lost",
 demo=X+r"""fn main(){ for t in [" ", "   ", "a"] { let p = Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text(t)));
 let q = para(&again(Docx::new().add_paragraph(p))); let s = format!("{:?}", q.children); need(s.contains(&format!("text: {t:?}")), &s); } }"""),
dict(id="s50-header-tag-order",prop="C11",edits=[("documents/header.rs",".push(HeaderChild::StructuredDataTag(Box::new(t)));",".insert(0, HeaderChild::StructuredDataTag(Box::new(t)));")],
 needs="a header with a structured data tag after a paragraph",breaks="the tag comes first after reading",
 demo=X+r"""fn main(){ let mut h = Header::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text("one"))); h.children.push(HeaderChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text("two"))))));
 let d = again(Docx::new().header(h).add_paragraph(Paragraph::new())); let s = format!("{:?}", d.document.section_property.header); let (a, b) = (s.find("\"one\""), s.find("\"two\"")); need(a.is_some() && b.is_some() && a < b, &s); }"""),
dict(id="s51-field-marked",prop="C11",edits=[(R+"run.rs","        if dirty {\n            f = f.dirty();","        if dirty && f.field_char_type != FieldCharType::End {\n            f = f.dirty();")],
 needs="a field whose end is marked for updating",breaks="the mark is not read",
 demo=X+r"""fn main(){ for t in [FieldCharType::Begin, FieldCharType::End] { let p = Paragraph::new().add_run(Run::new().add_field_char(t, true));
 let q = para(&again(Docx::new().add_paragraph(p))); let s = format!("{:?}", q.children); need(s.contains("dirty: true"), &s); } }"""),
]
