X = r'''
use docx_rs::*;
fn again(d: Docx) -> Docx { let mut w = std::io::Cursor::new(Vec::new()); let mut d = d; d.build().pack(&mut w).unwrap(); read_docx(w.get_ref()).unwrap() }
fn para(d: &Docx) -> Paragraph { for c in d.document.children.iter() { if let DocumentChild::Paragraph(p) = c { return (**p).clone(); } } panic!() }
fn need(ok: bool, m: &str) { if !ok { eprintln!("{m}"); std::process::exit(1) } }
'''
R="reader/"
BUGS=[
dict(id="s53-row-both-tracked",prop="C11",edits=[(R+"table_row.rs","                                ins = Some(i);","                                if del.is_none() {\n                                    ins = Some(i);\n                                }")],
 needs="a table row that is both inserted and deleted",breaks="the insertion of the row is not read",
 demo=X+r"""fn main(){ for k in 0..3 { let mut r = TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())]); if k != 1 { r = r.insert(Insert::new_with_empty().author("xx")); } if k != 0 { r = r.delete(Delete::new().author("yy")); }
 let q = again(Docx::new().add_table(Table::new(vec![r]))); let s = format!("{:?}", q.document.children); need(s.contains("\"xx\"") == (k != 1) && s.contains("\"yy\"") == (k != 0), &s); } }"""),
dict(id="s54-link-bookmark-end",prop="C11",edits=[(R+"hyperlink.rs","                                link = link.add_bookmark_end(e.id);","                                if link.children.len() > 1 {\n                                    link = link.add_bookmark_end(e.id);\n                                }")],
 needs="a hyperlink that starts with the end of a bookmark",breaks="the end of the bookmark is lost",
 demo=X+r"""fn main(){ for k in 0..2 { let mut l = Hyperlink::new("a", HyperlinkType::Anchor); if k == 0 { l = l.add_bookmark_start(7, "bb").add_run(Run::new().add_text("x")); } l = l.add_bookmark_end(7).add_run(Run::new().add_text("y"));
 let q = para(&again(Docx::new().add_paragraph(Paragraph::new().add_hyperlink(l)))); let s = format!("{:?}", q.children); need(s.contains("BookmarkEnd"), &s); } }"""),
dict(id="s55-tag-table-place",prop="C11",edits=[(R+"structured_data_tag.rs","                                sdt.children\n                                    .push(StructuredDataTagChild::Table(Box::new(t)));","                                let at = sdt.children.len().min(2);\n                                sdt.children\n                                    .insert(at, StructuredDataTagChild::Table(Box::new(t)));")],
 needs="a structured data tag with a table after three other things",breaks="the table comes third",
 demo=X+r"""fn main(){ for n in [1usize, 2, 3, 4] { let mut t = StructuredDataTag::new(); for i in 0..n { t = t.add_paragraph(Paragraph::new().add_run(Run::new().add_text(format!("p{i}")))); } t = t.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())])]));
 let q = again(Docx::new().add_structured_data_tag(t)); let mut ok = false; for c in q.document.children.iter() { if let DocumentChild::StructuredDataTag(s) = c { ok = s.children.len() == n + 1 && matches!(s.children[n], StructuredDataTagChild::Table(_)); } } need(ok, "order"); } }"""),
]
