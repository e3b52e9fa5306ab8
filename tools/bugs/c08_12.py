X = r'''
#![allow(dead_code)]
mod xml; mod pkg;
use docx_rs::*;
fn bytes(d: Docx) -> Vec<u8> { pkg::pack(d).unwrap() }
fn open(d: Docx) -> pkg::Pkg { pkg::Pkg::open(&bytes(d)).unwrap() }
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
fn par(t: &str) -> Paragraph { Paragraph::new().add_run(Run::new().add_text(t)) }
fn both(d: Docx) { let a = pkg::build_pack(d.clone()).unwrap(); let b = pkg::pack(d).unwrap(); if a != b { fail(format!("archives differ: {} and {} bytes", a.len(), b.len())) } }
'''
BUGS=[
dict(id="s18-zip-footer-rels",prop="C08",edits=[("zipper/mod.rs","xml.footer_rels.get(i).filter(|rels| !rels.is_empty())","xml.footer_rels.iter().filter(|rels| !rels.is_empty()).nth(i)")],
 needs="a footer without pictures before one with a picture, packed after building",breaks="the relationships go to the first footer, so the archive differs from the one written directly",
 demo=X+r'''fn main(){ let pic = Run::new().add_image(Pic::new_with_dimensions(vec![1, 2, 3], 1, 1).id("img"));
 both(Docx::new().add_paragraph(par("x")).footer(Footer::new().add_paragraph(par("f"))).first_footer(Footer::new().add_paragraph(Paragraph::new().add_run(pic)))) }'''),
dict(id="s19-direct-web-extensions",prop="C08",edits=[("zipper/mod.rs","docx.web_extensions.iter().enumerate()","docx.web_extensions.iter().rev().enumerate()")],
 needs="two web extensions, packed directly",breaks="the extensions are stored under each other's names, unlike in the archive made from built parts",
 demo=X+r'''fn main(){ let e = |i: &str| WebExtension::new(i, i, "1.0.0.0", "developer", "Registry");
 both(Docx::new().add_paragraph(par("x")).taskpanes().web_extension(e("a")).web_extension(e("b"))) }'''),
dict(id="s20-override-start",prop="C09",edits=[("documents/elements/level_override.rs",".apply_opt(self.override_start, |start, b| {",".apply_opt(self.override_start.filter(|_| self.override_level.is_none()), |start, b| {")],
 needs="a level override that gives both a start value and a level",breaks="the start value is not written",
 demo=X+r'''fn main(){ let l = Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"));
 let d = Docx::new().add_abstract_numbering(AbstractNumbering::new(2).add_level(l.clone())).add_numbering(Numbering::new(2, 2).add_override(LevelOverride::new(0).start(7).level(l)))
   .add_paragraph(par("x").numbering(NumberingId::new(2), IndentLevel::new(0)));
 let r = read_docx(&bytes(d)).unwrap(); let n = r.numberings.numberings.iter().find(|n| n.id == 2).unwrap();
 if n.level_overrides[0].override_start != Some(7) { fail(format!("{:?}", n.level_overrides[0].override_start)) } }'''),
dict(id="s21-numbering-toc-cell",prop="C09",edits=[("documents/document_tree.rs","TableCellContent::TableOfContents(toc) => visit_table_of_contents(toc, visitor),","TableCellContent::TableOfContents(_) => {}")],
 needs="the only numbered paragraph is in a table of contents inside a table cell",breaks="the numbering part is not referenced",
 demo=X+r'''fn main(){ let toc = TableOfContents::new().add_before_paragraph(par("n").numbering(NumberingId::new(1), IndentLevel::new(0)));
 let p = open(Docx::new().add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_table_of_contents(toc)])])));
 if !p.rels("word/document.xml").unwrap().iter().any(|r| r.ty.ends_with("/numbering")) { fail("numbering part not referenced".into()) } }'''),
dict(id="s22-comment-parent-last",prop="C12",edits=[("reader/read_docx.rs","""                    for comment in &comments {
                        for child in &comment.children {
                            if let CommentChild::Paragraph(p) = child {""","""                    for comment in &comments {
                        for child in comment.children.iter().take(1) {
                            if let CommentChild::Paragraph(p) = child {""")],
 needs="a reply to a comment that has more than one paragraph",breaks="the reply is read without its parent",
 demo=X+r'''fn main(){ let a = Comment::new(1).add_paragraph(par("a")).add_paragraph(par("b")); let b = Comment::new(2).add_paragraph(par("c")).parent_comment_id(1);
 let d = Docx::new().add_paragraph(Paragraph::new().add_comment_start(a).add_comment_start(b).add_run(Run::new().add_text("x")).add_comment_end(2).add_comment_end(1));
 let r = read_docx(&bytes(d)).unwrap(); let c = r.comments.inner().iter().find(|c| c.id == 2).unwrap(); if c.parent_comment_id != Some(1) { fail(format!("{:?}", c.parent_comment_id)) } }'''),
dict(id="s23-comment-in-moved-delete",prop="C12",edits=[("documents/document_tree.rs","            MoveToChild::Delete(delete) => visit_delete(delete, visitor),\n","            MoveToChild::Delete(_) => {}\n")],
 needs="a comment that starts in a deletion inside moved-to text",breaks="the comment is not in the comments part",
 demo=X+r'''fn main(){ let del = Delete::new().add_run(Run::new().add_delete_text("d")).add_comment_start(Comment::new(3).add_paragraph(par("c")));
 let p = open(Docx::new().add_paragraph(Paragraph::new().add_move_to(MoveTo::new(Run::new().add_text("m")).add_delete(del))));
 let n = p.xml("word/comments.xml").unwrap().all("w:comment").len(); if n != 1 { fail(format!("{n} comments")) } }'''),
]
