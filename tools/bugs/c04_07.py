X = r'''
#![allow(dead_code)]
mod xml; mod pkg;
use docx_rs::*;
fn open(d: Docx) -> pkg::Pkg { let p = pkg::pack(d).unwrap(); pkg::Pkg::open(&p).unwrap() }
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
fn par(t: &str) -> Paragraph { Paragraph::new().add_run(Run::new().add_text(t)) }
fn ids(p: &pkg::Pkg) { let mut s = std::collections::HashSet::new();
 for n in p.names.clone() { if n.ends_with(".xml") && n.starts_with("word/") { for e in p.xml(&n).unwrap().all("w:p") { if let Some(i) = e.attr("w14:paraId") { if !s.insert(i.to_string()) { fail(format!("{n}: paragraph id {i} twice")) } } } } } }
'''
DM = "documents/mod.rs"
BUGS=[
dict(id="s10-ids-toc-table",prop="C04",edits=[(DM,"""    for child in &mut toc.after_contents {
        match child {
            TocContent::Paragraph(paragraph) => {
                refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen)
            }
            TocContent::Table(table) => refresh_para_ids_in_table(table, duplicates, used, seen),
        }
    }""","""    for child in &mut toc.after_contents {
        if let TocContent::Paragraph(paragraph) = child {
            refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen)
        }
    }""")],
 needs="a table placed after the items of a table of contents that holds a paragraph with a repeated id",breaks="the paragraph in the table keeps the id another paragraph also has",
 demo=X+r'''fn main(){ let t = Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(par("a").id("0000abcd"))])]);
 ids(&open(Docx::new().add_paragraph(par("x").id("0000abcd")).add_table_of_contents(TableOfContents::new().add_after_paragraph(par("p")).add_after_table(t)))) }'''),
dict(id="s11-ids-moveto-delete",prop="C04",edits=[(DM,"            MoveToChild::Delete(delete) => collect_para_ids_in_delete(delete, counts),\n",""),(DM,"""            MoveToChild::Delete(delete) => {
                refresh_para_ids_in_delete(delete, duplicates, used, seen)
            }
""","")],
 needs="a deletion inside moved-to text whose comment has a paragraph with an id that occurs elsewhere",breaks="two paragraphs of the package have the same id",
 demo=X+r'''fn main(){ let c = Comment::new(1).add_paragraph(par("c").id("0000abcd"));
 let del = Delete::new().add_run(Run::new().add_delete_text("d")).add_comment_start(c);
 ids(&open(Docx::new().add_paragraph(par("x").id("0000abcd")).add_paragraph(Paragraph::new().add_move_to(MoveTo::new(Run::new().add_text("m")).add_delete(del).add_run(Run::new()))))) }'''),
dict(id="s12-media-length",prop="C05",edits=[("documents/image_collector.rs","""            if self.media[index].1 == bytes {
                return index;
            }""","""            let known = &self.media[index].1;
            if known.len() == bytes.len() && known.first() == bytes.first() {
                return index;
            }""")],
 needs="two pictures with one id and different images of the same number of bytes that begin alike",breaks="the second picture shows the image of the first",
 demo=X+r'''fn main(){ let pic = |b: &[u8]| Run::new().add_image(Pic::new_with_dimensions(b.to_vec(), 1, 1).id("img"));
 let p = open(Docx::new().add_paragraph(Paragraph::new().add_run(pic(&[1, 2, 3])).add_run(pic(&[1, 2, 4]))));
 let n = p.names.iter().filter(|n| n.starts_with("word/media/")).count(); if n != 2 { fail(format!("{n} media parts for two images")) } }'''),
dict(id="s13-media-footer-prefix",prop="C05",edits=[("documents/image_collector.rs","""        if let Some(relationship_index) = self.relationships_by_media.get(&media_index) {
            picture
                .id
                .clone_from(&self.relationships[*relationship_index].0);
            return;
        }
""","""        if self.relationships_by_media.contains_key(&media_index) {
            picture.id = preferred_relationship_id;
            return;
        }
""")],
 needs="two pictures with the same image bytes and different ids in one part",breaks="the second picture refers to a relationship that does not exist",
 demo=X+r'''fn main(){ let pic = |i: &str| Run::new().add_image(Pic::new_with_dimensions(vec![1, 2, 3], 1, 1).id(i));
 let p = open(Docx::new().add_paragraph(Paragraph::new().add_run(pic("a")).add_run(pic("b"))));
 let r = p.rels("word/document.xml").unwrap(); for b in p.xml("word/document.xml").unwrap().all("a:blip") { let i = b.attr("r:embed").unwrap(); if !r.iter().any(|r| r.id == i) { fail(format!("no relationship {i}")) } } }'''),
dict(id="s14-footer-rels-number",prop="C06",edits=[("zipper/mod.rs",'''    let mut footer_rels = package.footer_rels.iter().peekable();
''','''    let mut footer_rels = package.footer_rels.iter().peekable();
    let mut related = 0;
'''),("zipper/mod.rs",'''            let (_, rels) = footer_rels
                .next()
                .expect("peeked footer relationship should exist");
            write_xml(
                &mut zip,
                &mut xml_buffer,
                &format!("word/_rels/footer{number}.xml.rels"),''','''            let (_, rels) = footer_rels
                .next()
                .expect("peeked footer relationship should exist");
            related += 1;
            write_xml(
                &mut zip,
                &mut xml_buffer,
                &format!("word/_rels/footer{related}.xml.rels"),''')],
 needs="a document whose second footer has a picture and whose first footer has none",breaks="the relationships of the second footer are written for the first",
 demo=X+r'''fn main(){ let p = open(Docx::new().footer(Footer::new().add_paragraph(par("a"))).first_footer(Footer::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(vec![1, 2, 3], 1, 1))))));
 for n in p.names.clone() { if n.starts_with("word/footer") { let r = p.rels(&n).unwrap(); for b in p.xml(&n).unwrap().all("a:blip") { let i = b.attr("r:embed").unwrap(); if !r.iter().any(|r| r.id == i) { fail(format!("{n}: no relationship {i}")) } } } } }'''),
dict(id="s15-link-suffix",prop="C06",edits=[("documents/header_rels.rs","""                b.relationship(
                    id,
                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
                    path,
                )""","""                b.relationship(
                    id,
                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
                    &path.to_lowercase(),
                )""")],
 needs="a header with a picture whose id contains an upper-case letter",breaks="the header's relationship names a media part that does not exist",
 demo=X+r'''fn main(){ let p = open(Docx::new().header(Header::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(vec![1, 2, 3], 1, 1).id("Logo"))))));
 for r in p.rels("word/header1.xml").unwrap() { if !p.parts.contains_key(&r.target) { fail(r.target) } } }'''),
dict(id="s16-even-footer-switch",prop="C07",edits=[(DM,"""            .even_footer(footer, &create_footer_rid(count));
        self.document_rels.footer_count = count;
        self.content_type = self.content_type.add_footer();
        self.settings = self.settings.even_and_odd_headers();
""","""            .even_footer(footer, &create_footer_rid(count));
        self.document_rels.footer_count = count;
        self.content_type = self.content_type.add_footer();
        if self.document.section_property.footer.is_some() {
            self.settings = self.settings.even_and_odd_headers();
        }
""")],
 needs="an even-page footer set on a document before, or without, a default footer",breaks="the even/odd switch stays off, so the even-page footer is not used",
 demo=X+r'''fn main(){ let p = open(Docx::new().even_footer(Footer::new().add_paragraph(par("e"))).footer(Footer::new().add_paragraph(par("d"))));
 if p.xml("word/settings.xml").unwrap().all("w:evenAndOddHeaders").is_empty() { fail("no even/odd switch".into()) } }'''),
dict(id="s17-footers-order",prop="C07",edits=[("documents/elements/section_property.rs","""        [&self.footer, &self.first_footer, &self.even_footer]
            .into_iter()""","""        [&self.footer, &self.even_footer, &self.first_footer]
            .into_iter()""")],
 needs="a section or document with both a first-page and an even-page footer",breaks="the first-page reference leads to the even-page footer and the other way round",
 demo=X+r'''fn main(){ let f = |t: &str| Footer::new().add_paragraph(par(t));
 let p = open(Docx::new().add_paragraph(par("x")).footer(f("d")).first_footer(f("first")).even_footer(f("even")));
 let r = p.rels("word/document.xml").unwrap();
 for e in p.xml("word/document.xml").unwrap().all("w:footerReference") { let k = e.attr("w:type").unwrap(); let i = e.attr("r:id").unwrap(); let t = &r.iter().find(|r| r.id == i).unwrap().target;
  let s = p.xml(t).unwrap().text(); if k != "default" && s != k { fail(format!("{k} -> {s}")) } } }'''),
]
