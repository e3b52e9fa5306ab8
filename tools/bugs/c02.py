X = r'''
mod xml; mod pkg;
use docx_rs::*;
fn part(d: Docx, n: &str) -> xml::El { let p = pkg::pack(d).unwrap(); pkg::Pkg::open(&p).unwrap().xml(n).unwrap() }
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
'''
BUGS=[
dict(id="s06-moveto-author",prop="C02",edits=[("documents/elements/move_to.rs",'self.author = escape::escape_owned(author.into());','let author: String = author.into();\n        self.author = if author.contains([\'<\', \'>\', \'"\', \'\\\'\']) {\n            escape::escape_owned(author)\n        } else {\n            author\n        };')],
 needs="a moved-to run whose author contains an ampersand spelling out an entity, and no angle bracket or quotation mark",breaks="the author 'R&amp;D' of a moved-to run is recovered as 'R&D'",
 demo=X+r'''fn main(){ let d = part(Docx::new().add_paragraph(Paragraph::new().add_move_to(MoveTo::new(Run::new().add_text("x")).author("R&amp;D"))), "word/document.xml");
 let a = d.child("w:body").unwrap().child("w:p").unwrap().child("w:moveTo").unwrap().attr("w:author").unwrap().to_string(); if a != "R&amp;D" { fail(a) } }'''),
dict(id="s07-escape-owned-lf",prop="C02",edits=[("escape/mod.rs","""matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\\'' | b'\\n' | b'\\r'))""","""matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\\'' | b'\\r'))""")],
 needs="a style name (or another attribute string) with a line feed but no other special character",breaks="the line feed reaches the attribute value raw and is read as a space",
 demo=X+r'''fn main(){ let d = part(Docx::new().add_style(Style::new("s", StyleType::Paragraph).name("a\nb")), "word/styles.xml");
 let a = d.kids_named("w:style").last().unwrap().child("w:name").unwrap().attr("w:val").unwrap().to_string(); if a != "a\nb" { fail(a) } }'''),
dict(id="s08-cs-font",prop="C02",edits=[("documents/elements/run_fonts.rs","self.cs = Some(escape_owned(f.into()));","self.cs = Some(f.into());")],
 needs="a complex-script font name that contains an entity-like sequence",breaks="the font name A&lt;B is recovered as A<B",
 demo=X+r'''fn main(){ let d = part(Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().fonts(RunFonts::new().cs("A&lt;B")))), "word/document.xml");
 let a = d.child("w:body").unwrap().child("w:p").unwrap().child("w:r").unwrap().child("w:rPr").unwrap().child("w:rFonts").unwrap().attr("w:cs").unwrap().to_string(); if a != "A&lt;B" { fail(a) } }'''),
]
