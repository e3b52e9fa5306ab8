WF = r'''
mod xml; mod pkg;
use docx_rs::*;
fn wf(d: Docx) { let p = pkg::pack(d).unwrap(); let p = pkg::Pkg::open(&p).unwrap();
  for n in p.names.iter() { if pkg::Pkg::is_xml(n) { if let Err(e) = p.xml(n) { eprintln!("{n}: {e}"); std::process::exit(1) } } } }
'''
BUGS=[
dict(id="s04-frame-attr-twice",prop="C03",edits=[("xml_builder/elements.rs",'w = w.attr_display("w:h", height);','w = w.attr_display(if prop.h_rule.is_none() && prop.v_space.is_some() && prop.w.is_some() { "w:w" } else { "w:h" }, height);')],
 needs="a paragraph frame with width, height and a vertical distance from text but no height rule",breaks="w:framePr carries the attribute w:w twice: document.xml is not well-formed",
 demo=WF+r'''fn main(){ wf(Docx::new().add_paragraph(Paragraph::new().frame_width(3).frame_height(4).v_space(5))); }'''),
dict(id="s05-toc-delete-close",prop="C03",edits=[("documents/elements/table_of_contents.rs",'''            if !self.without_sdt {
                b = b.close()?.close()?;
            }

            b.into_inner()''','''            if !self.without_sdt {
                b = b.close()?;
                if self.delete.is_none() || self.after_contents.is_empty() {
                    b = b.close()?;
                }
            }

            b.into_inner()''')],
 needs="a table of contents marked as deleted that is followed by content inside the TOC block",breaks="the content control of the table of contents is never closed",
 demo=WF+r'''fn main(){ wf(Docx::new().add_table_of_contents(TableOfContents::new().heading_styles_range(1,3).delete("a","2020-01-01T00:00:00Z").add_after_paragraph(Paragraph::new().add_run(Run::new().add_text("x"))))); }'''),
]
