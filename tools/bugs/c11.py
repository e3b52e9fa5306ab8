X = r'''
use docx_rs::*;
fn again(d: Docx) -> Docx { let mut w = std::io::Cursor::new(Vec::new()); let mut d = d; d.build().pack(&mut w).unwrap(); read_docx(w.get_ref()).unwrap() }
fn para(d: &Docx) -> Paragraph { for c in d.document.children.iter() { if let DocumentChild::Paragraph(p) = c { return (**p).clone(); } } panic!() }
fn need(ok: bool, m: &str) { if !ok { eprintln!("{m}"); std::process::exit(1) } }
'''
R="reader/"
BUGS=[
dict(id="s09-negative-right-indent",prop="C11",edits=[(R+"attributes/indent.rs","            end = Some(v);","            end = Some(v.max(0));")],
 needs="a paragraph with a negative right indent",breaks="the indent is read as 0",
 demo=X+r'''fn main(){ for v in [-300, 0, 300] { let p = Paragraph::new().add_run(Run::new().add_text("a")).indent(Some(10), None, Some(v), None);
 let q = para(&again(Docx::new().add_paragraph(p))); need(q.property.indent.as_ref().unwrap().end == Some(v), &format!("{v}: {:?}", q.property.indent)); } }'''),
dict(id="s38-deleted-blank",prop="C11",edits=[(R+"run.rs","Ok(XmlEvent::Whitespace(c)) => match text_state {\n                    TextState::Delete => {","Ok(XmlEvent::Whitespace(c)) => match text_state {\n                    TextState::Delete if run.children.is_empty() => {")],
 needs="blank deleted text that is not the first item of its run",breaks="the deleted blank is not read",
 demo=X+r'''fn main(){ let p = Paragraph::new().add_delete(Delete::new().add_run(Run::new().add_delete_text("a").add_delete_text("  ").add_delete_text("b")));
 let q = para(&again(Docx::new().add_paragraph(p))); let t = format!("{:?}", q); need(t.matches("DeleteText {").count() == 3, &t); }'''),
dict(id="s39-table-left-of-margin",prop="C11",edits=[(R+"table_position_property.rs",'''"tblpX" => {
                    if let Ok(v) = i32::from_str(&a.value) {
                        property = property.position_x(v);''','''"tblpX" => {
                    if let Ok(v) = u16::from_str(&a.value) {
                        property = property.position_x(v.into());''')],
 needs="a floating table placed at a negative offset",breaks="the offset is lost when reading",
 demo=X+r'''fn main(){ for v in [-50, 0, 70] { let t = Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())])]).position(TablePositionProperty::new().position_x(v).position_y(v));
 let d = again(Docx::new().add_table(t)); let s = format!("{:?}", d.document.children); need(s.contains(&format!("position_x: Some({v})")), &s); } }'''),
dict(id="s40-tint-and-shade",prop="C11",edits=[(R+"run_property.rs",'''        rp = rp.theme_shade(ts);
    }
    if let Some(tt)''','''        rp = rp.theme_shade(ts);
    } else if let Some(tt)''')],
 needs="a text colour with both a theme shade and a theme tint",breaks="the tint is not read",
 demo=X+r'''fn main(){ let r = { let mut r = Run::new().add_text("a"); r.run_property = r.run_property.color("ff0000").theme_color(ThemeColor::Accent1).theme_shade("80").theme_tint("40"); r };
 let s = format!("{:?}", para(&again(Docx::new().add_paragraph(Paragraph::new().add_run(r))))); need(s.contains("80") && s.contains("40"), &s); }'''),
dict(id="s41-frame-left-of-margin",prop="C11",edits=[(R+"frame_property.rs","fp = fp.x(s as i32)","fp = fp.x(s as u32 as i32)")],
 needs="a text frame placed at a negative horizontal offset",breaks="the offset is read as 0",
 demo=X+r'''fn main(){ for v in [-50, 0, 70] { let p = Paragraph::new().add_run(Run::new().add_text("a")).frame_x(v).frame_y(v);
 let s = format!("{:?}", para(&again(Docx::new().add_paragraph(p))).property.frame_property); need(s.contains(&format!(" x: Some({v})")), &s); } }'''),
dict(id="s42-body-text-level",prop="C11",edits=[(R+"paragraph_property.rs",'''if let Ok(val) = usize::from_str(&val) {
                                    p = p.outline_lvl(val);''','''if let Some(val) = usize::from_str(&val).ok().filter(|v| *v < 9) {
                                    p = p.outline_lvl(val);''')],
 needs="a paragraph at outline level nine",breaks="the outline level is not read",
 demo=X+r'''fn main(){ for v in [0usize, 8, 9] { let p = Paragraph::new().add_run(Run::new().add_text("a")).outline_lvl(v);
 let s = format!("{:?}", para(&again(Docx::new().add_paragraph(p))).property.outline_lvl); need(s.contains(&format!("v: {v}")), &s); } }'''),
dict(id="s43-lines-after-only",prop="C11",edits=[(R+"attributes/line_spacing.rs",'''"afterLines" => {''','''"afterLines" if attributes.iter().any(|a| a.name.local_name == "after") => {''')],
 needs="a paragraph whose spacing after is given in lines only",breaks="the spacing after is not read",
 demo=X+r'''fn main(){ for s in [LineSpacing::new().after_lines(3), LineSpacing::new().after(5).after_lines(3), LineSpacing::new().before_lines(2)] { let p = Paragraph::new().add_run(Run::new().add_text("a")).line_spacing(s.clone());
 let q = format!("{:?}", para(&again(Docx::new().add_paragraph(p))).property.line_spacing); need(q == format!("{:?}", Some(s)), &q); } }'''),
dict(id="s44-frame-width-rule",prop="C11",edits=[("xml_builder/elements.rs",'''if prop.h_rule.is_some() {''','''if prop.h_rule.is_some() && prop.h.is_some() {''')],
 needs="a text frame with a height rule but without a height",breaks="the height rule is lost",
 demo=X+r'''fn main(){ let p = Paragraph::new().add_run(Run::new().add_text("a")).h_rule("auto").frame_width(9);
 let s = format!("{:?}", para(&again(Docx::new().add_paragraph(p))).property.frame_property); need(s.contains("h_rule: Some(\"auto\")"), &s); }'''),
dict(id="s45-margin-unit",prop="C11",edits=[("documents/elements/table_cell_margins.rs",'.margin_right(self.right.val as i32, self.right.width_type)?','.margin_right(self.right.val as i32, self.left.width_type)?')],
 needs="a table whose left and right cell margins are given in different units",breaks="the right margin gets the unit of the left one",
 demo=X+r"""fn main(){ let t = Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())])]).margins(TableCellMargins::new().margin_left(5, WidthType::Pct).margin_right(7, WidthType::Dxa));
 let d = again(Docx::new().add_table(t)); let s = format!("{:?}", d.document.children); need(s.contains("val: 7, width_type: Dxa"), &s); }"""),
dict(id="s46-grid-char-space",prop="C11",edits=[(R+"doc_grid.rs","doc_grid.char_space(char_space as isize)","doc_grid.char_space(char_space as u16 as isize)")],
 needs="a section with a document grid whose character spacing is negative",breaks="the spacing is read as 0",
 demo=X+r"""fn main(){ for v in [-30isize, 0, 40] { let d = again(Docx::new().document(Document::new().doc_grid(DocGrid::with_empty().grid_type(DocGridType::LinesAndChars).line_pitch(300).char_space(v)).add_paragraph(Paragraph::new())));
 let s = format!("{:?}", d.document.section_property.doc_grid); need(s.contains(&format!("char_space: Some({v})")), &s); } }"""),
dict(id="s47-chapter-numbering",prop="C11",edits=[(R+"page_num_type.rs",'} else if local_name == "chapStyle" {','} else if local_name == "chapStyle" && p.start.is_none() {')],
 needs="a section whose page numbers have both a first number and a chapter style",breaks="the chapter style is not read",
 demo=X+r"""fn main(){ for n in [PageNumType::new().start(2).chap_style("1"), PageNumType::new().chap_style("1"), PageNumType::new().start(2)] { let d = again(Docx::new().page_num_type(n.clone()).add_paragraph(Paragraph::new()));
 let s = format!("{:?}", d.document.section_property.page_num_type); need(s == format!("{:?}", Some(n)), &s); } }"""),
]
