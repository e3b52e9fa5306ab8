X = r'''
use docx_rs::*;
fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
'''
BUGS=[
dict(id="s24-diagonal-border",prop="C13",edits=[("documents/elements/table_cell_borders.rs","TableCellBorderPosition::Tr2bl => self.tr2bl = Some(nil),","TableCellBorderPosition::Tr2bl => self.tl2br = Some(nil),")],
 needs="clearing one diagonal border of a cell",breaks="the other diagonal border is cleared instead",
 demo=X+r'''fn main(){ let c = |p| TableCellBorder::new(p).border_type(BorderType::Double);
 let b = TableCellBorders::with_empty().set(c(TableCellBorderPosition::Tr2bl)).set(c(TableCellBorderPosition::Tl2br)).clear(TableCellBorderPosition::Tr2bl);
 let x = String::from_utf8(b.build()).unwrap(); let at = |n: &str| x.split(n).nth(1).map(|r| r.chars().take(40).collect::<String>()).unwrap_or_default();
 if !at("<w:tl2br").contains("double") || !at("<w:tr2bl").contains("nil") { fail(x) } }'''),
dict(id="s25-theme-shade",prop="C13",edits=[("documents/elements/color.rs","        self.theme_shade = Some(theme_shade.into());\n","        self.theme_shade = Some(theme_shade.into());\n        if self.theme_color.is_none() {\n            self.theme_tint = None;\n        }\n")],
 needs="a shade set after a tint, without a theme colour",breaks="the tint is lost",
 demo=X+r"""fn main(){ let x = format!("{:?}", RunProperty::new().color("ff0000").theme_tint("66").theme_shade("BF")); if !x.contains("\"66\"") { fail(x) } }"""),
dict(id="s26-frame-y-align",prop="C13",edits=[("documents/elements/paragraph.rs","            y_align: Some(align.into()),\n            ..self.property.frame_property.unwrap_or_default()","            y_align: Some(align.into()),\n            y: None,\n            ..self.property.frame_property.unwrap_or_default()")],
 needs="a frame with a vertical position and then a vertical alignment",breaks="the vertical position is lost",
 demo=X+r'''fn main(){ let p = Paragraph::new().frame_y(77).y_align("top"); let f = p.property.frame_property.unwrap(); if f.y != Some(77) || f.y_align.as_deref() != Some("top") { fail(format!("{f:?}")) } }'''),
dict(id="s27-fit-text-id",prop="C13",edits=[("documents/elements/fit_text.rs","self.id = Some(id);","self.id = self.id.or(Some(id));")],
 needs="the id of a fitted text set twice",breaks="the second id is ignored",
 demo=X+r'''fn main(){ let f = FitText::new(10).id(1).id(2); if f.id != Some(2) { fail(format!("{f:?}")) } }'''),
dict(id="s28-row-zero-width",prop="C13",edits=[("documents/elements/table_row_property.rs","        self.grid_before = Some(before);\n","        self.grid_before = Some(before);\n        self.width_before = self.width_before.filter(|w| *w > 0.0);\n")],
 needs="a row whose width before the first cell is zero, then a number of skipped columns",breaks="the zero width is lost",
 demo=X+r'''fn main(){ let r = TableRow::new(vec![]).width_before(0.0).grid_before(2); let x = format!("{r:?}"); if !x.contains("width_before: Some(0.0)") { fail(x) } }'''),
]
