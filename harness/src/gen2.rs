//! Dense generators for formatting values: every builder setter of the property groups can occur.
use crate::gen::Gen;
use docx_rs::*;

macro_rules! opt {
    ($g:expr, $d:expr, $v:ident => $e:expr) => {
        if $g.r.chance($d) {
            $v = $e;
        }
    };
}

impl Gen {
    fn density(&mut self) -> usize {
        *self.r.pick(&[4, 12, 40, 85])
    }
    fn i(&mut self) -> i32 {
        match self.r.below(6) { 0 => 0, 1 => 1, 2 => -(self.r.below(2000) as i32), _ => self.r.below(5000) as i32 }
    }
    fn u(&mut self) -> usize {
        match self.r.below(5) { 0 => 0, 1 => 1, _ => self.r.below(5000) }
    }
    fn s(&mut self) -> String {
        if self.o.wild && self.r.chance(20) { self.text("v") } else { self.r.pick(&["page", "margin", "text", "center", "exact"]).to_string() }
    }
    pub fn frame(&mut self) -> FrameProperty {
        let d = self.density();
        let mut f = FrameProperty::new();
        opt!(self, d, f => { let v = self.s(); f.wrap(v) });
        opt!(self, d, f => { let v = self.s(); f.v_anchor(v) });
        opt!(self, d, f => { let v = self.s(); f.h_anchor(v) });
        opt!(self, d, f => { let v = self.s(); f.h_rule(v) });
        opt!(self, d, f => { let v = self.s(); f.x_align(v) });
        opt!(self, d, f => { let v = self.s(); f.y_align(v) });
        opt!(self, d, f => { let v = self.i(); f.h_space(v) });
        opt!(self, d, f => { let v = self.i(); f.v_space(v) });
        opt!(self, d, f => { let v = self.i(); f.x(v) });
        opt!(self, d, f => { let v = self.i(); f.y(v) });
        opt!(self, d, f => { let v = self.u() as u32; f.width(v) });
        opt!(self, d, f => { let v = self.u() as u32; f.height(v) });
        f
    }
    pub fn tblp(&mut self) -> TablePositionProperty {
        let d = self.density();
        let mut f = TablePositionProperty::new();
        opt!(self, d, f => { let v = self.i(); f.left_from_text(v) });
        opt!(self, d, f => { let v = self.i(); f.right_from_text(v) });
        opt!(self, d, f => { let v = self.s(); f.vertical_anchor(v) });
        opt!(self, d, f => { let v = self.s(); f.horizontal_anchor(v) });
        opt!(self, d, f => { let v = self.s(); f.position_x_alignment(v) });
        opt!(self, d, f => { let v = self.s(); f.position_y_alignment(v) });
        opt!(self, d, f => { let v = self.i(); f.position_x(v) });
        opt!(self, d, f => { let v = self.i(); f.position_y(v) });
        f
    }
    pub fn doc_grid(&mut self) -> DocGrid {
        let mut g = if self.r.chance(50) { DocGrid::new() } else { DocGrid::with_empty() };
        opt!(self, 50, g => g.grid_type(*self.r.pick(&[DocGridType::Default, DocGridType::Lines, DocGridType::LinesAndChars, DocGridType::SnapToChars])));
        opt!(self, 50, g => { let v = self.u(); g.line_pitch(v) });
        opt!(self, 50, g => { let v = self.i() as isize; g.char_space(v) });
        g
    }
    pub fn page_margin(&mut self) -> PageMargin {
        let d = self.density();
        let mut m = PageMargin::new();
        opt!(self, d, m => { let v = self.i(); m.top(v) });
        opt!(self, d, m => { let v = self.i(); m.left(v) });
        opt!(self, d, m => { let v = self.i(); m.bottom(v) });
        opt!(self, d, m => { let v = self.i(); m.right(v) });
        opt!(self, d, m => { let v = self.i(); m.header(v) });
        opt!(self, d, m => { let v = self.i(); m.footer(v) });
        opt!(self, d, m => { let v = self.i(); m.gutter(v) });
        m
    }
    pub fn page_num_type(&mut self) -> PageNumType {
        let mut p = PageNumType::new();
        opt!(self, 60, p => { let v = self.u() as u32; p.start(v) });
        opt!(self, 60, p => { let v = self.s(); p.chap_style(v) });
        p
    }
    pub fn section_property(&mut self) -> SectionProperty {
        let d = self.density();
        let mut s = SectionProperty::new();
        opt!(self, d, s => { let (a, b) = (self.u() as u32, self.u() as u32); s.page_size(PageSize::new().size(a, b)) });
        opt!(self, d, s => { let m = self.page_margin(); s.page_margin(m) });
        opt!(self, d, s => s.page_orient(*self.r.pick(&[PageOrientationType::Landscape, PageOrientationType::Portrait])));
        opt!(self, d, s => { let g = self.doc_grid(); s.doc_grid(g) });
        opt!(self, d, s => s.text_direction(self.r.pick(&["lrTb", "tbRl"]).to_string()));
        opt!(self, d, s => s.title_pg());
        opt!(self, d, s => { let p = self.page_num_type(); s.page_num_type(p) });
        if self.r.chance(d) { s.columns = self.u(); s.space = self.u(); }
        if self.r.chance(d) { s.section_type = Some(*self.r.pick(&[SectionType::Continuous, SectionType::EvenPage, SectionType::NextColumn, SectionType::NextPage, SectionType::OddPage])); }
        s
    }
    pub fn para_prop(&mut self) -> ParagraphProperty {
        let d = self.density();
        let mut p = ParagraphProperty::new();
        opt!(self, d, p => p.align(*self.r.pick(&[AlignmentType::Center, AlignmentType::Left, AlignmentType::Right, AlignmentType::Both, AlignmentType::Distribute, AlignmentType::Justified, AlignmentType::Start, AlignmentType::End])));
        opt!(self, d, p => p.style(&self.sid()));
        opt!(self, d, p => { let (a, b, c, e) = self.indent_args(); p.indent(a, b, c, e) });
        opt!(self, d / 2, p => { let (a, b) = (2 + self.r.below(3), self.r.below(3)); if self.o.numbering { p.numbering(NumberingId::new(a), IndentLevel::new(b)) } else { p } });
        opt!(self, d, p => { let s = self.line_spacing(); p.line_spacing(s) });
        opt!(self, d, p => { let v = self.i(); p.character_spacing(v) });
        opt!(self, d, p => p.snap_to_grid(self.r.chance(50)));
        opt!(self, d, p => { let s = self.shading(); p.shading(s) });
        opt!(self, d, p => p.keep_next(self.r.chance(50)));
        opt!(self, d, p => p.keep_lines(self.r.chance(50)));
        opt!(self, d, p => p.outline_lvl(self.r.below(12)));
        opt!(self, d, p => p.page_break_before(self.r.chance(50)));
        opt!(self, d, p => p.bidi(self.r.chance(50)));
        opt!(self, d, p => p.widow_control(self.r.chance(50)));
        opt!(self, d, p => { let t = self.tab(); p.add_tab(t) });
        opt!(self, d, p => { let t = self.tab(); p.add_tab(t) });
        opt!(self, d, p => { let f = self.frame(); p.frame_property(f) });
        opt!(self, d, p => { let f = self.run_property(); p.run_property(f) });
        opt!(self, d, p => p.text_alignment(*self.r.pick(&[TextAlignmentType::Auto, TextAlignmentType::Baseline, TextAlignmentType::Bottom, TextAlignmentType::Center, TextAlignmentType::Top])));
        opt!(self, d, p => { let v = self.i() as isize; p.adjust_right_ind(v) });
        opt!(self, d, p => { let b = self.borders(); p.set_borders(b) });
        p
    }
    pub fn table_borders(&mut self) -> TableBorders {
        let mut b = if self.r.chance(50) { TableBorders::new() } else { TableBorders::with_empty() };
        for pos in [TableBorderPosition::Top, TableBorderPosition::Left, TableBorderPosition::Bottom, TableBorderPosition::Right, TableBorderPosition::InsideH, TableBorderPosition::InsideV] {
            if self.r.chance(40) { let (t, s, c) = (self.border_type(), self.u(), self.hex()); b = b.set(TableBorder::new(pos).border_type(t).size(s).color(c)); }
        }
        b
    }
    pub fn table_margins(&mut self) -> TableCellMargins {
        let mut m = TableCellMargins::new();
        opt!(self, 30, m => { let (a, b, c, d) = (self.u(), self.u(), self.u(), self.u()); m.margin(a, b, c, d) });
        opt!(self, 40, m => { let (v, t) = (self.u(), self.width_type()); m.margin_top(v, t) });
        opt!(self, 40, m => { let (v, t) = (self.u(), self.width_type()); m.margin_right(v, t) });
        opt!(self, 40, m => { let (v, t) = (self.u(), self.width_type()); m.margin_left(v, t) });
        opt!(self, 40, m => { let (v, t) = (self.u(), self.width_type()); m.margin_bottom(v, t) });
        m
    }
    pub fn table_prop(&mut self) -> TableProperty {
        let d = self.density();
        let mut t = if self.r.chance(50) { TableProperty::new() } else { TableProperty::without_borders() };
        opt!(self, d, t => { let v = self.i(); t.indent(v) });
        opt!(self, d, t => { let (v, w) = (self.u(), self.width_type()); t.width(v, w) });
        opt!(self, d, t => t.align(*self.r.pick(&[TableAlignmentType::Center, TableAlignmentType::Left, TableAlignmentType::Right])));
        opt!(self, d, t => { let m = self.table_margins(); t.set_margins(m) });
        opt!(self, d, t => { let b = self.table_borders(); t.set_borders(b) });
        opt!(self, d, t => { let v = self.sid(); t.style(v) });
        opt!(self, d, t => t.layout(*self.r.pick(&[TableLayoutType::Fixed, TableLayoutType::Autofit])));
        opt!(self, d, t => { let p = self.tblp(); t.position(p) });
        t
    }
    pub fn cell_borders(&mut self) -> TableCellBorders {
        let mut b = TableCellBorders::with_empty();
        for pos in [TableCellBorderPosition::Top, TableCellBorderPosition::Left, TableCellBorderPosition::Bottom, TableCellBorderPosition::Right, TableCellBorderPosition::InsideH, TableCellBorderPosition::InsideV, TableCellBorderPosition::Tl2br, TableCellBorderPosition::Tr2bl] {
            if self.r.chance(40) { let (t, s, col) = (self.border_type(), self.u(), self.hex()); b = b.set(TableCellBorder::new(pos).border_type(t).size(s).color(col)); }
        }
        b
    }
    pub fn cell_prop(&mut self) -> TableCellProperty {
        let d = self.density();
        let mut c = TableCellProperty::new();
        opt!(self, d, c => { let (v, t) = (self.u(), self.width_type()); c.width(v, t) });
        opt!(self, d, c => { let v = 1 + self.r.below(3); c.grid_span(v) });
        opt!(self, d, c => c.vertical_merge(*self.r.pick(&[VMergeType::Continue, VMergeType::Restart])));
        opt!(self, d, c => c.vertical_align(*self.r.pick(&[VAlignType::Top, VAlignType::Center, VAlignType::Bottom])));
        opt!(self, d, c => c.text_direction(*self.r.pick(&[TextDirectionType::Lr, TextDirectionType::TbRl, TextDirectionType::BtLr])));
        opt!(self, d, c => { let s = self.shading(); c.shading(s) });
        opt!(self, d, c => { let b = self.cell_borders(); c.set_borders(b) });
        opt!(self, d, c => { let (v, t) = (self.u(), self.width_type()); c.margin_top(v, t) });
        opt!(self, d, c => { let (v, t) = (self.u(), self.width_type()); c.margin_right(v, t) });
        opt!(self, d, c => { let (v, t) = (self.u(), self.width_type()); c.margin_bottom(v, t) });
        opt!(self, d, c => { let (v, t) = (self.u(), self.width_type()); c.margin_left(v, t) });
        c
    }
    pub fn level(&mut self, k: usize) -> Level {
        let d = self.density();
        let st = self.u();
        let fmt = self.r.pick(&["decimal", "bullet", "upperRoman"]).to_string();
        let mut l = Level::new(k, Start::new(st), NumberFormat::new(fmt), LevelText::new(format!("%{}.", k + 1)), LevelJc::new(*self.r.pick(&["left", "right"])));
        opt!(self, d, l => { let (a, b, c, e) = self.indent_args(); l.indent(a, b, c, e) });
        opt!(self, d, l => l.suffix(self.r.pick(&[LevelSuffixType::Nothing, LevelSuffixType::Space, LevelSuffixType::Tab]).clone()));
        opt!(self, d, l => { let v = self.sid(); l.paragraph_style(v) });
        opt!(self, d, l => { let v = self.u(); l.size(v) });
        opt!(self, d, l => { let v = self.i(); l.spacing(v) });
        opt!(self, d, l => { let v = self.hex(); l.color(v) });
        opt!(self, d, l => l.highlight("yellow"));
        opt!(self, d, l => l.bold());
        opt!(self, d, l => l.italic());
        opt!(self, d, l => l.strike());
        opt!(self, d, l => l.dstrike());
        opt!(self, d, l => l.underline("single"));
        opt!(self, d, l => l.vanish());
        opt!(self, d, l => { let f = self.fonts(); l.fonts(f) });
        opt!(self, d, l => { let v = self.u() as u32; l.level_restart(v) });
        opt!(self, d, l => l.is_lgl());
        l
    }
    pub fn style_dense(&mut self, mut s: Style) -> Style {
        let d = self.density();
        opt!(self, d, s => s.unhide_when_used());
        opt!(self, d, s => s.theme_color(ThemeColor::Accent2));
        opt!(self, d, s => s.theme_shade("BF"));
        opt!(self, d, s => s.theme_tint("99"));
        opt!(self, d, s => s.highlight("green"));
        opt!(self, d, s => s.vanish());
        opt!(self, d, s => { let b = self.text_border(); s.text_border(b) });
        opt!(self, d, s => s.text_alignment(TextAlignmentType::Center));
        opt!(self, d, s => s.snap_to_grid(self.r.chance(50)));
        opt!(self, d, s => { let v = self.i(); s.hanging_chars(v) });
        opt!(self, d, s => { let v = self.i(); s.first_line_chars(v) });
        opt!(self, d, s => s.outline_lvl(self.r.below(9)));
        opt!(self, d, s => { let t = self.table_prop(); s.table_property(t) });
        opt!(self, d, s => { let t = self.cell_prop(); s.table_cell_property(t) });
        opt!(self, d, s => { let v = self.s(); s.wrap(v) });
        opt!(self, d, s => { let v = self.s(); s.v_anchor(v) });
        opt!(self, d, s => { let v = self.s(); s.h_rule(v) });
        opt!(self, d, s => { let v = self.i(); s.frame_x(v) });
        opt!(self, d, s => { let v = self.u() as u32; s.frame_height(v) });
        s
    }
    pub fn toc_instr(&mut self) -> InstrToC {
        let d = self.density();
        let mut t = InstrToC::new();
        opt!(self, d, t => { let (a, b) = (self.r.below(9), self.r.below(9)); t.heading_styles_range(a, b) });
        opt!(self, d, t => { let (a, b) = (self.r.below(9), self.r.below(9)); t.tc_field_level_range(a, b) });
        opt!(self, d, t => { let v = if self.r.chance(50) { Some(self.text("f")) } else { None }; t.tc_field_identifier(v) });
        opt!(self, d, t => { let (a, b) = (self.r.below(9), self.r.below(9)); t.omit_page_numbers_level_range(a, b) });
        opt!(self, d, t => { let v = self.text("p"); t.entry_and_page_number_separator(v) });
        opt!(self, d, t => { let v = self.text("b"); t.entry_bookmark_name(v) });
        opt!(self, d, t => { let v = self.text("a"); t.caption_label(v) });
        opt!(self, d, t => { let v = self.text("c"); t.caption_label_including_numbers(v) });
        opt!(self, d, t => { let v = self.text("d"); t.sequence_and_page_numbers_separator(v) });
        opt!(self, d, t => { let v = self.text("s"); t.seq_field_identifier_for_prefix(v) });
        opt!(self, d, t => t.hyperlink());
        opt!(self, d, t => t.preserve_tab());
        opt!(self, d, t => t.preserve_new_line());
        opt!(self, d, t => t.use_applied_paragraph_line_level());
        opt!(self, d, t => t.hide_tab_and_page_numbers_in_webview());
        opt!(self, d, t => { let (v, l) = (self.text("st"), self.r.below(9)); t.add_style_with_level(StyleWithLevel::new(v, l)) });
        opt!(self, d, t => { let (v, l) = (self.text("st"), self.r.below(9)); t.add_style_with_level(StyleWithLevel::new(v, l)) });
        t
    }
}
