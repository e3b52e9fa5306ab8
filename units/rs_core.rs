pub open spec fn sp_SectionProperty_page_margin(this: SectionProperty, margin: PageMargin) -> SectionProperty { SectionProperty { page_margin: margin, ..this } }
//@fn SectionProperty::page_margin r=out
//@| ensures out == sp_SectionProperty_page_margin(self, margin),
//@end
pub open spec fn sp_SectionProperty_page_size(this: SectionProperty, size: PageSize) -> SectionProperty { SectionProperty { page_size: size, ..this } }
//@fn SectionProperty::page_size r=out
//@| ensures out == sp_SectionProperty_page_size(self, size),
//@end
pub open spec fn sp_SectionProperty_doc_grid(this: SectionProperty, doc_grid: DocGrid) -> SectionProperty { SectionProperty { doc_grid: Some(doc_grid), ..this } }
//@fn SectionProperty::doc_grid r=out
//@| ensures out == sp_SectionProperty_doc_grid(self, doc_grid),
//@end
pub open spec fn sp_SectionProperty_page_num_type(this: SectionProperty, h: PageNumType) -> SectionProperty { SectionProperty { page_num_type: Some(h), ..this } }
//@fn SectionProperty::page_num_type r=out
//@| ensures out == sp_SectionProperty_page_num_type(self, h),
//@end
pub open spec fn sp_SectionProperty_title_pg(this: SectionProperty) -> SectionProperty { SectionProperty { title_pg: true, ..this } }
//@fn SectionProperty::title_pg r=out
//@| ensures out == sp_SectionProperty_title_pg(self),
//@end
pub open spec fn sp_PageSize_width(this: PageSize, w: u32) -> PageSize { PageSize { w: w, ..this } }
//@fn PageSize::width r=out
//@| ensures out == sp_PageSize_width(self, w),
//@end
pub open spec fn sp_PageSize_height(this: PageSize, h: u32) -> PageSize { PageSize { h: h, ..this } }
//@fn PageSize::height r=out
//@| ensures out == sp_PageSize_height(self, h),
//@end
pub open spec fn sp_DocGrid_grid_type(this: DocGrid, t: DocGridType) -> DocGrid { DocGrid { grid_type: t, ..this } }
//@fn DocGrid::grid_type r=out
//@| ensures out == sp_DocGrid_grid_type(self, t),
//@end
pub open spec fn sp_DocGrid_line_pitch(this: DocGrid, line_pitch: usize) -> DocGrid { DocGrid { line_pitch: Some(line_pitch), ..this } }
//@fn DocGrid::line_pitch r=out
//@| ensures out == sp_DocGrid_line_pitch(self, line_pitch),
//@end
pub open spec fn sp_DocGrid_char_space(this: DocGrid, char_space: isize) -> DocGrid { DocGrid { char_space: Some(char_space), ..this } }
//@fn DocGrid::char_space r=out
//@| ensures out == sp_DocGrid_char_space(self, char_space),
//@end
pub open spec fn sp_PageNumType_start(this: PageNumType, s: u32) -> PageNumType { PageNumType { start: Some(s), ..this } }
//@fn PageNumType::start r=out
//@| ensures out == sp_PageNumType_start(self, s),
//@end
pub open spec fn sp_PageNumType_chap_style(this: PageNumType, s: Seq<char>) -> PageNumType { PageNumType { chap_style: Some(strv(s)), ..this } }
//@fn PageNumType::chap_style r=out
//@| ensures out == sp_PageNumType_chap_style(self, s.chars()),
//@end
pub open spec fn sp_HeaderReference_new(t: Seq<char>, id: Seq<char>) -> HeaderReference { HeaderReference { header_type: strv(t), id: strv(id) } }
//@fn HeaderReference::new r=out
//@| ensures out == sp_HeaderReference_new(t.chars(), id.chars()),
//@end
pub open spec fn sp_FooterReference_new(t: Seq<char>, id: Seq<char>) -> FooterReference { FooterReference { footer_type: strv(t), id: strv(id) } }
//@fn FooterReference::new r=out
//@| ensures out == sp_FooterReference_new(t.chars(), id.chars()),
//@end
pub open spec fn sp_Shading_color(this: Shading, color: Seq<char>) -> Shading { Shading { color: strv(color), ..this } }
//@fn Shading::color r=out
//@| ensures out == sp_Shading_color(self, color.chars()),
//@end
pub open spec fn sp_Shading_fill(this: Shading, fill: Seq<char>) -> Shading { Shading { fill: strv(fill), ..this } }
//@fn Shading::fill r=out
//@| ensures out == sp_Shading_fill(self, fill.chars()),
//@end
pub open spec fn sp_Shading_shd_type(this: Shading, shd_type: ShdType) -> Shading { Shading { shd_type: shd_type, ..this } }
//@fn Shading::shd_type r=out
//@| ensures out == sp_Shading_shd_type(self, shd_type),
//@end
pub open spec fn sp_PageMargin_top(this: PageMargin, v: i32) -> PageMargin { PageMargin { top: v, ..this } }
//@fn PageMargin::top r=out
//@| ensures out == sp_PageMargin_top(self, v),
//@end
pub open spec fn sp_PageMargin_right(this: PageMargin, v: i32) -> PageMargin { PageMargin { right: v, ..this } }
//@fn PageMargin::right r=out
//@| ensures out == sp_PageMargin_right(self, v),
//@end
pub open spec fn sp_PageMargin_bottom(this: PageMargin, v: i32) -> PageMargin { PageMargin { bottom: v, ..this } }
//@fn PageMargin::bottom r=out
//@| ensures out == sp_PageMargin_bottom(self, v),
//@end
pub open spec fn sp_PageMargin_left(this: PageMargin, v: i32) -> PageMargin { PageMargin { left: v, ..this } }
//@fn PageMargin::left r=out
//@| ensures out == sp_PageMargin_left(self, v),
//@end
pub open spec fn sp_PageMargin_header(this: PageMargin, v: i32) -> PageMargin { PageMargin { header: v, ..this } }
//@fn PageMargin::header r=out
//@| ensures out == sp_PageMargin_header(self, v),
//@end
pub open spec fn sp_PageMargin_footer(this: PageMargin, v: i32) -> PageMargin { PageMargin { footer: v, ..this } }
//@fn PageMargin::footer r=out
//@| ensures out == sp_PageMargin_footer(self, v),
//@end
pub open spec fn sp_PageMargin_gutter(this: PageMargin, v: i32) -> PageMargin { PageMargin { gutter: v, ..this } }
//@fn PageMargin::gutter r=out
//@| ensures out == sp_PageMargin_gutter(self, v),
//@end
