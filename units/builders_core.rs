// TRUSTED: str::replace('\n', "") removes the line feeds.
pub uninterp spec fn nolf(s: Seq<char>) -> Seq<char>;
pub trait VxNolf { fn vx_nolf(&self) -> (r: String); }
impl VxNolf for String { #[verifier::external_body] fn vx_nolf(&self) -> (r: String) ensures r == strv(nolf(self@)), r@ == nolf(self@) { self.replace('\n', "") } }
//@gsub `.replace('\n', "")` => `.vx_nolf()`
// TRUSTED: derived Clone copies the value.
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
//@gsub `.clone()` => `.vx_clone()`
//@gsub `CantSplit::default()` => `vx_default()`
//@fn <FootnoteReference as From>::from
//@| ensures r == (FootnoteReference { id: footnote.id, style: strv("FootnoteReference"@), content: footnote.content }),
//@end
//@fn Run::add_footnote_reference
//@| ensures r == (Run { run_property: sp_RunProperty_style(self.run_property, "FootnoteReference"@),
//@|     children: vecv(self.children@.push(RunChild::FootnoteReference(FootnoteReference { id: footnote.id, style: strv("FootnoteReference"@), content: footnote.content }))), ..self }),
//@sub `footnote.into()` => `FootnoteReference::from(footnote)`
//@end
//@fn Run::add_text
//@| ensures r == (Run { children: vecv(self.children@.push(RunChild::Text(sp_Text_new(nolf(text.chars()))))), ..self }),
//@end
//@fn Run::add_text_without_escape
//@| ensures r == (Run { children: vecv(self.children@.push(RunChild::Text(sp_Text_without_escape(nolf(text.chars()))))), ..self }),
//@end
//@fn Run::add_delete_text
//@| ensures r == (Run { children: vecv(self.children@.push(RunChild::DeleteText(sp_DeleteText_new(nolf(text.chars()))))), ..self }),
//@end
//@fn Run::add_delete_text_without_escape
//@| ensures r == (Run { children: vecv(self.children@.push(RunChild::DeleteText(sp_DeleteText_without_escape(nolf(text.chars()))))), ..self }),
//@end
//@fn ParagraphStyle::new
//@| ensures val matches Some(v) ==> r == (ParagraphStyle { val: escaped(v.chars()) }),
//@end
//@fn ParagraphProperty::style
//@| ensures r == (ParagraphProperty { style: Some(ParagraphStyle { val: escaped(style_id@) }), ..self }),
//@end
//@fn Paragraph::style
//@| ensures r == (Paragraph { property: ParagraphProperty { style: Some(ParagraphStyle { val: escaped(style_id@) }), ..self.property }, ..self }),
//@end
//@fn Level::paragraph_style
//@| ensures r == (Level { pstyle: Some(ParagraphStyle { val: escaped(style_id.chars()) }), ..self }),
//@end
pub open spec fn clamped(v: usize) -> usize { if v >= 10 { 9 } else { v } }
//@fn OutlineLvl::new
//@| requires v < 10,
//@| ensures r == (OutlineLvl { v: v }),
//@sub `assert!(v < 10, "outline level should be less than 10");` => `assert(v < 10);`
//@end
//@fn ParagraphProperty::outline_lvl
//@| ensures r == (ParagraphProperty { outline_lvl: Some(OutlineLvl { v: clamped(v) }), ..self }),
//@end
//@fn Paragraph::outline_lvl
//@| ensures r == (Paragraph { property: ParagraphProperty { outline_lvl: Some(OutlineLvl { v: clamped(v) }), ..self.property }, ..self }),
//@end
//@fn Style::outline_lvl
//@| ensures r == (Style { paragraph_property: ParagraphProperty { outline_lvl: Some(OutlineLvl { v: clamped(l) }), ..self.paragraph_property }, ..self }),
//@end
//@fn Paragraph::tabs
//@| ensures r == (Paragraph { property: ParagraphProperty { tabs: vecv(self.property.tabs@ + tabs@), ..self.property }, ..self }),
//@loop 0 iter=it
//@| invariant it.seq().len() == tabs@.len(), forall |i: int| 0 <= i < tabs@.len() ==> *(#[trigger] it.seq()[i]) == tabs@[i],
//@|   this.property.tabs@ == self.property.tabs@ + tabs@.take(it.index@ as int), this == (Paragraph { property: ParagraphProperty { tabs: this.property.tabs, ..self.property }, ..self }),
//@loopstart 0
//@| assert(tabs@.take(it.index@ + 1) =~= tabs@.take(it.index@ as int).push(tabs@[it.index@ as int]));
//@| assert(*tab == tabs@[it.index@ as int]);
//@loopend 0
//@| assert(this.property.tabs@ =~= self.property.tabs@ + tabs@.take(it.index@ + 1));
//@afterloop 0
//@| assert(tabs@.take(tabs@.len() as int) =~= tabs@);
//@end
//@fn Paragraph::unshift_run
//@| ensures r == (Paragraph { children: vecv(self.children@.insert(0, ParagraphChild::Run(Box::new(run)))), ..self }),
//@end
//@fn Div::add_child
//@| ensures r == (Div { divs_child: vecv(self.divs_child@.push(s)), ..self }),
//@end
pub open spec fn sp_CustomItemRels_first_item(this: CustomItemRels, first_item: usize) -> CustomItemRels { CustomItemRels { first_item: first_item, ..this } }
//@fn CustomItemRels::first_item r=out
//@| ensures out == sp_CustomItemRels_first_item(self, first_item),
//@end
pub open spec fn sp_CoreProps_created_at(this: CoreProps, date: Seq<char>) -> CoreProps { CoreProps { config: CorePropsConfig { created: Some(strv(date)), ..this.config }, ..this } }
//@fn CoreProps::created_at r=out
//@| ensures out == sp_CoreProps_created_at(self, date@),
//@end
pub open spec fn sp_CoreProps_updated_at(this: CoreProps, date: Seq<char>) -> CoreProps { CoreProps { config: CorePropsConfig { modified: Some(strv(date)), ..this.config }, ..this } }
//@fn CoreProps::updated_at r=out
//@| ensures out == sp_CoreProps_updated_at(self, date@),
//@end
pub open spec fn sp_DocProps_created_at(this: DocProps, date: Seq<char>) -> DocProps { DocProps { core: sp_CoreProps_created_at(this.core, date), ..this } }
//@fn DocProps::created_at r=out
//@| ensures out == sp_DocProps_created_at(self, date@),
//@end
pub open spec fn sp_DocProps_updated_at(this: DocProps, date: Seq<char>) -> DocProps { DocProps { core: sp_CoreProps_updated_at(this.core, date), ..this } }
//@fn DocProps::updated_at r=out
//@| ensures out == sp_DocProps_updated_at(self, date@),
//@end
pub open spec fn sp_Document_add_paragraph(this: Document, p: Paragraph) -> Document { Document { children: vecv(this.children@.push(DocumentChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Document::add_paragraph r=out
//@| ensures out == sp_Document_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(DocumentChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_Document_add_table(this: Document, t: Table) -> Document { Document { children: vecv(this.children@.push(DocumentChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Document::add_table r=out
//@| ensures out == sp_Document_add_table(self, t),
//@|   out.children@ == self.children@.push(DocumentChild::Table(Box::new(t))),
//@end
pub open spec fn sp_BookmarkStart_new(id: usize, name: Seq<char>) -> BookmarkStart { BookmarkStart { id: id, name: strv(name) } }
//@fn BookmarkStart::new r=out
//@| ensures out == sp_BookmarkStart_new(id, name.chars()),
//@end
pub open spec fn sp_Document_add_bookmark_start(this: Document, id: usize, name: Seq<char>) -> Document { Document { children: vecv(this.children@.push(DocumentChild::BookmarkStart(sp_BookmarkStart_new(id, name)))), ..this } }
//@fn Document::add_bookmark_start r=out
//@| ensures out == sp_Document_add_bookmark_start(self, id, name.chars()),
//@|   out.children@ == self.children@.push(DocumentChild::BookmarkStart(sp_BookmarkStart_new(id, name.chars()))),
//@end
pub open spec fn sp_BookmarkEnd_new(id: usize) -> BookmarkEnd { BookmarkEnd { id: id } }
//@fn BookmarkEnd::new r=out
//@| ensures out == sp_BookmarkEnd_new(id),
//@end
pub open spec fn sp_Document_add_bookmark_end(this: Document, id: usize) -> Document { Document { children: vecv(this.children@.push(DocumentChild::BookmarkEnd(sp_BookmarkEnd_new(id)))), ..this } }
//@fn Document::add_bookmark_end r=out
//@| ensures out == sp_Document_add_bookmark_end(self, id),
//@|   out.children@ == self.children@.push(DocumentChild::BookmarkEnd(sp_BookmarkEnd_new(id))),
//@end
pub open spec fn sp_Comment_id(this: Comment) -> usize { this.id }
//@fn Comment::id r=out
//@| ensures out == sp_Comment_id(*self),
//@end
pub open spec fn sp_CommentRangeStart_new(comment: Comment) -> CommentRangeStart { CommentRangeStart { id: sp_Comment_id(comment), comment: comment } }
//@fn CommentRangeStart::new r=out
//@| ensures out == sp_CommentRangeStart_new(comment),
//@end
pub open spec fn sp_Document_add_comment_start(this: Document, comment: Comment) -> Document { Document { children: vecv(this.children@.push(DocumentChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Document::add_comment_start r=out
//@| ensures out == sp_Document_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(DocumentChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_CommentRangeEnd_new(id: usize) -> CommentRangeEnd { CommentRangeEnd { id: id } }
//@fn CommentRangeEnd::new r=out
//@| ensures out == sp_CommentRangeEnd_new(id),
//@end
pub open spec fn sp_Document_add_comment_end(this: Document, id: usize) -> Document { Document { children: vecv(this.children@.push(DocumentChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Document::add_comment_end r=out
//@| ensures out == sp_Document_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(DocumentChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Document_add_section(this: Document, sec: Section) -> Document { Document { children: vecv(this.children@.push(DocumentChild::Section(Box::new(sec)))), ..this } }
//@fn Document::add_section r=out
//@| ensures out == sp_Document_add_section(self, sec),
//@|   out.children@ == self.children@.push(DocumentChild::Section(Box::new(sec))),
//@end
pub open spec fn sp_SectionProperty_title_pg(this: SectionProperty) -> SectionProperty { SectionProperty { title_pg: true, ..this } }
//@fn SectionProperty::title_pg r=out
//@| ensures out == sp_SectionProperty_title_pg(self),
//@end
pub open spec fn sp_Document_title_pg(this: Document) -> Document { Document { section_property: sp_SectionProperty_title_pg(this.section_property), ..this } }
//@fn Document::title_pg r=out
//@| ensures out == sp_Document_title_pg(self),
//@end
pub open spec fn sp_SectionProperty_page_size(this: SectionProperty, size: PageSize) -> SectionProperty { SectionProperty { page_size: size, ..this } }
//@fn SectionProperty::page_size r=out
//@| ensures out == sp_SectionProperty_page_size(self, size),
//@end
pub open spec fn sp_Document_page_size(this: Document, size: PageSize) -> Document { Document { section_property: sp_SectionProperty_page_size(this.section_property, size), ..this } }
//@fn Document::page_size r=out
//@| ensures out == sp_Document_page_size(self, size),
//@end
pub open spec fn sp_SectionProperty_page_margin(this: SectionProperty, margin: PageMargin) -> SectionProperty { SectionProperty { page_margin: margin, ..this } }
//@fn SectionProperty::page_margin r=out
//@| ensures out == sp_SectionProperty_page_margin(self, margin),
//@end
pub open spec fn sp_Document_page_margin(this: Document, margin: PageMargin) -> Document { Document { section_property: sp_SectionProperty_page_margin(this.section_property, margin), ..this } }
//@fn Document::page_margin r=out
//@| ensures out == sp_Document_page_margin(self, margin),
//@end
pub open spec fn sp_PageSize_orient(this: PageSize, o: PageOrientationType) -> PageSize { PageSize { orient: Some(o), ..this } }
//@fn PageSize::orient r=out
//@| ensures out == sp_PageSize_orient(self, o),
//@end
pub open spec fn sp_SectionProperty_page_orient(this: SectionProperty, o: PageOrientationType) -> SectionProperty { SectionProperty { page_size: sp_PageSize_orient(this.page_size, o), ..this } }
//@fn SectionProperty::page_orient r=out
//@| ensures out == sp_SectionProperty_page_orient(self, o),
//@end
pub open spec fn sp_Document_page_orient(this: Document, o: PageOrientationType) -> Document { Document { section_property: sp_SectionProperty_page_orient(this.section_property, o), ..this } }
//@fn Document::page_orient r=out
//@| ensures out == sp_Document_page_orient(self, o),
//@end
pub open spec fn sp_SectionProperty_doc_grid(this: SectionProperty, doc_grid: DocGrid) -> SectionProperty { SectionProperty { doc_grid: Some(doc_grid), ..this } }
//@fn SectionProperty::doc_grid r=out
//@| ensures out == sp_SectionProperty_doc_grid(self, doc_grid),
//@end
pub open spec fn sp_Document_doc_grid(this: Document, doc_grid: DocGrid) -> Document { Document { section_property: sp_SectionProperty_doc_grid(this.section_property, doc_grid), ..this } }
//@fn Document::doc_grid r=out
//@| ensures out == sp_Document_doc_grid(self, doc_grid),
//@end
pub open spec fn sp_Document_default_section_property(this: Document, property: SectionProperty) -> Document { Document { section_property: property, ..this } }
//@fn Document::default_section_property r=out
//@| ensures out == sp_Document_default_section_property(self, property),
//@end
pub open spec fn sp_HeaderReference_new(t: Seq<char>, id: Seq<char>) -> HeaderReference { HeaderReference { header_type: strv(t), id: strv(id) } }
//@fn HeaderReference::new r=out
//@| ensures out == sp_HeaderReference_new(t.chars(), id.chars()),
//@end
pub open spec fn sp_SectionProperty_header(this: SectionProperty, h: Header, rid: Seq<char>) -> SectionProperty { SectionProperty { header: Some((strv(rid), h)), header_reference: Some(sp_HeaderReference_new("default"@, rid)), ..this } }
//@fn SectionProperty::header r=out
//@| ensures out == sp_SectionProperty_header(self, h, rid@),
//@end
pub open spec fn sp_Document_header(this: Document, h: Header, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_header(this.section_property, h, rid), ..this } }
//@fn Document::header r=out
//@| ensures out == sp_Document_header(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_first_header(this: SectionProperty, h: Header, rid: Seq<char>) -> SectionProperty { SectionProperty { first_header: Some((strv(rid), h)), first_header_reference: Some(sp_HeaderReference_new("first"@, rid)), title_pg: true, ..this } }
//@fn SectionProperty::first_header r=out
//@| ensures out == sp_SectionProperty_first_header(self, h, rid@),
//@end
pub open spec fn sp_Document_first_header(this: Document, h: Header, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_first_header(this.section_property, h, rid), ..this } }
//@fn Document::first_header r=out
//@| ensures out == sp_Document_first_header(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_first_header_without_title_pg(this: SectionProperty, h: Header, rid: Seq<char>) -> SectionProperty { SectionProperty { first_header: Some((strv(rid), h)), first_header_reference: Some(sp_HeaderReference_new("first"@, rid)), ..this } }
//@fn SectionProperty::first_header_without_title_pg r=out
//@| ensures out == sp_SectionProperty_first_header_without_title_pg(self, h, rid@),
//@end
pub open spec fn sp_Document_first_header_without_title_pg(this: Document, h: Header, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_first_header_without_title_pg(this.section_property, h, rid), ..this } }
//@fn Document::first_header_without_title_pg r=out
//@| ensures out == sp_Document_first_header_without_title_pg(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_even_header(this: SectionProperty, h: Header, rid: Seq<char>) -> SectionProperty { SectionProperty { even_header: Some((strv(rid), h)), even_header_reference: Some(sp_HeaderReference_new("even"@, rid)), ..this } }
//@fn SectionProperty::even_header r=out
//@| ensures out == sp_SectionProperty_even_header(self, h, rid@),
//@end
pub open spec fn sp_Document_even_header(this: Document, h: Header, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_even_header(this.section_property, h, rid), ..this } }
//@fn Document::even_header r=out
//@| ensures out == sp_Document_even_header(self, h, rid@),
//@end
pub open spec fn sp_FooterReference_new(t: Seq<char>, id: Seq<char>) -> FooterReference { FooterReference { footer_type: strv(t), id: strv(id) } }
//@fn FooterReference::new r=out
//@| ensures out == sp_FooterReference_new(t.chars(), id.chars()),
//@end
pub open spec fn sp_SectionProperty_footer(this: SectionProperty, h: Footer, rid: Seq<char>) -> SectionProperty { SectionProperty { footer: Some((strv(rid), h)), footer_reference: Some(sp_FooterReference_new("default"@, rid)), ..this } }
//@fn SectionProperty::footer r=out
//@| ensures out == sp_SectionProperty_footer(self, h, rid@),
//@end
pub open spec fn sp_Document_footer(this: Document, h: Footer, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_footer(this.section_property, h, rid), ..this } }
//@fn Document::footer r=out
//@| ensures out == sp_Document_footer(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_first_footer(this: SectionProperty, h: Footer, rid: Seq<char>) -> SectionProperty { SectionProperty { first_footer: Some((strv(rid), h)), first_footer_reference: Some(sp_FooterReference_new("first"@, rid)), title_pg: true, ..this } }
//@fn SectionProperty::first_footer r=out
//@| ensures out == sp_SectionProperty_first_footer(self, h, rid@),
//@end
pub open spec fn sp_Document_first_footer(this: Document, h: Footer, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_first_footer(this.section_property, h, rid), ..this } }
//@fn Document::first_footer r=out
//@| ensures out == sp_Document_first_footer(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_first_footer_without_title_pg(this: SectionProperty, h: Footer, rid: Seq<char>) -> SectionProperty { SectionProperty { first_footer: Some((strv(rid), h)), first_footer_reference: Some(sp_FooterReference_new("first"@, rid)), ..this } }
//@fn SectionProperty::first_footer_without_title_pg r=out
//@| ensures out == sp_SectionProperty_first_footer_without_title_pg(self, h, rid@),
//@end
pub open spec fn sp_Document_first_footer_without_title_pg(this: Document, h: Footer, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_first_footer_without_title_pg(this.section_property, h, rid), ..this } }
//@fn Document::first_footer_without_title_pg r=out
//@| ensures out == sp_Document_first_footer_without_title_pg(self, h, rid@),
//@end
pub open spec fn sp_SectionProperty_even_footer(this: SectionProperty, h: Footer, rid: Seq<char>) -> SectionProperty { SectionProperty { even_footer: Some((strv(rid), h)), even_footer_reference: Some(sp_FooterReference_new("even"@, rid)), ..this } }
//@fn SectionProperty::even_footer r=out
//@| ensures out == sp_SectionProperty_even_footer(self, h, rid@),
//@end
pub open spec fn sp_Document_even_footer(this: Document, h: Footer, rid: Seq<char>) -> Document { Document { section_property: sp_SectionProperty_even_footer(this.section_property, h, rid), ..this } }
//@fn Document::even_footer r=out
//@| ensures out == sp_Document_even_footer(self, h, rid@),
//@end
pub open spec fn sp_Document_add_structured_data_tag(this: Document, t: StructuredDataTag) -> Document { Document { children: vecv(this.children@.push(DocumentChild::StructuredDataTag(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Document::add_structured_data_tag r=out
//@| ensures out == sp_Document_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(DocumentChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_Document_add_table_of_contents(this: Document, t: TableOfContents) -> Document { Document { children: vecv(this.children@.push(DocumentChild::TableOfContents(Box::new(t)))), ..this } }
//@fn Document::add_table_of_contents r=out
//@| ensures out == sp_Document_add_table_of_contents(self, t),
//@|   out.children@ == self.children@.push(DocumentChild::TableOfContents(Box::new(t))),
//@end
pub open spec fn sp_Document_columns(this: Document, col: usize) -> Document { Document { section_property: SectionProperty { columns: col, ..this.section_property }, ..this } }
//@fn Document::columns r=out
//@| ensures out == sp_Document_columns(self, col),
//@end
pub open spec fn sp_Document_text_direction(this: Document, direction: String) -> Document { Document { section_property: SectionProperty { text_direction: direction, ..this.section_property }, ..this } }
//@fn Document::text_direction r=out
//@| ensures out == sp_Document_text_direction(self, direction),
//@end
pub open spec fn sp_SectionProperty_page_num_type(this: SectionProperty, h: PageNumType) -> SectionProperty { SectionProperty { page_num_type: Some(h), ..this } }
//@fn SectionProperty::page_num_type r=out
//@| ensures out == sp_SectionProperty_page_num_type(self, h),
//@end
pub open spec fn sp_Document_page_num_type(this: Document, p: PageNumType) -> Document { Document { section_property: sp_SectionProperty_page_num_type(this.section_property, p), ..this } }
//@fn Document::page_num_type r=out
//@| ensures out == sp_Document_page_num_type(self, p),
//@end
pub open spec fn sp_DocumentRels_add_image(this: DocumentRels, id: Seq<char>, path: Seq<char>) -> DocumentRels { DocumentRels { images: vecv(this.images@.push((strv(id), strv(path)))), ..this } }
//@fn DocumentRels::add_image r=out
//@| ensures out == sp_DocumentRels_add_image(self, id.chars(), path.chars()),
//@|   out.images@ == self.images@.push((strv(id.chars()), strv(path.chars()))),
//@end
pub open spec fn sp_DocumentRels_add_hyperlinks(this: DocumentRels, id: Seq<char>, path: Seq<char>, vx_type: Seq<char>) -> DocumentRels { DocumentRels { hyperlinks: vecv(this.hyperlinks@.push((strv(id), escaped(path), strv(vx_type)))), ..this } }
//@fn DocumentRels::add_hyperlinks r=out
//@| ensures out == sp_DocumentRels_add_hyperlinks(self, id.chars(), path.chars(), vx_type.chars()),
//@|   out.hyperlinks@ == self.hyperlinks@.push((strv(id.chars()), escaped(path.chars()), strv(vx_type.chars()))),
//@end
pub open spec fn sp_AGraphic_add_graphic_data(this: AGraphic, g: AGraphicData) -> AGraphic { AGraphic { children: vecv(this.children@.push(g)), ..this } }
//@fn AGraphic::add_graphic_data r=out
//@| ensures out == sp_AGraphic_add_graphic_data(self, g),
//@|   out.children@ == self.children@.push(g),
//@end
pub open spec fn sp_AGraphicData_add_shape(this: AGraphicData, shape: WpsShape) -> AGraphicData { AGraphicData { children: vecv(this.children@.push(GraphicDataChild::Shape(shape))), ..this } }
//@fn AGraphicData::add_shape r=out
//@| ensures out == sp_AGraphicData_add_shape(self, shape),
//@|   out.children@ == self.children@.push(GraphicDataChild::Shape(shape)),
//@end
pub open spec fn sp_AbstractNumbering_add_level(this: AbstractNumbering, level: Level) -> AbstractNumbering { AbstractNumbering { levels: vecv(this.levels@.push(level)), ..this } }
//@fn AbstractNumbering::add_level r=out
//@| ensures out == sp_AbstractNumbering_add_level(self, level),
//@|   out.levels@ == self.levels@.push(level),
//@end
pub open spec fn sp_AbstractNumbering_num_style_link(this: AbstractNumbering, link: Seq<char>) -> AbstractNumbering { AbstractNumbering { num_style_link: Some(strv(link)), ..this } }
//@fn AbstractNumbering::num_style_link r=out
//@| ensures out == sp_AbstractNumbering_num_style_link(self, link.chars()),
//@end
pub open spec fn sp_AbstractNumbering_style_link(this: AbstractNumbering, link: Seq<char>) -> AbstractNumbering { AbstractNumbering { style_link: Some(strv(link)), ..this } }
//@fn AbstractNumbering::style_link r=out
//@| ensures out == sp_AbstractNumbering_style_link(self, link.chars()),
//@end
pub open spec fn sp_Bold_disable(this: Bold) -> Bold { Bold { val: false, ..this } }
//@fn Bold::disable r=out
//@| ensures out == sp_Bold_disable(self),
//@end
pub open spec fn sp_BoldCs_disable(this: BoldCs) -> BoldCs { BoldCs { val: false, ..this } }
//@fn BoldCs::disable r=out
//@| ensures out == sp_BoldCs_disable(self),
//@end
pub open spec fn sp_Caps_disable(this: Caps) -> Caps { Caps { val: false, ..this } }
//@fn Caps::disable r=out
//@| ensures out == sp_Caps_disable(self),
//@end
pub open spec fn sp_CellMargin_new(val: usize, t: WidthType) -> CellMargin { CellMargin { val: val, width_type: t } }
//@fn CellMargin::new r=out
//@| ensures out == sp_CellMargin_new(val, t),
//@end
pub open spec fn sp_CellMargins_margin_top(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { top: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_top r=out
//@| ensures out == sp_CellMargins_margin_top(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_right(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { right: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_right r=out
//@| ensures out == sp_CellMargins_margin_right(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_left(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { left: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_left r=out
//@| ensures out == sp_CellMargins_margin_left(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_bottom(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { bottom: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_bottom r=out
//@| ensures out == sp_CellMargins_margin_bottom(self, v, t),
//@end
pub open spec fn sp_Color_theme_color(this: Color, theme_color: ThemeColor) -> Color { Color { theme_color: Some(shown(theme_color)), ..this } }
//@fn Color::theme_color r=out
//@| ensures out == sp_Color_theme_color(self, theme_color),
//@end
pub open spec fn sp_Color_theme_shade(this: Color, theme_shade: Seq<char>) -> Color { Color { theme_shade: Some(strv(theme_shade)), ..this } }
//@fn Color::theme_shade r=out
//@| ensures out == sp_Color_theme_shade(self, theme_shade.chars()),
//@end
pub open spec fn sp_Color_theme_tint(this: Color, theme_tint: Seq<char>) -> Color { Color { theme_tint: Some(strv(theme_tint)), ..this } }
//@fn Color::theme_tint r=out
//@| ensures out == sp_Color_theme_tint(self, theme_tint.chars()),
//@end
pub open spec fn sp_Comment_author(this: Comment, author: Seq<char>) -> Comment { Comment { author: escaped(author), ..this } }
//@fn Comment::author r=out
//@| ensures out == sp_Comment_author(self, author.chars()),
//@end
pub open spec fn sp_Comment_date(this: Comment, date: Seq<char>) -> Comment { Comment { date: strv(date), ..this } }
//@fn Comment::date r=out
//@| ensures out == sp_Comment_date(self, date.chars()),
//@end
pub open spec fn sp_Comment_add_paragraph(this: Comment, p: Paragraph) -> Comment { Comment { children: vecv(this.children@.push(CommentChild::Paragraph(Box::new(p)))), ..this } }
//@fn Comment::add_paragraph r=out
//@| ensures out == sp_Comment_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(CommentChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_Comment_add_table(this: Comment, t: Table) -> Comment { Comment { children: vecv(this.children@.push(CommentChild::Table(Box::new(t)))), ..this } }
//@fn Comment::add_table r=out
//@| ensures out == sp_Comment_add_table(self, t),
//@|   out.children@ == self.children@.push(CommentChild::Table(Box::new(t))),
//@end
pub open spec fn sp_Comment_parent_comment_id(this: Comment, parent_comment_id: usize) -> Comment { Comment { parent_comment_id: Some(parent_comment_id), ..this } }
//@fn Comment::parent_comment_id r=out
//@| ensures out == sp_Comment_parent_comment_id(self, parent_comment_id),
//@end
pub open spec fn sp_CommentExtended_done(this: CommentExtended) -> CommentExtended { CommentExtended { done: true, ..this } }
//@fn CommentExtended::done r=out
//@| ensures out == sp_CommentExtended_done(self),
//@end
pub open spec fn sp_CommentExtended_parent_paragraph_id(this: CommentExtended, id: Seq<char>) -> CommentExtended { CommentExtended { parent_paragraph_id: Some(strv(id)), ..this } }
//@fn CommentExtended::parent_paragraph_id r=out
//@| ensures out == sp_CommentExtended_parent_paragraph_id(self, id.chars()),
//@end
pub open spec fn sp_DataBinding_xpath(this: DataBinding, xpath: Seq<char>) -> DataBinding { DataBinding { xpath: Some(strv(xpath)), ..this } }
//@fn DataBinding::xpath r=out
//@| ensures out == sp_DataBinding_xpath(self, xpath.chars()),
//@end
pub open spec fn sp_DataBinding_prefix_mappings(this: DataBinding, m: Seq<char>) -> DataBinding { DataBinding { prefix_mappings: Some(strv(m)), ..this } }
//@fn DataBinding::prefix_mappings r=out
//@| ensures out == sp_DataBinding_prefix_mappings(self, m.chars()),
//@end
pub open spec fn sp_DataBinding_store_item_id(this: DataBinding, id: Seq<char>) -> DataBinding { DataBinding { store_item_id: Some(strv(id)), ..this } }
//@fn DataBinding::store_item_id r=out
//@| ensures out == sp_DataBinding_store_item_id(self, id.chars()),
//@end
pub open spec fn sp_Delete_add_run(this: Delete, run: Run) -> Delete { Delete { children: vecv(this.children@.push(DeleteChild::Run(Box::new(run)))), ..this } }
//@fn Delete::add_run r=out
//@| ensures out == sp_Delete_add_run(self, run),
//@|   out.children@ == self.children@.push(DeleteChild::Run(Box::new(run))),
//@end
pub open spec fn sp_Delete_add_comment_start(this: Delete, comment: Comment) -> Delete { Delete { children: vecv(this.children@.push(DeleteChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Delete::add_comment_start r=out
//@| ensures out == sp_Delete_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(DeleteChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_Delete_add_comment_end(this: Delete, id: usize) -> Delete { Delete { children: vecv(this.children@.push(DeleteChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Delete::add_comment_end r=out
//@| ensures out == sp_Delete_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(DeleteChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Delete_author(this: Delete, author: Seq<char>) -> Delete { Delete { author: escaped(author), ..this } }
//@fn Delete::author r=out
//@| ensures out == sp_Delete_author(self, author.chars()),
//@end
pub open spec fn sp_Delete_date(this: Delete, date: Seq<char>) -> Delete { Delete { date: strv(date), ..this } }
//@fn Delete::date r=out
//@| ensures out == sp_Delete_date(self, date.chars()),
//@end
pub open spec fn sp_Div_margin_left(this: Div, s: usize) -> Div { Div { margin_left: s, ..this } }
//@fn Div::margin_left r=out
//@| ensures out == sp_Div_margin_left(self, s),
//@end
pub open spec fn sp_Div_margin_right(this: Div, s: usize) -> Div { Div { margin_right: s, ..this } }
//@fn Div::margin_right r=out
//@| ensures out == sp_Div_margin_right(self, s),
//@end
pub open spec fn sp_Div_margin_top(this: Div, s: usize) -> Div { Div { margin_top: s, ..this } }
//@fn Div::margin_top r=out
//@| ensures out == sp_Div_margin_top(self, s),
//@end
pub open spec fn sp_Div_margin_bottom(this: Div, s: usize) -> Div { Div { margin_bottom: s, ..this } }
//@fn Div::margin_bottom r=out
//@| ensures out == sp_Div_margin_bottom(self, s),
//@end
pub open spec fn sp_Sz_new(val: usize) -> Sz { Sz { val: val } }
//@fn Sz::new r=out
//@| ensures out == sp_Sz_new(val),
//@end
pub open spec fn sp_SzCs_new(val: usize) -> SzCs { SzCs { val: val } }
//@fn SzCs::new r=out
//@| ensures out == sp_SzCs_new(val),
//@end
pub open spec fn sp_RunProperty_size(this: RunProperty, size: usize) -> RunProperty { RunProperty { sz: Some(sp_Sz_new(size)), sz_cs: Some(sp_SzCs_new(size)), ..this } }
//@fn RunProperty::size r=out
//@| ensures out == sp_RunProperty_size(self, size),
//@end
pub open spec fn sp_RunPropertyDefault_size(this: RunPropertyDefault, size: usize) -> RunPropertyDefault { RunPropertyDefault { run_property: sp_RunProperty_size(this.run_property, size), ..this } }
//@fn RunPropertyDefault::size r=out
//@| ensures out == sp_RunPropertyDefault_size(self, size),
//@end
pub open spec fn sp_DocDefaults_size(this: DocDefaults, size: usize) -> DocDefaults { DocDefaults { run_property_default: sp_RunPropertyDefault_size(this.run_property_default, size), ..this } }
//@fn DocDefaults::size r=out
//@| ensures out == sp_DocDefaults_size(self, size),
//@end
pub open spec fn sp_CharacterSpacing_new(s: i32) -> CharacterSpacing { CharacterSpacing { value: s } }
//@fn CharacterSpacing::new r=out
//@| ensures out == sp_CharacterSpacing_new(s),
//@end
pub open spec fn sp_RunProperty_spacing(this: RunProperty, spacing: i32) -> RunProperty { RunProperty { character_spacing: Some(sp_CharacterSpacing_new(spacing)), ..this } }
//@fn RunProperty::spacing r=out
//@| ensures out == sp_RunProperty_spacing(self, spacing),
//@end
pub open spec fn sp_RunPropertyDefault_spacing(this: RunPropertyDefault, spacing: i32) -> RunPropertyDefault { RunPropertyDefault { run_property: sp_RunProperty_spacing(this.run_property, spacing), ..this } }
//@fn RunPropertyDefault::spacing r=out
//@| ensures out == sp_RunPropertyDefault_spacing(self, spacing),
//@end
pub open spec fn sp_DocDefaults_spacing(this: DocDefaults, spacing: i32) -> DocDefaults { DocDefaults { run_property_default: sp_RunPropertyDefault_spacing(this.run_property_default, spacing), ..this } }
//@fn DocDefaults::spacing r=out
//@| ensures out == sp_DocDefaults_spacing(self, spacing),
//@end
pub open spec fn sp_RunProperty_fonts(this: RunProperty, font: RunFonts) -> RunProperty { RunProperty { fonts: Some(font), ..this } }
//@fn RunProperty::fonts r=out
//@| ensures out == sp_RunProperty_fonts(self, font),
//@end
pub open spec fn sp_RunPropertyDefault_fonts(this: RunPropertyDefault, font: RunFonts) -> RunPropertyDefault { RunPropertyDefault { run_property: sp_RunProperty_fonts(this.run_property, font), ..this } }
//@fn RunPropertyDefault::fonts r=out
//@| ensures out == sp_RunPropertyDefault_fonts(self, font),
//@end
pub open spec fn sp_DocDefaults_fonts(this: DocDefaults, font: RunFonts) -> DocDefaults { DocDefaults { run_property_default: sp_RunPropertyDefault_fonts(this.run_property_default, font), ..this } }
//@fn DocDefaults::fonts r=out
//@| ensures out == sp_DocDefaults_fonts(self, font),
//@end
pub open spec fn sp_ParagraphProperty_line_spacing(this: ParagraphProperty, spacing: LineSpacing) -> ParagraphProperty { ParagraphProperty { line_spacing: Some(spacing), ..this } }
//@fn ParagraphProperty::line_spacing r=out
//@| ensures out == sp_ParagraphProperty_line_spacing(self, spacing),
//@end
pub open spec fn sp_ParagraphPropertyDefault_line_spacing(this: ParagraphPropertyDefault, spacing: LineSpacing) -> ParagraphPropertyDefault { ParagraphPropertyDefault { paragraph_property: sp_ParagraphProperty_line_spacing(this.paragraph_property, spacing), ..this } }
//@fn ParagraphPropertyDefault::line_spacing r=out
//@| ensures out == sp_ParagraphPropertyDefault_line_spacing(self, spacing),
//@end
pub open spec fn sp_DocDefaults_line_spacing(this: DocDefaults, spacing: LineSpacing) -> DocDefaults { DocDefaults { paragraph_property_default: sp_ParagraphPropertyDefault_line_spacing(this.paragraph_property_default, spacing), ..this } }
//@fn DocDefaults::line_spacing r=out
//@| ensures out == sp_DocDefaults_line_spacing(self, spacing),
//@end
pub open spec fn sp_RunPropertyDefault_run_property(this: RunPropertyDefault, p: RunProperty) -> RunPropertyDefault { RunPropertyDefault { run_property: p, ..this } }
//@fn RunPropertyDefault::run_property r=out
//@| ensures out == sp_RunPropertyDefault_run_property(self, p),
//@end
pub open spec fn sp_DocDefaults_run_property(this: DocDefaults, p: RunProperty) -> DocDefaults { DocDefaults { run_property_default: sp_RunPropertyDefault_run_property(this.run_property_default, p), ..this } }
//@fn DocDefaults::run_property r=out
//@| ensures out == sp_DocDefaults_run_property(self, p),
//@end
pub open spec fn sp_ParagraphPropertyDefault_paragraph_property(this: ParagraphPropertyDefault, p: ParagraphProperty) -> ParagraphPropertyDefault { ParagraphPropertyDefault { paragraph_property: p, ..this } }
//@fn ParagraphPropertyDefault::paragraph_property r=out
//@| ensures out == sp_ParagraphPropertyDefault_paragraph_property(self, p),
//@end
pub open spec fn sp_DocDefaults_paragraph_property(this: DocDefaults, p: ParagraphProperty) -> DocDefaults { DocDefaults { paragraph_property_default: sp_ParagraphPropertyDefault_paragraph_property(this.paragraph_property_default, p), ..this } }
//@fn DocDefaults::paragraph_property r=out
//@| ensures out == sp_DocDefaults_paragraph_property(self, p),
//@end
pub open spec fn sp_DocGrid_grid_type(this: DocGrid, t: DocGridType) -> DocGrid { DocGrid { grid_type: t, ..this } }
//@fn DocGrid::grid_type r=out
//@| ensures out == sp_DocGrid_grid_type(self, t),
//@end
pub open spec fn sp_DocGrid_line_pitch(this: DocGrid, line_pitch: usize) -> DocGrid { DocGrid { line_pitch: Some(line_pitch), ..this } }
//@fn DocGrid::line_pitch r=out
//@| ensures out == sp_DocGrid_line_pitch(self, line_pitch),
//@end
pub open spec fn sp_DocGrid_char_space(this: DocGrid, char_space: isize) -> DocGrid { DocGrid { char_space: Some(char_space), ..this } }
//@fn DocGrid::char_space r=out
//@| ensures out == sp_DocGrid_char_space(self, char_space),
//@end
pub open spec fn sp_Drawing_pic(this: Drawing, pic: Pic) -> Drawing { Drawing { data: Some(DrawingData::Pic(pic)), ..this } }
//@fn Drawing::pic r=out
//@| ensures out == sp_Drawing_pic(self, pic),
//@end
pub open spec fn sp_Drawing_text_box(this: Drawing, t: TextBox) -> Drawing { Drawing { data: Some(DrawingData::TextBox(t)), ..this } }
//@fn Drawing::text_box r=out
//@| ensures out == sp_Drawing_text_box(self, t),
//@end
pub open spec fn sp_Dstrike_disable(this: Dstrike) -> Dstrike { Dstrike { val: false, ..this } }
//@fn Dstrike::disable r=out
//@| ensures out == sp_Dstrike_disable(self),
//@end
pub open spec fn sp_FitText_id(this: FitText, id: u32) -> FitText { FitText { id: Some(id), ..this } }
//@fn FitText::id r=out
//@| ensures out == sp_FitText_id(self, id),
//@end
pub open spec fn sp_FieldChar_dirty(this: FieldChar) -> FieldChar { FieldChar { dirty: true, ..this } }
//@fn FieldChar::dirty r=out
//@| ensures out == sp_FieldChar_dirty(self),
//@end
pub open spec fn sp_FrameProperty_wrap(this: FrameProperty, wrap: Seq<char>) -> FrameProperty { FrameProperty { wrap: Some(strv(wrap)), ..this } }
//@fn FrameProperty::wrap r=out
//@| ensures out == sp_FrameProperty_wrap(self, wrap.chars()),
//@end
pub open spec fn sp_FrameProperty_v_anchor(this: FrameProperty, anchor: Seq<char>) -> FrameProperty { FrameProperty { v_anchor: Some(strv(anchor)), ..this } }
//@fn FrameProperty::v_anchor r=out
//@| ensures out == sp_FrameProperty_v_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_FrameProperty_h_anchor(this: FrameProperty, anchor: Seq<char>) -> FrameProperty { FrameProperty { h_anchor: Some(strv(anchor)), ..this } }
//@fn FrameProperty::h_anchor r=out
//@| ensures out == sp_FrameProperty_h_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_FrameProperty_h_rule(this: FrameProperty, r: Seq<char>) -> FrameProperty { FrameProperty { h_rule: Some(strv(r)), ..this } }
//@fn FrameProperty::h_rule r=out
//@| ensures out == sp_FrameProperty_h_rule(self, r.chars()),
//@end
pub open spec fn sp_FrameProperty_x_align(this: FrameProperty, align: Seq<char>) -> FrameProperty { FrameProperty { x_align: Some(strv(align)), ..this } }
//@fn FrameProperty::x_align r=out
//@| ensures out == sp_FrameProperty_x_align(self, align.chars()),
//@end
pub open spec fn sp_FrameProperty_y_align(this: FrameProperty, align: Seq<char>) -> FrameProperty { FrameProperty { y_align: Some(strv(align)), ..this } }
//@fn FrameProperty::y_align r=out
//@| ensures out == sp_FrameProperty_y_align(self, align.chars()),
//@end
pub open spec fn sp_FrameProperty_h_space(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { h_space: Some(x), ..this } }
//@fn FrameProperty::h_space r=out
//@| ensures out == sp_FrameProperty_h_space(self, x),
//@end
pub open spec fn sp_FrameProperty_v_space(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { v_space: Some(x), ..this } }
//@fn FrameProperty::v_space r=out
//@| ensures out == sp_FrameProperty_v_space(self, x),
//@end
pub open spec fn sp_FrameProperty_x(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { x: Some(x), ..this } }
//@fn FrameProperty::x r=out
//@| ensures out == sp_FrameProperty_x(self, x),
//@end
pub open spec fn sp_FrameProperty_y(this: FrameProperty, y: i32) -> FrameProperty { FrameProperty { y: Some(y), ..this } }
//@fn FrameProperty::y r=out
//@| ensures out == sp_FrameProperty_y(self, y),
//@end
pub open spec fn sp_FrameProperty_width(this: FrameProperty, n: u32) -> FrameProperty { FrameProperty { w: Some(n), ..this } }
//@fn FrameProperty::width r=out
//@| ensures out == sp_FrameProperty_width(self, n),
//@end
pub open spec fn sp_FrameProperty_height(this: FrameProperty, n: u32) -> FrameProperty { FrameProperty { h: Some(n), ..this } }
//@fn FrameProperty::height r=out
//@| ensures out == sp_FrameProperty_height(self, n),
//@end
pub open spec fn sp_Hyperlink_add_run(this: Hyperlink, run: Run) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::Run(Box::new(run)))), ..this } }
//@fn Hyperlink::add_run r=out
//@| ensures out == sp_Hyperlink_add_run(self, run),
//@|   out.children@ == self.children@.push(ParagraphChild::Run(Box::new(run))),
//@end
pub open spec fn sp_Hyperlink_add_structured_data_tag(this: Hyperlink, t: StructuredDataTag) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::StructuredDataTag(Box::new(t)))), ..this } }
//@fn Hyperlink::add_structured_data_tag r=out
//@| ensures out == sp_Hyperlink_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(ParagraphChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_Hyperlink_add_insert(this: Hyperlink, insert: Insert) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::Insert(insert))), ..this } }
//@fn Hyperlink::add_insert r=out
//@| ensures out == sp_Hyperlink_add_insert(self, insert),
//@|   out.children@ == self.children@.push(ParagraphChild::Insert(insert)),
//@end
pub open spec fn sp_Hyperlink_add_delete(this: Hyperlink, delete: Delete) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::Delete(delete))), ..this } }
//@fn Hyperlink::add_delete r=out
//@| ensures out == sp_Hyperlink_add_delete(self, delete),
//@|   out.children@ == self.children@.push(ParagraphChild::Delete(delete)),
//@end
pub open spec fn sp_Hyperlink_add_bookmark_start(this: Hyperlink, id: usize, name: Seq<char>) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::BookmarkStart(sp_BookmarkStart_new(id, name)))), ..this } }
//@fn Hyperlink::add_bookmark_start r=out
//@| ensures out == sp_Hyperlink_add_bookmark_start(self, id, name.chars()),
//@|   out.children@ == self.children@.push(ParagraphChild::BookmarkStart(sp_BookmarkStart_new(id, name.chars()))),
//@end
pub open spec fn sp_Hyperlink_add_bookmark_end(this: Hyperlink, id: usize) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::BookmarkEnd(sp_BookmarkEnd_new(id)))), ..this } }
//@fn Hyperlink::add_bookmark_end r=out
//@| ensures out == sp_Hyperlink_add_bookmark_end(self, id),
//@|   out.children@ == self.children@.push(ParagraphChild::BookmarkEnd(sp_BookmarkEnd_new(id))),
//@end
pub open spec fn sp_Hyperlink_add_comment_start(this: Hyperlink, comment: Comment) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Hyperlink::add_comment_start r=out
//@| ensures out == sp_Hyperlink_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(ParagraphChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_Hyperlink_add_comment_end(this: Hyperlink, id: usize) -> Hyperlink { Hyperlink { children: vecv(this.children@.push(ParagraphChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Hyperlink::add_comment_end r=out
//@| ensures out == sp_Hyperlink_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(ParagraphChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Indent_end(this: Indent, end: i32) -> Indent { Indent { end: Some(end), ..this } }
//@fn Indent::end r=out
//@| ensures out == sp_Indent_end(self, end),
//@end
pub open spec fn sp_Indent_hanging_chars(this: Indent, chars: i32) -> Indent { Indent { hanging_chars: Some(chars), ..this } }
//@fn Indent::hanging_chars r=out
//@| ensures out == sp_Indent_hanging_chars(self, chars),
//@end
pub open spec fn sp_Indent_first_line_chars(this: Indent, chars: i32) -> Indent { Indent { first_line_chars: Some(chars), ..this } }
//@fn Indent::first_line_chars r=out
//@| ensures out == sp_Indent_first_line_chars(self, chars),
//@end
pub open spec fn sp_Insert_add_run(this: Insert, run: Run) -> Insert { Insert { children: vecv(this.children@.push(InsertChild::Run(Box::new(run)))), ..this } }
//@fn Insert::add_run r=out
//@| ensures out == sp_Insert_add_run(self, run),
//@|   out.children@ == self.children@.push(InsertChild::Run(Box::new(run))),
//@end
pub open spec fn sp_Insert_add_delete(this: Insert, del: Delete) -> Insert { Insert { children: vecv(this.children@.push(InsertChild::Delete(del))), ..this } }
//@fn Insert::add_delete r=out
//@| ensures out == sp_Insert_add_delete(self, del),
//@|   out.children@ == self.children@.push(InsertChild::Delete(del)),
//@end
pub open spec fn sp_Insert_add_child(this: Insert, c: InsertChild) -> Insert { Insert { children: vecv(this.children@.push(c)), ..this } }
//@fn Insert::add_child r=out
//@| ensures out == sp_Insert_add_child(self, c),
//@|   out.children@ == self.children@.push(c),
//@end
pub open spec fn sp_Insert_add_comment_start(this: Insert, comment: Comment) -> Insert { Insert { children: vecv(this.children@.push(InsertChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Insert::add_comment_start r=out
//@| ensures out == sp_Insert_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(InsertChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_Insert_add_comment_end(this: Insert, id: usize) -> Insert { Insert { children: vecv(this.children@.push(InsertChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Insert::add_comment_end r=out
//@| ensures out == sp_Insert_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(InsertChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Insert_author(this: Insert, author: Seq<char>) -> Insert { Insert { author: escaped(author), ..this } }
//@fn Insert::author r=out
//@| ensures out == sp_Insert_author(self, author.chars()),
//@end
pub open spec fn sp_Insert_date(this: Insert, date: Seq<char>) -> Insert { Insert { date: strv(date), ..this } }
//@fn Insert::date r=out
//@| ensures out == sp_Insert_date(self, date.chars()),
//@end
pub open spec fn sp_InstrPAGEREF_hyperlink(this: InstrPAGEREF) -> InstrPAGEREF { InstrPAGEREF { hyperlink: true, ..this } }
//@fn InstrPAGEREF::hyperlink r=out
//@| ensures out == sp_InstrPAGEREF_hyperlink(self),
//@end
pub open spec fn sp_InstrPAGEREF_relative_position(this: InstrPAGEREF) -> InstrPAGEREF { InstrPAGEREF { relative_position: true, ..this } }
//@fn InstrPAGEREF::relative_position r=out
//@| ensures out == sp_InstrPAGEREF_relative_position(self),
//@end
pub open spec fn sp_InstrTC_omits_page_number(this: InstrTC) -> InstrTC { InstrTC { omits_page_number: true, ..this } }
//@fn InstrTC::omits_page_number r=out
//@| ensures out == sp_InstrTC_omits_page_number(self),
//@end
pub open spec fn sp_InstrTC_level(this: InstrTC, level: usize) -> InstrTC { InstrTC { level: Some(level), ..this } }
//@fn InstrTC::level r=out
//@| ensures out == sp_InstrTC_level(self, level),
//@end
pub open spec fn sp_InstrTC_item_type_identifier(this: InstrTC, t: Seq<char>) -> InstrTC { InstrTC { item_type_identifier: Some(strv(t)), ..this } }
//@fn InstrTC::item_type_identifier r=out
//@| ensures out == sp_InstrTC_item_type_identifier(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_heading_styles_range(this: InstrToC, start: usize, end: usize) -> InstrToC { InstrToC { heading_styles_range: Some((start, end)), ..this } }
//@fn InstrToC::heading_styles_range r=out
//@| ensures out == sp_InstrToC_heading_styles_range(self, start, end),
//@end
pub open spec fn sp_InstrToC_tc_field_level_range(this: InstrToC, start: usize, end: usize) -> InstrToC { InstrToC { tc_field_level_range: Some((start, end)), ..this } }
//@fn InstrToC::tc_field_level_range r=out
//@| ensures out == sp_InstrToC_tc_field_level_range(self, start, end),
//@end
pub open spec fn sp_InstrToC_tc_field_identifier(this: InstrToC, t: Option<String>) -> InstrToC { InstrToC { tc_field_identifier: Some(t), ..this } }
//@fn InstrToC::tc_field_identifier r=out
//@| ensures out == sp_InstrToC_tc_field_identifier(self, t),
//@end
pub open spec fn sp_InstrToC_omit_page_numbers_level_range(this: InstrToC, start: usize, end: usize) -> InstrToC { InstrToC { omit_page_numbers_level_range: Some((start, end)), ..this } }
//@fn InstrToC::omit_page_numbers_level_range r=out
//@| ensures out == sp_InstrToC_omit_page_numbers_level_range(self, start, end),
//@end
pub open spec fn sp_InstrToC_entry_and_page_number_separator(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { entry_and_page_number_separator: Some(strv(t)), ..this } }
//@fn InstrToC::entry_and_page_number_separator r=out
//@| ensures out == sp_InstrToC_entry_and_page_number_separator(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_entry_bookmark_name(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { entry_bookmark_name: Some(strv(t)), ..this } }
//@fn InstrToC::entry_bookmark_name r=out
//@| ensures out == sp_InstrToC_entry_bookmark_name(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_caption_label(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { caption_label: Some(strv(t)), ..this } }
//@fn InstrToC::caption_label r=out
//@| ensures out == sp_InstrToC_caption_label(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_caption_label_including_numbers(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { caption_label_including_numbers: Some(strv(t)), ..this } }
//@fn InstrToC::caption_label_including_numbers r=out
//@| ensures out == sp_InstrToC_caption_label_including_numbers(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_sequence_and_page_numbers_separator(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { sequence_and_page_numbers_separator: Some(strv(t)), ..this } }
//@fn InstrToC::sequence_and_page_numbers_separator r=out
//@| ensures out == sp_InstrToC_sequence_and_page_numbers_separator(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_seq_field_identifier_for_prefix(this: InstrToC, t: Seq<char>) -> InstrToC { InstrToC { seq_field_identifier_for_prefix: Some(strv(t)), ..this } }
//@fn InstrToC::seq_field_identifier_for_prefix r=out
//@| ensures out == sp_InstrToC_seq_field_identifier_for_prefix(self, t.chars()),
//@end
pub open spec fn sp_InstrToC_hyperlink(this: InstrToC) -> InstrToC { InstrToC { hyperlink: true, ..this } }
//@fn InstrToC::hyperlink r=out
//@| ensures out == sp_InstrToC_hyperlink(self),
//@end
pub open spec fn sp_InstrToC_preserve_tab(this: InstrToC) -> InstrToC { InstrToC { preserve_tab: true, ..this } }
//@fn InstrToC::preserve_tab r=out
//@| ensures out == sp_InstrToC_preserve_tab(self),
//@end
pub open spec fn sp_InstrToC_preserve_new_line(this: InstrToC) -> InstrToC { InstrToC { preserve_new_line: true, ..this } }
//@fn InstrToC::preserve_new_line r=out
//@| ensures out == sp_InstrToC_preserve_new_line(self),
//@end
pub open spec fn sp_InstrToC_use_applied_paragraph_line_level(this: InstrToC) -> InstrToC { InstrToC { use_applied_paragraph_line_level: true, ..this } }
//@fn InstrToC::use_applied_paragraph_line_level r=out
//@| ensures out == sp_InstrToC_use_applied_paragraph_line_level(self),
//@end
pub open spec fn sp_InstrToC_hide_tab_and_page_numbers_in_webview(this: InstrToC) -> InstrToC { InstrToC { hide_tab_and_page_numbers_in_webview: true, ..this } }
//@fn InstrToC::hide_tab_and_page_numbers_in_webview r=out
//@| ensures out == sp_InstrToC_hide_tab_and_page_numbers_in_webview(self),
//@end
pub open spec fn sp_InstrToC_add_style_with_level(this: InstrToC, s: StyleWithLevel) -> InstrToC { InstrToC { styles_with_levels: vecv(this.styles_with_levels@.push(s)), ..this } }
//@fn InstrToC::add_style_with_level r=out
//@| ensures out == sp_InstrToC_add_style_with_level(self, s),
//@|   out.styles_with_levels@ == self.styles_with_levels@.push(s),
//@end
pub open spec fn sp_Italic_disable(this: Italic) -> Italic { Italic { val: false, ..this } }
//@fn Italic::disable r=out
//@| ensures out == sp_Italic_disable(self),
//@end
pub open spec fn sp_ItalicCs_disable(this: ItalicCs) -> ItalicCs { ItalicCs { val: false, ..this } }
//@fn ItalicCs::disable r=out
//@| ensures out == sp_ItalicCs_disable(self),
//@end
pub open spec fn sp_Indent_new(start: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> Indent { Indent { start: start, start_chars: start_chars, end: end, special_indent: special_indent, hanging_chars: None, first_line_chars: None } }
//@fn Indent::new r=out
//@| ensures out == sp_Indent_new(start, special_indent, end, start_chars),
//@end
pub open spec fn sp_ParagraphProperty_indent(this: ParagraphProperty, left: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_new(left, special_indent, end, start_chars)), ..this } }
//@fn ParagraphProperty::indent r=out
//@| ensures out == sp_ParagraphProperty_indent(self, left, special_indent, end, start_chars),
//@end
pub open spec fn sp_Level_indent(this: Level, left: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> Level { Level { paragraph_property: sp_ParagraphProperty_indent(this.paragraph_property, left, special_indent, end, start_chars), ..this } }
//@fn Level::indent r=out
//@| ensures out == sp_Level_indent(self, left, special_indent, end, start_chars),
//@end
pub open spec fn sp_Level_suffix(this: Level, s: LevelSuffixType) -> Level { Level { suffix: s, ..this } }
//@fn Level::suffix r=out
//@| ensures out == sp_Level_suffix(self, s),
//@end
pub open spec fn sp_Level_size(this: Level, size: usize) -> Level { Level { run_property: sp_RunProperty_size(this.run_property, size), ..this } }
//@fn Level::size r=out
//@| ensures out == sp_Level_size(self, size),
//@end
pub open spec fn sp_Level_spacing(this: Level, v: i32) -> Level { Level { run_property: sp_RunProperty_spacing(this.run_property, v), ..this } }
//@fn Level::spacing r=out
//@| ensures out == sp_Level_spacing(self, v),
//@end
pub open spec fn sp_Color_new(val: Seq<char>) -> Color { Color { val: strv(val), theme_color: None, theme_shade: None, theme_tint: None } }
//@fn Color::new r=out
//@| ensures out == sp_Color_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_color(this: RunProperty, color: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_new(color)), ..this } }
//@fn RunProperty::color r=out
//@| ensures out == sp_RunProperty_color(self, color.chars()),
//@end
pub open spec fn sp_Level_color(this: Level, color: Seq<char>) -> Level { Level { run_property: sp_RunProperty_color(this.run_property, color), ..this } }
//@fn Level::color r=out
//@| ensures out == sp_Level_color(self, color.chars()),
//@end
pub open spec fn sp_Highlight_new(val: Seq<char>) -> Highlight { Highlight { val: strv(val) } }
//@fn Highlight::new r=out
//@| ensures out == sp_Highlight_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_highlight(this: RunProperty, color: Seq<char>) -> RunProperty { RunProperty { highlight: Some(sp_Highlight_new(color)), ..this } }
//@fn RunProperty::highlight r=out
//@| ensures out == sp_RunProperty_highlight(self, color.chars()),
//@end
pub open spec fn sp_Level_highlight(this: Level, color: Seq<char>) -> Level { Level { run_property: sp_RunProperty_highlight(this.run_property, color), ..this } }
//@fn Level::highlight r=out
//@| ensures out == sp_Level_highlight(self, color.chars()),
//@end
pub open spec fn sp_Bold_new() -> Bold { dflt::<Bold>() }
//@fn Bold::new r=out
//@| ensures out == sp_Bold_new(),
//@end
pub open spec fn sp_BoldCs_new() -> BoldCs { dflt::<BoldCs>() }
//@fn BoldCs::new r=out
//@| ensures out == sp_BoldCs_new(),
//@end
pub open spec fn sp_RunProperty_bold(this: RunProperty) -> RunProperty { RunProperty { bold: Some(sp_Bold_new()), bold_cs: Some(sp_BoldCs_new()), ..this } }
//@fn RunProperty::bold r=out
//@| ensures out == sp_RunProperty_bold(self),
//@end
pub open spec fn sp_Level_bold(this: Level) -> Level { Level { run_property: sp_RunProperty_bold(this.run_property), ..this } }
//@fn Level::bold r=out
//@| ensures out == sp_Level_bold(self),
//@end
pub open spec fn sp_RunProperty_disable_bold(this: RunProperty) -> RunProperty { RunProperty { bold: Some(sp_Bold_disable(sp_Bold_new())), bold_cs: Some(sp_BoldCs_disable(sp_BoldCs_new())), ..this } }
//@fn RunProperty::disable_bold r=out
//@| ensures out == sp_RunProperty_disable_bold(self),
//@end
pub open spec fn sp_Level_disable_bold(this: Level) -> Level { Level { run_property: sp_RunProperty_disable_bold(this.run_property), ..this } }
//@fn Level::disable_bold r=out
//@| ensures out == sp_Level_disable_bold(self),
//@end
pub open spec fn sp_Italic_new() -> Italic { dflt::<Italic>() }
//@fn Italic::new r=out
//@| ensures out == sp_Italic_new(),
//@end
pub open spec fn sp_ItalicCs_new() -> ItalicCs { dflt::<ItalicCs>() }
//@fn ItalicCs::new r=out
//@| ensures out == sp_ItalicCs_new(),
//@end
pub open spec fn sp_RunProperty_italic(this: RunProperty) -> RunProperty { RunProperty { italic: Some(sp_Italic_new()), italic_cs: Some(sp_ItalicCs_new()), ..this } }
//@fn RunProperty::italic r=out
//@| ensures out == sp_RunProperty_italic(self),
//@end
pub open spec fn sp_Level_italic(this: Level) -> Level { Level { run_property: sp_RunProperty_italic(this.run_property), ..this } }
//@fn Level::italic r=out
//@| ensures out == sp_Level_italic(self),
//@end
pub open spec fn sp_RunProperty_disable_italic(this: RunProperty) -> RunProperty { RunProperty { italic: Some(sp_Italic_disable(sp_Italic_new())), italic_cs: Some(sp_ItalicCs_disable(sp_ItalicCs_new())), ..this } }
//@fn RunProperty::disable_italic r=out
//@| ensures out == sp_RunProperty_disable_italic(self),
//@end
pub open spec fn sp_Level_disable_italic(this: Level) -> Level { Level { run_property: sp_RunProperty_disable_italic(this.run_property), ..this } }
//@fn Level::disable_italic r=out
//@| ensures out == sp_Level_disable_italic(self),
//@end
pub open spec fn sp_Strike_new() -> Strike { dflt::<Strike>() }
//@fn Strike::new r=out
//@| ensures out == sp_Strike_new(),
//@end
pub open spec fn sp_RunProperty_strike(this: RunProperty) -> RunProperty { RunProperty { dstrike: None, strike: Some(sp_Strike_new()), ..this } }
//@fn RunProperty::strike r=out
//@| ensures out == sp_RunProperty_strike(self),
//@end
pub open spec fn sp_Level_strike(this: Level) -> Level { Level { run_property: sp_RunProperty_strike(this.run_property), ..this } }
//@fn Level::strike r=out
//@| ensures out == sp_Level_strike(self),
//@end
pub open spec fn sp_Strike_disable(this: Strike) -> Strike { Strike { val: false, ..this } }
//@fn Strike::disable r=out
//@| ensures out == sp_Strike_disable(self),
//@end
pub open spec fn sp_RunProperty_disable_strike(this: RunProperty) -> RunProperty { RunProperty { strike: Some(sp_Strike_disable(sp_Strike_new())), ..this } }
//@fn RunProperty::disable_strike r=out
//@| ensures out == sp_RunProperty_disable_strike(self),
//@end
pub open spec fn sp_Level_disable_strike(this: Level) -> Level { Level { run_property: sp_RunProperty_disable_strike(this.run_property), ..this } }
//@fn Level::disable_strike r=out
//@| ensures out == sp_Level_disable_strike(self),
//@end
pub open spec fn sp_Dstrike_new() -> Dstrike { dflt::<Dstrike>() }
//@fn Dstrike::new r=out
//@| ensures out == sp_Dstrike_new(),
//@end
pub open spec fn sp_RunProperty_dstrike(this: RunProperty) -> RunProperty { RunProperty { dstrike: Some(sp_Dstrike_new()), strike: None, ..this } }
//@fn RunProperty::dstrike r=out
//@| ensures out == sp_RunProperty_dstrike(self),
//@end
pub open spec fn sp_Level_dstrike(this: Level) -> Level { Level { run_property: sp_RunProperty_dstrike(this.run_property), ..this } }
//@fn Level::dstrike r=out
//@| ensures out == sp_Level_dstrike(self),
//@end
pub open spec fn sp_RunProperty_disable_dstrike(this: RunProperty) -> RunProperty { RunProperty { dstrike: Some(sp_Dstrike_disable(sp_Dstrike_new())), ..this } }
//@fn RunProperty::disable_dstrike r=out
//@| ensures out == sp_RunProperty_disable_dstrike(self),
//@end
pub open spec fn sp_Level_disable_dstrike(this: Level) -> Level { Level { run_property: sp_RunProperty_disable_dstrike(this.run_property), ..this } }
//@fn Level::disable_dstrike r=out
//@| ensures out == sp_Level_disable_dstrike(self),
//@end
pub open spec fn sp_Underline_new(val: Seq<char>) -> Underline { Underline { val: strv(val) } }
//@fn Underline::new r=out
//@| ensures out == sp_Underline_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_underline(this: RunProperty, line_type: Seq<char>) -> RunProperty { RunProperty { underline: Some(sp_Underline_new(line_type)), ..this } }
//@fn RunProperty::underline r=out
//@| ensures out == sp_RunProperty_underline(self, line_type.chars()),
//@end
pub open spec fn sp_Level_underline(this: Level, line_type: Seq<char>) -> Level { Level { run_property: sp_RunProperty_underline(this.run_property, line_type), ..this } }
//@fn Level::underline r=out
//@| ensures out == sp_Level_underline(self, line_type.chars()),
//@end
pub open spec fn sp_Vanish_new() -> Vanish { Vanish {  } }
//@fn Vanish::new r=out
//@| ensures out == sp_Vanish_new(),
//@end
pub open spec fn sp_RunProperty_vanish(this: RunProperty) -> RunProperty { RunProperty { vanish: Some(sp_Vanish_new()), ..this } }
//@fn RunProperty::vanish r=out
//@| ensures out == sp_RunProperty_vanish(self),
//@end
pub open spec fn sp_Level_vanish(this: Level) -> Level { Level { run_property: sp_RunProperty_vanish(this.run_property), ..this } }
//@fn Level::vanish r=out
//@| ensures out == sp_Level_vanish(self),
//@end
pub open spec fn sp_Level_fonts(this: Level, f: RunFonts) -> Level { Level { run_property: sp_RunProperty_fonts(this.run_property, f), ..this } }
//@fn Level::fonts r=out
//@| ensures out == sp_Level_fonts(self, f),
//@end
pub open spec fn sp_LevelRestart_new(val: u32) -> LevelRestart { LevelRestart { val: val } }
//@fn LevelRestart::new r=out
//@| ensures out == sp_LevelRestart_new(val.num()),
//@end
pub open spec fn sp_Level_level_restart(this: Level, v: u32) -> Level { Level { level_restart: Some(sp_LevelRestart_new(v)), ..this } }
//@fn Level::level_restart r=out
//@| ensures out == sp_Level_level_restart(self, v),
//@end
pub open spec fn sp_IsLgl_new() -> IsLgl { IsLgl {  } }
//@fn IsLgl::new r=out
//@| ensures out == sp_IsLgl_new(),
//@end
pub open spec fn sp_Level_is_lgl(this: Level) -> Level { Level { is_lgl: Some(sp_IsLgl_new()), ..this } }
//@fn Level::is_lgl r=out
//@| ensures out == sp_Level_is_lgl(self),
//@end
pub open spec fn sp_LevelOverride_start(this: LevelOverride, start: usize) -> LevelOverride { LevelOverride { override_start: Some(start), ..this } }
//@fn LevelOverride::start r=out
//@| ensures out == sp_LevelOverride_start(self, start),
//@end
pub open spec fn sp_LevelOverride_level(this: LevelOverride, override_level: Level) -> LevelOverride { LevelOverride { override_level: Some(override_level), ..this } }
//@fn LevelOverride::level r=out
//@| ensures out == sp_LevelOverride_level(self, override_level),
//@end
pub open spec fn sp_LineSpacing_line_rule(this: LineSpacing, t: LineSpacingType) -> LineSpacing { LineSpacing { line_rule: Some(t), ..this } }
//@fn LineSpacing::line_rule r=out
//@| ensures out == sp_LineSpacing_line_rule(self, t),
//@end
pub open spec fn sp_LineSpacing_before(this: LineSpacing, before: u32) -> LineSpacing { LineSpacing { before: Some(before), ..this } }
//@fn LineSpacing::before r=out
//@| ensures out == sp_LineSpacing_before(self, before),
//@end
pub open spec fn sp_LineSpacing_after(this: LineSpacing, after: u32) -> LineSpacing { LineSpacing { after: Some(after), ..this } }
//@fn LineSpacing::after r=out
//@| ensures out == sp_LineSpacing_after(self, after),
//@end
pub open spec fn sp_LineSpacing_before_lines(this: LineSpacing, before: u32) -> LineSpacing { LineSpacing { before_lines: Some(before), ..this } }
//@fn LineSpacing::before_lines r=out
//@| ensures out == sp_LineSpacing_before_lines(self, before),
//@end
pub open spec fn sp_LineSpacing_after_lines(this: LineSpacing, after: u32) -> LineSpacing { LineSpacing { after_lines: Some(after), ..this } }
//@fn LineSpacing::after_lines r=out
//@| ensures out == sp_LineSpacing_after_lines(self, after),
//@end
pub open spec fn sp_LineSpacing_line(this: LineSpacing, line: i32) -> LineSpacing { LineSpacing { line: Some(line), ..this } }
//@fn LineSpacing::line r=out
//@| ensures out == sp_LineSpacing_line(self, line),
//@end
pub open spec fn sp_MoveFrom_add_run(this: MoveFrom, run: Run) -> MoveFrom { MoveFrom { children: vecv(this.children@.push(MoveFromChild::Run(Box::new(run)))), ..this } }
//@fn MoveFrom::add_run r=out
//@| ensures out == sp_MoveFrom_add_run(self, run),
//@|   out.children@ == self.children@.push(MoveFromChild::Run(Box::new(run))),
//@end
pub open spec fn sp_MoveFrom_add_comment_start(this: MoveFrom, comment: Comment) -> MoveFrom { MoveFrom { children: vecv(this.children@.push(MoveFromChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn MoveFrom::add_comment_start r=out
//@| ensures out == sp_MoveFrom_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(MoveFromChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_MoveFrom_add_comment_end(this: MoveFrom, id: usize) -> MoveFrom { MoveFrom { children: vecv(this.children@.push(MoveFromChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn MoveFrom::add_comment_end r=out
//@| ensures out == sp_MoveFrom_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(MoveFromChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_MoveFrom_author(this: MoveFrom, author: Seq<char>) -> MoveFrom { MoveFrom { author: escaped(author), ..this } }
//@fn MoveFrom::author r=out
//@| ensures out == sp_MoveFrom_author(self, author.chars()),
//@end
pub open spec fn sp_MoveFrom_date(this: MoveFrom, date: Seq<char>) -> MoveFrom { MoveFrom { date: strv(date), ..this } }
//@fn MoveFrom::date r=out
//@| ensures out == sp_MoveFrom_date(self, date.chars()),
//@end
pub open spec fn sp_MoveTo_add_run(this: MoveTo, run: Run) -> MoveTo { MoveTo { children: vecv(this.children@.push(MoveToChild::Run(Box::new(run)))), ..this } }
//@fn MoveTo::add_run r=out
//@| ensures out == sp_MoveTo_add_run(self, run),
//@|   out.children@ == self.children@.push(MoveToChild::Run(Box::new(run))),
//@end
pub open spec fn sp_MoveTo_add_delete(this: MoveTo, del: Delete) -> MoveTo { MoveTo { children: vecv(this.children@.push(MoveToChild::Delete(del))), ..this } }
//@fn MoveTo::add_delete r=out
//@| ensures out == sp_MoveTo_add_delete(self, del),
//@|   out.children@ == self.children@.push(MoveToChild::Delete(del)),
//@end
pub open spec fn sp_MoveTo_add_child(this: MoveTo, c: MoveToChild) -> MoveTo { MoveTo { children: vecv(this.children@.push(c)), ..this } }
//@fn MoveTo::add_child r=out
//@| ensures out == sp_MoveTo_add_child(self, c),
//@|   out.children@ == self.children@.push(c),
//@end
pub open spec fn sp_MoveTo_add_comment_start(this: MoveTo, comment: Comment) -> MoveTo { MoveTo { children: vecv(this.children@.push(MoveToChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn MoveTo::add_comment_start r=out
//@| ensures out == sp_MoveTo_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(MoveToChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_MoveTo_add_comment_end(this: MoveTo, id: usize) -> MoveTo { MoveTo { children: vecv(this.children@.push(MoveToChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn MoveTo::add_comment_end r=out
//@| ensures out == sp_MoveTo_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(MoveToChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_MoveTo_author(this: MoveTo, author: Seq<char>) -> MoveTo { MoveTo { author: escaped(author), ..this } }
//@fn MoveTo::author r=out
//@| ensures out == sp_MoveTo_author(self, author.chars()),
//@end
pub open spec fn sp_MoveTo_date(this: MoveTo, date: Seq<char>) -> MoveTo { MoveTo { date: strv(date), ..this } }
//@fn MoveTo::date r=out
//@| ensures out == sp_MoveTo_date(self, date.chars()),
//@end
pub open spec fn sp_Numbering_overrides(this: Numbering, overrides: Vec<LevelOverride>) -> Numbering { Numbering { level_overrides: overrides, ..this } }
//@fn Numbering::overrides r=out
//@| ensures out == sp_Numbering_overrides(self, overrides),
//@end
pub open spec fn sp_Numbering_add_override(this: Numbering, o: LevelOverride) -> Numbering { Numbering { level_overrides: vecv(this.level_overrides@.push(o)), ..this } }
//@fn Numbering::add_override r=out
//@| ensures out == sp_Numbering_add_override(self, o),
//@|   out.level_overrides@ == self.level_overrides@.push(o),
//@end
pub open spec fn sp_NumberingProperty_id(this: NumberingProperty, id: NumberingId) -> NumberingProperty { NumberingProperty { id: Some(id), ..this } }
//@fn NumberingProperty::id r=out
//@| ensures out == sp_NumberingProperty_id(self, id),
//@end
pub open spec fn sp_NumberingProperty_level(this: NumberingProperty, level: IndentLevel) -> NumberingProperty { NumberingProperty { level: Some(level), ..this } }
//@fn NumberingProperty::level r=out
//@| ensures out == sp_NumberingProperty_level(self, level),
//@end
pub open spec fn sp_NumberingProperty_add_num(this: NumberingProperty, id: NumberingId, level: IndentLevel) -> NumberingProperty { NumberingProperty { id: Some(id), level: Some(level), ..this } }
//@fn NumberingProperty::add_num r=out
//@| ensures out == sp_NumberingProperty_add_num(self, id, level),
//@end
pub open spec fn sp_PageMargin_top(this: PageMargin, v: i32) -> PageMargin { PageMargin { top: v, ..this } }
//@fn PageMargin::top r=out
//@| ensures out == sp_PageMargin_top(self, v),
//@end
pub open spec fn sp_PageMargin_left(this: PageMargin, v: i32) -> PageMargin { PageMargin { left: v, ..this } }
//@fn PageMargin::left r=out
//@| ensures out == sp_PageMargin_left(self, v),
//@end
pub open spec fn sp_PageMargin_bottom(this: PageMargin, v: i32) -> PageMargin { PageMargin { bottom: v, ..this } }
//@fn PageMargin::bottom r=out
//@| ensures out == sp_PageMargin_bottom(self, v),
//@end
pub open spec fn sp_PageMargin_right(this: PageMargin, v: i32) -> PageMargin { PageMargin { right: v, ..this } }
//@fn PageMargin::right r=out
//@| ensures out == sp_PageMargin_right(self, v),
//@end
pub open spec fn sp_PageMargin_header(this: PageMargin, v: i32) -> PageMargin { PageMargin { header: v, ..this } }
//@fn PageMargin::header r=out
//@| ensures out == sp_PageMargin_header(self, v),
//@end
pub open spec fn sp_PageMargin_footer(this: PageMargin, v: i32) -> PageMargin { PageMargin { footer: v, ..this } }
//@fn PageMargin::footer r=out
//@| ensures out == sp_PageMargin_footer(self, v),
//@end
pub open spec fn sp_PageMargin_gutter(this: PageMargin, v: i32) -> PageMargin { PageMargin { gutter: v, ..this } }
//@fn PageMargin::gutter r=out
//@| ensures out == sp_PageMargin_gutter(self, v),
//@end
pub open spec fn sp_PageNumType_start(this: PageNumType, s: u32) -> PageNumType { PageNumType { start: Some(s), ..this } }
//@fn PageNumType::start r=out
//@| ensures out == sp_PageNumType_start(self, s),
//@end
pub open spec fn sp_PageNumType_chap_style(this: PageNumType, s: Seq<char>) -> PageNumType { PageNumType { chap_style: Some(strv(s)), ..this } }
//@fn PageNumType::chap_style r=out
//@| ensures out == sp_PageNumType_chap_style(self, s.chars()),
//@end
pub open spec fn sp_PageSize_size(this: PageSize, w: u32, h: u32) -> PageSize { PageSize { w: w, h: h, orient: this.orient } }
//@fn PageSize::size r=out
//@| ensures out == sp_PageSize_size(self, w, h),
//@end
pub open spec fn sp_PageSize_width(this: PageSize, w: u32) -> PageSize { PageSize { w: w, ..this } }
//@fn PageSize::width r=out
//@| ensures out == sp_PageSize_width(self, w),
//@end
pub open spec fn sp_PageSize_height(this: PageSize, h: u32) -> PageSize { PageSize { h: h, ..this } }
//@fn PageSize::height r=out
//@| ensures out == sp_PageSize_height(self, h),
//@end
pub open spec fn sp_Paragraph_id(this: Paragraph, id: Seq<char>) -> Paragraph { Paragraph { id: strv(id), ..this } }
//@fn Paragraph::id r=out
//@| ensures out == sp_Paragraph_id(self, id.chars()),
//@end
pub open spec fn sp_Paragraph_add_run(this: Paragraph, run: Run) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::Run(Box::new(run)))), ..this } }
//@fn Paragraph::add_run r=out
//@| ensures out == sp_Paragraph_add_run(self, run),
//@|   out.children@ == self.children@.push(ParagraphChild::Run(Box::new(run))),
//@end
pub open spec fn sp_Paragraph_add_hyperlink(this: Paragraph, link: Hyperlink) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::Hyperlink(link))), ..this } }
//@fn Paragraph::add_hyperlink r=out
//@| ensures out == sp_Paragraph_add_hyperlink(self, link),
//@|   out.children@ == self.children@.push(ParagraphChild::Hyperlink(link)),
//@end
pub open spec fn sp_Paragraph_add_structured_data_tag(this: Paragraph, t: StructuredDataTag) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::StructuredDataTag(Box::new(t)))), ..this } }
//@fn Paragraph::add_structured_data_tag r=out
//@| ensures out == sp_Paragraph_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(ParagraphChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_Paragraph_add_insert(this: Paragraph, insert: Insert) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::Insert(insert))), ..this } }
//@fn Paragraph::add_insert r=out
//@| ensures out == sp_Paragraph_add_insert(self, insert),
//@|   out.children@ == self.children@.push(ParagraphChild::Insert(insert)),
//@end
pub open spec fn sp_Paragraph_add_delete(this: Paragraph, delete: Delete) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::Delete(delete))), ..this } }
//@fn Paragraph::add_delete r=out
//@| ensures out == sp_Paragraph_add_delete(self, delete),
//@|   out.children@ == self.children@.push(ParagraphChild::Delete(delete)),
//@end
pub open spec fn sp_Paragraph_add_move_from(this: Paragraph, move_from: MoveFrom) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::MoveFrom(move_from))), ..this } }
//@fn Paragraph::add_move_from r=out
//@| ensures out == sp_Paragraph_add_move_from(self, move_from),
//@|   out.children@ == self.children@.push(ParagraphChild::MoveFrom(move_from)),
//@end
pub open spec fn sp_Paragraph_add_move_to(this: Paragraph, move_to: MoveTo) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::MoveTo(move_to))), ..this } }
//@fn Paragraph::add_move_to r=out
//@| ensures out == sp_Paragraph_add_move_to(self, move_to),
//@|   out.children@ == self.children@.push(ParagraphChild::MoveTo(move_to)),
//@end
pub open spec fn sp_Paragraph_add_bookmark_start(this: Paragraph, id: usize, name: Seq<char>) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::BookmarkStart(sp_BookmarkStart_new(id, name)))), ..this } }
//@fn Paragraph::add_bookmark_start r=out
//@| ensures out == sp_Paragraph_add_bookmark_start(self, id, name.chars()),
//@|   out.children@ == self.children@.push(ParagraphChild::BookmarkStart(sp_BookmarkStart_new(id, name.chars()))),
//@end
pub open spec fn sp_Paragraph_add_bookmark_end(this: Paragraph, id: usize) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::BookmarkEnd(sp_BookmarkEnd_new(id)))), ..this } }
//@fn Paragraph::add_bookmark_end r=out
//@| ensures out == sp_Paragraph_add_bookmark_end(self, id),
//@|   out.children@ == self.children@.push(ParagraphChild::BookmarkEnd(sp_BookmarkEnd_new(id))),
//@end
pub open spec fn sp_Paragraph_add_comment_start(this: Paragraph, comment: Comment) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Paragraph::add_comment_start r=out
//@| ensures out == sp_Paragraph_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(ParagraphChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_Paragraph_add_comment_end(this: Paragraph, id: usize) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Paragraph::add_comment_end r=out
//@| ensures out == sp_Paragraph_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(ParagraphChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Justification_new(val: Seq<char>) -> Justification { Justification { val: strv(val) } }
//@fn Justification::new r=out
//@| ensures out == sp_Justification_new(val.chars()),
//@end
pub open spec fn sp_ParagraphProperty_align(this: ParagraphProperty, alignment_type: AlignmentType) -> ParagraphProperty { ParagraphProperty { alignment: Some(sp_Justification_new(shown(alignment_type)@)), ..this } }
//@fn ParagraphProperty::align r=out
//@| ensures out == sp_ParagraphProperty_align(self, alignment_type),
//@end
pub open spec fn sp_Paragraph_align(this: Paragraph, alignment_type: AlignmentType) -> Paragraph { Paragraph { property: sp_ParagraphProperty_align(this.property, alignment_type), ..this } }
//@fn Paragraph::align r=out
//@| ensures out == sp_Paragraph_align(self, alignment_type),
//@end
pub open spec fn sp_ParagraphProperty_snap_to_grid(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { snap_to_grid: Some(v), ..this } }
//@fn ParagraphProperty::snap_to_grid r=out
//@| ensures out == sp_ParagraphProperty_snap_to_grid(self, v),
//@end
pub open spec fn sp_Paragraph_snap_to_grid(this: Paragraph, v: bool) -> Paragraph { Paragraph { property: sp_ParagraphProperty_snap_to_grid(this.property, v), ..this } }
//@fn Paragraph::snap_to_grid r=out
//@| ensures out == sp_Paragraph_snap_to_grid(self, v),
//@end
pub open spec fn sp_ParagraphProperty_keep_next(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { keep_next: Some(v), ..this } }
//@fn ParagraphProperty::keep_next r=out
//@| ensures out == sp_ParagraphProperty_keep_next(self, v),
//@end
pub open spec fn sp_Paragraph_keep_next(this: Paragraph, v: bool) -> Paragraph { Paragraph { property: sp_ParagraphProperty_keep_next(this.property, v), ..this } }
//@fn Paragraph::keep_next r=out
//@| ensures out == sp_Paragraph_keep_next(self, v),
//@end
pub open spec fn sp_ParagraphProperty_keep_lines(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { keep_lines: Some(v), ..this } }
//@fn ParagraphProperty::keep_lines r=out
//@| ensures out == sp_ParagraphProperty_keep_lines(self, v),
//@end
pub open spec fn sp_Paragraph_keep_lines(this: Paragraph, v: bool) -> Paragraph { Paragraph { property: sp_ParagraphProperty_keep_lines(this.property, v), ..this } }
//@fn Paragraph::keep_lines r=out
//@| ensures out == sp_Paragraph_keep_lines(self, v),
//@end
pub open spec fn sp_ParagraphProperty_page_break_before(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { page_break_before: Some(v), ..this } }
//@fn ParagraphProperty::page_break_before r=out
//@| ensures out == sp_ParagraphProperty_page_break_before(self, v),
//@end
pub open spec fn sp_Paragraph_page_break_before(this: Paragraph, v: bool) -> Paragraph { Paragraph { property: sp_ParagraphProperty_page_break_before(this.property, v), ..this } }
//@fn Paragraph::page_break_before r=out
//@| ensures out == sp_Paragraph_page_break_before(self, v),
//@end
pub open spec fn sp_ParagraphProperty_widow_control(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { widow_control: Some(v), ..this } }
//@fn ParagraphProperty::widow_control r=out
//@| ensures out == sp_ParagraphProperty_widow_control(self, v),
//@end
pub open spec fn sp_Paragraph_widow_control(this: Paragraph, v: bool) -> Paragraph { Paragraph { property: sp_ParagraphProperty_widow_control(this.property, v), ..this } }
//@fn Paragraph::widow_control r=out
//@| ensures out == sp_Paragraph_widow_control(self, v),
//@end
pub open spec fn sp_ParagraphProperty_section_property(this: ParagraphProperty, s: SectionProperty) -> ParagraphProperty { ParagraphProperty { section_property: Some(s), ..this } }
//@fn ParagraphProperty::section_property r=out
//@| ensures out == sp_ParagraphProperty_section_property(self, s),
//@end
pub open spec fn sp_Paragraph_section_property(this: Paragraph, s: SectionProperty) -> Paragraph { Paragraph { property: sp_ParagraphProperty_section_property(this.property, s), ..this } }
//@fn Paragraph::section_property r=out
//@| ensures out == sp_Paragraph_section_property(self, s),
//@end
pub open spec fn sp_ParagraphProperty_add_tab(this: ParagraphProperty, t: Tab) -> ParagraphProperty { ParagraphProperty { tabs: vecv(this.tabs@.push(t)), ..this } }
//@fn ParagraphProperty::add_tab r=out
//@| ensures out == sp_ParagraphProperty_add_tab(self, t),
//@|   out.tabs@ == self.tabs@.push(t),
//@end
pub open spec fn sp_Paragraph_add_tab(this: Paragraph, t: Tab) -> Paragraph { Paragraph { property: sp_ParagraphProperty_add_tab(this.property, t), ..this } }
//@fn Paragraph::add_tab r=out
//@| ensures out == sp_Paragraph_add_tab(self, t),
//@end
pub open spec fn sp_Paragraph_indent(this: Paragraph, left: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> Paragraph { Paragraph { property: sp_ParagraphProperty_indent(this.property, left, special_indent, end, start_chars), ..this } }
//@fn Paragraph::indent r=out
//@| ensures out == sp_Paragraph_indent(self, left, special_indent, end, start_chars),
//@end
pub open spec fn sp_ParagraphProperty_hanging_chars(this: ParagraphProperty, chars: i32) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_hanging_chars((match this.indent { Some(x) => x, None => sp_Indent_new(None, None, None, None) }), chars)), ..this } }
//@fn ParagraphProperty::hanging_chars r=out
//@| ensures out == sp_ParagraphProperty_hanging_chars(self, chars),
//@closure 0
//@| -> (o: Indent) ensures o == sp_Indent_new(None, None, None, None)
//@end
pub open spec fn sp_Paragraph_hanging_chars(this: Paragraph, chars: i32) -> Paragraph { Paragraph { property: sp_ParagraphProperty_hanging_chars(this.property, chars), ..this } }
//@fn Paragraph::hanging_chars r=out
//@| ensures out == sp_Paragraph_hanging_chars(self, chars),
//@end
pub open spec fn sp_ParagraphProperty_first_line_chars(this: ParagraphProperty, chars: i32) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_first_line_chars((match this.indent { Some(x) => x, None => sp_Indent_new(None, None, None, None) }), chars)), ..this } }
//@fn ParagraphProperty::first_line_chars r=out
//@| ensures out == sp_ParagraphProperty_first_line_chars(self, chars),
//@closure 0
//@| -> (o: Indent) ensures o == sp_Indent_new(None, None, None, None)
//@end
pub open spec fn sp_Paragraph_first_line_chars(this: Paragraph, chars: i32) -> Paragraph { Paragraph { property: sp_ParagraphProperty_first_line_chars(this.property, chars), ..this } }
//@fn Paragraph::first_line_chars r=out
//@| ensures out == sp_Paragraph_first_line_chars(self, chars),
//@end
pub open spec fn sp_NumberingProperty_new() -> NumberingProperty { dflt::<NumberingProperty>() }
//@fn NumberingProperty::new r=out
//@| ensures out == sp_NumberingProperty_new(),
//@end
pub open spec fn sp_ParagraphProperty_numbering(this: ParagraphProperty, id: NumberingId, level: IndentLevel) -> ParagraphProperty { ParagraphProperty { numbering_property: Some(sp_NumberingProperty_add_num(sp_NumberingProperty_new(), id, level)), ..this } }
//@fn ParagraphProperty::numbering r=out
//@| ensures out == sp_ParagraphProperty_numbering(self, id, level),
//@end
pub open spec fn sp_Paragraph_numbering(this: Paragraph, id: NumberingId, level: IndentLevel) -> Paragraph { Paragraph { has_numbering: true, property: sp_ParagraphProperty_numbering(this.property, id, level), ..this } }
//@fn Paragraph::numbering r=out
//@| ensures out == sp_Paragraph_numbering(self, id, level),
//@end
pub open spec fn sp_Paragraph_size(this: Paragraph, size: usize) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: sp_RunProperty_size(this.property.run_property, size), ..this.property }, ..this } }
//@fn Paragraph::size r=out
//@| ensures out == sp_Paragraph_size(self, size),
//@end
pub open spec fn sp_Paragraph_color(this: Paragraph, c: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: sp_RunProperty_color(this.property.run_property, c), ..this.property }, ..this } }
//@fn Paragraph::color r=out
//@| ensures out == sp_Paragraph_color(self, c.chars()),
//@end
pub open spec fn sp_Paragraph_bold(this: Paragraph) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: sp_RunProperty_bold(this.property.run_property), ..this.property }, ..this } }
//@fn Paragraph::bold r=out
//@| ensures out == sp_Paragraph_bold(self),
//@end
pub open spec fn sp_Paragraph_italic(this: Paragraph) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: sp_RunProperty_italic(this.property.run_property), ..this.property }, ..this } }
//@fn Paragraph::italic r=out
//@| ensures out == sp_Paragraph_italic(self),
//@end
pub open spec fn sp_Paragraph_fonts(this: Paragraph, f: RunFonts) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: sp_RunProperty_fonts(this.property.run_property, f), ..this.property }, ..this } }
//@fn Paragraph::fonts r=out
//@| ensures out == sp_Paragraph_fonts(self, f),
//@end
pub open spec fn sp_Paragraph_run_property(this: Paragraph, p: RunProperty) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: p, ..this.property }, ..this } }
//@fn Paragraph::run_property r=out
//@| ensures out == sp_Paragraph_run_property(self, p),
//@end
pub open spec fn sp_Paragraph_line_spacing(this: Paragraph, spacing: LineSpacing) -> Paragraph { Paragraph { property: sp_ParagraphProperty_line_spacing(this.property, spacing), ..this } }
//@fn Paragraph::line_spacing r=out
//@| ensures out == sp_Paragraph_line_spacing(self, spacing),
//@end
pub open spec fn sp_ParagraphProperty_character_spacing(this: ParagraphProperty, spacing: i32) -> ParagraphProperty { ParagraphProperty { run_property: RunProperty { character_spacing: Some(sp_CharacterSpacing_new(spacing)), ..this.run_property }, ..this } }
//@fn ParagraphProperty::character_spacing r=out
//@| ensures out == sp_ParagraphProperty_character_spacing(self, spacing),
//@end
pub open spec fn sp_Paragraph_character_spacing(this: Paragraph, spacing: i32) -> Paragraph { Paragraph { property: sp_ParagraphProperty_character_spacing(this.property, spacing), ..this } }
//@fn Paragraph::character_spacing r=out
//@| ensures out == sp_Paragraph_character_spacing(self, spacing),
//@end
pub open spec fn sp_Delete_new() -> Delete { Delete { children: vecv(Seq::<DeleteChild>::empty()), ..dflt::<Delete>() } }
//@fn Delete::new r=out
//@| ensures out == sp_Delete_new(),
//@end
pub open spec fn sp_Paragraph_delete(this: Paragraph, author: Seq<char>, date: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: RunProperty { del: Some(sp_Delete_date(sp_Delete_author(sp_Delete_new(), author), date)), ..this.property.run_property }, ..this.property }, ..this } }
//@fn Paragraph::delete r=out
//@| ensures out == sp_Paragraph_delete(self, author.chars(), date.chars()),
//@end
pub open spec fn sp_Insert_new_with_empty() -> Insert { Insert { ..dflt::<Insert>() } }
//@fn Insert::new_with_empty r=out
//@| ensures out == sp_Insert_new_with_empty(),
//@end
pub open spec fn sp_Paragraph_insert(this: Paragraph, author: Seq<char>, date: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { run_property: RunProperty { ins: Some(sp_Insert_date(sp_Insert_author(sp_Insert_new_with_empty(), author), date)), ..this.property.run_property }, ..this.property }, ..this } }
//@fn Paragraph::insert r=out
//@| ensures out == sp_Paragraph_insert(self, author.chars(), date.chars()),
//@end
pub open spec fn sp_ParagraphProperty_paragraph_property_change(this: ParagraphProperty, p: ParagraphPropertyChange) -> ParagraphProperty { ParagraphProperty { paragraph_property_change: Some(p), ..this } }
//@fn ParagraphProperty::paragraph_property_change r=out
//@| ensures out == sp_ParagraphProperty_paragraph_property_change(self, p),
//@end
pub open spec fn sp_Paragraph_paragraph_property_change(this: Paragraph, p: ParagraphPropertyChange) -> Paragraph { Paragraph { property: sp_ParagraphProperty_paragraph_property_change(this.property, p), ..this } }
//@fn Paragraph::paragraph_property_change r=out
//@| ensures out == sp_Paragraph_paragraph_property_change(self, p),
//@end
pub open spec fn sp_Paragraph_paragraph_property(this: Paragraph, p: ParagraphProperty) -> Paragraph { Paragraph { property: p, ..this } }
//@fn Paragraph::paragraph_property r=out
//@| ensures out == sp_Paragraph_paragraph_property(self, p),
//@end
pub open spec fn sp_Paragraph_add_page_num(this: Paragraph, p: PageNum) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::PageNum(Box::new(p)))), ..this } }
//@fn Paragraph::add_page_num r=out
//@| ensures out == sp_Paragraph_add_page_num(self, p),
//@|   out.children@ == self.children@.push(ParagraphChild::PageNum(Box::new(p))),
//@end
pub open spec fn sp_Paragraph_add_num_pages(this: Paragraph, p: NumPages) -> Paragraph { Paragraph { children: vecv(this.children@.push(ParagraphChild::NumPages(Box::new(p)))), ..this } }
//@fn Paragraph::add_num_pages r=out
//@| ensures out == sp_Paragraph_add_num_pages(self, p),
//@|   out.children@ == self.children@.push(ParagraphChild::NumPages(Box::new(p))),
//@end
pub open spec fn sp_Paragraph_wrap(this: Paragraph, wrap: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { wrap: Some(strv(wrap)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::wrap r=out
//@| ensures out == sp_Paragraph_wrap(self, wrap.chars()),
//@end
pub open spec fn sp_Paragraph_v_anchor(this: Paragraph, anchor: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { v_anchor: Some(strv(anchor)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::v_anchor r=out
//@| ensures out == sp_Paragraph_v_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_Paragraph_h_anchor(this: Paragraph, anchor: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { h_anchor: Some(strv(anchor)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::h_anchor r=out
//@| ensures out == sp_Paragraph_h_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_Paragraph_h_rule(this: Paragraph, r: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { h_rule: Some(strv(r)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::h_rule r=out
//@| ensures out == sp_Paragraph_h_rule(self, r.chars()),
//@end
pub open spec fn sp_Paragraph_x_align(this: Paragraph, align: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { x_align: Some(strv(align)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::x_align r=out
//@| ensures out == sp_Paragraph_x_align(self, align.chars()),
//@end
pub open spec fn sp_Paragraph_y_align(this: Paragraph, align: Seq<char>) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { y_align: Some(strv(align)), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::y_align r=out
//@| ensures out == sp_Paragraph_y_align(self, align.chars()),
//@end
pub open spec fn sp_Paragraph_h_space(this: Paragraph, x: i32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { h_space: Some(x), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::h_space r=out
//@| ensures out == sp_Paragraph_h_space(self, x),
//@end
pub open spec fn sp_Paragraph_v_space(this: Paragraph, x: i32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { v_space: Some(x), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::v_space r=out
//@| ensures out == sp_Paragraph_v_space(self, x),
//@end
pub open spec fn sp_Paragraph_frame_x(this: Paragraph, x: i32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { x: Some(x), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::frame_x r=out
//@| ensures out == sp_Paragraph_frame_x(self, x),
//@end
pub open spec fn sp_Paragraph_frame_y(this: Paragraph, y: i32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { y: Some(y), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::frame_y r=out
//@| ensures out == sp_Paragraph_frame_y(self, y),
//@end
pub open spec fn sp_Paragraph_frame_width(this: Paragraph, n: u32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { w: Some(n), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::frame_width r=out
//@| ensures out == sp_Paragraph_frame_width(self, n),
//@end
pub open spec fn sp_Paragraph_frame_height(this: Paragraph, n: u32) -> Paragraph { Paragraph { property: ParagraphProperty { frame_property: Some(FrameProperty { h: Some(n), ..(match this.property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.property }, ..this } }
//@fn Paragraph::frame_height r=out
//@| ensures out == sp_Paragraph_frame_height(self, n),
//@end
pub open spec fn sp_ParagraphBorder_val(this: ParagraphBorder, val: BorderType) -> ParagraphBorder { ParagraphBorder { val: val, ..this } }
//@fn ParagraphBorder::val r=out
//@| ensures out == sp_ParagraphBorder_val(self, val),
//@end
pub open spec fn sp_ParagraphBorder_size(this: ParagraphBorder, size: usize) -> ParagraphBorder { ParagraphBorder { size: size, ..this } }
//@fn ParagraphBorder::size r=out
//@| ensures out == sp_ParagraphBorder_size(self, size),
//@end
pub open spec fn sp_ParagraphBorder_space(this: ParagraphBorder, space: usize) -> ParagraphBorder { ParagraphBorder { space: space, ..this } }
//@fn ParagraphBorder::space r=out
//@| ensures out == sp_ParagraphBorder_space(self, space),
//@end
pub open spec fn sp_ParagraphBorder_color(this: ParagraphBorder, color: Seq<char>) -> ParagraphBorder { ParagraphBorder { color: strv(color), ..this } }
//@fn ParagraphBorder::color r=out
//@| ensures out == sp_ParagraphBorder_color(self, color.chars()),
//@end
pub open spec fn sp_ParagraphBorders_set(this: ParagraphBorders, border: ParagraphBorder) -> ParagraphBorders { ParagraphBorders { bar: (match border.position { ParagraphBorderPosition::Top => this.bar, ParagraphBorderPosition::Left => this.bar, ParagraphBorderPosition::Bottom => this.bar, ParagraphBorderPosition::Right => this.bar, ParagraphBorderPosition::Between => this.bar, ParagraphBorderPosition::Bar => Some(border),  }), between: (match border.position { ParagraphBorderPosition::Top => this.between, ParagraphBorderPosition::Left => this.between, ParagraphBorderPosition::Bottom => this.between, ParagraphBorderPosition::Right => this.between, ParagraphBorderPosition::Between => Some(border), ParagraphBorderPosition::Bar => this.between,  }), bottom: (match border.position { ParagraphBorderPosition::Top => this.bottom, ParagraphBorderPosition::Left => this.bottom, ParagraphBorderPosition::Bottom => Some(border), ParagraphBorderPosition::Right => this.bottom, ParagraphBorderPosition::Between => this.bottom, ParagraphBorderPosition::Bar => this.bottom,  }), left: (match border.position { ParagraphBorderPosition::Top => this.left, ParagraphBorderPosition::Left => Some(border), ParagraphBorderPosition::Bottom => this.left, ParagraphBorderPosition::Right => this.left, ParagraphBorderPosition::Between => this.left, ParagraphBorderPosition::Bar => this.left,  }), right: (match border.position { ParagraphBorderPosition::Top => this.right, ParagraphBorderPosition::Left => this.right, ParagraphBorderPosition::Bottom => this.right, ParagraphBorderPosition::Right => Some(border), ParagraphBorderPosition::Between => this.right, ParagraphBorderPosition::Bar => this.right,  }), top: (match border.position { ParagraphBorderPosition::Top => Some(border), ParagraphBorderPosition::Left => this.top, ParagraphBorderPosition::Bottom => this.top, ParagraphBorderPosition::Right => this.top, ParagraphBorderPosition::Between => this.top, ParagraphBorderPosition::Bar => this.top,  }), ..this } }
//@fn ParagraphBorders::set r=out
//@| ensures out == sp_ParagraphBorders_set(self, border),
//@end
pub open spec fn sp_ParagraphBorder_new(position: ParagraphBorderPosition) -> ParagraphBorder { ParagraphBorder { position: position, val: BorderType::Single, size: 2, space: 0, color: strv("auto"@) } }
//@fn ParagraphBorder::new r=out
//@| ensures out == sp_ParagraphBorder_new(position),
//@end
pub open spec fn sp_ParagraphBorders_clear(this: ParagraphBorders, position: ParagraphBorderPosition) -> ParagraphBorders { ParagraphBorders { bar: (match position { ParagraphBorderPosition::Top => this.bar, ParagraphBorderPosition::Left => this.bar, ParagraphBorderPosition::Bottom => this.bar, ParagraphBorderPosition::Right => this.bar, ParagraphBorderPosition::Between => this.bar, ParagraphBorderPosition::Bar => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)),  }), between: (match position { ParagraphBorderPosition::Top => this.between, ParagraphBorderPosition::Left => this.between, ParagraphBorderPosition::Bottom => this.between, ParagraphBorderPosition::Right => this.between, ParagraphBorderPosition::Between => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)), ParagraphBorderPosition::Bar => this.between,  }), bottom: (match position { ParagraphBorderPosition::Top => this.bottom, ParagraphBorderPosition::Left => this.bottom, ParagraphBorderPosition::Bottom => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)), ParagraphBorderPosition::Right => this.bottom, ParagraphBorderPosition::Between => this.bottom, ParagraphBorderPosition::Bar => this.bottom,  }), left: (match position { ParagraphBorderPosition::Top => this.left, ParagraphBorderPosition::Left => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)), ParagraphBorderPosition::Bottom => this.left, ParagraphBorderPosition::Right => this.left, ParagraphBorderPosition::Between => this.left, ParagraphBorderPosition::Bar => this.left,  }), right: (match position { ParagraphBorderPosition::Top => this.right, ParagraphBorderPosition::Left => this.right, ParagraphBorderPosition::Bottom => this.right, ParagraphBorderPosition::Right => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)), ParagraphBorderPosition::Between => this.right, ParagraphBorderPosition::Bar => this.right,  }), top: (match position { ParagraphBorderPosition::Top => Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(position), BorderType::Nil)), ParagraphBorderPosition::Left => this.top, ParagraphBorderPosition::Bottom => this.top, ParagraphBorderPosition::Right => this.top, ParagraphBorderPosition::Between => this.top, ParagraphBorderPosition::Bar => this.top,  }), ..this } }
//@fn ParagraphBorders::clear r=out
//@| ensures out == sp_ParagraphBorders_clear(self, position),
//@end
pub open spec fn sp_ParagraphBorders_clear_all(this: ParagraphBorders) -> ParagraphBorders { ParagraphBorders { bar: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Bar), BorderType::Nil)), between: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Between), BorderType::Nil)), bottom: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Bottom), BorderType::Nil)), left: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Left), BorderType::Nil)), right: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Right), BorderType::Nil)), top: Some(sp_ParagraphBorder_val(sp_ParagraphBorder_new(ParagraphBorderPosition::Top), BorderType::Nil)), ..this } }
//@fn ParagraphBorders::clear_all r=out
//@| ensures out == sp_ParagraphBorders_clear_all(self),
//@end
pub open spec fn sp_ParagraphProperty_set_borders(this: ParagraphProperty, borders: ParagraphBorders) -> ParagraphProperty { ParagraphProperty { borders: Some(borders), ..this } }
//@fn ParagraphProperty::set_borders r=out
//@| ensures out == sp_ParagraphProperty_set_borders(self, borders),
//@end
pub open spec fn sp_Paragraph_set_borders(this: Paragraph, borders: ParagraphBorders) -> Paragraph { Paragraph { property: sp_ParagraphProperty_set_borders(this.property, borders), ..this } }
//@fn Paragraph::set_borders r=out
//@| ensures out == sp_Paragraph_set_borders(self, borders),
//@end
pub open spec fn sp_ParagraphProperty_numbering_property(this: ParagraphProperty, np: NumberingProperty) -> ParagraphProperty { ParagraphProperty { numbering_property: Some(np), ..this } }
//@fn ParagraphProperty::numbering_property r=out
//@| ensures out == sp_ParagraphProperty_numbering_property(self, np),
//@end
pub open spec fn sp_ParagraphProperty_shading(this: ParagraphProperty, s: Shading) -> ParagraphProperty { ParagraphProperty { shading: Some(s), ..this } }
//@fn ParagraphProperty::shading r=out
//@| ensures out == sp_ParagraphProperty_shading(self, s),
//@end
pub open spec fn sp_ParagraphProperty_bidi(this: ParagraphProperty, v: bool) -> ParagraphProperty { ParagraphProperty { bidi: Some(v), ..this } }
//@fn ParagraphProperty::bidi r=out
//@| ensures out == sp_ParagraphProperty_bidi(self, v),
//@end
pub open spec fn sp_ParagraphProperty_frame_property(this: ParagraphProperty, s: FrameProperty) -> ParagraphProperty { ParagraphProperty { frame_property: Some(s), ..this } }
//@fn ParagraphProperty::frame_property r=out
//@| ensures out == sp_ParagraphProperty_frame_property(self, s),
//@end
pub open spec fn sp_ParagraphProperty_run_property(this: ParagraphProperty, s: RunProperty) -> ParagraphProperty { ParagraphProperty { run_property: s, ..this } }
//@fn ParagraphProperty::run_property r=out
//@| ensures out == sp_ParagraphProperty_run_property(self, s),
//@end
pub open spec fn sp_TextAlignment_new(val: TextAlignmentType) -> TextAlignment { TextAlignment(val) }
//@fn TextAlignment::new r=out
//@| ensures out == sp_TextAlignment_new(val),
//@end
pub open spec fn sp_ParagraphProperty_text_alignment(this: ParagraphProperty, s: TextAlignmentType) -> ParagraphProperty { ParagraphProperty { text_alignment: Some(sp_TextAlignment_new(s)), ..this } }
//@fn ParagraphProperty::text_alignment r=out
//@| ensures out == sp_ParagraphProperty_text_alignment(self, s),
//@end
pub open spec fn sp_AdjustRightInd_new(val: isize) -> AdjustRightInd { AdjustRightInd(val) }
//@fn AdjustRightInd::new r=out
//@| ensures out == sp_AdjustRightInd_new(val),
//@end
pub open spec fn sp_ParagraphProperty_adjust_right_ind(this: ParagraphProperty, s: isize) -> ParagraphProperty { ParagraphProperty { adjust_right_ind: Some(sp_AdjustRightInd_new(s)), ..this } }
//@fn ParagraphProperty::adjust_right_ind r=out
//@| ensures out == sp_ParagraphProperty_adjust_right_ind(self, s),
//@end
pub open spec fn sp_ParagraphProperty_set_border(this: ParagraphProperty, border: ParagraphBorder) -> ParagraphProperty { ParagraphProperty { borders: Some(sp_ParagraphBorders_set((match this.borders { Some(x) => x, None => dflt::<ParagraphBorders>() }), border)), ..this } }
//@fn ParagraphProperty::set_border r=out
//@| ensures out == sp_ParagraphProperty_set_border(self, border),
//@end
pub open spec fn sp_ParagraphProperty_clear_border(this: ParagraphProperty, position: ParagraphBorderPosition) -> ParagraphProperty { ParagraphProperty { borders: Some(sp_ParagraphBorders_clear((match this.borders { Some(x) => x, None => dflt::<ParagraphBorders>() }), position)), ..this } }
//@fn ParagraphProperty::clear_border r=out
//@| ensures out == sp_ParagraphProperty_clear_border(self, position),
//@end
pub open spec fn sp_ParagraphProperty_clear_all_borders(this: ParagraphProperty) -> ParagraphProperty { ParagraphProperty { borders: Some(sp_ParagraphBorders_clear_all((match this.borders { Some(x) => x, None => dflt::<ParagraphBorders>() }))), ..this } }
//@fn ParagraphProperty::clear_all_borders r=out
//@| ensures out == sp_ParagraphProperty_clear_all_borders(self),
//@end
pub open spec fn sp_ParagraphPropertyChange_property(this: ParagraphPropertyChange, p: ParagraphProperty) -> ParagraphPropertyChange { ParagraphPropertyChange { property: Box::new(p), ..this } }
//@fn ParagraphPropertyChange::property r=out
//@| ensures out == sp_ParagraphPropertyChange_property(self, p),
//@end
pub open spec fn sp_ParagraphPropertyChange_author(this: ParagraphPropertyChange, author: Seq<char>) -> ParagraphPropertyChange { ParagraphPropertyChange { author: escaped(author), ..this } }
//@fn ParagraphPropertyChange::author r=out
//@| ensures out == sp_ParagraphPropertyChange_author(self, author.chars()),
//@end
pub open spec fn sp_ParagraphPropertyChange_date(this: ParagraphPropertyChange, date: Seq<char>) -> ParagraphPropertyChange { ParagraphPropertyChange { date: strv(date), ..this } }
//@fn ParagraphPropertyChange::date r=out
//@| ensures out == sp_ParagraphPropertyChange_date(self, date.chars()),
//@end
pub open spec fn sp_Pic_id(this: Pic, id: Seq<char>) -> Pic { Pic { id: strv(id), ..this } }
//@fn Pic::id r=out
//@| ensures out == sp_Pic_id(self, id.chars()),
//@end
pub open spec fn sp_Pic_size(this: Pic, w_emu: u32, h_emu: u32) -> Pic { Pic { size: (w_emu, h_emu), ..this } }
//@fn Pic::size r=out
//@| ensures out == sp_Pic_size(self, w_emu, h_emu),
//@end
pub open spec fn sp_Pic_rotate(this: Pic, deg: u16) -> Pic { Pic { rot: deg, ..this } }
//@fn Pic::rotate r=out
//@| ensures out == sp_Pic_rotate(self, deg),
//@end
pub open spec fn sp_Pic_floating(this: Pic) -> Pic { Pic { position_type: DrawingPositionType::Anchor, ..this } }
//@fn Pic::floating r=out
//@| ensures out == sp_Pic_floating(self),
//@end
pub open spec fn sp_Pic_overlapping(this: Pic) -> Pic { Pic { allow_overlap: true, ..this } }
//@fn Pic::overlapping r=out
//@| ensures out == sp_Pic_overlapping(self),
//@end
pub open spec fn sp_Pic_offset_x(this: Pic, x: i32) -> Pic { Pic { position_h: DrawingPosition::Offset(x), ..this } }
//@fn Pic::offset_x r=out
//@| ensures out == sp_Pic_offset_x(self, x),
//@end
pub open spec fn sp_Pic_offset_y(this: Pic, y: i32) -> Pic { Pic { position_v: DrawingPosition::Offset(y), ..this } }
//@fn Pic::offset_y r=out
//@| ensures out == sp_Pic_offset_y(self, y),
//@end
pub open spec fn sp_Pic_position_h(this: Pic, pos: DrawingPosition) -> Pic { Pic { position_h: pos, ..this } }
//@fn Pic::position_h r=out
//@| ensures out == sp_Pic_position_h(self, pos),
//@end
pub open spec fn sp_Pic_position_v(this: Pic, pos: DrawingPosition) -> Pic { Pic { position_v: pos, ..this } }
//@fn Pic::position_v r=out
//@| ensures out == sp_Pic_position_v(self, pos),
//@end
pub open spec fn sp_Pic_relative_from_h(this: Pic, t: RelativeFromHType) -> Pic { Pic { relative_from_h: t, ..this } }
//@fn Pic::relative_from_h r=out
//@| ensures out == sp_Pic_relative_from_h(self, t),
//@end
pub open spec fn sp_Pic_relative_from_v(this: Pic, t: RelativeFromVType) -> Pic { Pic { relative_from_v: t, ..this } }
//@fn Pic::relative_from_v r=out
//@| ensures out == sp_Pic_relative_from_v(self, t),
//@end
pub open spec fn sp_Pic_dist_t(this: Pic, v: i32) -> Pic { Pic { dist_t: v, ..this } }
//@fn Pic::dist_t r=out
//@| ensures out == sp_Pic_dist_t(self, v),
//@end
pub open spec fn sp_Pic_dist_b(this: Pic, v: i32) -> Pic { Pic { dist_b: v, ..this } }
//@fn Pic::dist_b r=out
//@| ensures out == sp_Pic_dist_b(self, v),
//@end
pub open spec fn sp_Pic_dist_l(this: Pic, v: i32) -> Pic { Pic { dist_l: v, ..this } }
//@fn Pic::dist_l r=out
//@| ensures out == sp_Pic_dist_l(self, v),
//@end
pub open spec fn sp_Pic_dist_r(this: Pic, v: i32) -> Pic { Pic { dist_r: v, ..this } }
//@fn Pic::dist_r r=out
//@| ensures out == sp_Pic_dist_r(self, v),
//@end
pub open spec fn sp_Pic_simple_pos(this: Pic, v: bool) -> Pic { Pic { simple_pos: v, ..this } }
//@fn Pic::simple_pos r=out
//@| ensures out == sp_Pic_simple_pos(self, v),
//@end
pub open spec fn sp_Pic_relative_height(this: Pic, v: u32) -> Pic { Pic { relative_height: v, ..this } }
//@fn Pic::relative_height r=out
//@| ensures out == sp_Pic_relative_height(self, v),
//@end
pub open spec fn sp_PositionalTab_relative_to(this: PositionalTab, relative_to: PositionalTabRelativeTo) -> PositionalTab { PositionalTab { relative_to: relative_to, ..this } }
//@fn PositionalTab::relative_to r=out
//@| ensures out == sp_PositionalTab_relative_to(self, relative_to),
//@end
pub open spec fn sp_PositionalTab_leader(this: PositionalTab, leader: TabLeaderType) -> PositionalTab { PositionalTab { leader: leader, ..this } }
//@fn PositionalTab::leader r=out
//@| ensures out == sp_PositionalTab_leader(self, leader),
//@end
pub open spec fn sp_PositionalTab_alignment(this: PositionalTab, alignment: PositionalTabAlignmentType) -> PositionalTab { PositionalTab { alignment: alignment, ..this } }
//@fn PositionalTab::alignment r=out
//@| ensures out == sp_PositionalTab_alignment(self, alignment),
//@end
pub open spec fn sp_Text_new(text: Seq<char>) -> Text { Text { text: escaped(text), preserve_space: true } }
//@fn Text::new r=out
//@| ensures out == sp_Text_new(text.chars()),
//@end
pub open spec fn sp_Text_without_escape(text: Seq<char>) -> Text { Text { text: strv(text), preserve_space: true } }
//@fn Text::without_escape r=out
//@| ensures out == sp_Text_without_escape(text.chars()),
//@end
pub open spec fn sp_DeleteText_new(text: Seq<char>) -> DeleteText { DeleteText { text: escaped(text), preserve_space: true } }
//@fn DeleteText::new r=out
//@| ensures out == sp_DeleteText_new(text.chars()),
//@end
pub open spec fn sp_DeleteText_without_escape(text: Seq<char>) -> DeleteText { DeleteText { text: strv(text), preserve_space: true } }
//@fn DeleteText::without_escape r=out
//@| ensures out == sp_DeleteText_without_escape(text.chars()),
//@end
pub open spec fn sp_FieldChar_new(t: FieldCharType) -> FieldChar { FieldChar { field_char_type: t, dirty: false } }
//@fn FieldChar::new r=out
//@| ensures out == sp_FieldChar_new(t),
//@end
pub open spec fn sp_Run_add_field_char(this: Run, t: FieldCharType, dirty: bool) -> Run { Run { children: vecv(this.children@.push(RunChild::FieldChar((if dirty { sp_FieldChar_dirty(sp_FieldChar_new(t)) } else { sp_FieldChar_new(t) })))), ..this } }
//@fn Run::add_field_char r=out
//@| ensures out == sp_Run_add_field_char(self, t, dirty),
//@|   out.children@ == self.children@.push(RunChild::FieldChar((if dirty { sp_FieldChar_dirty(sp_FieldChar_new(t)) } else { sp_FieldChar_new(t) }))),
//@end
pub open spec fn sp_Run_add_instr_text(this: Run, i: InstrText) -> Run { Run { children: vecv(this.children@.push(RunChild::InstrText(Box::new(i)))), ..this } }
//@fn Run::add_instr_text r=out
//@| ensures out == sp_Run_add_instr_text(self, i),
//@|   out.children@ == self.children@.push(RunChild::InstrText(Box::new(i))),
//@end
pub open spec fn sp_Run_add_tc(this: Run, tc: InstrTC) -> Run { sp_Run_add_field_char(sp_Run_add_instr_text(sp_Run_add_field_char(this, FieldCharType::Begin, false), InstrText::TC(tc)), FieldCharType::End, false) }
//@fn Run::add_tc r=out
//@| ensures out == sp_Run_add_tc(self, tc),
//@end
pub open spec fn sp_Run_add_delete_instr_text(this: Run, i: DeleteInstrText) -> Run { Run { children: vecv(this.children@.push(RunChild::DeleteInstrText(Box::new(i)))), ..this } }
//@fn Run::add_delete_instr_text r=out
//@| ensures out == sp_Run_add_delete_instr_text(self, i),
//@|   out.children@ == self.children@.push(RunChild::DeleteInstrText(Box::new(i))),
//@end
pub open spec fn sp_Tab_new() -> Tab { dflt::<Tab>() }
//@fn Tab::new r=out
//@| ensures out == sp_Tab_new(),
//@end
pub open spec fn sp_Run_add_tab(this: Run) -> Run { Run { children: vecv(this.children@.push(RunChild::Tab(sp_Tab_new()))), ..this } }
//@fn Run::add_tab r=out
//@| ensures out == sp_Run_add_tab(self),
//@|   out.children@ == self.children@.push(RunChild::Tab(sp_Tab_new())),
//@end
pub open spec fn sp_Run_add_ptab(this: Run, ptab: PositionalTab) -> Run { Run { children: vecv(this.children@.push(RunChild::PTab(ptab))), ..this } }
//@fn Run::add_ptab r=out
//@| ensures out == sp_Run_add_ptab(self, ptab),
//@|   out.children@ == self.children@.push(RunChild::PTab(ptab)),
//@end
pub open spec fn sp_Drawing_new() -> Drawing { dflt::<Drawing>() }
//@fn Drawing::new r=out
//@| ensures out == sp_Drawing_new(),
//@end
pub open spec fn sp_Run_add_image(this: Run, pic: Pic) -> Run { Run { children: vecv(this.children@.push(RunChild::Drawing(Box::new(sp_Drawing_pic(sp_Drawing_new(), pic))))), ..this } }
//@fn Run::add_image r=out
//@| ensures out == sp_Run_add_image(self, pic),
//@|   out.children@ == self.children@.push(RunChild::Drawing(Box::new(sp_Drawing_pic(sp_Drawing_new(), pic)))),
//@end
pub open spec fn sp_Run_add_drawing(this: Run, d: Drawing) -> Run { Run { children: vecv(this.children@.push(RunChild::Drawing(Box::new(d)))), ..this } }
//@fn Run::add_drawing r=out
//@| ensures out == sp_Run_add_drawing(self, d),
//@|   out.children@ == self.children@.push(RunChild::Drawing(Box::new(d))),
//@end
pub open spec fn sp_Break_new(t: BreakType) -> Break { Break { break_type: t } }
//@fn Break::new r=out
//@| ensures out == sp_Break_new(t),
//@end
pub open spec fn sp_Run_add_break(this: Run, break_type: BreakType) -> Run { Run { children: vecv(this.children@.push(RunChild::Break(sp_Break_new(break_type)))), ..this } }
//@fn Run::add_break r=out
//@| ensures out == sp_Run_add_break(self, break_type),
//@|   out.children@ == self.children@.push(RunChild::Break(sp_Break_new(break_type))),
//@end
pub open spec fn sp_CarriageReturn_new() -> CarriageReturn { CarriageReturn {  } }
//@fn CarriageReturn::new r=out
//@| ensures out == sp_CarriageReturn_new(),
//@end
pub open spec fn sp_Run_add_carriage_return(this: Run) -> Run { Run { children: vecv(this.children@.push(RunChild::CarriageReturn(sp_CarriageReturn_new()))), ..this } }
//@fn Run::add_carriage_return r=out
//@| ensures out == sp_Run_add_carriage_return(self),
//@|   out.children@ == self.children@.push(RunChild::CarriageReturn(sp_CarriageReturn_new())),
//@end
pub open spec fn sp_Run_add_sym(this: Run, sym: Sym) -> Run { Run { children: vecv(this.children@.push(RunChild::Sym(sym))), ..this } }
//@fn Run::add_sym r=out
//@| ensures out == sp_Run_add_sym(self, sym),
//@|   out.children@ == self.children@.push(RunChild::Sym(sym)),
//@end
pub open spec fn sp_RunStyle_new(val: Seq<char>) -> RunStyle { RunStyle { val: escaped(val) } }
//@fn RunStyle::new r=out
//@| ensures out == sp_RunStyle_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_style(this: RunProperty, style_id: Seq<char>) -> RunProperty { RunProperty { style: Some(sp_RunStyle_new(style_id)), ..this } }
//@fn RunProperty::style r=out
//@| ensures out == sp_RunProperty_style(self, style_id@),
//@end
pub open spec fn sp_Run_style(this: Run, style_id: Seq<char>) -> Run { Run { run_property: sp_RunProperty_style(this.run_property, style_id), ..this } }
//@fn Run::style r=out
//@| ensures out == sp_Run_style(self, style_id@),
//@end
pub open spec fn sp_Run_size(this: Run, size: usize) -> Run { Run { run_property: sp_RunProperty_size(this.run_property, size), ..this } }
//@fn Run::size r=out
//@| ensures out == sp_Run_size(self, size),
//@end
pub open spec fn sp_Run_character_spacing(this: Run, v: i32) -> Run { Run { run_property: sp_RunProperty_spacing(this.run_property, v), ..this } }
//@fn Run::character_spacing r=out
//@| ensures out == sp_Run_character_spacing(self, v),
//@end
pub open spec fn sp_Stretch_new(s: i32) -> Stretch { Stretch { value: s } }
//@fn Stretch::new r=out
//@| ensures out == sp_Stretch_new(s),
//@end
pub open spec fn sp_RunProperty_stretch(this: RunProperty, v: i32) -> RunProperty { RunProperty { stretch: Some(sp_Stretch_new(v)), ..this } }
//@fn RunProperty::stretch r=out
//@| ensures out == sp_RunProperty_stretch(self, v),
//@end
pub open spec fn sp_Run_stretch(this: Run, v: i32) -> Run { Run { run_property: sp_RunProperty_stretch(this.run_property, v), ..this } }
//@fn Run::stretch r=out
//@| ensures out == sp_Run_stretch(self, v),
//@end
pub open spec fn sp_Run_color(this: Run, color: Seq<char>) -> Run { Run { run_property: sp_RunProperty_color(this.run_property, color), ..this } }
//@fn Run::color r=out
//@| ensures out == sp_Run_color(self, color.chars()),
//@end
pub open spec fn sp_RunProperty_theme_color(this: RunProperty, theme_color: ThemeColor) -> RunProperty { RunProperty { color: Some(sp_Color_theme_color((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_color)), ..this } }
//@fn RunProperty::theme_color r=out
//@| ensures out == sp_RunProperty_theme_color(self, theme_color),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Run_theme_color(this: Run, theme_color: ThemeColor) -> Run { Run { run_property: sp_RunProperty_theme_color(this.run_property, theme_color), ..this } }
//@fn Run::theme_color r=out
//@| ensures out == sp_Run_theme_color(self, theme_color),
//@end
pub open spec fn sp_RunProperty_theme_shade(this: RunProperty, theme_shade: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_theme_shade((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_shade)), ..this } }
//@fn RunProperty::theme_shade r=out
//@| ensures out == sp_RunProperty_theme_shade(self, theme_shade.chars()),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Run_theme_shade(this: Run, theme_shade: Seq<char>) -> Run { Run { run_property: sp_RunProperty_theme_shade(this.run_property, theme_shade), ..this } }
//@fn Run::theme_shade r=out
//@| ensures out == sp_Run_theme_shade(self, theme_shade.chars()),
//@end
pub open spec fn sp_RunProperty_theme_tint(this: RunProperty, theme_tint: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_theme_tint((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_tint)), ..this } }
//@fn RunProperty::theme_tint r=out
//@| ensures out == sp_RunProperty_theme_tint(self, theme_tint.chars()),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Run_theme_tint(this: Run, theme_tint: Seq<char>) -> Run { Run { run_property: sp_RunProperty_theme_tint(this.run_property, theme_tint), ..this } }
//@fn Run::theme_tint r=out
//@| ensures out == sp_Run_theme_tint(self, theme_tint.chars()),
//@end
pub open spec fn sp_Run_highlight(this: Run, color: Seq<char>) -> Run { Run { run_property: sp_RunProperty_highlight(this.run_property, color), ..this } }
//@fn Run::highlight r=out
//@| ensures out == sp_Run_highlight(self, color.chars()),
//@end
pub open spec fn sp_Run_bold(this: Run) -> Run { Run { run_property: sp_RunProperty_bold(this.run_property), ..this } }
//@fn Run::bold r=out
//@| ensures out == sp_Run_bold(self),
//@end
pub open spec fn sp_Run_disable_bold(this: Run) -> Run { Run { run_property: sp_RunProperty_disable_bold(this.run_property), ..this } }
//@fn Run::disable_bold r=out
//@| ensures out == sp_Run_disable_bold(self),
//@end
pub open spec fn sp_Run_italic(this: Run) -> Run { Run { run_property: sp_RunProperty_italic(this.run_property), ..this } }
//@fn Run::italic r=out
//@| ensures out == sp_Run_italic(self),
//@end
pub open spec fn sp_Run_strike(this: Run) -> Run { Run { run_property: sp_RunProperty_strike(this.run_property), ..this } }
//@fn Run::strike r=out
//@| ensures out == sp_Run_strike(self),
//@end
pub open spec fn sp_Run_dstrike(this: Run) -> Run { Run { run_property: sp_RunProperty_dstrike(this.run_property), ..this } }
//@fn Run::dstrike r=out
//@| ensures out == sp_Run_dstrike(self),
//@end
pub open spec fn sp_RunProperty_text_border(this: RunProperty, b: TextBorder) -> RunProperty { RunProperty { text_border: Some(b), ..this } }
//@fn RunProperty::text_border r=out
//@| ensures out == sp_RunProperty_text_border(self, b),
//@end
pub open spec fn sp_Run_text_border(this: Run, b: TextBorder) -> Run { Run { run_property: sp_RunProperty_text_border(this.run_property, b), ..this } }
//@fn Run::text_border r=out
//@| ensures out == sp_Run_text_border(self, b),
//@end
pub open spec fn sp_Run_disable_italic(this: Run) -> Run { Run { run_property: sp_RunProperty_disable_italic(this.run_property), ..this } }
//@fn Run::disable_italic r=out
//@| ensures out == sp_Run_disable_italic(self),
//@end
pub open spec fn sp_Run_underline(this: Run, line_type: Seq<char>) -> Run { Run { run_property: sp_RunProperty_underline(this.run_property, line_type), ..this } }
//@fn Run::underline r=out
//@| ensures out == sp_Run_underline(self, line_type.chars()),
//@end
pub open spec fn sp_Run_vanish(this: Run) -> Run { Run { run_property: sp_RunProperty_vanish(this.run_property), ..this } }
//@fn Run::vanish r=out
//@| ensures out == sp_Run_vanish(self),
//@end
pub open spec fn sp_Run_fonts(this: Run, f: RunFonts) -> Run { Run { run_property: sp_RunProperty_fonts(this.run_property, f), ..this } }
//@fn Run::fonts r=out
//@| ensures out == sp_Run_fonts(self, f),
//@end
pub open spec fn sp_Run_set_property(this: Run, p: RunProperty) -> Run { Run { run_property: p, ..this } }
//@fn Run::set_property r=out
//@| ensures out == sp_Run_set_property(self, p),
//@end
pub open spec fn sp_RunProperty_shading(this: RunProperty, s: Shading) -> RunProperty { RunProperty { shading: Some(s), ..this } }
//@fn RunProperty::shading r=out
//@| ensures out == sp_RunProperty_shading(self, s),
//@end
pub open spec fn sp_Run_shading(this: Run, shading: Shading) -> Run { Run { run_property: sp_RunProperty_shading(this.run_property, shading), ..this } }
//@fn Run::shading r=out
//@| ensures out == sp_Run_shading(self, shading),
//@end
pub open spec fn sp_RunFonts_ascii(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { ascii: Some(escaped(f)), ..this } }
//@fn RunFonts::ascii r=out
//@| ensures out == sp_RunFonts_ascii(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hi_ansi(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hi_ansi: Some(escaped(f)), ..this } }
//@fn RunFonts::hi_ansi r=out
//@| ensures out == sp_RunFonts_hi_ansi(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_east_asia(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { east_asia: Some(escaped(f)), ..this } }
//@fn RunFonts::east_asia r=out
//@| ensures out == sp_RunFonts_east_asia(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_cs(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { cs: Some(escaped(f)), ..this } }
//@fn RunFonts::cs r=out
//@| ensures out == sp_RunFonts_cs(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_ascii_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { ascii_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::ascii_theme r=out
//@| ensures out == sp_RunFonts_ascii_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hi_ansi_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hi_ansi_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::hi_ansi_theme r=out
//@| ensures out == sp_RunFonts_hi_ansi_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_east_asia_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { east_asia_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::east_asia_theme r=out
//@| ensures out == sp_RunFonts_east_asia_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_cs_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { cs_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::cs_theme r=out
//@| ensures out == sp_RunFonts_cs_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hint(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hint: Some(escaped(f)), ..this } }
//@fn RunFonts::hint r=out
//@| ensures out == sp_RunFonts_hint(self, f.chars()),
//@end
pub open spec fn sp_VertAlign_new(val: VertAlignType) -> VertAlign { VertAlign { val: val } }
//@fn VertAlign::new r=out
//@| ensures out == sp_VertAlign_new(val),
//@end
pub open spec fn sp_RunProperty_vert_align(this: RunProperty, a: VertAlignType) -> RunProperty { RunProperty { vert_align: Some(sp_VertAlign_new(a)), ..this } }
//@fn RunProperty::vert_align r=out
//@| ensures out == sp_RunProperty_vert_align(self, a),
//@end
pub open spec fn sp_Caps_new() -> Caps { dflt::<Caps>() }
//@fn Caps::new r=out
//@| ensures out == sp_Caps_new(),
//@end
pub open spec fn sp_RunProperty_caps(this: RunProperty) -> RunProperty { RunProperty { caps: Some(sp_Caps_new()), ..this } }
//@fn RunProperty::caps r=out
//@| ensures out == sp_RunProperty_caps(self),
//@end
pub open spec fn sp_SpecVanish_new() -> SpecVanish { SpecVanish {  } }
//@fn SpecVanish::new r=out
//@| ensures out == sp_SpecVanish_new(),
//@end
pub open spec fn sp_RunProperty_spec_vanish(this: RunProperty) -> RunProperty { RunProperty { spec_vanish: Some(sp_SpecVanish_new()), ..this } }
//@fn RunProperty::spec_vanish r=out
//@| ensures out == sp_RunProperty_spec_vanish(self),
//@end
pub open spec fn sp_RunProperty_character_spacing(this: RunProperty, v: i32) -> RunProperty { RunProperty { character_spacing: Some(sp_CharacterSpacing_new(v)), ..this } }
//@fn RunProperty::character_spacing r=out
//@| ensures out == sp_RunProperty_character_spacing(self, v),
//@end
pub open spec fn sp_FitText_new(val: usize) -> FitText { FitText { val: val, id: None } }
//@fn FitText::new r=out
//@| ensures out == sp_FitText_new(val),
//@end
pub open spec fn sp_RunProperty_fit_text(this: RunProperty, val: usize, id: Option<u32>) -> RunProperty { RunProperty { fit_text: Some((match id { Some(id) => sp_FitText_id(sp_FitText_new(val), id), None => sp_FitText_new(val) })), ..this } }
//@fn RunProperty::fit_text r=out
//@| ensures out == sp_RunProperty_fit_text(self, val, id),
//@end
pub open spec fn sp_RunProperty_delete(this: RunProperty, d: Delete) -> RunProperty { RunProperty { del: Some(d), ..this } }
//@fn RunProperty::delete r=out
//@| ensures out == sp_RunProperty_delete(self, d),
//@end
pub open spec fn sp_RunProperty_insert(this: RunProperty, i: Insert) -> RunProperty { RunProperty { ins: Some(i), ..this } }
//@fn RunProperty::insert r=out
//@| ensures out == sp_RunProperty_insert(self, i),
//@end
pub open spec fn sp_RunProperty_ptab(this: RunProperty, ptab: PositionalTab) -> RunProperty { RunProperty { positional_tab: Some(ptab), ..this } }
//@fn RunProperty::ptab r=out
//@| ensures out == sp_RunProperty_ptab(self, ptab),
//@end
pub open spec fn sp_Section_add_paragraph(this: Section, p: Paragraph) -> Section { Section { children: vecv(this.children@.push(SectionChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Section::add_paragraph r=out
//@| ensures out == sp_Section_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(SectionChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_Section_add_table(this: Section, t: Table) -> Section { Section { children: vecv(this.children@.push(SectionChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Section::add_table r=out
//@| ensures out == sp_Section_add_table(self, t),
//@|   out.children@ == self.children@.push(SectionChild::Table(Box::new(t))),
//@end
pub open spec fn sp_Section_add_bookmark_start(this: Section, id: usize, name: Seq<char>) -> Section { Section { children: vecv(this.children@.push(SectionChild::BookmarkStart(sp_BookmarkStart_new(id, name)))), ..this } }
//@fn Section::add_bookmark_start r=out
//@| ensures out == sp_Section_add_bookmark_start(self, id, name.chars()),
//@|   out.children@ == self.children@.push(SectionChild::BookmarkStart(sp_BookmarkStart_new(id, name.chars()))),
//@end
pub open spec fn sp_Section_add_bookmark_end(this: Section, id: usize) -> Section { Section { children: vecv(this.children@.push(SectionChild::BookmarkEnd(sp_BookmarkEnd_new(id)))), ..this } }
//@fn Section::add_bookmark_end r=out
//@| ensures out == sp_Section_add_bookmark_end(self, id),
//@|   out.children@ == self.children@.push(SectionChild::BookmarkEnd(sp_BookmarkEnd_new(id))),
//@end
pub open spec fn sp_Section_add_comment_start(this: Section, comment: Comment) -> Section { Section { children: vecv(this.children@.push(SectionChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment))))), ..this } }
//@fn Section::add_comment_start r=out
//@| ensures out == sp_Section_add_comment_start(self, comment),
//@|   out.children@ == self.children@.push(SectionChild::CommentStart(Box::new(sp_CommentRangeStart_new(comment)))),
//@end
pub open spec fn sp_Section_add_comment_end(this: Section, id: usize) -> Section { Section { children: vecv(this.children@.push(SectionChild::CommentEnd(sp_CommentRangeEnd_new(id)))), ..this } }
//@fn Section::add_comment_end r=out
//@| ensures out == sp_Section_add_comment_end(self, id),
//@|   out.children@ == self.children@.push(SectionChild::CommentEnd(sp_CommentRangeEnd_new(id))),
//@end
pub open spec fn sp_Section_header(this: Section, header: Header) -> Section { Section { temp_header: Some(header), ..this } }
//@fn Section::header r=out
//@| ensures out == sp_Section_header(self, header),
//@end
pub open spec fn sp_Section_first_header(this: Section, header: Header) -> Section { Section { temp_first_header: Some(header), ..this } }
//@fn Section::first_header r=out
//@| ensures out == sp_Section_first_header(self, header),
//@end
pub open spec fn sp_Section_even_header(this: Section, header: Header) -> Section { Section { temp_even_header: Some(header), ..this } }
//@fn Section::even_header r=out
//@| ensures out == sp_Section_even_header(self, header),
//@end
pub open spec fn sp_Section_footer(this: Section, footer: Footer) -> Section { Section { temp_footer: Some(footer), ..this } }
//@fn Section::footer r=out
//@| ensures out == sp_Section_footer(self, footer),
//@end
pub open spec fn sp_Section_first_footer(this: Section, footer: Footer) -> Section { Section { temp_first_footer: Some(footer), ..this } }
//@fn Section::first_footer r=out
//@| ensures out == sp_Section_first_footer(self, footer),
//@end
pub open spec fn sp_Section_even_footer(this: Section, footer: Footer) -> Section { Section { temp_even_footer: Some(footer), ..this } }
//@fn Section::even_footer r=out
//@| ensures out == sp_Section_even_footer(self, footer),
//@end
pub open spec fn sp_SectionProperty_text_direction(this: SectionProperty, direction: String) -> SectionProperty { SectionProperty { text_direction: direction, ..this } }
//@fn SectionProperty::text_direction r=out
//@| ensures out == sp_SectionProperty_text_direction(self, direction),
//@end
pub open spec fn sp_Shading_color(this: Shading, color: Seq<char>) -> Shading { Shading { color: strv(color), ..this } }
//@fn Shading::color r=out
//@| ensures out == sp_Shading_color(self, color.chars()),
//@end
pub open spec fn sp_Shading_fill(this: Shading, fill: Seq<char>) -> Shading { Shading { fill: strv(fill), ..this } }
//@fn Shading::fill r=out
//@| ensures out == sp_Shading_fill(self, fill.chars()),
//@end
pub open spec fn sp_Shading_shd_type(this: Shading, shd_type: ShdType) -> Shading { Shading { shd_type: shd_type, ..this } }
//@fn Shading::shd_type r=out
//@| ensures out == sp_Shading_shd_type(self, shd_type),
//@end
pub open spec fn sp_Shape_style(this: Shape, style: Seq<char>) -> Shape { Shape { style: Some(strv(style)), ..this } }
//@fn Shape::style r=out
//@| ensures out == sp_Shape_style(self, style.chars()),
//@end
pub open spec fn sp_Shape_image_data(this: Shape, id: Seq<char>) -> Shape { Shape { image_data: Some(ImageData { id: strv(id) }), ..this } }
//@fn Shape::image_data r=out
//@| ensures out == sp_Shape_image_data(self, id.chars()),
//@end
pub open spec fn sp_StructuredDataTag_add_run(this: StructuredDataTag, run: Run) -> StructuredDataTag { StructuredDataTag { children: vecv(this.children@.push(StructuredDataTagChild::Run(Box::new(run)))), ..this } }
//@fn StructuredDataTag::add_run r=out
//@| ensures out == sp_StructuredDataTag_add_run(self, run),
//@|   out.children@ == self.children@.push(StructuredDataTagChild::Run(Box::new(run))),
//@end
pub open spec fn sp_StructuredDataTag_add_paragraph(this: StructuredDataTag, p: Paragraph) -> StructuredDataTag { StructuredDataTag { children: vecv(this.children@.push(StructuredDataTagChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn StructuredDataTag::add_paragraph r=out
//@| ensures out == sp_StructuredDataTag_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(StructuredDataTagChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_StructuredDataTag_add_table(this: StructuredDataTag, t: Table) -> StructuredDataTag { StructuredDataTag { children: vecv(this.children@.push(StructuredDataTagChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn StructuredDataTag::add_table r=out
//@| ensures out == sp_StructuredDataTag_add_table(self, t),
//@|   out.children@ == self.children@.push(StructuredDataTagChild::Table(Box::new(t))),
//@end
pub open spec fn sp_StructuredDataTagProperty_data_binding(this: StructuredDataTagProperty, d: DataBinding) -> StructuredDataTagProperty { StructuredDataTagProperty { data_binding: Some(d), ..this } }
//@fn StructuredDataTagProperty::data_binding r=out
//@| ensures out == sp_StructuredDataTagProperty_data_binding(self, d),
//@end
pub open spec fn sp_StructuredDataTag_data_binding(this: StructuredDataTag, d: DataBinding) -> StructuredDataTag { StructuredDataTag { property: sp_StructuredDataTagProperty_data_binding(this.property, d), ..this } }
//@fn StructuredDataTag::data_binding r=out
//@| ensures out == sp_StructuredDataTag_data_binding(self, d),
//@end
pub open spec fn sp_StructuredDataTagProperty_alias(this: StructuredDataTagProperty, v: Seq<char>) -> StructuredDataTagProperty { StructuredDataTagProperty { alias: Some(strv(v)), ..this } }
//@fn StructuredDataTagProperty::alias r=out
//@| ensures out == sp_StructuredDataTagProperty_alias(self, v.chars()),
//@end
pub open spec fn sp_StructuredDataTag_alias(this: StructuredDataTag, v: Seq<char>) -> StructuredDataTag { StructuredDataTag { property: sp_StructuredDataTagProperty_alias(this.property, v), ..this } }
//@fn StructuredDataTag::alias r=out
//@| ensures out == sp_StructuredDataTag_alias(self, v.chars()),
//@end
pub open spec fn sp_Name_new(name: Seq<char>) -> Name { Name { name: escaped(name) } }
//@fn Name::new r=out
//@| ensures out == sp_Name_new(name.chars()),
//@end
pub open spec fn sp_Style_name(this: Style, name: Seq<char>) -> Style { Style { name: sp_Name_new(name), ..this } }
//@fn Style::name r=out
//@| ensures out == sp_Style_name(self, name.chars()),
//@end
pub open spec fn sp_BasedOn_new(val: Seq<char>) -> BasedOn { BasedOn { val: escaped(val) } }
//@fn BasedOn::new r=out
//@| ensures out == sp_BasedOn_new(val.chars()),
//@end
pub open spec fn sp_Style_based_on(this: Style, base: Seq<char>) -> Style { Style { based_on: Some(sp_BasedOn_new(base)), ..this } }
//@fn Style::based_on r=out
//@| ensures out == sp_Style_based_on(self, base.chars()),
//@end
pub open spec fn sp_Next_new(val: Seq<char>) -> Next { Next { val: escaped(val) } }
//@fn Next::new r=out
//@| ensures out == sp_Next_new(val.chars()),
//@end
pub open spec fn sp_Style_next(this: Style, next: Seq<char>) -> Style { Style { next: Some(sp_Next_new(next)), ..this } }
//@fn Style::next r=out
//@| ensures out == sp_Style_next(self, next.chars()),
//@end
pub open spec fn sp_Link_new(val: Seq<char>) -> Link { Link { val: escaped(val) } }
//@fn Link::new r=out
//@| ensures out == sp_Link_new(val.chars()),
//@end
pub open spec fn sp_Style_link(this: Style, link: Seq<char>) -> Style { Style { link: Some(sp_Link_new(link)), ..this } }
//@fn Style::link r=out
//@| ensures out == sp_Style_link(self, link.chars()),
//@end
pub open spec fn sp_Style_q_format(this: Style, q_format: bool) -> Style { Style { q_format: q_format, ..this } }
//@fn Style::q_format r=out
//@| ensures out == sp_Style_q_format(self, q_format),
//@end
pub open spec fn sp_Style_ui_priority(this: Style, ui_priority: usize) -> Style { Style { ui_priority: Some(ui_priority), ..this } }
//@fn Style::ui_priority r=out
//@| ensures out == sp_Style_ui_priority(self, ui_priority),
//@end
pub open spec fn sp_Style_semi_hidden(this: Style) -> Style { Style { semi_hidden: true, ..this } }
//@fn Style::semi_hidden r=out
//@| ensures out == sp_Style_semi_hidden(self),
//@end
pub open spec fn sp_Style_unhide_when_used(this: Style) -> Style { Style { unhide_when_used: true, ..this } }
//@fn Style::unhide_when_used r=out
//@| ensures out == sp_Style_unhide_when_used(self),
//@end
pub open spec fn sp_Style_size(this: Style, size: usize) -> Style { Style { run_property: sp_RunProperty_size(this.run_property, size), ..this } }
//@fn Style::size r=out
//@| ensures out == sp_Style_size(self, size),
//@end
pub open spec fn sp_Style_color(this: Style, color: Seq<char>) -> Style { Style { run_property: sp_RunProperty_color(this.run_property, color), ..this } }
//@fn Style::color r=out
//@| ensures out == sp_Style_color(self, color.chars()),
//@end
pub open spec fn sp_Style_theme_color(this: Style, theme_color: ThemeColor) -> Style { Style { run_property: sp_RunProperty_theme_color(this.run_property, theme_color), ..this } }
//@fn Style::theme_color r=out
//@| ensures out == sp_Style_theme_color(self, theme_color),
//@end
pub open spec fn sp_Style_theme_shade(this: Style, theme_shade: Seq<char>) -> Style { Style { run_property: sp_RunProperty_theme_shade(this.run_property, theme_shade), ..this } }
//@fn Style::theme_shade r=out
//@| ensures out == sp_Style_theme_shade(self, theme_shade.chars()),
//@end
pub open spec fn sp_Style_theme_tint(this: Style, theme_tint: Seq<char>) -> Style { Style { run_property: sp_RunProperty_theme_tint(this.run_property, theme_tint), ..this } }
//@fn Style::theme_tint r=out
//@| ensures out == sp_Style_theme_tint(self, theme_tint.chars()),
//@end
pub open spec fn sp_Style_highlight(this: Style, color: Seq<char>) -> Style { Style { run_property: sp_RunProperty_highlight(this.run_property, color), ..this } }
//@fn Style::highlight r=out
//@| ensures out == sp_Style_highlight(self, color.chars()),
//@end
pub open spec fn sp_Style_bold(this: Style) -> Style { Style { run_property: sp_RunProperty_bold(this.run_property), ..this } }
//@fn Style::bold r=out
//@| ensures out == sp_Style_bold(self),
//@end
pub open spec fn sp_Style_italic(this: Style) -> Style { Style { run_property: sp_RunProperty_italic(this.run_property), ..this } }
//@fn Style::italic r=out
//@| ensures out == sp_Style_italic(self),
//@end
pub open spec fn sp_Style_underline(this: Style, line_type: Seq<char>) -> Style { Style { run_property: sp_RunProperty_underline(this.run_property, line_type), ..this } }
//@fn Style::underline r=out
//@| ensures out == sp_Style_underline(self, line_type.chars()),
//@end
pub open spec fn sp_Style_vanish(this: Style) -> Style { Style { run_property: sp_RunProperty_vanish(this.run_property), ..this } }
//@fn Style::vanish r=out
//@| ensures out == sp_Style_vanish(self),
//@end
pub open spec fn sp_Style_text_border(this: Style, b: TextBorder) -> Style { Style { run_property: sp_RunProperty_text_border(this.run_property, b), ..this } }
//@fn Style::text_border r=out
//@| ensures out == sp_Style_text_border(self, b),
//@end
pub open spec fn sp_Style_fonts(this: Style, f: RunFonts) -> Style { Style { run_property: sp_RunProperty_fonts(this.run_property, f), ..this } }
//@fn Style::fonts r=out
//@| ensures out == sp_Style_fonts(self, f),
//@end
pub open spec fn sp_Style_align(this: Style, alignment_type: AlignmentType) -> Style { Style { paragraph_property: sp_ParagraphProperty_align(this.paragraph_property, alignment_type), ..this } }
//@fn Style::align r=out
//@| ensures out == sp_Style_align(self, alignment_type),
//@end
pub open spec fn sp_Style_text_alignment(this: Style, alignment_type: TextAlignmentType) -> Style { Style { paragraph_property: sp_ParagraphProperty_text_alignment(this.paragraph_property, alignment_type), ..this } }
//@fn Style::text_alignment r=out
//@| ensures out == sp_Style_text_alignment(self, alignment_type),
//@end
pub open spec fn sp_Style_snap_to_grid(this: Style, v: bool) -> Style { Style { paragraph_property: sp_ParagraphProperty_snap_to_grid(this.paragraph_property, v), ..this } }
//@fn Style::snap_to_grid r=out
//@| ensures out == sp_Style_snap_to_grid(self, v),
//@end
pub open spec fn sp_Style_line_spacing(this: Style, spacing: LineSpacing) -> Style { Style { paragraph_property: sp_ParagraphProperty_line_spacing(this.paragraph_property, spacing), ..this } }
//@fn Style::line_spacing r=out
//@| ensures out == sp_Style_line_spacing(self, spacing),
//@end
pub open spec fn sp_Style_indent(this: Style, left: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> Style { Style { paragraph_property: sp_ParagraphProperty_indent(this.paragraph_property, left, special_indent, end, start_chars), ..this } }
//@fn Style::indent r=out
//@| ensures out == sp_Style_indent(self, left, special_indent, end, start_chars),
//@end
pub open spec fn sp_Style_hanging_chars(this: Style, chars: i32) -> Style { Style { paragraph_property: sp_ParagraphProperty_hanging_chars(this.paragraph_property, chars), ..this } }
//@fn Style::hanging_chars r=out
//@| ensures out == sp_Style_hanging_chars(self, chars),
//@end
pub open spec fn sp_Style_first_line_chars(this: Style, chars: i32) -> Style { Style { paragraph_property: sp_ParagraphProperty_first_line_chars(this.paragraph_property, chars), ..this } }
//@fn Style::first_line_chars r=out
//@| ensures out == sp_Style_first_line_chars(self, chars),
//@end
pub open spec fn sp_Style_table_property(this: Style, p: TableProperty) -> Style { Style { table_property: p, ..this } }
//@fn Style::table_property r=out
//@| ensures out == sp_Style_table_property(self, p),
//@end
pub open spec fn sp_TableIndent_new(width: i32, width_type: WidthType) -> TableIndent { TableIndent { width: width, width_type: width_type } }
//@fn TableIndent::new r=out
//@| ensures out == sp_TableIndent_new(width, width_type),
//@end
pub open spec fn sp_TableProperty_indent(this: TableProperty, v: i32) -> TableProperty { TableProperty { indent: Some(sp_TableIndent_new(v, WidthType::Dxa)), ..this } }
//@fn TableProperty::indent r=out
//@| ensures out == sp_TableProperty_indent(self, v),
//@end
pub open spec fn sp_Style_table_indent(this: Style, v: i32) -> Style { Style { table_property: sp_TableProperty_indent(this.table_property, v), ..this } }
//@fn Style::table_indent r=out
//@| ensures out == sp_Style_table_indent(self, v),
//@end
pub open spec fn sp_TableProperty_align(this: TableProperty, v: TableAlignmentType) -> TableProperty { TableProperty { justification: sp_Justification_new(shown(v)@), ..this } }
//@fn TableProperty::align r=out
//@| ensures out == sp_TableProperty_align(self, v),
//@end
pub open spec fn sp_Style_table_align(this: Style, v: TableAlignmentType) -> Style { Style { table_property: sp_TableProperty_align(this.table_property, v), ..this } }
//@fn Style::table_align r=out
//@| ensures out == sp_Style_table_align(self, v),
//@end
pub open spec fn sp_TableStyle_new(val: Seq<char>) -> TableStyle { TableStyle { val: escaped(val) } }
//@fn TableStyle::new r=out
//@| ensures out == sp_TableStyle_new(val.chars()),
//@end
pub open spec fn sp_TableProperty_style(this: TableProperty, s: Seq<char>) -> TableProperty { TableProperty { style: Some(sp_TableStyle_new(s)), ..this } }
//@fn TableProperty::style r=out
//@| ensures out == sp_TableProperty_style(self, s.chars()),
//@end
pub open spec fn sp_Style_style(this: Style, s: Seq<char>) -> Style { Style { table_property: sp_TableProperty_style(this.table_property, s), ..this } }
//@fn Style::style r=out
//@| ensures out == sp_Style_style(self, s.chars()),
//@end
pub open spec fn sp_TableLayout_new(t: TableLayoutType) -> TableLayout { TableLayout { layout_type: t } }
//@fn TableLayout::new r=out
//@| ensures out == sp_TableLayout_new(t),
//@end
pub open spec fn sp_TableProperty_layout(this: TableProperty, t: TableLayoutType) -> TableProperty { TableProperty { layout: Some(sp_TableLayout_new(t)), ..this } }
//@fn TableProperty::layout r=out
//@| ensures out == sp_TableProperty_layout(self, t),
//@end
pub open spec fn sp_Style_layout(this: Style, t: TableLayoutType) -> Style { Style { table_property: sp_TableProperty_layout(this.table_property, t), ..this } }
//@fn Style::layout r=out
//@| ensures out == sp_Style_layout(self, t),
//@end
pub open spec fn sp_TableWidth_new(width: usize, width_type: WidthType) -> TableWidth { TableWidth { width: width, width_type: width_type } }
//@fn TableWidth::new r=out
//@| ensures out == sp_TableWidth_new(width, width_type),
//@end
pub open spec fn sp_TableProperty_width(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { width: sp_TableWidth_new(v, t), ..this } }
//@fn TableProperty::width r=out
//@| ensures out == sp_TableProperty_width(self, v, t),
//@end
pub open spec fn sp_Style_width(this: Style, w: usize, t: WidthType) -> Style { Style { table_property: sp_TableProperty_width(this.table_property, w, t), ..this } }
//@fn Style::width r=out
//@| ensures out == sp_Style_width(self, w, t),
//@end
pub open spec fn sp_TableProperty_set_margins(this: TableProperty, margins: TableCellMargins) -> TableProperty { TableProperty { margins: Some(margins), ..this } }
//@fn TableProperty::set_margins r=out
//@| ensures out == sp_TableProperty_set_margins(self, margins),
//@end
pub open spec fn sp_Style_margins(this: Style, margins: TableCellMargins) -> Style { Style { table_property: sp_TableProperty_set_margins(this.table_property, margins), ..this } }
//@fn Style::margins r=out
//@| ensures out == sp_Style_margins(self, margins),
//@end
pub open spec fn sp_TableProperty_set_borders(this: TableProperty, borders: TableBorders) -> TableProperty { TableProperty { borders: borders, ..this } }
//@fn TableProperty::set_borders r=out
//@| ensures out == sp_TableProperty_set_borders(self, borders),
//@end
pub open spec fn sp_Style_set_borders(this: Style, borders: TableBorders) -> Style { Style { table_property: sp_TableProperty_set_borders(this.table_property, borders), ..this } }
//@fn Style::set_borders r=out
//@| ensures out == sp_Style_set_borders(self, borders),
//@end
pub open spec fn sp_TableBorders_set(this: TableBorders, border: TableBorder) -> TableBorders { TableBorders { bottom: (match border.position { TableBorderPosition::Top => this.bottom, TableBorderPosition::Left => this.bottom, TableBorderPosition::Bottom => Some(border), TableBorderPosition::Right => this.bottom, TableBorderPosition::InsideH => this.bottom, TableBorderPosition::InsideV => this.bottom,  }), inside_h: (match border.position { TableBorderPosition::Top => this.inside_h, TableBorderPosition::Left => this.inside_h, TableBorderPosition::Bottom => this.inside_h, TableBorderPosition::Right => this.inside_h, TableBorderPosition::InsideH => Some(border), TableBorderPosition::InsideV => this.inside_h,  }), inside_v: (match border.position { TableBorderPosition::Top => this.inside_v, TableBorderPosition::Left => this.inside_v, TableBorderPosition::Bottom => this.inside_v, TableBorderPosition::Right => this.inside_v, TableBorderPosition::InsideH => this.inside_v, TableBorderPosition::InsideV => Some(border),  }), left: (match border.position { TableBorderPosition::Top => this.left, TableBorderPosition::Left => Some(border), TableBorderPosition::Bottom => this.left, TableBorderPosition::Right => this.left, TableBorderPosition::InsideH => this.left, TableBorderPosition::InsideV => this.left,  }), right: (match border.position { TableBorderPosition::Top => this.right, TableBorderPosition::Left => this.right, TableBorderPosition::Bottom => this.right, TableBorderPosition::Right => Some(border), TableBorderPosition::InsideH => this.right, TableBorderPosition::InsideV => this.right,  }), top: (match border.position { TableBorderPosition::Top => Some(border), TableBorderPosition::Left => this.top, TableBorderPosition::Bottom => this.top, TableBorderPosition::Right => this.top, TableBorderPosition::InsideH => this.top, TableBorderPosition::InsideV => this.top,  }), ..this } }
//@fn TableBorders::set r=out
//@| ensures out == sp_TableBorders_set(self, border),
//@end
pub open spec fn sp_TableProperty_set_border(this: TableProperty, border: TableBorder) -> TableProperty { TableProperty { borders: sp_TableBorders_set(this.borders, border), ..this } }
//@fn TableProperty::set_border r=out
//@| ensures out == sp_TableProperty_set_border(self, border),
//@end
pub open spec fn sp_Style_set_border(this: Style, border: TableBorder) -> Style { Style { table_property: sp_TableProperty_set_border(this.table_property, border), ..this } }
//@fn Style::set_border r=out
//@| ensures out == sp_Style_set_border(self, border),
//@end
pub open spec fn sp_TableBorder_new(position: TableBorderPosition) -> TableBorder { TableBorder { position: position, border_type: BorderType::Single, size: 2, space: 0, color: strv("000000"@) } }
//@fn TableBorder::new r=out
//@| ensures out == sp_TableBorder_new(position),
//@end
pub open spec fn sp_TableBorder_border_type(this: TableBorder, border_type: BorderType) -> TableBorder { TableBorder { border_type: border_type, ..this } }
//@fn TableBorder::border_type r=out
//@| ensures out == sp_TableBorder_border_type(self, border_type),
//@end
pub open spec fn sp_TableBorders_clear(this: TableBorders, position: TableBorderPosition) -> TableBorders { TableBorders { bottom: (match position { TableBorderPosition::Top => this.bottom, TableBorderPosition::Left => this.bottom, TableBorderPosition::Bottom => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)), TableBorderPosition::Right => this.bottom, TableBorderPosition::InsideH => this.bottom, TableBorderPosition::InsideV => this.bottom,  }), inside_h: (match position { TableBorderPosition::Top => this.inside_h, TableBorderPosition::Left => this.inside_h, TableBorderPosition::Bottom => this.inside_h, TableBorderPosition::Right => this.inside_h, TableBorderPosition::InsideH => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)), TableBorderPosition::InsideV => this.inside_h,  }), inside_v: (match position { TableBorderPosition::Top => this.inside_v, TableBorderPosition::Left => this.inside_v, TableBorderPosition::Bottom => this.inside_v, TableBorderPosition::Right => this.inside_v, TableBorderPosition::InsideH => this.inside_v, TableBorderPosition::InsideV => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)),  }), left: (match position { TableBorderPosition::Top => this.left, TableBorderPosition::Left => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)), TableBorderPosition::Bottom => this.left, TableBorderPosition::Right => this.left, TableBorderPosition::InsideH => this.left, TableBorderPosition::InsideV => this.left,  }), right: (match position { TableBorderPosition::Top => this.right, TableBorderPosition::Left => this.right, TableBorderPosition::Bottom => this.right, TableBorderPosition::Right => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)), TableBorderPosition::InsideH => this.right, TableBorderPosition::InsideV => this.right,  }), top: (match position { TableBorderPosition::Top => Some(sp_TableBorder_border_type(sp_TableBorder_new(position), BorderType::Nil)), TableBorderPosition::Left => this.top, TableBorderPosition::Bottom => this.top, TableBorderPosition::Right => this.top, TableBorderPosition::InsideH => this.top, TableBorderPosition::InsideV => this.top,  }), ..this } }
//@fn TableBorders::clear r=out
//@| ensures out == sp_TableBorders_clear(self, position),
//@end
pub open spec fn sp_TableProperty_clear_border(this: TableProperty, position: TableBorderPosition) -> TableProperty { TableProperty { borders: sp_TableBorders_clear(this.borders, position), ..this } }
//@fn TableProperty::clear_border r=out
//@| ensures out == sp_TableProperty_clear_border(self, position),
//@end
pub open spec fn sp_Style_clear_border(this: Style, position: TableBorderPosition) -> Style { Style { table_property: sp_TableProperty_clear_border(this.table_property, position), ..this } }
//@fn Style::clear_border r=out
//@| ensures out == sp_Style_clear_border(self, position),
//@end
pub open spec fn sp_TableBorders_clear_all(this: TableBorders) -> TableBorders { TableBorders { bottom: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::Bottom), BorderType::Nil)), inside_h: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::InsideH), BorderType::Nil)), inside_v: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::InsideV), BorderType::Nil)), left: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::Left), BorderType::Nil)), right: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::Right), BorderType::Nil)), top: Some(sp_TableBorder_border_type(sp_TableBorder_new(TableBorderPosition::Top), BorderType::Nil)), ..this } }
//@fn TableBorders::clear_all r=out
//@| ensures out == sp_TableBorders_clear_all(self),
//@end
pub open spec fn sp_TableProperty_clear_all_border(this: TableProperty) -> TableProperty { TableProperty { borders: sp_TableBorders_clear_all(this.borders), ..this } }
//@fn TableProperty::clear_all_border r=out
//@| ensures out == sp_TableProperty_clear_all_border(self),
//@end
pub open spec fn sp_Style_clear_all_border(this: Style) -> Style { Style { table_property: sp_TableProperty_clear_all_border(this.table_property), ..this } }
//@fn Style::clear_all_border r=out
//@| ensures out == sp_Style_clear_all_border(self),
//@end
pub open spec fn sp_Style_table_cell_property(this: Style, p: TableCellProperty) -> Style { Style { table_cell_property: p, ..this } }
//@fn Style::table_cell_property r=out
//@| ensures out == sp_Style_table_cell_property(self, p),
//@end
pub open spec fn sp_Style_wrap(this: Style, wrap: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { wrap: Some(strv(wrap)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::wrap r=out
//@| ensures out == sp_Style_wrap(self, wrap.chars()),
//@end
pub open spec fn sp_Style_v_anchor(this: Style, anchor: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { v_anchor: Some(strv(anchor)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::v_anchor r=out
//@| ensures out == sp_Style_v_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_Style_h_anchor(this: Style, anchor: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { h_anchor: Some(strv(anchor)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::h_anchor r=out
//@| ensures out == sp_Style_h_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_Style_h_rule(this: Style, r: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { h_rule: Some(strv(r)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::h_rule r=out
//@| ensures out == sp_Style_h_rule(self, r.chars()),
//@end
pub open spec fn sp_Style_x_align(this: Style, align: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { x_align: Some(strv(align)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::x_align r=out
//@| ensures out == sp_Style_x_align(self, align.chars()),
//@end
pub open spec fn sp_Style_y_align(this: Style, align: Seq<char>) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { y_align: Some(strv(align)), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::y_align r=out
//@| ensures out == sp_Style_y_align(self, align.chars()),
//@end
pub open spec fn sp_Style_h_space(this: Style, x: i32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { h_space: Some(x), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::h_space r=out
//@| ensures out == sp_Style_h_space(self, x),
//@end
pub open spec fn sp_Style_v_space(this: Style, x: i32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { v_space: Some(x), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::v_space r=out
//@| ensures out == sp_Style_v_space(self, x),
//@end
pub open spec fn sp_Style_frame_x(this: Style, x: i32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { x: Some(x), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::frame_x r=out
//@| ensures out == sp_Style_frame_x(self, x),
//@end
pub open spec fn sp_Style_frame_y(this: Style, y: i32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { y: Some(y), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::frame_y r=out
//@| ensures out == sp_Style_frame_y(self, y),
//@end
pub open spec fn sp_Style_frame_width(this: Style, n: u32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { w: Some(n), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::frame_width r=out
//@| ensures out == sp_Style_frame_width(self, n),
//@end
pub open spec fn sp_Style_frame_height(this: Style, n: u32) -> Style { Style { paragraph_property: ParagraphProperty { frame_property: Some(FrameProperty { h: Some(n), ..(match this.paragraph_property.frame_property { Some(x) => x, None => dflt::<FrameProperty>() }) }), ..this.paragraph_property }, ..this } }
//@fn Style::frame_height r=out
//@| ensures out == sp_Style_frame_height(self, n),
//@end
pub open spec fn sp_Style_shading(this: Style, shading: Shading) -> Style { Style { run_property: sp_RunProperty_shading(this.run_property, shading), ..this } }
//@fn Style::shading r=out
//@| ensures out == sp_Style_shading(self, shading),
//@end
pub open spec fn sp_Tab_val(this: Tab, v: TabValueType) -> Tab { Tab { val: Some(v), ..this } }
//@fn Tab::val r=out
//@| ensures out == sp_Tab_val(self, v),
//@end
pub open spec fn sp_Tab_leader(this: Tab, v: TabLeaderType) -> Tab { Tab { leader: Some(v), ..this } }
//@fn Tab::leader r=out
//@| ensures out == sp_Tab_leader(self, v),
//@end
pub open spec fn sp_Tab_pos(this: Tab, v: usize) -> Tab { Tab { pos: Some(v), ..this } }
//@fn Tab::pos r=out
//@| ensures out == sp_Tab_pos(self, v),
//@end
pub open spec fn sp_Table_add_row(this: Table, row: TableRow) -> Table { Table { rows: vecv(this.rows@.push(TableChild::TableRow(row))), ..this } }
//@fn Table::add_row r=out
//@| ensures out == sp_Table_add_row(self, row),
//@|   out.rows@ == self.rows@.push(TableChild::TableRow(row)),
//@end
pub open spec fn sp_Table_set_grid(this: Table, grid: Vec<usize>) -> Table { Table { grid: grid, ..this } }
//@fn Table::set_grid r=out
//@| ensures out == sp_Table_set_grid(self, grid),
//@end
pub open spec fn sp_Table_indent(this: Table, v: i32) -> Table { Table { property: sp_TableProperty_indent(this.property, v), ..this } }
//@fn Table::indent r=out
//@| ensures out == sp_Table_indent(self, v),
//@end
pub open spec fn sp_Table_align(this: Table, v: TableAlignmentType) -> Table { Table { property: sp_TableProperty_align(this.property, v), ..this } }
//@fn Table::align r=out
//@| ensures out == sp_Table_align(self, v),
//@end
pub open spec fn sp_Table_style(this: Table, s: Seq<char>) -> Table { Table { property: sp_TableProperty_style(this.property, s), ..this } }
//@fn Table::style r=out
//@| ensures out == sp_Table_style(self, s.chars()),
//@end
pub open spec fn sp_Table_layout(this: Table, t: TableLayoutType) -> Table { Table { property: sp_TableProperty_layout(this.property, t), ..this } }
//@fn Table::layout r=out
//@| ensures out == sp_Table_layout(self, t),
//@end
pub open spec fn sp_TableProperty_position(this: TableProperty, p: TablePositionProperty) -> TableProperty { TableProperty { position: Some(p), ..this } }
//@fn TableProperty::position r=out
//@| ensures out == sp_TableProperty_position(self, p),
//@end
pub open spec fn sp_Table_position(this: Table, p: TablePositionProperty) -> Table { Table { property: sp_TableProperty_position(this.property, p), ..this } }
//@fn Table::position r=out
//@| ensures out == sp_Table_position(self, p),
//@end
pub open spec fn sp_Table_width(this: Table, w: usize, t: WidthType) -> Table { Table { property: sp_TableProperty_width(this.property, w, t), ..this } }
//@fn Table::width r=out
//@| ensures out == sp_Table_width(self, w, t),
//@end
pub open spec fn sp_Table_margins(this: Table, margins: TableCellMargins) -> Table { Table { property: sp_TableProperty_set_margins(this.property, margins), ..this } }
//@fn Table::margins r=out
//@| ensures out == sp_Table_margins(self, margins),
//@end
pub open spec fn sp_Table_set_borders(this: Table, borders: TableBorders) -> Table { Table { property: sp_TableProperty_set_borders(this.property, borders), ..this } }
//@fn Table::set_borders r=out
//@| ensures out == sp_Table_set_borders(self, borders),
//@end
pub open spec fn sp_Table_set_border(this: Table, border: TableBorder) -> Table { Table { property: sp_TableProperty_set_border(this.property, border), ..this } }
//@fn Table::set_border r=out
//@| ensures out == sp_Table_set_border(self, border),
//@end
pub open spec fn sp_Table_clear_border(this: Table, position: TableBorderPosition) -> Table { Table { property: sp_TableProperty_clear_border(this.property, position), ..this } }
//@fn Table::clear_border r=out
//@| ensures out == sp_Table_clear_border(self, position),
//@end
pub open spec fn sp_Table_clear_all_border(this: Table) -> Table { Table { property: sp_TableProperty_clear_all_border(this.property), ..this } }
//@fn Table::clear_all_border r=out
//@| ensures out == sp_Table_clear_all_border(self),
//@end
pub open spec fn sp_TableBorder_color(this: TableBorder, color: Seq<char>) -> TableBorder { TableBorder { color: strv(color), ..this } }
//@fn TableBorder::color r=out
//@| ensures out == sp_TableBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TableBorder_size(this: TableBorder, size: usize) -> TableBorder { TableBorder { size: size, ..this } }
//@fn TableBorder::size r=out
//@| ensures out == sp_TableBorder_size(self, size),
//@end
pub open spec fn sp_TableCell_add_paragraph(this: TableCell, p: Paragraph) -> TableCell { TableCell { children: vecv(this.children@.push(TableCellContent::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn TableCell::add_paragraph r=out
//@| ensures out == sp_TableCell_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(TableCellContent::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_TableCell_add_table_of_contents(this: TableCell, t: TableOfContents) -> TableCell { TableCell { children: vecv(this.children@.push(TableCellContent::TableOfContents(Box::new(t)))), ..this } }
//@fn TableCell::add_table_of_contents r=out
//@| ensures out == sp_TableCell_add_table_of_contents(self, t),
//@|   out.children@ == self.children@.push(TableCellContent::TableOfContents(Box::new(t))),
//@end
pub open spec fn sp_TableCell_add_structured_data_tag(this: TableCell, t: StructuredDataTag) -> TableCell { TableCell { children: vecv(this.children@.push(TableCellContent::StructuredDataTag(Box::new(t)))), ..this } }
//@fn TableCell::add_structured_data_tag r=out
//@| ensures out == sp_TableCell_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(TableCellContent::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_TableCell_add_table(this: TableCell, t: Table) -> TableCell { TableCell { children: vecv(this.children@.push(TableCellContent::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn TableCell::add_table r=out
//@| ensures out == sp_TableCell_add_table(self, t),
//@|   out.children@ == self.children@.push(TableCellContent::Table(Box::new(t))),
//@end
pub open spec fn sp_VMerge_new(v: VMergeType) -> VMerge { VMerge { val: v } }
//@fn VMerge::new r=out
//@| ensures out == sp_VMerge_new(v),
//@end
pub open spec fn sp_TableCellProperty_vertical_merge(this: TableCellProperty, t: VMergeType) -> TableCellProperty { TableCellProperty { vertical_merge: Some(sp_VMerge_new(t)), ..this } }
//@fn TableCellProperty::vertical_merge r=out
//@| ensures out == sp_TableCellProperty_vertical_merge(self, t),
//@end
pub open spec fn sp_TableCell_vertical_merge(this: TableCell, t: VMergeType) -> TableCell { TableCell { property: sp_TableCellProperty_vertical_merge(this.property, t), ..this } }
//@fn TableCell::vertical_merge r=out
//@| ensures out == sp_TableCell_vertical_merge(self, t),
//@end
pub open spec fn sp_TableCellProperty_shading(this: TableCellProperty, s: Shading) -> TableCellProperty { TableCellProperty { shading: Some(s), ..this } }
//@fn TableCellProperty::shading r=out
//@| ensures out == sp_TableCellProperty_shading(self, s),
//@end
pub open spec fn sp_TableCell_shading(this: TableCell, s: Shading) -> TableCell { TableCell { property: sp_TableCellProperty_shading(this.property, s), ..this } }
//@fn TableCell::shading r=out
//@| ensures out == sp_TableCell_shading(self, s),
//@end
pub open spec fn sp_VAlign_new(v: VAlignType) -> VAlign { VAlign { val: v } }
//@fn VAlign::new r=out
//@| ensures out == sp_VAlign_new(v),
//@end
pub open spec fn sp_TableCellProperty_vertical_align(this: TableCellProperty, t: VAlignType) -> TableCellProperty { TableCellProperty { vertical_align: Some(sp_VAlign_new(t)), ..this } }
//@fn TableCellProperty::vertical_align r=out
//@| ensures out == sp_TableCellProperty_vertical_align(self, t),
//@end
pub open spec fn sp_TableCell_vertical_align(this: TableCell, t: VAlignType) -> TableCell { TableCell { property: sp_TableCellProperty_vertical_align(this.property, t), ..this } }
//@fn TableCell::vertical_align r=out
//@| ensures out == sp_TableCell_vertical_align(self, t),
//@end
pub open spec fn sp_TextDirection_new(t: TextDirectionType) -> TextDirection { TextDirection { val: t } }
//@fn TextDirection::new r=out
//@| ensures out == sp_TextDirection_new(t),
//@end
pub open spec fn sp_TableCellProperty_text_direction(this: TableCellProperty, t: TextDirectionType) -> TableCellProperty { TableCellProperty { text_direction: Some(sp_TextDirection_new(t)), ..this } }
//@fn TableCellProperty::text_direction r=out
//@| ensures out == sp_TableCellProperty_text_direction(self, t),
//@end
pub open spec fn sp_TableCell_text_direction(this: TableCell, t: TextDirectionType) -> TableCell { TableCell { property: sp_TableCellProperty_text_direction(this.property, t), ..this } }
//@fn TableCell::text_direction r=out
//@| ensures out == sp_TableCell_text_direction(self, t),
//@end
pub open spec fn sp_GridSpan_new(v: usize) -> GridSpan { GridSpan { val: v } }
//@fn GridSpan::new r=out
//@| ensures out == sp_GridSpan_new(v),
//@end
pub open spec fn sp_TableCellProperty_grid_span(this: TableCellProperty, v: usize) -> TableCellProperty { TableCellProperty { grid_span: Some(sp_GridSpan_new(v)), ..this } }
//@fn TableCellProperty::grid_span r=out
//@| ensures out == sp_TableCellProperty_grid_span(self, v),
//@end
pub open spec fn sp_TableCell_grid_span(this: TableCell, v: usize) -> TableCell { TableCell { property: sp_TableCellProperty_grid_span(this.property, v), ..this } }
//@fn TableCell::grid_span r=out
//@| ensures out == sp_TableCell_grid_span(self, v),
//@end
pub open spec fn sp_TableCellWidth_new(width: usize, width_type: WidthType) -> TableCellWidth { TableCellWidth { width: width, width_type: width_type } }
//@fn TableCellWidth::new r=out
//@| ensures out == sp_TableCellWidth_new(width, width_type),
//@end
pub open spec fn sp_TableCellProperty_width(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { width: Some(sp_TableCellWidth_new(v, t)), ..this } }
//@fn TableCellProperty::width r=out
//@| ensures out == sp_TableCellProperty_width(self, v, t),
//@end
pub open spec fn sp_TableCell_width(this: TableCell, v: usize, t: WidthType) -> TableCell { TableCell { property: sp_TableCellProperty_width(this.property, v, t), ..this } }
//@fn TableCell::width r=out
//@| ensures out == sp_TableCell_width(self, v, t),
//@end
pub open spec fn sp_TableCellBorders_set(this: TableCellBorders, border: TableCellBorder) -> TableCellBorders { TableCellBorders { bottom: (match border.position { TableCellBorderPosition::Top => this.bottom, TableCellBorderPosition::Left => this.bottom, TableCellBorderPosition::Bottom => Some(border), TableCellBorderPosition::Right => this.bottom, TableCellBorderPosition::InsideH => this.bottom, TableCellBorderPosition::InsideV => this.bottom, TableCellBorderPosition::Tr2bl => this.bottom, TableCellBorderPosition::Tl2br => this.bottom,  }), inside_h: (match border.position { TableCellBorderPosition::Top => this.inside_h, TableCellBorderPosition::Left => this.inside_h, TableCellBorderPosition::Bottom => this.inside_h, TableCellBorderPosition::Right => this.inside_h, TableCellBorderPosition::InsideH => Some(border), TableCellBorderPosition::InsideV => this.inside_h, TableCellBorderPosition::Tr2bl => this.inside_h, TableCellBorderPosition::Tl2br => this.inside_h,  }), inside_v: (match border.position { TableCellBorderPosition::Top => this.inside_v, TableCellBorderPosition::Left => this.inside_v, TableCellBorderPosition::Bottom => this.inside_v, TableCellBorderPosition::Right => this.inside_v, TableCellBorderPosition::InsideH => this.inside_v, TableCellBorderPosition::InsideV => Some(border), TableCellBorderPosition::Tr2bl => this.inside_v, TableCellBorderPosition::Tl2br => this.inside_v,  }), left: (match border.position { TableCellBorderPosition::Top => this.left, TableCellBorderPosition::Left => Some(border), TableCellBorderPosition::Bottom => this.left, TableCellBorderPosition::Right => this.left, TableCellBorderPosition::InsideH => this.left, TableCellBorderPosition::InsideV => this.left, TableCellBorderPosition::Tr2bl => this.left, TableCellBorderPosition::Tl2br => this.left,  }), right: (match border.position { TableCellBorderPosition::Top => this.right, TableCellBorderPosition::Left => this.right, TableCellBorderPosition::Bottom => this.right, TableCellBorderPosition::Right => Some(border), TableCellBorderPosition::InsideH => this.right, TableCellBorderPosition::InsideV => this.right, TableCellBorderPosition::Tr2bl => this.right, TableCellBorderPosition::Tl2br => this.right,  }), tl2br: (match border.position { TableCellBorderPosition::Top => this.tl2br, TableCellBorderPosition::Left => this.tl2br, TableCellBorderPosition::Bottom => this.tl2br, TableCellBorderPosition::Right => this.tl2br, TableCellBorderPosition::InsideH => this.tl2br, TableCellBorderPosition::InsideV => this.tl2br, TableCellBorderPosition::Tr2bl => this.tl2br, TableCellBorderPosition::Tl2br => Some(border),  }), top: (match border.position { TableCellBorderPosition::Top => Some(border), TableCellBorderPosition::Left => this.top, TableCellBorderPosition::Bottom => this.top, TableCellBorderPosition::Right => this.top, TableCellBorderPosition::InsideH => this.top, TableCellBorderPosition::InsideV => this.top, TableCellBorderPosition::Tr2bl => this.top, TableCellBorderPosition::Tl2br => this.top,  }), tr2bl: (match border.position { TableCellBorderPosition::Top => this.tr2bl, TableCellBorderPosition::Left => this.tr2bl, TableCellBorderPosition::Bottom => this.tr2bl, TableCellBorderPosition::Right => this.tr2bl, TableCellBorderPosition::InsideH => this.tr2bl, TableCellBorderPosition::InsideV => this.tr2bl, TableCellBorderPosition::Tr2bl => Some(border), TableCellBorderPosition::Tl2br => this.tr2bl,  }), ..this } }
//@fn TableCellBorders::set r=out
//@| ensures out == sp_TableCellBorders_set(self, border),
//@end
pub open spec fn sp_TableCellProperty_set_border(this: TableCellProperty, border: TableCellBorder) -> TableCellProperty { TableCellProperty { borders: Some(sp_TableCellBorders_set((match this.borders { Some(x) => x, None => dflt::<TableCellBorders>() }), border)), ..this } }
//@fn TableCellProperty::set_border r=out
//@| ensures out == sp_TableCellProperty_set_border(self, border),
//@end
pub open spec fn sp_TableCell_set_border(this: TableCell, border: TableCellBorder) -> TableCell { TableCell { property: sp_TableCellProperty_set_border(this.property, border), ..this } }
//@fn TableCell::set_border r=out
//@| ensures out == sp_TableCell_set_border(self, border),
//@end
pub open spec fn sp_TableCellProperty_set_borders(this: TableCellProperty, borders: TableCellBorders) -> TableCellProperty { TableCellProperty { borders: Some(borders), ..this } }
//@fn TableCellProperty::set_borders r=out
//@| ensures out == sp_TableCellProperty_set_borders(self, borders),
//@end
pub open spec fn sp_TableCell_set_borders(this: TableCell, borders: TableCellBorders) -> TableCell { TableCell { property: sp_TableCellProperty_set_borders(this.property, borders), ..this } }
//@fn TableCell::set_borders r=out
//@| ensures out == sp_TableCell_set_borders(self, borders),
//@end
pub open spec fn sp_TableCellBorder_new(position: TableCellBorderPosition) -> TableCellBorder { TableCellBorder { position: position, border_type: BorderType::Single, size: 2, space: 0, color: strv("000000"@) } }
//@fn TableCellBorder::new r=out
//@| ensures out == sp_TableCellBorder_new(position),
//@end
pub open spec fn sp_TableCellBorder_border_type(this: TableCellBorder, border_type: BorderType) -> TableCellBorder { TableCellBorder { border_type: border_type, ..this } }
//@fn TableCellBorder::border_type r=out
//@| ensures out == sp_TableCellBorder_border_type(self, border_type),
//@end
pub open spec fn sp_TableCellBorders_clear(this: TableCellBorders, position: TableCellBorderPosition) -> TableCellBorders { TableCellBorders { bottom: (match position { TableCellBorderPosition::Top => this.bottom, TableCellBorderPosition::Left => this.bottom, TableCellBorderPosition::Bottom => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::Right => this.bottom, TableCellBorderPosition::InsideH => this.bottom, TableCellBorderPosition::InsideV => this.bottom, TableCellBorderPosition::Tr2bl => this.bottom, TableCellBorderPosition::Tl2br => this.bottom,  }), inside_h: (match position { TableCellBorderPosition::Top => this.inside_h, TableCellBorderPosition::Left => this.inside_h, TableCellBorderPosition::Bottom => this.inside_h, TableCellBorderPosition::Right => this.inside_h, TableCellBorderPosition::InsideH => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::InsideV => this.inside_h, TableCellBorderPosition::Tr2bl => this.inside_h, TableCellBorderPosition::Tl2br => this.inside_h,  }), inside_v: (match position { TableCellBorderPosition::Top => this.inside_v, TableCellBorderPosition::Left => this.inside_v, TableCellBorderPosition::Bottom => this.inside_v, TableCellBorderPosition::Right => this.inside_v, TableCellBorderPosition::InsideH => this.inside_v, TableCellBorderPosition::InsideV => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::Tr2bl => this.inside_v, TableCellBorderPosition::Tl2br => this.inside_v,  }), left: (match position { TableCellBorderPosition::Top => this.left, TableCellBorderPosition::Left => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::Bottom => this.left, TableCellBorderPosition::Right => this.left, TableCellBorderPosition::InsideH => this.left, TableCellBorderPosition::InsideV => this.left, TableCellBorderPosition::Tr2bl => this.left, TableCellBorderPosition::Tl2br => this.left,  }), right: (match position { TableCellBorderPosition::Top => this.right, TableCellBorderPosition::Left => this.right, TableCellBorderPosition::Bottom => this.right, TableCellBorderPosition::Right => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::InsideH => this.right, TableCellBorderPosition::InsideV => this.right, TableCellBorderPosition::Tr2bl => this.right, TableCellBorderPosition::Tl2br => this.right,  }), tl2br: (match position { TableCellBorderPosition::Top => this.tl2br, TableCellBorderPosition::Left => this.tl2br, TableCellBorderPosition::Bottom => this.tl2br, TableCellBorderPosition::Right => this.tl2br, TableCellBorderPosition::InsideH => this.tl2br, TableCellBorderPosition::InsideV => this.tl2br, TableCellBorderPosition::Tr2bl => this.tl2br, TableCellBorderPosition::Tl2br => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)),  }), top: (match position { TableCellBorderPosition::Top => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::Left => this.top, TableCellBorderPosition::Bottom => this.top, TableCellBorderPosition::Right => this.top, TableCellBorderPosition::InsideH => this.top, TableCellBorderPosition::InsideV => this.top, TableCellBorderPosition::Tr2bl => this.top, TableCellBorderPosition::Tl2br => this.top,  }), tr2bl: (match position { TableCellBorderPosition::Top => this.tr2bl, TableCellBorderPosition::Left => this.tr2bl, TableCellBorderPosition::Bottom => this.tr2bl, TableCellBorderPosition::Right => this.tr2bl, TableCellBorderPosition::InsideH => this.tr2bl, TableCellBorderPosition::InsideV => this.tr2bl, TableCellBorderPosition::Tr2bl => Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(position), BorderType::Nil)), TableCellBorderPosition::Tl2br => this.tr2bl,  }), ..this } }
//@fn TableCellBorders::clear r=out
//@| ensures out == sp_TableCellBorders_clear(self, position),
//@end
pub open spec fn sp_TableCellProperty_clear_border(this: TableCellProperty, position: TableCellBorderPosition) -> TableCellProperty { TableCellProperty { borders: Some(sp_TableCellBorders_clear((match this.borders { Some(x) => x, None => dflt::<TableCellBorders>() }), position)), ..this } }
//@fn TableCellProperty::clear_border r=out
//@| ensures out == sp_TableCellProperty_clear_border(self, position),
//@end
pub open spec fn sp_TableCell_clear_border(this: TableCell, position: TableCellBorderPosition) -> TableCell { TableCell { property: sp_TableCellProperty_clear_border(this.property, position), ..this } }
//@fn TableCell::clear_border r=out
//@| ensures out == sp_TableCell_clear_border(self, position),
//@end
pub open spec fn sp_TableCellBorders_clear_all(this: TableCellBorders) -> TableCellBorders { TableCellBorders { bottom: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Bottom), BorderType::Nil)), inside_h: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::InsideH), BorderType::Nil)), inside_v: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::InsideV), BorderType::Nil)), left: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Left), BorderType::Nil)), right: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Right), BorderType::Nil)), tl2br: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Tl2br), BorderType::Nil)), top: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Top), BorderType::Nil)), tr2bl: Some(sp_TableCellBorder_border_type(sp_TableCellBorder_new(TableCellBorderPosition::Tr2bl), BorderType::Nil)), ..this } }
//@fn TableCellBorders::clear_all r=out
//@| ensures out == sp_TableCellBorders_clear_all(self),
//@end
pub open spec fn sp_TableCellProperty_clear_all_border(this: TableCellProperty) -> TableCellProperty { TableCellProperty { borders: Some(sp_TableCellBorders_clear_all((match this.borders { Some(x) => x, None => dflt::<TableCellBorders>() }))), ..this } }
//@fn TableCellProperty::clear_all_border r=out
//@| ensures out == sp_TableCellProperty_clear_all_border(self),
//@end
pub open spec fn sp_TableCell_clear_all_border(this: TableCell) -> TableCell { TableCell { property: sp_TableCellProperty_clear_all_border(this.property), ..this } }
//@fn TableCell::clear_all_border r=out
//@| ensures out == sp_TableCell_clear_all_border(self),
//@end
pub open spec fn sp_TableCellBorder_color(this: TableCellBorder, color: Seq<char>) -> TableCellBorder { TableCellBorder { color: strv(color), ..this } }
//@fn TableCellBorder::color r=out
//@| ensures out == sp_TableCellBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TableCellBorder_size(this: TableCellBorder, size: usize) -> TableCellBorder { TableCellBorder { size: size, ..this } }
//@fn TableCellBorder::size r=out
//@| ensures out == sp_TableCellBorder_size(self, size),
//@end
pub open spec fn sp_TableCellMargins_margin(this: TableCellMargins, top: usize, right: usize, bottom: usize, left: usize) -> TableCellMargins { TableCellMargins { top: sp_CellMargin_new(top, WidthType::Dxa), left: sp_CellMargin_new(left, WidthType::Dxa), bottom: sp_CellMargin_new(bottom, WidthType::Dxa), right: sp_CellMargin_new(right, WidthType::Dxa) } }
//@fn TableCellMargins::margin r=out
//@| ensures out == sp_TableCellMargins_margin(self, top, right, bottom, left),
//@end
pub open spec fn sp_TableCellMargins_margin_top(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { top: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_top r=out
//@| ensures out == sp_TableCellMargins_margin_top(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_right(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { right: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_right r=out
//@| ensures out == sp_TableCellMargins_margin_right(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_left(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { left: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_left r=out
//@| ensures out == sp_TableCellMargins_margin_left(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_bottom(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { bottom: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_bottom r=out
//@| ensures out == sp_TableCellMargins_margin_bottom(self, v, t),
//@end
pub open spec fn sp_TableCellProperty_margins(this: TableCellProperty, margins: CellMargins) -> TableCellProperty { TableCellProperty { margins: Some(margins), ..this } }
//@fn TableCellProperty::margins r=out
//@| ensures out == sp_TableCellProperty_margins(self, margins),
//@end
pub open spec fn sp_CellMargins_new() -> CellMargins { dflt::<CellMargins>() }
//@fn CellMargins::new r=out
//@| ensures out == sp_CellMargins_new(),
//@end
pub open spec fn sp_TableCellProperty_margin_top(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { margins: (match this.margins { Some(margins) => Some(sp_CellMargins_margin_top(margins, v, t)), None => Some(sp_CellMargins_margin_top(sp_CellMargins_new(), v, t)) }), ..this } }
//@fn TableCellProperty::margin_top r=out
//@| ensures out == sp_TableCellProperty_margin_top(self, v, t),
//@end
pub open spec fn sp_TableCellProperty_margin_right(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { margins: (match this.margins { Some(margins) => Some(sp_CellMargins_margin_right(margins, v, t)), None => Some(sp_CellMargins_margin_right(sp_CellMargins_new(), v, t)) }), ..this } }
//@fn TableCellProperty::margin_right r=out
//@| ensures out == sp_TableCellProperty_margin_right(self, v, t),
//@end
pub open spec fn sp_TableCellProperty_margin_bottom(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { margins: (match this.margins { Some(margins) => Some(sp_CellMargins_margin_bottom(margins, v, t)), None => Some(sp_CellMargins_margin_bottom(sp_CellMargins_new(), v, t)) }), ..this } }
//@fn TableCellProperty::margin_bottom r=out
//@| ensures out == sp_TableCellProperty_margin_bottom(self, v, t),
//@end
pub open spec fn sp_TableCellProperty_margin_left(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { margins: (match this.margins { Some(margins) => Some(sp_CellMargins_margin_left(margins, v, t)), None => Some(sp_CellMargins_margin_left(sp_CellMargins_new(), v, t)) }), ..this } }
//@fn TableCellProperty::margin_left r=out
//@| ensures out == sp_TableCellProperty_margin_left(self, v, t),
//@end
pub open spec fn sp_TableOfContents_heading_styles_range(this: TableOfContents, start: usize, end: usize) -> TableOfContents { TableOfContents { instr: sp_InstrToC_heading_styles_range(this.instr, start, end), ..this } }
//@fn TableOfContents::heading_styles_range r=out
//@| ensures out == sp_TableOfContents_heading_styles_range(self, start, end),
//@end
pub open spec fn sp_TableOfContents_tc_field_identifier(this: TableOfContents, f: Option<String>) -> TableOfContents { TableOfContents { instr: sp_InstrToC_tc_field_identifier(this.instr, f), ..this } }
//@fn TableOfContents::tc_field_identifier r=out
//@| ensures out == sp_TableOfContents_tc_field_identifier(self, f),
//@end
pub open spec fn sp_TableOfContents_add_style_with_level(this: TableOfContents, s: StyleWithLevel) -> TableOfContents { TableOfContents { instr: sp_InstrToC_add_style_with_level(this.instr, s), ..this } }
//@fn TableOfContents::add_style_with_level r=out
//@| ensures out == sp_TableOfContents_add_style_with_level(self, s),
//@end
pub open spec fn sp_TableOfContents_hyperlink(this: TableOfContents) -> TableOfContents { TableOfContents { instr: sp_InstrToC_hyperlink(this.instr), ..this } }
//@fn TableOfContents::hyperlink r=out
//@| ensures out == sp_TableOfContents_hyperlink(self),
//@end
pub open spec fn sp_TableOfContents_alias(this: TableOfContents, a: Seq<char>) -> TableOfContents { TableOfContents { alias: Some(strv(a)), ..this } }
//@fn TableOfContents::alias r=out
//@| ensures out == sp_TableOfContents_alias(self, a.chars()),
//@end
pub open spec fn sp_TableOfContents_delete(this: TableOfContents, author: Seq<char>, date: Seq<char>) -> TableOfContents { TableOfContents { delete: Some(TableOfContentsReviewData { author: escaped(author), date: strv(date) }), ..this } }
//@fn TableOfContents::delete r=out
//@| ensures out == sp_TableOfContents_delete(self, author.chars(), date.chars()),
//@end
pub open spec fn sp_TableOfContents_add_item(this: TableOfContents, t: TableOfContentsItem) -> TableOfContents { TableOfContents { items: vecv(this.items@.push(t)), ..this } }
//@fn TableOfContents::add_item r=out
//@| ensures out == sp_TableOfContents_add_item(self, t),
//@|   out.items@ == self.items@.push(t),
//@end
pub open spec fn sp_TableOfContents_auto(this: TableOfContents) -> TableOfContents { TableOfContents { auto: true, ..this } }
//@fn TableOfContents::auto r=out
//@| ensures out == sp_TableOfContents_auto(self),
//@end
pub open spec fn sp_TableOfContents_dirty(this: TableOfContents) -> TableOfContents { TableOfContents { dirty: true, ..this } }
//@fn TableOfContents::dirty r=out
//@| ensures out == sp_TableOfContents_dirty(self),
//@end
pub open spec fn sp_TableOfContents_add_before_paragraph(this: TableOfContents, p: Paragraph) -> TableOfContents { TableOfContents { before_contents: vecv(this.before_contents@.push(TocContent::Paragraph(Box::new(p)))), ..this } }
//@fn TableOfContents::add_before_paragraph r=out
//@| ensures out == sp_TableOfContents_add_before_paragraph(self, p),
//@|   out.before_contents@ == self.before_contents@.push(TocContent::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_TableOfContents_add_after_paragraph(this: TableOfContents, p: Paragraph) -> TableOfContents { TableOfContents { after_contents: vecv(this.after_contents@.push(TocContent::Paragraph(Box::new(p)))), ..this } }
//@fn TableOfContents::add_after_paragraph r=out
//@| ensures out == sp_TableOfContents_add_after_paragraph(self, p),
//@|   out.after_contents@ == self.after_contents@.push(TocContent::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_TableOfContents_add_before_table(this: TableOfContents, t: Table) -> TableOfContents { TableOfContents { before_contents: vecv(this.before_contents@.push(TocContent::Table(Box::new(t)))), ..this } }
//@fn TableOfContents::add_before_table r=out
//@| ensures out == sp_TableOfContents_add_before_table(self, t),
//@|   out.before_contents@ == self.before_contents@.push(TocContent::Table(Box::new(t))),
//@end
pub open spec fn sp_TableOfContents_add_after_table(this: TableOfContents, t: Table) -> TableOfContents { TableOfContents { after_contents: vecv(this.after_contents@.push(TocContent::Table(Box::new(t)))), ..this } }
//@fn TableOfContents::add_after_table r=out
//@| ensures out == sp_TableOfContents_add_after_table(self, t),
//@|   out.after_contents@ == self.after_contents@.push(TocContent::Table(Box::new(t))),
//@end
pub open spec fn sp_TableOfContents_without_sdt(this: TableOfContents) -> TableOfContents { TableOfContents { without_sdt: true, ..this } }
//@fn TableOfContents::without_sdt r=out
//@| ensures out == sp_TableOfContents_without_sdt(self),
//@end
pub open spec fn sp_TableOfContents_paragraph_property(this: TableOfContents, p: ParagraphProperty) -> TableOfContents { TableOfContents { paragraph_property: Some(p), ..this } }
//@fn TableOfContents::paragraph_property r=out
//@| ensures out == sp_TableOfContents_paragraph_property(self, p),
//@end
pub open spec fn sp_TableOfContentsItem_instr(this: TableOfContentsItem, instr: InstrToC) -> TableOfContentsItem { TableOfContentsItem { instr: instr, ..this } }
//@fn TableOfContentsItem::instr r=out
//@| ensures out == sp_TableOfContentsItem_instr(self, instr),
//@end
pub open spec fn sp_TableOfContentsItem_text(this: TableOfContentsItem, text: Seq<char>) -> TableOfContentsItem { TableOfContentsItem { text: strv(text), ..this } }
//@fn TableOfContentsItem::text r=out
//@| ensures out == sp_TableOfContentsItem_text(self, text.chars()),
//@end
pub open spec fn sp_TableOfContentsItem_level(this: TableOfContentsItem, level: usize) -> TableOfContentsItem { TableOfContentsItem { level: level, ..this } }
//@fn TableOfContentsItem::level r=out
//@| ensures out == sp_TableOfContentsItem_level(self, level),
//@end
pub open spec fn sp_TableOfContentsItem_toc_key(this: TableOfContentsItem, key: Seq<char>) -> TableOfContentsItem { TableOfContentsItem { toc_key: strv(key), ..this } }
//@fn TableOfContentsItem::toc_key r=out
//@| ensures out == sp_TableOfContentsItem_toc_key(self, key.chars()),
//@end
pub open spec fn sp_TableOfContentsItem_page_ref(this: TableOfContentsItem, r: Seq<char>) -> TableOfContentsItem { TableOfContentsItem { page_ref: Some(strv(r)), ..this } }
//@fn TableOfContentsItem::page_ref r=out
//@| ensures out == sp_TableOfContentsItem_page_ref(self, r.chars()),
//@end
pub open spec fn sp_TablePositionProperty_left_from_text(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { left_from_text: Some(v), ..this } }
//@fn TablePositionProperty::left_from_text r=out
//@| ensures out == sp_TablePositionProperty_left_from_text(self, v),
//@end
pub open spec fn sp_TablePositionProperty_right_from_text(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { right_from_text: Some(v), ..this } }
//@fn TablePositionProperty::right_from_text r=out
//@| ensures out == sp_TablePositionProperty_right_from_text(self, v),
//@end
pub open spec fn sp_TablePositionProperty_vertical_anchor(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { vertical_anchor: Some(strv(v)), ..this } }
//@fn TablePositionProperty::vertical_anchor r=out
//@| ensures out == sp_TablePositionProperty_vertical_anchor(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_horizontal_anchor(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { horizontal_anchor: Some(strv(v)), ..this } }
//@fn TablePositionProperty::horizontal_anchor r=out
//@| ensures out == sp_TablePositionProperty_horizontal_anchor(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_x_alignment(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { position_x_alignment: Some(strv(v)), ..this } }
//@fn TablePositionProperty::position_x_alignment r=out
//@| ensures out == sp_TablePositionProperty_position_x_alignment(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_y_alignment(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { position_y_alignment: Some(strv(v)), ..this } }
//@fn TablePositionProperty::position_y_alignment r=out
//@| ensures out == sp_TablePositionProperty_position_y_alignment(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_x(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { position_x: Some(v), ..this } }
//@fn TablePositionProperty::position_x r=out
//@| ensures out == sp_TablePositionProperty_position_x(self, v),
//@end
pub open spec fn sp_TablePositionProperty_position_y(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { position_y: Some(v), ..this } }
//@fn TablePositionProperty::position_y r=out
//@| ensures out == sp_TablePositionProperty_position_y(self, v),
//@end
pub open spec fn sp_TableCellMargins_new() -> TableCellMargins { dflt::<TableCellMargins>() }
//@fn TableCellMargins::new r=out
//@| ensures out == sp_TableCellMargins_new(),
//@end
pub open spec fn sp_TableProperty_cell_margin_top(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { margins: (match this.margins { Some(margins) => Some(sp_TableCellMargins_margin_top(margins, v, t)), None => Some(sp_TableCellMargins_margin_top(sp_TableCellMargins_new(), v, t)) }), ..this } }
//@fn TableProperty::cell_margin_top r=out
//@| ensures out == sp_TableProperty_cell_margin_top(self, v, t),
//@end
pub open spec fn sp_TableProperty_cell_margin_right(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { margins: (match this.margins { Some(margins) => Some(sp_TableCellMargins_margin_right(margins, v, t)), None => Some(sp_TableCellMargins_margin_right(sp_TableCellMargins_new(), v, t)) }), ..this } }
//@fn TableProperty::cell_margin_right r=out
//@| ensures out == sp_TableProperty_cell_margin_right(self, v, t),
//@end
pub open spec fn sp_TableProperty_cell_margin_bottom(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { margins: (match this.margins { Some(margins) => Some(sp_TableCellMargins_margin_bottom(margins, v, t)), None => Some(sp_TableCellMargins_margin_bottom(sp_TableCellMargins_new(), v, t)) }), ..this } }
//@fn TableProperty::cell_margin_bottom r=out
//@| ensures out == sp_TableProperty_cell_margin_bottom(self, v, t),
//@end
pub open spec fn sp_TableProperty_cell_margin_left(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { margins: (match this.margins { Some(margins) => Some(sp_TableCellMargins_margin_left(margins, v, t)), None => Some(sp_TableCellMargins_margin_left(sp_TableCellMargins_new(), v, t)) }), ..this } }
//@fn TableProperty::cell_margin_left r=out
//@| ensures out == sp_TableProperty_cell_margin_left(self, v, t),
//@end
pub open spec fn sp_TableRowProperty_grid_after(this: TableRowProperty, after: u32) -> TableRowProperty { TableRowProperty { grid_after: Some(after), ..this } }
//@fn TableRowProperty::grid_after r=out
//@| ensures out == sp_TableRowProperty_grid_after(self, after),
//@end
pub open spec fn sp_TableRow_grid_after(this: TableRow, grid_after: u32) -> TableRow { TableRow { property: sp_TableRowProperty_grid_after(this.property, grid_after), ..this } }
//@fn TableRow::grid_after r=out
//@| ensures out == sp_TableRow_grid_after(self, grid_after),
//@end
pub open spec fn sp_TableRowProperty_width_after(this: TableRowProperty, w: f32) -> TableRowProperty { TableRowProperty { width_after: Some(w), ..this } }
//@fn TableRowProperty::width_after r=out
//@| ensures out == sp_TableRowProperty_width_after(self, w),
//@end
pub open spec fn sp_TableRow_width_after(this: TableRow, w: f32) -> TableRow { TableRow { property: sp_TableRowProperty_width_after(this.property, w), ..this } }
//@fn TableRow::width_after r=out
//@| ensures out == sp_TableRow_width_after(self, w),
//@end
pub open spec fn sp_TableRowProperty_grid_before(this: TableRowProperty, before: u32) -> TableRowProperty { TableRowProperty { grid_before: Some(before), ..this } }
//@fn TableRowProperty::grid_before r=out
//@| ensures out == sp_TableRowProperty_grid_before(self, before),
//@end
pub open spec fn sp_TableRow_grid_before(this: TableRow, grid_before: u32) -> TableRow { TableRow { property: sp_TableRowProperty_grid_before(this.property, grid_before), ..this } }
//@fn TableRow::grid_before r=out
//@| ensures out == sp_TableRow_grid_before(self, grid_before),
//@end
pub open spec fn sp_TableRowProperty_width_before(this: TableRowProperty, w: f32) -> TableRowProperty { TableRowProperty { width_before: Some(w), ..this } }
//@fn TableRowProperty::width_before r=out
//@| ensures out == sp_TableRowProperty_width_before(self, w),
//@end
pub open spec fn sp_TableRow_width_before(this: TableRow, w: f32) -> TableRow { TableRow { property: sp_TableRowProperty_width_before(this.property, w), ..this } }
//@fn TableRow::width_before r=out
//@| ensures out == sp_TableRow_width_before(self, w),
//@end
pub open spec fn sp_TableRowProperty_row_height(this: TableRowProperty, h: f32) -> TableRowProperty { TableRowProperty { row_height: Some(h), ..this } }
//@fn TableRowProperty::row_height r=out
//@| ensures out == sp_TableRowProperty_row_height(self, h),
//@end
pub open spec fn sp_TableRow_row_height(this: TableRow, h: f32) -> TableRow { TableRow { property: sp_TableRowProperty_row_height(this.property, h), ..this } }
//@fn TableRow::row_height r=out
//@| ensures out == sp_TableRow_row_height(self, h),
//@end
pub open spec fn sp_TableRowProperty_height_rule(this: TableRowProperty, r: HeightRule) -> TableRowProperty { TableRowProperty { height_rule: Some(r), ..this } }
//@fn TableRowProperty::height_rule r=out
//@| ensures out == sp_TableRowProperty_height_rule(self, r),
//@end
pub open spec fn sp_TableRow_height_rule(this: TableRow, r: HeightRule) -> TableRow { TableRow { property: sp_TableRowProperty_height_rule(this.property, r), ..this } }
//@fn TableRow::height_rule r=out
//@| ensures out == sp_TableRow_height_rule(self, r),
//@end
pub open spec fn sp_TableRowProperty_delete(this: TableRowProperty, d: Delete) -> TableRowProperty { TableRowProperty { del: Some(d), ..this } }
//@fn TableRowProperty::delete r=out
//@| ensures out == sp_TableRowProperty_delete(self, d),
//@end
pub open spec fn sp_TableRow_delete(this: TableRow, d: Delete) -> TableRow { TableRow { property: sp_TableRowProperty_delete(this.property, d), ..this } }
//@fn TableRow::delete r=out
//@| ensures out == sp_TableRow_delete(self, d),
//@end
pub open spec fn sp_TableRowProperty_insert(this: TableRowProperty, i: Insert) -> TableRowProperty { TableRowProperty { ins: Some(i), ..this } }
//@fn TableRowProperty::insert r=out
//@| ensures out == sp_TableRowProperty_insert(self, i),
//@end
pub open spec fn sp_TableRow_insert(this: TableRow, i: Insert) -> TableRow { TableRow { property: sp_TableRowProperty_insert(this.property, i), ..this } }
//@fn TableRow::insert r=out
//@| ensures out == sp_TableRow_insert(self, i),
//@end
pub open spec fn sp_TableRowProperty_cant_split(this: TableRowProperty) -> TableRowProperty { TableRowProperty { cant_split: Some(dflt::<CantSplit>()), ..this } }
//@fn TableRowProperty::cant_split r=out
//@| ensures out == sp_TableRowProperty_cant_split(self),
//@end
pub open spec fn sp_TableRow_cant_split(this: TableRow) -> TableRow { TableRow { property: sp_TableRowProperty_cant_split(this.property), ..this } }
//@fn TableRow::cant_split r=out
//@| ensures out == sp_TableRow_cant_split(self),
//@end
pub open spec fn sp_Tabs_add_tab(this: Tabs, t: Tab) -> Tabs { Tabs { tabs: vecv(this.tabs@.push(t)), ..this } }
//@fn Tabs::add_tab r=out
//@| ensures out == sp_Tabs_add_tab(self, t),
//@|   out.tabs@ == self.tabs@.push(t),
//@end
pub open spec fn sp_TextBorder_color(this: TextBorder, color: Seq<char>) -> TextBorder { TextBorder { color: strv(color), ..this } }
//@fn TextBorder::color r=out
//@| ensures out == sp_TextBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TextBorder_size(this: TextBorder, size: usize) -> TextBorder { TextBorder { size: size, ..this } }
//@fn TextBorder::size r=out
//@| ensures out == sp_TextBorder_size(self, size),
//@end
pub open spec fn sp_TextBorder_space(this: TextBorder, space: usize) -> TextBorder { TextBorder { space: space, ..this } }
//@fn TextBorder::space r=out
//@| ensures out == sp_TextBorder_space(self, space),
//@end
pub open spec fn sp_TextBorder_border_type(this: TextBorder, border_type: BorderType) -> TextBorder { TextBorder { border_type: border_type, ..this } }
//@fn TextBorder::border_type r=out
//@| ensures out == sp_TextBorder_border_type(self, border_type),
//@end
pub open spec fn sp_TextBox_size(this: TextBox, w_emu: u32, h_emu: u32) -> TextBox { TextBox { size: (w_emu, h_emu), ..this } }
//@fn TextBox::size r=out
//@| ensures out == sp_TextBox_size(self, w_emu, h_emu),
//@end
pub open spec fn sp_TextBox_floating(this: TextBox) -> TextBox { TextBox { position_type: DrawingPositionType::Anchor, ..this } }
//@fn TextBox::floating r=out
//@| ensures out == sp_TextBox_floating(self),
//@end
pub open spec fn sp_TextBox_offset_x(this: TextBox, x: i32) -> TextBox { TextBox { position_h: DrawingPosition::Offset(x), ..this } }
//@fn TextBox::offset_x r=out
//@| ensures out == sp_TextBox_offset_x(self, x),
//@end
pub open spec fn sp_TextBox_offset_y(this: TextBox, y: i32) -> TextBox { TextBox { position_v: DrawingPosition::Offset(y), ..this } }
//@fn TextBox::offset_y r=out
//@| ensures out == sp_TextBox_offset_y(self, y),
//@end
pub open spec fn sp_TextBox_position_h(this: TextBox, pos: DrawingPosition) -> TextBox { TextBox { position_h: pos, ..this } }
//@fn TextBox::position_h r=out
//@| ensures out == sp_TextBox_position_h(self, pos),
//@end
pub open spec fn sp_TextBox_position_v(this: TextBox, pos: DrawingPosition) -> TextBox { TextBox { position_v: pos, ..this } }
//@fn TextBox::position_v r=out
//@| ensures out == sp_TextBox_position_v(self, pos),
//@end
pub open spec fn sp_TextBox_relative_from_h(this: TextBox, t: RelativeFromHType) -> TextBox { TextBox { relative_from_h: t, ..this } }
//@fn TextBox::relative_from_h r=out
//@| ensures out == sp_TextBox_relative_from_h(self, t),
//@end
pub open spec fn sp_TextBox_relative_from_v(this: TextBox, t: RelativeFromVType) -> TextBox { TextBox { relative_from_v: t, ..this } }
//@fn TextBox::relative_from_v r=out
//@| ensures out == sp_TextBox_relative_from_v(self, t),
//@end
pub open spec fn sp_TextBox_dist_t(this: TextBox, v: i32) -> TextBox { TextBox { dist_t: v, ..this } }
//@fn TextBox::dist_t r=out
//@| ensures out == sp_TextBox_dist_t(self, v),
//@end
pub open spec fn sp_TextBox_dist_b(this: TextBox, v: i32) -> TextBox { TextBox { dist_b: v, ..this } }
//@fn TextBox::dist_b r=out
//@| ensures out == sp_TextBox_dist_b(self, v),
//@end
pub open spec fn sp_TextBox_dist_l(this: TextBox, v: i32) -> TextBox { TextBox { dist_l: v, ..this } }
//@fn TextBox::dist_l r=out
//@| ensures out == sp_TextBox_dist_l(self, v),
//@end
pub open spec fn sp_TextBox_dist_r(this: TextBox, v: i32) -> TextBox { TextBox { dist_r: v, ..this } }
//@fn TextBox::dist_r r=out
//@| ensures out == sp_TextBox_dist_r(self, v),
//@end
pub open spec fn sp_TextBox_simple_pos(this: TextBox, v: bool) -> TextBox { TextBox { simple_pos: v, ..this } }
//@fn TextBox::simple_pos r=out
//@| ensures out == sp_TextBox_simple_pos(self, v),
//@end
pub open spec fn sp_TextBox_relative_height(this: TextBox, v: u32) -> TextBox { TextBox { relative_height: v, ..this } }
//@fn TextBox::relative_height r=out
//@| ensures out == sp_TextBox_relative_height(self, v),
//@end
pub open spec fn sp_TextBoxContent_add_paragraph(this: TextBoxContent, p: Paragraph) -> TextBoxContent { TextBoxContent { children: vecv(this.children@.push(TextBoxContentChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn TextBoxContent::add_paragraph r=out
//@| ensures out == sp_TextBoxContent_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(TextBoxContentChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_TextBoxContent_add_table(this: TextBoxContent, t: Table) -> TextBoxContent { TextBoxContent { children: vecv(this.children@.push(TextBoxContentChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn TextBoxContent::add_table r=out
//@| ensures out == sp_TextBoxContent_add_table(self, t),
//@|   out.children@ == self.children@.push(TextBoxContentChild::Table(Box::new(t))),
//@end
pub open spec fn sp_WpAnchor_add_graphic(this: WpAnchor, g: AGraphic) -> WpAnchor { WpAnchor { children: vecv(this.children@.push(g)), ..this } }
//@fn WpAnchor::add_graphic r=out
//@| ensures out == sp_WpAnchor_add_graphic(self, g),
//@|   out.children@ == self.children@.push(g),
//@end
pub open spec fn sp_WpsShape_add_text_box(this: WpsShape, text_box: WpsTextBox) -> WpsShape { WpsShape { children: vecv(this.children@.push(WpsShapeChild::WpsTextBox(text_box))), ..this } }
//@fn WpsShape::add_text_box r=out
//@| ensures out == sp_WpsShape_add_text_box(self, text_box),
//@|   out.children@ == self.children@.push(WpsShapeChild::WpsTextBox(text_box)),
//@end
pub open spec fn sp_WpsTextBox_add_content(this: WpsTextBox, c: TextBoxContent) -> WpsTextBox { WpsTextBox { children: vecv(this.children@.push(c)), has_numbering: (if c.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn WpsTextBox::add_content r=out
//@| ensures out == sp_WpsTextBox_add_content(self, c),
//@|   out.children@ == self.children@.push(c),
//@end
pub open spec fn sp_Footer_add_paragraph(this: Footer, p: Paragraph) -> Footer { Footer { children: vecv(this.children@.push(FooterChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Footer::add_paragraph r=out
//@| ensures out == sp_Footer_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(FooterChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_Footer_add_table(this: Footer, t: Table) -> Footer { Footer { children: vecv(this.children@.push(FooterChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Footer::add_table r=out
//@| ensures out == sp_Footer_add_table(self, t),
//@|   out.children@ == self.children@.push(FooterChild::Table(Box::new(t))),
//@end
pub open spec fn sp_Footer_add_structured_data_tag(this: Footer, t: StructuredDataTag) -> Footer { Footer { children: vecv(this.children@.push(FooterChild::StructuredDataTag(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Footer::add_structured_data_tag r=out
//@| ensures out == sp_Footer_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(FooterChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_FooterRels_add_image(this: FooterRels, id: Seq<char>, path: Seq<char>) -> FooterRels { FooterRels { images: vecv(this.images@.push((strv(id), strv(path)))), ..this } }
//@fn FooterRels::add_image r=out
//@| ensures out == sp_FooterRels_add_image(self, id.chars(), path.chars()),
//@|   out.images@ == self.images@.push((strv(id.chars()), strv(path.chars()))),
//@end
pub open spec fn sp_Header_add_paragraph(this: Header, p: Paragraph) -> Header { Header { children: vecv(this.children@.push(HeaderChild::Paragraph(Box::new(p)))), has_numbering: (if p.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Header::add_paragraph r=out
//@| ensures out == sp_Header_add_paragraph(self, p),
//@|   out.children@ == self.children@.push(HeaderChild::Paragraph(Box::new(p))),
//@end
pub open spec fn sp_Header_add_table(this: Header, t: Table) -> Header { Header { children: vecv(this.children@.push(HeaderChild::Table(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Header::add_table r=out
//@| ensures out == sp_Header_add_table(self, t),
//@|   out.children@ == self.children@.push(HeaderChild::Table(Box::new(t))),
//@end
pub open spec fn sp_Header_add_structured_data_tag(this: Header, t: StructuredDataTag) -> Header { Header { children: vecv(this.children@.push(HeaderChild::StructuredDataTag(Box::new(t)))), has_numbering: (if t.has_numbering { true } else { this.has_numbering }), ..this } }
//@fn Header::add_structured_data_tag r=out
//@| ensures out == sp_Header_add_structured_data_tag(self, t),
//@|   out.children@ == self.children@.push(HeaderChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn sp_HeaderRels_add_image(this: HeaderRels, id: Seq<char>, path: Seq<char>) -> HeaderRels { HeaderRels { images: vecv(this.images@.push((strv(id), strv(path)))), ..this } }
//@fn HeaderRels::add_image r=out
//@| ensures out == sp_HeaderRels_add_image(self, id.chars(), path.chars()),
//@|   out.images@ == self.images@.push((strv(id.chars()), strv(path.chars()))),
//@end
pub open spec fn sp_Docx_styles(this: Docx, s: Styles) -> Docx { Docx { styles: s, ..this } }
//@fn Docx::styles r=out
//@| ensures out == sp_Docx_styles(self, s),
//@end
pub open spec fn sp_Styles_add_style(this: Styles, style: Style) -> Styles { Styles { styles: vecv(this.styles@.push(style)), ..this } }
//@fn Styles::add_style r=out
//@| ensures out == sp_Styles_add_style(self, style),
//@|   out.styles@ == self.styles@.push(style),
//@end
pub open spec fn sp_Docx_add_style(this: Docx, s: Style) -> Docx { Docx { styles: sp_Styles_add_style(this.styles, s), ..this } }
//@fn Docx::add_style r=out
//@| ensures out == sp_Docx_add_style(self, s),
//@end
pub open spec fn sp_Docx_numberings(this: Docx, n: Numberings) -> Docx { Docx { numberings: n, ..this } }
//@fn Docx::numberings r=out
//@| ensures out == sp_Docx_numberings(self, n),
//@end
pub open spec fn sp_Docx_settings(this: Docx, s: Settings) -> Docx { Docx { settings: s, ..this } }
//@fn Docx::settings r=out
//@| ensures out == sp_Docx_settings(self, s),
//@end
pub open spec fn sp_Docx_web_settings(this: Docx, s: WebSettings) -> Docx { Docx { web_settings: s, ..this } }
//@fn Docx::web_settings r=out
//@| ensures out == sp_Docx_web_settings(self, s),
//@end
pub open spec fn sp_Docx_add_hyperlink(this: Docx, id: Seq<char>, path: Seq<char>, vx_type: Seq<char>) -> Docx { Docx { hyperlinks: vecv(this.hyperlinks@.push((strv(id), strv(path), strv(vx_type)))), ..this } }
//@fn Docx::add_hyperlink r=out
//@| ensures out == sp_Docx_add_hyperlink(self, id.chars(), path.chars(), vx_type.chars()),
//@|   out.hyperlinks@ == self.hyperlinks@.push((strv(id.chars()), strv(path.chars()), strv(vx_type.chars()))),
//@end
pub open spec fn sp_Docx_comments(this: Docx, c: Comments) -> Docx { Docx { comments: c, ..this } }
//@fn Docx::comments r=out
//@| ensures out == sp_Docx_comments(self, c),
//@end
pub open spec fn sp_Docx_comments_extended(this: Docx, c: CommentsExtended) -> Docx { Docx { comments_extended: c, ..this } }
//@fn Docx::comments_extended r=out
//@| ensures out == sp_Docx_comments_extended(self, c),
//@end
pub open spec fn sp_Docx_add_paragraph(this: Docx, p: Paragraph) -> Docx { Docx { document: sp_Document_add_paragraph(this.document, p), document_rels: (if p.has_numbering { DocumentRels { has_numberings: true, ..this.document_rels } } else { this.document_rels }), ..this } }
//@fn Docx::add_paragraph r=out
//@| ensures out == sp_Docx_add_paragraph(self, p),
//@end
pub open spec fn sp_Docx_add_structured_data_tag(this: Docx, t: StructuredDataTag) -> Docx { Docx { document: sp_Document_add_structured_data_tag(this.document, t), document_rels: (if t.has_numbering { DocumentRels { has_numberings: true, ..this.document_rels } } else { this.document_rels }), ..this } }
//@fn Docx::add_structured_data_tag r=out
//@| ensures out == sp_Docx_add_structured_data_tag(self, t),
//@end
pub open spec fn sp_Docx_add_table_of_contents(this: Docx, t: TableOfContents) -> Docx { Docx { document: sp_Document_add_table_of_contents(this.document, t), ..this } }
//@fn Docx::add_table_of_contents r=out
//@| ensures out == sp_Docx_add_table_of_contents(self, t),
//@end
pub open spec fn sp_Docx_add_bookmark_start(this: Docx, id: usize, name: Seq<char>) -> Docx { Docx { document: sp_Document_add_bookmark_start(this.document, id, name), ..this } }
//@fn Docx::add_bookmark_start r=out
//@| ensures out == sp_Docx_add_bookmark_start(self, id, name.chars()),
//@end
pub open spec fn sp_Docx_add_bookmark_end(this: Docx, id: usize) -> Docx { Docx { document: sp_Document_add_bookmark_end(this.document, id), ..this } }
//@fn Docx::add_bookmark_end r=out
//@| ensures out == sp_Docx_add_bookmark_end(self, id),
//@end
pub open spec fn sp_Docx_add_table(this: Docx, t: Table) -> Docx { Docx { document: sp_Document_add_table(this.document, t), document_rels: (if t.has_numbering { DocumentRels { has_numberings: true, ..this.document_rels } } else { this.document_rels }), ..this } }
//@fn Docx::add_table r=out
//@| ensures out == sp_Docx_add_table(self, t),
//@end
pub open spec fn sp_Numberings_add_abstract_numbering(this: Numberings, n: AbstractNumbering) -> Numberings { Numberings { abstract_nums: vecv(this.abstract_nums@.push(n)), ..this } }
//@fn Numberings::add_abstract_numbering r=out
//@| ensures out == sp_Numberings_add_abstract_numbering(self, n),
//@|   out.abstract_nums@ == self.abstract_nums@.push(n),
//@end
pub open spec fn sp_Docx_add_abstract_numbering(this: Docx, num: AbstractNumbering) -> Docx { Docx { numberings: sp_Numberings_add_abstract_numbering(this.numberings, num), ..this } }
//@fn Docx::add_abstract_numbering r=out
//@| ensures out == sp_Docx_add_abstract_numbering(self, num),
//@end
pub open spec fn sp_Numberings_add_numbering(this: Numberings, n: Numbering) -> Numberings { Numberings { numberings: vecv(this.numberings@.push(n)), ..this } }
//@fn Numberings::add_numbering r=out
//@| ensures out == sp_Numberings_add_numbering(self, n),
//@|   out.numberings@ == self.numberings@.push(n),
//@end
pub open spec fn sp_Docx_add_numbering(this: Docx, num: Numbering) -> Docx { Docx { numberings: sp_Numberings_add_numbering(this.numberings, num), ..this } }
//@fn Docx::add_numbering r=out
//@| ensures out == sp_Docx_add_numbering(self, num),
//@end
pub open spec fn sp_Docx_created_at(this: Docx, date: Seq<char>) -> Docx { Docx { doc_props: sp_DocProps_created_at(this.doc_props, date), ..this } }
//@fn Docx::created_at r=out
//@| ensures out == sp_Docx_created_at(self, date@),
//@end
pub open spec fn sp_Docx_updated_at(this: Docx, date: Seq<char>) -> Docx { Docx { doc_props: sp_DocProps_updated_at(this.doc_props, date), ..this } }
//@fn Docx::updated_at r=out
//@| ensures out == sp_Docx_updated_at(self, date@),
//@end
pub open spec fn sp_DocId_new(id: Seq<char>) -> DocId { DocId { id: strv(id) } }
//@fn DocId::new r=out
//@| ensures out == sp_DocId_new(id.chars()),
//@end
pub open spec fn sp_Settings_doc_id(this: Settings, id: Seq<char>) -> Settings { Settings { doc_id: Some(sp_DocId_new(id)), ..this } }
//@fn Settings::doc_id r=out
//@| ensures out == sp_Settings_doc_id(self, id.chars()),
//@end
pub open spec fn sp_Docx_doc_id(this: Docx, id: Seq<char>) -> Docx { Docx { settings: sp_Settings_doc_id(this.settings, id), ..this } }
//@fn Docx::doc_id r=out
//@| ensures out == sp_Docx_doc_id(self, id@),
//@end
pub open spec fn sp_DefaultTabStop_new(val: usize) -> DefaultTabStop { DefaultTabStop { val: val } }
//@fn DefaultTabStop::new r=out
//@| ensures out == sp_DefaultTabStop_new(val),
//@end
pub open spec fn sp_Settings_default_tab_stop(this: Settings, tab_stop: usize) -> Settings { Settings { default_tab_stop: sp_DefaultTabStop_new(tab_stop), ..this } }
//@fn Settings::default_tab_stop r=out
//@| ensures out == sp_Settings_default_tab_stop(self, tab_stop),
//@end
pub open spec fn sp_Docx_default_tab_stop(this: Docx, stop: usize) -> Docx { Docx { settings: sp_Settings_default_tab_stop(this.settings, stop), ..this } }
//@fn Docx::default_tab_stop r=out
//@| ensures out == sp_Docx_default_tab_stop(self, stop),
//@end
pub open spec fn sp_DocVar_new(name: Seq<char>, val: Seq<char>) -> DocVar { DocVar { name: strv(name), val: strv(val) } }
//@fn DocVar::new r=out
//@| ensures out == sp_DocVar_new(name.chars(), val.chars()),
//@end
pub open spec fn sp_Settings_add_doc_var(this: Settings, name: Seq<char>, val: Seq<char>) -> Settings { Settings { doc_vars: vecv(this.doc_vars@.push(sp_DocVar_new(name, val))), ..this } }
//@fn Settings::add_doc_var r=out
//@| ensures out == sp_Settings_add_doc_var(self, name.chars(), val.chars()),
//@|   out.doc_vars@ == self.doc_vars@.push(sp_DocVar_new(name.chars(), val.chars())),
//@end
pub open spec fn sp_Docx_add_doc_var(this: Docx, name: Seq<char>, val: Seq<char>) -> Docx { Docx { settings: sp_Settings_add_doc_var(this.settings, name, val), ..this } }
//@fn Docx::add_doc_var r=out
//@| ensures out == sp_Docx_add_doc_var(self, name@, val@),
//@end
pub open spec fn sp_Docx_title_pg(this: Docx) -> Docx { Docx { document: sp_Document_title_pg(this.document), ..this } }
//@fn Docx::title_pg r=out
//@| ensures out == sp_Docx_title_pg(self),
//@end
pub open spec fn sp_Docx_page_size(this: Docx, w: u32, h: u32) -> Docx { Docx { document: sp_Document_page_size(this.document, sp_PageSize_size(this.document.section_property.page_size, w, h)), ..this } }
//@fn Docx::page_size r=out
//@| ensures out == sp_Docx_page_size(self, w, h),
//@end
pub open spec fn sp_Docx_page_margin(this: Docx, margin: PageMargin) -> Docx { Docx { document: sp_Document_page_margin(this.document, margin), ..this } }
//@fn Docx::page_margin r=out
//@| ensures out == sp_Docx_page_margin(self, margin),
//@end
pub open spec fn sp_Docx_page_orient(this: Docx, o: PageOrientationType) -> Docx { Docx { document: sp_Document_page_orient(this.document, o), ..this } }
//@fn Docx::page_orient r=out
//@| ensures out == sp_Docx_page_orient(self, o),
//@end
pub open spec fn sp_Styles_default_size(this: Styles, size: usize) -> Styles { Styles { doc_defaults: sp_DocDefaults_size(this.doc_defaults, size), ..this } }
//@fn Styles::default_size r=out
//@| ensures out == sp_Styles_default_size(self, size),
//@end
pub open spec fn sp_Docx_default_size(this: Docx, size: usize) -> Docx { Docx { styles: sp_Styles_default_size(this.styles, size), ..this } }
//@fn Docx::default_size r=out
//@| ensures out == sp_Docx_default_size(self, size),
//@end
pub open spec fn sp_Styles_default_spacing(this: Styles, spacing: i32) -> Styles { Styles { doc_defaults: sp_DocDefaults_spacing(this.doc_defaults, spacing), ..this } }
//@fn Styles::default_spacing r=out
//@| ensures out == sp_Styles_default_spacing(self, spacing),
//@end
pub open spec fn sp_Docx_default_spacing(this: Docx, spacing: i32) -> Docx { Docx { styles: sp_Styles_default_spacing(this.styles, spacing), ..this } }
//@fn Docx::default_spacing r=out
//@| ensures out == sp_Docx_default_spacing(self, spacing),
//@end
pub open spec fn sp_Styles_default_fonts(this: Styles, font: RunFonts) -> Styles { Styles { doc_defaults: sp_DocDefaults_fonts(this.doc_defaults, font), ..this } }
//@fn Styles::default_fonts r=out
//@| ensures out == sp_Styles_default_fonts(self, font),
//@end
pub open spec fn sp_Docx_default_fonts(this: Docx, font: RunFonts) -> Docx { Docx { styles: sp_Styles_default_fonts(this.styles, font), ..this } }
//@fn Docx::default_fonts r=out
//@| ensures out == sp_Docx_default_fonts(self, font),
//@end
pub open spec fn sp_Styles_default_line_spacing(this: Styles, spacing: LineSpacing) -> Styles { Styles { doc_defaults: sp_DocDefaults_line_spacing(this.doc_defaults, spacing), ..this } }
//@fn Styles::default_line_spacing r=out
//@| ensures out == sp_Styles_default_line_spacing(self, spacing),
//@end
pub open spec fn sp_Docx_default_line_spacing(this: Docx, spacing: LineSpacing) -> Docx { Docx { styles: sp_Styles_default_line_spacing(this.styles, spacing), ..this } }
//@fn Docx::default_line_spacing r=out
//@| ensures out == sp_Docx_default_line_spacing(self, spacing),
//@end
pub open spec fn sp_Docx_page_num_type(this: Docx, p: PageNumType) -> Docx { Docx { document: sp_Document_page_num_type(this.document, p), ..this } }
//@fn Docx::page_num_type r=out
//@| ensures out == sp_Docx_page_num_type(self, p),
//@end
pub open spec fn sp_Settings_even_and_odd_headers(this: Settings) -> Settings { Settings { even_and_odd_headers: true, ..this } }
//@fn Settings::even_and_odd_headers r=out
//@| ensures out == sp_Settings_even_and_odd_headers(self),
//@end
pub open spec fn sp_Settings_adjust_line_height_in_table(this: Settings) -> Settings { Settings { adjust_line_height_in_table: true, ..this } }
//@fn Settings::adjust_line_height_in_table r=out
//@| ensures out == sp_Settings_adjust_line_height_in_table(self),
//@end
pub open spec fn sp_Settings_character_spacing_control(this: Settings, val: CharacterSpacingValues) -> Settings { Settings { character_spacing_control: Some(val), ..this } }
//@fn Settings::character_spacing_control r=out
//@| ensures out == sp_Settings_character_spacing_control(self, val),
//@end
pub open spec fn sp_Styles_doc_defaults(this: Styles, doc_defaults: DocDefaults) -> Styles { Styles { doc_defaults: doc_defaults, ..this } }
//@fn Styles::doc_defaults r=out
//@| ensures out == sp_Styles_doc_defaults(self, doc_defaults),
//@end
