// Section formatting: the tokens of each part of it.
#[verifier::external_body] pub struct Header { x: u8 }
#[verifier::external_body] pub struct Footer { x: u8 }
pub open spec fn size_at(s: PageSize) -> Seq<At> { with(with(with(Seq::empty(), "w"@, Some(shown(s.w)@)), "h"@, Some(shown(s.h)@)), "orient"@, num(s.orient)) }
pub open spec fn margin_at(s: PageMargin) -> Seq<At> { with(with(with(with(with(with(with(Seq::empty(), "top"@, Some(shown(s.top)@)), "right"@, Some(shown(s.right)@)), "bottom"@, Some(shown(s.bottom)@)), "left"@, Some(shown(s.left)@)), "header"@, Some(shown(s.header)@)), "footer"@, Some(shown(s.footer)@)), "gutter"@, Some(shown(s.gutter)@)) }
pub open spec fn grid_at(t: DocGridType, p: Option<usize>, c: Option<isize>) -> Seq<At> { with(with(with(Seq::empty(), "type"@, Some(shown(t)@)), "linePitch"@, num(p)), "charSpace"@, num(c)) }
pub open spec fn count_at(s: Option<u32>, c: Option<String>) -> Seq<At> { with(with(Seq::empty(), "start"@, num(s)), "chapStyle"@, txt(c)) }
pub open spec fn ref_at(t: Seq<char>, id: Seq<char>) -> Seq<At> { with(with(Seq::empty(), "type"@, Some(t)), "id"@, Some(id)) }
pub open spec fn cols_at(s: Seq<char>, n: Seq<char>) -> Seq<At> { with(with(Seq::empty(), "space"@, Some(s)), "num"@, Some(n)) }
#[verifier::opaque] pub open spec fn se_page_size(x: SectionProperty) -> Option<El> { Some(El { n: "pgSz"@, a: size_at(x.page_size) }) }
#[verifier::opaque] pub open spec fn se_page_margin(x: SectionProperty) -> Option<El> { Some(El { n: "pgMar"@, a: margin_at(x.page_margin) }) }
#[verifier::opaque] pub open spec fn se_cols(x: SectionProperty) -> Option<El> { Some(El { n: "cols"@, a: cols_at(shown(x.space)@, shown(x.columns)@) }) }
#[verifier::opaque] pub open spec fn se_doc_grid(x: SectionProperty) -> Option<El> { match x.doc_grid { Some(v) => Some(El { n: "docGrid"@, a: grid_at(v.grid_type, v.line_pitch, v.char_space) }), None => None } }
#[verifier::opaque] pub open spec fn se_header_reference(x: SectionProperty) -> Option<El> { match x.header_reference { Some(v) => Some(El { n: "headerReference"@, a: ref_at(v.header_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_first_header_reference(x: SectionProperty) -> Option<El> { match x.first_header_reference { Some(v) => Some(El { n: "headerReference"@, a: ref_at(v.header_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_even_header_reference(x: SectionProperty) -> Option<El> { match x.even_header_reference { Some(v) => Some(El { n: "headerReference"@, a: ref_at(v.header_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_footer_reference(x: SectionProperty) -> Option<El> { match x.footer_reference { Some(v) => Some(El { n: "footerReference"@, a: ref_at(v.footer_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_first_footer_reference(x: SectionProperty) -> Option<El> { match x.first_footer_reference { Some(v) => Some(El { n: "footerReference"@, a: ref_at(v.footer_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_even_footer_reference(x: SectionProperty) -> Option<El> { match x.even_footer_reference { Some(v) => Some(El { n: "footerReference"@, a: ref_at(v.footer_type@, v.id@) }), None => None } }
#[verifier::opaque] pub open spec fn se_page_num_type(x: SectionProperty) -> Option<El> { match x.page_num_type { Some(v) => Some(El { n: "pgNumType"@, a: count_at(v.start, v.chap_style) }), None => None } }
#[verifier::opaque] pub open spec fn se_text_direction(x: SectionProperty) -> Option<El> { if x.text_direction@ != "lrTb"@ { Some(el_val("textDirection"@, x.text_direction@)) } else { None } }
#[verifier::opaque] pub open spec fn se_section_type(x: SectionProperty) -> Option<El> { match x.section_type { Some(v) => Some(el_val("type"@, shown(v)@)), None => None } }
#[verifier::opaque] pub open spec fn se_title_pg(x: SectionProperty) -> Option<El> { if x.title_pg { Some(El { n: "titlePg"@, a: Seq::empty() }) } else { None } }
/// The tokens inside section formatting, followed by others.
pub open spec fn sect_body(x: SectionProperty, t: Seq<Tok>) -> Seq<Tok> { ol(se_page_size(x)) + (ol(se_page_margin(x)) + (ol(se_cols(x)) + (ol(se_doc_grid(x)) + (ol(se_header_reference(x)) + (ol(se_first_header_reference(x)) + (ol(se_even_header_reference(x)) + (ol(se_footer_reference(x)) + (ol(se_first_footer_reference(x)) + (ol(se_even_footer_reference(x)) + (ol(se_page_num_type(x)) + (ol(se_text_direction(x)) + (ol(se_section_type(x)) + (ol(se_title_pg(x)) + (t)))))))))))))) }
pub open spec fn sect_onto(x: SectionProperty, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "sectPr"@, a: Seq::empty() })] + sect_body(x, seq![Tok::Close("sectPr"@)])) }
