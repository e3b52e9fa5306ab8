//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include rs_spec.rs
//@include rd_head.rs
//@include rs_core.rs
/// What an element name stands for.
#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {
    if n == "sectPr"@ { Some(XMLElement::SectionProperty) } else if n == "pgSz"@ { Some(XMLElement::PageSize) } else if n == "pgMar"@ { Some(XMLElement::PageMargin) } else if n == "docGrid"@ { Some(XMLElement::DocGrid) } else if n == "headerReference"@ { Some(XMLElement::HeaderReference) } else if n == "footerReference"@ { Some(XMLElement::FooterReference) } else if n == "pgNumType"@ { Some(XMLElement::PageNumType) } else if n == "type"@ { Some(XMLElement::Type) } else if n == "titlePg"@ { Some(XMLElement::TitlePg) } else if n == "textDirection"@ { Some(XMLElement::TextDirection) } else if n == "cols"@ { Some(XMLElement::Unsupported) } else { None }
}
proof fn kinds() ensures
    ck("sectPr"@) == Some(XMLElement::SectionProperty),
    ck("pgSz"@) == Some(XMLElement::PageSize),
    ck("pgMar"@) == Some(XMLElement::PageMargin),
    ck("docGrid"@) == Some(XMLElement::DocGrid),
    ck("headerReference"@) == Some(XMLElement::HeaderReference),
    ck("footerReference"@) == Some(XMLElement::FooterReference),
    ck("pgNumType"@) == Some(XMLElement::PageNumType),
    ck("type"@) == Some(XMLElement::Type),
    ck("titlePg"@) == Some(XMLElement::TitlePg),
    ck("textDirection"@) == Some(XMLElement::TextDirection),
    ck("cols"@) == Some(XMLElement::Unsupported),
{ reveal(ck); reveal_strlit("sectPr"); reveal_strlit("pgSz"); reveal_strlit("pgMar"); reveal_strlit("docGrid"); reveal_strlit("headerReference"); reveal_strlit("footerReference"); reveal_strlit("pgNumType"); reveal_strlit("type"); reveal_strlit("titlePg"); reveal_strlit("textDirection"); reveal_strlit("cols"); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("sectPr"); reveal_strlit("pgSz"); reveal_strlit("pgMar"); reveal_strlit("docGrid"); reveal_strlit("headerReference"); reveal_strlit("footerReference"); reveal_strlit("pgNumType"); reveal_strlit("type"); reveal_strlit("titlePg"); reveal_strlit("textDirection"); reveal_strlit("cols");
//@|   if s@ == "cols"@ { reveal_strlit("body"); reveal_strlit("caps"); reveal_strlit("ilvl"); reveal_strlit("left"); reveal_strlit("link"); reveal_strlit("name"); reveal_strlit("next"); reveal_strlit("pBdr"); reveal_strlit("pgSz"); reveal_strlit("pict"); reveal_strlit("ptab"); reveal_strlit("suff"); reveal_strlit("szCs"); reveal_strlit("tabs"); reveal_strlit("tblW"); reveal_strlit("tcPr"); reveal_strlit("type"); reveal_strlit("wrap"); reveal_strlit("Relationship"); reveal_strlit("Relationships"); reveal_strlit("abstractNum"); reveal_strlit("abstractNumId"); reveal_strlit("adjustLineHeightInTable"); reveal_strlit("adjustRightInd"); reveal_strlit("b"); reveal_strlit("bCs"); reveal_strlit("bar"); reveal_strlit("basedOn"); reveal_strlit("bdr"); reveal_strlit("between"); reveal_strlit("bookmarkEnd"); reveal_strlit("bookmarkStart"); reveal_strlit("bottom"); reveal_strlit("br"); reveal_strlit("characterSpacingControl"); reveal_strlit("color"); reveal_strlit("comment"); reveal_strlit("commentEx"); reveal_strlit("commentRangeEnd"); reveal_strlit("commentRangeStart"); reveal_strlit("comments"); reveal_strlit("commentsEx"); reveal_strlit("cr"); reveal_strlit("defaultTabStop"); reveal_strlit("del"); reveal_strlit("delText"); reveal_strlit("div"); reveal_strlit("divId"); reveal_strlit("divsChild"); reveal_strlit("docDefaults"); reveal_strlit("docGrid"); reveal_strlit("docId"); reveal_strlit("docVar"); reveal_strlit("docVars"); reveal_strlit("drawing"); reveal_strlit("dstrike"); reveal_strlit("end"); reveal_strlit("evenAndOddHeaders"); reveal_strlit("fitText"); reveal_strlit("fldChar"); reveal_strlit("footerReference"); reveal_strlit("framePr"); reveal_strlit("gridAfter"); reveal_strlit("gridBefore"); reveal_strlit("gridCol"); reveal_strlit("gridSpan"); reveal_strlit("h"); reveal_strlit("hAnchor"); reveal_strlit("hRule"); reveal_strlit("hSpace"); reveal_strlit("headerReference"); reveal_strlit("highlight"); reveal_strlit("hyperlink"); reveal_strlit("i"); reveal_strlit("iCs"); reveal_strlit("ind"); reveal_strlit("ins"); reveal_strlit("insideH"); reveal_strlit("insideV"); reveal_strlit("instrText"); reveal_strlit("isLgl"); reveal_strlit("italic"); reveal_strlit("jc"); reveal_strlit("keepLines"); reveal_strlit("keepNext"); reveal_strlit("lvl"); reveal_strlit("lvlJc"); reveal_strlit("lvlOverride"); reveal_strlit("lvlRestart"); reveal_strlit("lvlText"); reveal_strlit("marBottom"); reveal_strlit("marLeft"); reveal_strlit("marRight"); reveal_strlit("marTop"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); reveal_strlit("num"); reveal_strlit("numFmt"); reveal_strlit("numId"); reveal_strlit("numPr"); reveal_strlit("numStyleLink"); reveal_strlit("numbering"); reveal_strlit("outlineLvl"); reveal_strlit("p"); reveal_strlit("pPr"); reveal_strlit("pPrChange"); reveal_strlit("pStyle"); reveal_strlit("pageBreakBefore"); reveal_strlit("pgMar"); reveal_strlit("pgNumType"); reveal_strlit("property"); reveal_strlit("r"); reveal_strlit("rFonts"); reveal_strlit("rPr"); reveal_strlit("rPrChange"); reveal_strlit("rPrDefault"); reveal_strlit("rStyle"); reveal_strlit("right"); reveal_strlit("sdt"); reveal_strlit("sectPr"); reveal_strlit("settings"); reveal_strlit("shd"); reveal_strlit("snapToGrid"); reveal_strlit("spacing"); reveal_strlit("specVanish"); reveal_strlit("start"); reveal_strlit("startOverride"); reveal_strlit("strike"); reveal_strlit("style"); reveal_strlit("styleLink"); reveal_strlit("styles"); reveal_strlit("sym"); reveal_strlit("sz"); reveal_strlit("t"); reveal_strlit("tab"); reveal_strlit("tbl"); reveal_strlit("tblBorders"); reveal_strlit("tblCellMar"); reveal_strlit("tblGrid"); reveal_strlit("tblGridChange"); reveal_strlit("tblInd"); reveal_strlit("tblPr"); reveal_strlit("tblPrChange"); reveal_strlit("tblStyle"); reveal_strlit("tblpPr"); reveal_strlit("tc"); reveal_strlit("tcBorders"); reveal_strlit("tcMar"); reveal_strlit("tcPrChange"); reveal_strlit("tcW"); reveal_strlit("textAlignment"); reveal_strlit("textDirection"); reveal_strlit("titlePg"); reveal_strlit("tl2br"); reveal_strlit("top"); reveal_strlit("tr"); reveal_strlit("tr2bl"); reveal_strlit("trHeight"); reveal_strlit("trPrChange"); reveal_strlit("txbxContent"); reveal_strlit("u"); reveal_strlit("vAlign"); reveal_strlit("vAnchor"); reveal_strlit("vMerge"); reveal_strlit("vSpace"); reveal_strlit("vanish"); reveal_strlit("vertAlign"); reveal_strlit("w"); reveal_strlit("wAfter"); reveal_strlit("wBefore"); reveal_strlit("webSettings"); reveal_strlit("widowControl"); reveal_strlit("x"); reveal_strlit("xAlign"); reveal_strlit("y"); reveal_strlit("yAlign"); } }
//@end
//@fn <DocGridType as FromStr>::from_str ext
//@| ensures (match (r, named::<DocGridType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <SectionType as FromStr>::from_str ext
//@| ensures (match (r, named::<SectionType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub mod sects {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn grid(t: &DocGridType) ensures #![trigger shown_of::<DocGridType>(t)] named::<DocGridType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn kind(t: &SectionType) ensures #![trigger shown_of::<SectionType>(t)] named::<SectionType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: numbers contain no letters; whole numbers up to 2^24 are read exactly by way of a short floating point number; casts keep numbers in range.
    pub broadcast axiom fn no_unit(n: &i32) ensures #![trigger shown_of::<i32>(n)] !ends(shown_of::<i32>(n)@, "pt"@);
    pub broadcast axiom fn no_unit_u(n: &u32) ensures #![trigger shown_of::<u32>(n)] !ends(shown_of::<u32>(n)@, "pt"@), *n <= i32::MAX ==> float_to::<i32>(shown_of::<u32>(n)@) == Some(*n as i32) && cast::<i32, u32>(*n as i32) == *n;
    pub broadcast axiom fn pitch(n: &usize) ensures #![trigger shown_of::<usize>(n)] *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<usize>(n)@) matches Some(f) && cast::<f32, usize>(f) == *n);
    pub broadcast axiom fn space(n: &isize) ensures #![trigger shown_of::<isize>(n)] seen(shown_of::<isize>(n)@) == shown_of::<isize>(n)@, -0x100_0000 <= *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<isize>(n)@) matches Some(f) && cast::<f32, isize>(f) == *n);
    // TRUSTED: these words contain no markup.
    pub axiom fn words() ensures seen("default"@) == "default"@, seen("first"@) == "first"@, seen("even"@) == "even"@;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below; derived defaults leave every optional value absent.
    pub broadcast axiom fn d_size() ensures #[trigger] dflt::<PageSize>() == size0();
    pub broadcast axiom fn d_margin() ensures #[trigger] dflt::<PageMargin>() == margin0();
    pub broadcast axiom fn d_count() ensures #[trigger] dflt::<PageNumType>() == (PageNumType { start: None, chap_style: None });
    pub broadcast axiom fn d_sect() ensures #[trigger] dflt::<SectionProperty>() == sect0();
}
pub open spec fn size0() -> PageSize { PageSize { w: 11906, h: 16838, orient: None } }
pub open spec fn margin0() -> PageMargin { PageMargin { top: 1985, left: 1701, bottom: 1701, right: 1701, header: 851, footer: 992, gutter: 0 } }
pub open spec fn sect0() -> SectionProperty { SectionProperty { page_size: dflt::<PageSize>(), page_margin: dflt::<PageMargin>(), columns: 1, space: 425, title_pg: false, text_direction: strv("lrTb"@), doc_grid: None, header: None, header_reference: None, first_header: None, first_header_reference: None, even_header: None, even_header_reference: None, footer: None, footer_reference: None, first_footer: None, first_footer_reference: None, even_footer: None, even_footer_reference: None, section_type: None, page_num_type: None } }
//@fn <PageSize as Default>::default r=out
//@| ensures out == size0(),
//@end
//@fn <PageMargin as Default>::default r=out
//@| ensures out == margin0(),
//@end
//@fn <SectionProperty as Default>::default r=out
//@| ensures out == sect0(),
//@end
//@fn PageSize::new r=out
//@| ensures out == dflt::<PageSize>(),
//@end
//@fn PageMargin::new r=out
//@| ensures out == dflt::<PageMargin>(),
//@end
//@fn SectionProperty::new r=out
//@| ensures out == dflt::<SectionProperty>(),
//@end
//@fn PageNumType::new r=out
//@| ensures out == dflt::<PageNumType>(),
//@end
//@fn <Shading as Default>::default r=out
//@| ensures out == shd0(),
//@end
//@fn Shading::new r=out
//@| ensures out == shd0(),
//@end
//@fn DocGrid::with_empty r=out
//@| ensures out == (DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None }),
//@end
/// A length: in points, or a number.
pub open spec fn points(s: Seq<char>) -> Option<i32> { match float_to::<i32>(without(s)) { Some(n) => Some(times(n, 20)), None => None } }
pub open spec fn dax(s: Seq<char>) -> Option<i32> { if ends(s, "pt"@) { points(s) } else { float_to::<i32>(s) } }
pub uninterp spec fn times(a: i32, b: i32) -> i32;
pub trait VxTimes { fn vx_times(self, o: i32) -> (r: i32); }
impl VxTimes for i32 { #[verifier::external_body] fn vx_times(self, o: i32) -> (r: i32) ensures r == times(self, o) { unimplemented!() } }
//@fn reader/attributes/val.rs::value_to_dax casts
//@| ensures (match (r, dax(v@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@sub `.saturating_mul(` => `.vx_times(`
//@end
#[verifier::opaque] pub open spec fn size_step(p: PageSize, n: Seq<char>, v: Seq<char>) -> PageSize { if n == "w"@ { sp_PageSize_width(p, cast::<i32, u32>(dax(v)->0)) } else if n == "h"@ { sp_PageSize_height(p, cast::<i32, u32>(dax(v)->0)) } else { p } }
#[verifier::opaque] pub open spec fn size_ok(a: At) -> bool { let n = a.n; let v = a.v; n == "w"@ || n == "h"@ ==> dax(v) is Some }
pub open spec fn size_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> size_ok(#[trigger] a[i]) }
pub open spec fn size_of(a: Seq<At>) -> PageSize decreases a.len() { if a.len() == 0 { dflt::<PageSize>() } else { size_step(size_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_size_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures size_of(with(a, n, v)) == (match v { Some(v) => size_step(size_of(a), n, seen(v)), None => size_of(a) }),
        size_fine(a) && (v matches Some(v) ==> size_ok(At { n, v: seen(v) })) ==> size_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if size_fine(a) && size_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies size_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn reader/section_property.rs::read_page_size r=out autostr casts
//@| ensures size_fine(av(attributes@)) ==> (out matches Ok(x) && x == size_of(av(attributes@))),
//@at start
//@| proof { assert(av(attributes@).take(0) =~= Seq::<At>::empty()); reveal_strlit("w"); reveal_strlit("h"); }
//@loop 0 iter=it
//@| invariant size_of(av(attributes@).take(it.index@ as int)) == size,
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if size_fine(s) { assert(size_ok(s[it.index@ as int])); } reveal(size_step); reveal(size_ok); reveal_strlit("w"); reveal_strlit("h"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end
#[verifier::opaque] pub open spec fn margin_step(p: PageMargin, n: Seq<char>, v: Seq<char>) -> PageMargin { if n == "top"@ { sp_PageMargin_top(p, dax(v)->0) } else if n == "right"@ { sp_PageMargin_right(p, dax(v)->0) } else if n == "bottom"@ { sp_PageMargin_bottom(p, dax(v)->0) } else if n == "left"@ { sp_PageMargin_left(p, dax(v)->0) } else if n == "header"@ { sp_PageMargin_header(p, dax(v)->0) } else if n == "footer"@ { sp_PageMargin_footer(p, dax(v)->0) } else if n == "gutter"@ { sp_PageMargin_gutter(p, dax(v)->0) } else { p } }
#[verifier::opaque] pub open spec fn margin_ok(a: At) -> bool { let n = a.n; let v = a.v; n == "top"@ || n == "right"@ || n == "bottom"@ || n == "left"@ || n == "header"@ || n == "footer"@ || n == "gutter"@ ==> dax(v) is Some }
pub open spec fn margin_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> margin_ok(#[trigger] a[i]) }
pub open spec fn margin_of(a: Seq<At>) -> PageMargin decreases a.len() { if a.len() == 0 { dflt::<PageMargin>() } else { margin_step(margin_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_margin_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures margin_of(with(a, n, v)) == (match v { Some(v) => margin_step(margin_of(a), n, seen(v)), None => margin_of(a) }),
        margin_fine(a) && (v matches Some(v) ==> margin_ok(At { n, v: seen(v) })) ==> margin_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if margin_fine(a) && margin_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies margin_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn reader/section_property.rs::read_page_margin r=out autostr
//@| ensures margin_fine(av(attributes@)) ==> (out matches Ok(x) && x == margin_of(av(attributes@))),
//@at start
//@| proof { assert(av(attributes@).take(0) =~= Seq::<At>::empty()); reveal_strlit("top"); reveal_strlit("right"); reveal_strlit("bottom"); reveal_strlit("left"); reveal_strlit("header"); reveal_strlit("footer"); reveal_strlit("gutter"); }
//@loop 0 iter=it
//@| invariant margin_of(av(attributes@).take(it.index@ as int)) == margin,
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if margin_fine(s) { assert(margin_ok(s[it.index@ as int])); } reveal(margin_step); reveal(margin_ok); reveal_strlit("top"); reveal_strlit("right"); reveal_strlit("bottom"); reveal_strlit("left"); reveal_strlit("header"); reveal_strlit("footer"); reveal_strlit("gutter"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end
#[verifier::opaque] pub open spec fn ref_step(p: (Seq<char>, Seq<char>), n: Seq<char>, v: Seq<char>) -> (Seq<char>, Seq<char>) { if n == "type"@ { (p.0, v) } else if n == "id"@ { (v, p.1) } else { p } }
#[verifier::opaque] pub open spec fn ref_ok(a: At) -> bool { let n = a.n; let v = a.v; true }
pub open spec fn ref_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> ref_ok(#[trigger] a[i]) }
pub open spec fn ref_of(a: Seq<At>) -> (Seq<char>, Seq<char>) decreases a.len() { if a.len() == 0 { (""@, "default"@) } else { ref_step(ref_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_ref_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures ref_of(with(a, n, v)) == (match v { Some(v) => ref_step(ref_of(a), n, seen(v)), None => ref_of(a) }),
        ref_fine(a) && (v matches Some(v) ==> ref_ok(At { n, v: seen(v) })) ==> ref_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if ref_fine(a) && ref_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies ref_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn reader/section_property.rs::read_header_or_footer_reference r=out autostr
//@| ensures ref_fine(av(attributes@)) ==> (out matches Ok(x) && (x.0@, x.1@) == ref_of(av(attributes@))),
//@at start
//@| proof { assert(av(attributes@).take(0) =~= Seq::<At>::empty()); reveal_strlit("type"); reveal_strlit("id"); }
//@loop 0 iter=it
//@| invariant (rid@, header_type@) == ref_of(av(attributes@).take(it.index@ as int)),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if ref_fine(s) { assert(ref_ok(s[it.index@ as int])); } reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end
#[verifier::opaque] pub open spec fn grid_step(p: DocGrid, n: Seq<char>, v: Seq<char>) -> DocGrid { if n == "type"@ { sp_DocGrid_grid_type(p, named::<DocGridType>(v)->0) } else if n == "linePitch"@ { sp_DocGrid_line_pitch(p, cast::<f32, usize>(parsed::<f32>(v)->0)) } else if n == "charSpace"@ { sp_DocGrid_char_space(p, cast::<f32, isize>(parsed::<f32>(v)->0)) } else { p } }
#[verifier::opaque] pub open spec fn grid_ok(a: At) -> bool { let n = a.n; let v = a.v; (n == "type"@ ==> named::<DocGridType>(v) is Some) && (n == "linePitch"@ || n == "charSpace"@ ==> parsed::<f32>(v) is Some) }
pub open spec fn grid_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> grid_ok(#[trigger] a[i]) }
pub open spec fn grid_of(a: Seq<At>) -> DocGrid decreases a.len() { if a.len() == 0 { DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None } } else { grid_step(grid_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_grid_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures grid_of(with(a, n, v)) == (match v { Some(v) => grid_step(grid_of(a), n, seen(v)), None => grid_of(a) }),
        grid_fine(a) && (v matches Some(v) ==> grid_ok(At { n, v: seen(v) })) ==> grid_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if grid_fine(a) && grid_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies grid_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn <DocGrid as ElementReader>::read r=out autostr casts
//@| ensures grid_fine(av(attrs@)) ==> (out matches Ok(x) && x == grid_of(av(attrs@))), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); reveal_strlit("type"); reveal_strlit("linePitch"); reveal_strlit("charSpace"); }
//@loop 0 iter=it
//@| invariant grid_of(av(attrs@).take(it.index@ as int)) == doc_grid, _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if grid_fine(s) { assert(grid_ok(s[it.index@ as int])); } reveal(grid_step); reveal(grid_ok); reveal_strlit("type"); reveal_strlit("linePitch"); reveal_strlit("charSpace"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
#[verifier::opaque] pub open spec fn count_step(p: PageNumType, n: Seq<char>, v: Seq<char>) -> PageNumType { if n == "start"@ { match parsed::<u32>(v) { Some(s) => sp_PageNumType_start(p, s), None => p } } else if n == "chapStyle"@ { sp_PageNumType_chap_style(p, v) } else { p } }
#[verifier::opaque] pub open spec fn count_ok(a: At) -> bool { let n = a.n; let v = a.v; true }
pub open spec fn count_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> count_ok(#[trigger] a[i]) }
pub open spec fn count_of(a: Seq<At>) -> PageNumType decreases a.len() { if a.len() == 0 { dflt::<PageNumType>() } else { count_step(count_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_count_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures count_of(with(a, n, v)) == (match v { Some(v) => count_step(count_of(a), n, seen(v)), None => count_of(a) }),
        count_fine(a) && (v matches Some(v) ==> count_ok(At { n, v: seen(v) })) ==> count_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if count_fine(a) && count_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies count_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn <PageNumType as ElementReader>::read r=out autostr
//@| ensures count_fine(av(attrs@)) ==> (out matches Ok(x) && x == count_of(av(attrs@))), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); reveal_strlit("start"); reveal_strlit("chapStyle"); }
//@loop 0 iter=it
//@| invariant count_of(av(attrs@).take(it.index@ as int)) == p, _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if count_fine(s) { assert(count_ok(s[it.index@ as int])); } reveal(count_step); reveal(count_ok); reveal_strlit("start"); reveal_strlit("chapStyle"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
/// What one child element does to the section formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn sstep(p: SectionProperty, k: XMLElement, a: Seq<At>) -> Option<SectionProperty> { match k {
    XMLElement::PageMargin => if margin_fine(a) { Some(sp_SectionProperty_page_margin(p, margin_of(a))) } else { None },
    XMLElement::PageSize => if size_fine(a) { Some(sp_SectionProperty_page_size(p, size_of(a))) } else { None },
    XMLElement::DocGrid => if grid_fine(a) { Some(sp_SectionProperty_doc_grid(p, grid_of(a))) } else { None },
    XMLElement::PageNumType => Some(sp_SectionProperty_page_num_type(p, count_of(a))),
    XMLElement::HeaderReference => { let q = ref_of(a); if q.1 == "default"@ { Some(SectionProperty { header_reference: Some(sp_HeaderReference_new(q.1, q.0)), ..p }) } else if q.1 == "first"@ { Some(SectionProperty { first_header_reference: Some(sp_HeaderReference_new(q.1, q.0)), ..p }) } else if q.1 == "even"@ { Some(SectionProperty { even_header_reference: Some(sp_HeaderReference_new(q.1, q.0)), ..p }) } else { Some(p) } },
    XMLElement::FooterReference => { let q = ref_of(a); if q.1 == "default"@ { Some(SectionProperty { footer_reference: Some(sp_FooterReference_new(q.1, q.0)), ..p }) } else if q.1 == "first"@ { Some(SectionProperty { first_footer_reference: Some(sp_FooterReference_new(q.1, q.0)), ..p }) } else if q.1 == "even"@ { Some(SectionProperty { even_footer_reference: Some(sp_FooterReference_new(q.1, q.0)), ..p }) } else { Some(p) } },
    XMLElement::Type => match first(a, "val"@) { Some(v) => match named::<SectionType>(v) { Some(t) => Some(SectionProperty { section_type: Some(t), ..p }), None => Some(p) }, None => Some(p) },
    XMLElement::TitlePg => Some(sp_SectionProperty_title_pg(p)),
    _ => Some(p),
} }
/// Section formatting read from tokens, and the tokens after it.
pub open spec fn srun(p: SectionProperty, t: Seq<Tok>) -> Option<(SectionProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match sstep(p, k, e.a) { Some(q) => srun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::SectionProperty { Some((p, t.skip(1))) } else { srun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => srun(p, t.skip(1)),
    } }
}
proof fn lemma_always(a: Seq<At>) ensures ref_fine(a), count_fine(a) { reveal(ref_ok); reveal(count_ok); }
//@fn <SectionProperty as ElementReader>::read r=out autostr
//@| ensures srun(dflt::<SectionProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<SectionProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant srun(dflt::<SectionProperty>(), old(r).todo()) is Some ==> srun(sp, r.todo()) == srun(dflt::<SectionProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(sstep); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_always(e.a); } } }
//@end
// Reading what was written.
pub open spec fn small(n: Option<usize>) -> bool { n matches Some(n) ==> n <= 0x100_0000 }
pub open spec fn small_i(n: Option<isize>) -> bool { n matches Some(n) ==> -0x100_0000 <= n <= 0x100_0000 }
pub open spec fn settled_header(r: Option<HeaderReference>, t: Seq<char>) -> bool { r matches Some(r) ==> r.header_type@ == t && kept(r.id) }
pub open spec fn settled_footer(r: Option<FooterReference>, t: Seq<char>) -> bool { r matches Some(r) ==> r.footer_type@ == t && kept(r.id) }
/// Section formatting that builder calls produce from text without stray markup; orientation, columns and text direction are not read, and the parts
/// for headers and footers are read by other functions.
pub open spec fn settled_s(x: SectionProperty) -> bool {
    &&& x.page_size.orient is None && x.page_size.w <= i32::MAX && x.page_size.h <= i32::MAX
    &&& x.columns == 1 && x.space == 425 && x.text_direction@ == "lrTb"@
    &&& x.header is None && x.first_header is None && x.even_header is None && x.footer is None && x.first_footer is None && x.even_footer is None
    &&& settled_header(x.header_reference, "default"@) && settled_header(x.first_header_reference, "first"@) && settled_header(x.even_header_reference, "even"@) && settled_footer(x.footer_reference, "default"@) && settled_footer(x.first_footer_reference, "first"@) && settled_footer(x.even_footer_reference, "even"@)
    &&& (x.doc_grid matches Some(g) ==> small(g.line_pitch) && small_i(g.char_space))
    &&& (x.page_num_type matches Some(v) ==> kept_o(v.chap_style))
}
pub open spec fn sap(p: SectionProperty, e: El) -> Option<SectionProperty> { match ck(e.n) { Some(k) => if k == XMLElement::SectionProperty { None } else { sstep(p, k, e.a) }, None => None } }
pub open spec fn snext(p: SectionProperty, q: SectionProperty, o: Option<El>) -> bool { match o { Some(e) => sap(p, e) == Some(q), None => p == q } }
proof fn lemma_snext(p: SectionProperty, q: SectionProperty, o: Option<El>, t: Seq<Tok>) requires snext(p, q, o) ensures srun(p, ol(o) + t) == srun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t); reveal_with_fuel(srun, 3); } }
}
proof fn lemma_srun_end(x: SectionProperty, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("sectPr"@) ensures srun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn s_page_size(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures true ==> snext(p, SectionProperty { page_size: x.page_size, ..p }, se_page_size(x))
{ reveal(se_page_size); reveal(sstep); kinds(); broadcast use sects::no_unit_u, sects::d_size; let f = x.page_size;
    reveal(size_step); reveal(size_ok); reveal_strlit("w"); reveal_strlit("h"); let a0 = Seq::<At>::empty(); let p0 = size0(); assert(size_of(a0) == p0);
    assert(seen(shown_of(&f.w)@) == shown_of(&f.w)@); let a1 = with(a0, "w"@, Some(shown(f.w)@)); lemma_size_with(a0, "w"@, Some(shown(f.w)@)); let p1 = PageSize { w: f.w, ..p0 }; assert(size_of(a1) == p1); assert(size_fine(a1));
    assert(seen(shown_of(&f.h)@) == shown_of(&f.h)@); let a2 = with(a1, "h"@, Some(shown(f.h)@)); lemma_size_with(a1, "h"@, Some(shown(f.h)@)); let p2 = PageSize { h: f.h, ..p1 }; assert(size_of(a2) == p2); assert(size_fine(a2));
    assert(p2 == f); assert(size_at(f) == a2); }
proof fn s_page_margin(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures true ==> snext(p, SectionProperty { page_margin: x.page_margin, ..p }, se_page_margin(x))
{ reveal(se_page_margin); reveal(sstep); kinds(); broadcast use nums::i32_back, sects::no_unit, sects::d_margin; let f = x.page_margin;
    reveal(margin_step); reveal(margin_ok); reveal_strlit("top"); reveal_strlit("right"); reveal_strlit("bottom"); reveal_strlit("left"); reveal_strlit("header"); reveal_strlit("footer"); reveal_strlit("gutter"); let a0 = Seq::<At>::empty(); let p0 = margin0(); assert(margin_of(a0) == p0);
    assert(seen(shown_of(&f.top)@) == shown_of(&f.top)@); let a1 = with(a0, "top"@, Some(shown(f.top)@)); lemma_margin_with(a0, "top"@, Some(shown(f.top)@)); let p1 = PageMargin { top: f.top, ..p0 }; assert(margin_of(a1) == p1); assert(margin_fine(a1));
    assert(seen(shown_of(&f.right)@) == shown_of(&f.right)@); let a2 = with(a1, "right"@, Some(shown(f.right)@)); lemma_margin_with(a1, "right"@, Some(shown(f.right)@)); let p2 = PageMargin { right: f.right, ..p1 }; assert(margin_of(a2) == p2); assert(margin_fine(a2));
    assert(seen(shown_of(&f.bottom)@) == shown_of(&f.bottom)@); let a3 = with(a2, "bottom"@, Some(shown(f.bottom)@)); lemma_margin_with(a2, "bottom"@, Some(shown(f.bottom)@)); let p3 = PageMargin { bottom: f.bottom, ..p2 }; assert(margin_of(a3) == p3); assert(margin_fine(a3));
    assert(seen(shown_of(&f.left)@) == shown_of(&f.left)@); let a4 = with(a3, "left"@, Some(shown(f.left)@)); lemma_margin_with(a3, "left"@, Some(shown(f.left)@)); let p4 = PageMargin { left: f.left, ..p3 }; assert(margin_of(a4) == p4); assert(margin_fine(a4));
    assert(seen(shown_of(&f.header)@) == shown_of(&f.header)@); let a5 = with(a4, "header"@, Some(shown(f.header)@)); lemma_margin_with(a4, "header"@, Some(shown(f.header)@)); let p5 = PageMargin { header: f.header, ..p4 }; assert(margin_of(a5) == p5); assert(margin_fine(a5));
    assert(seen(shown_of(&f.footer)@) == shown_of(&f.footer)@); let a6 = with(a5, "footer"@, Some(shown(f.footer)@)); lemma_margin_with(a5, "footer"@, Some(shown(f.footer)@)); let p6 = PageMargin { footer: f.footer, ..p5 }; assert(margin_of(a6) == p6); assert(margin_fine(a6));
    assert(seen(shown_of(&f.gutter)@) == shown_of(&f.gutter)@); let a7 = with(a6, "gutter"@, Some(shown(f.gutter)@)); lemma_margin_with(a6, "gutter"@, Some(shown(f.gutter)@)); let p7 = PageMargin { gutter: f.gutter, ..p6 }; assert(margin_of(a7) == p7); assert(margin_fine(a7));
    assert(p7 == f); assert(margin_at(f) == a7); }
proof fn s_doc_grid(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.doc_grid is Some || p.doc_grid is None ==> snext(p, SectionProperty { doc_grid: x.doc_grid, ..p }, se_doc_grid(x))
{ reveal(se_doc_grid); reveal(sstep); kinds(); broadcast use sects::grid, sects::pitch, sects::space; if let Some(f) = x.doc_grid {
    reveal(grid_step); reveal(grid_ok); reveal_strlit("type"); reveal_strlit("linePitch"); reveal_strlit("charSpace"); let a0 = Seq::<At>::empty(); let p0 = DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None }; assert(grid_of(a0) == p0);
    assert(seen(shown_of(&f.grid_type)@) == shown_of(&f.grid_type)@); let a1 = with(a0, "type"@, Some(shown(f.grid_type)@)); lemma_grid_with(a0, "type"@, Some(shown(f.grid_type)@)); let p1 = DocGrid { grid_type: f.grid_type, ..p0 }; assert(grid_of(a1) == p1); assert(grid_fine(a1));
    if let Some(v) = f.line_pitch { assert(seen(shown_of(&v)@) == shown_of(&v)@); } let a2 = with(a1, "linePitch"@, num(f.line_pitch)); lemma_grid_with(a1, "linePitch"@, num(f.line_pitch)); let p2 = DocGrid { line_pitch: f.line_pitch, ..p1 }; assert(grid_of(a2) == p2); assert(grid_fine(a2));
    if let Some(v) = f.char_space { assert(seen(shown_of(&v)@) == shown_of(&v)@); } let a3 = with(a2, "charSpace"@, num(f.char_space)); lemma_grid_with(a2, "charSpace"@, num(f.char_space)); let p3 = DocGrid { char_space: f.char_space, ..p2 }; assert(grid_of(a3) == p3); assert(grid_fine(a3));
    assert(p3 == f); assert(grid_at(f.grid_type, f.line_pitch, f.char_space) == a3); } }
proof fn s_page_num_type(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.page_num_type is Some || p.page_num_type is None ==> snext(p, SectionProperty { page_num_type: x.page_num_type, ..p }, se_page_num_type(x))
{ reveal(se_page_num_type); reveal(sstep); kinds(); broadcast use nums::u32_back, sects::d_count; if let Some(f) = x.page_num_type {
    reveal(count_step); reveal(count_ok); reveal_strlit("start"); reveal_strlit("chapStyle"); let a0 = Seq::<At>::empty(); let p0 = PageNumType { start: None, chap_style: None }; assert(count_of(a0) == p0);
    if let Some(v) = f.start { assert(seen(shown_of(&v)@) == shown_of(&v)@); } let a1 = with(a0, "start"@, num(f.start)); lemma_count_with(a0, "start"@, num(f.start)); let p1 = PageNumType { start: f.start, ..p0 }; assert(count_of(a1) == p1); assert(count_fine(a1));
     let a2 = with(a1, "chapStyle"@, txt(f.chap_style)); lemma_count_with(a1, "chapStyle"@, txt(f.chap_style)); let p2 = PageNumType { chap_style: f.chap_style, ..p1 }; assert(count_of(a2) == p2); assert(count_fine(a2));
    assert(p2 == f); assert(count_at(f.start, f.chap_style) == a2); } }
proof fn s_header_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.header_reference is Some || p.header_reference is None ==> snext(p, SectionProperty { header_reference: x.header_reference, ..p }, se_header_reference(x))
{ reveal(se_header_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.header_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.header_type@)); lemma_ref_with(a0, "type"@, Some(f.header_type@)); let p1 = (""@, f.header_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.header_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.header_type@, f.id@) == a2); assert(sp_HeaderReference_new(f.header_type@, f.id@) == f); } }
proof fn s_first_header_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.first_header_reference is Some || p.first_header_reference is None ==> snext(p, SectionProperty { first_header_reference: x.first_header_reference, ..p }, se_first_header_reference(x))
{ reveal(se_first_header_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.first_header_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.header_type@)); lemma_ref_with(a0, "type"@, Some(f.header_type@)); let p1 = (""@, f.header_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.header_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.header_type@, f.id@) == a2); assert(sp_HeaderReference_new(f.header_type@, f.id@) == f); } }
proof fn s_even_header_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.even_header_reference is Some || p.even_header_reference is None ==> snext(p, SectionProperty { even_header_reference: x.even_header_reference, ..p }, se_even_header_reference(x))
{ reveal(se_even_header_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.even_header_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.header_type@)); lemma_ref_with(a0, "type"@, Some(f.header_type@)); let p1 = (""@, f.header_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.header_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.header_type@, f.id@) == a2); assert(sp_HeaderReference_new(f.header_type@, f.id@) == f); } }
proof fn s_footer_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.footer_reference is Some || p.footer_reference is None ==> snext(p, SectionProperty { footer_reference: x.footer_reference, ..p }, se_footer_reference(x))
{ reveal(se_footer_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.footer_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.footer_type@)); lemma_ref_with(a0, "type"@, Some(f.footer_type@)); let p1 = (""@, f.footer_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.footer_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.footer_type@, f.id@) == a2); assert(sp_FooterReference_new(f.footer_type@, f.id@) == f); } }
proof fn s_first_footer_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.first_footer_reference is Some || p.first_footer_reference is None ==> snext(p, SectionProperty { first_footer_reference: x.first_footer_reference, ..p }, se_first_footer_reference(x))
{ reveal(se_first_footer_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.first_footer_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.footer_type@)); lemma_ref_with(a0, "type"@, Some(f.footer_type@)); let p1 = (""@, f.footer_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.footer_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.footer_type@, f.id@) == a2); assert(sp_FooterReference_new(f.footer_type@, f.id@) == f); } }
proof fn s_even_footer_reference(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.even_footer_reference is Some || p.even_footer_reference is None ==> snext(p, SectionProperty { even_footer_reference: x.even_footer_reference, ..p }, se_even_footer_reference(x))
{ reveal(se_even_footer_reference); reveal(sstep); kinds(); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.even_footer_reference {
    reveal(ref_step); reveal(ref_ok); reveal_strlit("type"); reveal_strlit("id"); let a0 = Seq::<At>::empty(); let p0 = (""@, "default"@); assert(ref_of(a0) == p0);
     let a1 = with(a0, "type"@, Some(f.footer_type@)); lemma_ref_with(a0, "type"@, Some(f.footer_type@)); let p1 = (""@, f.footer_type@); assert(ref_of(a1) == p1); assert(ref_fine(a1));
     let a2 = with(a1, "id"@, Some(f.id@)); lemma_ref_with(a1, "id"@, Some(f.id@)); let p2 = (f.id@, f.footer_type@); assert(ref_of(a2) == p2); assert(ref_fine(a2));
    assert(ref_at(f.footer_type@, f.id@) == a2); assert(sp_FooterReference_new(f.footer_type@, f.id@) == f); } }
proof fn s_section_type(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.section_type is Some || p.section_type is None ==> snext(p, SectionProperty { section_type: x.section_type, ..p }, se_section_type(x))
{ reveal(se_section_type); reveal(sstep); kinds(); broadcast use sects::kind; if let Some(v) = x.section_type { lemma_val(shown(v)@); assert(seen(shown_of(&v)@) == shown_of(&v)@); } }
proof fn s_title_pg(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures x.title_pg || !p.title_pg ==> snext(p, SectionProperty { title_pg: x.title_pg, ..p }, se_title_pg(x))
{ reveal(se_title_pg); reveal(sstep); kinds();  }
proof fn s_text_direction(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures p.text_direction == x.text_direction ==> snext(p, SectionProperty { text_direction: x.text_direction, ..p }, se_text_direction(x))
{ reveal(se_text_direction); reveal(sstep); kinds();  }
proof fn s_cols(x: SectionProperty, p: SectionProperty) ensures snext(p, p, se_cols(x)) { reveal(se_cols); reveal(sstep); kinds(); }
/// Section formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_section_formatting(x: SectionProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_s(x)
    ensures sect_onto(x, log).subrange(0, log.len() as int) == log, sect_onto(x, log)[log.len() as int] == Tok::Open(El { n: "sectPr"@, a: Seq::empty() }),
        srun(dflt::<SectionProperty>(), sect_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(srun); broadcast use sects::d_sect;
    let c = seq![Tok::Close("sectPr"@)]; let u14 = c + t;
    let u13 = ol(se_title_pg(x)) + u14;
    let u12 = ol(se_section_type(x)) + u13;
    let u11 = ol(se_text_direction(x)) + u12;
    let u10 = ol(se_page_num_type(x)) + u11;
    let u9 = ol(se_even_footer_reference(x)) + u10;
    let u8 = ol(se_first_footer_reference(x)) + u9;
    let u7 = ol(se_footer_reference(x)) + u8;
    let u6 = ol(se_even_header_reference(x)) + u7;
    let u5 = ol(se_first_header_reference(x)) + u6;
    let u4 = ol(se_header_reference(x)) + u5;
    let u3 = ol(se_doc_grid(x)) + u4;
    let u2 = ol(se_cols(x)) + u3;
    let u1 = ol(se_page_margin(x)) + u2;
    let u0 = ol(se_page_size(x)) + u1;
    let p0 = sect0(); assert(x.text_direction == strv("lrTb"@));
    let p1 = SectionProperty { page_size: x.page_size, ..p0 }; s_page_size(x, p0); lemma_snext(p0, p1, se_page_size(x), u1);
    let p2 = SectionProperty { page_margin: x.page_margin, ..p1 }; s_page_margin(x, p1); lemma_snext(p1, p2, se_page_margin(x), u2);
    let p3 = p2; s_cols(x, p2); lemma_snext(p2, p3, se_cols(x), u3);
    let p4 = SectionProperty { doc_grid: x.doc_grid, ..p3 }; s_doc_grid(x, p3); lemma_snext(p3, p4, se_doc_grid(x), u4);
    let p5 = SectionProperty { header_reference: x.header_reference, ..p4 }; s_header_reference(x, p4); lemma_snext(p4, p5, se_header_reference(x), u5);
    let p6 = SectionProperty { first_header_reference: x.first_header_reference, ..p5 }; s_first_header_reference(x, p5); lemma_snext(p5, p6, se_first_header_reference(x), u6);
    let p7 = SectionProperty { even_header_reference: x.even_header_reference, ..p6 }; s_even_header_reference(x, p6); lemma_snext(p6, p7, se_even_header_reference(x), u7);
    let p8 = SectionProperty { footer_reference: x.footer_reference, ..p7 }; s_footer_reference(x, p7); lemma_snext(p7, p8, se_footer_reference(x), u8);
    let p9 = SectionProperty { first_footer_reference: x.first_footer_reference, ..p8 }; s_first_footer_reference(x, p8); lemma_snext(p8, p9, se_first_footer_reference(x), u9);
    let p10 = SectionProperty { even_footer_reference: x.even_footer_reference, ..p9 }; s_even_footer_reference(x, p9); lemma_snext(p9, p10, se_even_footer_reference(x), u10);
    let p11 = SectionProperty { page_num_type: x.page_num_type, ..p10 }; s_page_num_type(x, p10); lemma_snext(p10, p11, se_page_num_type(x), u11);
    let p12 = SectionProperty { text_direction: x.text_direction, ..p11 }; s_text_direction(x, p11); lemma_snext(p11, p12, se_text_direction(x), u12);
    let p13 = SectionProperty { section_type: x.section_type, ..p12 }; s_section_type(x, p12); lemma_snext(p12, p13, se_section_type(x), u13);
    let p14 = SectionProperty { title_pg: x.title_pg, ..p13 }; s_title_pg(x, p13); lemma_snext(p13, p14, se_title_pg(x), u14);
    assert(p14 == x); let s14 = c;
    let s13 = ol(se_title_pg(x)) + s14; lemma_cat(ol(se_title_pg(x)), s14, t);
    let s12 = ol(se_section_type(x)) + s13; lemma_cat(ol(se_section_type(x)), s13, t);
    let s11 = ol(se_text_direction(x)) + s12; lemma_cat(ol(se_text_direction(x)), s12, t);
    let s10 = ol(se_page_num_type(x)) + s11; lemma_cat(ol(se_page_num_type(x)), s11, t);
    let s9 = ol(se_even_footer_reference(x)) + s10; lemma_cat(ol(se_even_footer_reference(x)), s10, t);
    let s8 = ol(se_first_footer_reference(x)) + s9; lemma_cat(ol(se_first_footer_reference(x)), s9, t);
    let s7 = ol(se_footer_reference(x)) + s8; lemma_cat(ol(se_footer_reference(x)), s8, t);
    let s6 = ol(se_even_header_reference(x)) + s7; lemma_cat(ol(se_even_header_reference(x)), s7, t);
    let s5 = ol(se_first_header_reference(x)) + s6; lemma_cat(ol(se_first_header_reference(x)), s6, t);
    let s4 = ol(se_header_reference(x)) + s5; lemma_cat(ol(se_header_reference(x)), s5, t);
    let s3 = ol(se_doc_grid(x)) + s4; lemma_cat(ol(se_doc_grid(x)), s4, t);
    let s2 = ol(se_cols(x)) + s3; lemma_cat(ol(se_cols(x)), s3, t);
    let s1 = ol(se_page_margin(x)) + s2; lemma_cat(ol(se_page_margin(x)), s2, t);
    let s0 = ol(se_page_size(x)) + s1; lemma_cat(ol(se_page_size(x)), s1, t);
    assert(sect_body(x, c) == s0); assert(s0 + t == u0);
    assert(u14[0] == Tok::Close("sectPr"@)); assert(u14.skip(1) =~= t); lemma_srun_end(x, u14);
    let o = seq![Tok::Open(El { n: "sectPr"@, a: Seq::empty() })];
    assert(sect_onto(x, log) == log + (o + s0));
    assert(sect_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(sect_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}
//@auto except=Header,Footer
proof fn vx_probe() ensures false {}
fn main(){}
}
