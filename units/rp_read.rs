// Paragraph formatting: what is read.
/// What further element names stand for.
#[verifier::opaque] pub open spec fn kind_p(n: Seq<char>) -> Option<XMLElement> {
    if n == "pPr"@ { Some(XMLElement::ParagraphProperty) } else if n == "pStyle"@ { Some(XMLElement::ParagraphStyle) } else if n == "numPr"@ { Some(XMLElement::NumberingProperty) } else if n == "framePr"@ { Some(XMLElement::FrameProperty) } else if n == "jc"@ { Some(XMLElement::Justification) } else if n == "ind"@ { Some(XMLElement::Indent) } else if n == "outlineLvl"@ { Some(XMLElement::OutlineLvl) } else if n == "textAlignment"@ { Some(XMLElement::TextAlignment) } else if n == "adjustRightInd"@ { Some(XMLElement::AdjustRightInd) } else if n == "snapToGrid"@ { Some(XMLElement::SnapToGrid) } else if n == "keepNext"@ { Some(XMLElement::KeepNext) } else if n == "keepLines"@ { Some(XMLElement::KeepLines) } else if n == "pageBreakBefore"@ { Some(XMLElement::PageBreakBefore) } else if n == "widowControl"@ { Some(XMLElement::WidowControl) } else if n == "tabs"@ { Some(XMLElement::Tabs) } else if n == "tab"@ { Some(XMLElement::Tab) } else if n == "ilvl"@ { Some(XMLElement::IndentLevel) } else if n == "numId"@ { Some(XMLElement::NumberingId) } else if n == "wrap"@ { Some(XMLElement::Wrap) } else if n == "hRule"@ { Some(XMLElement::HeightRule) } else if n == "hAnchor"@ { Some(XMLElement::HAnchor) } else if n == "vAnchor"@ { Some(XMLElement::VAnchor) } else if n == "hSpace"@ { Some(XMLElement::HSpace) } else if n == "vSpace"@ { Some(XMLElement::VSpace) } else if n == "xAlign"@ { Some(XMLElement::XAlign) } else if n == "yAlign"@ { Some(XMLElement::YAlign) } else if n == "h"@ { Some(XMLElement::H) } else if n == "x"@ { Some(XMLElement::X) } else if n == "y"@ { Some(XMLElement::Y) } else { None }
}
#[verifier::opaque] pub open spec fn pk(n: Seq<char>) -> Option<XMLElement> { match kind(n) { Some(k) => Some(k), None => kind_p(n) } }
proof fn kinds_p() ensures
    pk("pPr"@) == Some(XMLElement::ParagraphProperty),
    pk("pStyle"@) == Some(XMLElement::ParagraphStyle),
    pk("numPr"@) == Some(XMLElement::NumberingProperty),
    pk("framePr"@) == Some(XMLElement::FrameProperty),
    pk("jc"@) == Some(XMLElement::Justification),
    pk("ind"@) == Some(XMLElement::Indent),
    pk("outlineLvl"@) == Some(XMLElement::OutlineLvl),
    pk("textAlignment"@) == Some(XMLElement::TextAlignment),
    pk("adjustRightInd"@) == Some(XMLElement::AdjustRightInd),
    pk("snapToGrid"@) == Some(XMLElement::SnapToGrid),
    pk("keepNext"@) == Some(XMLElement::KeepNext),
    pk("keepLines"@) == Some(XMLElement::KeepLines),
    pk("pageBreakBefore"@) == Some(XMLElement::PageBreakBefore),
    pk("widowControl"@) == Some(XMLElement::WidowControl),
    pk("tabs"@) == Some(XMLElement::Tabs),
    pk("tab"@) == Some(XMLElement::Tab),
    pk("ilvl"@) == Some(XMLElement::IndentLevel),
    pk("numId"@) == Some(XMLElement::NumberingId),
    pk("wrap"@) == Some(XMLElement::Wrap),
    pk("hRule"@) == Some(XMLElement::HeightRule),
    pk("hAnchor"@) == Some(XMLElement::HAnchor),
    pk("vAnchor"@) == Some(XMLElement::VAnchor),
    pk("hSpace"@) == Some(XMLElement::HSpace),
    pk("vSpace"@) == Some(XMLElement::VSpace),
    pk("xAlign"@) == Some(XMLElement::XAlign),
    pk("yAlign"@) == Some(XMLElement::YAlign),
    pk("h"@) == Some(XMLElement::H),
    pk("x"@) == Some(XMLElement::X),
    pk("y"@) == Some(XMLElement::Y),
    pk("spacing"@) == Some(XMLElement::Spacing),
    pk("shd"@) == Some(XMLElement::Shading),
    pk("w"@) == Some(XMLElement::W),
    pk("rPr"@) == Some(XMLElement::RunProperty),
{ reveal(pk); reveal(kind); reveal(kind_p); reveal_strlit("rPr"); reveal_strlit("rPrChange"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("ptab"); reveal_strlit("rStyle"); reveal_strlit("b"); reveal_strlit("bCs"); reveal_strlit("i"); reveal_strlit("iCs"); reveal_strlit("caps"); reveal_strlit("strike"); reveal_strlit("dstrike"); reveal_strlit("highlight"); reveal_strlit("u"); reveal_strlit("vertAlign"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("szCs"); reveal_strlit("spacing"); reveal_strlit("fitText"); reveal_strlit("rFonts"); reveal_strlit("shd"); reveal_strlit("vanish"); reveal_strlit("specVanish"); reveal_strlit("bdr"); reveal_strlit("w"); reveal_strlit("pPr"); reveal_strlit("pStyle"); reveal_strlit("numPr"); reveal_strlit("framePr"); reveal_strlit("jc"); reveal_strlit("ind"); reveal_strlit("outlineLvl"); reveal_strlit("textAlignment"); reveal_strlit("adjustRightInd"); reveal_strlit("snapToGrid"); reveal_strlit("keepNext"); reveal_strlit("keepLines"); reveal_strlit("pageBreakBefore"); reveal_strlit("widowControl"); reveal_strlit("tabs"); reveal_strlit("tab"); reveal_strlit("ilvl"); reveal_strlit("numId"); reveal_strlit("wrap"); reveal_strlit("hRule"); reveal_strlit("hAnchor"); reveal_strlit("vAnchor"); reveal_strlit("hSpace"); reveal_strlit("vSpace"); reveal_strlit("xAlign"); reveal_strlit("yAlign"); reveal_strlit("h"); reveal_strlit("x"); reveal_strlit("y"); }
pub mod more_nums {
    use super::*;
    // TRUSTED: whole numbers up to 2^24 are read exactly by way of a short floating point number; numbers contain no letters.
    pub broadcast axiom fn usize_back_f32(n: &usize) ensures #![trigger shown_of::<usize>(n)] *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<usize>(n)@) matches Some(f) && cast::<f32, usize>(f) == *n);
    pub broadcast axiom fn isize_back(n: &isize) ensures #![trigger shown_of::<isize>(n)] parsed::<isize>(shown_of::<isize>(n)@) == Some(*n), seen(shown_of::<isize>(n)@) == shown_of::<isize>(n)@;
    pub broadcast axiom fn no_unit(n: &i32) ensures #![trigger shown_of::<i32>(n)] !ends(shown_of::<i32>(n)@, "pt"@);
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn align(t: &AlignmentType) ensures #![trigger shown_of::<AlignmentType>(t)] named::<AlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn text_align(t: &TextAlignmentType) ensures #![trigger shown_of::<TextAlignmentType>(t)] named::<TextAlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn tab_val(t: &TabValueType) ensures #![trigger shown_of::<TabValueType>(t)] named::<TabValueType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn tab_leader(t: &TabLeaderType) ensures #![trigger shown_of::<TabLeaderType>(t)] named::<TabLeaderType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: these words contain no markup.
    pub axiom fn words() ensures seen("auto"@) == "auto"@, seen("atLeast"@) == "atLeast"@, seen("exact"@) == "exact"@, seen("1"@) == "1"@;
    // TRUSTED: derived defaults.
    pub broadcast axiom fn d_ppr() ensures #[trigger] dflt::<ParagraphProperty>() == no_ppr();
    pub broadcast axiom fn d_frame() ensures #[trigger] dflt::<FrameProperty>() == no_frame();
    pub broadcast axiom fn d_spacing() ensures #[trigger] dflt::<LineSpacing>() == no_spacing();
    pub broadcast axiom fn d_tab() ensures #[trigger] dflt::<Tab>() == (Tab { val: None, leader: None, pos: None });
    pub broadcast axiom fn d_num() ensures #[trigger] dflt::<NumberingProperty>() == (NumberingProperty { id: None, level: None });
    pub broadcast axiom fn d_tabs() ensures (#[trigger] dflt::<Tabs>()).tabs@ == Seq::<Tab>::empty();
    pub broadcast axiom fn no_items<T>() ensures (#[trigger] vecv(Seq::<T>::empty()))@ == Seq::<T>::empty();
}
pub open spec fn no_ppr() -> ParagraphProperty { ParagraphProperty { run_property: no_rpr(), style: None, numbering_property: None, alignment: None, indent: None, line_spacing: None, keep_next: None, keep_lines: None, bidi: None, page_break_before: None, widow_control: None, outline_lvl: None, section_property: None, tabs: vecv(Seq::empty()), paragraph_property_change: None, borders: None, frame_property: None, text_alignment: None, adjust_right_ind: None, snap_to_grid: None, shading: None, div_id: None } }
pub open spec fn no_frame() -> FrameProperty { FrameProperty { h: None, h_rule: None, h_anchor: None, h_space: None, v_anchor: None, v_space: None, w: None, wrap: None, x: None, x_align: None, y: None, y_align: None } }
pub open spec fn no_spacing() -> LineSpacing { LineSpacing { line_rule: None, before: None, after: None, before_lines: None, after_lines: None, line: None } }

//@fn ParagraphProperty::new r=out
//@| ensures out == dflt::<ParagraphProperty>(),
//@end
//@fn FrameProperty::new r=out
//@| ensures out == dflt::<FrameProperty>(),
//@end
//@fn LineSpacing::new r=out
//@| ensures out == dflt::<LineSpacing>(),
//@sub `Self::default()` => `vx_default()`
//@end
//@fn Tabs::new r=out
//@| ensures out == dflt::<Tabs>(),
//@end
//@fn NumberingId::new r=out
//@| ensures out.id == id,
//@end
//@fn IndentLevel::new r=out
//@| ensures out.val == val,
//@end
//@fn OutlineLvl::new r=out
//@| requires v < 10,
//@| ensures out.v == v,
//@sub `assert!(v < 10, "outline level should be less than 10");` => `assert(v < 10);`
//@end
//@fn ParagraphProperty::outline_lvl r=out
//@| ensures out == (ParagraphProperty { outline_lvl: Some(OutlineLvl { v: if v >= 10 { 9 } else { v } }), ..self }),
//@end
//@fn ParagraphStyle::new r=out
//@| ensures val matches Some(v) ==> out.val == escaped(v.chars()),
//@end
//@fn ParagraphProperty::style r=out
//@| ensures out == (ParagraphProperty { style: Some(ParagraphStyle { val: escaped(style_id@) }), ..self }),
//@end
//@fn <AlignmentType as FromStr>::from_str ext
//@| ensures (match (r, named::<AlignmentType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TextAlignmentType as FromStr>::from_str ext
//@| ensures (match (r, named::<TextAlignmentType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TabValueType as FromStr>::from_str ext
//@| ensures (match (r, named::<TabValueType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TabLeaderType as FromStr>::from_str ext
//@| ensures (match (r, named::<TabLeaderType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub open spec fn rule_of(s: Seq<char>) -> Option<LineSpacingType> { if s == "auto"@ { Some(LineSpacingType::Auto) } else if s == "atLeast"@ { Some(LineSpacingType::AtLeast) } else if s == "exact"@ { Some(LineSpacingType::Exact) } else { None } }
//@fn <LineSpacingType as FromStr>::from_str autostr
//@| ensures (match (r, rule_of(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact"); }
//@end
/// A length: in points, or a number.
pub open spec fn points(s: Seq<char>) -> Option<i32> { match float_to::<i32>(without(s)) { Some(n) => Some(times(n, 20)), None => None } }
pub open spec fn dax(s: Seq<char>) -> Option<i32> { if ends(s, "pt"@) { points(s) } else { float_to::<i32>(s) } }
pub uninterp spec fn times(a: i32, b: i32) -> i32;
pub trait VxTimes { fn vx_times(self, o: i32) -> (r: i32); }
impl VxTimes for i32 { #[verifier::external_body] fn vx_times(self, o: i32) -> (r: i32) ensures r == times(self, o) { unimplemented!() } }
//@fn reader/attributes/val.rs::value_to_dax casts
//@| ensures (match (r, dax(v@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@sub `.saturating_mul(` => `.vx_times(`
//@end
pub type Ind = (Option<i32>, Option<i32>, Option<SpecialIndentType>, Option<i32>, Option<i32>, Option<i32>);
#[verifier::opaque] pub open spec fn ind_step(p: Ind, n: Seq<char>, v: Seq<char>) -> Option<Ind> {
    if n == "left"@ || n == "start"@ { match dax(v) { Some(d) => Some((Some(d), p.1, p.2, p.3, p.4, p.5)), None => None } }
    else if n == "leftChars"@ || n == "startChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, Some(d), p.4, p.5)), None => None } }
    else if n == "end"@ || n == "right"@ { match dax(v) { Some(d) => Some((p.0, Some(d), p.2, p.3, p.4, p.5)), None => None } }
    else if n == "hanging"@ { match dax(v) { Some(d) => Some((p.0, p.1, Some(SpecialIndentType::Hanging(d)), p.3, p.4, p.5)), None => None } }
    else if n == "firstLine"@ { match dax(v) { Some(d) => Some((p.0, p.1, Some(SpecialIndentType::FirstLine(d)), p.3, p.4, p.5)), None => None } }
    else if n == "firstLineChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, p.3, p.4, Some(d))), None => Some(p) } }
    else if n == "hangingChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, p.3, Some(d), p.5)), None => Some(p) } }
    else { Some(p) }
}
#[verifier::opaque] pub open spec fn spacing_step(p: LineSpacing, n: Seq<char>, v: Seq<char>) -> Option<LineSpacing> {
    if n == "before"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_before(p, d)), None => None } }
    else if n == "after"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_after(p, d)), None => None } }
    else if n == "line"@ { match float_to::<i32>(v) { Some(d) => Some(sp_LineSpacing_line(p, d)), None => None } }
    else if n == "lineRule"@ { match rule_of(v) { Some(d) => Some(sp_LineSpacing_line_rule(p, d)), None => None } }
    else if n == "beforeLines"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_before_lines(p, d)), None => None } }
    else if n == "afterLines"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_after_lines(p, d)), None => None } }
    else { Some(p) }
}
#[verifier::opaque] pub open spec fn frame_step(p: FrameProperty, n: Seq<char>, v: Seq<char>) -> Option<FrameProperty> {
    match pk(n) {
        Some(XMLElement::Wrap) => Some(sp_FrameProperty_wrap(p, v)),
        Some(XMLElement::HeightRule) => Some(sp_FrameProperty_h_rule(p, v)),
        Some(XMLElement::HAnchor) => Some(sp_FrameProperty_h_anchor(p, v)),
        Some(XMLElement::VAnchor) => Some(sp_FrameProperty_v_anchor(p, v)),
        Some(XMLElement::XAlign) => Some(sp_FrameProperty_x_align(p, v)),
        Some(XMLElement::YAlign) => Some(sp_FrameProperty_y_align(p, v)),
        Some(XMLElement::X) => match float_to::<i32>(v) { Some(d) => Some(sp_FrameProperty_x(p, d)), None => Some(p) },
        Some(XMLElement::Y) => match float_to::<i32>(v) { Some(d) => Some(sp_FrameProperty_y(p, d)), None => Some(p) },
        Some(XMLElement::HSpace) => match float_to::<i32>(v) { Some(d) => Some(sp_FrameProperty_h_space(p, d)), None => Some(p) },
        Some(XMLElement::VSpace) => match float_to::<i32>(v) { Some(d) => Some(sp_FrameProperty_v_space(p, d)), None => Some(p) },
        Some(XMLElement::W) => match float_to::<u32>(v) { Some(d) => Some(sp_FrameProperty_width(p, d)), None => Some(p) },
        Some(XMLElement::H) => match float_to::<u32>(v) { Some(d) => Some(sp_FrameProperty_height(p, d)), None => Some(p) },
        Some(_) => Some(p),
        None => None,
    }
}
pub open spec fn ind_of(a: Seq<At>) -> Option<Ind> decreases a.len()
{ if a.len() == 0 { Some((None, None, None, None, None, None)) } else { match ind_of(a.drop_last()) { Some(p) => ind_step(p, a.last().n, a.last().v), None => None } } }
proof fn lemma_ind_none(a: Seq<At>, i: int)
    requires 0 <= i <= a.len()
    ensures ind_of(a.take(i)) is None ==> ind_of(a) is None
    decreases a.len()
{ if i == a.len() { assert(a.take(i) =~= a); } else { lemma_ind_none(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } }
proof fn lemma_ind_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures ind_of(with(a, n, v)) == (match v { Some(v) => match ind_of(a) { Some(p) => ind_step(p, n, seen(v)), None => None }, None => ind_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }
pub open spec fn spacing_of(a: Seq<At>) -> Option<LineSpacing> decreases a.len()
{ if a.len() == 0 { Some(dflt::<LineSpacing>()) } else { match spacing_of(a.drop_last()) { Some(p) => spacing_step(p, a.last().n, a.last().v), None => None } } }
proof fn lemma_spacing_none(a: Seq<At>, i: int)
    requires 0 <= i <= a.len()
    ensures spacing_of(a.take(i)) is None ==> spacing_of(a) is None
    decreases a.len()
{ if i == a.len() { assert(a.take(i) =~= a); } else { lemma_spacing_none(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } }
proof fn lemma_spacing_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures spacing_of(with(a, n, v)) == (match v { Some(v) => match spacing_of(a) { Some(p) => spacing_step(p, n, seen(v)), None => None }, None => spacing_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }
pub open spec fn frame_of(a: Seq<At>) -> Option<FrameProperty> decreases a.len()
{ if a.len() == 0 { Some(dflt::<FrameProperty>()) } else { match frame_of(a.drop_last()) { Some(p) => frame_step(p, a.last().n, a.last().v), None => None } } }
proof fn lemma_frame_none(a: Seq<At>, i: int)
    requires 0 <= i <= a.len()
    ensures frame_of(a.take(i)) is None ==> frame_of(a) is None
    decreases a.len()
{ if i == a.len() { assert(a.take(i) =~= a); } else { lemma_frame_none(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } }
proof fn lemma_frame_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures frame_of(with(a, n, v)) == (match v { Some(v) => match frame_of(a) { Some(p) => frame_step(p, n, seen(v)), None => None }, None => frame_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }
//@fn reader/attributes/indent.rs::read_indent casts
//@| ensures ind_of(av(attrs@)) matches Some(x) ==> r == Ok::<Ind, ReaderError>(x),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant ind_of(av(attrs@).take(it.index@ as int)) == Some((start, end, special, start_chars, hanging_chars, first_line_chars)),
//@loopstart 0
//@| proof { let s = av(attrs@); lemma_ind_none(s, it.index@ + 1); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal(ind_step); reveal_strlit("left"); reveal_strlit("start"); reveal_strlit("leftChars"); reveal_strlit("startChars"); reveal_strlit("end"); reveal_strlit("right"); reveal_strlit("hanging"); reveal_strlit("firstLine"); reveal_strlit("firstLineChars"); reveal_strlit("hangingChars"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn reader/attributes/line_spacing.rs::read_line_spacing autostr casts
//@| ensures spacing_of(av(attributes@)) matches Some(x) ==> r == Ok::<LineSpacing, ReaderError>(x),
//@at start
//@| proof { assert(av(attributes@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant spacing_of(av(attributes@).take(it.index@ as int)) == Some(spacing),
//@loopstart 0
//@| proof { let s = av(attributes@); lemma_spacing_none(s, it.index@ + 1); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal(spacing_step); reveal_strlit("before"); reveal_strlit("after"); reveal_strlit("line"); reveal_strlit("lineRule"); reveal_strlit("beforeLines"); reveal_strlit("afterLines"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end
//@fn <FrameProperty as ElementReader>::read r=out casts
//@| ensures frame_of(av(attrs@)) matches Some(x) ==> out == Ok::<FrameProperty, ReaderError>(x), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant frame_of(av(attrs@).take(it.index@ as int)) matches Some(x) ==> x == fp, _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); lemma_frame_none(s, it.index@ + 1); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal(frame_step);  }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
/// The first attribute with a name whose value means something.
pub open spec fn pick<T>(s: Seq<At>, n: Seq<char>, g: spec_fn(Seq<char>) -> Option<T>) -> Option<T> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n && g(s[0].v) is Some { g(s[0].v) } else { pick(s.skip(1), n, g) } }
pub open spec fn as_val() -> spec_fn(Seq<char>) -> Option<TabValueType> { |v: Seq<char>| named::<TabValueType>(v) }
pub open spec fn as_leader() -> spec_fn(Seq<char>) -> Option<TabLeaderType> { |v: Seq<char>| named::<TabLeaderType>(v) }
pub open spec fn as_pos() -> spec_fn(Seq<char>) -> Option<f32> { |v: Seq<char>| parsed::<f32>(v) }
//@fn reader/tab.rs::read_custom_tab_stop_type
//@| ensures (match (r, pick(av(attributes@), "val"@, as_val())) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant pick(av(attributes@).skip(it.index@ as int), "val"@, as_val()) == pick(av(attributes@), "val"@, as_val()),
//@loopstart 0
//@| proof { let s = av(attributes@); let u = s.skip(it.index@ as int); assert(u[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); assert(u.skip(1) =~= s.skip(it.index@ + 1)); }
//@end
//@fn reader/tab.rs::read_custom_tab_stop_leader
//@| ensures (match (r, pick(av(attributes@), "leader"@, as_leader())) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant pick(av(attributes@).skip(it.index@ as int), "leader"@, as_leader()) == pick(av(attributes@), "leader"@, as_leader()),
//@loopstart 0
//@| proof { let s = av(attributes@); let u = s.skip(it.index@ as int); assert(u[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); assert(u.skip(1) =~= s.skip(it.index@ + 1)); }
//@end
//@fn reader/tab.rs::read_custom_tab_stop_pos
//@| ensures (match (r, pick(av(attributes@), "pos"@, as_pos())) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant pick(av(attributes@).skip(it.index@ as int), "pos"@, as_pos()) == pick(av(attributes@), "pos"@, as_pos()),
//@loopstart 0
//@| proof { let s = av(attributes@); let u = s.skip(it.index@ as int); assert(u[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); assert(u.skip(1) =~= s.skip(it.index@ + 1)); }
//@end
pub open spec fn tab_of(a: Seq<At>) -> Tab { Tab { val: pick(a, "val"@, as_val()), leader: pick(a, "leader"@, as_leader()), pos: match pick(a, "pos"@, as_pos()) { Some(f) => Some(cast::<f32, usize>(f)), None => None } } }
//@fn <Tab as ElementReader>::read r=out casts
//@| ensures old(r).todo().len() > 0 && (old(r).todo()[0] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) ==> out == Ok::<Tab, ReaderError>(tab_of(av(attrs@))) && final(r).todo() == old(r).todo().skip(1),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_tab;
//@loop 0
//@| invariant tab == tab_of(av(attrs@)), old(r).todo().len() > 0 && (old(r).todo()[0] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) ==> r.todo() == old(r).todo(),
//@end
pub open spec fn tabs_run(s: Seq<Tab>, t: Seq<Tok>) -> Option<(Seq<Tab>, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if pk(e.n) == Some(XMLElement::Tab) { if t.len() > 1 && (t[1] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) { tabs_run(s.push(tab_of(e.a)), t.skip(2)) } else { None } } else if pk(e.n) is Some { tabs_run(s, t.skip(1)) } else { None },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::Tabs { Some((s, t.skip(1))) } else { tabs_run(s, t.skip(1)) }, None => None },
        Tok::Chars(_) => tabs_run(s, t.skip(1)),
    } }
}
//@fn <Tabs as ElementReader>::read r=out
//@| ensures tabs_run(Seq::empty(), old(r).todo()) matches Some(x) ==> (out matches Ok(tb) && tb.tabs@ == x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_tabs;
//@loop 0
//@| invariant tabs_run(Seq::empty(), old(r).todo()) is Some ==> tabs_run(tabs.tabs@, r.todo()) == tabs_run(Seq::empty(), old(r).todo()),
//@loopstart 0
//@| proof { let t = r.todo(); if t.len() > 1 { assert(t.skip(1)[0] == t[1]); assert(t.skip(1).skip(1) =~= t.skip(2)); } }
//@end
pub open spec fn num_of(id: Option<usize>, level: Option<usize>) -> NumberingProperty { NumberingProperty { id: match id { Some(id) => Some(NumberingId { id }), None => None }, level: match level { Some(val) => Some(IndentLevel { val }), None => None } } }
pub open spec fn num_run(id: Option<usize>, level: Option<usize>, t: Seq<Tok>) -> Option<(NumberingProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match pk(e.n) {
            Some(XMLElement::IndentLevel) => match first(e.a, "val"@) { Some(v) => match parsed::<usize>(v) { Some(n) => num_run(id, Some(n), t.skip(1)), None => None }, None => num_run(id, level, t.skip(1)) },
            Some(XMLElement::NumberingId) => match first(e.a, "val"@) { Some(v) => match parsed::<usize>(v) { Some(n) => num_run(Some(n), level, t.skip(1)), None => None }, None => num_run(id, level, t.skip(1)) },
            Some(_) => num_run(id, level, t.skip(1)),
            None => None,
        },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::NumberingProperty { Some((num_of(id, level), t.skip(1))) } else { num_run(id, level, t.skip(1)) }, None => None },
        Tok::Chars(_) => num_run(id, level, t.skip(1)),
    } }
}
//@fn <NumberingProperty as ElementReader>::read r=out
//@| ensures num_run(None, None, old(r).todo()) matches Some(x) ==> out == Ok::<NumberingProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_num;
//@loop 0
//@| invariant num_run(None, None, old(r).todo()) is Some ==> num_run(id, level, r.todo()) == num_run(None, None, old(r).todo()),
//@loopstart 0
//@| broadcast use more_nums::d_num;
//@end
/// What one child element without content does to the paragraph formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn pstep(p: ParagraphProperty, k: XMLElement, a: Seq<At>) -> Option<ParagraphProperty> {
    let v = first(a, "val"@);
    match k {
        XMLElement::RunProperty | XMLElement::NumberingProperty | XMLElement::Tabs | XMLElement::SectionProperty | XMLElement::ParagraphPropertyChange | XMLElement::ParagraphBorders => None,
        XMLElement::Indent => match ind_of(a) { Some(i) => if i.4 is None && i.5 is None { Some(sp_ParagraphProperty_indent(p, i.0, i.2, i.1, i.3)) } else { None }, None => None },
        XMLElement::Spacing => match spacing_of(a) { Some(l) => Some(sp_ParagraphProperty_line_spacing(p, l)), None => None },
        XMLElement::Justification => match v { Some(v) => match named::<AlignmentType>(v) { Some(t) => Some(sp_ParagraphProperty_align(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::TextAlignment => match v { Some(v) => match named::<TextAlignmentType>(v) { Some(t) => Some(sp_ParagraphProperty_text_alignment(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::AdjustRightInd => match v { Some(v) => match parsed::<isize>(v) { Some(t) => Some(sp_ParagraphProperty_adjust_right_ind(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::ParagraphStyle => match v { Some(v) => Some(ParagraphProperty { style: Some(ParagraphStyle { val: escaped(v) }), ..p }), None => Some(p) },
        XMLElement::DivId => match v { Some(v) => Some(ParagraphProperty { div_id: Some(strv(v)), ..p }), None => Some(p) },
        XMLElement::OutlineLvl => match v { Some(v) => match parsed::<usize>(v) { Some(n) => Some(ParagraphProperty { outline_lvl: Some(OutlineLvl { v: if n >= 10 { 9 } else { n } }), ..p }), None => Some(p) }, None => Some(p) },
        XMLElement::SnapToGrid => Some(ParagraphProperty { snap_to_grid: Some(on(a)), ..p }),
        XMLElement::KeepNext => Some(ParagraphProperty { keep_next: if on(a) { Some(true) } else { p.keep_next }, ..p }),
        XMLElement::KeepLines => Some(ParagraphProperty { keep_lines: if on(a) { Some(true) } else { p.keep_lines }, ..p }),
        XMLElement::PageBreakBefore => Some(ParagraphProperty { page_break_before: if on(a) { Some(true) } else { p.page_break_before }, ..p }),
        XMLElement::WidowControl => Some(ParagraphProperty { widow_control: if on(a) { Some(true) } else { p.widow_control }, ..p }),
        XMLElement::FrameProperty => match frame_of(a) { Some(f) => Some(ParagraphProperty { frame_property: Some(f), ..p }), None => None },
        XMLElement::Shading => Some(ParagraphProperty { shading: Some(shd_of(a)), ..p }),
        _ => Some(p),
    }
}
/// Paragraph formatting read from tokens, and the tokens after it.
pub open spec fn prun(p: ParagraphProperty, t: Seq<Tok>) -> Option<(ParagraphProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match pk(e.n) {
            Some(XMLElement::RunProperty) => match run(dflt::<RunProperty>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(ParagraphProperty { run_property: x.0, ..p }, x.1) } else { None }, None => None },
            Some(XMLElement::NumberingProperty) => match num_run(None, None, t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(sp_ParagraphProperty_numbering_property(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::Tabs) => match tabs_run(Seq::empty(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(ParagraphProperty { tabs: vecv(p.tabs@ + x.0), ..p }, x.1) } else { None }, None => None },
            Some(k) => match pstep(p, k, e.a) { Some(q) => prun(q, t.skip(1)), None => None },
            None => None,
        },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::ParagraphProperty { Some((p, t.skip(1))) } else { prun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => prun(p, t.skip(1)),
    } }
}
//@fn <SectionProperty as ElementReader>::read ext r=out
//@end
//@fn <ParagraphPropertyChange as ElementReader>::read ext r=out
//@end
//@fn <ParagraphBorders as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <ParagraphProperty as ElementReader>::read r=out
//@| ensures prun(dflt::<ParagraphProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<ParagraphProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant prun(dflt::<ParagraphProperty>(), old(r).todo()) is Some ==> prun(p, r.todo()) == prun(dflt::<ParagraphProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(pstep); }
//@before `for t in tabs.tabs`
//@| let ghost p0 = p; let ghost ts = tabs.tabs@; proof { assert(p0.tabs@ + ts.take(0) =~= p0.tabs@); }
//@loop 1 iter=it
//@| invariant it.seq() == ts, p == (ParagraphProperty { tabs: p.tabs, ..p0 }), p.tabs@ == p0.tabs@ + ts.take(it.index@ as int),
//@loopend 1
//@| proof { assert((p0.tabs@ + ts.take(it.index@ as int)).push(ts[it.index@ as int]) =~= p0.tabs@ + ts.take(it.index@ + 1)); }
//@afterloop 1
//@| proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end

// Reading what was written.
proof fn n_leaf(p: ParagraphProperty, q: ParagraphProperty, e: El, k: XMLElement, t: Seq<Tok>)
    requires pk(e.n) == Some(k), pstep(p, k, e.a) == Some(q), k != XMLElement::ParagraphProperty
    ensures prun(p, leaf(e) + t) == prun(q, t)
{
    reveal(pstep);
    let u = leaf(e) + t;
    assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);
    reveal_with_fuel(prun, 3);
}
proof fn n_opt(p: ParagraphProperty, q: ParagraphProperty, o: Option<El>, k: XMLElement, t: Seq<Tok>)
    requires o matches Some(e) ==> pk(e.n) == Some(k) && pstep(p, k, e.a) == Some(q), k != XMLElement::ParagraphProperty, o is None ==> p == q
    ensures prun(p, ol(o) + t) == prun(q, t)
{ reveal(ol); if let Some(e) = o { n_leaf(p, q, e, k, t); } else { assert(ol(o) + t =~= t); } }
/// Formatting that builder calls produce from text without stray markup.
pub open spec fn settled_p(x: ParagraphProperty) -> bool {
    &&& simple_p(x) && settled(x.run_property) && x.bidi is None && x.div_id is None
    &&& (x.style matches Some(s) ==> kept_e(s.val))
    &&& (x.frame_property matches Some(f) ==> kept_o(f.wrap) && kept_o(f.h_rule) && kept_o(f.h_anchor) && kept_o(f.v_anchor) && kept_o(f.x_align) && kept_o(f.y_align))
    &&& (x.alignment matches Some(j) ==> exists |t: AlignmentType| j.val == #[trigger] shown_of(&t))
    &&& (x.indent matches Some(i) ==> i.start is Some && i.end is Some && i.hanging_chars is None && i.first_line_chars is None)
    &&& (x.outline_lvl matches Some(l) ==> l.v < 10)
    &&& (x.shading matches Some(s) ==> kept(s.color) && kept(s.fill))
    &&& x.keep_next != Some(false) && x.keep_lines != Some(false) && x.page_break_before != Some(false) && x.widow_control != Some(false)
    &&& (forall |i: int| 0 <= i < x.tabs@.len() ==> ((#[trigger] x.tabs@[i]).pos matches Some(n) ==> n <= 0x100_0000))
}
proof fn n_style(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.style is None
    ensures prun(p, ol(po_style(x)) + t) == prun(ParagraphProperty { style: x.style, ..p }, t)
{
    reveal(po_style); reveal(pstep); kinds_p(); let q = ParagraphProperty { style: x.style, ..p };
    if let Some(v) = x.style { lemma_val(v.val@); }
    n_opt(p, q, po_style(x), XMLElement::ParagraphStyle, t);
}
proof fn n_alignment(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.alignment is None
    ensures prun(p, ol(po_alignment(x)) + t) == prun(ParagraphProperty { alignment: x.alignment, ..p }, t)
{
    reveal(po_alignment); reveal(pstep); kinds_p(); let q = ParagraphProperty { alignment: x.alignment, ..p };
    broadcast use more_nums::align; if let Some(v) = x.alignment { lemma_val(v.val@); let u = choose |u: AlignmentType| v.val == #[trigger] shown_of(&u); assert(named::<AlignmentType>(shown_of(&u)@) == Some(u)); }
    n_opt(p, q, po_alignment(x), XMLElement::Justification, t);
}
proof fn n_outline(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.outline_lvl is None
    ensures prun(p, ol(po_outline(x)) + t) == prun(ParagraphProperty { outline_lvl: x.outline_lvl, ..p }, t)
{
    reveal(po_outline); reveal(pstep); kinds_p(); let q = ParagraphProperty { outline_lvl: x.outline_lvl, ..p };
    broadcast use nums::usize_back; if let Some(v) = x.outline_lvl { lemma_val(shown(v.v)@); }
    n_opt(p, q, po_outline(x), XMLElement::OutlineLvl, t);
}
proof fn n_text_alignment(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.text_alignment is None
    ensures prun(p, ol(po_text_alignment(x)) + t) == prun(ParagraphProperty { text_alignment: x.text_alignment, ..p }, t)
{
    reveal(po_text_alignment); reveal(pstep); kinds_p(); let q = ParagraphProperty { text_alignment: x.text_alignment, ..p };
    broadcast use more_nums::text_align; if let Some(v) = x.text_alignment { lemma_val(shown(v.0)@); }
    n_opt(p, q, po_text_alignment(x), XMLElement::TextAlignment, t);
}
proof fn n_adjust(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.adjust_right_ind is None
    ensures prun(p, ol(po_adjust(x)) + t) == prun(ParagraphProperty { adjust_right_ind: x.adjust_right_ind, ..p }, t)
{
    reveal(po_adjust); reveal(pstep); kinds_p(); let q = ParagraphProperty { adjust_right_ind: x.adjust_right_ind, ..p };
    broadcast use more_nums::isize_back; if let Some(v) = x.adjust_right_ind { lemma_val(shown(v.0)@); }
    n_opt(p, q, po_adjust(x), XMLElement::AdjustRightInd, t);
}
proof fn n_snap(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.snap_to_grid is None
    ensures prun(p, ol(po_snap(x)) + t) == prun(ParagraphProperty { snap_to_grid: x.snap_to_grid, ..p }, t)
{
    reveal(po_snap); reveal(pstep); kinds_p(); let q = ParagraphProperty { snap_to_grid: x.snap_to_grid, ..p };
    if let Some(v) = x.snap_to_grid { lemma_on("snapToGrid"@, v); }
    n_opt(p, q, po_snap(x), XMLElement::SnapToGrid, t);
}
proof fn n_keep_next(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.keep_next is None
    ensures prun(p, ol(po_keep_next(x)) + t) == prun(ParagraphProperty { keep_next: x.keep_next, ..p }, t)
{
    reveal(po_keep_next); reveal(pstep); kinds_p(); let q = ParagraphProperty { keep_next: x.keep_next, ..p };
    lemma_on("keepNext"@, true); if let Some(b) = x.keep_next { assert(b); }
    n_opt(p, q, po_keep_next(x), XMLElement::KeepNext, t);
}
proof fn n_keep_lines(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.keep_lines is None
    ensures prun(p, ol(po_keep_lines(x)) + t) == prun(ParagraphProperty { keep_lines: x.keep_lines, ..p }, t)
{
    reveal(po_keep_lines); reveal(pstep); kinds_p(); let q = ParagraphProperty { keep_lines: x.keep_lines, ..p };
    lemma_on("keepLines"@, true); if let Some(b) = x.keep_lines { assert(b); }
    n_opt(p, q, po_keep_lines(x), XMLElement::KeepLines, t);
}
proof fn n_page_break(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.page_break_before is None
    ensures prun(p, ol(po_page_break(x)) + t) == prun(ParagraphProperty { page_break_before: x.page_break_before, ..p }, t)
{
    reveal(po_page_break); reveal(pstep); kinds_p(); let q = ParagraphProperty { page_break_before: x.page_break_before, ..p };
    lemma_on("pageBreakBefore"@, true); if let Some(b) = x.page_break_before { assert(b); }
    n_opt(p, q, po_page_break(x), XMLElement::PageBreakBefore, t);
}
proof fn n_widow(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.widow_control is None
    ensures prun(p, ol(po_widow(x)) + t) == prun(ParagraphProperty { widow_control: x.widow_control, ..p }, t)
{
    reveal(po_widow); reveal(pstep); kinds_p(); let q = ParagraphProperty { widow_control: x.widow_control, ..p };
    broadcast use codec::differ; more_nums::words(); lemma_val("1"@); reveal_strlit("1"); reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("off");
    n_opt(p, q, po_widow(x), XMLElement::WidowControl, t);
}
proof fn n_shading(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.shading is None
    ensures prun(p, ol(po_shading(x)) + t) == prun(ParagraphProperty { shading: x.shading, ..p }, t)
{
    reveal(po_shading); reveal(pstep); kinds_p(); let q = ParagraphProperty { shading: x.shading, ..p };
    broadcast use codec::shd; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill");
    if let Some(s) = x.shading {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(s.shd_type)@); let a2 = ats(a1, "color"@, s.color@); let a3 = ats(a2, "fill"@, s.fill@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2);
        reveal_with_fuel(shd_of, 5);
        assert(shd_of(a3) == s);
    }
    n_opt(p, q, po_shading(x), XMLElement::Shading, t);
}
proof fn n_indent(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.indent is None
    ensures prun(p, ol(po_indent(x)) + t) == prun(ParagraphProperty { indent: x.indent, ..p }, t)
{
    reveal(po_indent); reveal(pstep); kinds_p(); let q = ParagraphProperty { indent: x.indent, ..p };
    broadcast use nums::i32_back, more_nums::no_unit; reveal_strlit("left"); reveal_strlit("start"); reveal_strlit("leftChars"); reveal_strlit("startChars"); reveal_strlit("end"); reveal_strlit("right"); reveal_strlit("hanging"); reveal_strlit("firstLine"); reveal_strlit("firstLineChars"); reveal_strlit("hangingChars"); reveal(ind_step);
    if let Some(i) = x.indent {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "left"@, shown(i.start->0)@); let a2 = ats(a1, "right"@, shown(i.end->0)@); let a3 = with(a2, "leftChars"@, num(i.start_chars));
        lemma_ind_with(a0, "left"@, Some(shown(i.start->0)@)); lemma_ind_with(a1, "right"@, Some(shown(i.end->0)@)); lemma_ind_with(a2, "leftChars"@, num(i.start_chars));
        let n: Option<i32> = None; let z: Ind = (n, n, None, n, n, n); assert(ind_of(a0) == Some(z));
        let i1: Ind = (i.start, n, None, n, n, n); assert(ind_of(a1) == Some(i1)); let i2: Ind = (i.start, i.end, None, n, n, n); assert(ind_of(a2) == Some(i2)); let i3: Ind = (i.start, i.end, None, i.start_chars, n, n); assert(ind_of(a3) == Some(i3));
        match i.special_indent { Some(SpecialIndentType::FirstLine(v)) => { lemma_ind_with(a3, "firstLine"@, Some(shown(v)@)); } Some(SpecialIndentType::Hanging(v)) => { lemma_ind_with(a3, "hanging"@, Some(shown(v)@)); } None => {} }
        let i4: Ind = (i.start, i.end, i.special_indent, i.start_chars, n, n); assert(ind_of(el_ind(i).a) == Some(i4));
    }
    n_opt(p, q, po_indent(x), XMLElement::Indent, t);
}
proof fn n_spacing(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.line_spacing is None
    ensures prun(p, ol(po_spacing(x)) + t) == prun(ParagraphProperty { line_spacing: x.line_spacing, ..p }, t)
{
    reveal(po_spacing); reveal(pstep); kinds_p(); let q = ParagraphProperty { line_spacing: x.line_spacing, ..p };
    broadcast use nums::u32_back, nums::i32_back, more_nums::d_spacing; reveal_strlit("before"); reveal_strlit("after"); reveal_strlit("line"); reveal_strlit("lineRule"); reveal_strlit("beforeLines"); reveal_strlit("afterLines"); reveal(spacing_step); more_nums::words(); reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact");
    if let Some(l) = x.line_spacing {
        let a0 = Seq::<At>::empty(); let p0 = no_spacing();
        let a1 = with(a0, "before"@, num(l.before)); lemma_spacing_with(a0, "before"@, num(l.before)); let p1 = LineSpacing { before: l.before, ..p0 }; assert(spacing_of(a1) == Some(p1));
        let a2 = with(a1, "after"@, num(l.after)); lemma_spacing_with(a1, "after"@, num(l.after)); let p2 = LineSpacing { after: l.after, ..p1 }; assert(spacing_of(a2) == Some(p2));
        let a3 = with(a2, "beforeLines"@, num(l.before_lines)); lemma_spacing_with(a2, "beforeLines"@, num(l.before_lines)); let p3 = LineSpacing { before_lines: l.before_lines, ..p2 }; assert(spacing_of(a3) == Some(p3));
        let a4 = with(a3, "afterLines"@, num(l.after_lines)); lemma_spacing_with(a3, "afterLines"@, num(l.after_lines)); let p4 = LineSpacing { after_lines: l.after_lines, ..p3 }; assert(spacing_of(a4) == Some(p4));
        let a5 = with(a4, "line"@, num(l.line)); lemma_spacing_with(a4, "line"@, num(l.line)); let p5 = LineSpacing { line: l.line, ..p4 }; assert(spacing_of(a5) == Some(p5));
        lemma_spacing_with(a5, "lineRule"@, rule_txt(l.line_rule)); assert(spacing_of(el_spacing(l).a) == Some(l));
    }
    n_opt(p, q, po_spacing(x), XMLElement::Spacing, t);
}
proof fn n_frame(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.frame_property is None
    ensures prun(p, ol(po_frame(x)) + t) == prun(ParagraphProperty { frame_property: x.frame_property, ..p }, t)
{
    reveal(po_frame); reveal(pstep); kinds_p(); let q = ParagraphProperty { frame_property: x.frame_property, ..p };
    broadcast use nums::u32_back, nums::i32_back, more_nums::d_frame; reveal(frame_step);
    if let Some(f) = x.frame_property {
        let a0 = Seq::<At>::empty(); let p0 = no_frame();
        let a1 = with(a0, "wrap"@, txt(f.wrap)); lemma_frame_with(a0, "wrap"@, txt(f.wrap)); let p1 = FrameProperty { wrap: f.wrap, ..p0 }; assert(frame_of(a1) == Some(p1));
        let a2 = with(a1, "hRule"@, txt(f.h_rule)); lemma_frame_with(a1, "hRule"@, txt(f.h_rule)); let p2 = FrameProperty { h_rule: f.h_rule, ..p1 }; assert(frame_of(a2) == Some(p2));
        let a3 = with(a2, "hAnchor"@, txt(f.h_anchor)); lemma_frame_with(a2, "hAnchor"@, txt(f.h_anchor)); let p3 = FrameProperty { h_anchor: f.h_anchor, ..p2 }; assert(frame_of(a3) == Some(p3));
        let a4 = with(a3, "vAnchor"@, txt(f.v_anchor)); lemma_frame_with(a3, "vAnchor"@, txt(f.v_anchor)); let p4 = FrameProperty { v_anchor: f.v_anchor, ..p3 }; assert(frame_of(a4) == Some(p4));
        let a5 = with(a4, "xAlign"@, txt(f.x_align)); lemma_frame_with(a4, "xAlign"@, txt(f.x_align)); let p5 = FrameProperty { x_align: f.x_align, ..p4 }; assert(frame_of(a5) == Some(p5));
        let a6 = with(a5, "yAlign"@, txt(f.y_align)); lemma_frame_with(a5, "yAlign"@, txt(f.y_align)); let p6 = FrameProperty { y_align: f.y_align, ..p5 }; assert(frame_of(a6) == Some(p6));
        let a7 = with(a6, "x"@, num(f.x)); lemma_frame_with(a6, "x"@, num(f.x)); let p7 = FrameProperty { x: f.x, ..p6 }; assert(frame_of(a7) == Some(p7));
        let a8 = with(a7, "y"@, num(f.y)); lemma_frame_with(a7, "y"@, num(f.y)); let p8 = FrameProperty { y: f.y, ..p7 }; assert(frame_of(a8) == Some(p8));
        let a9 = with(a8, "hSpace"@, num(f.h_space)); lemma_frame_with(a8, "hSpace"@, num(f.h_space)); let p9 = FrameProperty { h_space: f.h_space, ..p8 }; assert(frame_of(a9) == Some(p9));
        let a10 = with(a9, "vSpace"@, num(f.v_space)); lemma_frame_with(a9, "vSpace"@, num(f.v_space)); let p10 = FrameProperty { v_space: f.v_space, ..p9 }; assert(frame_of(a10) == Some(p10));
        let a11 = with(a10, "w"@, num(f.w)); lemma_frame_with(a10, "w"@, num(f.w)); let p11 = FrameProperty { w: f.w, ..p10 }; assert(frame_of(a11) == Some(p11));
        let a12 = with(a11, "h"@, num(f.h)); lemma_frame_with(a11, "h"@, num(f.h)); let p12 = FrameProperty { h: f.h, ..p11 }; assert(frame_of(a12) == Some(p12));
        assert(frame_of(el_frame(f).a) == Some(f));
    }
    n_opt(p, q, po_frame(x), XMLElement::FrameProperty, t);
}
proof fn n_run(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x)
    ensures prun(p, w_run(x) + t) == prun(ParagraphProperty { run_property: x.run_property, ..p }, t)
{
    reveal(w_run); kinds_p(); kinds(); broadcast use dfl::d_rpr;
    let c = seq![Tok::Close("rPr"@)]; let s = rpr_els(x.run_property);
    lemma_back(x.run_property); lemma_run(no_rpr(), s, c + t);
    assert((c + t)[0] == Tok::Close("rPr"@)); assert((c + t).skip(1) =~= t);
    let u = w_run(x) + t;
    assert(u[0] == Tok::Open(El { n: "rPr"@, a: Seq::empty() })); assert(u.skip(1) =~= flat(s) + (c + t));
    assert(run(dflt::<RunProperty>(), u.skip(1)) == Some((x.run_property, t)));
}
proof fn n_num_leaf(id: Option<usize>, level: Option<usize>, e: El, n: usize, t: Seq<Tok>)
    requires e.a == val(shown(n)@)
    ensures e.n == "numId"@ ==> num_run(id, level, leaf(e) + t) == num_run(Some(n), level, t), e.n == "ilvl"@ ==> num_run(id, level, leaf(e) + t) == num_run(id, Some(n), t)
{
    kinds_p(); broadcast use nums::usize_back; lemma_val(shown(n)@); assert(seen(shown_of(&n)@) == shown_of(&n)@);
    let u = leaf(e) + t;
    assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);
    reveal_with_fuel(num_run, 3);
}
proof fn n_numbering(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.numbering_property is None
    ensures prun(p, w_numbering(x) + t) == prun(ParagraphProperty { numbering_property: x.numbering_property, ..p }, t)
{
    reveal(w_numbering); reveal(ol); kinds_p();
    if let Some(v) = x.numbering_property {
        let c = seq![Tok::Close("numPr"@)]; let ct = c + t; let n: Option<usize> = None;
        let l = match v.level { Some(l) => Some(l.val), None => None }; let i = match v.id { Some(i) => Some(i.id), None => None };
        let lt = ol(o_level(v)) + ct;
        assert(ct[0] == Tok::Close("numPr"@)); assert(ct.skip(1) =~= t);
        if let Some(e) = o_level(v) { n_num_leaf(i, n, e, v.level->0.val, ct); } else { assert(lt =~= ct); }
        if let Some(e) = o_num_id(v) { n_num_leaf(n, n, e, v.id->0.id, lt); } else { assert(ol(o_num_id(v)) + lt =~= lt); }
        assert(num_of(i, l) == v);
        let u = w_numbering(x) + t;
        assert(u[0] == Tok::Open(El { n: "numPr"@, a: Seq::empty() })); assert(u.skip(1) =~= ol(o_num_id(v)) + lt);
        assert(num_run(n, n, u.skip(1)) == Some((v, t)));
        assert(sp_ParagraphProperty_numbering_property(p, v) == (ParagraphProperty { numbering_property: x.numbering_property, ..p }));
    } else { assert(w_numbering(x) + t =~= t); }
}
proof fn lemma_pick_with<T>(s: Seq<At>, m: Seq<char>, v: Option<Seq<char>>, n: Seq<char>, g: spec_fn(Seq<char>) -> Option<T>)
    ensures pick(with(s, m, v), n, g) == (match pick(s, n, g) { Some(y) => Some(y), None => match v { Some(v) => if m == n { g(seen(v)) } else { None }, None => None } })
    decreases s.len()
{
    if let Some(w) = v {
        let z = At { n: m, v: seen(w) };
        if s.len() == 0 { assert(s.push(z).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(pick, 3); }
        else { assert(s.push(z).skip(1) =~= s.skip(1).push(z)); lemma_pick_with(s.skip(1), m, v, n, g); }
    }
}
proof fn lemma_tab(b: Tab)
    requires b.pos matches Some(n) ==> n <= 0x100_0000
    ensures tab_of(el_tab(b).a) == b
{
    broadcast use more_nums::usize_back_f32, more_nums::tab_val, more_nums::tab_leader; reveal_strlit("val"); reveal_strlit("leader"); reveal_strlit("pos");
    let a0 = Seq::<At>::empty(); let a1 = with(a0, "val"@, num(b.val)); let a2 = with(a1, "leader"@, num(b.leader)); let a3 = with(a2, "pos"@, num(b.pos));
    assert("val"@.len() == 3 && "leader"@.len() == 6 && "pos"@.len() == 3 && "val"@[0] != "pos"@[0]);
    lemma_pick_with(a0, "val"@, num(b.val), "val"@, as_val()); lemma_pick_with(a1, "leader"@, num(b.leader), "val"@, as_val()); lemma_pick_with(a2, "pos"@, num(b.pos), "val"@, as_val());
    lemma_pick_with(a0, "val"@, num(b.val), "leader"@, as_leader()); lemma_pick_with(a1, "leader"@, num(b.leader), "leader"@, as_leader()); lemma_pick_with(a2, "pos"@, num(b.pos), "leader"@, as_leader());
    lemma_pick_with(a0, "val"@, num(b.val), "pos"@, as_pos()); lemma_pick_with(a1, "leader"@, num(b.leader), "pos"@, as_pos()); lemma_pick_with(a2, "pos"@, num(b.pos), "pos"@, as_pos());
}
proof fn lemma_tabs(s: Seq<Tab>, b: Seq<Tab>, t: Seq<Tok>)
    requires forall |i: int| 0 <= i < b.len() ==> ((#[trigger] b[i]).pos matches Some(n) ==> n <= 0x100_0000)
    ensures tabs_run(s, flat(each(b, tab_el())) + t) == tabs_run(s + b, t)
    decreases b.len()
{
    let m = each(b, tab_el());
    if b.len() == 0 { assert(flat(m) + t =~= t); assert(s + b =~= s); } else {
        kinds_p(); lemma_tab(b[0]);
        assert(m.skip(1) =~= each(b.skip(1), tab_el())); assert(m[0] == el_tab(b[0]));
        lemma_tabs(s.push(b[0]), b.skip(1), t);
        assert(s.push(b[0]) + b.skip(1) =~= s + b);
        let u = flat(m) + t;
        assert(u[0] == Tok::Open(m[0])); assert(u[1] == Tok::Close(m[0].n)); assert(u.skip(2) =~= flat(m.skip(1)) + t);
        assert(tabs_run(s, u) == tabs_run(s.push(b[0]), u.skip(2)));
    }
}
proof fn n_tabs(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.tabs == vecv(Seq::<Tab>::empty())
    ensures prun(p, w_tabs(x) + t) == prun(ParagraphProperty { tabs: x.tabs, ..p }, t)
{
    reveal(w_tabs); kinds_p(); broadcast use more_nums::no_items;
    if x.tabs@.len() > 0 {
        let c = seq![Tok::Close("tabs"@)]; let m = each(x.tabs@, tab_el());
        lemma_tabs(Seq::empty(), x.tabs@, c + t);
        assert(Seq::<Tab>::empty() + x.tabs@ =~= x.tabs@); assert(p.tabs@ + x.tabs@ =~= x.tabs@);
        assert((c + t)[0] == Tok::Close("tabs"@)); assert((c + t).skip(1) =~= t);
        let u = w_tabs(x) + t;
        assert(u[0] == Tok::Open(El { n: "tabs"@, a: Seq::empty() })); assert(u.skip(1) =~= flat(m) + (c + t));
        assert(tabs_run(Seq::empty(), u.skip(1)) == Some((x.tabs@, t)));
    } else { assert(w_tabs(x) + t =~= t); assert(x.tabs@ =~= Seq::<Tab>::empty()); }
}
proof fn lemma_body(x: ParagraphProperty, c: Seq<Tok>, t: Seq<Tok>) ensures ppr_body(x, c) + t == ppr_body(x, c + t)
{
    let t17 = c + t; let c17 = c;
    let t16 = w_tabs(x) + t17; let c16 = w_tabs(x) + c17; lemma_cat(w_tabs(x), c17, t);
    let t15 = ol(po_widow(x)) + t16; let c15 = ol(po_widow(x)) + c16; lemma_cat(ol(po_widow(x)), c16, t);
    let t14 = ol(po_page_break(x)) + t15; let c14 = ol(po_page_break(x)) + c15; lemma_cat(ol(po_page_break(x)), c15, t);
    let t13 = ol(po_keep_lines(x)) + t14; let c13 = ol(po_keep_lines(x)) + c14; lemma_cat(ol(po_keep_lines(x)), c14, t);
    let t12 = ol(po_keep_next(x)) + t13; let c12 = ol(po_keep_next(x)) + c13; lemma_cat(ol(po_keep_next(x)), c13, t);
    let t11 = ol(po_snap(x)) + t12; let c11 = ol(po_snap(x)) + c12; lemma_cat(ol(po_snap(x)), c12, t);
    let t10 = ol(po_adjust(x)) + t11; let c10 = ol(po_adjust(x)) + c11; lemma_cat(ol(po_adjust(x)), c11, t);
    let t9 = ol(po_text_alignment(x)) + t10; let c9 = ol(po_text_alignment(x)) + c10; lemma_cat(ol(po_text_alignment(x)), c10, t);
    let t8 = ol(po_shading(x)) + t9; let c8 = ol(po_shading(x)) + c9; lemma_cat(ol(po_shading(x)), c9, t);
    let t7 = ol(po_outline(x)) + t8; let c7 = ol(po_outline(x)) + c8; lemma_cat(ol(po_outline(x)), c8, t);
    let t6 = ol(po_spacing(x)) + t7; let c6 = ol(po_spacing(x)) + c7; lemma_cat(ol(po_spacing(x)), c7, t);
    let t5 = ol(po_indent(x)) + t6; let c5 = ol(po_indent(x)) + c6; lemma_cat(ol(po_indent(x)), c6, t);
    let t4 = ol(po_alignment(x)) + t5; let c4 = ol(po_alignment(x)) + c5; lemma_cat(ol(po_alignment(x)), c5, t);
    let t3 = ol(po_frame(x)) + t4; let c3 = ol(po_frame(x)) + c4; lemma_cat(ol(po_frame(x)), c4, t);
    let t2 = w_numbering(x) + t3; let c2 = w_numbering(x) + c3; lemma_cat(w_numbering(x), c3, t);
    let t1 = ol(po_style(x)) + t2; let c1 = ol(po_style(x)) + c2; lemma_cat(ol(po_style(x)), c2, t);
    let t0 = w_run(x) + t1; let c0 = w_run(x) + c1; lemma_cat(w_run(x), c1, t);
}
proof fn lemma_pback(x: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x)
    ensures prun(no_ppr(), ppr_body(x, t)) == prun(x, t)
{
    hide(prun); hide(settled_p);
    let t17 = t;
    let t16 = w_tabs(x) + t17;
    let t15 = ol(po_widow(x)) + t16;
    let t14 = ol(po_page_break(x)) + t15;
    let t13 = ol(po_keep_lines(x)) + t14;
    let t12 = ol(po_keep_next(x)) + t13;
    let t11 = ol(po_snap(x)) + t12;
    let t10 = ol(po_adjust(x)) + t11;
    let t9 = ol(po_text_alignment(x)) + t10;
    let t8 = ol(po_shading(x)) + t9;
    let t7 = ol(po_outline(x)) + t8;
    let t6 = ol(po_spacing(x)) + t7;
    let t5 = ol(po_indent(x)) + t6;
    let t4 = ol(po_alignment(x)) + t5;
    let t3 = ol(po_frame(x)) + t4;
    let t2 = w_numbering(x) + t3;
    let t1 = ol(po_style(x)) + t2;
    let t0 = w_run(x) + t1;
    let q0 = no_ppr();
    let q1 = ParagraphProperty { run_property: x.run_property, ..q0 }; n_run(x, q0, t1); assert(prun(q0, t0) == prun(q1, t1));
    let q2 = ParagraphProperty { style: x.style, ..q1 }; n_style(x, q1, t2); assert(prun(q1, t1) == prun(q2, t2));
    let q3 = ParagraphProperty { numbering_property: x.numbering_property, ..q2 }; n_numbering(x, q2, t3); assert(prun(q2, t2) == prun(q3, t3));
    let q4 = ParagraphProperty { frame_property: x.frame_property, ..q3 }; n_frame(x, q3, t4); assert(prun(q3, t3) == prun(q4, t4));
    let q5 = ParagraphProperty { alignment: x.alignment, ..q4 }; n_alignment(x, q4, t5); assert(prun(q4, t4) == prun(q5, t5));
    let q6 = ParagraphProperty { indent: x.indent, ..q5 }; n_indent(x, q5, t6); assert(prun(q5, t5) == prun(q6, t6));
    let q7 = ParagraphProperty { line_spacing: x.line_spacing, ..q6 }; n_spacing(x, q6, t7); assert(prun(q6, t6) == prun(q7, t7));
    let q8 = ParagraphProperty { outline_lvl: x.outline_lvl, ..q7 }; n_outline(x, q7, t8); assert(prun(q7, t7) == prun(q8, t8));
    let q9 = ParagraphProperty { shading: x.shading, ..q8 }; n_shading(x, q8, t9); assert(prun(q8, t8) == prun(q9, t9));
    let q10 = ParagraphProperty { text_alignment: x.text_alignment, ..q9 }; n_text_alignment(x, q9, t10); assert(prun(q9, t9) == prun(q10, t10));
    let q11 = ParagraphProperty { adjust_right_ind: x.adjust_right_ind, ..q10 }; n_adjust(x, q10, t11); assert(prun(q10, t10) == prun(q11, t11));
    let q12 = ParagraphProperty { snap_to_grid: x.snap_to_grid, ..q11 }; n_snap(x, q11, t12); assert(prun(q11, t11) == prun(q12, t12));
    let q13 = ParagraphProperty { keep_next: x.keep_next, ..q12 }; n_keep_next(x, q12, t13); assert(prun(q12, t12) == prun(q13, t13));
    let q14 = ParagraphProperty { keep_lines: x.keep_lines, ..q13 }; n_keep_lines(x, q13, t14); assert(prun(q13, t13) == prun(q14, t14));
    let q15 = ParagraphProperty { page_break_before: x.page_break_before, ..q14 }; n_page_break(x, q14, t15); assert(prun(q14, t14) == prun(q15, t15));
    let q16 = ParagraphProperty { widow_control: x.widow_control, ..q15 }; n_widow(x, q15, t16); assert(prun(q15, t15) == prun(q16, t16));
    let q17 = ParagraphProperty { tabs: x.tabs, ..q16 }; n_tabs(x, q16, t17); assert(prun(q16, t16) == prun(q17, t17));
    assert(q17 == x) by { reveal(settled_p); }
}
/// Paragraph formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_paragraph_formatting(x: ParagraphProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_p(x)
    ensures ppr_onto(x, log).subrange(0, log.len() as int) == log, ppr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "pPr"@, a: Seq::empty() }),
        prun(dflt::<ParagraphProperty>(), ppr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(ppr_body);
    broadcast use more_nums::d_ppr; kinds_p();
    let c = seq![Tok::Close("pPr"@)]; let b = ppr_body(x, c);
    lemma_body(x, c, t); lemma_pback(x, c + t);
    assert((c + t)[0] == Tok::Close("pPr"@)); assert((c + t).skip(1) =~= t);
    let w = ppr_onto(x, log);
    assert(w.subrange(0, log.len() as int) =~= log);
    assert(w.skip(log.len() as int + 1) =~= b);
}
