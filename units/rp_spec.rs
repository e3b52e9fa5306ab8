// Paragraph formatting: the tokens of each part of it.
// Section properties, tracked changes and borders of paragraphs are outside; nothing is said about them.
#[verifier::external_body] pub struct SectionProperty { x: u8 }
#[verifier::external_body] pub struct ParagraphPropertyChange { x: u8 }
#[verifier::external_body] pub struct ParagraphBorders { x: u8 }
pub open spec fn or0(v: Option<i32>) -> i32 { match v { Some(v) => v, None => 0 } }
pub open spec fn ind_at(start: i32, end: i32, chars: Option<i32>, special: Option<SpecialIndentType>) -> Seq<At> {
    let a = with(ats(ats(Seq::empty(), "left"@, shown(start)@), "right"@, shown(end)@), "leftChars"@, num(chars));
    match special { Some(SpecialIndentType::FirstLine(v)) => ats(a, "firstLine"@, shown(v)@), Some(SpecialIndentType::Hanging(v)) => ats(a, "hanging"@, shown(v)@), None => a }
}
pub open spec fn el_ind(i: Indent) -> El { El { n: "ind"@, a: ind_at(or0(i.start), or0(i.end), i.start_chars, i.special_indent) } }
pub open spec fn rule_txt(r: Option<LineSpacingType>) -> Option<Seq<char>> { match r { Some(LineSpacingType::Auto) => Some("auto"@), Some(LineSpacingType::AtLeast) => Some("atLeast"@), Some(LineSpacingType::Exact) => Some("exact"@), None => None } }
pub open spec fn spacing_at(before: Option<u32>, after: Option<u32>, line: Option<i32>, before_lines: Option<u32>, after_lines: Option<u32>, rule: Option<LineSpacingType>) -> Seq<At> {
    with(with(with(with(with(with(Seq::empty(), "before"@, num(before)), "after"@, num(after)), "beforeLines"@, num(before_lines)), "afterLines"@, num(after_lines)), "line"@, num(line)), "lineRule"@, rule_txt(rule)) }
pub open spec fn el_spacing(l: LineSpacing) -> El { El { n: "spacing"@, a: spacing_at(l.before, l.after, l.line, l.before_lines, l.after_lines, l.line_rule) } }
pub open spec fn el_frame(f: FrameProperty) -> El { El { n: "framePr"@, a: with(with(with(with(with(with(with(with(with(with(with(with(Seq::empty(), "wrap"@, txt(f.wrap)), "hRule"@, txt(f.h_rule)), "hAnchor"@, txt(f.h_anchor)), "vAnchor"@, txt(f.v_anchor)), "xAlign"@, txt(f.x_align)), "yAlign"@, txt(f.y_align)), "x"@, num(f.x)), "y"@, num(f.y)), "hSpace"@, num(f.h_space)), "vSpace"@, num(f.v_space)), "w"@, num(f.w)), "h"@, num(f.h)) } }
pub open spec fn tab_at(val: Option<TabValueType>, leader: Option<TabLeaderType>, pos: Option<usize>) -> Seq<At> { with(with(with(Seq::empty(), "val"@, num(val)), "leader"@, num(leader)), "pos"@, num(pos)) }
pub open spec fn el_tab(t: Tab) -> El { El { n: "tab"@, a: tab_at(t.val, t.leader, t.pos) } }
pub open spec fn each<T>(s: Seq<T>, g: spec_fn(T) -> El) -> Seq<El> { s.map_values(g) }
pub open spec fn tab_el() -> spec_fn(Tab) -> El { |t: Tab| el_tab(t) }
#[verifier::opaque] pub open spec fn po_style(x: ParagraphProperty) -> Option<El> { match x.style { Some(v) => Some(el_val("pStyle"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn po_frame(x: ParagraphProperty) -> Option<El> { match x.frame_property { Some(v) => Some(el_frame(v)), None => None } }
#[verifier::opaque] pub open spec fn po_alignment(x: ParagraphProperty) -> Option<El> { match x.alignment { Some(v) => Some(el_val("jc"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn po_indent(x: ParagraphProperty) -> Option<El> { match x.indent { Some(v) => Some(el_ind(v)), None => None } }
#[verifier::opaque] pub open spec fn po_spacing(x: ParagraphProperty) -> Option<El> { match x.line_spacing { Some(v) => Some(el_spacing(v)), None => None } }
#[verifier::opaque] pub open spec fn po_outline(x: ParagraphProperty) -> Option<El> { match x.outline_lvl { Some(v) => Some(el_val("outlineLvl"@, shown(v.v)@)), None => None } }
#[verifier::opaque] pub open spec fn po_shading(x: ParagraphProperty) -> Option<El> { match x.shading { Some(v) => Some(el_shading(v)), None => None } }
#[verifier::opaque] pub open spec fn po_text_alignment(x: ParagraphProperty) -> Option<El> { match x.text_alignment { Some(v) => Some(el_val("textAlignment"@, shown(v.0)@)), None => None } }
#[verifier::opaque] pub open spec fn po_adjust(x: ParagraphProperty) -> Option<El> { match x.adjust_right_ind { Some(v) => Some(el_val("adjustRightInd"@, shown(v.0)@)), None => None } }
#[verifier::opaque] pub open spec fn po_snap(x: ParagraphProperty) -> Option<El> { match x.snap_to_grid { Some(v) => Some(el_val("snapToGrid"@, shown(v)@)), None => None } }
#[verifier::opaque] pub open spec fn po_keep_next(x: ParagraphProperty) -> Option<El> { if x.keep_next == Some(true) { Some(el_switch("keepNext"@, true)) } else { None } }
#[verifier::opaque] pub open spec fn po_keep_lines(x: ParagraphProperty) -> Option<El> { if x.keep_lines == Some(true) { Some(el_switch("keepLines"@, true)) } else { None } }
#[verifier::opaque] pub open spec fn po_page_break(x: ParagraphProperty) -> Option<El> { if x.page_break_before == Some(true) { Some(el_switch("pageBreakBefore"@, true)) } else { None } }
#[verifier::opaque] pub open spec fn po_widow(x: ParagraphProperty) -> Option<El> { match x.widow_control { Some(v) => Some(el_val("widowControl"@, if v { "1"@ } else { "0"@ })), None => None } }
#[verifier::opaque] pub open spec fn w_run(x: ParagraphProperty) -> Seq<Tok> { seq![Tok::Open(El { n: "rPr"@, a: Seq::empty() })] + (flat(rpr_els(x.run_property)) + seq![Tok::Close("rPr"@)]) }
pub open spec fn o_num_id(v: NumberingProperty) -> Option<El> { match v.id { Some(i) => Some(el_val("numId"@, shown(i.id)@)), None => None } }
pub open spec fn o_level(v: NumberingProperty) -> Option<El> { match v.level { Some(i) => Some(el_val("ilvl"@, shown(i.val)@)), None => None } }
pub open spec fn num_body(v: NumberingProperty) -> Seq<Tok> { ol(o_num_id(v)) + (ol(o_level(v)) + seq![Tok::Close("numPr"@)]) }
#[verifier::opaque] pub open spec fn w_numbering(x: ParagraphProperty) -> Seq<Tok> { match x.numbering_property { Some(v) => seq![Tok::Open(El { n: "numPr"@, a: Seq::empty() })] + num_body(v), None => Seq::empty() } }
#[verifier::opaque] pub open spec fn w_tabs(x: ParagraphProperty) -> Seq<Tok> { if x.tabs@.len() > 0 { seq![Tok::Open(El { n: "tabs"@, a: Seq::empty() })] + (flat(each(x.tabs@, tab_el())) + seq![Tok::Close("tabs"@)]) } else { Seq::empty() } }
/// The tokens inside paragraph formatting, followed by others.
pub open spec fn ppr_body(x: ParagraphProperty, t: Seq<Tok>) -> Seq<Tok> { w_run(x) + (ol(po_style(x)) + (w_numbering(x) + (ol(po_frame(x)) + (ol(po_alignment(x)) + (ol(po_indent(x)) + (ol(po_spacing(x)) + (ol(po_outline(x)) + (ol(po_shading(x)) + (ol(po_text_alignment(x)) + (ol(po_adjust(x)) + (ol(po_snap(x)) + (ol(po_keep_next(x)) + (ol(po_keep_lines(x)) + (ol(po_page_break(x)) + (ol(po_widow(x)) + (w_tabs(x) + (t))))))))))))))))) }
pub open spec fn ppr_onto(x: ParagraphProperty, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "pPr"@, a: Seq::empty() })] + ppr_body(x, seq![Tok::Close("pPr"@)])) }
/// The parts nothing is said about are absent.
pub open spec fn simple_r(x: RunProperty) -> bool { x.ins is None && x.del is None && x.positional_tab is None }
pub open spec fn simple_p(x: ParagraphProperty) -> bool { simple_r(x.run_property) && x.section_property is None && x.paragraph_property_change is None && x.borders is None && x.bidi != Some(true) }
