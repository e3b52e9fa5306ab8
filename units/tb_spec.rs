// Table formatting: the tokens of each part of it.
pub open spec fn tside(p: TableBorderPosition) -> Seq<char> { match p { TableBorderPosition::Top => "top"@, TableBorderPosition::Left => "left"@, TableBorderPosition::Bottom => "bottom"@, TableBorderPosition::Right => "right"@, TableBorderPosition::InsideH => "insideH"@, TableBorderPosition::InsideV => "insideV"@ } }
pub open spec fn el_tedge(b: TableBorder) -> El { El { n: tside(b.position), a: border_at(b.border_type, b.size, b.space, b.color@) } }
#[verifier::opaque] pub open spec fn tbe_top(b: TableBorders) -> Option<El> { match b.top { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tbe_left(b: TableBorders) -> Option<El> { match b.left { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tbe_bottom(b: TableBorders) -> Option<El> { match b.bottom { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tbe_right(b: TableBorders) -> Option<El> { match b.right { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tbe_inside_h(b: TableBorders) -> Option<El> { match b.inside_h { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tbe_inside_v(b: TableBorders) -> Option<El> { match b.inside_v { Some(v) => Some(el_tedge(v)), None => None } }
#[verifier::opaque] pub open spec fn tme_top(m: TableCellMargins) -> Option<El> { Some(el_wide("top"@, m.top.val as i32, m.top.width_type)) }
#[verifier::opaque] pub open spec fn tme_left(m: TableCellMargins) -> Option<El> { Some(el_wide("left"@, m.left.val as i32, m.left.width_type)) }
#[verifier::opaque] pub open spec fn tme_bottom(m: TableCellMargins) -> Option<El> { Some(el_wide("bottom"@, m.bottom.val as i32, m.bottom.width_type)) }
#[verifier::opaque] pub open spec fn tme_right(m: TableCellMargins) -> Option<El> { Some(el_wide("right"@, m.right.val as i32, m.right.width_type)) }
pub open spec fn tedges(b: TableBorders) -> Seq<Tok> { ol(tbe_top(b)) + (ol(tbe_left(b)) + (ol(tbe_bottom(b)) + (ol(tbe_right(b)) + (ol(tbe_inside_h(b)) + (ol(tbe_inside_v(b)) + (seq![Tok::Close("tblBorders"@)])))))) }
pub open spec fn trims(m: TableCellMargins) -> Seq<Tok> { ol(tme_top(m)) + (ol(tme_left(m)) + (ol(tme_bottom(m)) + (ol(tme_right(m)) + (seq![Tok::Close("tblCellMar"@)])))) }
pub open spec fn el_tpos(p: TablePositionProperty) -> El { El { n: "tblpPr"@, a: with(with(with(with(with(with(with(with(Seq::empty(), "leftFromText"@, num(p.left_from_text)), "rightFromText"@, num(p.right_from_text)), "vertAnchor"@, txt(p.vertical_anchor)), "horzAnchor"@, txt(p.horizontal_anchor)), "tblpXSpec"@, txt(p.position_x_alignment)), "tblpYSpec"@, txt(p.position_y_alignment)), "tblpX"@, num(p.position_x)), "tblpY"@, num(p.position_y)) } }
#[verifier::opaque] pub open spec fn te_width(x: TableProperty) -> Option<El> { Some(el_wide("tblW"@, x.width.width as i32, x.width.width_type)) }
#[verifier::opaque] pub open spec fn te_justification(x: TableProperty) -> Option<El> { Some(el_val("jc"@, x.justification.val@)) }
#[verifier::opaque] pub open spec fn te_indent(x: TableProperty) -> Option<El> { match x.indent { Some(v) => Some(el_wide("tblInd"@, v.width, v.width_type)), None => None } }
#[verifier::opaque] pub open spec fn te_style(x: TableProperty) -> Option<El> { match x.style { Some(v) => Some(el_val("tblStyle"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn te_position(x: TableProperty) -> Option<El> { match x.position { Some(v) => Some(el_tpos(v)), None => None } }
#[verifier::opaque] pub open spec fn w_tedges(x: TableProperty) -> Seq<Tok> { seq![Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })] + tedges(x.borders) }
#[verifier::opaque] pub open spec fn w_trims(x: TableProperty) -> Seq<Tok> { match x.margins { Some(b) => seq![Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })] + trims(b), None => Seq::empty() } }
/// The tokens inside table formatting, followed by others. (A layout is written between the style and the position; the reader does not support it.)
pub open spec fn tblpr_body(x: TableProperty, t: Seq<Tok>) -> Seq<Tok> { ol(te_width(x)) + (ol(te_justification(x)) + (w_tedges(x) + (w_trims(x) + (ol(te_indent(x)) + (ol(te_style(x)) + (ol(te_position(x)) + (t))))))) }
pub open spec fn tblpr_onto(x: TableProperty, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tblPr"@, a: Seq::empty() })] + tblpr_body(x, seq![Tok::Close("tblPr"@)])) }
