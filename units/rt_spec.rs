// Table cell formatting: the tokens of each part of it.
pub open spec fn side(p: TableCellBorderPosition) -> Seq<char> { match p { TableCellBorderPosition::Top => "top"@, TableCellBorderPosition::Left => "left"@, TableCellBorderPosition::Bottom => "bottom"@, TableCellBorderPosition::Right => "right"@, TableCellBorderPosition::InsideH => "insideH"@, TableCellBorderPosition::InsideV => "insideV"@, TableCellBorderPosition::Tl2br => "tl2br"@, TableCellBorderPosition::Tr2bl => "tr2bl"@ } }
pub open spec fn el_edge(b: TableCellBorder) -> El { El { n: side(b.position), a: border_at(b.border_type, b.size, b.space, b.color@) } }
pub open spec fn wide_at(v: i32, t: WidthType) -> Seq<At> { ats(ats(Seq::empty(), "w"@, shown(v)@), "type"@, shown(t)@) }
pub open spec fn el_wide(n: Seq<char>, v: i32, t: WidthType) -> El { El { n, a: wide_at(v, t) } }
#[verifier::opaque] pub open spec fn be_top(b: TableCellBorders) -> Option<El> { match b.top { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_left(b: TableCellBorders) -> Option<El> { match b.left { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_bottom(b: TableCellBorders) -> Option<El> { match b.bottom { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_right(b: TableCellBorders) -> Option<El> { match b.right { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_inside_h(b: TableCellBorders) -> Option<El> { match b.inside_h { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_inside_v(b: TableCellBorders) -> Option<El> { match b.inside_v { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_tl2br(b: TableCellBorders) -> Option<El> { match b.tl2br { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn be_tr2bl(b: TableCellBorders) -> Option<El> { match b.tr2bl { Some(v) => Some(el_edge(v)), None => None } }
#[verifier::opaque] pub open spec fn me_top(m: CellMargins) -> Option<El> { match m.top { Some(v) => Some(el_wide("top"@, v.val as i32, v.width_type)), None => None } }
#[verifier::opaque] pub open spec fn me_left(m: CellMargins) -> Option<El> { match m.left { Some(v) => Some(el_wide("left"@, v.val as i32, v.width_type)), None => None } }
#[verifier::opaque] pub open spec fn me_bottom(m: CellMargins) -> Option<El> { match m.bottom { Some(v) => Some(el_wide("bottom"@, v.val as i32, v.width_type)), None => None } }
#[verifier::opaque] pub open spec fn me_right(m: CellMargins) -> Option<El> { match m.right { Some(v) => Some(el_wide("right"@, v.val as i32, v.width_type)), None => None } }
pub open spec fn edges(b: TableCellBorders) -> Seq<Tok> { ol(be_top(b)) + (ol(be_left(b)) + (ol(be_bottom(b)) + (ol(be_right(b)) + (ol(be_inside_h(b)) + (ol(be_inside_v(b)) + (ol(be_tl2br(b)) + (ol(be_tr2bl(b)) + (seq![Tok::Close("tcBorders"@)])))))))) }
pub open spec fn rims(m: CellMargins) -> Seq<Tok> { ol(me_top(m)) + (ol(me_left(m)) + (ol(me_bottom(m)) + (ol(me_right(m)) + (seq![Tok::Close("tcMar"@)])))) }
#[verifier::opaque] pub open spec fn ce_width(x: TableCellProperty) -> Option<El> { match x.width { Some(v) => Some(el_wide("tcW"@, v.width as i32, v.width_type)), None => None } }
#[verifier::opaque] pub open spec fn ce_grid_span(x: TableCellProperty) -> Option<El> { match x.grid_span { Some(v) => Some(el_val("gridSpan"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn ce_vertical_merge(x: TableCellProperty) -> Option<El> { match x.vertical_merge { Some(v) => Some(el_val("vMerge"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn ce_vertical_align(x: TableCellProperty) -> Option<El> { match x.vertical_align { Some(v) => Some(el_val("vAlign"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn ce_text_direction(x: TableCellProperty) -> Option<El> { match x.text_direction { Some(v) => Some(el_val("textDirection"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn ce_shading(x: TableCellProperty) -> Option<El> { match x.shading { Some(v) => Some(el_shading(v)), None => None } }
#[verifier::opaque] pub open spec fn w_edges(x: TableCellProperty) -> Seq<Tok> { match x.borders { Some(b) => seq![Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })] + edges(b), None => Seq::empty() } }
#[verifier::opaque] pub open spec fn w_rims(x: TableCellProperty) -> Seq<Tok> { match x.margins { Some(b) => seq![Tok::Open(El { n: "tcMar"@, a: Seq::empty() })] + rims(b), None => Seq::empty() } }
/// The tokens inside cell formatting, followed by others.
pub open spec fn tcpr_body(x: TableCellProperty, t: Seq<Tok>) -> Seq<Tok> { ol(ce_width(x)) + (w_edges(x) + (ol(ce_grid_span(x)) + (ol(ce_vertical_merge(x)) + (ol(ce_vertical_align(x)) + (ol(ce_text_direction(x)) + (ol(ce_shading(x)) + (w_rims(x) + (t)))))))) }
pub open spec fn tcpr_onto(x: TableCellProperty, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tcPr"@, a: Seq::empty() })] + tcpr_body(x, seq![Tok::Close("tcPr"@)])) }
