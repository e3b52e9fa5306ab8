// Table formatting: what is read.
//@fn <TableAlignmentType as FromStr>::from_str ext
//@| ensures (match (r, named::<TableAlignmentType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub mod tables {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn align(t: &TableAlignmentType) ensures #![trigger shown_of::<TableAlignmentType>(t)] named::<TableAlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: whole numbers are printed and read back exactly also by way of a floating point number, and contain no percent sign.
    pub broadcast axiom fn indent_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@ && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && cast::<isize, i32>(*n as isize) == *n;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below; derived defaults leave every optional value absent.
    pub broadcast axiom fn d_table() ensures #[trigger] dflt::<TableProperty>() == table0(dflt::<TableBorders>());
    pub broadcast axiom fn d_rims() ensures #[trigger] dflt::<TableCellMargins>() == rims0();
    pub broadcast axiom fn d_pos() ensures #[trigger] dflt::<TablePositionProperty>() == no_pos();
}
pub open spec fn table0(b: TableBorders) -> TableProperty { TableProperty { width: TableWidth { width: 0, width_type: WidthType::Auto }, justification: Justification { val: strv("left"@) }, borders: b, margins: None, indent: None, style: None, layout: None, position: None } }
pub open spec fn rims0() -> TableCellMargins { TableCellMargins { top: CellMargin { val: 0, width_type: WidthType::Dxa }, left: CellMargin { val: 55, width_type: WidthType::Dxa }, bottom: CellMargin { val: 0, width_type: WidthType::Dxa }, right: CellMargin { val: 55, width_type: WidthType::Dxa } } }
pub open spec fn no_pos() -> TablePositionProperty { TablePositionProperty { left_from_text: None, right_from_text: None, vertical_anchor: None, horizontal_anchor: None, position_x_alignment: None, position_y_alignment: None, position_x: None, position_y: None } }
pub open spec fn no_tedges() -> TableBorders { TableBorders { top: None, left: None, bottom: None, right: None, inside_h: None, inside_v: None } }
//@fn <TableProperty as Default>::default r=out
//@| ensures out == table0(dflt::<TableBorders>()),
//@end
//@fn TableBorders::new r=out
//@| ensures out == dflt::<TableBorders>(),
//@end
//@fn <CellMargin as Default>::default r=out
//@| ensures out == (CellMargin { val: 55, width_type: WidthType::Dxa }),
//@end
//@fn <TableCellMargins as Default>::default r=out
//@| ensures out == rims0(),
//@end
//@fn TableProperty::new r=out
//@| ensures out == dflt::<TableProperty>(),
//@end
//@fn TableBorders::with_empty r=out
//@| ensures out == no_tedges(),
//@end
//@fn TablePositionProperty::new r=out
//@| ensures out == dflt::<TablePositionProperty>(),
//@end
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
pub open spec fn tedge_of(p: TableBorderPosition, a: Seq<At>) -> TableBorder {
    let t = match last(a, "val"@) { Some(v) => named::<BorderType>(v)->0, None => BorderType::Single };
    let c = match last(a, "color"@) { Some(c) => c, None => "000000"@ };
    TableBorder { border_type: t, size: cast::<u32, usize>(num_or(last(a, "sz"@), 4)->0), color: strv(c), position: p, space: 0 }
}
pub open spec fn tpos_of(k: XMLElement) -> Option<TableBorderPosition> { match k { XMLElement::Top => Some(TableBorderPosition::Top), XMLElement::Left => Some(TableBorderPosition::Left), XMLElement::Bottom => Some(TableBorderPosition::Bottom), XMLElement::Right => Some(TableBorderPosition::Right), XMLElement::InsideH => Some(TableBorderPosition::InsideH), XMLElement::InsideV => Some(TableBorderPosition::InsideV), _ => None } }
#[verifier::opaque] pub open spec fn tbstep(b: TableBorders, k: XMLElement, a: Seq<At>) -> Option<TableBorders> { match tpos_of(k) { Some(p) => if bdr_fine(a) { Some(sp_TableBorders_set(b, tedge_of(p, a))) } else { None }, None => Some(b) } }
pub open spec fn tbrun(b: TableBorders, t: Seq<Tok>) -> Option<(TableBorders, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match tbstep(b, k, e.a) { Some(q) => tbrun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableBorders { Some((b, t.skip(1))) } else { tbrun(b, t.skip(1)) }, None => None },
        Tok::Chars(_) => tbrun(b, t.skip(1)),
    } }
}
//@fn <TableBorders as ElementReader>::read r=out casts
//@| ensures tbrun(no_tedges(), old(r).todo()) matches Some(x) ==> out == Ok::<TableBorders, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant tbrun(no_tedges(), old(r).todo()) is Some ==> tbrun(borders, r.todo()) == tbrun(no_tedges(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tbstep); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_last(e.a, "sz"@); lemma_last(e.a, "space"@); lemma_last(e.a, "val"@); } } }
//@end
#[verifier::opaque] pub open spec fn tmstep(m: TableCellMargins, k: XMLElement, a: Seq<At>) -> TableCellMargins { match wid_f(a) { None => m, Some(x) => { let v = cast::<isize, usize>(x.0); match k {
    XMLElement::Top => sp_TableCellMargins_margin_top(m, v, x.1), XMLElement::Right => sp_TableCellMargins_margin_right(m, v, x.1), XMLElement::Bottom => sp_TableCellMargins_margin_bottom(m, v, x.1), XMLElement::Left => sp_TableCellMargins_margin_left(m, v, x.1), _ => m } } } }
pub open spec fn tmrun(m: TableCellMargins, t: Seq<Tok>) -> Option<(TableCellMargins, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => tmrun(tmstep(m, k, e.a), t.skip(1)), None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellMargin { Some((m, t.skip(1))) } else { tmrun(m, t.skip(1)) }, None => None },
        Tok::Chars(_) => tmrun(m, t.skip(1)),
    } }
}
//@fn <TableCellMargins as ElementReader>::read r=out casts
//@| ensures tmrun(dflt::<TableCellMargins>(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellMargins, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@sub `TableCellMargins::default()` => `vx_default::<TableCellMargins>()`
//@loop 0
//@| invariant tmrun(dflt::<TableCellMargins>(), old(r).todo()) is Some ==> tmrun(margins, r.todo()) == tmrun(dflt::<TableCellMargins>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tmstep); }
//@end
#[verifier::opaque] pub open spec fn at_step(p: TablePositionProperty, n: Seq<char>, v: Seq<char>) -> TablePositionProperty {
    if n == "leftFromText"@ { match parsed::<i32>(v) { Some(x) => sp_TablePositionProperty_left_from_text(p, x), None => p } } else if n == "rightFromText"@ { match parsed::<i32>(v) { Some(x) => sp_TablePositionProperty_right_from_text(p, x), None => p } } else if n == "vertAnchor"@ { sp_TablePositionProperty_vertical_anchor(p, v) } else if n == "horzAnchor"@ { sp_TablePositionProperty_horizontal_anchor(p, v) } else if n == "tblpXSpec"@ { sp_TablePositionProperty_position_x_alignment(p, v) } else if n == "tblpYSpec"@ { sp_TablePositionProperty_position_y_alignment(p, v) } else if n == "tblpX"@ { match parsed::<i32>(v) { Some(x) => sp_TablePositionProperty_position_x(p, x), None => p } } else if n == "tblpY"@ { match parsed::<i32>(v) { Some(x) => sp_TablePositionProperty_position_y(p, x), None => p } } else { p }
}
pub open spec fn at_of(a: Seq<At>) -> TablePositionProperty decreases a.len() { if a.len() == 0 { dflt::<TablePositionProperty>() } else { at_step(at_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_at_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures at_of(with(a, n, v)) == (match v { Some(v) => at_step(at_of(a), n, seen(v)), None => at_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }
//@fn <TablePositionProperty as ElementReader>::read r=out autostr
//@| ensures out == Ok::<TablePositionProperty, ReaderError>(at_of(av(attrs@))), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant at_of(av(attrs@).take(it.index@ as int)) == property, _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal(at_step); reveal_strlit("leftFromText"); reveal_strlit("rightFromText"); reveal_strlit("vertAnchor"); reveal_strlit("horzAnchor"); reveal_strlit("tblpXSpec"); reveal_strlit("tblpYSpec"); reveal_strlit("tblpX"); reveal_strlit("tblpY"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
/// What one child element without content does to the table formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn tstep(p: TableProperty, k: XMLElement, a: Seq<At>) -> Option<TableProperty> { match k {
    XMLElement::TableBorders | XMLElement::TableCellMargin => None,
    XMLElement::TableWidth => match wid_f(a) { Some(x) => Some(sp_TableProperty_width(p, cast::<isize, usize>(x.0), x.1)), None => Some(p) },
    XMLElement::Justification => match first(a, "val"@) { Some(v) => match named::<TableAlignmentType>(v) { Some(t) => Some(sp_TableProperty_align(p, t)), None => Some(p) }, None => Some(p) },
    XMLElement::TableIndent => match wid_f(a) { Some(x) => if x.0 != 0 { Some(sp_TableProperty_indent(p, cast::<isize, i32>(x.0))) } else { Some(p) }, None => Some(p) },
    XMLElement::TableStyle => match first(a, "val"@) { Some(v) => Some(sp_TableProperty_style(p, v)), None => Some(p) },
    XMLElement::TablePositionProperty => Some(sp_TableProperty_position(p, at_of(a))),
    _ => Some(p),
} }
/// Table formatting read from tokens, and the tokens after it.
pub open spec fn trun(p: TableProperty, t: Seq<Tok>) -> Option<(TableProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) {
            Some(XMLElement::TableBorders) => match tbrun(no_tedges(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { trun(sp_TableProperty_set_borders(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::TableCellMargin) => match tmrun(dflt::<TableCellMargins>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { trun(sp_TableProperty_set_margins(p, x.0), x.1) } else { None }, None => None },
            Some(k) => match tstep(p, k, e.a) { Some(q) => trun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableProperty { Some((p, t.skip(1))) } else { trun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => trun(p, t.skip(1)),
    } }
}
pub open spec fn tp0() -> TableProperty { sp_TableProperty_set_borders(dflt::<TableProperty>(), no_tedges()) }
//@fn <TableProperty as ElementReader>::read r=out casts
//@| ensures trun(tp0(), old(r).todo()) matches Some(x) ==> out == Ok::<TableProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant trun(tp0(), old(r).todo()) is Some ==> trun(tp, r.todo()) == trun(tp0(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tstep); }
//@end
// Reading what was written.
pub open spec fn settled_tb(b: Option<TableBorder>, p: TableBorderPosition) -> bool { b matches Some(v) ==> v.position == p && v.space == 0 && fits32(v.size) && kept(v.color) }
pub open spec fn settled_tm(v: CellMargin) -> bool { v.val <= i32::MAX && v.width_type != WidthType::Unsupported }
pub open spec fn settled_tbs(b: TableBorders) -> bool { settled_tb(b.top, TableBorderPosition::Top) && settled_tb(b.left, TableBorderPosition::Left) && settled_tb(b.bottom, TableBorderPosition::Bottom) && settled_tb(b.right, TableBorderPosition::Right) && settled_tb(b.inside_h, TableBorderPosition::InsideH) && settled_tb(b.inside_v, TableBorderPosition::InsideV) }
pub open spec fn settled_tms(m: TableCellMargins) -> bool { settled_tm(m.top) && settled_tm(m.left) && settled_tm(m.bottom) && settled_tm(m.right) }
/// Table formatting that builder calls produce from text without stray markup; a layout is not read, and an indent of zero means none.
pub open spec fn settled_t(x: TableProperty) -> bool {
    &&& x.layout is None && settled_tbs(x.borders) && (x.margins matches Some(m) ==> settled_tms(m))
    &&& x.width.width <= i32::MAX && x.width.width_type != WidthType::Unsupported
    &&& exists |t: TableAlignmentType| x.justification.val == #[trigger] shown_of(&t)
    &&& (x.indent matches Some(v) ==> v.width != 0 && v.width_type == WidthType::Dxa)
    &&& (x.style matches Some(v) ==> kept_e(v.val))
    &&& (x.position matches Some(p) ==> kept_o(p.vertical_anchor) && kept_o(p.horizontal_anchor) && kept_o(p.position_x_alignment) && kept_o(p.position_y_alignment))
}
pub open spec fn tbap(p: TableBorders, e: El) -> Option<TableBorders> { match ck(e.n) { Some(k) => if k == XMLElement::TableBorders { None } else { tbstep(p, k, e.a) }, None => None } }
pub open spec fn tbnext(p: TableBorders, q: TableBorders, o: Option<El>) -> bool { match o { Some(e) => tbap(p, e) == Some(q), None => p == q } }
proof fn lemma_tbnext(p: TableBorders, q: TableBorders, o: Option<El>, t: Seq<Tok>) requires tbnext(p, q, o) ensures tbrun(p, ol(o) + t) == tbrun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);  reveal_with_fuel(tbrun, 3); } }
}
pub open spec fn tmap(p: TableCellMargins, e: El) -> Option<TableCellMargins> { match ck(e.n) { Some(k) => if k == XMLElement::TableCellMargin { None } else { Some(tmstep(p, k, e.a)) }, None => None } }
pub open spec fn tmnext(p: TableCellMargins, q: TableCellMargins, o: Option<El>) -> bool { match o { Some(e) => tmap(p, e) == Some(q), None => p == q } }
proof fn lemma_tmnext(p: TableCellMargins, q: TableCellMargins, o: Option<El>, t: Seq<Tok>) requires tmnext(p, q, o) ensures tmrun(p, ol(o) + t) == tmrun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);  reveal_with_fuel(tmrun, 3); } }
}
pub open spec fn tap(p: TableProperty, e: El) -> Option<TableProperty> { match ck(e.n) { Some(k) => if k == XMLElement::TableProperty { None } else { tstep(p, k, e.a) }, None => None } }
pub open spec fn tnext(p: TableProperty, q: TableProperty, o: Option<El>) -> bool { match o { Some(e) => tap(p, e) == Some(q), None => p == q } }
proof fn lemma_tnext(p: TableProperty, q: TableProperty, o: Option<El>, t: Seq<Tok>) requires tnext(p, q, o) ensures trun(p, ol(o) + t) == trun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t); reveal(tstep); reveal_with_fuel(trun, 3); } }
}
proof fn lemma_tedge(b: TableBorder) requires settled_tb(Some(b), b.position) ensures bdr_fine(el_tedge(b).a), tedge_of(b.position, el_tedge(b).a) == b
{
    broadcast use codec::border, nums::usize_back_u32; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("space");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(b.border_type)@); let a2 = ats(a1, "sz"@, shown(b.size)@); let a3 = ats(a2, "space"@, shown(b.space)@); let a4 = ats(a3, "color"@, b.color@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2); assert(a4.drop_last() =~= a3);
    reveal_with_fuel(last, 6);
    assert(a4[0] == a1[0] && a4[1] == a2[1] && a4[2] == a3[2]);
    assert(el_tedge(b).a == a4); assert(bdr_fine(a4)); assert(tedge_of(b.position, a4) == b);
}
proof fn lemma_signed(n: i32, t: WidthType) requires t != WidthType::Unsupported
    ensures wid_f(wide_at(n, t)) == Some((n as isize, t)), cast::<isize, i32>(n as isize) == n
{
    broadcast use tables::indent_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(n)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&n)@) == shown_of(&n)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid_f, 4);
    assert(wide_at(n, t) == a2);
}
proof fn lemma_tbrun_end(x: TableBorders, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tblBorders"@) ensures tbrun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_tmrun_end(x: TableCellMargins, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tblCellMar"@) ensures tmrun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_trun_end(x: TableProperty, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tblPr"@) ensures trun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_tedges_back(x: TableBorders, t: Seq<Tok>) requires settled_tbs(x) ensures tbrun(no_tedges(), tedges(x) + t) == Some((x, t))
{
    hide(tbrun); kinds(); reveal(tbstep);
    let c = seq![Tok::Close("tblBorders"@)]; let u6 = c + t;
    let u5 = ol(tbe_inside_v(x)) + u6;
    let u4 = ol(tbe_inside_h(x)) + u5;
    let u3 = ol(tbe_right(x)) + u4;
    let u2 = ol(tbe_bottom(x)) + u3;
    let u1 = ol(tbe_left(x)) + u2;
    let u0 = ol(tbe_top(x)) + u1;
    let p0 = no_tedges();
    let p1 = TableBorders { top: x.top, ..p0 };
    assert(tbnext(p0, p1, tbe_top(x))) by { reveal(tbe_top); if let Some(v) = x.top { lemma_tedge(v); } }
    lemma_tbnext(p0, p1, tbe_top(x), u1);
    let p2 = TableBorders { left: x.left, ..p1 };
    assert(tbnext(p1, p2, tbe_left(x))) by { reveal(tbe_left); if let Some(v) = x.left { lemma_tedge(v); } }
    lemma_tbnext(p1, p2, tbe_left(x), u2);
    let p3 = TableBorders { bottom: x.bottom, ..p2 };
    assert(tbnext(p2, p3, tbe_bottom(x))) by { reveal(tbe_bottom); if let Some(v) = x.bottom { lemma_tedge(v); } }
    lemma_tbnext(p2, p3, tbe_bottom(x), u3);
    let p4 = TableBorders { right: x.right, ..p3 };
    assert(tbnext(p3, p4, tbe_right(x))) by { reveal(tbe_right); if let Some(v) = x.right { lemma_tedge(v); } }
    lemma_tbnext(p3, p4, tbe_right(x), u4);
    let p5 = TableBorders { inside_h: x.inside_h, ..p4 };
    assert(tbnext(p4, p5, tbe_inside_h(x))) by { reveal(tbe_inside_h); if let Some(v) = x.inside_h { lemma_tedge(v); } }
    lemma_tbnext(p4, p5, tbe_inside_h(x), u5);
    let p6 = TableBorders { inside_v: x.inside_v, ..p5 };
    assert(tbnext(p5, p6, tbe_inside_v(x))) by { reveal(tbe_inside_v); if let Some(v) = x.inside_v { lemma_tedge(v); } }
    lemma_tbnext(p5, p6, tbe_inside_v(x), u6);
    assert(p6 == x);
    let s6 = c;
    let s5 = ol(tbe_inside_v(x)) + s6; lemma_cat(ol(tbe_inside_v(x)), s6, t);
    let s4 = ol(tbe_inside_h(x)) + s5; lemma_cat(ol(tbe_inside_h(x)), s5, t);
    let s3 = ol(tbe_right(x)) + s4; lemma_cat(ol(tbe_right(x)), s4, t);
    let s2 = ol(tbe_bottom(x)) + s3; lemma_cat(ol(tbe_bottom(x)), s3, t);
    let s1 = ol(tbe_left(x)) + s2; lemma_cat(ol(tbe_left(x)), s2, t);
    let s0 = ol(tbe_top(x)) + s1; lemma_cat(ol(tbe_top(x)), s1, t);
    assert(tedges(x) == s0); assert(s0 + t == u0);
    assert(u6[0] == Tok::Close("tblBorders"@)); assert(u6.skip(1) =~= t); lemma_tbrun_end(x, u6);
}
proof fn lemma_trims_back(x: TableCellMargins, t: Seq<Tok>) requires settled_tms(x) ensures tmrun(dflt::<TableCellMargins>(), trims(x) + t) == Some((x, t))
{
    hide(tmrun); kinds(); reveal(tmstep);
    let c = seq![Tok::Close("tblCellMar"@)]; let u4 = c + t;
    let u3 = ol(tme_right(x)) + u4;
    let u2 = ol(tme_bottom(x)) + u3;
    let u1 = ol(tme_left(x)) + u2;
    let u0 = ol(tme_top(x)) + u1;
    let p0 = dflt::<TableCellMargins>();
    let p1 = TableCellMargins { top: x.top, ..p0 };
    assert(tmnext(p0, p1, tme_top(x))) by { reveal(tme_top); lemma_wide(x.top.val, x.top.width_type); }
    lemma_tmnext(p0, p1, tme_top(x), u1);
    let p2 = TableCellMargins { left: x.left, ..p1 };
    assert(tmnext(p1, p2, tme_left(x))) by { reveal(tme_left); lemma_wide(x.left.val, x.left.width_type); }
    lemma_tmnext(p1, p2, tme_left(x), u2);
    let p3 = TableCellMargins { bottom: x.bottom, ..p2 };
    assert(tmnext(p2, p3, tme_bottom(x))) by { reveal(tme_bottom); lemma_wide(x.bottom.val, x.bottom.width_type); }
    lemma_tmnext(p2, p3, tme_bottom(x), u3);
    let p4 = TableCellMargins { right: x.right, ..p3 };
    assert(tmnext(p3, p4, tme_right(x))) by { reveal(tme_right); lemma_wide(x.right.val, x.right.width_type); }
    lemma_tmnext(p3, p4, tme_right(x), u4);
    assert(p4 == x);
    let s4 = c;
    let s3 = ol(tme_right(x)) + s4; lemma_cat(ol(tme_right(x)), s4, t);
    let s2 = ol(tme_bottom(x)) + s3; lemma_cat(ol(tme_bottom(x)), s3, t);
    let s1 = ol(tme_left(x)) + s2; lemma_cat(ol(tme_left(x)), s2, t);
    let s0 = ol(tme_top(x)) + s1; lemma_cat(ol(tme_top(x)), s1, t);
    assert(trims(x) == s0); assert(s0 + t == u0);
    assert(u4[0] == Tok::Close("tblCellMar"@)); assert(u4.skip(1) =~= t); lemma_tmrun_end(x, u4);
}
proof fn t_width(x: TableProperty, p: TableProperty) requires settled_t(x) ensures true ==> tnext(p, TableProperty { width: x.width, ..p }, te_width(x))
{ reveal(te_width); reveal(tstep); kinds(); lemma_wide(x.width.width, x.width.width_type); }
proof fn t_justification(x: TableProperty, p: TableProperty) requires settled_t(x) ensures true ==> tnext(p, TableProperty { justification: x.justification, ..p }, te_justification(x))
{ reveal(te_justification); reveal(tstep); kinds(); broadcast use tables::align; let a = choose |t: TableAlignmentType| x.justification.val == #[trigger] shown_of(&t); lemma_val(x.justification.val@); assert(seen(shown_of(&a)@) == shown_of(&a)@); }
proof fn t_indent(x: TableProperty, p: TableProperty) requires settled_t(x) ensures x.indent is Some || p.indent is None ==> tnext(p, TableProperty { indent: x.indent, ..p }, te_indent(x))
{ reveal(te_indent); reveal(tstep); kinds(); if let Some(v) = x.indent { lemma_signed(v.width, v.width_type); } }
proof fn t_style(x: TableProperty, p: TableProperty) requires settled_t(x) ensures x.style is Some || p.style is None ==> tnext(p, TableProperty { style: x.style, ..p }, te_style(x))
{ reveal(te_style); reveal(tstep); kinds(); if let Some(v) = x.style { lemma_val(v.val@); } }
proof fn t_position(x: TableProperty, p: TableProperty) requires settled_t(x) ensures x.position is Some || p.position is None ==> tnext(p, TableProperty { position: x.position, ..p }, te_position(x))
{ reveal(te_position); reveal(tstep); kinds(); broadcast use nums::i32_back, tables::d_pos; reveal(at_step); reveal_strlit("leftFromText"); reveal_strlit("rightFromText"); reveal_strlit("vertAnchor"); reveal_strlit("horzAnchor"); reveal_strlit("tblpXSpec"); reveal_strlit("tblpYSpec"); reveal_strlit("tblpX"); reveal_strlit("tblpY");
    if let Some(f) = x.position {
        let a0 = Seq::<At>::empty(); let p0 = no_pos();
        let a1 = with(a0, "leftFromText"@, num(f.left_from_text)); lemma_at_with(a0, "leftFromText"@, num(f.left_from_text)); let p1 = TablePositionProperty { left_from_text: f.left_from_text, ..p0 }; if let Some(v) = f.left_from_text { assert(seen(shown_of(&v)@) == shown_of(&v)@); } assert(at_of(a1) == p1);
        let a2 = with(a1, "rightFromText"@, num(f.right_from_text)); lemma_at_with(a1, "rightFromText"@, num(f.right_from_text)); let p2 = TablePositionProperty { right_from_text: f.right_from_text, ..p1 }; if let Some(v) = f.right_from_text { assert(seen(shown_of(&v)@) == shown_of(&v)@); } assert(at_of(a2) == p2);
        let a3 = with(a2, "vertAnchor"@, txt(f.vertical_anchor)); lemma_at_with(a2, "vertAnchor"@, txt(f.vertical_anchor)); let p3 = TablePositionProperty { vertical_anchor: f.vertical_anchor, ..p2 }; assert(at_of(a3) == p3);
        let a4 = with(a3, "horzAnchor"@, txt(f.horizontal_anchor)); lemma_at_with(a3, "horzAnchor"@, txt(f.horizontal_anchor)); let p4 = TablePositionProperty { horizontal_anchor: f.horizontal_anchor, ..p3 }; assert(at_of(a4) == p4);
        let a5 = with(a4, "tblpXSpec"@, txt(f.position_x_alignment)); lemma_at_with(a4, "tblpXSpec"@, txt(f.position_x_alignment)); let p5 = TablePositionProperty { position_x_alignment: f.position_x_alignment, ..p4 }; assert(at_of(a5) == p5);
        let a6 = with(a5, "tblpYSpec"@, txt(f.position_y_alignment)); lemma_at_with(a5, "tblpYSpec"@, txt(f.position_y_alignment)); let p6 = TablePositionProperty { position_y_alignment: f.position_y_alignment, ..p5 }; assert(at_of(a6) == p6);
        let a7 = with(a6, "tblpX"@, num(f.position_x)); lemma_at_with(a6, "tblpX"@, num(f.position_x)); let p7 = TablePositionProperty { position_x: f.position_x, ..p6 }; if let Some(v) = f.position_x { assert(seen(shown_of(&v)@) == shown_of(&v)@); } assert(at_of(a7) == p7);
        let a8 = with(a7, "tblpY"@, num(f.position_y)); lemma_at_with(a7, "tblpY"@, num(f.position_y)); let p8 = TablePositionProperty { position_y: f.position_y, ..p7 }; if let Some(v) = f.position_y { assert(seen(shown_of(&v)@) == shown_of(&v)@); } assert(at_of(a8) == p8);
        assert(p8 == f); assert(el_tpos(f).a == a8);
    } }
proof fn t_borders(x: TableProperty, p: TableProperty, t: Seq<Tok>) requires settled_t(x) ensures trun(p, w_tedges(x) + t) == trun(TableProperty { borders: x.borders, ..p }, t)
{
    reveal(w_tedges); kinds(); let b = x.borders;
    lemma_tedges_back(b, t); let o = seq![Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })]; let u = w_tedges(x) + t; assert(u =~= o + (tedges(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= tedges(b) + t);
}
proof fn t_margins(x: TableProperty, p: TableProperty, t: Seq<Tok>) requires settled_t(x), p.margins is None ensures trun(p, w_trims(x) + t) == trun(TableProperty { margins: x.margins, ..p }, t)
{
    reveal(w_trims); kinds();
    match x.margins { None => { assert(w_trims(x) + t =~= t); }
        Some(b) => { lemma_trims_back(b, t); let o = seq![Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })]; let u = w_trims(x) + t; assert(u =~= o + (trims(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= trims(b) + t); } }
}
/// Table formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_table_formatting(x: TableProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_t(x)
    ensures tblpr_onto(x, log).subrange(0, log.len() as int) == log, tblpr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "tblPr"@, a: Seq::empty() }),
        trun(tp0(), tblpr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(trun); broadcast use tables::d_table;
    let c = seq![Tok::Close("tblPr"@)]; let u7 = c + t;
    let u6 = ol(te_position(x)) + u7;
    let u5 = ol(te_style(x)) + u6;
    let u4 = ol(te_indent(x)) + u5;
    let u3 = w_trims(x) + u4;
    let u2 = w_tedges(x) + u3;
    let u1 = ol(te_justification(x)) + u2;
    let u0 = ol(te_width(x)) + u1;
    let p0 = tp0();
    let p1 = TableProperty { width: x.width, ..p0 };
    t_width(x, p0); lemma_tnext(p0, p1, te_width(x), u1);
    let p2 = TableProperty { justification: x.justification, ..p1 };
    t_justification(x, p1); lemma_tnext(p1, p2, te_justification(x), u2);
    let p3 = TableProperty { borders: x.borders, ..p2 };
    t_borders(x, p2, u3);
    let p4 = TableProperty { margins: x.margins, ..p3 };
    t_margins(x, p3, u4);
    let p5 = TableProperty { indent: x.indent, ..p4 };
    t_indent(x, p4); lemma_tnext(p4, p5, te_indent(x), u5);
    let p6 = TableProperty { style: x.style, ..p5 };
    t_style(x, p5); lemma_tnext(p5, p6, te_style(x), u6);
    let p7 = TableProperty { position: x.position, ..p6 };
    t_position(x, p6); lemma_tnext(p6, p7, te_position(x), u7);
    assert(p7 == x); let s7 = c;
    let s6 = ol(te_position(x)) + s7; lemma_cat(ol(te_position(x)), s7, t);
    let s5 = ol(te_style(x)) + s6; lemma_cat(ol(te_style(x)), s6, t);
    let s4 = ol(te_indent(x)) + s5; lemma_cat(ol(te_indent(x)), s5, t);
    let s3 = w_trims(x) + s4; lemma_cat(w_trims(x), s4, t);
    let s2 = w_tedges(x) + s3; lemma_cat(w_tedges(x), s3, t);
    let s1 = ol(te_justification(x)) + s2; lemma_cat(ol(te_justification(x)), s2, t);
    let s0 = ol(te_width(x)) + s1; lemma_cat(ol(te_width(x)), s1, t);
    assert(tblpr_body(x, c) == s0); assert(s0 + t == u0);
    assert(u7[0] == Tok::Close("tblPr"@)); assert(u7.skip(1) =~= t); lemma_trun_end(x, u7);
    let o = seq![Tok::Open(El { n: "tblPr"@, a: Seq::empty() })];
    assert(tblpr_onto(x, log) == log + (o + s0));
    assert(tblpr_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(tblpr_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}
