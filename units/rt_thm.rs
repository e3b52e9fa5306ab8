/// Cell formatting that builder calls produce from text without stray markup.
pub open spec fn settled_b(b: Option<TableCellBorder>, p: TableCellBorderPosition) -> bool { b matches Some(v) ==> v.position == p && v.space == 0 && fits32(v.size) && kept(v.color) }
pub open spec fn settled_m(m: Option<CellMargin>) -> bool { m matches Some(v) ==> v.val <= i32::MAX && v.width_type != WidthType::Unsupported }
pub open spec fn settled_c(x: TableCellProperty) -> bool {
    &&& (x.width matches Some(v) ==> v.width <= i32::MAX && v.width_type != WidthType::Unsupported)
    &&& (x.vertical_merge matches Some(v) ==> v.val != VMergeType::Unsupported)
    &&& (x.vertical_align matches Some(v) ==> v.val != VAlignType::Unsupported)
    &&& (x.shading matches Some(s) ==> kept(s.color) && kept(s.fill))
    &&& (x.borders matches Some(b) ==> settled_bs(b))
    &&& (x.margins matches Some(m) ==> settled_ms(m))
}
pub open spec fn settled_bs(b: TableCellBorders) -> bool { settled_b(b.top, TableCellBorderPosition::Top) && settled_b(b.left, TableCellBorderPosition::Left) && settled_b(b.bottom, TableCellBorderPosition::Bottom) && settled_b(b.right, TableCellBorderPosition::Right) && settled_b(b.inside_h, TableCellBorderPosition::InsideH) && settled_b(b.inside_v, TableCellBorderPosition::InsideV) && settled_b(b.tl2br, TableCellBorderPosition::Tl2br) && settled_b(b.tr2bl, TableCellBorderPosition::Tr2bl) }
pub open spec fn settled_ms(m: CellMargins) -> bool { settled_m(m.top) && settled_m(m.left) && settled_m(m.bottom) && settled_m(m.right) }
pub open spec fn bap(p: TableCellBorders, e: El) -> Option<TableCellBorders> { match ck(e.n) { Some(k) => if k == XMLElement::TableCellBorders { None } else { bstep(p, k, e.a) }, None => None } }
pub open spec fn bnext(p: TableCellBorders, q: TableCellBorders, o: Option<El>) -> bool { match o { Some(e) => bap(p, e) == Some(q), None => p == q } }
proof fn lemma_bnext(p: TableCellBorders, q: TableCellBorders, o: Option<El>, t: Seq<Tok>) requires bnext(p, q, o) ensures brun(p, ol(o) + t) == brun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);  reveal_with_fuel(brun, 3); } }
}
pub open spec fn map(p: CellMargins, e: El) -> Option<CellMargins> { match ck(e.n) { Some(k) => if k == XMLElement::CellMargins { None } else { Some(mstep(p, k, e.a)) }, None => None } }
pub open spec fn mnext(p: CellMargins, q: CellMargins, o: Option<El>) -> bool { match o { Some(e) => map(p, e) == Some(q), None => p == q } }
proof fn lemma_mnext(p: CellMargins, q: CellMargins, o: Option<El>, t: Seq<Tok>) requires mnext(p, q, o) ensures mrun(p, ol(o) + t) == mrun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);  reveal_with_fuel(mrun, 3); } }
}
pub open spec fn cap(p: TableCellProperty, e: El) -> Option<TableCellProperty> { match ck(e.n) { Some(k) => if k == XMLElement::TableCellProperty { None } else { cstep(p, k, e.a) }, None => None } }
pub open spec fn cnext(p: TableCellProperty, q: TableCellProperty, o: Option<El>) -> bool { match o { Some(e) => cap(p, e) == Some(q), None => p == q } }
proof fn lemma_cnext(p: TableCellProperty, q: TableCellProperty, o: Option<El>, t: Seq<Tok>) requires cnext(p, q, o) ensures crun(p, ol(o) + t) == crun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t); reveal(cstep); reveal_with_fuel(crun, 3); } }
}
proof fn lemma_edge(b: TableCellBorder) requires settled_b(Some(b), b.position) ensures bdr_fine(el_edge(b).a), edge_of(b.position, el_edge(b).a) == b
{
    broadcast use codec::border, nums::usize_back_u32; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("space");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(b.border_type)@); let a2 = ats(a1, "sz"@, shown(b.size)@); let a3 = ats(a2, "space"@, shown(b.space)@); let a4 = ats(a3, "color"@, b.color@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2); assert(a4.drop_last() =~= a3);
    reveal_with_fuel(last, 6);
    assert(a4[0] == a1[0] && a4[1] == a2[1] && a4[2] == a3[2]);
    assert(el_edge(b).a == a4); assert(bdr_fine(a4)); assert(edge_of(b.position, a4) == b);
}
proof fn lemma_wide(n: usize, t: WidthType) requires n <= i32::MAX, t != WidthType::Unsupported
    ensures wid(wide_at(n as i32, t)) == Some((n, t)), wid_f(wide_at(n as i32, t)) == Some((n as i32 as isize, t)), cast::<isize, usize>(n as i32 as isize) == n
{
    broadcast use cells::width_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let m = n as i32;
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(m)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&m)@) == shown_of(&m)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid, 4); reveal_with_fuel(wid_f, 4);
    assert(wide_at(m, t) == a2);
}
proof fn lemma_brun_end(x: TableCellBorders, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tcBorders"@) ensures brun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_mrun_end(x: CellMargins, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tcMar"@) ensures mrun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_crun_end(x: TableCellProperty, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("tcPr"@) ensures crun(x, u) == Some((x, u.skip(1))) { kinds(); }
proof fn lemma_edges_back(x: TableCellBorders, t: Seq<Tok>) requires settled_bs(x) ensures brun(no_edges(), edges(x) + t) == Some((x, t))
{
    hide(brun); kinds(); reveal(bstep);
    let c = seq![Tok::Close("tcBorders"@)]; let u8 = c + t;
    let u7 = ol(be_tr2bl(x)) + u8;
    let u6 = ol(be_tl2br(x)) + u7;
    let u5 = ol(be_inside_v(x)) + u6;
    let u4 = ol(be_inside_h(x)) + u5;
    let u3 = ol(be_right(x)) + u4;
    let u2 = ol(be_bottom(x)) + u3;
    let u1 = ol(be_left(x)) + u2;
    let u0 = ol(be_top(x)) + u1;
    let p0 = no_edges();
    let p1 = TableCellBorders { top: x.top, ..p0 };
    assert(bnext(p0, p1, be_top(x))) by { reveal(be_top); if let Some(v) = x.top { lemma_edge(v); } }
    lemma_bnext(p0, p1, be_top(x), u1);
    let p2 = TableCellBorders { left: x.left, ..p1 };
    assert(bnext(p1, p2, be_left(x))) by { reveal(be_left); if let Some(v) = x.left { lemma_edge(v); } }
    lemma_bnext(p1, p2, be_left(x), u2);
    let p3 = TableCellBorders { bottom: x.bottom, ..p2 };
    assert(bnext(p2, p3, be_bottom(x))) by { reveal(be_bottom); if let Some(v) = x.bottom { lemma_edge(v); } }
    lemma_bnext(p2, p3, be_bottom(x), u3);
    let p4 = TableCellBorders { right: x.right, ..p3 };
    assert(bnext(p3, p4, be_right(x))) by { reveal(be_right); if let Some(v) = x.right { lemma_edge(v); } }
    lemma_bnext(p3, p4, be_right(x), u4);
    let p5 = TableCellBorders { inside_h: x.inside_h, ..p4 };
    assert(bnext(p4, p5, be_inside_h(x))) by { reveal(be_inside_h); if let Some(v) = x.inside_h { lemma_edge(v); } }
    lemma_bnext(p4, p5, be_inside_h(x), u5);
    let p6 = TableCellBorders { inside_v: x.inside_v, ..p5 };
    assert(bnext(p5, p6, be_inside_v(x))) by { reveal(be_inside_v); if let Some(v) = x.inside_v { lemma_edge(v); } }
    lemma_bnext(p5, p6, be_inside_v(x), u6);
    let p7 = TableCellBorders { tl2br: x.tl2br, ..p6 };
    assert(bnext(p6, p7, be_tl2br(x))) by { reveal(be_tl2br); if let Some(v) = x.tl2br { lemma_edge(v); } }
    lemma_bnext(p6, p7, be_tl2br(x), u7);
    let p8 = TableCellBorders { tr2bl: x.tr2bl, ..p7 };
    assert(bnext(p7, p8, be_tr2bl(x))) by { reveal(be_tr2bl); if let Some(v) = x.tr2bl { lemma_edge(v); } }
    lemma_bnext(p7, p8, be_tr2bl(x), u8);
    assert(p8 == x);
    let s8 = c;
    let s7 = ol(be_tr2bl(x)) + s8; lemma_cat(ol(be_tr2bl(x)), s8, t);
    let s6 = ol(be_tl2br(x)) + s7; lemma_cat(ol(be_tl2br(x)), s7, t);
    let s5 = ol(be_inside_v(x)) + s6; lemma_cat(ol(be_inside_v(x)), s6, t);
    let s4 = ol(be_inside_h(x)) + s5; lemma_cat(ol(be_inside_h(x)), s5, t);
    let s3 = ol(be_right(x)) + s4; lemma_cat(ol(be_right(x)), s4, t);
    let s2 = ol(be_bottom(x)) + s3; lemma_cat(ol(be_bottom(x)), s3, t);
    let s1 = ol(be_left(x)) + s2; lemma_cat(ol(be_left(x)), s2, t);
    let s0 = ol(be_top(x)) + s1; lemma_cat(ol(be_top(x)), s1, t);
    assert(edges(x) == s0); assert(s0 + t == u0);
    assert(u8[0] == Tok::Close("tcBorders"@)); assert(u8.skip(1) =~= t); lemma_brun_end(x, u8);
}
proof fn lemma_rims_back(x: CellMargins, t: Seq<Tok>) requires settled_ms(x) ensures mrun(no_rims(), rims(x) + t) == Some((x, t))
{
    hide(mrun); kinds(); reveal(mstep);
    let c = seq![Tok::Close("tcMar"@)]; let u4 = c + t;
    let u3 = ol(me_right(x)) + u4;
    let u2 = ol(me_bottom(x)) + u3;
    let u1 = ol(me_left(x)) + u2;
    let u0 = ol(me_top(x)) + u1;
    let p0 = no_rims();
    let p1 = CellMargins { top: x.top, ..p0 };
    assert(mnext(p0, p1, me_top(x))) by { reveal(me_top); if let Some(v) = x.top { lemma_wide(v.val, v.width_type); } }
    lemma_mnext(p0, p1, me_top(x), u1);
    let p2 = CellMargins { left: x.left, ..p1 };
    assert(mnext(p1, p2, me_left(x))) by { reveal(me_left); if let Some(v) = x.left { lemma_wide(v.val, v.width_type); } }
    lemma_mnext(p1, p2, me_left(x), u2);
    let p3 = CellMargins { bottom: x.bottom, ..p2 };
    assert(mnext(p2, p3, me_bottom(x))) by { reveal(me_bottom); if let Some(v) = x.bottom { lemma_wide(v.val, v.width_type); } }
    lemma_mnext(p2, p3, me_bottom(x), u3);
    let p4 = CellMargins { right: x.right, ..p3 };
    assert(mnext(p3, p4, me_right(x))) by { reveal(me_right); if let Some(v) = x.right { lemma_wide(v.val, v.width_type); } }
    lemma_mnext(p3, p4, me_right(x), u4);
    assert(p4 == x);
    let s4 = c;
    let s3 = ol(me_right(x)) + s4; lemma_cat(ol(me_right(x)), s4, t);
    let s2 = ol(me_bottom(x)) + s3; lemma_cat(ol(me_bottom(x)), s3, t);
    let s1 = ol(me_left(x)) + s2; lemma_cat(ol(me_left(x)), s2, t);
    let s0 = ol(me_top(x)) + s1; lemma_cat(ol(me_top(x)), s1, t);
    assert(rims(x) == s0); assert(s0 + t == u0);
    assert(u4[0] == Tok::Close("tcMar"@)); assert(u4.skip(1) =~= t); lemma_mrun_end(x, u4);
}
proof fn c_width(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.width is Some || p.width is None ==> cnext(p, TableCellProperty { width: x.width, ..p }, ce_width(x))
{ reveal(ce_width); reveal(cstep); kinds(); if let Some(v) = x.width { lemma_wide(v.width, v.width_type); } }
proof fn c_grid_span(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.grid_span is Some || p.grid_span is None ==> cnext(p, TableCellProperty { grid_span: x.grid_span, ..p }, ce_grid_span(x))
{ reveal(ce_grid_span); reveal(cstep); kinds(); broadcast use nums::usize_back; if let Some(v) = x.grid_span { assert(seen(shown_of(&v.val)@) == shown_of(&v.val)@); assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); } }
proof fn c_vertical_merge(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.vertical_merge is Some || p.vertical_merge is None ==> cnext(p, TableCellProperty { vertical_merge: x.vertical_merge, ..p }, ce_vertical_merge(x))
{ reveal(ce_vertical_merge); reveal(cstep); kinds(); broadcast use cells::merge; if let Some(v) = x.vertical_merge { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); } }
proof fn c_vertical_align(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.vertical_align is Some || p.vertical_align is None ==> cnext(p, TableCellProperty { vertical_align: x.vertical_align, ..p }, ce_vertical_align(x))
{ reveal(ce_vertical_align); reveal(cstep); kinds(); broadcast use cells::align; if let Some(v) = x.vertical_align { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); } }
proof fn c_text_direction(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.text_direction is Some || p.text_direction is None ==> cnext(p, TableCellProperty { text_direction: x.text_direction, ..p }, ce_text_direction(x))
{ reveal(ce_text_direction); reveal(cstep); kinds(); broadcast use cells::direction; if let Some(v) = x.text_direction { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); } }
proof fn c_shading(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.shading is Some || p.shading is None ==> cnext(p, TableCellProperty { shading: x.shading, ..p }, ce_shading(x))
{ reveal(ce_shading); reveal(cstep); kinds(); broadcast use codec::shd; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill");
    if let Some(s) = x.shading {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(s.shd_type)@); let a2 = ats(a1, "color"@, s.color@); let a3 = ats(a2, "fill"@, s.fill@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2);
        reveal_with_fuel(shd_of, 5);
        assert(shd_of(a3) == s);
    } }
proof fn c_borders(x: TableCellProperty, p: TableCellProperty, t: Seq<Tok>) requires settled_c(x), p.borders is None ensures crun(p, w_edges(x) + t) == crun(TableCellProperty { borders: x.borders, ..p }, t)
{
    reveal(w_edges); kinds(); 
    match x.borders { None => { assert(w_edges(x) + t =~= t); }
        Some(b) => { lemma_edges_back(b, t); let o = seq![Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })]; let u = w_edges(x) + t; assert(u =~= o + (edges(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= edges(b) + t); } }
}
proof fn c_margins(x: TableCellProperty, p: TableCellProperty, t: Seq<Tok>) requires settled_c(x), p.margins is None ensures crun(p, w_rims(x) + t) == crun(TableCellProperty { margins: x.margins, ..p }, t)
{
    reveal(w_rims); kinds(); broadcast use cells::d_margins; 
    match x.margins { None => { assert(w_rims(x) + t =~= t); }
        Some(b) => { lemma_rims_back(b, t); let o = seq![Tok::Open(El { n: "tcMar"@, a: Seq::empty() })]; let u = w_rims(x) + t; assert(u =~= o + (rims(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= rims(b) + t); } }
}
/// Cell formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_cell_formatting(x: TableCellProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_c(x)
    ensures tcpr_onto(x, log).subrange(0, log.len() as int) == log, tcpr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "tcPr"@, a: Seq::empty() }),
        crun(dflt::<TableCellProperty>(), tcpr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(crun); broadcast use cells::d_cell;
    let c = seq![Tok::Close("tcPr"@)]; let u8 = c + t;
    let u7 = w_rims(x) + u8;
    let u6 = ol(ce_shading(x)) + u7;
    let u5 = ol(ce_text_direction(x)) + u6;
    let u4 = ol(ce_vertical_align(x)) + u5;
    let u3 = ol(ce_vertical_merge(x)) + u4;
    let u2 = ol(ce_grid_span(x)) + u3;
    let u1 = w_edges(x) + u2;
    let u0 = ol(ce_width(x)) + u1;
    let p0 = no_cell();
    let p1 = TableCellProperty { width: x.width, ..p0 };
    c_width(x, p0); lemma_cnext(p0, p1, ce_width(x), u1);
    let p2 = TableCellProperty { borders: x.borders, ..p1 };
    c_borders(x, p1, u2);
    let p3 = TableCellProperty { grid_span: x.grid_span, ..p2 };
    c_grid_span(x, p2); lemma_cnext(p2, p3, ce_grid_span(x), u3);
    let p4 = TableCellProperty { vertical_merge: x.vertical_merge, ..p3 };
    c_vertical_merge(x, p3); lemma_cnext(p3, p4, ce_vertical_merge(x), u4);
    let p5 = TableCellProperty { vertical_align: x.vertical_align, ..p4 };
    c_vertical_align(x, p4); lemma_cnext(p4, p5, ce_vertical_align(x), u5);
    let p6 = TableCellProperty { text_direction: x.text_direction, ..p5 };
    c_text_direction(x, p5); lemma_cnext(p5, p6, ce_text_direction(x), u6);
    let p7 = TableCellProperty { shading: x.shading, ..p6 };
    c_shading(x, p6); lemma_cnext(p6, p7, ce_shading(x), u7);
    let p8 = TableCellProperty { margins: x.margins, ..p7 };
    c_margins(x, p7, u8);
    assert(p8 == x); let s8 = c;
    let s7 = w_rims(x) + s8; lemma_cat(w_rims(x), s8, t);
    let s6 = ol(ce_shading(x)) + s7; lemma_cat(ol(ce_shading(x)), s7, t);
    let s5 = ol(ce_text_direction(x)) + s6; lemma_cat(ol(ce_text_direction(x)), s6, t);
    let s4 = ol(ce_vertical_align(x)) + s5; lemma_cat(ol(ce_vertical_align(x)), s5, t);
    let s3 = ol(ce_vertical_merge(x)) + s4; lemma_cat(ol(ce_vertical_merge(x)), s4, t);
    let s2 = ol(ce_grid_span(x)) + s3; lemma_cat(ol(ce_grid_span(x)), s3, t);
    let s1 = w_edges(x) + s2; lemma_cat(w_edges(x), s2, t);
    let s0 = ol(ce_width(x)) + s1; lemma_cat(ol(ce_width(x)), s1, t);
    assert(tcpr_body(x, c) == s0); assert(s0 + t == u0);
    assert(u8[0] == Tok::Close("tcPr"@)); assert(u8.skip(1) =~= t); lemma_crun_end(x, u8);
    let o = seq![Tok::Open(El { n: "tcPr"@, a: Seq::empty() })];
    assert(tcpr_onto(x, log) == log + (o + s0));
    assert(tcpr_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(tcpr_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}
