//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include rt_spec.rs
//@include tb_spec.rs
//@include wr_head.rs
//@fn XMLBuilder::apply
//@| requires f.requires((self,)),
//@| ensures f.ensures((self,), r),
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
//@fn XMLBuilder::border_top
//@| ensures put(self, r, El { n: "top"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_left
//@| ensures put(self, r, El { n: "left"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_bottom
//@| ensures put(self, r, El { n: "bottom"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_right
//@| ensures put(self, r, El { n: "right"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_inside_h
//@| ensures put(self, r, El { n: "insideH"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_inside_v
//@| ensures put(self, r, El { n: "insideV"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_tl2br
//@| ensures put(self, r, El { n: "tl2br"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::border_tr2bl
//@| ensures put(self, r, El { n: "tr2bl"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::margin_top
//@| ensures put(self, r, el_wide("top"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::margin_left
//@| ensures put(self, r, el_wide("left"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::margin_bottom
//@| ensures put(self, r, el_wide("bottom"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::margin_right
//@| ensures put(self, r, el_wide("right"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::table_cell_width
//@| ensures put(self, r, el_wide("tcW"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::grid_span
//@| ensures put(self, r, el_val("gridSpan"@, shown(val)@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::vertical_merge
//@| ensures put(self, r, el_val("vMerge"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::vertical_align
//@| ensures put(self, r, el_val("vAlign"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::text_direction
//@| ensures put(self, r, el_val("textDirection"@, arg0@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::shd
//@| ensures put(self, r, El { n: "shd"@, a: shd_at(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_cell_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tcPr"@, a: Seq::empty() })) && w.open() == self.open().push("tcPr"@) && w.open().drop_last() == self.open() && w.open().last() == "tcPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_cell_borders
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })) && w.open() == self.open().push("tcBorders"@) && w.open().drop_last() == self.open() && w.open().last() == "tcBorders"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_cell_margins
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tcMar"@, a: Seq::empty() })) && w.open() == self.open().push("tcMar"@) && w.open().drop_last() == self.open() && w.open().last() == "tcMar"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
//@fn <TableCellWidth as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `self.width as i32` => `#[verifier::truncate] (self.width as i32)`
//@end
impl BuildXML for TableCellWidth {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_wide("tcW"@, self.width as i32, self.width_type)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <GridSpan as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for GridSpan {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("gridSpan"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <VMerge as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for VMerge {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("vMerge"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <VAlign as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for VAlign {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("vAlign"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TextDirection as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TextDirection {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("textDirection"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Shading as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Shading {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_shading(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableCellBorder as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `let func = match self.position {` => `let vx_f = |b: XMLBuilder<W>| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_edge(*self)) { match self.position {`
//@sub `TableCellBorderPosition::Top => XMLBuilder::border_top,` => `TableCellBorderPosition::Top => XMLBuilder::border_top(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::Left => XMLBuilder::border_left,` => `TableCellBorderPosition::Left => XMLBuilder::border_left(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::Bottom => XMLBuilder::border_bottom,` => `TableCellBorderPosition::Bottom => XMLBuilder::border_bottom(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::Right => XMLBuilder::border_right,` => `TableCellBorderPosition::Right => XMLBuilder::border_right(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::InsideH => XMLBuilder::border_inside_h,` => `TableCellBorderPosition::InsideH => XMLBuilder::border_inside_h(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::InsideV => XMLBuilder::border_inside_v,` => `TableCellBorderPosition::InsideV => XMLBuilder::border_inside_v(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::Tl2br => XMLBuilder::border_tl2br,` => `TableCellBorderPosition::Tl2br => XMLBuilder::border_tl2br(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableCellBorderPosition::Tr2bl => XMLBuilder::border_tr2bl,` => `TableCellBorderPosition::Tr2bl => XMLBuilder::border_tr2bl(b, self.border_type, self.size, self.space, &self.color),`
//@sub `};~~XMLBuilder::from(stream)` => `} } ; XMLBuilder::from(stream)`
//@sub `|b| func(b, self.border_type, self.size, self.space, &self.color)` => `vx_f`
//@end
impl BuildXML for TableCellBorder {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_edge(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_edges(b: TableCellBorders, log: Seq<Tok>)
    ensures ((((((((log.push(Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })) + ol(be_top(b))) + ol(be_left(b))) + ol(be_bottom(b))) + ol(be_right(b))) + ol(be_inside_h(b))) + ol(be_inside_v(b))) + ol(be_tl2br(b))) + ol(be_tr2bl(b))).push(Tok::Close("tcBorders"@)) == log + (seq![Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })] + edges(b)),
{
    let p0 = log.push(Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })); let t8 = seq![Tok::Close("tcBorders"@)];
    let t7 = ol(be_tr2bl(b)) + t8;
    let t6 = ol(be_tl2br(b)) + t7;
    let t5 = ol(be_inside_v(b)) + t6;
    let t4 = ol(be_inside_h(b)) + t5;
    let t3 = ol(be_right(b)) + t4;
    let t2 = ol(be_bottom(b)) + t3;
    let t1 = ol(be_left(b)) + t2;
    let t0 = ol(be_top(b)) + t1;
    let p1 = p0 + ol(be_top(b)); lemma_cat(p0, ol(be_top(b)), t1);
    let p2 = p1 + ol(be_left(b)); lemma_cat(p1, ol(be_left(b)), t2);
    let p3 = p2 + ol(be_bottom(b)); lemma_cat(p2, ol(be_bottom(b)), t3);
    let p4 = p3 + ol(be_right(b)); lemma_cat(p3, ol(be_right(b)), t4);
    let p5 = p4 + ol(be_inside_h(b)); lemma_cat(p4, ol(be_inside_h(b)), t5);
    let p6 = p5 + ol(be_inside_v(b)); lemma_cat(p5, ol(be_inside_v(b)), t6);
    let p7 = p6 + ol(be_tl2br(b)); lemma_cat(p6, ol(be_tl2br(b)), t7);
    let p8 = p7 + ol(be_tr2bl(b)); lemma_cat(p7, ol(be_tr2bl(b)), t8);
    assert(p8.push(Tok::Close("tcBorders"@)) =~= p8 + t8);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })] + t0));
}
proof fn lemma_rims(m: CellMargins, log: Seq<Tok>)
    ensures ((((log.push(Tok::Open(El { n: "tcMar"@, a: Seq::empty() })) + ol(me_top(m))) + ol(me_left(m))) + ol(me_bottom(m))) + ol(me_right(m))).push(Tok::Close("tcMar"@)) == log + (seq![Tok::Open(El { n: "tcMar"@, a: Seq::empty() })] + rims(m)),
{
    let p0 = log.push(Tok::Open(El { n: "tcMar"@, a: Seq::empty() })); let t4 = seq![Tok::Close("tcMar"@)];
    let t3 = ol(me_right(m)) + t4;
    let t2 = ol(me_bottom(m)) + t3;
    let t1 = ol(me_left(m)) + t2;
    let t0 = ol(me_top(m)) + t1;
    let p1 = p0 + ol(me_top(m)); lemma_cat(p0, ol(me_top(m)), t1);
    let p2 = p1 + ol(me_left(m)); lemma_cat(p1, ol(me_left(m)), t2);
    let p3 = p2 + ol(me_bottom(m)); lemma_cat(p2, ol(me_bottom(m)), t3);
    let p4 = p3 + ol(me_right(m)); lemma_cat(p3, ol(me_right(m)), t4);
    assert(p4.push(Tok::Close("tcMar"@)) =~= p4 + t4);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tcMar"@, a: Seq::empty() })] + t0));
}
proof fn lemma_tcpr(x: TableCellProperty, log: Seq<Tok>)
    ensures ((((((((log.push(Tok::Open(El { n: "tcPr"@, a: Seq::empty() })) + ol(ce_width(x))) + w_edges(x)) + ol(ce_grid_span(x))) + ol(ce_vertical_merge(x))) + ol(ce_vertical_align(x))) + ol(ce_text_direction(x))) + ol(ce_shading(x))) + w_rims(x)).push(Tok::Close("tcPr"@)) == log + (seq![Tok::Open(El { n: "tcPr"@, a: Seq::empty() })] + tcpr_body(x, seq![Tok::Close("tcPr"@)])),
{
    let p0 = log.push(Tok::Open(El { n: "tcPr"@, a: Seq::empty() })); let t8 = seq![Tok::Close("tcPr"@)];
    let t7 = w_rims(x) + t8;
    let t6 = ol(ce_shading(x)) + t7;
    let t5 = ol(ce_text_direction(x)) + t6;
    let t4 = ol(ce_vertical_align(x)) + t5;
    let t3 = ol(ce_vertical_merge(x)) + t4;
    let t2 = ol(ce_grid_span(x)) + t3;
    let t1 = w_edges(x) + t2;
    let t0 = ol(ce_width(x)) + t1;
    let p1 = p0 + ol(ce_width(x)); lemma_cat(p0, ol(ce_width(x)), t1);
    let p2 = p1 + w_edges(x); lemma_cat(p1, w_edges(x), t2);
    let p3 = p2 + ol(ce_grid_span(x)); lemma_cat(p2, ol(ce_grid_span(x)), t3);
    let p4 = p3 + ol(ce_vertical_merge(x)); lemma_cat(p3, ol(ce_vertical_merge(x)), t4);
    let p5 = p4 + ol(ce_vertical_align(x)); lemma_cat(p4, ol(ce_vertical_align(x)), t5);
    let p6 = p5 + ol(ce_text_direction(x)); lemma_cat(p5, ol(ce_text_direction(x)), t6);
    let p7 = p6 + ol(ce_shading(x)); lemma_cat(p6, ol(ce_shading(x)), t7);
    let p8 = p7 + w_rims(x); lemma_cat(p7, w_rims(x), t8);
    assert(p8.push(Tok::Close("tcPr"@)) =~= p8 + t8);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tcPr"@, a: Seq::empty() })] + t0));
}
proof fn kids_edges(b: TableCellBorders)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(b.top, l) == l + ol(be_top(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.left, l) == l + ol(be_left(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.bottom, l) == l + ol(be_bottom(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.right, l) == l + ol(be_right(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.inside_h, l) == l + ol(be_inside_h(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.inside_v, l) == l + ol(be_inside_v(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.tl2br, l) == l + ol(be_tl2br(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.tr2bl, l) == l + ol(be_tr2bl(b)),
{ reveal(kid); reveal(ol);
    assert forall |l: Seq<Tok>| #[trigger] kid(b.top, l) == l + ol(be_top(b)) by { reveal(be_top); assert(kid(b.top, l) =~= l + ol(be_top(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.left, l) == l + ol(be_left(b)) by { reveal(be_left); assert(kid(b.left, l) =~= l + ol(be_left(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.bottom, l) == l + ol(be_bottom(b)) by { reveal(be_bottom); assert(kid(b.bottom, l) =~= l + ol(be_bottom(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.right, l) == l + ol(be_right(b)) by { reveal(be_right); assert(kid(b.right, l) =~= l + ol(be_right(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.inside_h, l) == l + ol(be_inside_h(b)) by { reveal(be_inside_h); assert(kid(b.inside_h, l) =~= l + ol(be_inside_h(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.inside_v, l) == l + ol(be_inside_v(b)) by { reveal(be_inside_v); assert(kid(b.inside_v, l) =~= l + ol(be_inside_v(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.tl2br, l) == l + ol(be_tl2br(b)) by { reveal(be_tl2br); assert(kid(b.tl2br, l) =~= l + ol(be_tl2br(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.tr2bl, l) == l + ol(be_tr2bl(b)) by { reveal(be_tr2bl); assert(kid(b.tr2bl, l) =~= l + ol(be_tr2bl(b))); }
}
//@fn <TableCellBorders as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); kids_edges(*self); lemma_edges(*self, stream.log()); }
//@end
impl BuildXML for TableCellBorders {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tcBorders"@, a: Seq::empty() })] + edges(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
pub open spec fn wrote<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, o: Option<El>) -> bool { r matches Ok(w) ==> w.log() == a.log() + ol(o) && w.open() == a.open() }
proof fn puts<W: Write>()
    ensures forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) ==> wrote(a, r, Some(e)),
        forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l,
{
    reveal(ol);
    assert forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) implies wrote(a, r, Some(e)) by { let l = a.log(); assert(l.push(Tok::Open(e)).push(Tok::Close(e.n)) =~= l + leaf(e)); }
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l by { assert(l + Seq::<Tok>::empty() =~= l); }
}
//@fn <CellMargins as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `top.val as i32` => `#[verifier::truncate] (top.val as i32)`
//@sub `|top, b|` => `|top: &CellMargin, b: XMLBuilder<W>|`
//@sub `left.val as i32` => `#[verifier::truncate] (left.val as i32)`
//@sub `|left, b|` => `|left: &CellMargin, b: XMLBuilder<W>|`
//@sub `bottom.val as i32` => `#[verifier::truncate] (bottom.val as i32)`
//@sub `|bottom, b|` => `|bottom: &CellMargin, b: XMLBuilder<W>|`
//@sub `right.val as i32` => `#[verifier::truncate] (right.val as i32)`
//@sub `|right, b|` => `|right: &CellMargin, b: XMLBuilder<W>|`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_wide("top"@, top.val as i32, top.width_type)))
//@closure 1
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_wide("left"@, left.val as i32, left.width_type)))
//@closure 2
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_wide("bottom"@, bottom.val as i32, bottom.width_type)))
//@closure 3
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_wide("right"@, right.val as i32, right.width_type)))
//@at start
//@| proof { names(); puts::<W>(); lemma_rims(*self, stream.log()); reveal(me_top); reveal(me_left); reveal(me_bottom); reveal(me_right); }
//@end
impl BuildXML for CellMargins {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tcMar"@, a: Seq::empty() })] + rims(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn kids_cell(x: TableCellProperty)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(x.width, l) == l + ol(ce_width(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.grid_span, l) == l + ol(ce_grid_span(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.vertical_merge, l) == l + ol(ce_vertical_merge(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.vertical_align, l) == l + ol(ce_vertical_align(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.text_direction, l) == l + ol(ce_text_direction(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.shading, l) == l + ol(ce_shading(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.borders, l) == l + w_edges(x),
        forall |l: Seq<Tok>| #[trigger] kid(x.margins, l) == l + w_rims(x),
{ reveal(kid); reveal(ol);
    assert forall |l: Seq<Tok>| #[trigger] kid(x.width, l) == l + ol(ce_width(x)) by { reveal(ce_width); assert(kid(x.width, l) =~= l + ol(ce_width(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.grid_span, l) == l + ol(ce_grid_span(x)) by { reveal(ce_grid_span); assert(kid(x.grid_span, l) =~= l + ol(ce_grid_span(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.vertical_merge, l) == l + ol(ce_vertical_merge(x)) by { reveal(ce_vertical_merge); assert(kid(x.vertical_merge, l) =~= l + ol(ce_vertical_merge(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.vertical_align, l) == l + ol(ce_vertical_align(x)) by { reveal(ce_vertical_align); assert(kid(x.vertical_align, l) =~= l + ol(ce_vertical_align(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.text_direction, l) == l + ol(ce_text_direction(x)) by { reveal(ce_text_direction); assert(kid(x.text_direction, l) =~= l + ol(ce_text_direction(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.shading, l) == l + ol(ce_shading(x)) by { reveal(ce_shading); assert(kid(x.shading, l) =~= l + ol(ce_shading(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.borders, l) == l + w_edges(x) by { reveal(w_edges); assert(kid(x.borders, l) =~= l + w_edges(x)); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.margins, l) == l + w_rims(x) by { reveal(w_rims); assert(kid(x.margins, l) =~= l + w_rims(x)); }
}
//@fn <TableCellProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tcpr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); kids_cell(*self); lemma_tcpr(*self, stream.log()); }
//@end
//@include tb_write.rs
//@include rt_names.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
