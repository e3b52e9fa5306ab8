// TRUSTED: the texts of an optional text, one after another, are that text.
pub trait VxOptText { fn vx_text(&self) -> (r: String); }
impl VxOptText for Option<String> { #[verifier::external_body] fn vx_text(&self) -> (r: String) ensures *self matches Some(s) ==> r@ == s@ { unimplemented!() } }
//@fn XMLBuilder::table_position_property
//@| ensures put(self, r, el_tpos(*prop)),
//@sub `.iter().cloned().collect()` => `.vx_text()`
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::table_width
//@| ensures put(self, r, el_wide("tblW"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::table_indent
//@| ensures put(self, r, el_wide("tblInd"@, w, t)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::justification
//@| ensures put(self, r, el_val("jc"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::table_style
//@| ensures put(self, r, el_val("tblStyle"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tblPr"@, a: Seq::empty() })) && w.open() == self.open().push("tblPr"@) && w.open().drop_last() == self.open() && w.open().last() == "tblPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_borders
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })) && w.open() == self.open().push("tblBorders"@) && w.open().drop_last() == self.open() && w.open().last() == "tblBorders"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_cell_margins
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })) && w.open() == self.open().push("tblCellMar"@) && w.open().drop_last() == self.open() && w.open().last() == "tblCellMar"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
//@fn <TableWidth as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `self.width as i32` => `#[verifier::truncate] (self.width as i32)`
//@end
impl BuildXML for TableWidth {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_wide("tblW"@, self.width as i32, self.width_type)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableIndent as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableIndent {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_wide("tblInd"@, self.width, self.width_type)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Justification as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Justification {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("jc"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableStyle as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableStyle {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("tblStyle"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TablePositionProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TablePositionProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_tpos(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// The layout is outside; nothing is said about what is written for it.
pub uninterp spec fn other<T>(t: T, log: Seq<Tok>) -> Seq<Tok>;
impl BuildXML for TableLayout {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
//@fn <TableBorder as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `let func = match self.position {` => `let vx_f = |b: XMLBuilder<W>| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_tedge(*self)) { match self.position {`
//@sub `TableBorderPosition::Top => XMLBuilder::border_top,` => `TableBorderPosition::Top => XMLBuilder::border_top(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableBorderPosition::Left => XMLBuilder::border_left,` => `TableBorderPosition::Left => XMLBuilder::border_left(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableBorderPosition::Bottom => XMLBuilder::border_bottom,` => `TableBorderPosition::Bottom => XMLBuilder::border_bottom(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableBorderPosition::Right => XMLBuilder::border_right,` => `TableBorderPosition::Right => XMLBuilder::border_right(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableBorderPosition::InsideH => XMLBuilder::border_inside_h,` => `TableBorderPosition::InsideH => XMLBuilder::border_inside_h(b, self.border_type, self.size, self.space, &self.color),`
//@sub `TableBorderPosition::InsideV => XMLBuilder::border_inside_v,` => `TableBorderPosition::InsideV => XMLBuilder::border_inside_v(b, self.border_type, self.size, self.space, &self.color),`
//@sub `};~~XMLBuilder::from(stream)` => `} } ; XMLBuilder::from(stream)`
//@sub `|b| func(b, self.border_type, self.size, self.space, &self.color)` => `vx_f`
//@end
impl BuildXML for TableBorder {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_tedge(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_tedges(b: TableBorders, log: Seq<Tok>)
    ensures ((((((log.push(Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })) + ol(tbe_top(b))) + ol(tbe_left(b))) + ol(tbe_bottom(b))) + ol(tbe_right(b))) + ol(tbe_inside_h(b))) + ol(tbe_inside_v(b))).push(Tok::Close("tblBorders"@)) == log + (seq![Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })] + tedges(b)),
{
    let p0 = log.push(Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })); let t6 = seq![Tok::Close("tblBorders"@)];
    let t5 = ol(tbe_inside_v(b)) + t6;
    let t4 = ol(tbe_inside_h(b)) + t5;
    let t3 = ol(tbe_right(b)) + t4;
    let t2 = ol(tbe_bottom(b)) + t3;
    let t1 = ol(tbe_left(b)) + t2;
    let t0 = ol(tbe_top(b)) + t1;
    let p1 = p0 + ol(tbe_top(b)); lemma_cat(p0, ol(tbe_top(b)), t1);
    let p2 = p1 + ol(tbe_left(b)); lemma_cat(p1, ol(tbe_left(b)), t2);
    let p3 = p2 + ol(tbe_bottom(b)); lemma_cat(p2, ol(tbe_bottom(b)), t3);
    let p4 = p3 + ol(tbe_right(b)); lemma_cat(p3, ol(tbe_right(b)), t4);
    let p5 = p4 + ol(tbe_inside_h(b)); lemma_cat(p4, ol(tbe_inside_h(b)), t5);
    let p6 = p5 + ol(tbe_inside_v(b)); lemma_cat(p5, ol(tbe_inside_v(b)), t6);
    assert(p6.push(Tok::Close("tblBorders"@)) =~= p6 + t6);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })] + t0));
}
proof fn lemma_trims(m: TableCellMargins, log: Seq<Tok>)
    ensures ((((log.push(Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })) + ol(tme_top(m))) + ol(tme_left(m))) + ol(tme_bottom(m))) + ol(tme_right(m))).push(Tok::Close("tblCellMar"@)) == log + (seq![Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })] + trims(m)),
{
    let p0 = log.push(Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })); let t4 = seq![Tok::Close("tblCellMar"@)];
    let t3 = ol(tme_right(m)) + t4;
    let t2 = ol(tme_bottom(m)) + t3;
    let t1 = ol(tme_left(m)) + t2;
    let t0 = ol(tme_top(m)) + t1;
    let p1 = p0 + ol(tme_top(m)); lemma_cat(p0, ol(tme_top(m)), t1);
    let p2 = p1 + ol(tme_left(m)); lemma_cat(p1, ol(tme_left(m)), t2);
    let p3 = p2 + ol(tme_bottom(m)); lemma_cat(p2, ol(tme_bottom(m)), t3);
    let p4 = p3 + ol(tme_right(m)); lemma_cat(p3, ol(tme_right(m)), t4);
    assert(p4.push(Tok::Close("tblCellMar"@)) =~= p4 + t4);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })] + t0));
}
proof fn lemma_tblpr(x: TableProperty, log: Seq<Tok>)
    ensures (((((((log.push(Tok::Open(El { n: "tblPr"@, a: Seq::empty() })) + ol(te_width(x))) + ol(te_justification(x))) + w_tedges(x)) + w_trims(x)) + ol(te_indent(x))) + ol(te_style(x))) + ol(te_position(x))).push(Tok::Close("tblPr"@)) == log + (seq![Tok::Open(El { n: "tblPr"@, a: Seq::empty() })] + tblpr_body(x, seq![Tok::Close("tblPr"@)])),
{
    let p0 = log.push(Tok::Open(El { n: "tblPr"@, a: Seq::empty() })); let t7 = seq![Tok::Close("tblPr"@)];
    let t6 = ol(te_position(x)) + t7;
    let t5 = ol(te_style(x)) + t6;
    let t4 = ol(te_indent(x)) + t5;
    let t3 = w_trims(x) + t4;
    let t2 = w_tedges(x) + t3;
    let t1 = ol(te_justification(x)) + t2;
    let t0 = ol(te_width(x)) + t1;
    let p1 = p0 + ol(te_width(x)); lemma_cat(p0, ol(te_width(x)), t1);
    let p2 = p1 + ol(te_justification(x)); lemma_cat(p1, ol(te_justification(x)), t2);
    let p3 = p2 + w_tedges(x); lemma_cat(p2, w_tedges(x), t3);
    let p4 = p3 + w_trims(x); lemma_cat(p3, w_trims(x), t4);
    let p5 = p4 + ol(te_indent(x)); lemma_cat(p4, ol(te_indent(x)), t5);
    let p6 = p5 + ol(te_style(x)); lemma_cat(p5, ol(te_style(x)), t6);
    let p7 = p6 + ol(te_position(x)); lemma_cat(p6, ol(te_position(x)), t7);
    assert(p7.push(Tok::Close("tblPr"@)) =~= p7 + t7);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "tblPr"@, a: Seq::empty() })] + t0));
}
proof fn kids_tedges(b: TableBorders)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(b.top, l) == l + ol(tbe_top(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.left, l) == l + ol(tbe_left(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.bottom, l) == l + ol(tbe_bottom(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.right, l) == l + ol(tbe_right(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.inside_h, l) == l + ol(tbe_inside_h(b)),
        forall |l: Seq<Tok>| #[trigger] kid(b.inside_v, l) == l + ol(tbe_inside_v(b)),
{ reveal(kid); reveal(ol);
    assert forall |l: Seq<Tok>| #[trigger] kid(b.top, l) == l + ol(tbe_top(b)) by { reveal(tbe_top); assert(kid(b.top, l) =~= l + ol(tbe_top(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.left, l) == l + ol(tbe_left(b)) by { reveal(tbe_left); assert(kid(b.left, l) =~= l + ol(tbe_left(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.bottom, l) == l + ol(tbe_bottom(b)) by { reveal(tbe_bottom); assert(kid(b.bottom, l) =~= l + ol(tbe_bottom(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.right, l) == l + ol(tbe_right(b)) by { reveal(tbe_right); assert(kid(b.right, l) =~= l + ol(tbe_right(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.inside_h, l) == l + ol(tbe_inside_h(b)) by { reveal(tbe_inside_h); assert(kid(b.inside_h, l) =~= l + ol(tbe_inside_h(b))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(b.inside_v, l) == l + ol(tbe_inside_v(b)) by { reveal(tbe_inside_v); assert(kid(b.inside_v, l) =~= l + ol(tbe_inside_v(b))); }
}
//@fn <TableBorders as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); kids_tedges(*self); lemma_tedges(*self, stream.log()); }
//@end
impl BuildXML for TableBorders {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tblBorders"@, a: Seq::empty() })] + tedges(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableCellMargins as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `self.top.val as i32` => `#[verifier::truncate] (self.top.val as i32)`
//@sub `self.left.val as i32` => `#[verifier::truncate] (self.left.val as i32)`
//@sub `self.bottom.val as i32` => `#[verifier::truncate] (self.bottom.val as i32)`
//@sub `self.right.val as i32` => `#[verifier::truncate] (self.right.val as i32)`
//@at start
//@| proof { names(); puts::<W>(); lemma_trims(*self, stream.log()); reveal(tme_top); reveal(tme_left); reveal(tme_bottom); reveal(tme_right); }
//@end
impl BuildXML for TableCellMargins {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "tblCellMar"@, a: Seq::empty() })] + trims(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn kids_table(x: TableProperty)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(x.indent, l) == l + ol(te_indent(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.style, l) == l + ol(te_style(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.position, l) == l + ol(te_position(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.margins, l) == l + w_trims(x),
{ reveal(kid); reveal(ol);
    assert forall |l: Seq<Tok>| #[trigger] kid(x.indent, l) == l + ol(te_indent(x)) by { reveal(te_indent); assert(kid(x.indent, l) =~= l + ol(te_indent(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.style, l) == l + ol(te_style(x)) by { reveal(te_style); assert(kid(x.style, l) =~= l + ol(te_style(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.position, l) == l + ol(te_position(x)) by { reveal(te_position); assert(kid(x.position, l) =~= l + ol(te_position(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.margins, l) == l + w_trims(x) by { reveal(w_trims); assert(kid(x.margins, l) =~= l + w_trims(x)); }
}
proof fn kids_table_always(x: TableProperty)
    ensures forall |l: Seq<Tok>| #[trigger] x.width.onto(l) == l + ol(te_width(x)), forall |l: Seq<Tok>| #[trigger] x.justification.onto(l) == l + ol(te_justification(x)),
        forall |l: Seq<Tok>| #[trigger] x.borders.onto(l) == l + w_tedges(x), x.layout is None ==> forall |l: Seq<Tok>| #[trigger] kid(x.layout, l) == l,
{ reveal(ol); reveal(kid);
    assert forall |l: Seq<Tok>| #[trigger] x.width.onto(l) == l + ol(te_width(x)) by { reveal(te_width); assert(x.width.onto(l) =~= l + ol(te_width(x))); }
    assert forall |l: Seq<Tok>| #[trigger] x.justification.onto(l) == l + ol(te_justification(x)) by { reveal(te_justification); assert(x.justification.onto(l) =~= l + ol(te_justification(x))); }
    assert forall |l: Seq<Tok>| #[trigger] x.borders.onto(l) == l + w_tedges(x) by { reveal(w_tedges); }
}
//@fn <TableProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.open() == stream.open() && (self.layout is None ==> w.log() == tblpr_onto(*self, stream.log())),
//@at start
//@| proof { names(); kids_table(*self); kids_table_always(*self); lemma_tblpr(*self, stream.log()); }
//@end
