// Paragraph formatting: what is written.
//@fn XMLBuilder::paragraph_style
//@| ensures put(self, r, el_val("pStyle"@, val@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::justification
//@| ensures put(self, r, el_val("jc"@, val@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::text_alignment
//@| ensures put(self, r, el_val("textAlignment"@, val@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::widow_control
//@| ensures put(self, r, el_val("widowControl"@, arg0@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::outline_lvl
//@| ensures put(self, r, el_val("outlineLvl"@, shown(val)@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::adjust_right_ind
//@| ensures put(self, r, el_val("adjustRightInd"@, shown(val)@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::indent_level
//@| ensures put(self, r, el_val("ilvl"@, shown(val)@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::num_id
//@| ensures put(self, r, el_val("numId"@, shown(val)@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::snap_to_grid
//@| ensures put(self, r, el_val("snapToGrid"@, shown(v)@)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::keep_next
//@| ensures put(self, r, el_switch("keepNext"@, true)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::keep_lines
//@| ensures put(self, r, el_switch("keepLines"@, true)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::page_break_before
//@| ensures put(self, r, el_switch("pageBreakBefore"@, true)),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::indent
//@| ensures put(self, r, El { n: "ind"@, a: ind_at(or0(start), end, start_chars, special_indent) }),
//@sub `start.unwrap_or(0)` => `vx_or0(start)`
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::line_spacing
//@| ensures put(self, r, El { n: "spacing"@, a: spacing_at(before, after, line, before_lines, after_lines, spacing) }),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::frame_property
//@| ensures put(self, r, el_frame(*prop)),
//@sub `.iter().cloned().collect()` => `.vx_text()`
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::tab
//@| ensures put(self, r, El { n: "tab"@, a: tab_at(v, leader, pos) }),
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::open_tabs
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })) && w.open() == self.open().push("tabs"@) && w.open().drop_last() == self.open() && w.open().last() == "tabs"@ && w.open().len() > 0,
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::open_numbering_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "numPr"@, a: Seq::empty() })) && w.open() == self.open().push("numPr"@) && w.open().drop_last() == self.open() && w.open().last() == "numPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); names_p(); }
//@end
//@fn XMLBuilder::open_paragraph_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "pPr"@, a: Seq::empty() })) && w.open() == self.open().push("pPr"@) && w.open().drop_last() == self.open() && w.open().last() == "pPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); names_p(); }
//@end
pub fn vx_or0(v: Option<i32>) -> (r: i32) ensures r == or0(v) { match v { Some(v) => v, None => 0 } }
// TRUSTED: the texts of an optional text, one after another, are that text.
pub trait VxOptText { fn vx_text(&self) -> (r: String); }
impl VxOptText for Option<String> { #[verifier::external_body] fn vx_text(&self) -> (r: String) ensures *self matches Some(s) ==> r@ == s@ { unimplemented!() } }
pub trait ToOptBool: Sized { spec fn ob(self) -> Option<bool>; fn to_opt_bool(self) -> (r: Option<bool>) ensures r == self.ob(); }
impl ToOptBool for bool { open spec fn ob(self) -> Option<bool> { Some(self) } fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
impl ToOptBool for Option<bool> { open spec fn ob(self) -> Option<bool> { self } fn to_opt_bool(self) -> (r: Option<bool>) { self } }
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
// Extracted for references to a vector, the only items it is given here.
//@fn XMLBuilder::apply_each
//@| requires forall |t: &'x T, b: Self| f.requires((t, b)),
//@| ensures forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     ==> (r matches Ok(w) ==> w.log() == onto(self.log(), #[trigger] each(items@, g)) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `'x, T, F: Fn(&'x T, Self)`
//@sub `items: I` => `items: &'x Vec<T>`
//@sub `items.into_iter()` => `items.iter()`
//@loop 0 iter=it
//@| invariant forall |t: &'x T, b: Self| f.requires((t, b)),
//@|   forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     ==> this.log() == onto(self.log(), #[trigger] each(items@.take(it.index@ as int), g)) && this.open() == self.open(),
//@at start
//@| proof { assert forall |g: spec_fn(T) -> El| #[trigger] each(items@.take(0), g) == Seq::<El>::empty() by { assert(each(items@.take(0), g) =~= Seq::<El>::empty()); } }
//@loopend 0
//@| proof { assert forall |g: spec_fn(T) -> El| #[trigger] each(items@.take(it.index@ + 1), g) == each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])) by {
//@|     assert(each(items@.take(it.index@ + 1), g) =~= each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])));
//@|     assert(each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])).drop_last() =~= each(items@.take(it.index@ as int), g)); }
//@|   assert forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     implies this.log() == onto(self.log(), #[trigger] each(items@.take(it.index@ + 1), g)) && this.open() == self.open() by { let s = each(items@.take(it.index@ as int), g); let e = g(items@[it.index@ as int]); assert(s.push(e).drop_last() =~= s); assert(s.push(e).last() == e); } }
//@afterloop 0
//@| proof { assert(items@.take(items@.len() as int) =~= items@); }
//@end

//@fn <ParagraphStyle as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for ParagraphStyle {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("pStyle"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Justification as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Justification {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("jc"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TextAlignment as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `format!("{}", self.0)` => `self.0.vx_str()`
//@end
impl BuildXML for TextAlignment {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("textAlignment"@, shown(self.0)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <AdjustRightInd as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for AdjustRightInd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("adjustRightInd"@, shown(self.0)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <OutlineLvl as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for OutlineLvl {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("outlineLvl"@, shown(self.v)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <NumberingId as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for NumberingId {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("numId"@, shown(self.id)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <IndentLevel as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for IndentLevel {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("ilvl"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Indent as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `self.end.unwrap_or_default()` => `vx_or0(self.end)`
//@end
impl BuildXML for Indent {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_ind(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <LineSpacing as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for LineSpacing {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_spacing(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <FrameProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for FrameProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_frame(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Tab as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Tab {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_tab(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_ol(o: Option<El>) ensures forall |l: Seq<Tok>| #[trigger] (l + ol(o)) == omore(l, o)
{ reveal(ol); reveal(omore); assert forall |l: Seq<Tok>| #[trigger] (l + ol(o)) == omore(l, o) by { assert(l + ol(o) =~= omore(l, o)); } }
proof fn lemma_num(v: NumberingProperty, log: Seq<Tok>)
    ensures log + (seq![Tok::Open(El { n: "numPr"@, a: Seq::empty() })] + num_body(v)) == kid(v.level, kid(v.id, log.push(Tok::Open(El { n: "numPr"@, a: Seq::empty() })))).push(Tok::Close("numPr"@))
{
    reveal(kid); reveal(ol);
    assert(log + (seq![Tok::Open(El { n: "numPr"@, a: Seq::empty() })] + num_body(v)) =~= kid(v.level, kid(v.id, log.push(Tok::Open(El { n: "numPr"@, a: Seq::empty() })))).push(Tok::Close("numPr"@)));
}
//@fn <NumberingProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); names_p(); lemma_num(*self, stream.log()); }
//@end
impl BuildXML for NumberingProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + (seq![Tok::Open(El { n: "numPr"@, a: Seq::empty() })] + num_body(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// Proved above for formatting without tracked marks and positional tabs; nothing is said about the rest.
impl BuildXML for RunProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { if simple_r(*self) { rpr_onto(*self, log) } else { other(*self, log) } }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for SectionProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for ParagraphPropertyChange {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for ParagraphBorders {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
proof fn lemma_ppr(x: ParagraphProperty, log: Seq<Tok>)
    ensures ppr_onto(x, log) == (((((((((((((((((log.push(Tok::Open(El { n: "pPr"@, a: Seq::empty() })) + w_run(x)) + ol(po_style(x))) + w_numbering(x)) + ol(po_frame(x))) + ol(po_alignment(x))) + ol(po_indent(x))) + ol(po_spacing(x))) + ol(po_outline(x))) + ol(po_shading(x))) + ol(po_text_alignment(x))) + ol(po_adjust(x))) + ol(po_snap(x))) + ol(po_keep_next(x))) + ol(po_keep_lines(x))) + ol(po_page_break(x))) + ol(po_widow(x))) + w_tabs(x)).push(Tok::Close("pPr"@))
{
    let l0 = log.push(Tok::Open(El { n: "pPr"@, a: Seq::empty() })); let c = seq![Tok::Close("pPr"@)];
    let l1 = l0 + w_run(x);
    let l2 = l1 + ol(po_style(x));
    let l3 = l2 + w_numbering(x);
    let l4 = l3 + ol(po_frame(x));
    let l5 = l4 + ol(po_alignment(x));
    let l6 = l5 + ol(po_indent(x));
    let l7 = l6 + ol(po_spacing(x));
    let l8 = l7 + ol(po_outline(x));
    let l9 = l8 + ol(po_shading(x));
    let l10 = l9 + ol(po_text_alignment(x));
    let l11 = l10 + ol(po_adjust(x));
    let l12 = l11 + ol(po_snap(x));
    let l13 = l12 + ol(po_keep_next(x));
    let l14 = l13 + ol(po_keep_lines(x));
    let l15 = l14 + ol(po_page_break(x));
    let l16 = l15 + ol(po_widow(x));
    let l17 = l16 + w_tabs(x);
    let t17 = c;
    let t16 = w_tabs(x) + t17; lemma_cat(l16, w_tabs(x), t17);
    let t15 = ol(po_widow(x)) + t16; lemma_cat(l15, ol(po_widow(x)), t16);
    let t14 = ol(po_page_break(x)) + t15; lemma_cat(l14, ol(po_page_break(x)), t15);
    let t13 = ol(po_keep_lines(x)) + t14; lemma_cat(l13, ol(po_keep_lines(x)), t14);
    let t12 = ol(po_keep_next(x)) + t13; lemma_cat(l12, ol(po_keep_next(x)), t13);
    let t11 = ol(po_snap(x)) + t12; lemma_cat(l11, ol(po_snap(x)), t12);
    let t10 = ol(po_adjust(x)) + t11; lemma_cat(l10, ol(po_adjust(x)), t11);
    let t9 = ol(po_text_alignment(x)) + t10; lemma_cat(l9, ol(po_text_alignment(x)), t10);
    let t8 = ol(po_shading(x)) + t9; lemma_cat(l8, ol(po_shading(x)), t9);
    let t7 = ol(po_outline(x)) + t8; lemma_cat(l7, ol(po_outline(x)), t8);
    let t6 = ol(po_spacing(x)) + t7; lemma_cat(l6, ol(po_spacing(x)), t7);
    let t5 = ol(po_indent(x)) + t6; lemma_cat(l5, ol(po_indent(x)), t6);
    let t4 = ol(po_alignment(x)) + t5; lemma_cat(l4, ol(po_alignment(x)), t5);
    let t3 = ol(po_frame(x)) + t4; lemma_cat(l3, ol(po_frame(x)), t4);
    let t2 = w_numbering(x) + t3; lemma_cat(l2, w_numbering(x), t3);
    let t1 = ol(po_style(x)) + t2; lemma_cat(l1, ol(po_style(x)), t2);
    let t0 = w_run(x) + t1; lemma_cat(l0, w_run(x), t1);
    assert(l17.push(Tok::Close("pPr"@)) =~= l17 + c);
    lemma_cat(log, seq![Tok::Open(El { n: "pPr"@, a: Seq::empty() })], t0); assert(l0 =~= log + seq![Tok::Open(El { n: "pPr"@, a: Seq::empty() })]);
}
proof fn lemma_pkids(x: ParagraphProperty)
    requires simple_p(x)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(x.section_property, l) == l, forall |l: Seq<Tok>| #[trigger] kid(x.paragraph_property_change, l) == l, forall |l: Seq<Tok>| #[trigger] kid(x.borders, l) == l,
        forall |l: Seq<Tok>| #[trigger] x.run_property.onto(l) == l + w_run(x),
        forall |l: Seq<Tok>| #[trigger] kid(x.style, l) == l + ol(po_style(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.frame_property, l) == l + ol(po_frame(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.alignment, l) == l + ol(po_alignment(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.indent, l) == l + ol(po_indent(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.line_spacing, l) == l + ol(po_spacing(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.outline_lvl, l) == l + ol(po_outline(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.shading, l) == l + ol(po_shading(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.text_alignment, l) == l + ol(po_text_alignment(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.adjust_right_ind, l) == l + ol(po_adjust(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.numbering_property, l) == l + w_numbering(x),
        x.snap_to_grid matches Some(v) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_snap(x))) == one(l, el_val("snapToGrid"@, shown(v)@))), x.snap_to_grid is None ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_snap(x))) == l),
        x.keep_next == Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_next(x))) == one(l, el_switch("keepNext"@, true))), x.keep_next != Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_next(x))) == l),
        x.keep_lines == Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_lines(x))) == one(l, el_switch("keepLines"@, true))), x.keep_lines != Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_lines(x))) == l),
        x.page_break_before == Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_page_break(x))) == one(l, el_switch("pageBreakBefore"@, true))), x.page_break_before != Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_page_break(x))) == l),
        x.widow_control matches Some(v) ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_widow(x))) == one(l, el_val("widowControl"@, if v { "1"@ } else { "0"@ }))), x.widow_control is None ==> (forall |l: Seq<Tok>| #[trigger] (l + ol(po_widow(x))) == l),
        x.tabs@.len() > 0 ==> (forall |l: Seq<Tok>| #[trigger] (l + w_tabs(x)) == onto(l.push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })), each(x.tabs@, tab_el())).push(Tok::Close("tabs"@))), x.tabs@.len() == 0 ==> (forall |l: Seq<Tok>| #[trigger] (l + w_tabs(x)) == l),
{ reveal(omore); reveal(kid);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_style(x))) == omore(l, po_style(x)) by { lemma_ol(po_style(x)); }
    reveal(po_style);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_frame(x))) == omore(l, po_frame(x)) by { lemma_ol(po_frame(x)); }
    reveal(po_frame);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_alignment(x))) == omore(l, po_alignment(x)) by { lemma_ol(po_alignment(x)); }
    reveal(po_alignment);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_indent(x))) == omore(l, po_indent(x)) by { lemma_ol(po_indent(x)); }
    reveal(po_indent);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_spacing(x))) == omore(l, po_spacing(x)) by { lemma_ol(po_spacing(x)); }
    reveal(po_spacing);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_outline(x))) == omore(l, po_outline(x)) by { lemma_ol(po_outline(x)); }
    reveal(po_outline);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_shading(x))) == omore(l, po_shading(x)) by { lemma_ol(po_shading(x)); }
    reveal(po_shading);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_text_alignment(x))) == omore(l, po_text_alignment(x)) by { lemma_ol(po_text_alignment(x)); }
    reveal(po_text_alignment);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_adjust(x))) == omore(l, po_adjust(x)) by { lemma_ol(po_adjust(x)); }
    reveal(po_adjust);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_snap(x))) == omore(l, po_snap(x)) by { lemma_ol(po_snap(x)); }
    reveal(po_snap);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_next(x))) == omore(l, po_keep_next(x)) by { lemma_ol(po_keep_next(x)); }
    reveal(po_keep_next);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_keep_lines(x))) == omore(l, po_keep_lines(x)) by { lemma_ol(po_keep_lines(x)); }
    reveal(po_keep_lines);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_page_break(x))) == omore(l, po_page_break(x)) by { lemma_ol(po_page_break(x)); }
    reveal(po_page_break);
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(po_widow(x))) == omore(l, po_widow(x)) by { lemma_ol(po_widow(x)); }
    reveal(po_widow);
    assert forall |l: Seq<Tok>| #[trigger] x.run_property.onto(l) == l + w_run(x) by { reveal(w_run); lemma_onto(l.push(Tok::Open(El { n: "rPr"@, a: Seq::empty() })), rpr_els(x.run_property)); assert(rpr_onto(x.run_property, l) =~= l + w_run(x)); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.numbering_property, l) == l + w_numbering(x) by { reveal(w_numbering); if x.numbering_property is None { assert(l + w_numbering(x) =~= l); } }
    assert forall |l: Seq<Tok>| true implies #[trigger] (l + w_tabs(x)) == (if x.tabs@.len() > 0 { onto(l.push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })), each(x.tabs@, tab_el())).push(Tok::Close("tabs"@)) } else { l }) by { reveal(w_tabs); let s = each(x.tabs@, tab_el()); lemma_onto(l.push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })), s); if x.tabs@.len() > 0 { assert(l + w_tabs(x) =~= onto(l.push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })), s).push(Tok::Close("tabs"@))); } else { assert(l + w_tabs(x) =~= l); } }
}
//@fn <ParagraphProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> simple_p(*self) ==> w.log() == ppr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); names_p(); lemma_ppr(*self, stream.log()); if simple_p(*self) { lemma_pkids(*self); } }
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_val("snapToGrid"@, shown(v)@))
//@closure 1
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("keepNext"@, true))
//@closure 2
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("keepLines"@, true))
//@closure 3
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("pageBreakBefore"@, true))
//@closure 5
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_val("widowControl"@, if flag { "1"@ } else { "0"@ }))
//@closure 6
//@| -> (o: Result<XMLBuilder<W>>) ensures o matches Ok(w) ==> w.log() == onto(b.log().push(Tok::Open(El { n: "tabs"@, a: Seq::empty() })), each(self.tabs@, tab_el())).push(Tok::Close("tabs"@)) && w.open() == b.open()
//@closure 7
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_tab(*tab))
//@end
