//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include rs_spec.rs
//@include wr_head.rs
pub trait ToOptBool: Sized { spec fn ob(self) -> Option<bool>; fn to_opt_bool(self) -> (r: Option<bool>) ensures r == self.ob(); }
impl ToOptBool for bool { open spec fn ob(self) -> Option<bool> { Some(self) } fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
//@fn XMLBuilder::apply
//@| requires f.requires((self,)),
//@| ensures f.ensures((self,), r),
//@end
//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
//@fn XMLBuilder::page_size
//@| ensures put(self, r, El { n: "pgSz"@, a: with(with(Seq::empty(), "w"@, Some(arg0@)), "h"@, Some(arg1@)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::page_size_with_orient
//@| ensures put(self, r, El { n: "pgSz"@, a: with(with(with(Seq::empty(), "w"@, Some(arg0@)), "h"@, Some(arg1@)), "orient"@, Some(arg2@)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::page_margin
//@| ensures put(self, r, El { n: "pgMar"@, a: with(with(with(with(with(with(with(Seq::empty(), "top"@, Some(arg0@)), "right"@, Some(arg1@)), "bottom"@, Some(arg2@)), "left"@, Some(arg3@)), "header"@, Some(arg4@)), "footer"@, Some(arg5@)), "gutter"@, Some(arg6@)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::columns
//@| ensures put(self, r, El { n: "cols"@, a: cols_at(arg0@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::doc_grid
//@| ensures put(self, r, El { n: "docGrid"@, a: grid_at(*t, line_pitch, char_space) }),
//@sub `attr_display("w:type", t)` => `attr_display("w:type", *t)`
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::header_reference
//@| ensures put(self, r, El { n: "headerReference"@, a: ref_at(arg0@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::footer_reference
//@| ensures put(self, r, El { n: "footerReference"@, a: ref_at(arg0@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::page_num_type
//@| ensures put(self, r, El { n: "pgNumType"@, a: count_at(start, chap_style) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::text_direction
//@| ensures put(self, r, el_val("textDirection"@, arg0@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::type_tag
//@| ensures put(self, r, el_val("type"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::title_pg
//@| ensures put(self, r, El { n: "titlePg"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_section_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "sectPr"@, a: Seq::empty() })) && w.open() == self.open().push("sectPr"@) && w.open().drop_last() == self.open() && w.open().last() == "sectPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
#[verifier::opaque] pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
//@fn <PageSize as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `format!("{}", self.w)` => `self.w.vx_str()`
//@sub `format!("{}", self.h)` => `self.h.vx_str()`
//@sub `|b| match` => `|b: XMLBuilder<W>| match`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, El { n: "pgSz"@, a: size_at(*self) })
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for PageSize {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "pgSz"@, a: size_at(*self) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <PageMargin as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `format!("{}", self.top)` => `self.top.vx_str()`
//@sub `format!("{}", self.right)` => `self.right.vx_str()`
//@sub `format!("{}", self.bottom)` => `self.bottom.vx_str()`
//@sub `format!("{}", self.left)` => `self.left.vx_str()`
//@sub `format!("{}", self.header)` => `self.header.vx_str()`
//@sub `format!("{}", self.footer)` => `self.footer.vx_str()`
//@sub `format!("{}", self.gutter)` => `self.gutter.vx_str()`
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for PageMargin {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "pgMar"@, a: margin_at(*self) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <DocGrid as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for DocGrid {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "docGrid"@, a: grid_at(self.grid_type, self.line_pitch, self.char_space) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <HeaderReference as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for HeaderReference {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "headerReference"@, a: ref_at(self.header_type@, self.id@) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <FooterReference as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for FooterReference {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "footerReference"@, a: ref_at(self.footer_type@, self.id@) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <PageNumType as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for PageNumType {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "pgNumType"@, a: count_at(self.start, self.chap_style) }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_sect(x: SectionProperty, log: Seq<Tok>)
    ensures ((((((((((((((log.push(Tok::Open(El { n: "sectPr"@, a: Seq::empty() })) + ol(se_page_size(x))) + ol(se_page_margin(x))) + ol(se_cols(x))) + ol(se_doc_grid(x))) + ol(se_header_reference(x))) + ol(se_first_header_reference(x))) + ol(se_even_header_reference(x))) + ol(se_footer_reference(x))) + ol(se_first_footer_reference(x))) + ol(se_even_footer_reference(x))) + ol(se_page_num_type(x))) + ol(se_text_direction(x))) + ol(se_section_type(x))) + ol(se_title_pg(x))).push(Tok::Close("sectPr"@)) == sect_onto(x, log),
{
    let p0 = log.push(Tok::Open(El { n: "sectPr"@, a: Seq::empty() })); let t14 = seq![Tok::Close("sectPr"@)];
    let t13 = ol(se_title_pg(x)) + t14;
    let t12 = ol(se_section_type(x)) + t13;
    let t11 = ol(se_text_direction(x)) + t12;
    let t10 = ol(se_page_num_type(x)) + t11;
    let t9 = ol(se_even_footer_reference(x)) + t10;
    let t8 = ol(se_first_footer_reference(x)) + t9;
    let t7 = ol(se_footer_reference(x)) + t8;
    let t6 = ol(se_even_header_reference(x)) + t7;
    let t5 = ol(se_first_header_reference(x)) + t6;
    let t4 = ol(se_header_reference(x)) + t5;
    let t3 = ol(se_doc_grid(x)) + t4;
    let t2 = ol(se_cols(x)) + t3;
    let t1 = ol(se_page_margin(x)) + t2;
    let t0 = ol(se_page_size(x)) + t1;
    let p1 = p0 + ol(se_page_size(x)); lemma_cat(p0, ol(se_page_size(x)), t1);
    let p2 = p1 + ol(se_page_margin(x)); lemma_cat(p1, ol(se_page_margin(x)), t2);
    let p3 = p2 + ol(se_cols(x)); lemma_cat(p2, ol(se_cols(x)), t3);
    let p4 = p3 + ol(se_doc_grid(x)); lemma_cat(p3, ol(se_doc_grid(x)), t4);
    let p5 = p4 + ol(se_header_reference(x)); lemma_cat(p4, ol(se_header_reference(x)), t5);
    let p6 = p5 + ol(se_first_header_reference(x)); lemma_cat(p5, ol(se_first_header_reference(x)), t6);
    let p7 = p6 + ol(se_even_header_reference(x)); lemma_cat(p6, ol(se_even_header_reference(x)), t7);
    let p8 = p7 + ol(se_footer_reference(x)); lemma_cat(p7, ol(se_footer_reference(x)), t8);
    let p9 = p8 + ol(se_first_footer_reference(x)); lemma_cat(p8, ol(se_first_footer_reference(x)), t9);
    let p10 = p9 + ol(se_even_footer_reference(x)); lemma_cat(p9, ol(se_even_footer_reference(x)), t10);
    let p11 = p10 + ol(se_page_num_type(x)); lemma_cat(p10, ol(se_page_num_type(x)), t11);
    let p12 = p11 + ol(se_text_direction(x)); lemma_cat(p11, ol(se_text_direction(x)), t12);
    let p13 = p12 + ol(se_section_type(x)); lemma_cat(p12, ol(se_section_type(x)), t13);
    let p14 = p13 + ol(se_title_pg(x)); lemma_cat(p13, ol(se_title_pg(x)), t14);
    assert(p14.push(Tok::Close("sectPr"@)) =~= p14 + t14);
    assert(p0 + t0 =~= log + (seq![Tok::Open(El { n: "sectPr"@, a: Seq::empty() })] + t0));
}
proof fn kids_sect(x: SectionProperty)
    ensures
        forall |l: Seq<Tok>| #[trigger] kid(x.doc_grid, l) == l + ol(se_doc_grid(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.header_reference, l) == l + ol(se_header_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.first_header_reference, l) == l + ol(se_first_header_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.even_header_reference, l) == l + ol(se_even_header_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.footer_reference, l) == l + ol(se_footer_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.first_footer_reference, l) == l + ol(se_first_footer_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.even_footer_reference, l) == l + ol(se_even_footer_reference(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.page_num_type, l) == l + ol(se_page_num_type(x)),
        forall |l: Seq<Tok>| #[trigger] one(l, El { n: "pgSz"@, a: size_at(x.page_size) }) == l + ol(se_page_size(x)),
        forall |l: Seq<Tok>| #[trigger] one(l, El { n: "pgMar"@, a: margin_at(x.page_margin) }) == l + ol(se_page_margin(x)),
{ reveal(kid); reveal(ol); reveal(one);
    assert forall |l: Seq<Tok>| #[trigger] kid(x.doc_grid, l) == l + ol(se_doc_grid(x)) by { reveal(se_doc_grid); assert(kid(x.doc_grid, l) =~= l + ol(se_doc_grid(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.header_reference, l) == l + ol(se_header_reference(x)) by { reveal(se_header_reference); assert(kid(x.header_reference, l) =~= l + ol(se_header_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.first_header_reference, l) == l + ol(se_first_header_reference(x)) by { reveal(se_first_header_reference); assert(kid(x.first_header_reference, l) =~= l + ol(se_first_header_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.even_header_reference, l) == l + ol(se_even_header_reference(x)) by { reveal(se_even_header_reference); assert(kid(x.even_header_reference, l) =~= l + ol(se_even_header_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.footer_reference, l) == l + ol(se_footer_reference(x)) by { reveal(se_footer_reference); assert(kid(x.footer_reference, l) =~= l + ol(se_footer_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.first_footer_reference, l) == l + ol(se_first_footer_reference(x)) by { reveal(se_first_footer_reference); assert(kid(x.first_footer_reference, l) =~= l + ol(se_first_footer_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.even_footer_reference, l) == l + ol(se_even_footer_reference(x)) by { reveal(se_even_footer_reference); assert(kid(x.even_footer_reference, l) =~= l + ol(se_even_footer_reference(x))); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.page_num_type, l) == l + ol(se_page_num_type(x)) by { reveal(se_page_num_type); assert(kid(x.page_num_type, l) =~= l + ol(se_page_num_type(x))); }
    assert forall |l: Seq<Tok>| #[trigger] one(l, El { n: "pgSz"@, a: size_at(x.page_size) }) == l + ol(se_page_size(x)) by { reveal(se_page_size); assert(one(l, El { n: "pgSz"@, a: size_at(x.page_size) }) =~= l + ol(se_page_size(x))); }
    assert forall |l: Seq<Tok>| #[trigger] one(l, El { n: "pgMar"@, a: margin_at(x.page_margin) }) == l + ol(se_page_margin(x)) by { reveal(se_page_margin); assert(one(l, El { n: "pgMar"@, a: margin_at(x.page_margin) }) =~= l + ol(se_page_margin(x))); }
}
pub open spec fn wrote<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, o: Option<El>) -> bool { r matches Ok(w) ==> w.log() == a.log() + ol(o) && w.open() == a.open() }
proof fn puts<W: Write>()
    ensures forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) ==> wrote(a, r, Some(e)),
        forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l,
{
    reveal(ol);
    assert forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) implies wrote(a, r, Some(e)) by { let l = a.log(); assert(l.push(Tok::Open(e)).push(Tok::Close(e.n)) =~= l + leaf(e)); }
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l by { assert(l + Seq::<Tok>::empty() =~= l); }
}
//@fn <SectionProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == sect_onto(*self, stream.log()) && w.open() == stream.open(),
//@sub `format!("{}", self.space)` => `self.space.vx_str()`
//@sub `format!("{}", self.columns)` => `self.columns.vx_str()`
//@sub `self.text_direction != "lrTb"` => `self.text_direction.as_str() != "lrTb"`
//@sub `"lrTb", |b| {` => `"lrTb", |b: XMLBuilder<W>| {`
//@sub `self.title_pg, |b|` => `self.title_pg, |b: XMLBuilder<W>|`
//@sub `|t, b|` => `|t: SectionType, b: XMLBuilder<W>|`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_val("textDirection"@, self.text_direction@)))
//@closure 1
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_val("type"@, shown(t)@)))
//@closure 2
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(El { n: "titlePg"@, a: Seq::empty() }))
//@at start
//@| proof { names(); puts::<W>(); kids_sect(*self); lemma_sect(*self, stream.log()); reveal(se_cols); reveal(se_text_direction); reveal(se_section_type); reveal(se_title_pg); }
//@end
//@include rs_names.rs
//@auto except=Header,Footer
proof fn vx_probe() ensures false {}
fn main(){}
}
