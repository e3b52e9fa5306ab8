//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include hf_spec.rs
//@include wr_head.rs
#[verifier::external_body] pub struct Paragraph { x: u8 }
#[verifier::external_body] pub struct Table { x: u8 }
#[verifier::external_body] pub struct StructuredDataTag { x: u8 }
#[verifier::external_body] pub struct TableOfContents { x: u8 }
#[verifier::external_body] pub struct TableCellProperty { x: u8 }
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
// Here: the declaration is no token.
//@fn XMLBuilder::declaration ext
//@| ensures r matches Ok(w) ==> w.log() == self.log() && w.open() == self.open(),
//@end
// TRUSTED here: what has its own content is written after what is there already (paragraphs: unit pc_write, cell formatting: unit rt_write).
impl BuildXML for Paragraph {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Table {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for StructuredDataTag {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for TableOfContents {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for TableCellProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
impl<'a, T: BuildXML> BuildXML for &'a T {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
pub open spec fn fold<T>(s: Seq<T>, log: Seq<Tok>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { log } else { fold(s.skip(1), g(s[0], log), g) } }
pub open spec fn does<T, W: Write>(t: T, b: XMLBuilder<W>, o: Result<XMLBuilder<W>>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> bool { o matches Ok(w) ==> w.log() == g(t, b.log()) && w.open() == b.open() }
//@fn XMLBuilder::apply_each
//@| requires forall |t: T, b: Self| #[trigger] f.requires((&t, b)),
//@| ensures forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     ==> (r matches Ok(w) ==> w.log() == #[trigger] fold(items@, self.log(), g) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `T, F: Fn(&T, Self)`
//@sub `items: I` => `items: &Vec<T>`
//@sub `items.into_iter()` => `items`
//@loop 0 iter=it
//@| invariant items0 == items@, forall |t: T, b: Self| #[trigger] f.requires((&t, b)), it.seq().len() == items0.len(), forall |j: int| 0 <= j < items0.len() ==> *(#[trigger] it.seq()[j]) == items0[j],
//@|   forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     ==> #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ as int), this.log(), g) && this.open() == self.open(),
//@at start
//@| let ghost items0 = items@; proof { assert(items0.skip(0) =~= items0); }
//@loopstart 0
//@| let ghost vx_b = this;
//@loopend 0
//@| proof { let s = items0.skip(it.index@ as int); assert(s.skip(1) =~= items0.skip(it.index@ + 1)); assert(s[0] == items0[it.index@ as int]); assert(items@.contains(s[0]));
//@|   assert forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     implies #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ + 1), this.log(), g) && this.open() == self.open() by { assert(fold(items0, self.log(), g) == fold(s, vx_b.log(), g)); assert(this.log() == g(s[0], vx_b.log())); } }
//@afterloop 0
//@| proof { assert(items0.skip(items0.len() as int) =~= Seq::<T>::empty()); }
//@end
pub trait ToOptBool: Sized { spec fn ob(self) -> Option<bool>; fn to_opt_bool(self) -> (r: Option<bool>) ensures r == self.ob(); }
impl ToOptBool for bool { open spec fn ob(self) -> Option<bool> { Some(self) } fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
pub open spec fn g_Header() -> spec_fn(HeaderChild, Seq<Tok>) -> Seq<Tok> { |c: HeaderChild, l: Seq<Tok>| kid_Header(c, l) }
proof fn lemma_Header(c: Seq<HeaderChild>, log: Seq<Tok>) ensures fold(c, log, g_Header()) == kids_Header(c, log) decreases c.len()
{ if c.len() > 0 { lemma_Header(c.skip(1), kid_Header(c[0], log)); } }
//@fn XMLBuilder::open_header
//@| ensures r matches Ok(w) ==> exists |a: Seq<At>| w.log() == #[trigger] self.log().push(Tok::Open(El { n: "hdr"@, a })) && w.open() == self.open().push("hdr"@),
//@at start
//@| proof { names(); }
//@end
//@fn <Header as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |a: Seq<At>| w.log() == #[trigger] onto_Header(*self, stream.log(), a)) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*c, b, o, g_Header())
//@at start
//@| proof { names(); assert(stream.open().push("hdr"@).drop_last() =~= stream.open());
//@|   assert forall |a: Seq<At>| #![trigger stream.log().push(Tok::Open(El { n: "hdr"@, a }))] onto_Header(*self, stream.log(), a).len() >= 0 && fold(self.children@, stream.log().push(Tok::Open(El { n: "hdr"@, a })), g_Header()) == kids_Header(self.children@, stream.log().push(Tok::Open(El { n: "hdr"@, a }))) by { lemma_Header(self.children@, stream.log().push(Tok::Open(El { n: "hdr"@, a }))); } }
//@end
pub open spec fn g_Footer() -> spec_fn(FooterChild, Seq<Tok>) -> Seq<Tok> { |c: FooterChild, l: Seq<Tok>| kid_Footer(c, l) }
proof fn lemma_Footer(c: Seq<FooterChild>, log: Seq<Tok>) ensures fold(c, log, g_Footer()) == kids_Footer(c, log) decreases c.len()
{ if c.len() > 0 { lemma_Footer(c.skip(1), kid_Footer(c[0], log)); } }
//@fn XMLBuilder::open_footer
//@| ensures r matches Ok(w) ==> exists |a: Seq<At>| w.log() == #[trigger] self.log().push(Tok::Open(El { n: "ftr"@, a })) && w.open() == self.open().push("ftr"@),
//@at start
//@| proof { names(); }
//@end
//@fn <Footer as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |a: Seq<At>| w.log() == #[trigger] onto_Footer(*self, stream.log(), a)) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*c, b, o, g_Footer())
//@at start
//@| proof { names(); assert(stream.open().push("ftr"@).drop_last() =~= stream.open());
//@|   assert forall |a: Seq<At>| #![trigger stream.log().push(Tok::Open(El { n: "ftr"@, a }))] onto_Footer(*self, stream.log(), a).len() >= 0 && fold(self.children@, stream.log().push(Tok::Open(El { n: "ftr"@, a })), g_Footer()) == kids_Footer(self.children@, stream.log().push(Tok::Open(El { n: "ftr"@, a }))) by { lemma_Footer(self.children@, stream.log().push(Tok::Open(El { n: "ftr"@, a }))); } }
//@end
pub open spec fn g_TableCell() -> spec_fn(TableCellContent, Seq<Tok>) -> Seq<Tok> { |c: TableCellContent, l: Seq<Tok>| kid_TableCell(c, l) }
proof fn lemma_TableCell(c: Seq<TableCellContent>, log: Seq<Tok>) ensures fold(c, log, g_TableCell()) == kids_TableCell(c, log) decreases c.len()
{ if c.len() > 0 { lemma_TableCell(c.skip(1), kid_TableCell(c[0], log)); } }
//@fn XMLBuilder::open_table_cell
//@| ensures opened(self, r, El { n: "tc"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn Paragraph::new ext
//@end
//@fn <TableCell as BuildXML>::build_to name=build_to_body
//@| ensures !pads(self.children@) ==> (r matches Ok(w) ==> w.log() == onto_TableCell(*self, stream.log()) && w.open() == stream.open()),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures !pads(self.children@) && self.children@.contains(*ch) ==> does(*ch, b, o, g_TableCell())
//@at start
//@| proof { names(); assert(stream.open().push("tc"@).drop_last() =~= stream.open()); lemma_TableCell(self.children@, stream.log().push(Tok::Open(El { n: "tc"@, a: Seq::empty() })) + nest_toks(self.property)); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
