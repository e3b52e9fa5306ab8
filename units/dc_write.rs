//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include dc_spec.rs
//@include wr_head.rs
#[verifier::external_body] pub struct Paragraph { x: u8 }
#[verifier::external_body] pub struct Table { x: u8 }
#[verifier::external_body] pub struct StructuredDataTag { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
#[verifier::external_body] pub struct TableOfContents { x: u8 }
#[verifier::external_body] pub struct Section { x: u8 }
#[verifier::external_body] pub struct SectionProperty { x: u8 }
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}

// Here: the declaration is no token.
//@fn XMLBuilder::declaration ext
//@| ensures r matches Ok(w) ==> w.log() == self.log() && w.open() == self.open(),
//@end
//@fn XMLBuilder::open_body
//@| ensures opened(self, r, body_el()),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_document
//@| ensures r matches Ok(w) ==> exists |a: Seq<At>| w.log() == #[trigger] self.log().push(Tok::Open(El { n: "document"@, a })) && w.open() == self.open().push("document"@),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::bookmark_start
//@| ensures put(self, r, El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, arg0@), "name"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::bookmark_end
//@| ensures put(self, r, El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, arg0@) }),
//@at start
//@| proof { names(); }
//@end
//@fn <BookmarkStart as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for BookmarkStart {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, bms_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <BookmarkEnd as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for BookmarkEnd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, bme_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED here: what has its own content is written after what is there already (paragraphs: unit pc_write, section formatting: unit rs_write).
impl BuildXML for Paragraph {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Table {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for StructuredDataTag {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeStart {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeEnd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for TableOfContents {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Section {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for SectionProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
//@fn <DocumentChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for DocumentChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { kid_onto(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
proof fn lemma_all(c: Seq<DocumentChild>, log: Seq<Tok>) ensures all_onto(c, log) == kids_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_all(c.skip(1), kid_onto(c[0], log)); } }
//@fn <Document as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |a: Seq<At>| w.log() == #[trigger] doc_onto(*self, stream.log(), a)) && w.open() == stream.open(),
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] all_onto(self.children@, l) == kids_onto(self.children@, l) by { lemma_all(self.children@, l); } let o = stream.open(); assert(o.push("document"@).push("body"@).drop_last() =~= o.push("document"@)); assert(o.push("document"@).drop_last() =~= o);
//@|   assert forall |a: Seq<At>| #![trigger stream.log().push(Tok::Open(El { n: "document"@, a }))] doc_onto(*self, stream.log(), a).len() >= 0 by {} }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
