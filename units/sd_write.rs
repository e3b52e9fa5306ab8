//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include sd_spec.rs
//@include wr_head.rs
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
//@fn XMLBuilder::open_structured_tag
//@| ensures opened(self, r, El { n: "sdt"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_structured_tag_content
//@| ensures opened(self, r, El { n: "sdtContent"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_structured_tag_property
//@| ensures opened(self, r, El { n: "sdtPr"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
pub open spec fn txt_of(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
//@fn XMLBuilder::data_binding
//@| ensures put(self, r, El { n: "dataBinding"@, a: with(with(with(Seq::empty(), "xpath"@, txt_of(xpath)), "prefixMappings"@, txt_of(prefix_mappings)), "storeItemID"@, txt_of(store_item_id)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::alias
//@| ensures put(self, r, alias_el(val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
//@fn XMLBuilder::bookmark_start
//@| ensures put(self, r, El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, arg0@), "name"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::bookmark_end
//@| ensures put(self, r, El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, arg0@) }),
//@at start
//@| proof { names(); }
//@end
//@fn <BookmarkStart as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for BookmarkStart {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, bms_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <BookmarkEnd as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for BookmarkEnd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, bme_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED here: what has its own content is written after what is there already (runs: unit rn_write, paragraphs: unit pc_write, tables: unit tl_write).
impl BuildXML for Run {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Paragraph {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Table {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for StructuredDataTag {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeStart {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeEnd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for RunProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
//@fn <DataBinding as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); reveal(kid); assert(stream.open().push("sdtPr"@).drop_last() =~= stream.open()); }
//@end
impl BuildXML for DataBinding {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, bind_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <StructuredDataTagProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, alias_el(alias@))
//@at start
//@| proof { names(); reveal(kid); assert(stream.open().push("sdtPr"@).drop_last() =~= stream.open()); }
//@end
impl BuildXML for StructuredDataTagProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { prop_onto(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <StructuredDataTagChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); }
//@end
impl BuildXML for StructuredDataTagChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { kid_onto(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
proof fn lemma_all(c: Seq<StructuredDataTagChild>, log: Seq<Tok>) ensures all_onto(c, log) == kids_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_all(c.skip(1), kid_onto(c[0], log)); } }
//@fn <StructuredDataTag as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == sdt_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { let h = prop_onto(self.property, stream.log().push(plain("sdt"@))); lemma_all(self.children@, h.push(plain("sdtContent"@))); assert(stream.open().push("sdt"@).drop_last() =~= stream.open()); assert(stream.open().push("sdt"@).push("sdtContent"@).drop_last() =~= stream.open().push("sdt"@)); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
