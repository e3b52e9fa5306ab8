//@include prelude.rs
verus! {
//@include wr_pre.rs
//@gsub `escape::` => ``
//@include rx_spec.rs
//@include rn_spec.rs
//@include rn_head.rs
//@fn escape/mod.rs::escape ext
//@| ensures r == escaped(text@),
//@end
//@fn XMLBuilder::plain_text
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Chars(seen(t@))) && w.open() == self.open(),
//@end
//@fn XMLBuilder::text
//@| ensures preserve_space ==> (r matches Ok(w) ==> w.log() == words(self.log(), "w:t"@, text@) && w.open() == self.open()),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::delete_text
//@| ensures preserve_space ==> (r matches Ok(w) ==> w.log() == words(self.log(), "w:delText"@, text@) && w.open() == self.open()),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_run
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) && w.open() == self.open().push("w:r"@),
//@end
//@fn XMLBuilder::tab
//@| ensures put(self, r, El { n: "w:tab"@, a: with(with(with(Seq::empty(), "val"@, num(v)), "leader"@, num(leader)), "pos"@, num(pos)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::ptab
//@| ensures put(self, r, ptab_el(PositionalTab { alignment, relative_to, leader })),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::sym
//@| ensures put(self, r, El { n: "w:sym"@, a: ats(ats(Seq::empty(), "font"@, arg0@), "char"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::br
//@| ensures put(self, r, El { n: "w:br"@, a: ats(Seq::empty(), "type"@, arg0@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::cr
//@| ensures put(self, r, El { n: "w:cr"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::field_character
//@| ensures put(self, r, El { n: "w:fldChar"@, a: ats(ats(Seq::empty(), "fldCharType"@, arg0@), "dirty"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn <Text as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Text {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { words(log, "w:t"@, self.text@) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <DeleteText as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for DeleteText {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { words(log, "w:delText"@, del_text(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Tab as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Tab {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, tab_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <PositionalTab as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for PositionalTab {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, ptab_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Sym as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Sym {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, sym_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Break as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Break {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, br_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <CarriageReturn as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for CarriageReturn {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "w:cr"@, a: Seq::empty() }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <FieldChar as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `&format!("{}", self.field_char_type)` => `&self.field_char_type.vx_str()`
//@sub `&format!("{}", self.dirty)` => `&self.dirty.vx_str()`
//@end
impl BuildXML for FieldChar {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, fld_el(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// Nothing is said here about what is written for other children.
impl BuildXML for Drawing {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeStart {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeEnd {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for InstrText {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for DeleteInstrText {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for FootnoteReference {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Shading {
    uninterp spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
// TRUSTED here: run formatting is written as the tokens said in rb_write.
impl BuildXML for RunProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + rp_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
#[verifier::external_body] pub fn vx_todo<T>() -> (r: T) ensures false { unimplemented!() }
pub open spec fn written(c: RunChild, log: Seq<Tok>) -> Seq<Tok> { match c {
    RunChild::Drawing(b) => (*b).onto(log), RunChild::CommentStart(b) => (*b).onto(log), RunChild::CommentEnd(b) => b.onto(log), RunChild::InstrText(b) => (*b).onto(log), RunChild::DeleteInstrText(b) => (*b).onto(log), RunChild::FootnoteReference(b) => b.onto(log), RunChild::Shading(b) => b.onto(log), _ => kid_onto(c, log) } }
//@fn <RunChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `todo!("Support shape writer.")` => `vx_todo()`
//@at start
//@| proof { names(); }
//@end
impl BuildXML for RunChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { written(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
pub open spec fn plain(c: RunChild) -> bool { c is Text || c is DeleteText || c is Tab || c is PTab || c is Sym || c is Break || c is CarriageReturn || c is FieldChar || c is InstrTextString }
proof fn lemma_plain(c: Seq<RunChild>, log: Seq<Tok>)
    requires forall |i: int| 0 <= i < c.len() ==> plain(#[trigger] c[i]) ensures all_onto(c, log) == kids_onto(c, log) decreases c.len()
{ if c.len() > 0 { assert(plain(c[0])); assert forall |i: int| 0 <= i < c.skip(1).len() implies plain(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); } lemma_plain(c.skip(1), kid_onto(c[0], log)); } }
//@fn <Run as BuildXML>::build_to name=build_to_body
//@| ensures (forall |i: int| 0 <= i < self.children@.len() ==> plain(#[trigger] self.children@[i])) ==> (r matches Ok(w) ==> w.log() == run_onto(*self, stream.log()) && w.open() == stream.open()),
//@at start
//@| proof { let c = self.children@; if forall |i: int| 0 <= i < c.len() ==> plain(#[trigger] c[i]) { lemma_plain(c, stream.log().push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) + rp_toks(self.run_property)); } assert(stream.open().push("w:r"@).drop_last() =~= stream.open()); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
