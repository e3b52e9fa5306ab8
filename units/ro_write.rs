//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include ro_spec.rs
//@include wr_head.rs
#[verifier::external_body] pub struct TableCell { x: u8 }
#[verifier::external_body] pub struct Delete { x: u8 }
#[verifier::external_body] pub struct Insert { x: u8 }
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
//@fn XMLBuilder::open_table_row
//@| ensures opened(self, r, El { n: "tr"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_row_property
//@| ensures opened(self, r, El { n: "trPr"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::table_row_height
//@| ensures put(self, r, El { n: "trHeight"@, a: ats(ats(Seq::empty(), "val"@, arg0@), "hRule"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::cant_split
//@| ensures put(self, r, El { n: "cantSplit"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
// TRUSTED here: what has its own content is written after what is there already (tracked changes: unit tc_write, cells: unit hf_write).
impl BuildXML for TableCell {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Delete {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Insert {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
impl<'a, T: BuildXML> BuildXML for &'a T {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
//@fn <CantSplit as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == one(stream.log(), El { n: "cantSplit"@, a: Seq::empty() }) && w.open() == stream.open(),
//@end
impl BuildXML for CantSplit {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "cantSplit"@, a: Seq::empty() }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableRowChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableRowChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(cell_of(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED: format! of one value prints it; a height rule that is not given is the default one.
#[verifier::external_body] fn vx_show<T>(v: T) -> (r: String) ensures r == shown(v) { unimplemented!() }
#[verifier::external_body] fn vx_rule(v: Option<HeightRule>) -> (r: HeightRule) ensures r == rule_of(v) { unimplemented!() }
//@fn <TableRowProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == prop_onto(*self, stream.log()) && w.open() == stream.open(),
//@sub `format!("{h}")` => `vx_show(h)`
//@sub `self.height_rule.unwrap_or_default().to_string()` => `vx_show(vx_rule(self.height_rule))`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, high_el(h, rule_of(self.height_rule)))
//@at start
//@| proof { names(); reveal(kid); assert(stream.open().push("trPr"@).drop_last() =~= stream.open()); }
//@end
impl BuildXML for TableRowProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { prop_onto(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_cells(c: Seq<TableRowChild>, log: Seq<Tok>) ensures all_onto(c, log) == cells_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_cells(c.skip(1), log + nest_toks(cell_of(c[0]))); } }
//@fn <TableRow as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); assert(stream.open().push("tr"@).drop_last() =~= stream.open()); lemma_cells(self.cells@, prop_onto(self.property, stream.log().push(plain("tr"@)))); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
