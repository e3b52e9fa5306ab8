//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include tl_spec.rs
//@include wr_head.rs
//@item TableGrid
#[verifier::external_body] pub struct TableRow { x: u8 }
#[verifier::external_body] pub struct TableProperty { x: u8 }
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
//@fn XMLBuilder::open_table
//@| ensures opened(self, r, El { n: "tbl"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_table_grid
//@| ensures opened(self, r, El { n: "tblGrid"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::grid_column
//@| ensures put(self, r, El { n: "gridCol"@, a: wide_at(w, t) }),
//@at start
//@| proof { names(); }
//@end
// TRUSTED here: what has its own content is written after what is there already (table formatting: unit rt_write).
impl BuildXML for TableRow {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for TableProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
impl<'a, T: BuildXML> BuildXML for &'a T {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
pub open spec fn fold<T>(s: Seq<T>, log: Seq<Tok>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { log } else { fold(s.skip(1), g(s[0], log), g) } }
pub open spec fn does<T, W: Write>(t: T, b: XMLBuilder<W>, o: Result<XMLBuilder<W>>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> bool { o matches Ok(w) ==> w.log() == g(t, b.log()) && w.open() == b.open() }
//@fn XMLBuilder::apply_each
//@| requires forall |t: T, b: Self| #[trigger] f.requires((&t, b)),
//@| ensures forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     ==> (r matches Ok(w) ==> w.log() == #[trigger] fold(items@, self.log(), g) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `T, F: Fn(&T, Self)`
//@sub `items: I` => `items: &Vec<T>`
//@sub `items.into_iter()` => `items`
//@loop 0 iter=it
//@| invariant items0 == items@, forall |t: T, b: Self| #[trigger] f.requires((&t, b)), it.seq().len() == items0.len(), forall |j: int| 0 <= j < items0.len() ==> *(#[trigger] it.seq()[j]) == items0[j],
//@|   forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     ==> #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ as int), this.log(), g) && this.open() == self.open(),
//@at start
//@| let ghost items0 = items@; proof { assert(items0.skip(0) =~= items0); }
//@loopstart 0
//@| let ghost vx_b = this;
//@loopend 0
//@| proof { let s = items0.skip(it.index@ as int); assert(s.skip(1) =~= items0.skip(it.index@ + 1)); assert(s[0] == items0[it.index@ as int]); assert(items@.contains(s[0]));
//@|   assert forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does(t, b, o, g))
//@|     implies #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ + 1), this.log(), g) && this.open() == self.open() by { assert(fold(items0, self.log(), g) == fold(s, vx_b.log(), g)); assert(this.log() == g(s[0], vx_b.log())); } }
//@afterloop 0
//@| proof { assert(items0.skip(items0.len() as int) =~= Seq::<T>::empty()); }
//@end
//@fn <TableChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(row_of(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_rows(c: Seq<TableChild>, log: Seq<Tok>) ensures all_onto(c, log) == rows_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_rows(c.skip(1), log + nest_toks(row_of(c[0]))); } }
pub open spec fn g_col() -> spec_fn(usize, Seq<Tok>) -> Seq<Tok> { |c: usize, l: Seq<Tok>| one(l, col_el(c)) }
proof fn lemma_cols(c: Seq<usize>, log: Seq<Tok>) ensures fold(c, log, g_col()) == cols_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_cols(c.skip(1), one(log, col_el(c[0]))); } }
//@fn TableGrid::new
//@| ensures r.grid == grid,
//@end
//@fn <TableGrid as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == grid_onto(self.grid@, stream.log()) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*g, b, o, g_col())
//@at start
//@| proof { names(); assert(stream.open().push("tblGrid"@).drop_last() =~= stream.open()); lemma_cols(self.grid@, stream.log().push(plain("tblGrid"@))); }
//@end
impl BuildXML for TableGrid {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { grid_onto(self.grid@, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED: a copy of a list of numbers holds the same numbers.
#[verifier::external_body] fn vx_copy(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
//@fn <Table as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tbl_onto(*self, stream.log()) && w.open() == stream.open(),
//@sub `self.grid.clone()` => `vx_copy(&self.grid)`
//@at start
//@| proof { names(); assert(stream.open().push("tbl"@).drop_last() =~= stream.open()); lemma_rows(self.rows@, grid_onto(self.grid@, stream.log().push(plain("tbl"@)) + nest_toks(self.property))); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
