//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include tc_spec.rs
//@include wr_head.rs
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
// Numbers of changes are handed out by a counter; a reader ignores them.
#[verifier::external_body] pub fn vx_history_id() -> String { unimplemented!() }
//@fn XMLBuilder::open_insert
//@| ensures opened(self, r, El { n: "ins"@, a: by(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_delete
//@| ensures opened(self, r, El { n: "del"@, a: by(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_move_from
//@| ensures opened(self, r, El { n: "moveFrom"@, a: by(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_move_to
//@| ensures opened(self, r, El { n: "moveTo"@, a: by(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
// TRUSTED here: what has its own content is written after what is there already (runs: unit rn_write).
impl BuildXML for Run {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeStart {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for CommentRangeEnd {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Delete {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(*self) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
impl<'a, T: BuildXML> BuildXML for &'a T {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
pub open spec fn fold<T>(s: Seq<T>, log: Seq<Tok>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { log } else { fold(s.skip(1), g(s[0], log), g) } }
pub open spec fn does<T, W: Write>(t: T, b: XMLBuilder<W>, o: Result<XMLBuilder<W>>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> bool { o matches Ok(w) ==> w.log() == g(t, b.log()) && w.open() == b.open() }
//@fn XMLBuilder::apply_each
//@| requires forall |t: T, b: Self| #[trigger] f.requires((&t, b)),
//@| ensures forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) ==> does(t, b, o, g))
//@|     ==> (r matches Ok(w) ==> w.log() == #[trigger] fold(items@, self.log(), g) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `T, F: Fn(&T, Self)`
//@sub `items: I` => `items: &Vec<T>`
//@sub `items.into_iter()` => `items`
//@loop 0 iter=it
//@| invariant forall |t: T, b: Self| #[trigger] f.requires((&t, b)), it.seq().len() == items0.len(), forall |j: int| 0 <= j < items0.len() ==> *(#[trigger] it.seq()[j]) == items0[j],
//@|   forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) ==> does(t, b, o, g))
//@|     ==> #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ as int), this.log(), g) && this.open() == self.open(),
//@at start
//@| let ghost items0 = items@; proof { assert(items0.skip(0) =~= items0); }
//@loopstart 0
//@| let ghost vx_b = this;
//@loopend 0
//@| proof { let s = items0.skip(it.index@ as int); assert(s.skip(1) =~= items0.skip(it.index@ + 1)); assert(s[0] == items0[it.index@ as int]);
//@|   assert forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((&t, b), o) ==> does(t, b, o, g))
//@|     implies #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ + 1), this.log(), g) && this.open() == self.open() by { assert(fold(items0, self.log(), g) == fold(s, vx_b.log(), g)); assert(this.log() == g(s[0], vx_b.log())); } }
//@afterloop 0
//@| proof { assert(items0.skip(items0.len() as int) =~= Seq::<T>::empty()); }
//@end
//@fn <InsertChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for InsertChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { kid_Insert(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_Insert(c: Seq<InsertChild>, log: Seq<Tok>) ensures all_onto(c, log) == kids_Insert(c, log) decreases c.len()
{ if c.len() > 0 { lemma_Insert(c.skip(1), kid_Insert(c[0], log)); } }
//@fn <MoveToChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for MoveToChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { kid_MoveTo(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_MoveTo(c: Seq<MoveToChild>, log: Seq<Tok>) ensures all_onto(c, log) == kids_MoveTo(c, log) decreases c.len()
{ if c.len() > 0 { lemma_MoveTo(c.skip(1), kid_MoveTo(c[0], log)); } }
//@fn <Insert as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |i: Seq<char>| w.log() == #[trigger] onto_Insert(*self, i, stream.log())) && w.open() == stream.open(),
//@sub `self.generate()` => `vx_history_id()`
//@sub `id.as_ref()` => `id.as_str()`
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] all_onto(self.children@, l) == kids_Insert(self.children@, l) by { lemma_Insert(self.children@, l); } assert(stream.open().push("ins"@).drop_last() =~= stream.open()); assert forall |i: Seq<char>| #![trigger by(i, self.author@, self.date@)] onto_Insert(*self, i, stream.log()).len() >= 0 by {} }
//@end
pub open spec fn g_Delete() -> spec_fn(DeleteChild, Seq<Tok>) -> Seq<Tok> { |c: DeleteChild, l: Seq<Tok>| kid_Delete(c, l) }
proof fn lemma_Delete(c: Seq<DeleteChild>, log: Seq<Tok>) ensures fold(c, log, g_Delete()) == kids_Delete(c, log) decreases c.len()
{ if c.len() > 0 { lemma_Delete(c.skip(1), kid_Delete(c[0], log)); } }
//@fn <Delete as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |i: Seq<char>| w.log() == #[trigger] onto_Delete(*self, i, stream.log())) && w.open() == stream.open(),
//@sub `self.generate()` => `vx_history_id()`
//@sub `id.as_ref()` => `id.as_str()`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*ch, b, o, g_Delete())
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] fold(self.children@, l, g_Delete()) == kids_Delete(self.children@, l) by { lemma_Delete(self.children@, l); } assert(stream.open().push("del"@).drop_last() =~= stream.open()); assert forall |i: Seq<char>| #![trigger by(i, self.author@, self.date@)] onto_Delete(*self, i, stream.log()).len() >= 0 && fold(self.children@, stream.log().push(Tok::Open(El { n: "del"@, a: by(i, self.author@, self.date@) })), g_Delete()) == kids_Delete(self.children@, stream.log().push(Tok::Open(El { n: "del"@, a: by(i, self.author@, self.date@) }))) by {lemma_Delete(self.children@, stream.log().push(Tok::Open(El { n: "del"@, a: by(i, self.author@, self.date@) })));} }
//@end
pub open spec fn g_MoveFrom() -> spec_fn(MoveFromChild, Seq<Tok>) -> Seq<Tok> { |c: MoveFromChild, l: Seq<Tok>| kid_MoveFrom(c, l) }
proof fn lemma_MoveFrom(c: Seq<MoveFromChild>, log: Seq<Tok>) ensures fold(c, log, g_MoveFrom()) == kids_MoveFrom(c, log) decreases c.len()
{ if c.len() > 0 { lemma_MoveFrom(c.skip(1), kid_MoveFrom(c[0], log)); } }
//@fn <MoveFrom as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |i: Seq<char>| w.log() == #[trigger] onto_MoveFrom(*self, i, stream.log())) && w.open() == stream.open(),
//@sub `self.generate()` => `vx_history_id()`
//@sub `id.as_ref()` => `id.as_str()`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*ch, b, o, g_MoveFrom())
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] fold(self.children@, l, g_MoveFrom()) == kids_MoveFrom(self.children@, l) by { lemma_MoveFrom(self.children@, l); } assert(stream.open().push("moveFrom"@).drop_last() =~= stream.open()); assert forall |i: Seq<char>| #![trigger by(i, self.author@, self.date@)] onto_MoveFrom(*self, i, stream.log()).len() >= 0 && fold(self.children@, stream.log().push(Tok::Open(El { n: "moveFrom"@, a: by(i, self.author@, self.date@) })), g_MoveFrom()) == kids_MoveFrom(self.children@, stream.log().push(Tok::Open(El { n: "moveFrom"@, a: by(i, self.author@, self.date@) }))) by {lemma_MoveFrom(self.children@, stream.log().push(Tok::Open(El { n: "moveFrom"@, a: by(i, self.author@, self.date@) })));} }
//@end
//@fn <MoveTo as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |i: Seq<char>| w.log() == #[trigger] onto_MoveTo(*self, i, stream.log())) && w.open() == stream.open(),
//@sub `self.generate()` => `vx_history_id()`
//@sub `id.as_ref()` => `id.as_str()`
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] all_onto(self.children@, l) == kids_MoveTo(self.children@, l) by { lemma_MoveTo(self.children@, l); } assert(stream.open().push("moveTo"@).drop_last() =~= stream.open()); assert forall |i: Seq<char>| #![trigger by(i, self.author@, self.date@)] onto_MoveTo(*self, i, stream.log()).len() >= 0 by {} }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
