//@include prelude.rs
use std::collections::HashMap;
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include cu_spec.rs
//@include wr_head.rs
pub proof fn names()
    ensures local("Properties"@) == "Properties"@, local("property"@) == "property"@, local("vt:lpwstr"@) == "lpwstr"@,
        local("fmtid"@) == "fmtid"@, local("pid"@) == "pid"@, local("name"@) == "name"@,
        local("w:docVar"@) == "docVar"@, local("w:name"@) == "name"@, local("w:val"@) == "val"@,
        local("ds:datastoreItem"@) == "datastoreItem"@, local("ds:schemaRefs"@) == "schemaRefs"@, local("ds:itemID"@) == "itemID"@,
{
    reveal_strlit("Properties"); reveal_strlit("property"); reveal_strlit("vt:lpwstr"); reveal_strlit("lpwstr"); reveal_strlit("fmtid"); reveal_strlit("pid"); reveal_strlit("name");
    reveal_strlit("w:docVar"); reveal_strlit("docVar"); reveal_strlit("w:name"); reveal_strlit("w:val"); reveal_strlit("val");
    reveal_strlit("ds:datastoreItem"); reveal_strlit("datastoreItem"); reveal_strlit("ds:schemaRefs"); reveal_strlit("schemaRefs"); reveal_strlit("ds:itemID"); reveal_strlit("itemID");
    assert(local("vt:lpwstr"@) =~= "lpwstr"@); assert(local("w:docVar"@) =~= "docVar"@); assert(local("w:name"@) =~= "name"@); assert(local("w:val"@) =~= "val"@);
    assert(local("ds:datastoreItem"@) =~= "datastoreItem"@); assert(local("ds:schemaRefs"@) =~= "schemaRefs"@); assert(local("ds:itemID"@) =~= "itemID"@);
}
// Here: escaping is the function proved in the escape unit; the declaration is no token.
//@fn escape/mod.rs::escape ext
//@| ensures r == escaped(text@),
//@end
//@fn XMLBuilder::declaration ext
//@| ensures r matches Ok(w) ==> w.log() == self.log() && w.open() == self.open(),
//@end
//@item CustomProps
//@item DocVar
//@item CustomItemProperty
/// An element was opened.
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)) && w.open() == a.open().push(e.n) && w.open().drop_last() == a.open() && w.open().last() == e.n && w.open().len() > 0
}
//@fn XMLBuilder::open_custom_properties
//@| ensures opened(self, r, El { n: "Properties"@, a: ats(ats(Seq::empty(), local("xmlns"@), arg0@), local("xmlns:vt"@), arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_property
//@| ensures opened(self, r, El { n: "property"@, a: ats(ats(ats(Seq::empty(), "fmtid"@, arg0@), "pid"@, arg1@), "name"@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::lpwstr
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(str_el())).push(Tok::Chars(seen(child@))).push(Tok::Close("lpwstr"@)) && w.open() == self.open(),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::doc_var
//@| ensures put(self, r, El { n: "docVar"@, a: ats(ats(Seq::empty(), "name"@, arg0@), "val"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_data_store_item
//@| ensures opened(self, r, El { n: "datastoreItem"@, a: ats(ats(Seq::empty(), local("xmlns:ds"@), arg0@), "itemID"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_data_store_schema_refs
//@| ensures opened(self, r, El { n: "schemaRefs"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
// Extracted for an owned vector of numbered items, the only items it is given here.
pub open spec fn fold<T>(s: Seq<T>, log: Seq<Tok>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { log } else { fold(s.skip(1), g(s[0], log), g) } }
pub open spec fn does<T, W: Write>(t: T, b: XMLBuilder<W>, o: Result<XMLBuilder<W>>, g: spec_fn(T, Seq<Tok>) -> Seq<Tok>) -> bool { o matches Ok(w) ==> w.log() == g(t, b.log()) && w.open() == b.open() }
//@fn XMLBuilder::apply_each
//@| requires forall |t: T, b: Self| f.requires((t, b)),
//@| ensures forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> does(t, b, o, g))
//@|     ==> (r matches Ok(w) ==> w.log() == #[trigger] fold(items@, self.log(), g) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `T, F: Fn(T, Self)`
//@sub `items: I` => `items: Vec<T>`
//@sub `items.into_iter()` => `items`
//@loop 0 iter=it
//@| invariant forall |t: T, b: Self| f.requires((t, b)), it.seq() == items0,
//@|   forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> does(t, b, o, g))
//@|     ==> #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ as int), this.log(), g) && this.open() == self.open(),
//@at start
//@| let ghost items0 = items@; proof { assert(items0.skip(0) =~= items0); }
//@loopstart 0
//@| let ghost vx_b = this;
//@loopend 0
//@| proof { let s = items0.skip(it.index@ as int); assert(s.skip(1) =~= items0.skip(it.index@ + 1)); assert(s[0] == items0[it.index@ as int]);
//@|   assert forall |g: spec_fn(T, Seq<Tok>) -> Seq<Tok>| (forall |t: T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> does(t, b, o, g))
//@|     implies #[trigger] fold(items0, self.log(), g) == fold(items0.skip(it.index@ + 1), this.log(), g) && this.open() == self.open() by { assert(fold(items0, self.log(), g) == fold(s, vx_b.log(), g)); assert(this.log() == g(s[0], vx_b.log())); } }
//@afterloop 0
//@| proof { assert(items0.skip(items0.len() as int) =~= Seq::<T>::empty()); }
//@end
// TRUSTED: iterate, collect and sort a hash map; number the items of a vector.
#[verifier::external_body] pub fn vx_sorted<'a>(h: &'a HashMap<String, String>) -> (r: Vec<(&'a String, &'a String)>)
    ensures r@.len() == entries(held(*h)).len(), forall |i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == entries(held(*h))[i].0 && r@[i].1@ == entries(held(*h))[i].1 { unimplemented!() }
#[verifier::external_body] pub fn vx_number<'a>(v: Vec<(&'a String, &'a String)>) -> (r: Vec<(usize, (&'a String, &'a String))>)
    ensures r@.len() == v@.len(), r@.len() <= usize::MAX, forall |i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == v@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_pid(i: usize) -> (r: String) ensures r@ == pid(i) { unimplemented!() }
pub open spec fn put_item(x: (usize, (&String, &String)), log: Seq<Tok>) -> Seq<Tok> { put_prop(x.0, (x.1.0@, x.1.1@), log) }
proof fn lemma_fold(v: Seq<(usize, (&String, &String))>, e: Seq<Pair>, i: usize, log: Seq<Tok>, g: spec_fn((usize, (&String, &String)), Seq<Tok>) -> Seq<Tok>)
    requires v.len() == e.len(), i + v.len() <= usize::MAX, forall |j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0 == i + j && v[j].1.0@ == e[j].0 && v[j].1.1@ == e[j].1,
        forall |x: (usize, (&String, &String)), l: Seq<Tok>| #[trigger] g(x, l) == put_item(x, l),
    ensures fold(v, log, g) == put_props(e, i, log)
    decreases v.len()
{
    if v.len() > 0 {
        assert forall |j: int| 0 <= j < v.skip(1).len() implies (#[trigger] v.skip(1)[j]).0 == (i + 1) as usize + j && v.skip(1)[j].1.0@ == e.skip(1)[j].0 && v.skip(1)[j].1.1@ == e.skip(1)[j].1 by { assert(v.skip(1)[j] == v[j + 1]); }
        assert(v[0].0 == i); assert((v[0].1.0@, v[0].1.1@) == e[0]);
        lemma_fold(v.skip(1), e.skip(1), (i + 1) as usize, put_prop(i, e[0], log), g);
    }
}
pub open spec fn ns() -> Seq<At> { ats(ats(Seq::empty(), local("xmlns"@), "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties"@), local("xmlns:vt"@), "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes"@) }
//@fn <CustomProps as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `let mut properties: Vec<_> = self.properties.iter().collect();~~properties.sort();` => `let properties = vx_number(vx_sorted(&self.properties)); let ghost vx_g = |x: (usize, (&String, &String)), l: Seq<Tok>| put_item(x, l); proof { let e = entries(held(self.properties)); lemma_fold(properties@, e, 0, stream.log().push(Tok::Open(El { n: "Properties"@, a: ns() })), vx_g); }`
//@sub `properties.into_iter().enumerate()` => `properties`
//@sub `&format!("{}", i + 2)` => `&vx_pid(i)`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(vx_p0, b, o, |x: (usize, (&String, &String)), l: Seq<Tok>| put_item(x, l))
//@at start
//@| proof { names(); }
//@end
impl BuildXML for CustomProps {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { part(held(self.properties), log, ns()) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <DocVar as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
pub open spec fn el_var(v: DocVar) -> El { El { n: "docVar"@, a: ats(ats(Seq::empty(), "name"@, escaped(v.name@)@), "val"@, escaped(v.val@)@) } }
impl BuildXML for DocVar {
    closed spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log.push(Tok::Open(el_var(*self))).push(Tok::Close("docVar"@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED: format!("{{{}}}", id) is the id in braces.
#[verifier::external_body] pub fn vx_braces(s: &String) -> (r: String) ensures r@ == "{"@ + s@ + "}"@ { unimplemented!() }
//@fn <CustomItemProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@sub `&format!("{{{}}}", self.id)` => `&vx_braces(&self.id)`
//@end
impl BuildXML for CustomItemProperty {
    closed spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {
        log.push(Tok::Open(El { n: "datastoreItem"@, a: ats(ats(Seq::empty(), local("xmlns:ds"@), "http://schemas.openxmlformats.org/officeDocument/2006/customXml"@), "itemID"@, "{"@ + self.id@ + "}"@) }))
            .push(Tok::Open(El { n: "schemaRefs"@, a: Seq::empty() })).push(Tok::Close("schemaRefs"@)).push(Tok::Close("datastoreItem"@))
    }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
