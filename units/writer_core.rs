use core::marker::PhantomData;
// Shared by the writer units: the XML event writer and the builder combinators under contract.
pub mod io { use super::*; #[verifier::external_body] pub struct Error { x: u8 } }
pub mod quick_xml { use super::*; #[verifier::external_body] pub struct Error { x: u8 } }
// TRUSTED: std::io::Write appends bytes on success.
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + buf@;
}
// TRUSTED: quick_xml::Writer without indentation passes events through to the inner writer.
pub struct QuickWriter<W: Write> { pub inner: W }
pub enum Event<'a> { Text(BytesText<'a>), Decl(BytesDecl<'a>) }
#[verifier::external_body]
pub struct BytesText<'a> { s: &'a str }
impl<'a> BytesText<'a> {
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: BytesText<'a>) ensures r.raw() == esc_text(utf8(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_escaped(s: CowStr<'a>) -> (r: BytesText<'a>) ensures r.raw() == utf8(s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct BytesDecl<'a> { s: &'a str }
impl<'a> BytesDecl<'a> {
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(v: &str, e: Option<&'a str>, s: Option<&str>) -> (r: BytesDecl<'a>) { unimplemented!() }
}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
/// Character content with stray markup characters escaped (`escape_stray`, see the escape unit).
pub uninterp spec fn stray(s: Seq<char>) -> Seq<char>;
//@gsub `Cow<'_, str>` => `CowStr<'_>`
//@fn escape/mod.rs::escape_stray ext
//@|  ensures r@ == stray(text@),
//@end
pub uninterp spec fn esc_text(s: Seq<u8>) -> Seq<u8>;
pub open spec fn event_bytes(e: Event) -> Seq<u8> { match e { Event::Text(t) => t.raw(), Event::Decl(d) => d.raw() } }
impl<W: Write> QuickWriter<W> {
    #[verifier::external_body]
    pub fn new(w: W) -> (r: QuickWriter<W>) ensures r.inner == w { unimplemented!() }
    pub fn get_mut(&mut self) -> (r: &mut W)
        ensures *r == old(self).inner, final(self).inner == *final(r)
    { &mut self.inner }
    #[verifier::external_body]
    pub fn write_event(&mut self, e: Event) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).inner.out() == old(self).inner.out() + event_bytes(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W) ensures r == self.inner { unimplemented!() }
}
//@gsub `std::io::Error` => `io::Error`
//@gsub `Cow<'a, str>` => `CowStr<'a>`
//@gsub `Cow::Borrowed` => `CowStr::Borrowed`
//@gsub `Cow::Owned` => `CowStr::Owned`
//@gsub `SmallVec::new()` => `Vec::new()`
//@gsub `std::marker::PhantomData` => `PhantomData`
//@gsub `impl Into<XmlEvent<'e>>` => `impl ToEv<'e>`
//@gsub `Into<XmlEvent<'a>>` => `ToEv<'a>`
//@gsub `event.into()` => `event.to_ev()`
//@gsub `crate::xml::writer::Result` => `Result`
//@gsub `crate::xml::writer::EventWriter` => `EventWriter`
//@gsub `b">"` => `&[62u8]`
//@gsub `b" />"` => `&[32u8, 47u8, 62u8]`
//@gsub `b"</"` => `&[60u8, 47u8]`
//@gsub `b"=\""` => `&[61u8, 34u8]`
//@gsub `SmallVec<[u8; 128]>` => `Vec<u8>`
//@gsub `pub _marker: PhantomData<&'a ()>,` => `pub _marker: PhantomData<&'a ()>, pub attrs: Ghost<Set<Seq<char>>>,`
//@gsub `_marker: PhantomData,` => `_marker: PhantomData, attrs: Ghost(Set::empty()),`
//@item xml/writer.rs::Error
impl From<io::Error> for Error { #[verifier::external_body] fn from(value: io::Error) -> Self { unimplemented!() } }
//@item XmlVersion
//@fn XmlVersion::as_str
//@end
//@item xml/writer.rs::Result

//@item xml/writer.rs::ElementState
//@item xml/writer.rs::EventWriter
//@item xml/writer.rs::StartElement
//@item xml/writer.rs::XmlEvent
impl ElementState {
    pub open spec fn name(&self, names: Seq<u8>) -> Seq<u8> { names.subrange(self.name_start as int, self.name_start + self.name_len) }
}
impl<W: Write> EventWriter<W> {
    /// Data invariant: the open-element names tile `element_names`; only the innermost element can be pending.
    #[verifier::opaque]
    pub open spec fn inv(&self) -> bool {
        let st = self.element_stack@;
        let n = self.element_names@.len();
        &&& (st.len() == 0 ==> n == 0)
        &&& (st.len() > 0 ==> st[0].name_start == 0 && st[st.len() - 1].name_start + st[st.len() - 1].name_len == n)
        &&& forall |i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).name_start + st[i].name_len <= n
        &&& forall |i: int| 0 <= i < st.len() - 1 ==> (#[trigger] st[i]).name_start + st[i].name_len == st[i + 1].name_start
        &&& forall |i: int| 0 <= i < st.len() - 1 ==> !(#[trigger] st[i]).pending
    }
    /// Names of the open elements, outermost first.
    #[verifier::opaque]
    pub open spec fn stack(&self) -> Seq<Seq<u8>> {
        Seq::new(self.element_stack@.len(), |i: int| self.element_stack@[i].name(self.element_names@))
    }
    pub open spec fn depth(&self) -> nat { self.element_stack@.len() }
}
impl<'a> StartElement<'a> {
    pub open spec fn inv(&self) -> bool { 1 + self.name_len <= self.encoded@.len() }
    pub open spec fn tag(&self) -> Seq<u8> { self.encoded@.subrange(1, 1 + self.name_len) }
}
// Cow<str>, of which only as_ref and as_bytes are used
pub enum CowStr<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> CowStr<'a> {
    pub open spec fn view(&self) -> Seq<char> { match self { CowStr::Borrowed(s) => s@, CowStr::Owned(s) => s@ } }
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { match self { CowStr::Borrowed(s) => s, CowStr::Owned(s) => s.as_str() } }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { self.as_ref().as_bytes() }
}
pub trait ToEv<'a>: Sized {
    spec fn ev(self) -> XmlEvent<'a>;
    fn to_ev(self) -> (r: XmlEvent<'a>) ensures r == self.ev();
}
//@fn <XmlEvent as From>::from name=from_start free
//@|  ensures r == XmlEvent::StartElement(value),
//@sub `<'a>(` => `<'a>(`
//@sub `-> (r: Self)` => `-> (r: XmlEvent<'a>)`
//@sub `fn from_start(` => `fn from_start<'a>(`
//@end
impl<'a> ToEv<'a> for StartElement<'a> {
    open spec fn ev(self) -> XmlEvent<'a> { XmlEvent::StartElement(self) }
    fn to_ev(self) -> (r: XmlEvent<'a>) { from_start(self) }
}
//@fn <XmlEvent<'a> as From<&'a str>>::from name=from_text free
//@|  ensures r == XmlEvent::Characters(CowStr::Borrowed(value)),
//@sub `-> (r: Self)` => `-> (r: XmlEvent<'a>)`
//@sub `fn from_text(` => `fn from_text<'a>(`
//@end
impl<'a> ToEv<'a> for &'a str {
    open spec fn ev(self) -> XmlEvent<'a> { XmlEvent::Characters(CowStr::Borrowed(self)) }
    fn to_ev(self) -> (r: XmlEvent<'a>) { from_text(self) }
}
//@fn <XmlEvent<'static> as From<String>>::from name=from_string free
//@|  ensures r == XmlEvent::Characters(CowStr::Owned(value)),
//@sub `-> (r: Self)` => `-> (r: XmlEvent<'static>)`
//@end
impl ToEv<'static> for String {
    open spec fn ev(self) -> XmlEvent<'static> { XmlEvent::Characters(CowStr::Owned(self)) }
    fn to_ev(self) -> (r: XmlEvent<'static>) { from_string(self) }
}
impl<'a> ToEv<'a> for XmlEvent<'a> {
    open spec fn ev(self) -> XmlEvent<'a> { self }
    fn to_ev(self) -> (r: XmlEvent<'a>) { self }
}
impl<W: Write> EventWriter<W> {
    pub open spec fn pending(&self) -> bool { self.element_stack@.len() > 0 && self.element_stack@.last().pending }
    /// Bytes of the document so far, including a start tag still held back.
    pub open spec fn lout(&self) -> Seq<u8> {
        self.writer.inner.out() + (if self.pending() { self.pending_start@ } else { Seq::empty() })
    }
    pub open spec fn flushed(&self) -> Seq<u8> {
        self.writer.inner.out() + (if self.pending() { self.pending_start@ + seq![62u8] } else { Seq::empty() })
    }
    /// What one event does to the open elements and to the bytes written.
    pub open spec fn step(&self, ev: XmlEvent, post: &EventWriter<W>) -> bool {
        match ev {
            XmlEvent::StartElement(e) => post.stack() == self.stack().push(e.tag()) && post.stack().drop_last() == self.stack() && post.lout() == self.flushed() + e.encoded@,
            XmlEvent::EndElement => self.depth() > 0 && self.stack().len() > 0 && post.stack() == self.stack().drop_last()
                && post.lout() == self.lout() + (if self.pending() { seq![32u8, 47u8, 62u8] } else { seq![60u8, 47u8] + self.stack().last() + seq![62u8] }),
            XmlEvent::Characters(t) => post.stack() == self.stack()
                && post.lout() == self.flushed() + (if self.perform_escaping { esc_text(utf8(t@)) } else { utf8(stray(t@)) }),
            XmlEvent::StartDocument { .. } => post.stack() == self.stack(),
        }
    }
}
/// Same open elements; none below the first `n` is pending in `b`.
pub open spec fn same_elems<W: Write>(a: &EventWriter<W>, b: &EventWriter<W>) -> bool {
    &&& a.element_stack@.len() <= b.element_stack@.len()
    &&& forall |i: int| 0 <= i < a.element_stack@.len() ==> (#[trigger] b.element_stack@[i]).name_start == a.element_stack@[i].name_start
        && b.element_stack@[i].name_len == a.element_stack@[i].name_len && !b.element_stack@[i].pending
}
proof fn lemma_push<W: Write>(a: &EventWriter<W>, b: &EventWriter<W>, tag: Seq<u8>)
    requires a.inv(), b.element_names@ == a.element_names@ + tag, b.element_stack@.len() == a.element_stack@.len() + 1,
        same_elems(a, b), b.element_stack@.last().name_start == a.element_names@.len(), b.element_stack@.last().name_len == tag.len(),
    ensures b.inv(), b.stack() == a.stack().push(tag),
{
    reveal(EventWriter::inv); reveal(EventWriter::stack);
    let st = b.element_stack@; let old = a.element_stack@;
    assert forall |i: int| 0 <= i < old.len() implies b.stack()[i] == a.stack()[i] by { lemma_le(a, i); assert(st[i].name_start == old[i].name_start); assert(b.stack()[i] =~= a.stack()[i]); }
    assert(b.stack()[old.len() as int] =~= tag);
    assert(b.stack() =~= a.stack().push(tag));
    assert forall |i: int| 0 <= i < st.len() - 1 implies (#[trigger] st[i]).name_start + st[i].name_len == st[i + 1].name_start by {
        assert(st[i].name_start == old[i].name_start);
        if i + 1 < old.len() { assert(st[i + 1].name_start == old[i + 1].name_start); }
    }
}
proof fn lemma_le<W: Write>(a: &EventWriter<W>, i: int)
    requires a.inv(), 0 <= i < a.element_stack@.len(),
    ensures a.element_stack@[i].name_start + a.element_stack@[i].name_len <= a.element_names@.len()
{ reveal(EventWriter::inv); }
proof fn lemma_frame<W: Write>(a: &EventWriter<W>, b: &EventWriter<W>)
    requires a.inv(), b.element_stack@ == a.element_stack@, b.element_names@ == a.element_names@,
    ensures b.inv(), b.stack() == a.stack(),
{ reveal(EventWriter::inv); reveal(EventWriter::stack); }
proof fn lemma_same<W: Write>(a: &EventWriter<W>, b: &EventWriter<W>)
    requires a.inv(), same_elems(a, b), b.element_stack@.len() == a.element_stack@.len(), b.element_names@ == a.element_names@,
    ensures b.inv(), b.stack() == a.stack(),
{
    reveal(EventWriter::inv); reveal(EventWriter::stack);
    let st = b.element_stack@; let old = a.element_stack@;
    assert forall |i: int| 0 <= i < old.len() implies b.stack()[i] == a.stack()[i] by { lemma_le(a, i); assert(st[i].name_start == old[i].name_start); }
    assert(b.stack() =~= a.stack());
    assert forall |i: int| 0 <= i < st.len() - 1 implies (#[trigger] st[i]).name_start + st[i].name_len == st[i + 1].name_start by {
        assert(st[i].name_start == old[i].name_start); assert(st[i + 1].name_start == old[i + 1].name_start);
    }
}
proof fn lemma_pop<W: Write>(a: &EventWriter<W>, b: &EventWriter<W>)
    requires a.inv(), a.element_stack@.len() > 0, b.element_stack@ == a.element_stack@.drop_last(),
        b.element_names@ == a.element_names@.take(a.element_stack@.last().name_start as int),
    ensures b.inv(), b.stack() == a.stack().drop_last(),  !b.pending(),
{
    reveal(EventWriter::inv); reveal(EventWriter::stack);
    let st = b.element_stack@; let old = a.element_stack@;
    assert forall |i: int| 0 <= i < st.len() implies (#[trigger] st[i]).name_start + st[i].name_len <= b.element_names@.len() by {
        lemma_below(a, i);
    }
    assert forall |i: int| 0 <= i < st.len() implies b.stack()[i] == a.stack()[i] by { lemma_below(a, i); assert(b.stack()[i] =~= a.stack()[i]); }
    assert(b.stack() =~= a.stack().drop_last());
}
proof fn lemma_below<W: Write>(a: &EventWriter<W>, i: int)
    requires a.inv(), 0 <= i < a.element_stack@.len() - 1
    ensures a.element_stack@[i].name_start + a.element_stack@[i].name_len <= a.element_stack@.last().name_start
    decreases a.element_stack@.len() - i
{
    reveal(EventWriter::inv);
    if i < a.element_stack@.len() - 2 { lemma_below(a, i + 1); }
}
//@fn EventWriter::flush_pending
//@|  requires old(self).inv(),
//@|  ensures r is Ok ==> final(self).inv() && final(self).stack() == old(self).stack() && !final(self).pending()
//@|     && final(self).writer.inner.out() == old(self).flushed() && final(self).perform_escaping == old(self).perform_escaping,
//@|     r is Ok ==> final(self).element_names@ == old(self).element_names@ && same_elems(old(self), final(self)) && final(self).depth() == old(self).depth(),
//@at end
//@|  proof { reveal(EventWriter::inv); lemma_same(old(self), self); assert(self.writer.inner.out() =~= old(self).flushed()); }
//@end
//@fn EventWriter::write
//@|  requires old(self).inv(), event.ev() matches XmlEvent::StartElement(e) ==> e.inv(),
//@|  ensures r is Ok ==> final(self).inv() && old(self).step(event.ev(), final(self)),
//@|     event.ev() is EndElement && old(self).depth() == 0 ==> r is Err,
//@sub `let name = &element.encoded[1..1 + element.name_len];` => `let name = vstd::slice::slice_subrange(element.encoded.as_slice(), 1, 1 + element.name_len);`
//@sub `&self.element_names[state.name_start..name_end]` => `vstd::slice::slice_subrange(self.element_names.as_slice(), state.name_start, name_end)`
//@at start
//@|  let ghost ev0 = event.ev();
//@|  proof { assert(self.element_names@.len() == self.element_names.len());
//@|    if let XmlEvent::StartElement(e) = ev0 { assert(e.encoded@.len() == e.encoded.len()); }
//@|    if old(self).depth() > 0 { lemma_le(old(self), old(self).depth() - 1); } }
//@at end
//@|  proof { match ev0 {
//@|    XmlEvent::StartElement(e) => { assert(self.element_names@ =~= old(self).element_names@ + e.tag()); lemma_push(old(self), self, e.tag()); assert(self.stack().drop_last() =~= old(self).stack()); assert(self.lout() =~= old(self).flushed() + e.encoded@); }
//@|    XmlEvent::EndElement => { lemma_pop(old(self), self);
//@|       assert(old(self).stack().len() == old(self).depth()) by { reveal(EventWriter::stack); }
//@|       assert(old(self).stack().last() == old(self).element_stack@.last().name(old(self).element_names@)) by { reveal(EventWriter::stack); }
//@|       assert(self.lout() =~= old(self).lout() + (if old(self).pending() { seq![32u8, 47u8, 62u8] } else { seq![60u8, 47u8] + old(self).stack().last() + seq![62u8] })); }
//@|    XmlEvent::Characters(t) => { lemma_same(old(self), self); }
//@|    XmlEvent::StartDocument { .. } => { lemma_frame(old(self), self); }
//@|  } }
//@end
//@fn XmlEvent::start_element
//@|  ensures r.inv(), r.tag() == utf8(name@), r.encoded@ == seq![60u8] + utf8(name@), r.attrs@ == Set::<Seq<char>>::empty(),
//@sub `name.len()` => `name.as_bytes().len()`
//@sub `let mut encoded = Vec::new();` => `let mut encoded: Vec<u8> = Vec::new();`
//@before `StartElement {`
//@|  proof { assert(encoded@ =~= seq![60u8] + utf8(name@)); assert(encoded@.subrange(1, (1 + utf8(name@).len()) as int) =~= utf8(name@)); }
//@end
//@fn XmlEvent::end_element
//@|  ensures r == XmlEvent::EndElement,
//@end
pub open spec fn attr_bytes(name: Seq<char>, value: Seq<u8>) -> Seq<u8> { seq![32u8] + utf8(name) + seq![61u8, 34u8] + value + seq![34u8] }
//@fn StartElement::attr
//@|  requires self.inv(), !self.attrs@.contains(name@),
//@|  ensures r.inv(), r.tag() == self.tag(), r.encoded@ == self.encoded@ + attr_bytes(name@, utf8(stray(value@))), r.attrs@ == self.attrs@.insert(name@),
//@at end
//@|  proof { this.attrs@ = this.attrs@.insert(name@); assert(this.encoded@ =~= self.encoded@ + attr_bytes(name@, utf8(stray(value@))));
//@|     assert(this.tag() =~= self.tag()); }
//@end
//@fn StartElement::attr_display ext
//@|  requires self.inv(), !self.attrs@.contains(name@),
//@|  ensures r.inv(), r.tag() == self.tag(), r.encoded@ == self.encoded@ + attr_bytes(name@, shown(value)), r.attrs@ == self.attrs@.insert(name@),
//@sub `impl fmt::Display` => `impl Shown`
//@end
pub trait Shown {}
impl<T> Shown for T {}
pub uninterp spec fn shown<T>(v: T) -> Seq<u8>;
//@item XMLBuilder
impl<W: Write> XMLBuilder<W> {
    pub open spec fn inv(&self) -> bool { self.writer.inv() }
    pub open spec fn stack(&self) -> Seq<Seq<u8>> { self.writer.stack() }
}
pub open spec fn same<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>) -> bool {
    r matches Ok(w) ==> w.inv() && w.stack() == a.stack()
}
pub open spec fn opened<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>) -> bool {
    r matches Ok(w) ==> w.inv() && w.stack().len() == a.stack().len() + 1 && w.stack().drop_last() == a.stack()
}
pub open spec fn same_w<W: Write>(a: EventWriter<W>, r: Result<EventWriter<W>>) -> bool {
    r matches Ok(w) ==> w.inv() && w.stack() == a.stack()
}
//@fn <XMLBuilder as From>::from
//@| ensures r.writer == writer,
//@end
//@fn XMLBuilder::write
//@| requires self.inv(), event.ev() matches XmlEvent::StartElement(e) ==> e.inv(),
//@| ensures r matches Ok(w) ==> w.inv() && self.writer.step(event.ev(), &w.writer),
//@end
//@fn XMLBuilder::apply
//@| requires f.requires((self,)),
//@| ensures f.ensures((self,), r),
//@end
//@fn XMLBuilder::apply_if
//@| requires self.inv(), forall |b: Self| b.inv() ==> f.requires((b,)), forall |b: Self, o: Result<Self>| b.inv() && f.ensures((b,), o) ==> same(b, o),
//@| ensures same(self, r),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
pub trait ToOptBool: Sized { fn to_opt_bool(self) -> (r: Option<bool>); }
impl ToOptBool for bool { fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
impl ToOptBool for Option<bool> { fn to_opt_bool(self) -> (r: Option<bool>) { self } }
//@fn XMLBuilder::apply_opt
//@| requires self.inv(), forall |t: T, b: Self| b.inv() ==> f.requires((t, b)), forall |t: T, b: Self, o: Result<Self>| b.inv() && f.ensures((t, b), o) ==> same(b, o),
//@| ensures same(self, r),
//@end
//@fn XMLBuilder::apply_each
//@| requires self.inv(), forall |t: T, b: Self| b.inv() ==> f.requires((t, b)), forall |t: T, b: Self, o: Result<Self>| b.inv() && f.ensures((t, b), o) ==> same(b, o),
//@| ensures same(self, r),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@sub `for item in items.into_iter()` => `let mut vx_it = items.into_iter(); while let Some(item) = vx_it.next()`
//@loop 0
//@| invariant this.inv(), this.stack() == self.stack(),
//@|   forall |t: T, b: Self| b.inv() ==> f.requires((t, b)), forall |t: T, b: Self, o: Result<Self>| b.inv() && f.ensures((t, b), o) ==> same(b, o),
//@end
pub trait BuildXML {
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>)
        requires stream.inv(),
        ensures same_w(stream, r);
}
//@fn XMLBuilder::add_child
//@| requires self.inv(),
//@| ensures same(self, r),
//@sub `child.build_to(self.writer)?.into()` => `XMLBuilder::from(child.build_to(self.writer)?)`
//@end
//@fn XMLBuilder::add_optional_child
//@| requires self.inv(),
//@| ensures same(self, r),
//@end
//@fn XMLBuilder::add_children
//@| requires self.inv(),
//@| ensures same(self, r),
//@loop 0
//@| invariant this.inv(), this.stack() == self.stack(),
//@end
//@fn XMLBuilder::close
//@| requires self.inv(),
//@| ensures r matches Ok(w) ==> w.inv() && self.stack().len() > 0 && w.stack() == self.stack().drop_last(),
//@end
//@fn XMLBuilder::plain_text
//@| requires self.inv(),
//@| ensures same(self, r),
//@end
//@fn XMLBuilder::into_inner
//@| ensures r == Ok::<EventWriter<W>, Error>(self.writer),
//@end
