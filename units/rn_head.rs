broadcast use vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize, vals::seen_shown_i32, vals::seen_shown_u32;
// TRUSTED: the event writer (proved down to bytes in the writer unit): a start event, its attributes in the order given, an
// end event and a text become the tokens a reader of the part is given.
pub trait Write {}
pub mod io { #[verifier::external_body] pub struct Error { x: u8 } }
#[verifier::external_body] pub struct Error { x: u8 }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct StartElement<'a> { x: &'a str }
impl<'a> StartElement<'a> { pub uninterp spec fn el(&self) -> El; }
//@fn StartElement::attr ext
//@| ensures r.el() == (El { n: self.el().n, a: self.el().a.push(At { n: local(name@), v: seen(value@) }) }),
//@end
//@fn StartElement::attr_display ext
//@| ensures r.el() == (El { n: self.el().n, a: self.el().a.push(At { n: local(name@), v: seen(shown(value)@) }) }),
//@sub `impl fmt::Display` => `impl Shown`
//@end
pub trait Shown {}
impl<T> Shown for T {}
pub enum XmlEvent<'a> { StartElement(StartElement<'a>), EndElement, Characters(&'a str) }
//@fn XmlEvent::start_element ext
//@| ensures r.el() == (El { n: name@, a: Seq::empty() }),
//@end
//@fn XmlEvent::end_element ext
//@| ensures r == XmlEvent::EndElement,
//@end
pub trait ToEv<'a>: Sized { spec fn ev(self) -> XmlEvent<'a>; }
impl<'a> ToEv<'a> for StartElement<'a> { open spec fn ev(self) -> XmlEvent<'a> { XmlEvent::StartElement(self) } }
impl<'a> ToEv<'a> for &'a str { open spec fn ev(self) -> XmlEvent<'a> { XmlEvent::Characters(self) } }
impl<'a> ToEv<'a> for XmlEvent<'a> { open spec fn ev(self) -> XmlEvent<'a> { self } }
#[verifier::external_body] #[verifier::accept_recursive_types(W)] pub struct EventWriter<W> { x: W }
impl<W: Write> EventWriter<W> {
    pub uninterp spec fn log(&self) -> Seq<Tok>;
    /// Names of the open elements.
    pub uninterp spec fn open(&self) -> Seq<Seq<char>>;
}
//@fn EventWriter::write ext
//@| ensures r is Ok ==> (match event.ev() {
//@|   XmlEvent::StartElement(e) => final(self).log() == old(self).log().push(Tok::Open(e.el())) && final(self).open() == old(self).open().push(e.el().n)
//@|     && final(self).open().drop_last() == old(self).open() && final(self).open().last() == e.el().n && final(self).open().len() > 0,
//@|   XmlEvent::EndElement => old(self).open().len() > 0 && final(self).log() == old(self).log().push(Tok::Close(old(self).open().last())) && final(self).open() == old(self).open().drop_last(),
//@|   XmlEvent::Characters(t) => final(self).log() == old(self).log().push(Tok::Chars(seen(t@))) && final(self).open() == old(self).open(),
//@| }),
//@end
//@item XMLBuilder
impl<W: Write> XMLBuilder<W> {
    pub open spec fn log(&self) -> Seq<Tok> { self.writer.log() }
    pub open spec fn open(&self) -> Seq<Seq<char>> { self.writer.open() }
}
/// One element without content was written.
pub open spec fn put<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El) -> bool {
    r matches Ok(w) ==> w.log() == a.log().push(Tok::Open(e)).push(Tok::Close(e.n)) && w.open() == a.open()
}
//@fn <XMLBuilder as From>::from
//@| ensures r.writer == writer,
//@end
//@fn XMLBuilder::write
//@| ensures r matches Ok(w) ==> (match event.ev() {
//@|   XmlEvent::StartElement(e) => w.log() == self.log().push(Tok::Open(e.el())) && w.open() == self.open().push(e.el().n) && w.open().drop_last() == self.open() && w.open().last() == e.el().n && w.open().len() > 0,
//@|   XmlEvent::EndElement => self.open().len() > 0 && w.log() == self.log().push(Tok::Close(self.open().last())) && w.open() == self.open().drop_last(),
//@|   XmlEvent::Characters(t) => w.log() == self.log().push(Tok::Chars(seen(t@))) && w.open() == self.open(),
//@| }),
//@end
//@fn XMLBuilder::close
//@| ensures r matches Ok(w) ==> self.open().len() > 0 && w.log() == self.log().push(Tok::Close(self.open().last())) && w.open() == self.open().drop_last(),
//@end
//@fn XMLBuilder::into_inner
//@| ensures r == Ok::<EventWriter<W>, Error>(self.writer),
//@end
pub trait BuildXML {
    /// The log after this has been written onto it.
    spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok>;
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>)
        ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open();
}
//@fn XMLBuilder::add_child
//@| ensures r matches Ok(w) ==> w.log() == child.onto(self.log()) && w.open() == self.open(),
//@sub `child.build_to(self.writer)?.into()` => `XMLBuilder::from(child.build_to(self.writer)?)`
//@end
#[verifier::opaque] pub open spec fn kid<T: BuildXML>(c: Option<T>, log: Seq<Tok>) -> Seq<Tok> { match c { Some(c) => c.onto(log), None => log } }
//@fn XMLBuilder::add_optional_child
//@| ensures r matches Ok(w) ==> w.log() == kid(*child, self.log()) && w.open() == self.open(),
//@at start
//@| proof { reveal(kid); }
//@end
