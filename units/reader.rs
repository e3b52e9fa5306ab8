//@include prelude.rs
macro_rules! format { ($($t:tt)*) => { any_string() } }
use std::collections::{BTreeMap, VecDeque};
verus! {
//@gsub `super::` => ``
//@gsub `ignore::` => ``
//@gsub `attributes::` => ``
//@gsub `line_spacing::` => ``
//@gsub `crate::` => ``
//@gsub `quick_xml::Error` => `VxXmlErr`
//@gsub `<'_>` => ``
//@gsub `self.reader.decoder().decode(text.as_ref())?.into_owned()` => `vx_decode(&self.reader, text)?`
//@gsub `text.push_str(&` => `vx_push(&mut text, &`
//@gsub `text~~.as_bytes()~~.iter()~~.all(|byte| matches!(byte, b' ' | b'\t' | b'\n' | b'\r'))` => `vx_blank(&text)`
//@gsub ` _: &mut EventReader` => ` _r: &mut EventReader`
//@gsub `types::` => ``
//@gsub ` _: &[OwnedAttribute]` => ` _vx: &[OwnedAttribute]`
//@gsub `usize::from_str(` => `vx_parse::<usize>(`
//@gsub `isize::from_str(` => `vx_parse::<isize>(`
//@gsub `u32::from_str(` => `vx_parse::<u32>(`
//@gsub `i32::from_str(` => `vx_parse::<i32>(`
//@gsub `u16::from_str(` => `vx_parse::<u16>(`
//@gsub `u8::from_str(` => `vx_parse::<u8>(`
//@gsub `i64::from_str(` => `vx_parse::<i64>(`
//@gsub `f32::from_str(` => `vx_parse::<f32>(`
//@gsub `f64::from_str(` => `vx_parse::<f64>(`
//@gsub `.eq_ignore_ascii_case(` => `.vx_same(`
//@gsub `.ends_with(` => `.vx_ends(`
//@gsub `.starts_with(` => `.vx_ends(`
//@gsub `.replace(` => `.vx_replace(`
//@gsub `.saturating_mul(` => `.vx_sat(`
//@gsub `.unwrap_or(` => `.vx_or(`
//@gsub `.iter()~~.position(` => `.vx_position(`
//@gsub `.or_else(` => `.vx_or_else(`
//@include stdx.rs
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: these std functions return.
pub trait VxText { fn vx_same(&self, o: &str) -> (r: bool); fn vx_ends(&self, o: &str) -> (r: bool); fn vx_replace<P>(&self, p: P, o: &str) -> (r: String); }
impl VxText for str {
    #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P>(&self, p: P, o: &str) -> (r: String) { unimplemented!() }
}
impl VxText for String {
    #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P>(&self, p: P, o: &str) -> (r: String) { unimplemented!() }
}
pub trait VxSat: Sized { fn vx_sat(self, o: Self) -> (r: Self); }
impl VxSat for i32 { #[verifier::external_body] fn vx_sat(self, o: i32) -> (r: i32) { unimplemented!() } }
pub trait VxOr<T>: Sized { fn vx_or(self, o: T) -> (r: T); }
impl<T> VxOr<T> for Option<T> { #[verifier::external_body] fn vx_or(self, o: T) -> (r: T) { unimplemented!() } }
impl<T, E> VxOr<T> for Result<T, E> { #[verifier::external_body] fn vx_or(self, o: T) -> (r: T) { unimplemented!() } }
pub trait VxPos { type X; fn vx_position<F: Fn(&Self::X) -> bool>(&self, f: F) -> (r: Option<usize>) requires forall |x: &Self::X| call_requires(f, (x,)); }
impl<T> VxPos for Vec<T> { type X = T; #[verifier::external_body] fn vx_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>) ensures r matches Some(i) ==> i < self@.len() && i < usize::MAX { unimplemented!() } }
impl<T> VxPos for [T] { type X = T; #[verifier::external_body] fn vx_position<F: Fn(&T) -> bool>(&self, f: F) -> (r: Option<usize>) ensures r matches Some(i) ==> i < self@.len() && i < usize::MAX { unimplemented!() } }
pub trait VxOrElse<T>: Sized { fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) requires call_requires(f, ()); }
impl<T> VxOrElse<T> for Option<T> { #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() } }
// TRUSTED: a numeric cast gives some number (`e as T` is read as this call).
#[verifier::external_body] pub fn vx_cast<A, B>(a: A) -> (r: B) { unimplemented!() }
// TRUSTED: number parsing gives a number or an error.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>) { unimplemented!() }
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
// TRUSTED: the XML tokenizer (quick_xml). `left` is the number of tokens it can still give; taking one that is not the
// end of the input leaves fewer. Its error type is opaque.
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
#[verifier::external_body] pub fn vx_xml_err() -> (r: VxXmlErr) { unimplemented!() }
pub trait Read {}
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct BufReader<R> { x: R }
#[verifier::external_body] pub struct BytesStart { x: u8 }
#[verifier::external_body] pub struct BytesEnd { x: u8 }
#[verifier::external_body] pub struct BytesText { x: u8 }
#[verifier::external_body] pub struct BytesCData { x: u8 }
#[verifier::external_body] pub struct BytesRef { x: u8 }
#[verifier::external_body] pub struct BytesOther { x: u8 }
#[verifier::external_body] pub struct VxName { x: u8 }
impl BytesStart { #[verifier::external_body] pub fn name(&self) -> (r: VxName) { unimplemented!() } }
impl BytesEnd { #[verifier::external_body] pub fn name(&self) -> (r: VxName) { unimplemented!() } }
impl VxName { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub enum Event { Start(BytesStart), Empty(BytesStart), End(BytesEnd), Text(BytesText), GeneralRef(BytesRef), CData(BytesCData), Eof, Decl(BytesOther), PI(BytesOther), Comment(BytesOther), DocType(BytesOther) }
#[verifier::external_body] pub struct Decoder { x: u8 }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct Reader<R> { x: R }
impl<R> Reader<R> {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body] pub fn read_event_into(&mut self, buf: &mut Vec<u8>) -> (r: Result<Event, VxXmlErr>)
        ensures final(self).left() <= old(self).left(), r matches Ok(e) && !(e is Eof) ==> final(self).left() < old(self).left() { unimplemented!() }
    #[verifier::external_body] pub fn decoder(&self) -> (r: Decoder) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_decode<R>(d: &Reader<R>, t: BytesCData) -> (r: Result<String, VxXmlErr>) { unimplemented!() }
#[verifier::external_body] pub fn vx_push(s: &mut String, t: &str) { unimplemented!() }
#[verifier::external_body] pub fn vx_blank(s: &String) -> (r: bool) { unimplemented!() }
//@item EventReader
//@item MAX_DEPTH
impl<R: Read> EventReader<R> {
    /// Bound on the events that can still be taken.
    pub closed spec fn rest(&self) -> nat { if self.finished { 0 } else { 1 + self.waiting() } }
    /// Tokens left, each worth at most two events, and events already made.
    pub closed spec fn waiting(&self) -> nat { 2 * self.reader.left() + self.pending@.len() }
    pub closed spec fn wf(&self) -> bool { self.depth <= MAX_DEPTH || self.finished }
}
//@fn EventReader::new ext
//@| ensures r.wf(),
//@end
//@fn EventReader::next_event
//@| requires old(self).wf(),
//@| ensures final(self).wf(), final(self).rest() <= old(self).rest(), r is Ok || !old(self).finished ==> final(self).rest() < old(self).rest(),
//@sub `std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()` => `vx_xml_err()`
//@sub `std::io::Error::other("elements are nested too deeply").into()` => `vx_xml_err()`
//@end
//@fn EventReader::read_next
//@| ensures final(self).finished == old(self).finished, final(self).depth == old(self).depth, final(self).waiting() <= old(self).waiting(),
//@|   r matches Ok(e) && !(e is EndDocument) ==> final(self).waiting() < old(self).waiting(),
//@loop 0
//@| invariant self.finished == old(self).finished, self.depth == old(self).depth, self.waiting() <= old(self).waiting(), decreases self.reader.left(),
//@end
//@fn EventReader::read_text_event
//@| ensures final(self).finished == old(self).finished, final(self).depth == old(self).depth, final(self).waiting() <= old(self).waiting() + 1,
//@|   r matches Ok(e) ==> !(e is EndDocument),
//@loop 0
//@| invariant_except_break self.waiting() <= old(self).waiting(),
//@| invariant self.finished == old(self).finished, self.depth == old(self).depth, self.waiting() <= old(self).waiting() + 1, decreases self.reader.left(),
//@end
//@fn EventReader::build_start_event
//@end
//@fn reader/xml_parser.rs::build_name_from_start
//@end
//@fn <EventReader as Iterator>::next
//@| requires old(self).wf(),
//@| ensures final(self).wf(), final(self).rest() <= old(self).rest(), r is Some ==> final(self).rest() < old(self).rest(),
//@end
//@fn reader/xml_parser.rs::build_name_from_end
//@end
#[verifier::external_body] pub fn vx_upto(s: &[u8], n: usize) -> (r: String) requires n <= s@.len() { unimplemented!() }
#[verifier::external_body] pub fn vx_from(s: &[u8], n: usize) -> (r: String) requires n <= s@.len() { unimplemented!() }
#[verifier::external_body] pub fn vx_lossy(s: &[u8]) -> (r: String) { unimplemented!() }
//@fn reader/xml_parser.rs::split_qname
//@sub `String::from_utf8_lossy(&raw[..idx]).into_owned()` => `vx_upto(raw, idx)`
//@sub `String::from_utf8_lossy(&raw[idx + 1..]).into_owned()` => `vx_from(raw, idx + 1)`
//@sub `String::from_utf8_lossy(raw).into_owned()` => `vx_lossy(raw)`
//@end
//@fn reader/xml_parser.rs::build_attributes ext
//@end
//@fn reader/xml_parser.rs::decode_text ext
//@end
//@fn reader/xml_parser.rs::decode_reference ext
//@end
//@bulk <*XMLElement as FromStr>::from_str
//@| ensures r is Ok,
//@end
//@fn <GraphicDataType as FromStr>::from_str
//@| ensures r is Ok,
//@end
//@bulk <* as FromStr>::from_str file=types/
//@readerloops
//@end
//@fn reader/ignore.rs::ignore_element
//@| requires old(r).wf(),
//@| ensures final(r).wf(), final(r).rest() <= old(r).rest(),
//@readerloops
//@end
//@bulk * file=reader/attributes/ casts
//@readerloops
//@end
//@bulk <* as ElementReader>::read r=out casts
//@| requires old($R).wf(),
//@| ensures final($R).wf(), final($R).rest() <= old($R).rest(),
//@| decreases old($R).rest(),
//@readerloops
//@end
//@bulk reader/* sig=EventReader r=out casts
//@| requires old($R).wf(),
//@| ensures final($R).wf(), final($R).rest() <= old($R).rest(),
//@| decreases old($R).rest(),
//@readerloops
//@end
//@bulk reader/* sig=OwnedAttribute casts
//@readerloops
//@end
// Left to the bounded stage: the nesting counter of these two is bounded only by the tokenizer's matching of tags.
//@fn <ContentTypes as FromXML>::from_xml ext
//@end
//@fn <Rels as FromXML>::from_xml ext
//@end
//@bulk <* as FromXML>::from_xml casts
//@readerloops
//@end
// TRUSTED: Default impls return.
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) { unimplemented!() }
impl RelativeFromVType { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl RelativeFromHType { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl WebSettings { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Theme { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Numberings { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Header { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Footer { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Start { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl FontGroup { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl CellMargins { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
//@auto except=documents/elements/style.rs::is_false
proof fn vx_probe() ensures false {}
fn main(){}
}
