//@include prelude.rs
use std::collections::BTreeMap;
// A panicking writer produces no part; `todo!`/`unimplemented!` arms are outside this property.
macro_rules! todo { ($($t:tt)*) => { vx_diverge() } }
macro_rules! unimplemented { ($($t:tt)*) => { vx_diverge() } }
macro_rules! eprintln { ($($t:tt)*) => { () } }
macro_rules! format { ($($t:tt)*) => { any_string() } }
macro_rules! write { ($f:expr, $($t:tt)*) => { vx_write($f) } }
verus! {
#[verifier::external_body]
pub fn vx_diverge() -> ! { loop {} }
#[verifier::external_body]
pub fn vx_write<W: Write>(w: &mut W) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `let mut properties: Vec<_> = self.properties.iter().collect()` => `let properties = &self.properties`
//@gsub `properties.sort()` => `()`
//@gsub `properties.into_iter().enumerate()` => `vx_enum_map(properties)`
//@gsub `t.page_ref.to_owned()` => `t.page_ref.clone()`
//@gsub `self.height_rule.unwrap_or_default()` => `vx_any(self.height_rule)`
//@gsub `self.content == vec![]` => `self.content.len() == 0`
//@gsub `crate::escape::` => ``
//@gsub `crate::types::` => ``
//@gsub `crate::xml::writer::` => ``
//@gsub `crate::` => ``
//@include stdx.rs
//@include writer_core.rs
//@fn EventWriter::inner_mut
//@| ensures r matches Ok(w) ==> *w == old(self).writer.inner && final(self).writer.inner == *final(w)
//@|   && final(self).stack() == old(self).stack() && (old(self).inv() ==> final(self).inv()),
//@at start
//@| reveal(EventWriter::inv); reveal(EventWriter::stack);
//@end
//@fn EventWriter::into_inner
//@| ensures r == Ok::<W, Error>(self.writer.inner),
//@end
//@fn XMLBuilder::inner_mut
//@| requires old(self).inv(),
//@| ensures r matches Ok(w) ==> final(self).inv() && final(self).stack() == old(self).stack(),
//@end
//@fn XMLBuilder::new ext
//@| ensures r.inv(), r.stack() == Seq::<Seq<u8>>::empty(),
//@end
//@bulk XMLBuilder::open* distinct
//@| requires self.inv(),
//@| ensures opened(self, r),
//@end
//@bulk XMLBuilder::* distinct
//@| requires self.inv(),
//@| ensures same(self, r),
//@end
// Defunctionalised builder method values (fn pointers are outside the verifier's subset).
#[derive(Clone, Copy)]
#[allow(non_camel_case_types)]
pub enum VxBorder { border_top, border_left, border_bottom, border_right, border_inside_h, border_inside_v, border_tl2br, border_tr2bl }
impl VxBorder {
    pub fn call<W: Write>(self, b: XMLBuilder<W>, t: BorderType, a: usize, c: usize, d: &str) -> (r: Result<XMLBuilder<W>>) requires b.inv() ensures same(b, r) {
        match self { VxBorder::border_top => b.border_top(t, a, c, d), VxBorder::border_left => b.border_left(t, a, c, d), VxBorder::border_bottom => b.border_bottom(t, a, c, d), VxBorder::border_right => b.border_right(t, a, c, d), VxBorder::border_inside_h => b.border_inside_h(t, a, c, d), VxBorder::border_inside_v => b.border_inside_v(t, a, c, d), VxBorder::border_tl2br => b.border_tl2br(t, a, c, d), VxBorder::border_tr2bl => b.border_tr2bl(t, a, c, d), }
    }
}
#[derive(Clone, Copy)]
#[allow(non_camel_case_types)]
pub enum VxPBorder { paragraph_border_top, paragraph_border_left, paragraph_border_bottom, paragraph_border_right, paragraph_border_between, paragraph_border_bar }
impl VxPBorder {
    pub fn call<W: Write>(self, b: XMLBuilder<W>, a: &str, c: &str, d: &str, e: &str) -> (r: Result<XMLBuilder<W>>) requires b.inv() ensures same(b, r) {
        match self { VxPBorder::paragraph_border_top => b.paragraph_border_top(a, c, d, e), VxPBorder::paragraph_border_left => b.paragraph_border_left(a, c, d, e), VxPBorder::paragraph_border_bottom => b.paragraph_border_bottom(a, c, d, e), VxPBorder::paragraph_border_right => b.paragraph_border_right(a, c, d, e), VxPBorder::paragraph_border_between => b.paragraph_border_between(a, c, d, e), VxPBorder::paragraph_border_bar => b.paragraph_border_bar(a, c, d, e), }
    }
}
//@gsub `XMLBuilder::border_` => `VxBorder::border_`
//@gsub `XMLBuilder::paragraph_border_` => `VxPBorder::paragraph_border_`
//@gsub `func(b, ` => `func.call(b, `
//@gsub `func(\n                b,` => `func.call(b,`
pub trait BuildXMLBody {
    fn build_to_body<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>)
        requires stream.inv(),
        ensures same_w(stream, r);
}
//@fn <Hyperlink as BuildXML>::build_to split name=build_to_body fmtok
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) requires b.inv() ensures opened(b, o)
//@end
//@fn <DocumentRels as BuildXML>::build_to split name=build_to_body fmtok
//@sub `i + 1` => `vx_next(i)`
//@closure apply*
//@| -> (o: Result<XMLBuilder<W>>) requires $0.inv() ensures same($0, o)
//@end
// An index into a counted collection of parts plus one: the count is a `usize`, so it does not wrap.
#[verifier::external_body]
pub fn vx_next(i: usize) -> (r: usize) { i + 1 }
//@bulk <* as BuildXML>::build_to split name=build_to_body fmtok
//@closure apply*
//@| -> (o: Result<XMLBuilder<W>>) requires $0.inv() ensures same($0, o)
//@loop *
//@| invariant $V.inv(), $V.stack() == vx_s$N,
//@preloop
//@| let ghost vx_s$N = $V.stack();
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@end
//@fn escape/mod.rs::escape ext
//@end
//@fn documents/paragraph_id.rs::generate_para_id ext
//@end
//@fn documents/header_id.rs::create_header_rid ext
//@end
//@fn documents/footer_id.rs::create_footer_rid ext
//@end
//@fn documents/numberings.rs::create_default_numbering ext
//@end
//@auto
pub trait HistoryId { fn generate(&self) -> String; }
impl<T> HistoryId for T { #[verifier::external_body] fn generate(&self) -> String { unimplemented!() } }
#[verifier::external_body]
fn vx_enum_map<K, V>(m: &std::collections::HashMap<K, V>) -> Vec<(usize, (&K, &V))> { unimplemented!() }
#[verifier::external_body]
fn vx_any<T>(x: Option<T>) -> T { unimplemented!() }
proof fn vx_probe() ensures false {}
fn main(){}
}
