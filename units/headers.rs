//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
macro_rules! format { ($($t:tt)*) => { any_string() } }
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `impl Into<String>` => `impl VxInto`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `std::mem::take(` => `vx_take(`
//@gsub `Default::default()` => `vx_default()`
//@gsub `in &mut self.document.children` => `in self.document.children.iter_mut()`
//@gsub `.to_string()` => `.vx_str()`
//@gsub `.to_owned()` => `.vx_str()`
// TRUSTED: mem::take moves the value out.
#[verifier::external_body]
pub fn vx_take<T>(t: &mut T) -> (r: T) ensures r == *old(t) { unimplemented!() }
// TRUSTED: some value of the type (its Default).
#[verifier::external_body]
pub fn vx_default<T>() -> T { unimplemented!() }
#[verifier::external_body]
pub fn any_string() -> (r: String) { unimplemented!() }
// TRUSTED: String::from(String) and String::from(&str) keep the characters.
pub trait VxInto: Sized {
    spec fn chars(&self) -> Seq<char>;
    fn into(self) -> (r: String) ensures r@ == self.chars();
}
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r@ == self.schars(); spec fn schars(&self) -> Seq<char>; }
impl VxStr for str { open spec fn schars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: String) { String::from(self) } }
/// Relationship ids of the n-th header and footer part.
pub uninterp spec fn hdr_rid(n: int) -> Seq<char>;
pub uninterp spec fn ftr_rid(n: int) -> Seq<char>;
/// A reference of the given kind and the part it leads to, under one id.
pub open spec fn hdr_set(reference: Option<HeaderReference>, slot: Option<(String, Header)>, kind: Seq<char>, rid: Seq<char>, h: Header) -> bool {
    reference matches Some(x) && slot matches Some(y) && x.header_type@ == kind && x.id@ == rid && y.0@ == rid && y.1 == h
}
pub open spec fn ftr_set(reference: Option<FooterReference>, slot: Option<(String, Footer)>, kind: Seq<char>, rid: Seq<char>, h: Footer) -> bool {
    reference matches Some(x) && slot matches Some(y) && x.footer_type@ == kind && x.id@ == rid && y.0@ == rid && y.1 == h
}
/// Numbering one slot: a filled slot gets the next number and a reference of its kind to that number,
/// an empty slot gets no reference; the content stays.
pub open spec fn hdr_numbered(kind: Seq<char>, before: Option<(String, Header)>, after: Option<(String, Header)>, reference: Option<HeaderReference>, n: int, m: int) -> bool {
    match before {
        None => after is None && reference is None && m == n,
        Some(b) => m == n + 1 && hdr_set(reference, after, kind, hdr_rid(m), b.1),
    }
}
pub open spec fn ftr_numbered(kind: Seq<char>, before: Option<(String, Footer)>, after: Option<(String, Footer)>, reference: Option<FooterReference>, n: int, m: int) -> bool {
    match before {
        None => after is None && reference is None && m == n,
        Some(b) => m == n + 1 && ftr_set(reference, after, kind, ftr_rid(m), b.1),
    }
}
pub open spec fn one<T>(o: Option<T>) -> int { if o is Some { 1 } else { 0 } }
pub open spec fn n_hdrs(p: SectionProperty) -> int { one(p.header) + one(p.first_header) + one(p.even_header) }
pub open spec fn n_ftrs(p: SectionProperty) -> int { one(p.footer) + one(p.first_footer) + one(p.even_footer) }
/// All six slots of a section: default, first, even, in this order, starting after `h` headers and `f` footers.
pub open spec fn sect_numbered(a: SectionProperty, b: SectionProperty, h: int, f: int) -> bool {
    &&& hdr_numbered("default"@, a.header, b.header, b.header_reference, h, h + one(a.header))
    &&& hdr_numbered("first"@, a.first_header, b.first_header, b.first_header_reference, h + one(a.header), h + one(a.header) + one(a.first_header))
    &&& hdr_numbered("even"@, a.even_header, b.even_header, b.even_header_reference, h + one(a.header) + one(a.first_header), h + n_hdrs(a))
    &&& ftr_numbered("default"@, a.footer, b.footer, b.footer_reference, f, f + one(a.footer))
    &&& ftr_numbered("first"@, a.first_footer, b.first_footer, b.first_footer_reference, f + one(a.footer), f + one(a.footer) + one(a.first_footer))
    &&& ftr_numbered("even"@, a.even_footer, b.even_footer, b.even_footer_reference, f + one(a.footer) + one(a.first_footer), f + n_ftrs(a))
    &&& b == (SectionProperty {
        header_reference: b.header_reference, header: b.header, first_header_reference: b.first_header_reference, first_header: b.first_header,
        even_header_reference: b.even_header_reference, even_header: b.even_header, footer_reference: b.footer_reference, footer: b.footer,
        first_footer_reference: b.first_footer_reference, first_footer: b.first_footer, even_footer_reference: b.even_footer_reference, even_footer: b.even_footer, ..a })
}
/// Headers and footers of the first n children.
pub open spec fn kid_hdrs(c: Seq<DocumentChild>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { kid_hdrs(c, n - 1) + (match c[n - 1] { DocumentChild::Section(s) => n_hdrs(s.property), _ => 0 }) }
}
pub open spec fn kid_ftrs(c: Seq<DocumentChild>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { kid_ftrs(c, n - 1) + (match c[n - 1] { DocumentChild::Section(s) => n_ftrs(s.property), _ => 0 }) }
}
pub open spec fn kid_numbered(a: DocumentChild, b: DocumentChild, h: int, f: int) -> bool {
    match a {
        DocumentChild::Section(s) => b matches DocumentChild::Section(t) && sect_numbered(s.property, t.property, h, f) && *t == (Section { property: t.property, ..*s }),
        _ => b == a,
    }
}
/// What the six slots of a section hold, and its title-page switch.
pub ghost struct Slots { pub h: Option<Header>, pub fh: Option<Header>, pub eh: Option<Header>, pub f: Option<Footer>, pub ff: Option<Footer>, pub ef: Option<Footer>, pub t: bool }
pub open spec fn snd<A, B>(o: Option<(A, B)>) -> Option<B> { match o { Some(x) => Some(x.1), None => None } }
#[verifier::opaque]
pub open spec fn slots(p: SectionProperty) -> Slots {
    Slots { h: snd(p.header), fh: snd(p.first_header), eh: snd(p.even_header), f: snd(p.footer), ff: snd(p.first_footer), ef: snd(p.even_footer), t: p.title_pg }
}
/// Everything about a property except its slots.
#[verifier::opaque]
pub open spec fn det(b: bool) -> bool { b }
pub open spec fn temps(s: Section) -> (Option<Header>, Option<Header>, Option<Header>, Option<Footer>, Option<Footer>, Option<Footer>) {
    (s.temp_header, s.temp_first_header, s.temp_even_header, s.temp_footer, s.temp_first_footer, s.temp_even_footer)
}
pub open spec fn or<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
//@fn documents/header_id.rs::create_header_rid ext
//@| ensures r@ == hdr_rid(id as int),
//@end
//@fn documents/footer_id.rs::create_footer_rid ext
//@| ensures r@ == ftr_rid(id as int),
//@end
//@fn HeaderReference::new
//@| ensures r.header_type@ == t.chars(), r.id@ == id.chars(),
//@end
//@fn FooterReference::new
//@| ensures r.footer_type@ == t.chars(), r.id@ == id.chars(),
//@end
//@fn SectionProperty::header
//@| ensures det(hdr_set(r.header_reference, r.header, "default"@, rid@, h)),
//@|   det(r == (SectionProperty { header_reference: r.header_reference, header: r.header, ..self })),
//@|   slots(r) == (Slots { h: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::header
//@| ensures hdr_set(r.section_property.header_reference, r.section_property.header, "default"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { header_reference: r.section_property.header_reference, header: r.section_property.header, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::header
//@| ensures r == (Section { temp_header: Some(header), ..self }),
//@end
//@fn SectionProperty::first_header
//@| ensures det(hdr_set(r.first_header_reference, r.first_header, "first"@, rid@, h)),
//@|   det(r == (SectionProperty { first_header_reference: r.first_header_reference, first_header: r.first_header, title_pg: true, ..self })),
//@|   slots(r) == (Slots { fh: Some(h), t: true, ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn SectionProperty::first_header_without_title_pg
//@| ensures det(hdr_set(r.first_header_reference, r.first_header, "first"@, rid@, h)),
//@|   det(r == (SectionProperty { first_header_reference: r.first_header_reference, first_header: r.first_header, ..self })),
//@|   slots(r) == (Slots { fh: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::first_header
//@| ensures hdr_set(r.section_property.first_header_reference, r.section_property.first_header, "first"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { first_header_reference: r.section_property.first_header_reference, first_header: r.section_property.first_header, title_pg: true, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::first_header_without_title_pg
//@| ensures hdr_set(r.section_property.first_header_reference, r.section_property.first_header, "first"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { first_header_reference: r.section_property.first_header_reference, first_header: r.section_property.first_header, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::first_header
//@| ensures r == (Section { temp_first_header: Some(header), ..self }),
//@end
//@fn SectionProperty::even_header
//@| ensures det(hdr_set(r.even_header_reference, r.even_header, "even"@, rid@, h)),
//@|   det(r == (SectionProperty { even_header_reference: r.even_header_reference, even_header: r.even_header, ..self })),
//@|   slots(r) == (Slots { eh: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::even_header
//@| ensures hdr_set(r.section_property.even_header_reference, r.section_property.even_header, "even"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { even_header_reference: r.section_property.even_header_reference, even_header: r.section_property.even_header, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::even_header
//@| ensures r == (Section { temp_even_header: Some(header), ..self }),
//@end
//@fn SectionProperty::footer
//@| ensures det(ftr_set(r.footer_reference, r.footer, "default"@, rid@, h)),
//@|   det(r == (SectionProperty { footer_reference: r.footer_reference, footer: r.footer, ..self })),
//@|   slots(r) == (Slots { f: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::footer
//@| ensures ftr_set(r.section_property.footer_reference, r.section_property.footer, "default"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { footer_reference: r.section_property.footer_reference, footer: r.section_property.footer, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::footer
//@| ensures r == (Section { temp_footer: Some(footer), ..self }),
//@end
//@fn SectionProperty::first_footer
//@| ensures det(ftr_set(r.first_footer_reference, r.first_footer, "first"@, rid@, h)),
//@|   det(r == (SectionProperty { first_footer_reference: r.first_footer_reference, first_footer: r.first_footer, title_pg: true, ..self })),
//@|   slots(r) == (Slots { ff: Some(h), t: true, ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn SectionProperty::first_footer_without_title_pg
//@| ensures det(ftr_set(r.first_footer_reference, r.first_footer, "first"@, rid@, h)),
//@|   det(r == (SectionProperty { first_footer_reference: r.first_footer_reference, first_footer: r.first_footer, ..self })),
//@|   slots(r) == (Slots { ff: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::first_footer
//@| ensures ftr_set(r.section_property.first_footer_reference, r.section_property.first_footer, "first"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { first_footer_reference: r.section_property.first_footer_reference, first_footer: r.section_property.first_footer, title_pg: true, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::first_footer_without_title_pg
//@| ensures ftr_set(r.section_property.first_footer_reference, r.section_property.first_footer, "first"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { first_footer_reference: r.section_property.first_footer_reference, first_footer: r.section_property.first_footer, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::first_footer
//@| ensures r == (Section { temp_first_footer: Some(footer), ..self }),
//@end
//@fn SectionProperty::even_footer
//@| ensures det(ftr_set(r.even_footer_reference, r.even_footer, "even"@, rid@, h)),
//@|   det(r == (SectionProperty { even_footer_reference: r.even_footer_reference, even_footer: r.even_footer, ..self })),
//@|   slots(r) == (Slots { ef: Some(h), ..slots(self) }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Document::even_footer
//@| ensures ftr_set(r.section_property.even_footer_reference, r.section_property.even_footer, "even"@, rid@, h),
//@|   r == (Document { section_property: r.section_property, ..self }),
//@|   r.section_property == (SectionProperty { even_footer_reference: r.section_property.even_footer_reference, even_footer: r.section_property.even_footer, ..self.section_property }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Section::even_footer
//@| ensures r == (Section { temp_even_footer: Some(footer), ..self }),
//@end
//@fn SectionProperty::title_pg
//@| ensures r == (SectionProperty { title_pg: true, ..self }),
//@end
//@fn Document::title_pg
//@| ensures r == (Document { section_property: SectionProperty { title_pg: true, ..self.section_property }, ..self }),
//@end
//@fn Docx::title_pg
//@| ensures r == (Docx { document: Document { section_property: SectionProperty { title_pg: true, ..self.document.section_property }, ..self.document }, ..self }),
//@end
//@fn Settings::even_and_odd_headers
//@| ensures r == (Settings { even_and_odd_headers: true, ..self }),
//@end
//@fn ContentTypes::add_header ext
//@end
//@fn ContentTypes::add_footer ext
//@end
//@fn ContentTypes::set_header_and_footer_count ext
//@end
//@fn documents/elements/section_property.rs::number_header
//@| requires *old(count) < usize::MAX,
//@| ensures hdr_numbered(kind@, *old(header), *final(header), r, *old(count) as int, *final(count) as int),
//@end
//@fn documents/elements/section_property.rs::number_footer
//@| requires *old(count) < usize::MAX,
//@| ensures ftr_numbered(kind@, *old(footer), *final(footer), r, *old(count) as int, *final(count) as int),
//@end
//@fn SectionProperty::number_parts
//@| requires *old(headers) < usize::MAX - 3, *old(footers) < usize::MAX - 3,
//@| ensures sect_numbered(*old(self), *final(self), *old(headers) as int, *old(footers) as int),
//@|   *final(headers) == *old(headers) + n_hdrs(*old(self)), *final(footers) == *old(footers) + n_ftrs(*old(self)),
//@end
//@fn SectionProperty::clear_references
//@| ensures *final(self) == (SectionProperty { header_reference: None, first_header_reference: None, even_header_reference: None,
//@|   footer_reference: None, first_footer_reference: None, even_footer_reference: None, ..*old(self) }),
//@end
//@fn Document::add_section
//@| ensures r.children@ == self.children@.push(DocumentChild::Section(Box::new(sec))), r == (Document { children: r.children, ..self }),
//@end

//@fn Docx::attach_section_header
//@| requires old(self).document_rels.header_count < usize::MAX,
//@|   forall |p: SectionProperty, h: Header, s: &str| attach.requires((p, h, s)),
//@| ensures det(*final(section) == (Section { property: final(section).property, ..*old(section) })), temps(*final(section)) == temps(*old(section)),
//@|   exists |s: &str| s@ == hdr_rid(old(self).document_rels.header_count + 1) && attach.ensures((old(section).property, header, s), final(section).property),
//@|   final(self).settings == old(self).settings, final(self).document == old(self).document,
//@|   final(self).document_rels.header_count == old(self).document_rels.header_count + 1,
//@|   final(self).document_rels.footer_count == old(self).document_rels.footer_count,
//@sub `attach: fn(SectionProperty, Header, &str) -> SectionProperty` => `attach: impl Fn(SectionProperty, Header, &str) -> SectionProperty`
//@at start
//@| reveal(det);
//@end
//@fn Docx::attach_section_footer
//@| requires old(self).document_rels.footer_count < usize::MAX,
//@|   forall |p: SectionProperty, h: Footer, s: &str| attach.requires((p, h, s)),
//@| ensures det(*final(section) == (Section { property: final(section).property, ..*old(section) })), temps(*final(section)) == temps(*old(section)),
//@|   exists |s: &str| s@ == ftr_rid(old(self).document_rels.footer_count + 1) && attach.ensures((old(section).property, footer, s), final(section).property),
//@|   final(self).settings == old(self).settings, final(self).document == old(self).document,
//@|   final(self).document_rels.footer_count == old(self).document_rels.footer_count + 1,
//@|   final(self).document_rels.header_count == old(self).document_rels.header_count,
//@sub `attach: fn(SectionProperty, Footer, &str) -> SectionProperty` => `attach: impl Fn(SectionProperty, Footer, &str) -> SectionProperty`
//@at start
//@| reveal(det);
//@end
//@fn Docx::add_section
//@| requires self.document_rels.header_count < usize::MAX - 3, self.document_rels.footer_count < usize::MAX - 3,
//@| ensures r.document.children@.len() == self.document.children@.len() + 1,
//@|   r.document.children@.drop_last() == self.document.children@,
//@|   r.document == (Document { children: r.document.children, ..self.document }),
//@|   r.document.children@.last() is Section,
//@|   ({ let q = slots(s.property);
//@|     slots(r.document.children@.last()->Section_0.property) == (Slots { h: or(s.temp_header, q.h), fh: or(s.temp_first_header, q.fh), eh: or(s.temp_even_header, q.eh),
//@|       f: or(s.temp_footer, q.f), ff: or(s.temp_first_footer, q.ff), ef: or(s.temp_even_footer, q.ef), t: q.t || s.temp_first_header is Some || s.temp_first_footer is Some }) }),
//@|   r.settings == (Settings { even_and_odd_headers: self.settings.even_and_odd_headers || s.temp_even_header is Some || s.temp_even_footer is Some, ..self.settings }),
//@attr
//@| #[verifier::rlimit(40)]
//@end
//@fn Docx::header
//@| requires self.document_rels.header_count < usize::MAX,
//@| ensures hdr_set(r.document.section_property.header_reference, r.document.section_property.header, "default"@, hdr_rid(self.document_rels.header_count + 1), header),
//@|   r.document.section_property == (SectionProperty { header_reference: r.document.section_property.header_reference, header: r.document.section_property.header, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.footer_count == self.document_rels.footer_count,
//@|   r.settings == self.settings,
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Docx::first_header
//@| requires self.document_rels.header_count < usize::MAX,
//@| ensures hdr_set(r.document.section_property.first_header_reference, r.document.section_property.first_header, "first"@, hdr_rid(self.document_rels.header_count + 1), header),
//@|   r.document.section_property == (SectionProperty { first_header_reference: r.document.section_property.first_header_reference, first_header: r.document.section_property.first_header, title_pg: true, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.footer_count == self.document_rels.footer_count,
//@|   r.settings == self.settings,
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Docx::even_header
//@| requires self.document_rels.header_count < usize::MAX,
//@| ensures hdr_set(r.document.section_property.even_header_reference, r.document.section_property.even_header, "even"@, hdr_rid(self.document_rels.header_count + 1), header),
//@|   r.document.section_property == (SectionProperty { even_header_reference: r.document.section_property.even_header_reference, even_header: r.document.section_property.even_header, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.footer_count == self.document_rels.footer_count,
//@|   r.settings == (Settings { even_and_odd_headers: true, ..self.settings }),
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Docx::footer
//@| requires self.document_rels.footer_count < usize::MAX,
//@| ensures ftr_set(r.document.section_property.footer_reference, r.document.section_property.footer, "default"@, ftr_rid(self.document_rels.footer_count + 1), footer),
//@|   r.document.section_property == (SectionProperty { footer_reference: r.document.section_property.footer_reference, footer: r.document.section_property.footer, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.header_count == self.document_rels.header_count,
//@|   r.settings == self.settings,
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Docx::first_footer
//@| requires self.document_rels.footer_count < usize::MAX,
//@| ensures ftr_set(r.document.section_property.first_footer_reference, r.document.section_property.first_footer, "first"@, ftr_rid(self.document_rels.footer_count + 1), footer),
//@|   r.document.section_property == (SectionProperty { first_footer_reference: r.document.section_property.first_footer_reference, first_footer: r.document.section_property.first_footer, title_pg: true, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.header_count == self.document_rels.header_count,
//@|   r.settings == self.settings,
//@at start
//@| reveal(det); reveal(slots);
//@end
//@fn Docx::even_footer
//@| requires self.document_rels.footer_count < usize::MAX,
//@| ensures ftr_set(r.document.section_property.even_footer_reference, r.document.section_property.even_footer, "even"@, ftr_rid(self.document_rels.footer_count + 1), footer),
//@|   r.document.section_property == (SectionProperty { even_footer_reference: r.document.section_property.even_footer_reference, even_footer: r.document.section_property.even_footer, ..self.document.section_property }),
//@|   r.document == (Document { section_property: r.document.section_property, ..self.document }),
//@|   r.document_rels.header_count == self.document_rels.header_count,
//@|   r.settings == (Settings { even_and_odd_headers: true, ..self.settings }),
//@at start
//@| reveal(det); reveal(slots);
//@end
pub trait DocumentTreeVisitor { }
pub struct ReferenceCleaner;
impl DocumentTreeVisitor for ReferenceCleaner { }
/// Section properties are not handed to visitors.
pub open spec fn kept_section(a: DocumentChild, b: DocumentChild) -> bool {
    match a { DocumentChild::Section(s) => b matches DocumentChild::Section(t) && t.property == s.property, _ => !(b is Section) }
}
// Assumed here; the unit `tree` proves this contract for the same function.
//@fn documents/document_tree.rs::visit_document ext
//@| ensures *final(document) == (Document { children: final(document).children, ..*old(document) }), final(document).children@.len() == old(document).children@.len(),
//@|   forall |i: int| 0 <= i < old(document).children@.len() ==> kept_section(#[trigger] old(document).children@[i], final(document).children@[i]),
//@end
pub open spec fn kid_prop(a: DocumentChild, b: DocumentChild, h: int, f: int) -> bool {
    match a {
        DocumentChild::Section(s) => b matches DocumentChild::Section(t) && sect_numbered(s.property, t.property, h, f),
        _ => !(b is Section),
    }
}
proof fn lemma_few(c: Seq<DocumentChild>, n: int)
    requires 0 <= n <= c.len()
    ensures 0 <= kid_hdrs(c, n) <= 3 * n, 0 <= kid_ftrs(c, n) <= 3 * n
    decreases n
{ if n > 0 { lemma_few(c, n - 1); } }
//@fn Docx::number_headers_and_footers
//@| requires old(self).document.children@.len() < 0x1000_0000,
//@| ensures ({ let d = old(self).document; let e = final(self).document; let c = d.children@;
//@|   &&& sect_numbered(d.section_property, e.section_property, 0, 0)
//@|   &&& e.children@.len() == c.len()
//@|   &&& forall |i: int| 0 <= i < c.len() ==> kid_prop(#[trigger] c[i], e.children@[i], n_hdrs(d.section_property) + kid_hdrs(c, i), n_ftrs(d.section_property) + kid_ftrs(c, i))
//@|   &&& final(self).document_rels.header_count == n_hdrs(d.section_property) + kid_hdrs(c, c.len() as int)
//@|   &&& final(self).document_rels.footer_count == n_ftrs(d.section_property) + kid_ftrs(c, c.len() as int)
//@|   &&& final(self).settings == old(self).settings }),
//@at start
//@| let ghost d0 = self.document; let ghost c0 = self.document.children@; let ghost h0 = n_hdrs(d0.section_property); let ghost f0 = n_ftrs(d0.section_property);
//@| proof { lemma_few(c0, c0.len() as int); }
//@loop 0 iter=it
//@| invariant it.seq().len() == c0.len(), c0.len() < 0x1000_0000, 0 <= h0 <= 3, 0 <= f0 <= 3,
//@|   forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it.seq()[i]) == c0[i],
//@|   forall |i: int| 0 <= i < it.index@ ==> kid_numbered(c0[i], *final(#[trigger] it.seq()[i]), h0 + kid_hdrs(c0, i), f0 + kid_ftrs(c0, i)),
//@|   headers == h0 + kid_hdrs(c0, it.index@ as int), footers == f0 + kid_ftrs(c0, it.index@ as int),
//@loopstart 0
//@| proof { lemma_few(c0, it.index@ as int); lemma_few(c0, it.index@ as int + 1); }
//@before `visit_document(&mut self.document, &mut ReferenceCleaner);`
//@| let ghost e0 = self.document;
//@| assert(forall |i: int| 0 <= i < c0.len() ==> kid_numbered(c0[i], #[trigger] e0.children@[i], h0 + kid_hdrs(c0, i), f0 + kid_ftrs(c0, i)));
//@after `visit_document(&mut self.document, &mut ReferenceCleaner);`
//@| assert forall |i: int| 0 <= i < c0.len() implies kid_prop(#[trigger] c0[i], self.document.children@[i], h0 + kid_hdrs(c0, i), f0 + kid_ftrs(c0, i)) by {
//@|   assert(kept_section(e0.children@[i], self.document.children@[i])); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
