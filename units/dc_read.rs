//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include dc_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
/// What is read from, as tokens.
pub trait Part { spec fn part(&self) -> Seq<Tok>; }
impl<R> Part for R { uninterp spec fn part(&self) -> Seq<Tok>; }
//@fn EventReader::new ext
//@| ensures r.todo() == reader.part(),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
//@|   old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "document"@ { Some(XMLElement::Unsupported) } else if n == "body"@ { Some(XMLElement::Body) } else if n == "p"@ { Some(XMLElement::Paragraph) } else if n == "tbl"@ { Some(XMLElement::Table) } else if n == "sdt"@ { Some(XMLElement::StructuredDataTag) } else if n == "bookmarkStart"@ { Some(XMLElement::BookmarkStart) } else if n == "bookmarkEnd"@ { Some(XMLElement::BookmarkEnd) } else if n == "sectPr"@ { Some(XMLElement::SectionProperty) } else { None } }
proof fn cks() ensures ck("document"@) == Some(XMLElement::Unsupported), ck("body"@) == Some(XMLElement::Body), ck("p"@) == Some(XMLElement::Paragraph), ck("tbl"@) == Some(XMLElement::Table), ck("sdt"@) == Some(XMLElement::StructuredDataTag), ck("bookmarkStart"@) == Some(XMLElement::BookmarkStart), ck("bookmarkEnd"@) == Some(XMLElement::BookmarkEnd), ck("sectPr"@) == Some(XMLElement::SectionProperty) { reveal(ck); reveal_strlit("document"); reveal_strlit("body"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("sectPr"); assert("tbl"@[0] != "sdt"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("document"); reveal_strlit("body"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("sectPr"); }
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <Paragraph as ElementReader>::read ext r=out
//@| ensures nest_val::<Paragraph>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Paragraph, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Table as ElementReader>::read ext r=out
//@| ensures nest_val::<Table>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Table, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <StructuredDataTag as ElementReader>::read ext r=out
//@| ensures nest_val::<StructuredDataTag>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<StructuredDataTag, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <SectionProperty as ElementReader>::read ext r=out
//@| ensures nest_val::<SectionProperty>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<SectionProperty, ReaderError>(x.0) && final(r).todo() == x.1),
//@end

pub struct Dn { pub c: Seq<DocumentChild>, pub s: SectionProperty, pub n: bool }
pub open spec fn dv(x: Document) -> Dn { Dn { c: x.children@, s: x.section_property, n: x.has_numbering } }
pub open spec fn add(x: Dn, c: DocumentChild) -> Dn { Dn { c: x.c.push(c), n: x.n || counts(c), ..x } }
/// Whether numbering is used in it.
pub open spec fn counts(c: DocumentChild) -> bool { match c { DocumentChild::Paragraph(p) => p.has_numbering, DocumentChild::Table(t) => t.has_numbering, DocumentChild::StructuredDataTag(t) => t.has_numbering, _ => false } }
//@fn SectionProperty::new ext
//@| ensures r == dflt::<SectionProperty>(),
//@end
//@fn <Document as Default>::default r=out
//@| ensures out.children@ == Seq::<DocumentChild>::empty(), !out.has_numbering,
//@end
//@fn Document::add_paragraph
//@| ensures dv(r) == add(dv(self), DocumentChild::Paragraph(Box::new(p))),
//@end
//@fn Document::add_table
//@| ensures dv(r) == add(dv(self), DocumentChild::Table(Box::new(t))),
//@end
//@fn Document::add_structured_data_tag
//@| ensures dv(r) == add(dv(self), DocumentChild::StructuredDataTag(Box::new(t))),
//@end
//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
//@fn Document::add_bookmark_start
//@| ensures dv(r) == add(dv(self), DocumentChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Document::add_bookmark_end
//@| ensures dv(r) == add(dv(self), DocumentChild::BookmarkEnd(BookmarkEnd { id })),
//@end
//@fn Document::default_section_property
//@| ensures dv(r) == (Dn { s: property, ..dv(self) }),
//@end
//@fn Comment::new ext
//@end
//@fn Document::add_comment_start ext
//@end
//@fn Document::add_comment_end ext
//@end
pub open spec fn ids_ok(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == "id"@ ==> parsed::<usize>(a[i].v) is Some }
pub open spec fn id_in(a: Seq<At>) -> Option<usize> { match last(a, "id"@) { Some(v) => parsed::<usize>(v), None => None } }
pub open spec fn bms_of(a: Seq<At>) -> Option<BookmarkStart> { match (id_in(a), last(a, "name"@)) { (Some(id), Some(n)) if ids_ok(a) => Some(BookmarkStart { id, name: strv(n) }), _ => None } }
pub open spec fn bme_of(a: Seq<At>) -> Option<BookmarkEnd> { match id_in(a) { Some(id) if ids_ok(a) => Some(BookmarkEnd { id }), _ => None } }
//@fn <BookmarkStart as ElementReader>::read r=out
//@| ensures bms_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkStart, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { reveal_strlit("id"); reveal_strlit("name"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), opt(name) == last(av(attrs@).take(it.index@ as int), "name"@), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("id"); reveal_strlit("name"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn <BookmarkEnd as ElementReader>::read r=out
//@| ensures bme_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkEnd, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end

// ---- what reading the tokens of a part gives
pub open spec fn rd(t: Seq<Tok>, x: Dn) -> Option<Dn> decreases t.len()
{
    if t.len() == 0 { Some(x) } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "document"@ || e.n == "body"@ { rd(t.skip(1), x) }
            else if e.n == "sectPr"@ { match nest_val::<SectionProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, Dn { s: y.0, ..x }) } else { None }, None => None } }
            else if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, DocumentChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, DocumentChild::BookmarkEnd(b))), None => None } }
            else if e.n == "p"@ { match nest_val::<Paragraph>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, DocumentChild::Paragraph(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "tbl"@ { match nest_val::<Table>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, DocumentChild::Table(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "sdt"@ { match nest_val::<StructuredDataTag>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, DocumentChild::StructuredDataTag(Box::new(y.0)))) } else { None }, None => None } }
            else { None },
        Tok::Close(n) => rd(t.skip(1), x),
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts(x: Dn) -> bool { x.c == Seq::<DocumentChild>::empty() && !x.n }
//@fn <Document as FromXML>::from_xml r=out
//@| ensures exists |x: Dn| starts(x) && (#[trigger] rd(reader.part(), x) matches Some(y) ==> (out matches Ok(z) && dv(z) == y)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = dv(doc); let ghost vx_g = rd(parser.todo(), dv(doc)); assert(starts(vx_x));
//@loop 0
//@| invariant_except_break vx_g is Some ==> rd(parser.todo(), dv(doc)) == vx_g,
//@| invariant vx_g == rd(reader.part(), vx_x), starts(vx_x),
//@| ensures vx_g is Some ==> vx_g == Some(dv(doc)),
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures "document"@ != "body"@, "document"@ != "p"@, "document"@ != "tbl"@, "document"@ != "sdt"@, "document"@ != "bookmarkStart"@, "document"@ != "bookmarkEnd"@, "document"@ != "sectPr"@, "body"@ != "p"@, "body"@ != "tbl"@, "body"@ != "sdt"@, "body"@ != "bookmarkStart"@, "body"@ != "bookmarkEnd"@, "body"@ != "sectPr"@, "p"@ != "tbl"@, "p"@ != "sdt"@, "p"@ != "bookmarkStart"@, "p"@ != "bookmarkEnd"@, "p"@ != "sectPr"@, "tbl"@ != "sdt"@, "tbl"@ != "bookmarkStart"@, "tbl"@ != "bookmarkEnd"@, "tbl"@ != "sectPr"@, "sdt"@ != "bookmarkStart"@, "sdt"@ != "bookmarkEnd"@, "sdt"@ != "sectPr"@, "bookmarkStart"@ != "bookmarkEnd"@, "bookmarkStart"@ != "sectPr"@, "bookmarkEnd"@ != "sectPr"@
{ reveal_strlit("document"); reveal_strlit("body"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("sectPr"); assert("tbl"@[0] != "sdt"@[0]); }

// ---- a document read from what was written for it is the document that was written
/// What has its own content is written between its tags and read back (paragraphs: theorem_paragraph_content, section formatting: theorem_section_formatting).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
pub open spec fn settled(c: DocumentChild) -> bool {
    match c {
        DocumentChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        DocumentChild::BookmarkEnd(b) => true,
        DocumentChild::Paragraph(b) => lasting(*b, "p"@),
        DocumentChild::Table(b) => lasting(*b, "tbl"@),
        DocumentChild::StructuredDataTag(b) => lasting(*b, "sdt"@),
        _ => false,
    }
}
pub open spec fn any_counts(c: Seq<DocumentChild>) -> bool { exists |i: int| 0 <= i < c.len() && counts(#[trigger] c[i]) }
pub open spec fn toks(c: DocumentChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<DocumentChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<DocumentChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_bookmark_end(e: BookmarkEnd) ensures bme_of(bme_el(e).a) == Some(e)
{ broadcast use nums::usize_back; reveal_with_fuel(last, 3); assert(bme_el(e).a.last().v == shown(e.id)@); }
proof fn lemma_bookmark_start(s: BookmarkStart) requires seen(s.name@) == s.name@ ensures bms_of(bms_el(s).a) == Some(s)
{
    broadcast use nums::usize_back;
    reveal_strlit("id"); reveal_strlit("name"); reveal_with_fuel(last, 3);
    let z = Seq::<At>::empty(); let x = At { n: "id"@, v: seen(shown(s.id)@) }; let y = At { n: "name"@, v: seen(s.name@) };
    assert(z.push(x).push(y).drop_last() =~= z.push(x)); assert(bms_el(s).a =~= z.push(x).push(y));
}
proof fn lemma_kid(c: DocumentChild, rest: Seq<Tok>, x: Dn)
    requires settled(c) ensures rd(toks(c) + rest, x) == rd(rest, add(x, c))
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        DocumentChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        DocumentChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
        DocumentChild::Paragraph(b) => { let a = lemma_nest(*b, "p"@, rest); }
        DocumentChild::Table(b) => { let a = lemma_nest(*b, "tbl"@, rest); }
        DocumentChild::StructuredDataTag(b) => { let a = lemma_nest(*b, "sdt"@, rest); }
        _ => {}
    }
}
proof fn lemma_all(c: Seq<DocumentChild>, rest: Seq<Tok>, x: Dn)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x) == rd(rest, Dn { c: x.c + c, n: x.n || any_counts(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_counts(c) == (counts(c[0]) || any_counts(c.skip(1)))) by {
            if any_counts(c) { let i = choose |i: int| 0 <= i < c.len() && counts(#[trigger] c[i]); if i > 0 { assert(c.skip(1)[i - 1] == c[i]); } }
            if any_counts(c.skip(1)) { let i = choose |i: int| 0 <= i < c.skip(1).len() && counts(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }
        }
    }
}
/// Reading the part written for a document gives the same content in the same order and the same section formatting.
proof fn theorem_document_content(x: Document, a: Seq<At>, s: Dn)
    requires lasting(x.section_property, "sectPr"@), x.has_numbering == any_counts(x.children@), starts(s),
        forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures rd(doc_onto(x, Seq::empty(), a), s) == Some(dv(x))
{
    lits(); let c = x.children@; let z = Seq::<Tok>::empty(); let h = z.push(Tok::Open(El { n: "document"@, a })).push(Tok::Open(body_el()));
    lemma_kids(c, h);
    let end = z.push(Tok::Close("body"@)).push(Tok::Close("document"@)); let tail = z + nest_toks(x.section_property) + end; let m = all_toks(c) + tail; let t = doc_onto(x, z, a);
    assert(t =~= h + m); assert(t[0] == h[0]); assert(t.skip(1)[0] == h[1]); assert(t.skip(1).skip(1) =~= m);
    assert(rd(t, s) == rd(m, s)) by { reveal_with_fuel(rd, 3); }
    lemma_all(c, tail, s);
    assert(s.c + c =~= c);
    let q = lemma_nest(x.section_property, "sectPr"@, end); let y = Dn { c, n: any_counts(c), ..s };
    assert(rd(tail, y) == rd(end, dv(x))) by { reveal_with_fuel(rd, 2); }
    assert(end.skip(1).skip(1) =~= z); reveal_with_fuel(rd, 4);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
