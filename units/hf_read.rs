//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include hf_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
/// What is read from, as tokens.
pub trait Part { spec fn part(&self) -> Seq<Tok>; }
impl<R> Part for R { uninterp spec fn part(&self) -> Seq<Tok>; }
//@fn EventReader::new ext
//@| ensures r.todo() == reader.part(),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
//@|   old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "hdr"@ { Some(XMLElement::Unsupported) } else if n == "ftr"@ { Some(XMLElement::Unsupported) } else if n == "tc"@ { Some(XMLElement::TableCell) } else if n == "tcPr"@ { Some(XMLElement::TableCellProperty) } else if n == "p"@ { Some(XMLElement::Paragraph) } else if n == "tbl"@ { Some(XMLElement::Table) } else if n == "sdt"@ { Some(XMLElement::StructuredDataTag) } else { None } }
proof fn cks() ensures ck("hdr"@) == Some(XMLElement::Unsupported), ck("ftr"@) == Some(XMLElement::Unsupported), ck("tc"@) == Some(XMLElement::TableCell), ck("tcPr"@) == Some(XMLElement::TableCellProperty), ck("p"@) == Some(XMLElement::Paragraph), ck("tbl"@) == Some(XMLElement::Table), ck("sdt"@) == Some(XMLElement::StructuredDataTag) { reveal(ck); reveal_strlit("hdr"); reveal_strlit("ftr"); reveal_strlit("tc"); reveal_strlit("tcPr"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); assert("hdr"@[0] != "ftr"@[0]); assert("hdr"@[0] != "tbl"@[0]); assert("hdr"@[0] != "sdt"@[0]); assert("ftr"@[0] != "tbl"@[0]); assert("ftr"@[0] != "sdt"@[0]); assert("tbl"@[0] != "sdt"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("hdr"); reveal_strlit("ftr"); reveal_strlit("tc"); reveal_strlit("tcPr"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); }
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <Paragraph as ElementReader>::read ext r=out
//@| ensures nest_val::<Paragraph>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Paragraph, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Table as ElementReader>::read ext r=out
//@| ensures nest_val::<Table>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Table, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <StructuredDataTag as ElementReader>::read ext r=out
//@| ensures nest_val::<StructuredDataTag>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<StructuredDataTag, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <TableCellProperty as ElementReader>::read ext r=out
//@| ensures nest_val::<TableCellProperty>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<TableCellProperty, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
pub struct Cn<C, P> { pub c: Seq<C>, pub n: bool, pub p: P }
//@fn TableCellProperty::new ext
//@end
proof fn lits() ensures "hdr"@ != "ftr"@, "hdr"@ != "tc"@, "hdr"@ != "tcPr"@, "hdr"@ != "p"@, "hdr"@ != "tbl"@, "hdr"@ != "sdt"@, "ftr"@ != "tc"@, "ftr"@ != "tcPr"@, "ftr"@ != "p"@, "ftr"@ != "tbl"@, "ftr"@ != "sdt"@, "tc"@ != "tcPr"@, "tc"@ != "p"@, "tc"@ != "tbl"@, "tc"@ != "sdt"@, "tcPr"@ != "p"@, "tcPr"@ != "tbl"@, "tcPr"@ != "sdt"@, "p"@ != "tbl"@, "p"@ != "sdt"@, "tbl"@ != "sdt"@
{ reveal_strlit("hdr"); reveal_strlit("ftr"); reveal_strlit("tc"); reveal_strlit("tcPr"); reveal_strlit("p"); reveal_strlit("tbl"); reveal_strlit("sdt"); assert("hdr"@[0] != "ftr"@[0]); assert("hdr"@[0] != "tbl"@[0]); assert("hdr"@[0] != "sdt"@[0]); assert("ftr"@[0] != "tbl"@[0]); assert("ftr"@[0] != "sdt"@[0]); assert("tbl"@[0] != "sdt"@[0]); }
/// What has its own content is written between its tags and read back (paragraphs: theorem_paragraph_content, section formatting: theorem_section_formatting).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
// ---- Header
pub open spec fn v_Header(x: Header) -> Cn<HeaderChild, ()> { Cn { c: x.children@, n: x.has_numbering, p: () } }
pub open spec fn counts_Header(c: HeaderChild) -> bool { match c { HeaderChild::Paragraph(b) => b.has_numbering, HeaderChild::Table(b) => b.has_numbering, HeaderChild::StructuredDataTag(b) => b.has_numbering, } }
pub open spec fn add_Header(x: Cn<HeaderChild, ()>, c: HeaderChild) -> Cn<HeaderChild, ()> { Cn { c: x.c.push(c), n: x.n || counts_Header(c), ..x } }
// TRUSTED: what deriving a default gives.
impl Header { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.children@ == Seq::<HeaderChild>::empty(), !r.has_numbering { unimplemented!() } }
//@fn Header::add_paragraph
//@| ensures v_Header(r) == add_Header(v_Header(self), HeaderChild::Paragraph(Box::new(p))),
//@end
//@fn Header::add_table
//@| ensures v_Header(r) == add_Header(v_Header(self), HeaderChild::Table(Box::new(t))),
//@end
//@fn Header::add_structured_data_tag
//@| ensures v_Header(r) == add_Header(v_Header(self), HeaderChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn rd_Header(t: Seq<Tok>, x: Cn<HeaderChild, ()>) -> Option<Cn<HeaderChild, ()>> decreases t.len()
{
    if t.len() == 0 { Some(x) } else { match t[0] {
        Tok::Open(e) => if e.n == "hdr"@ { rd_Header(t.skip(1), x) }
            else if e.n == "p"@ { match nest_val::<Paragraph>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Header(y.1, add_Header(x, HeaderChild::Paragraph(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "tbl"@ { match nest_val::<Table>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Header(y.1, add_Header(x, HeaderChild::Table(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "sdt"@ { match nest_val::<StructuredDataTag>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Header(y.1, add_Header(x, HeaderChild::StructuredDataTag(Box::new(y.0)))) } else { None }, None => None } } else { None },
        Tok::Close(m) => rd_Header(t.skip(1), x),
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts_Header(x: Cn<HeaderChild, ()>) -> bool { x.c == Seq::<HeaderChild>::empty() && !x.n }
//@fn <Header as FromXML>::from_xml r=out
//@| ensures exists |x: Cn<HeaderChild, ()>| starts_Header(x) && (#[trigger] rd_Header(reader.part(), x) matches Some(y) ==> (out matches Ok(z) && v_Header(z) == y)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = v_Header(header); let ghost vx_g = rd_Header(parser.todo(), v_Header(header)); assert(starts_Header(vx_x));
//@loop 0
//@| invariant_except_break vx_g is Some ==> rd_Header(parser.todo(), v_Header(header)) == vx_g,
//@| invariant vx_g == rd_Header(reader.part(), vx_x), starts_Header(vx_x),
//@| ensures vx_g is Some ==> vx_g == Some(v_Header(header)),
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_Header, 2); }
//@end
pub open spec fn settled_Header(c: HeaderChild) -> bool { match c { HeaderChild::Paragraph(b) => lasting(*b, "p"@), HeaderChild::Table(b) => lasting(*b, "tbl"@), HeaderChild::StructuredDataTag(b) => lasting(*b, "sdt"@), } }
pub open spec fn any_Header(c: Seq<HeaderChild>) -> bool { exists |i: int| 0 <= i < c.len() && counts_Header(#[trigger] c[i]) }
pub open spec fn toks_Header(c: Seq<HeaderChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_Header(c[0], Seq::empty()) + toks_Header(c.skip(1)) } }
proof fn lemma_kids_Header(c: Seq<HeaderChild>, log: Seq<Tok>) ensures kids_Header(c, log) == log + toks_Header(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_Header(c) =~= log); } else {
        let k = kid_Header(c[0], Seq::empty()); assert(kid_Header(c[0], log) =~= log + k);
        lemma_kids_Header(c.skip(1), kid_Header(c[0], log));
        assert(log + k + toks_Header(c.skip(1)) =~= log + (k + toks_Header(c.skip(1))));
    }
}
proof fn lemma_all_Header(c: Seq<HeaderChild>, rest: Seq<Tok>, x: Cn<HeaderChild, ()>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_Header(#[trigger] c[i])
    ensures rd_Header(toks_Header(c) + rest, x) == rd_Header(rest, Cn { c: x.c + c, n: x.n || any_Header(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(toks_Header(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled_Header(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_Header(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_Header(c[0], Seq::empty()); let m = toks_Header(c.skip(1)) + rest; let s = toks_Header(c) + rest; assert(s =~= k + m);
        match c[0] {
            HeaderChild::Paragraph(b) => { let a = lemma_nest(*b, "p"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            HeaderChild::Table(b) => { let a = lemma_nest(*b, "tbl"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            HeaderChild::StructuredDataTag(b) => { let a = lemma_nest(*b, "sdt"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
        }
        assert(rd_Header(s, x) == rd_Header(m, add_Header(x, c[0]))) by { reveal_with_fuel(rd_Header, 2); }
        lemma_all_Header(c.skip(1), rest, add_Header(x, c[0]));
        assert(add_Header(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_Header(c) == (counts_Header(c[0]) || any_Header(c.skip(1)))) by {
            if any_Header(c) { let i = choose |i: int| 0 <= i < c.len() && counts_Header(#[trigger] c[i]); if i > 0 { assert(c.skip(1)[i - 1] == c[i]); } }
            if any_Header(c.skip(1)) { let i = choose |i: int| 0 <= i < c.skip(1).len() && counts_Header(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }
        }
    }
}
/// Reading the part written for a header gives the same content in the same order.
proof fn theorem_header_content(x: Header, a: Seq<At>, s: Cn<HeaderChild, ()>)
    requires x.has_numbering == any_Header(x.children@), starts_Header(s), forall |i: int| 0 <= i < x.children@.len() ==> settled_Header(#[trigger] x.children@[i])
    ensures rd_Header(onto_Header(x, Seq::empty(), a), s) == Some(v_Header(x))
{
    lits(); let c = x.children@; let z = Seq::<Tok>::empty(); let h = z.push(Tok::Open(El { n: "hdr"@, a })); let end = z.push(Tok::Close("hdr"@));
    lemma_kids_Header(c, h); let t = onto_Header(x, z, a); let m = toks_Header(c) + end; assert(t =~= h + m); assert(t[0] == h[0]); assert(t.skip(1) =~= m);
    assert(rd_Header(t, s) == rd_Header(m, s)) by { reveal_with_fuel(rd_Header, 2); }
    lemma_all_Header(c, end, s); assert(s.c + c =~= c); assert(end.skip(1) =~= z); reveal_with_fuel(rd_Header, 3);
}
// ---- Footer
pub open spec fn v_Footer(x: Footer) -> Cn<FooterChild, ()> { Cn { c: x.children@, n: x.has_numbering, p: () } }
pub open spec fn counts_Footer(c: FooterChild) -> bool { match c { FooterChild::Paragraph(b) => b.has_numbering, FooterChild::Table(b) => b.has_numbering, FooterChild::StructuredDataTag(b) => b.has_numbering, } }
pub open spec fn add_Footer(x: Cn<FooterChild, ()>, c: FooterChild) -> Cn<FooterChild, ()> { Cn { c: x.c.push(c), n: x.n || counts_Footer(c), ..x } }
// TRUSTED: what deriving a default gives.
impl Footer { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.children@ == Seq::<FooterChild>::empty(), !r.has_numbering { unimplemented!() } }
//@fn Footer::add_paragraph
//@| ensures v_Footer(r) == add_Footer(v_Footer(self), FooterChild::Paragraph(Box::new(p))),
//@end
//@fn Footer::add_table
//@| ensures v_Footer(r) == add_Footer(v_Footer(self), FooterChild::Table(Box::new(t))),
//@end
//@fn Footer::add_structured_data_tag
//@| ensures v_Footer(r) == add_Footer(v_Footer(self), FooterChild::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn rd_Footer(t: Seq<Tok>, x: Cn<FooterChild, ()>) -> Option<Cn<FooterChild, ()>> decreases t.len()
{
    if t.len() == 0 { Some(x) } else { match t[0] {
        Tok::Open(e) => if e.n == "ftr"@ { rd_Footer(t.skip(1), x) }
            else if e.n == "p"@ { match nest_val::<Paragraph>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Footer(y.1, add_Footer(x, FooterChild::Paragraph(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "tbl"@ { match nest_val::<Table>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Footer(y.1, add_Footer(x, FooterChild::Table(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "sdt"@ { match nest_val::<StructuredDataTag>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Footer(y.1, add_Footer(x, FooterChild::StructuredDataTag(Box::new(y.0)))) } else { None }, None => None } } else { None },
        Tok::Close(m) => rd_Footer(t.skip(1), x),
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts_Footer(x: Cn<FooterChild, ()>) -> bool { x.c == Seq::<FooterChild>::empty() && !x.n }
//@fn <Footer as FromXML>::from_xml r=out
//@| ensures exists |x: Cn<FooterChild, ()>| starts_Footer(x) && (#[trigger] rd_Footer(reader.part(), x) matches Some(y) ==> (out matches Ok(z) && v_Footer(z) == y)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = v_Footer(footer); let ghost vx_g = rd_Footer(parser.todo(), v_Footer(footer)); assert(starts_Footer(vx_x));
//@loop 0
//@| invariant_except_break vx_g is Some ==> rd_Footer(parser.todo(), v_Footer(footer)) == vx_g,
//@| invariant vx_g == rd_Footer(reader.part(), vx_x), starts_Footer(vx_x),
//@| ensures vx_g is Some ==> vx_g == Some(v_Footer(footer)),
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_Footer, 2); }
//@end
pub open spec fn settled_Footer(c: FooterChild) -> bool { match c { FooterChild::Paragraph(b) => lasting(*b, "p"@), FooterChild::Table(b) => lasting(*b, "tbl"@), FooterChild::StructuredDataTag(b) => lasting(*b, "sdt"@), } }
pub open spec fn any_Footer(c: Seq<FooterChild>) -> bool { exists |i: int| 0 <= i < c.len() && counts_Footer(#[trigger] c[i]) }
pub open spec fn toks_Footer(c: Seq<FooterChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_Footer(c[0], Seq::empty()) + toks_Footer(c.skip(1)) } }
proof fn lemma_kids_Footer(c: Seq<FooterChild>, log: Seq<Tok>) ensures kids_Footer(c, log) == log + toks_Footer(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_Footer(c) =~= log); } else {
        let k = kid_Footer(c[0], Seq::empty()); assert(kid_Footer(c[0], log) =~= log + k);
        lemma_kids_Footer(c.skip(1), kid_Footer(c[0], log));
        assert(log + k + toks_Footer(c.skip(1)) =~= log + (k + toks_Footer(c.skip(1))));
    }
}
proof fn lemma_all_Footer(c: Seq<FooterChild>, rest: Seq<Tok>, x: Cn<FooterChild, ()>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_Footer(#[trigger] c[i])
    ensures rd_Footer(toks_Footer(c) + rest, x) == rd_Footer(rest, Cn { c: x.c + c, n: x.n || any_Footer(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(toks_Footer(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled_Footer(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_Footer(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_Footer(c[0], Seq::empty()); let m = toks_Footer(c.skip(1)) + rest; let s = toks_Footer(c) + rest; assert(s =~= k + m);
        match c[0] {
            FooterChild::Paragraph(b) => { let a = lemma_nest(*b, "p"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            FooterChild::Table(b) => { let a = lemma_nest(*b, "tbl"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            FooterChild::StructuredDataTag(b) => { let a = lemma_nest(*b, "sdt"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
        }
        assert(rd_Footer(s, x) == rd_Footer(m, add_Footer(x, c[0]))) by { reveal_with_fuel(rd_Footer, 2); }
        lemma_all_Footer(c.skip(1), rest, add_Footer(x, c[0]));
        assert(add_Footer(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_Footer(c) == (counts_Footer(c[0]) || any_Footer(c.skip(1)))) by {
            if any_Footer(c) { let i = choose |i: int| 0 <= i < c.len() && counts_Footer(#[trigger] c[i]); if i > 0 { assert(c.skip(1)[i - 1] == c[i]); } }
            if any_Footer(c.skip(1)) { let i = choose |i: int| 0 <= i < c.skip(1).len() && counts_Footer(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }
        }
    }
}
/// Reading the part written for a footer gives the same content in the same order.
proof fn theorem_footer_content(x: Footer, a: Seq<At>, s: Cn<FooterChild, ()>)
    requires x.has_numbering == any_Footer(x.children@), starts_Footer(s), forall |i: int| 0 <= i < x.children@.len() ==> settled_Footer(#[trigger] x.children@[i])
    ensures rd_Footer(onto_Footer(x, Seq::empty(), a), s) == Some(v_Footer(x))
{
    lits(); let c = x.children@; let z = Seq::<Tok>::empty(); let h = z.push(Tok::Open(El { n: "ftr"@, a })); let end = z.push(Tok::Close("ftr"@));
    lemma_kids_Footer(c, h); let t = onto_Footer(x, z, a); let m = toks_Footer(c) + end; assert(t =~= h + m); assert(t[0] == h[0]); assert(t.skip(1) =~= m);
    assert(rd_Footer(t, s) == rd_Footer(m, s)) by { reveal_with_fuel(rd_Footer, 2); }
    lemma_all_Footer(c, end, s); assert(s.c + c =~= c); assert(end.skip(1) =~= z); reveal_with_fuel(rd_Footer, 3);
}
// ---- TableCell
pub open spec fn v_TableCell(x: TableCell) -> Cn<TableCellContent, TableCellProperty> { Cn { c: x.children@, n: x.has_numbering, p: x.property } }
pub open spec fn counts_TableCell(c: TableCellContent) -> bool { match c { TableCellContent::Paragraph(b) => b.has_numbering, TableCellContent::Table(b) => b.has_numbering, TableCellContent::StructuredDataTag(b) => false, _ => false } }
pub open spec fn add_TableCell(x: Cn<TableCellContent, TableCellProperty>, c: TableCellContent) -> Cn<TableCellContent, TableCellProperty> { Cn { c: x.c.push(c), n: x.n || counts_TableCell(c), ..x } }
//@fn <TableCell as Default>::default r=out
//@| ensures out.children@ == Seq::<TableCellContent>::empty(), !out.has_numbering,
//@end
//@fn TableCell::new
//@| ensures r.children@ == Seq::<TableCellContent>::empty(), !r.has_numbering,
//@sub `Default::default()` => `TableCell::default()`
//@end
//@fn TableCell::add_paragraph
//@| ensures v_TableCell(r) == add_TableCell(v_TableCell(self), TableCellContent::Paragraph(Box::new(p))),
//@end
//@fn TableCell::add_table
//@| ensures v_TableCell(r) == add_TableCell(v_TableCell(self), TableCellContent::Table(Box::new(t))),
//@end
//@fn TableCell::add_structured_data_tag
//@| ensures v_TableCell(r) == add_TableCell(v_TableCell(self), TableCellContent::StructuredDataTag(Box::new(t))),
//@end
pub open spec fn rd_TableCell(t: Seq<Tok>, x: Cn<TableCellContent, TableCellProperty>) -> Option<(Cn<TableCellContent, TableCellProperty>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "tcPr"@ { match nest_val::<TableCellProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_TableCell(y.1, Cn { p: y.0, ..x }) } else { None }, None => None } }
            else if e.n == "p"@ { match nest_val::<Paragraph>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_TableCell(y.1, add_TableCell(x, TableCellContent::Paragraph(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "tbl"@ { match nest_val::<Table>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_TableCell(y.1, add_TableCell(x, TableCellContent::Table(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "sdt"@ { match nest_val::<StructuredDataTag>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_TableCell(y.1, add_TableCell(x, TableCellContent::StructuredDataTag(Box::new(y.0)))) } else { None }, None => None } } else { None },
        Tok::Close(m) => if m == "tc"@ { Some((x, t.skip(1))) } else { None },
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts_TableCell(x: Cn<TableCellContent, TableCellProperty>) -> bool { x.c == Seq::<TableCellContent>::empty() && !x.n }
//@fn <TableCell as ElementReader>::read r=out
//@| ensures exists |x: Cn<TableCellContent, TableCellProperty>| starts_TableCell(x) && (#[trigger] rd_TableCell(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && v_TableCell(z) == y.0) && final(r).todo() == y.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = v_TableCell(cell); let ghost vx_g = rd_TableCell(r.todo(), v_TableCell(cell)); assert(starts_TableCell(vx_x));
//@loop 0
//@| invariant vx_g == rd_TableCell(old(r).todo(), vx_x), starts_TableCell(vx_x), vx_g is Some ==> rd_TableCell(r.todo(), v_TableCell(cell)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_TableCell, 2); }
//@end
pub open spec fn settled_TableCell(c: TableCellContent) -> bool { match c { TableCellContent::Paragraph(b) => lasting(*b, "p"@), TableCellContent::Table(b) => lasting(*b, "tbl"@), TableCellContent::StructuredDataTag(b) => lasting(*b, "sdt"@), _ => false } }
pub open spec fn any_TableCell(c: Seq<TableCellContent>) -> bool { exists |i: int| 0 <= i < c.len() && counts_TableCell(#[trigger] c[i]) }
pub open spec fn toks_TableCell(c: Seq<TableCellContent>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_TableCell(c[0], Seq::empty()) + toks_TableCell(c.skip(1)) } }
proof fn lemma_kids_TableCell(c: Seq<TableCellContent>, log: Seq<Tok>) ensures kids_TableCell(c, log) == log + toks_TableCell(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_TableCell(c) =~= log); } else {
        let k = kid_TableCell(c[0], Seq::empty()); assert(kid_TableCell(c[0], log) =~= log + k);
        lemma_kids_TableCell(c.skip(1), kid_TableCell(c[0], log));
        assert(log + k + toks_TableCell(c.skip(1)) =~= log + (k + toks_TableCell(c.skip(1))));
    }
}
proof fn lemma_all_TableCell(c: Seq<TableCellContent>, rest: Seq<Tok>, x: Cn<TableCellContent, TableCellProperty>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_TableCell(#[trigger] c[i])
    ensures rd_TableCell(toks_TableCell(c) + rest, x) == rd_TableCell(rest, Cn { c: x.c + c, n: x.n || any_TableCell(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(toks_TableCell(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled_TableCell(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_TableCell(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_TableCell(c[0], Seq::empty()); let m = toks_TableCell(c.skip(1)) + rest; let s = toks_TableCell(c) + rest; assert(s =~= k + m);
        match c[0] {
            TableCellContent::Paragraph(b) => { let a = lemma_nest(*b, "p"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            TableCellContent::Table(b) => { let a = lemma_nest(*b, "tbl"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            TableCellContent::StructuredDataTag(b) => { let a = lemma_nest(*b, "sdt"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            _ => {}
        }
        assert(rd_TableCell(s, x) == rd_TableCell(m, add_TableCell(x, c[0]))) by { reveal_with_fuel(rd_TableCell, 2); }
        lemma_all_TableCell(c.skip(1), rest, add_TableCell(x, c[0]));
        assert(add_TableCell(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_TableCell(c) == (counts_TableCell(c[0]) || any_TableCell(c.skip(1)))) by {
            if any_TableCell(c) { let i = choose |i: int| 0 <= i < c.len() && counts_TableCell(#[trigger] c[i]); if i > 0 { assert(c.skip(1)[i - 1] == c[i]); } }
            if any_TableCell(c.skip(1)) { let i = choose |i: int| 0 <= i < c.skip(1).len() && counts_TableCell(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }
        }
    }
}
/// Whatever follows the cell, reading what was written for it gives the same formatting and the same content in the same order.
proof fn theorem_cell_content(x: TableCell, log: Seq<Tok>, rest: Seq<Tok>, s: Cn<TableCellContent, TableCellProperty>)
    requires lasting(x.property, "tcPr"@), x.has_numbering == any_TableCell(x.children@), starts_TableCell(s), !pads(x.children@),
        forall |i: int| 0 <= i < x.children@.len() ==> settled_TableCell(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_TableCell(x, log) == log.push(Tok::Open(El { n: "tc"@, a: Seq::empty() })) + b && #[trigger] rd_TableCell(b + rest, s) == Some((v_TableCell(x), rest))
{
    lits(); let c = x.children@; let e = Tok::Close("tc"@); let h = log.push(Tok::Open(El { n: "tc"@, a: Seq::empty() })); let q = nest_toks(x.property);
    lemma_kids_TableCell(c, h + q); let b = (q + toks_TableCell(c)).push(e); assert(onto_TableCell(x, log) =~= h + b);
    let tail = Seq::<Tok>::empty().push(e) + rest; let m = toks_TableCell(c) + tail; assert(b + rest =~= Seq::<Tok>::empty() + q + m);
    let a = lemma_nest(x.property, "tcPr"@, m); let y = Cn { p: x.property, ..s };
    assert(rd_TableCell(b + rest, s) == rd_TableCell(m, y)) by { reveal_with_fuel(rd_TableCell, 2); }
    lemma_all_TableCell(c, tail, y); assert(s.c + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_TableCell(tail, v_TableCell(x)) == Some((v_TableCell(x), rest))) by { reveal_with_fuel(rd_TableCell, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
