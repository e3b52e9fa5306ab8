//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include sd_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "sdt"@ { Some(XMLElement::StructuredDataTag) } else if n == "sdtPr"@ { Some(XMLElement::Unsupported) } else if n == "sdtContent"@ { Some(XMLElement::Unsupported) } else if n == "rPr"@ { Some(XMLElement::RunProperty) } else if n == "dataBinding"@ { Some(XMLElement::Unsupported) } else if n == "alias"@ { Some(XMLElement::Unsupported) } else if n == "bookmarkStart"@ { Some(XMLElement::BookmarkStart) } else if n == "bookmarkEnd"@ { Some(XMLElement::BookmarkEnd) } else if n == "r"@ { Some(XMLElement::Run) } else if n == "p"@ { Some(XMLElement::Paragraph) } else if n == "tbl"@ { Some(XMLElement::Table) } else { None } }
proof fn cks() ensures ck("sdt"@) == Some(XMLElement::StructuredDataTag), ck("sdtPr"@) == Some(XMLElement::Unsupported), ck("sdtContent"@) == Some(XMLElement::Unsupported), ck("rPr"@) == Some(XMLElement::RunProperty), ck("dataBinding"@) == Some(XMLElement::Unsupported), ck("alias"@) == Some(XMLElement::Unsupported), ck("bookmarkStart"@) == Some(XMLElement::BookmarkStart), ck("bookmarkEnd"@) == Some(XMLElement::BookmarkEnd), ck("r"@) == Some(XMLElement::Run), ck("p"@) == Some(XMLElement::Paragraph), ck("tbl"@) == Some(XMLElement::Table) { reveal(ck); reveal_strlit("sdt"); reveal_strlit("sdtPr"); reveal_strlit("sdtContent"); reveal_strlit("rPr"); reveal_strlit("dataBinding"); reveal_strlit("alias"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("p"); reveal_strlit("tbl"); assert("sdt"@[0] != "rPr"@[0]); assert("sdt"@[0] != "tbl"@[0]); assert("sdtPr"@[0] != "alias"@[0]); assert("rPr"@[0] != "tbl"@[0]); assert("dataBinding"@[0] != "bookmarkEnd"@[0]); assert("r"@[0] != "p"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("sdt"); reveal_strlit("sdtPr"); reveal_strlit("sdtContent"); reveal_strlit("rPr"); reveal_strlit("dataBinding"); reveal_strlit("alias"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("p"); reveal_strlit("tbl"); }
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <Run as ElementReader>::read ext r=out
//@| ensures nest_val::<Run>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Run, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Paragraph as ElementReader>::read ext r=out
//@| ensures nest_val::<Paragraph>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Paragraph, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Table as ElementReader>::read ext r=out
//@| ensures nest_val::<Table>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Table, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
// The tag inside a tag, as far as its place among the others goes.
impl StructuredDataTag { #[verifier::external_body] pub fn vx_nested<R: Read>(r: &mut EventReader<R>, attrs: &[OwnedAttribute]) -> (out: Result<Self, ReaderError>)
    ensures nest_val::<StructuredDataTag>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<StructuredDataTag, ReaderError>(x.0) && final(r).todo() == x.1) { unimplemented!() } }
//@fn RunProperty::new ext
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn CommentRangeStart::new ext
//@end
//@fn CommentRangeEnd::new ext
//@end
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below.
    pub broadcast axiom fn d_sdt() ensures (#[trigger] dflt::<StructuredDataTag>()).children@ == Seq::<StructuredDataTagChild>::empty();
}
//@fn <StructuredDataTagProperty as Default>::default r=out
//@end
//@fn StructuredDataTagProperty::new
//@end
//@fn <StructuredDataTag as Default>::default r=out
//@| ensures out.children@ == Seq::<StructuredDataTagChild>::empty(),
//@end
//@fn StructuredDataTag::new
//@| ensures r.children@ == Seq::<StructuredDataTagChild>::empty(),
//@at start
//@| broadcast use dfl::d_sdt;
//@end
//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
pub open spec fn ids_ok(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == "id"@ ==> parsed::<usize>(a[i].v) is Some }
pub open spec fn id_in(a: Seq<At>) -> Option<usize> { match last(a, "id"@) { Some(v) => parsed::<usize>(v), None => None } }
pub open spec fn bms_of(a: Seq<At>) -> Option<BookmarkStart> { match (id_in(a), last(a, "name"@)) { (Some(id), Some(n)) if ids_ok(a) => Some(BookmarkStart { id, name: strv(n) }), _ => None } }
pub open spec fn bme_of(a: Seq<At>) -> Option<BookmarkEnd> { match id_in(a) { Some(id) if ids_ok(a) => Some(BookmarkEnd { id }), _ => None } }
//@fn <BookmarkStart as ElementReader>::read r=out
//@| ensures bms_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkStart, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { reveal_strlit("id"); reveal_strlit("name"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), opt(name) == last(av(attrs@).take(it.index@ as int), "name"@), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("id"); reveal_strlit("name"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn <BookmarkEnd as ElementReader>::read r=out
//@| ensures bme_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkEnd, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end

// ---- what reading the tokens of a structured data tag gives; z: the attributes of the tag
pub open spec fn rd(t: Seq<Tok>, x: Seq<StructuredDataTagChild>, z: Seq<At>) -> Option<(Seq<StructuredDataTagChild>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), x.push(StructuredDataTagChild::BookmarkStart(b)), z), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), x.push(StructuredDataTagChild::BookmarkEnd(b)), z), None => None } }
            else if e.n == "r"@ { match nest_val::<Run>(z, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, x.push(StructuredDataTagChild::Run(Box::new(y.0))), z) } else { None }, None => None } }
            else if e.n == "p"@ { match nest_val::<Paragraph>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, x.push(StructuredDataTagChild::Paragraph(Box::new(y.0))), z) } else { None }, None => None } }
            else if e.n == "tbl"@ { match nest_val::<Table>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, x.push(StructuredDataTagChild::Table(Box::new(y.0))), z) } else { None }, None => None } }
            else if e.n == "sdt"@ { match nest_val::<StructuredDataTag>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, x.push(StructuredDataTagChild::StructuredDataTag(Box::new(y.0))), z) } else { None }, None => None } }
            else if e.n == "sdtPr"@ || e.n == "sdtContent"@ || e.n == "rPr"@ || e.n == "dataBinding"@ || e.n == "alias"@ { rd(t.skip(1), x, z) }
            else { None },
        Tok::Close(n) => if n == "sdt"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ || n == "sdtPr"@ || n == "sdtContent"@ || n == "rPr"@ || n == "dataBinding"@ || n == "alias"@ { rd(t.skip(1), x, z) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <StructuredDataTag as ElementReader>::read r=out
//@| ensures rd(old(r).todo(), Seq::empty(), av(attrs@)) matches Some(y) ==> (out matches Ok(z) && z.children@ == y.0) && final(r).todo() == y.1,
//@sub `StructuredDataTag::read(` => `StructuredDataTag::vx_nested(`
//@sub `usize::from_str(&id)` => `vx_parse::<usize>(&id)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd(r.todo(), Seq::empty(), av(attrs@)); assert(sdt.children@ =~= Seq::<StructuredDataTagChild>::empty());
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), Seq::empty(), av(attrs@)), vx_g is Some ==> rd(r.todo(), sdt.children@, av(attrs@)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures "sdt"@ != "sdtPr"@, "sdt"@ != "sdtContent"@, "sdt"@ != "rPr"@, "sdt"@ != "dataBinding"@, "sdt"@ != "alias"@, "sdt"@ != "bookmarkStart"@, "sdt"@ != "bookmarkEnd"@, "sdt"@ != "r"@, "sdt"@ != "p"@, "sdt"@ != "tbl"@, "sdtPr"@ != "sdtContent"@, "sdtPr"@ != "rPr"@, "sdtPr"@ != "dataBinding"@, "sdtPr"@ != "alias"@, "sdtPr"@ != "bookmarkStart"@, "sdtPr"@ != "bookmarkEnd"@, "sdtPr"@ != "r"@, "sdtPr"@ != "p"@, "sdtPr"@ != "tbl"@, "sdtContent"@ != "rPr"@, "sdtContent"@ != "dataBinding"@, "sdtContent"@ != "alias"@, "sdtContent"@ != "bookmarkStart"@, "sdtContent"@ != "bookmarkEnd"@, "sdtContent"@ != "r"@, "sdtContent"@ != "p"@, "sdtContent"@ != "tbl"@, "rPr"@ != "dataBinding"@, "rPr"@ != "alias"@, "rPr"@ != "bookmarkStart"@, "rPr"@ != "bookmarkEnd"@, "rPr"@ != "r"@, "rPr"@ != "p"@, "rPr"@ != "tbl"@, "dataBinding"@ != "alias"@, "dataBinding"@ != "bookmarkStart"@, "dataBinding"@ != "bookmarkEnd"@, "dataBinding"@ != "r"@, "dataBinding"@ != "p"@, "dataBinding"@ != "tbl"@, "alias"@ != "bookmarkStart"@, "alias"@ != "bookmarkEnd"@, "alias"@ != "r"@, "alias"@ != "p"@, "alias"@ != "tbl"@, "bookmarkStart"@ != "bookmarkEnd"@, "bookmarkStart"@ != "r"@, "bookmarkStart"@ != "p"@, "bookmarkStart"@ != "tbl"@, "bookmarkEnd"@ != "r"@, "bookmarkEnd"@ != "p"@, "bookmarkEnd"@ != "tbl"@, "r"@ != "p"@, "r"@ != "tbl"@, "p"@ != "tbl"@
{ reveal_strlit("sdt"); reveal_strlit("sdtPr"); reveal_strlit("sdtContent"); reveal_strlit("rPr"); reveal_strlit("dataBinding"); reveal_strlit("alias"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("p"); reveal_strlit("tbl"); assert("sdt"@[0] != "rPr"@[0]); assert("sdt"@[0] != "tbl"@[0]); assert("sdtPr"@[0] != "alias"@[0]); assert("rPr"@[0] != "tbl"@[0]); assert("dataBinding"@[0] != "bookmarkEnd"@[0]); assert("r"@[0] != "p"@[0]); }

// ---- the content read from what was written for a tag is the content that was written
/// What has its own content is written between its tags and read back (runs: theorem_run_content, paragraphs: theorem_paragraph_content, tables: theorem_table_content).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
pub open spec fn settled(c: StructuredDataTagChild) -> bool {
    match c {
        StructuredDataTagChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        StructuredDataTagChild::BookmarkEnd(b) => true,
        StructuredDataTagChild::Run(b) => bare(*b),
        StructuredDataTagChild::Paragraph(b) => lasting(*b, "p"@),
        StructuredDataTagChild::Table(b) => lasting(*b, "tbl"@),
        StructuredDataTagChild::StructuredDataTag(b) => lasting(*b, "sdt"@),
        _ => false,
    }
}
pub open spec fn toks(c: StructuredDataTagChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<StructuredDataTagChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<StructuredDataTagChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
/// A run is read without regard to its attributes; it is written without any.
pub open spec fn bare(v: Run) -> bool { exists |b: Seq<Tok>| #![trigger laid(v, "r"@, Seq::<At>::empty(), b)] laid(v, "r"@, Seq::<At>::empty(), b) }
proof fn lemma_bare(v: Run, rest: Seq<Tok>)
    requires bare(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n: "r"@, a: Seq::empty() }) && nest_val::<Run>(Seq::empty(), t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let b = choose |b: Seq<Tok>| #![trigger laid(v, "r"@, Seq::<At>::empty(), b)] laid(v, "r"@, Seq::<At>::empty(), b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![plain("r"@)] + (b + rest)); assert(t.skip(1) =~= b + rest);
}
proof fn lemma_bookmark_end(e: BookmarkEnd) ensures bme_of(bme_el(e).a) == Some(e)
{ broadcast use nums::usize_back; reveal_with_fuel(last, 3); assert(bme_el(e).a.last().v == shown(e.id)@); }
proof fn lemma_bookmark_start(s: BookmarkStart) requires seen(s.name@) == s.name@ ensures bms_of(bms_el(s).a) == Some(s)
{
    broadcast use nums::usize_back;
    reveal_strlit("id"); reveal_strlit("name"); reveal_with_fuel(last, 3);
    let z = Seq::<At>::empty(); let x = At { n: "id"@, v: seen(shown(s.id)@) }; let y = At { n: "name"@, v: seen(s.name@) };
    assert(z.push(x).push(y).drop_last() =~= z.push(x)); assert(bms_el(s).a =~= z.push(x).push(y));
}
proof fn lemma_kid(c: StructuredDataTagChild, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>)
    requires settled(c) ensures rd(toks(c) + rest, x, Seq::empty()) == rd(rest, x.push(c), Seq::empty())
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        StructuredDataTagChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        StructuredDataTagChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
        StructuredDataTagChild::Run(b) => { lemma_bare(*b, rest); }
        StructuredDataTagChild::Paragraph(b) => { let a = lemma_nest(*b, "p"@, rest); }
        StructuredDataTagChild::Table(b) => { let a = lemma_nest(*b, "tbl"@, rest); }
        StructuredDataTagChild::StructuredDataTag(b) => { let a = lemma_nest(*b, "sdt"@, rest); }
        _ => {}
    }
}
proof fn lemma_all(c: Seq<StructuredDataTagChild>, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x, Seq::empty()) == rd(rest, x + c, Seq::empty()) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x + c =~= x); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }
}
/// An element the reader of tags passes over.
pub open spec fn passed(e: El) -> bool { e.n == "sdtPr"@ || e.n == "sdtContent"@ || e.n == "rPr"@ || e.n == "dataBinding"@ || e.n == "alias"@ }
proof fn lemma_pass(e: El, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>) requires passed(e) ensures rd(one(Seq::empty(), e) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{ lits(); lemma_one(e, rest); reveal_with_fuel(rd, 3); }
proof fn lemma_tag(t: Tok, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>) requires (match t { Tok::Open(e) => passed(e), Tok::Close(n) => passed(El { n, a: Seq::empty() }), _ => false })
    ensures rd(seq![t] + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{ lits(); let s = seq![t] + rest; assert(s[0] == t); assert(s.skip(1) =~= rest); reveal_with_fuel(rd, 2); }
pub open spec fn r_el() -> El { El { n: "rPr"@, a: Seq::empty() } }
pub open spec fn bind_toks(d: Option<DataBinding>) -> Seq<Tok> { bind_onto(d, Seq::empty()) }
pub open spec fn alias_toks(d: Option<String>) -> Seq<Tok> { alias_onto(d, Seq::empty()) }
proof fn lemma_prop(p: StructuredDataTagProperty, h: Seq<Tok>) requires nest_toks(p.run_property) == one(Seq::empty(), r_el())
    ensures prop_onto(p, h) == h + (seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(p.data_binding) + (alias_toks(p.alias) + seq![Tok::Close("sdtPr"@)]))))
{
    let l0 = h.push(plain("sdtPr"@)) + nest_toks(p.run_property); let l1 = bind_onto(p.data_binding, l0); assert(l1 =~= l0 + bind_toks(p.data_binding));
    let l2 = alias_onto(p.alias, l1); assert(l2 =~= l1 + alias_toks(p.alias));
    assert(l2.push(Tok::Close("sdtPr"@)) =~= h + (seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(p.data_binding) + (alias_toks(p.alias) + seq![Tok::Close("sdtPr"@)])))));
}
proof fn lemma_bind(d: Option<DataBinding>, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>) ensures rd(bind_toks(d) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{ match d { Some(d) => { lemma_pass(bind_el(d), rest, x); } None => { assert(bind_toks(d) + rest =~= rest); } } }
proof fn lemma_alias(d: Option<String>, rest: Seq<Tok>, x: Seq<StructuredDataTagChild>) ensures rd(alias_toks(d) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{ match d { Some(d) => { lemma_pass(alias_el(d@), rest, x); } None => { assert(alias_toks(d) + rest =~= rest); } } }
pub open spec fn inner(x: StructuredDataTag, rest: Seq<Tok>) -> Seq<Tok> { seq![plain("sdtContent"@)] + (all_toks(x.children@) + (seq![Tok::Close("sdtContent"@)] + (seq![Tok::Close("sdt"@)] + rest))) }
proof fn lemma_inner(x: StructuredDataTag, rest: Seq<Tok>) requires forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures rd(inner(x, rest), Seq::empty(), Seq::empty()) == Some((x.children@, rest))
{
    lits(); let c = x.children@; let o = Seq::<StructuredDataTagChild>::empty(); let e = Tok::Close("sdt"@); let t3 = seq![e] + rest; let t2 = seq![Tok::Close("sdtContent"@)] + t3; let t1 = all_toks(c) + t2;
    lemma_tag(plain("sdtContent"@), t1, o); lemma_all(c, t2, o); assert(o + c =~= c); lemma_tag(Tok::Close("sdtContent"@), t3, c);
    assert(t3[0] == e); assert(t3.skip(1) =~= rest); assert(rd(t3, c, Seq::empty()) == Some((c, rest))) by { reveal_with_fuel(rd, 2); }
}
pub open spec fn outer(x: StructuredDataTag, rest: Seq<Tok>) -> Seq<Tok> { seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(x.property.data_binding) + (alias_toks(x.property.alias) + (seq![Tok::Close("sdtPr"@)] + inner(x, rest))))) }
/// Whatever follows the tag, reading what was written for it gives the same content in the same order.
proof fn theorem_tag_content(x: StructuredDataTag, log: Seq<Tok>, rest: Seq<Tok>)
    requires nest_toks(x.property.run_property) == one(Seq::empty(), r_el()), forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures sdt_onto(x, log) + rest == log.push(plain("sdt"@)) + outer(x, rest), rd(outer(x, rest), Seq::empty(), Seq::empty()) == Some((x.children@, rest))
{
    let h = log.push(plain("sdt"@)); let p = x.property; let o = Seq::<StructuredDataTagChild>::empty();
    lemma_prop(p, h); lemma_kids(x.children@, prop_onto(p, h).push(plain("sdtContent"@)));
    assert(sdt_onto(x, log) + rest =~= h + outer(x, rest));
    let t4 = inner(x, rest); let t3 = seq![Tok::Close("sdtPr"@)] + t4; let t2 = alias_toks(p.alias) + t3; let t1 = bind_toks(p.data_binding) + t2; let t0 = one(Seq::empty(), r_el()) + t1;
    lemma_tag(plain("sdtPr"@), t0, o); lemma_pass(r_el(), t1, o); lemma_bind(p.data_binding, t2, o); lemma_alias(p.alias, t3, o); lemma_tag(Tok::Close("sdtPr"@), t4, o); lemma_inner(x, rest);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
