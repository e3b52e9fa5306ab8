//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include pc_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "p"@ { Some(XMLElement::Paragraph) } else if n == "pPr"@ { Some(XMLElement::ParagraphProperty) } else if n == "bookmarkStart"@ { Some(XMLElement::BookmarkStart) } else if n == "bookmarkEnd"@ { Some(XMLElement::BookmarkEnd) } else if n == "r"@ { Some(XMLElement::Run) } else if n == "ins"@ { Some(XMLElement::Insert) } else if n == "del"@ { Some(XMLElement::Delete) } else if n == "moveFrom"@ { Some(XMLElement::MoveFrom) } else if n == "moveTo"@ { Some(XMLElement::MoveTo) } else if n == "hyperlink"@ { Some(XMLElement::Hyperlink) } else { None } }
proof fn cks() ensures ck("p"@) == Some(XMLElement::Paragraph), ck("pPr"@) == Some(XMLElement::ParagraphProperty), ck("bookmarkStart"@) == Some(XMLElement::BookmarkStart), ck("bookmarkEnd"@) == Some(XMLElement::BookmarkEnd), ck("r"@) == Some(XMLElement::Run), ck("ins"@) == Some(XMLElement::Insert), ck("del"@) == Some(XMLElement::Delete), ck("moveFrom"@) == Some(XMLElement::MoveFrom), ck("moveTo"@) == Some(XMLElement::MoveTo), ck("hyperlink"@) == Some(XMLElement::Hyperlink) { reveal(ck); reveal_strlit("p"); reveal_strlit("pPr"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); reveal_strlit("hyperlink"); assert("p"@[0] != "r"@[0]); assert("pPr"@[0] != "ins"@[0]); assert("pPr"@[0] != "del"@[0]); assert("ins"@[0] != "del"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("p"); reveal_strlit("pPr"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); reveal_strlit("hyperlink"); }
//@end
#[verifier::external_body] pub struct NumberingProperty { x: u8 }
/// Of paragraph formatting only whether there is numbering matters here.
#[verifier::external_body] pub struct ParagraphProperty { x: u8 }
pub uninterp spec fn numbered(p: ParagraphProperty) -> bool;
#[verifier::external_body] pub fn vx_numbered(p: &ParagraphProperty) -> (r: bool) ensures r == numbered(*p) { unimplemented!() }
//@fn ParagraphProperty::new ext
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <Run as ElementReader>::read ext r=out
//@| ensures nest_val::<Run>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Run, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Insert as ElementReader>::read ext r=out
//@| ensures nest_val::<Insert>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Insert, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Delete as ElementReader>::read ext r=out
//@| ensures nest_val::<Delete>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Delete, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <MoveFrom as ElementReader>::read ext r=out
//@| ensures nest_val::<MoveFrom>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<MoveFrom, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <MoveTo as ElementReader>::read ext r=out
//@| ensures nest_val::<MoveTo>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<MoveTo, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Hyperlink as ElementReader>::read ext r=out
//@| ensures nest_val::<Hyperlink>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Hyperlink, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <ParagraphProperty as ElementReader>::read ext r=out
//@| ensures nest_val::<ParagraphProperty>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<ParagraphProperty, ReaderError>(x.0) && final(r).todo() == x.1),
//@end

pub struct Pn { pub id: String, pub p: ParagraphProperty, pub n: bool, pub c: Seq<ParagraphChild> }
pub open spec fn pv(x: Paragraph) -> Pn { Pn { id: x.id, p: x.property, n: x.has_numbering, c: x.children@ } }
pub open spec fn add(x: Pn, c: ParagraphChild) -> Pn { Pn { c: x.c.push(c), ..x } }
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below.
    pub broadcast axiom fn d_para() ensures (#[trigger] dflt::<Paragraph>()).children@ == Seq::<ParagraphChild>::empty(), !dflt::<Paragraph>().has_numbering;
}
//@fn documents/paragraph_id.rs::generate_para_id ext
//@end
//@fn <Paragraph as Default>::default r=out
//@| ensures out.children@ == Seq::<ParagraphChild>::empty(), !out.has_numbering,
//@end
//@fn Paragraph::new
//@| ensures r.children@ == Seq::<ParagraphChild>::empty(), !r.has_numbering,
//@at start
//@| broadcast use dfl::d_para;
//@end
//@fn Paragraph::id
//@| ensures pv(r) == (Pn { id: strv(id.chars()), ..pv(self) }),
//@end
//@fn Paragraph::add_run
//@| ensures pv(r) == add(pv(self), ParagraphChild::Run(Box::new(run))),
//@end
//@fn Paragraph::add_insert
//@| ensures pv(r) == add(pv(self), ParagraphChild::Insert(insert)),
//@end
//@fn Paragraph::add_delete
//@| ensures pv(r) == add(pv(self), ParagraphChild::Delete(delete)),
//@end
//@fn Paragraph::add_move_from
//@| ensures pv(r) == add(pv(self), ParagraphChild::MoveFrom(move_from)),
//@end
//@fn Paragraph::add_move_to
//@| ensures pv(r) == add(pv(self), ParagraphChild::MoveTo(move_to)),
//@end
//@fn Paragraph::add_hyperlink
//@| ensures pv(r) == add(pv(self), ParagraphChild::Hyperlink(link)),
//@end
//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
//@fn Paragraph::add_bookmark_start
//@| ensures pv(r) == add(pv(self), ParagraphChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Paragraph::add_bookmark_end
//@| ensures pv(r) == add(pv(self), ParagraphChild::BookmarkEnd(BookmarkEnd { id })),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn Paragraph::add_comment_start ext
//@end
//@fn Paragraph::add_comment_end ext
//@end
pub open spec fn ids_ok(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == "id"@ ==> parsed::<usize>(a[i].v) is Some }
pub open spec fn id_in(a: Seq<At>) -> Option<usize> { match last(a, "id"@) { Some(v) => parsed::<usize>(v), None => None } }
pub open spec fn bms_of(a: Seq<At>) -> Option<BookmarkStart> { match (id_in(a), last(a, "name"@)) { (Some(id), Some(n)) if ids_ok(a) => Some(BookmarkStart { id, name: strv(n) }), _ => None } }
pub open spec fn bme_of(a: Seq<At>) -> Option<BookmarkEnd> { match id_in(a) { Some(id) if ids_ok(a) => Some(BookmarkEnd { id }), _ => None } }
//@fn <BookmarkStart as ElementReader>::read r=out
//@| ensures bms_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkStart, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { reveal_strlit("id"); reveal_strlit("name"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), opt(name) == last(av(attrs@).take(it.index@ as int), "name"@), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("id"); reveal_strlit("name"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn <BookmarkEnd as ElementReader>::read r=out
//@| ensures bme_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkEnd, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end

// ---- what reading the tokens of a paragraph gives
pub open spec fn rd(t: Seq<Tok>, x: Pn) -> Option<(Pn, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "pPr"@ { match nest_val::<ParagraphProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, Pn { p: y.0, n: numbered(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkEnd(b))), None => None } }
            else if e.n == "r"@ { match nest_val::<Run>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Run(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "ins"@ { match nest_val::<Insert>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Insert(y.0))) } else { None }, None => None } }
            else if e.n == "del"@ { match nest_val::<Delete>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Delete(y.0))) } else { None }, None => None } }
            else if e.n == "moveFrom"@ { match nest_val::<MoveFrom>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::MoveFrom(y.0))) } else { None }, None => None } }
            else if e.n == "moveTo"@ { match nest_val::<MoveTo>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::MoveTo(y.0))) } else { None }, None => None } }
            else if e.n == "hyperlink"@ { match nest_val::<Hyperlink>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Hyperlink(y.0))) } else { None }, None => None } }
            else { None },
        Tok::Close(n) => if n == "p"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ { rd(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
/// A paragraph is read like one that starts with this, apart from its formatting.
pub open spec fn starts(x: Pn, a: Seq<At>) -> bool { x.c == Seq::<ParagraphChild>::empty() && !x.n && (first(a, "paraId"@) matches Some(v) ==> x.id == strv(v)) }
//@fn <Paragraph as ElementReader>::read r=out
//@| ensures exists |x: Pn| starts(x, av(attrs@)) && (#[trigger] rd(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && pv(z) == y.0) && final(r).todo() == y.1),
//@sub `pr.numbering_property.is_some()` => `vx_numbered(&pr)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = pv(p); let ghost vx_g = rd(r.todo(), pv(p)); assert(starts(vx_x, av(attrs@)));
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), vx_x), starts(vx_x, av(attrs@)), vx_g is Some ==> rd(r.todo(), pv(p)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures "p"@ != "pPr"@, "p"@ != "bookmarkStart"@, "p"@ != "bookmarkEnd"@, "p"@ != "r"@, "p"@ != "ins"@, "p"@ != "del"@, "p"@ != "moveFrom"@, "p"@ != "moveTo"@, "p"@ != "hyperlink"@, "pPr"@ != "bookmarkStart"@, "pPr"@ != "bookmarkEnd"@, "pPr"@ != "r"@, "pPr"@ != "ins"@, "pPr"@ != "del"@, "pPr"@ != "moveFrom"@, "pPr"@ != "moveTo"@, "pPr"@ != "hyperlink"@, "bookmarkStart"@ != "bookmarkEnd"@, "bookmarkStart"@ != "r"@, "bookmarkStart"@ != "ins"@, "bookmarkStart"@ != "del"@, "bookmarkStart"@ != "moveFrom"@, "bookmarkStart"@ != "moveTo"@, "bookmarkStart"@ != "hyperlink"@, "bookmarkEnd"@ != "r"@, "bookmarkEnd"@ != "ins"@, "bookmarkEnd"@ != "del"@, "bookmarkEnd"@ != "moveFrom"@, "bookmarkEnd"@ != "moveTo"@, "bookmarkEnd"@ != "hyperlink"@, "r"@ != "ins"@, "r"@ != "del"@, "r"@ != "moveFrom"@, "r"@ != "moveTo"@, "r"@ != "hyperlink"@, "ins"@ != "del"@, "ins"@ != "moveFrom"@, "ins"@ != "moveTo"@, "ins"@ != "hyperlink"@, "del"@ != "moveFrom"@, "del"@ != "moveTo"@, "del"@ != "hyperlink"@, "moveFrom"@ != "moveTo"@, "moveFrom"@ != "hyperlink"@, "moveTo"@ != "hyperlink"@
{ reveal_strlit("p"); reveal_strlit("pPr"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); reveal_strlit("hyperlink"); assert("p"@[0] != "r"@[0]); assert("pPr"@[0] != "ins"@[0]); assert("pPr"@[0] != "del"@[0]); assert("ins"@[0] != "del"@[0]); }

// ---- a paragraph read from what was written for it is the paragraph that was written
/// What has its own content is written between its tags and read back (runs: theorem_run_content, formatting: theorem_paragraph_formatting).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
pub open spec fn settled(c: ParagraphChild) -> bool {
    match c {
        ParagraphChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        ParagraphChild::BookmarkEnd(b) => true,
        ParagraphChild::Run(b) => lasting(*b, "r"@),
        ParagraphChild::Insert(b) => lasting(b, "ins"@),
        ParagraphChild::Delete(b) => lasting(b, "del"@),
        ParagraphChild::MoveFrom(b) => lasting(b, "moveFrom"@),
        ParagraphChild::MoveTo(b) => lasting(b, "moveTo"@),
        ParagraphChild::Hyperlink(b) => lasting(b, "hyperlink"@),
        _ => false,
    }
}
pub open spec fn toks(c: ParagraphChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<ParagraphChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<ParagraphChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_bookmark_end(e: BookmarkEnd) ensures bme_of(bme_el(e).a) == Some(e)
{ broadcast use nums::usize_back; reveal_with_fuel(last, 3); assert(bme_el(e).a.last().v == shown(e.id)@); }
proof fn lemma_bookmark_start(s: BookmarkStart) requires seen(s.name@) == s.name@ ensures bms_of(bms_el(s).a) == Some(s)
{
    broadcast use nums::usize_back;
    reveal_strlit("id"); reveal_strlit("name"); reveal_with_fuel(last, 3);
    let z = Seq::<At>::empty(); let x = At { n: "id"@, v: seen(shown(s.id)@) }; let y = At { n: "name"@, v: seen(s.name@) };
    assert(z.push(x).push(y).drop_last() =~= z.push(x)); assert(bms_el(s).a =~= z.push(x).push(y));
}
proof fn lemma_kid(c: ParagraphChild, rest: Seq<Tok>, x: Pn)
    requires settled(c) ensures rd(toks(c) + rest, x) == rd(rest, add(x, c))
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        ParagraphChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        ParagraphChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
        ParagraphChild::Run(b) => { let a = lemma_nest(*b, "r"@, rest); }
        ParagraphChild::Insert(b) => { let a = lemma_nest(b, "ins"@, rest); }
        ParagraphChild::Delete(b) => { let a = lemma_nest(b, "del"@, rest); }
        ParagraphChild::MoveFrom(b) => { let a = lemma_nest(b, "moveFrom"@, rest); }
        ParagraphChild::MoveTo(b) => { let a = lemma_nest(b, "moveTo"@, rest); }
        ParagraphChild::Hyperlink(b) => { let a = lemma_nest(b, "hyperlink"@, rest); }
        _ => {}
    }
}
proof fn lemma_all(c: Seq<ParagraphChild>, rest: Seq<Tok>, x: Pn)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x) == rd(rest, Pn { c: x.c + c, ..x }) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
    }
}
/// Whatever follows the paragraph, reading what was written for it gives the same identifier, formatting and content in the same order.
proof fn theorem_paragraph_content(x: Paragraph, log: Seq<Tok>, rest: Seq<Tok>, s: Pn)
    requires lasting(x.property, "pPr"@), x.has_numbering == numbered(x.property), seen(x.id@) == x.id@, starts(s, p_el(x).a),
        forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| para_onto(x, log) == log.push(Tok::Open(p_el(x))) + b && #[trigger] rd(b + rest, s) == Some((pv(x), rest))
{
    lits(); let c = x.children@; let e = Tok::Close("p"@); let b = (nest_toks(x.property) + all_toks(c)).push(e);
    lemma_kids(c, log.push(Tok::Open(p_el(x))) + nest_toks(x.property));
    assert(para_onto(x, log) =~= log.push(Tok::Open(p_el(x))) + b);
    let tail = seq![e] + rest; let m = all_toks(c) + tail; let t = b + rest;
    let a = lemma_nest(x.property, "pPr"@, m);
    assert(t =~= Seq::<Tok>::empty() + nest_toks(x.property) + m);
    let y = Pn { p: x.property, n: x.has_numbering, ..s };
    assert(rd(t, s) == rd(m, y)) by { reveal_with_fuel(rd, 2); }
    lemma_all(c, tail, y);
    assert(Seq::<ParagraphChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(s.id == x.id) by { let w = p_el(x).a; assert(w[0].n == "paraId"@); assert(first(w, "paraId"@) == Some(seen(x.id@))); }
    assert(rd(tail, pv(x)) == Some((pv(x), rest))) by { reveal_with_fuel(rd, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
