//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include li_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "hyperlink"@ { Some(XMLElement::Hyperlink) } else if n == "bookmarkStart"@ { Some(XMLElement::BookmarkStart) } else if n == "bookmarkEnd"@ { Some(XMLElement::BookmarkEnd) } else if n == "r"@ { Some(XMLElement::Run) } else if n == "ins"@ { Some(XMLElement::Insert) } else if n == "del"@ { Some(XMLElement::Delete) } else { None } }
proof fn cks() ensures ck("hyperlink"@) == Some(XMLElement::Hyperlink), ck("bookmarkStart"@) == Some(XMLElement::BookmarkStart), ck("bookmarkEnd"@) == Some(XMLElement::BookmarkEnd), ck("r"@) == Some(XMLElement::Run), ck("ins"@) == Some(XMLElement::Insert), ck("del"@) == Some(XMLElement::Delete) { reveal(ck); reveal_strlit("hyperlink"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); assert("ins"@[0] != "del"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("hyperlink"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); }
//@end
//@fn reader/ignore.rs::ignore_element ext
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <Run as ElementReader>::read ext r=out
//@| ensures nest_val::<Run>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Run, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Insert as ElementReader>::read ext r=out
//@| ensures nest_val::<Insert>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Insert, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Delete as ElementReader>::read ext r=out
//@| ensures nest_val::<Delete>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Delete, ReaderError>(x.0) && final(r).todo() == x.1),
//@end

pub struct Hv { pub l: HyperlinkData, pub h: Option<usize>, pub c: Seq<ParagraphChild> }
pub open spec fn hv(x: Hyperlink) -> Hv { Hv { l: x.link, h: x.history, c: x.children@ } }
pub open spec fn add(x: Hv, c: ParagraphChild) -> Hv { Hv { c: x.c.push(c), ..x } }
//@fn Hyperlink::add_run
//@| ensures hv(r) == add(hv(self), ParagraphChild::Run(Box::new(run))),
//@end
//@fn Hyperlink::add_insert
//@| ensures hv(r) == add(hv(self), ParagraphChild::Insert(insert)),
//@end
//@fn Hyperlink::add_delete
//@| ensures hv(r) == add(hv(self), ParagraphChild::Delete(delete)),
//@end
//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
//@fn Hyperlink::add_bookmark_start
//@| ensures hv(r) == add(hv(self), ParagraphChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Hyperlink::add_bookmark_end
//@| ensures hv(r) == add(hv(self), ParagraphChild::BookmarkEnd(BookmarkEnd { id })),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn Hyperlink::add_comment_start ext
//@end
//@fn Hyperlink::add_comment_end ext
//@end
pub open spec fn ids_ok(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == "id"@ ==> parsed::<usize>(a[i].v) is Some }
pub open spec fn id_in(a: Seq<At>) -> Option<usize> { match last(a, "id"@) { Some(v) => parsed::<usize>(v), None => None } }
pub open spec fn bms_of(a: Seq<At>) -> Option<BookmarkStart> { match (id_in(a), last(a, "name"@)) { (Some(id), Some(n)) if ids_ok(a) => Some(BookmarkStart { id, name: strv(n) }), _ => None } }
pub open spec fn bme_of(a: Seq<At>) -> Option<BookmarkEnd> { match id_in(a) { Some(id) if ids_ok(a) => Some(BookmarkEnd { id }), _ => None } }
//@fn <BookmarkStart as ElementReader>::read r=out
//@| ensures bms_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkStart, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { reveal_strlit("id"); reveal_strlit("name"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), opt(name) == last(av(attrs@).take(it.index@ as int), "name"@), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("id"); reveal_strlit("name"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn <BookmarkEnd as ElementReader>::read r=out
//@| ensures bme_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkEnd, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end

// ---- what reading the tokens of a hyperlink gives
pub open spec fn num_of(v: Seq<char>) -> usize { match parsed::<usize>(v) { Some(n) => n, None => 1 } }
pub open spec fn init(a: Seq<At>) -> Hv { Hv {
    l: match first(a, "anchor"@) { Some(v) => HyperlinkData::Anchor { anchor: strv(v) }, None => HyperlinkData::External { rid: match first(a, "id"@) { Some(v) => strv(v), None => strv(Seq::empty()) }, path: strv(Seq::empty()) } },
    h: match first(a, "history"@) { Some(v) => Some(num_of(v)), None => None }, c: Seq::empty() } }
pub open spec fn rd(t: Seq<Tok>, x: Hv) -> Option<(Hv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkEnd(b))), None => None } }
            else if e.n == "r"@ { match nest_val::<Run>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Run(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "ins"@ { match nest_val::<Insert>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Insert(y.0))) } else { None }, None => None } }
            else if e.n == "del"@ { match nest_val::<Delete>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, add(x, ParagraphChild::Delete(y.0))) } else { None }, None => None } }
            else { None },
        Tok::Close(n) => if n == "hyperlink"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ { rd(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
// TRUSTED: an absent text is taken as the empty text; so is the default text; an unreadable number as the one given.
#[verifier::external_body] fn vx_or_empty(s: Option<String>) -> (r: String) ensures r@ == (match s { Some(s) => s@, None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body] fn vx_or(s: Result<usize, VxNumErr>, n: usize) -> (r: usize) ensures r == (match s { Ok(s) => s, Err(_) => n }) { unimplemented!() }
#[verifier::external_body] fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
//@fn <Hyperlink as ElementReader>::read r=out
//@| ensures rd(old(r).todo(), init(av(attrs@))) matches Some(y) ==> (out matches Ok(z) && hv(z) == y.0) && final(r).todo() == y.1,
//@sub `rid.take().unwrap_or_default()` => `vx_or_empty(rid.take())`
//@sub `String::default()` => `vx_empty()`
//@sub `usize::from_str(&h).unwrap_or(1)` => `vx_or(vx_parse::<usize>(&h), 1)`
//@sub `usize::from_str(&id)` => `vx_parse::<usize>(&id)`
//@closure 0
//@| -> (o: usize) ensures o == num_of(h@)
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd(r.todo(), init(av(attrs@))); assert(hv(link) == init(av(attrs@)));
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), init(av(attrs@))), vx_g is Some ==> rd(r.todo(), hv(link)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures "hyperlink"@ != "bookmarkStart"@, "hyperlink"@ != "bookmarkEnd"@, "hyperlink"@ != "r"@, "hyperlink"@ != "ins"@, "hyperlink"@ != "del"@, "bookmarkStart"@ != "bookmarkEnd"@, "bookmarkStart"@ != "r"@, "bookmarkStart"@ != "ins"@, "bookmarkStart"@ != "del"@, "bookmarkEnd"@ != "r"@, "bookmarkEnd"@ != "ins"@, "bookmarkEnd"@ != "del"@, "r"@ != "ins"@, "r"@ != "del"@, "ins"@ != "del"@
{ reveal_strlit("hyperlink"); reveal_strlit("bookmarkStart"); reveal_strlit("bookmarkEnd"); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); assert("ins"@[0] != "del"@[0]); }

// ---- a hyperlink read from what was written for it is the hyperlink that was written
/// What has its own content is written between its tags and read back (runs: theorem_run_content, tracked changes: theorem_tracked_ins and _del).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
pub open spec fn settled(c: ParagraphChild) -> bool {
    match c {
        ParagraphChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        ParagraphChild::BookmarkEnd(b) => true,
        ParagraphChild::Run(b) => lasting(*b, "r"@),
        ParagraphChild::Insert(b) => lasting(b, "ins"@),
        ParagraphChild::Delete(b) => lasting(b, "del"@),
        _ => false,
    }
}
pub open spec fn toks(c: ParagraphChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<ParagraphChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<ParagraphChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_bookmark_end(e: BookmarkEnd) ensures bme_of(bme_el(e).a) == Some(e)
{ broadcast use nums::usize_back; reveal_with_fuel(last, 3); assert(bme_el(e).a.last().v == shown(e.id)@); }
proof fn lemma_bookmark_start(s: BookmarkStart) requires seen(s.name@) == s.name@ ensures bms_of(bms_el(s).a) == Some(s)
{
    broadcast use nums::usize_back;
    reveal_strlit("id"); reveal_strlit("name"); reveal_with_fuel(last, 3);
    let z = Seq::<At>::empty(); let x = At { n: "id"@, v: seen(shown(s.id)@) }; let y = At { n: "name"@, v: seen(s.name@) };
    assert(z.push(x).push(y).drop_last() =~= z.push(x)); assert(bms_el(s).a =~= z.push(x).push(y));
}
proof fn lemma_kid(c: ParagraphChild, rest: Seq<Tok>, x: Hv)
    requires settled(c) ensures rd(toks(c) + rest, x) == rd(rest, add(x, c))
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        ParagraphChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        ParagraphChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
        ParagraphChild::Run(b) => { let a = lemma_nest(*b, "r"@, rest); }
        ParagraphChild::Insert(b) => { let a = lemma_nest(b, "ins"@, rest); }
        ParagraphChild::Delete(b) => { let a = lemma_nest(b, "del"@, rest); }
        _ => {}
    }
}
proof fn lemma_all(c: Seq<ParagraphChild>, rest: Seq<Tok>, x: Hv)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x) == rd(rest, Hv { c: x.c + c, ..x }) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
    }
}
/// The target and the name of the relationship survive escaping and attribute reading.
pub open spec fn kept(l: HyperlinkData) -> bool { match l { HyperlinkData::Anchor { anchor } => seen(escaped(anchor@)) == anchor@, HyperlinkData::External { rid, .. } => seen(rid@) == rid@ } }
/// What is in the link's own element: the target lies in the relationships; history defaults to one.
pub open spec fn shows(x: Hyperlink) -> Hv { Hv { l: match x.link { HyperlinkData::Anchor { anchor } => x.link, HyperlinkData::External { rid, .. } => HyperlinkData::External { rid, path: strv(Seq::empty()) } }, h: Some(hist(x.history)), c: x.children@ } }
proof fn lemma_init(x: Hyperlink) requires kept(x.link) ensures init(link_el(x).a) == (Hv { c: Seq::empty(), ..shows(x) })
{
    broadcast use nums::usize_back; reveal_strlit("id"); reveal_strlit("anchor"); reveal_strlit("history"); reveal_with_fuel(first, 3);
    let n = hist(x.history); let a = link_el(x).a; let z = Seq::<At>::empty(); let k = At { n: "history"@, v: seen(shown(n)@) };
    assert(seen(shown_of(&n)@) == shown_of(&n)@); assert("id"@ != "anchor"@ && "id"@ != "history"@ && "anchor"@ != "history"@);
    match x.link {
        HyperlinkData::Anchor { anchor } => { let q = At { n: "anchor"@, v: seen(escaped(anchor@)) }; assert(a =~= z.push(q).push(k)); assert(a[0] == q); assert(a.skip(1)[0] == k); assert(a.skip(1).skip(1).len() == 0); assert(strv(anchor@) == anchor); }
        HyperlinkData::External { rid, .. } => { let q = At { n: "id"@, v: seen(rid@) }; assert(a =~= z.push(q).push(k)); assert(a[0] == q); assert(a.skip(1)[0] == k); assert(a.skip(1).skip(1).len() == 0); assert(strv(rid@) == rid); }
    }
}
/// Whatever follows the hyperlink, reading what was written for it gives the same target and content in the same order.
proof fn theorem_hyperlink_content(x: Hyperlink, log: Seq<Tok>, rest: Seq<Tok>)
    requires kept(x.link), forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| link_onto(x, log) == log.push(Tok::Open(link_el(x))) + b && #[trigger] rd(b + rest, init(link_el(x).a)) == Some((shows(x), rest))
{
    lits(); let c = x.children@; let e = Tok::Close("hyperlink"@); let b = all_toks(c).push(e); let h = log.push(Tok::Open(link_el(x)));
    lemma_kids(c, h); assert(link_onto(x, log) =~= h + b); lemma_init(x);
    let tail = seq![e] + rest; let s = init(link_el(x).a); assert(b + rest =~= all_toks(c) + tail);
    lemma_all(c, tail, s); assert(s.c + c =~= c);
    assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd(tail, shows(x)) == Some((shows(x), rest))) by { reveal_with_fuel(rd, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
