//@include prelude.rs
verus! {
//@include rd_pre.rs
//@gsub `.as_deref()` => `.vx_as_deref()`
//@include rx_spec.rs
//@include rn_spec.rs
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: comparing letters without regard to case: equal texts are the same, texts of different lengths are not.
pub uninterp spec fn same_letters(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn replaced<P>(a: Seq<char>, p: P, b: Seq<char>) -> Seq<char>;
/// A text without line feeds.
pub open spec fn without(a: Seq<char>) -> Seq<char> { replaced(a, '\n', ""@) }
pub uninterp spec fn ends(a: Seq<char>, b: Seq<char>) -> bool;
pub trait VxText { fn vx_same(&self, o: &str) -> (r: bool); fn vx_ends(&self, o: &str) -> (r: bool); fn vx_replace<P>(&self, p: P, o: &str) -> (r: String); }
impl VxText for str {
    #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) ensures r == same_letters(self@, o@), self@ == o@ ==> r, self@.len() != o@.len() ==> !r { unimplemented!() }
    #[verifier::external_body] fn vx_ends(&self, o: &str) -> (r: bool) ensures r == ends(self@, o@) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P>(&self, p: P, o: &str) -> (r: String) ensures r@ == replaced(self@, p, o@) { unimplemented!() }
}

broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown;
pub trait VxDeref { fn vx_as_deref(&self) -> (r: Option<&str>); }
impl VxDeref for Option<String> { #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) ensures (match (r, *self) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }) { unimplemented!() } }
pub enum ReaderError { XMLReadError, TypeError(TypeError), Unknown }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
//@item reader/run.rs::TextState
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// A text of white space only.
pub uninterp spec fn blank(s: Seq<char>) -> bool;
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == local(x.n) && av(attributes@) == x.a && (x.n.len() > 2 && x.n[0] == 'w' && x.n[1] == ':' ==> (name.prefix matches Some(p) && p@ == "w"@)),
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == local(n),
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t && !blank(t),
    (XmlEvent::Whitespace(s), Tok::Chars(t)) => s@ == t && blank(t),
    _ => false,
} }
// TRUSTED: the event reader gives out the tokens of the part, one by one; texts are not empty (its own code: unit reader).
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 && !(old(self).todo()[0] matches Tok::Chars(s) && s.len() == 0) ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

// TRUSTED here, proved in the codec unit: the name a value prints as is read as that value (hypotheses of the theorem).
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
//@fn <BreakType as FromStr>::from_str ext
//@| ensures (match (r, named::<BreakType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <FieldCharType as FromStr>::from_str ext
//@| ensures (match (r, named::<FieldCharType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TabLeaderType as FromStr>::from_str ext
//@| ensures (match (r, named::<TabLeaderType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <PositionalTabAlignmentType as FromStr>::from_str ext
//@| ensures (match (r, named::<PositionalTabAlignmentType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <PositionalTabRelativeTo as FromStr>::from_str ext
//@| ensures (match (r, named::<PositionalTabRelativeTo>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub open spec fn is_no(v: Seq<char>) -> bool { v == "0"@ || same_letters(v, "false"@) || same_letters(v, "off"@) }
//@fn reader/attributes/bool_value.rs::is_false
//@| ensures r == is_no(v@), v@ == "false"@ ==> r, v@ == "true"@ ==> !r,
//@at start
//@| proof { reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("true"); }
//@end
//@fn reader/ignore.rs::ignore_element
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@loop 0
//@| invariant el == ignore,
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "t"@ { Some(XMLElement::Text) } else if n == "delText"@ { Some(XMLElement::DeleteText) } else if n == "tab"@ { Some(XMLElement::Tab) } else if n == "ptab"@ { Some(XMLElement::PTab) } else if n == "sym"@ { Some(XMLElement::Sym) } else if n == "br"@ { Some(XMLElement::Break) } else if n == "cr"@ { Some(XMLElement::CarriageReturn) } else if n == "fldChar"@ { Some(XMLElement::FieldChar) } else if n == "instrText"@ { Some(XMLElement::InstrText) } else if n == "r"@ { Some(XMLElement::Run) } else if n == "rPr"@ { Some(XMLElement::RunProperty) } else { None } }
proof fn cks() ensures ck("t"@) == Some(XMLElement::Text), ck("delText"@) == Some(XMLElement::DeleteText), ck("tab"@) == Some(XMLElement::Tab), ck("ptab"@) == Some(XMLElement::PTab), ck("sym"@) == Some(XMLElement::Sym), ck("br"@) == Some(XMLElement::Break), ck("cr"@) == Some(XMLElement::CarriageReturn), ck("fldChar"@) == Some(XMLElement::FieldChar), ck("instrText"@) == Some(XMLElement::InstrText), ck("r"@) == Some(XMLElement::Run), ck("rPr"@) == Some(XMLElement::RunProperty) { reveal(ck); reveal_strlit("t"); reveal_strlit("delText"); reveal_strlit("tab"); reveal_strlit("ptab"); reveal_strlit("sym"); reveal_strlit("br"); reveal_strlit("cr"); reveal_strlit("fldChar"); reveal_strlit("instrText"); reveal_strlit("r"); reveal_strlit("rPr"); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("t"); reveal_strlit("delText"); reveal_strlit("tab"); reveal_strlit("ptab"); reveal_strlit("sym"); reveal_strlit("br"); reveal_strlit("cr"); reveal_strlit("fldChar"); reveal_strlit("instrText"); reveal_strlit("r"); reveal_strlit("rPr"); }
//@end
//@fn <McXMLElement as FromStr>::from_str ext
//@| ensures r is Ok,
//@end
//@fn <VXMLElement as FromStr>::from_str ext
//@| ensures r is Ok,
//@end
#[verifier::external_body] pub struct McFallback { x: u8 }
//@fn <Drawing as ElementReader>::read ext r=out
//@end
//@fn <Shape as ElementReader>::read ext r=out
//@end
//@fn <McFallback as ElementReader>::read ext r=out
//@end
/// What reading run formatting gives (unit rb_read).
pub uninterp spec fn rp_val(t: Seq<Tok>) -> Option<(RunProperty, Seq<Tok>)>;
//@fn <RunProperty as ElementReader>::read ext r=out
//@| ensures rp_val(old(r).todo()) matches Some(x) ==> (out == Ok::<RunProperty, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn RunProperty::new ext
//@| ensures r == dflt::<RunProperty>(),
//@end
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below; a derived default leaves options absent.
    pub broadcast axiom fn d_run() ensures rv(#[trigger] dflt::<Run>()) == run0();
    pub broadcast axiom fn d_tab() ensures #[trigger] dflt::<Tab>() == tab0();
}
pub open spec fn run0() -> Rn { Rn { p: dflt::<RunProperty>(), c: Seq::empty() } }
pub open spec fn tab0() -> Tab { Tab { val: None, leader: None, pos: None } }
//@fn <Run as Default>::default r=out
//@| ensures rv(out) == run0(),
//@end
//@fn Run::new
//@| ensures rv(r) == run0(),
//@at start
//@| broadcast use dfl::d_run;
//@end
//@fn Tab::new
//@| ensures r == tab0(),
//@at start
//@| broadcast use dfl::d_tab;
//@end
//@fn Break::new
//@| ensures r == brk(t),
//@end
pub closed spec fn brk(t: BreakType) -> Break { Break { break_type: t } }
//@fn CarriageReturn::new
//@end
//@fn FieldChar::new
//@| ensures r == (FieldChar { field_char_type: t, dirty: false }),
//@end
//@fn FieldChar::dirty
//@| ensures r == (FieldChar { dirty: true, ..self }),
//@end
//@fn Sym::new
//@| ensures r == (Sym { font: strv(font.chars()), char: strv(char.chars()) }),
//@end
//@fn Text::without_escape
//@| ensures r == (Text { text: strv(text.chars()), preserve_space: true }),
//@end
//@fn DeleteText::without_escape
//@| ensures r == gone(text.chars()),
//@end
pub closed spec fn gone(s: Seq<char>) -> DeleteText { DeleteText { text: strv(s), preserve_space: true } }
pub struct Rn { pub p: RunProperty, pub c: Seq<RunChild> }
pub open spec fn rv(x: Run) -> Rn { Rn { p: x.run_property, c: x.children@ } }
pub open spec fn add(x: Rn, c: RunChild) -> Rn { Rn { c: x.c.push(c), ..x } }
pub open spec fn said(s: Seq<char>) -> RunChild { RunChild::Text(Text { text: strv(s), preserve_space: true }) }
pub uninterp spec fn decoded(s: Seq<char>) -> Seq<char>;
//@fn escape/mod.rs::replace_escaped ext
//@| ensures r@ == decoded(text@),
//@end
//@fn Run::add_text_without_escape
//@| ensures rv(r) == add(rv(self), said(without(text.chars()))),
//@end
//@fn Run::add_delete_text_without_escape
//@| ensures rv(r) == add(rv(self), RunChild::DeleteText(gone(without(text.chars())))),
//@end
//@fn Run::add_tab
//@| ensures rv(r) == add(rv(self), RunChild::Tab(tab0())),
//@end
//@fn Run::add_ptab
//@| ensures rv(r) == add(rv(self), RunChild::PTab(ptab)),
//@end
//@fn Run::add_drawing ext
//@end
//@fn Run::add_break
//@| ensures rv(r) == add(rv(self), RunChild::Break(brk(break_type))),
//@end
pub open spec fn cr0() -> CarriageReturn { CarriageReturn {} }
//@fn Run::add_carriage_return
//@| ensures rv(r) == add(rv(self), RunChild::CarriageReturn(cr0())),
//@end
//@fn Run::add_sym
//@| ensures rv(r) == add(rv(self), RunChild::Sym(sym)),
//@end
//@fn Run::set_property
//@| ensures rv(r) == (Rn { p, ..rv(self) }),
//@end
//@fn <PositionalTab as Default>::default r=out
//@| ensures out == ptab0(),
//@end
pub open spec fn ptab0() -> PositionalTab { PositionalTab { alignment: PositionalTabAlignmentType::Left, relative_to: PositionalTabRelativeTo::Margin, leader: TabLeaderType::None } }
//@fn PositionalTab::alignment
//@| ensures r == (PositionalTab { alignment, ..self }),
//@end
//@fn PositionalTab::relative_to
//@| ensures r == (PositionalTab { relative_to, ..self }),
//@end
//@fn PositionalTab::leader
//@| ensures r == (PositionalTab { leader, ..self }),
//@end
/// The first attribute with a name whose value names a T.
pub open spec fn firstn<T>(s: Seq<At>, n: Seq<char>) -> Option<T> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n && named::<T>(s[0].v) is Some { named::<T>(s[0].v) } else { firstn(s.skip(1), n) } }
//@fn reader/positional_tab.rs::read_leader
//@| ensures (match (r, firstn::<TabLeaderType>(av(attributes@), "leader"@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant firstn::<TabLeaderType>(av(attributes@).skip(it.index@ as int), "leader"@) == firstn::<TabLeaderType>(av(attributes@), "leader"@),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.skip(it.index@ as int).skip(1) =~= s.skip(it.index@ + 1)); assert(s.skip(it.index@ as int)[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attributes@).skip(attributes@.len() as int).len() == 0); }
//@end
//@fn reader/positional_tab.rs::read_alignment
//@| ensures (match (r, firstn::<PositionalTabAlignmentType>(av(attributes@), "alignment"@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant firstn::<PositionalTabAlignmentType>(av(attributes@).skip(it.index@ as int), "alignment"@) == firstn::<PositionalTabAlignmentType>(av(attributes@), "alignment"@),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.skip(it.index@ as int).skip(1) =~= s.skip(it.index@ + 1)); assert(s.skip(it.index@ as int)[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attributes@).skip(attributes@.len() as int).len() == 0); }
//@end
//@fn reader/positional_tab.rs::read_relative_to
//@| ensures (match (r, firstn::<PositionalTabRelativeTo>(av(attributes@), "relativeTo"@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }
//@loop 0 iter=it
//@| invariant firstn::<PositionalTabRelativeTo>(av(attributes@).skip(it.index@ as int), "relativeTo"@) == firstn::<PositionalTabRelativeTo>(av(attributes@), "relativeTo"@),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.skip(it.index@ as int).skip(1) =~= s.skip(it.index@ + 1)); assert(s.skip(it.index@ as int)[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attributes@).skip(attributes@.len() as int).len() == 0); }
//@end

pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(v) => v, None => d } }
pub open spec fn ptab_of(a: Seq<At>) -> PositionalTab { PositionalTab { alignment: or(firstn(a, "alignment"@), ptab0().alignment), relative_to: or(firstn(a, "relativeTo"@), ptab0().relative_to), leader: or(firstn(a, "leader"@), ptab0().leader) } }
pub open spec fn at_end(t: Seq<Tok>, n: Seq<char>) -> bool { t.len() > 0 && t[0] == Tok::Close(n) }
//@fn <PositionalTab as ElementReader>::read r=out
//@| ensures at_end(old(r).todo(), "w:ptab"@) ==> out == Ok::<PositionalTab, ReaderError>(ptab_of(av(attrs@))) && final(r).todo() == old(r).todo().skip(1),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@loop 0
//@| invariant at_end(old(r).todo(), "w:ptab"@) ==> r.todo() == old(r).todo(), tab == ptab_of(av(attrs@)),
//@loopstart 0
//@| proof { names(); cks(); }
//@end
pub open spec fn fld_t(a: Seq<At>) -> Option<FieldCharType> decreases a.len()
{ if a.len() == 0 { None } else if a.last().n == "fldCharType"@ && named::<FieldCharType>(a.last().v) is Some { named::<FieldCharType>(a.last().v) } else { fld_t(a.drop_last()) } }
pub open spec fn fld_d(a: Seq<At>) -> bool decreases a.len()
{ if a.len() == 0 { false } else if a.last().n == "dirty"@ { !is_no(a.last().v) } else { fld_d(a.drop_last()) } }
pub open spec fn fld_of(a: Seq<At>) -> Option<FieldChar> { match fld_t(a) { Some(t) => Some(FieldChar { field_char_type: t, dirty: fld_d(a) }), None => None } }
//@fn reader/run.rs::read_field_char autostr
//@| ensures (match (r, fld_of(av(attributes@))) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { reveal_strlit("fldCharType"); reveal_strlit("dirty"); assert(av(attributes@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant t == fld_t(av(attributes@).take(it.index@ as int)), dirty == fld_d(av(attributes@).take(it.index@ as int)),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("fldCharType"); reveal_strlit("dirty"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end

// ---- what reading the tokens of a run gives
pub open spec fn deed(st: TextState, s: Seq<char>, x: Rn) -> Rn { match st { TextState::Text => add(x, said(without(decoded(s)))), TextState::Delete => add(x, RunChild::DeleteText(gone(without(decoded(s))))), _ => x } }
/// A run that is read from an element alone, if it is; texts and run formatting are not.
pub open spec fn leaf_of(e: El, x: Rn) -> Option<Rn> {
    if e.n == "w:tab"@ { Some(add(x, RunChild::Tab(tab0()))) }
    else if e.n == "w:cr"@ { Some(add(x, RunChild::CarriageReturn(cr0()))) }
    else if e.n == "w:sym"@ { match (first(e.a, "font"@), first(e.a, "char"@)) { (Some(f), Some(c)) => Some(add(x, RunChild::Sym(Sym { font: strv(f), char: strv(c) }))), _ => None } }
    else if e.n == "w:br"@ { if e.a.len() == 0 { None } else { match named::<BreakType>(e.a[0].v) { Some(b) => Some(add(x, RunChild::Break(brk(b)))), None => None } } }
    else if e.n == "w:fldChar"@ { match fld_of(e.a) { Some(f) => Some(add(x, RunChild::FieldChar(f))), None => None } }
    else { None }
}
pub open spec fn rd(t: Seq<Tok>, x: Rn, st: TextState) -> Option<(Rn, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "w:t"@ { rd(t.skip(1), x, TextState::Text) }
            else if e.n == "w:delText"@ { rd(t.skip(1), x, TextState::Delete) }
            else if e.n == "w:rPr"@ { match rp_val(t.skip(1)) { Some(p) => if p.1.len() < t.len() { rd(p.1, Rn { p: p.0, ..x }, st) } else { None }, None => None } }
            else if e.n == "w:ptab"@ { if at_end(t.skip(1), "w:ptab"@) { rd(t.skip(2), add(x, RunChild::PTab(ptab_of(e.a))), st) } else { None } }
            else if e.n == "w:instrText"@ { if at_word(t.skip(1)) { rd(t.skip(2), add(x, RunChild::InstrTextString(strv(t[1]->Chars_0))), st) } else { None } }
            else { match leaf_of(e, x) { Some(y) => rd(t.skip(1), y, st), None => None } },
        Tok::Chars(s) => if s.len() == 0 { None } else { rd(t.skip(1), deed(st, s, x), st) },
        Tok::Close(n) => if n == "w:r"@ { Some((x, t.skip(1))) } else if n == "w:t"@ || n == "w:delText"@ { rd(t.skip(1), x, TextState::Idle) }
            else if n == "w:tab"@ || n == "w:cr"@ || n == "w:sym"@ || n == "w:br"@ || n == "w:fldChar"@ || n == "w:instrText"@ { rd(t.skip(1), x, st) } else { None },
    } }
}
pub open spec fn at_word(t: Seq<Tok>) -> bool { t.len() > 0 && (t[0] matches Tok::Chars(s) && s.len() > 0 && !blank(s)) }
//@fn <Run as ElementReader>::read r=out autostr
//@| ensures rd(old(r).todo(), run0(), TextState::Idle) matches Some(x) ==> (out matches Ok(y) && rv(y) == x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), run0(), TextState::Idle), vx_g is Some ==> rd(r.todo(), rv(run), text_state) == vx_g,
//@before `loop {`
//@| let ghost vx_g = rd(r.todo(), run0(), TextState::Idle);
//@loopstart 0
//@| let ghost vx_t = r.todo(); let ghost vx_x = rv(run); let ghost vx_s = text_state;
//@| proof { names(); cks(); reveal_with_fuel(rd, 2); reveal_strlit("w"); reveal_strlit("w:t"); reveal_strlit("w:delText"); reveal_strlit("w:rPr"); reveal_strlit("w:ptab"); reveal_strlit("w:instrText"); reveal_strlit("w:tab"); reveal_strlit("w:cr"); reveal_strlit("w:sym"); reveal_strlit("w:br"); reveal_strlit("w:fldChar"); reveal_strlit("w:r"); if vx_t.len() > 1 { assert(vx_t.skip(1).skip(1) =~= vx_t.skip(2)); } }
//@loop 1
//@| invariant_except_break vx_g is Some ==> r.todo() == vx_t.skip(1) && at_word(r.todo()) && rv(run) == vx_x,
//@| invariant vx_g == rd(old(r).todo(), run0(), TextState::Idle), vx_g is Some ==> vx_t.len() > 1,
//@| ensures vx_g is Some ==> r.todo() == vx_t.skip(1).skip(1) && rv(run) == add(vx_x, RunChild::InstrTextString(strv(vx_t[1]->Chars_0))),
//@end
// ---- a run read from what was written for it is the run that was written
pub mod truths {
    use super::*;
    // TRUSTED: letters equal themselves; texts of different lengths have different letters; a truth value's name holds no markup.
    pub broadcast axiom fn same(a: Seq<char>) ensures #[trigger] same_letters(a, a);
    pub broadcast axiom fn differ(a: Seq<char>, b: Seq<char>) ensures a.len() != b.len() ==> !(#[trigger] same_letters(a, b));
    pub broadcast axiom fn truth(t: &bool) ensures #![trigger shown_of::<bool>(t)] seen(shown_of(t)@) == shown_of(t)@;
}
/// The name a value prints as is read as that value (unit codec).
pub open spec fn spelled<T>(v: T) -> bool { named::<T>(seen(shown(v)@)) == Some(v) }
/// Text that survives escaping, reading, decoding and dropping of line feeds.
pub open spec fn lasting(s: Seq<char>) -> bool { seen(s).len() > 0 && without(decoded(seen(s))) == s }
pub closed spec fn settled(c: RunChild) -> bool {
    match c {
        RunChild::Text(t) => t.preserve_space && lasting(t.text@),
        RunChild::DeleteText(t) => t.preserve_space && lasting(t.text@),
        RunChild::Tab(t) => t == tab0(),
        RunChild::PTab(t) => spelled(t.alignment) && spelled(t.relative_to) && spelled(t.leader),
        RunChild::Sym(s) => seen(s.font@) == s.font@ && seen(s.char@) == s.char@,
        RunChild::Break(b) => spelled(b.break_type),
        RunChild::CarriageReturn(_) => true,
        RunChild::FieldChar(f) => spelled(f.field_char_type),
        RunChild::InstrTextString(s) => seen(escaped(s@)@) == s@ && s@.len() > 0 && !blank(s@),
        _ => false,
    }
}
pub open spec fn toks(c: RunChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<RunChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<RunChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t[1] == Tok::Close(e.n) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest && t.skip(2) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); assert(t.skip(2) =~= rest); }
proof fn lemma_words(n: Seq<char>, s: Seq<char>, rest: Seq<Tok>)
    ensures ({ let t = words(Seq::empty(), n, s) + rest; t.len() >= 3 && t[0] == Tok::Open(El { n, a: keep_at() }) && t.skip(1)[0] == Tok::Chars(seen(s)) && t.skip(1).skip(1)[0] == Tok::Close(n) && t.skip(1).skip(1).skip(1) == rest && t[1] == Tok::Chars(seen(s)) && t.skip(2) == t.skip(1).skip(1) })
{ let t = words(Seq::empty(), n, s) + rest; assert(t.skip(1).skip(1).skip(1) =~= rest); assert(t.skip(2) =~= t.skip(1).skip(1)); }
proof fn lemma_first_push(s: Seq<At>, x: At, n: Seq<char>)
    ensures first(s.push(x), n) == (match first(s, n) { Some(v) => Some(v), None => if x.n == n { Some(x.v) } else { None } })
    decreases s.len()
{
    if s.len() == 0 { assert(s.push(x).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(first, 3); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_first_push(s.skip(1), x, n); }
}
proof fn lemma_named_push<T>(s: Seq<At>, x: At, n: Seq<char>)
    ensures firstn::<T>(s.push(x), n) == (match firstn::<T>(s, n) { Some(v) => Some(v), None => if x.n == n { named::<T>(x.v) } else { None } })
    decreases s.len()
{
    if s.len() == 0 { assert(s.push(x).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(firstn, 3); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_named_push::<T>(s.skip(1), x, n); }
}
proof fn lemma_ptab(t: PositionalTab) requires settled(RunChild::PTab(t)) ensures ptab_of(ptab_el(t).a) == t
{
    reveal_strlit("alignment"); reveal_strlit("relativeTo"); reveal_strlit("leader");
    let e = Seq::<At>::empty(); let x = At { n: "alignment"@, v: seen(shown(t.alignment)@) }; let y = At { n: "relativeTo"@, v: seen(shown(t.relative_to)@) }; let z = At { n: "leader"@, v: seen(shown(t.leader)@) };
    let s = "alignment"@; lemma_named_push::<PositionalTabAlignmentType>(e, x, s); lemma_named_push::<PositionalTabAlignmentType>(e.push(x), y, s); lemma_named_push::<PositionalTabAlignmentType>(e.push(x).push(y), z, s);
    let s = "relativeTo"@; lemma_named_push::<PositionalTabRelativeTo>(e, x, s); lemma_named_push::<PositionalTabRelativeTo>(e.push(x), y, s); lemma_named_push::<PositionalTabRelativeTo>(e.push(x).push(y), z, s);
    let s = "leader"@; lemma_named_push::<TabLeaderType>(e, x, s); lemma_named_push::<TabLeaderType>(e.push(x), y, s); lemma_named_push::<TabLeaderType>(e.push(x).push(y), z, s);
    reveal_with_fuel(firstn, 2);
}
proof fn lemma_sym(s: Sym) requires settled(RunChild::Sym(s)) ensures first(sym_el(s).a, "font"@) == Some(s.font@), first(sym_el(s).a, "char"@) == Some(s.char@)
{
    reveal_strlit("font"); reveal_strlit("char"); reveal_with_fuel(first, 2);
    let e = Seq::<At>::empty(); let x = At { n: "font"@, v: seen(s.font@) }; let y = At { n: "char"@, v: seen(s.char@) };
    assert("font"@[0] == 'f' && "char"@[0] == 'c');
    lemma_first_push(e, x, "font"@); lemma_first_push(e.push(x), y, "font"@); lemma_first_push(e, x, "char"@); lemma_first_push(e.push(x), y, "char"@);
}
proof fn lemma_fld(f: FieldChar) requires settled(RunChild::FieldChar(f)) ensures fld_of(fld_el(f).a) == Some(f)
{
    broadcast use truths::same, truths::differ, truths::truth;
    reveal_strlit("fldCharType"); reveal_strlit("dirty"); reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("true"); reveal_strlit("off");
    let e = Seq::<At>::empty(); let x = At { n: "fldCharType"@, v: seen(shown(f.field_char_type)@) }; let y = At { n: "dirty"@, v: seen(shown(f.dirty)@) };
    assert(e.push(x).push(y).drop_last() =~= e.push(x)); assert(e.push(x).drop_last() =~= e);
    reveal_with_fuel(fld_t, 3); reveal_with_fuel(fld_d, 3);
    assert(shown(f.dirty)@ == (if f.dirty { "true"@ } else { "false"@ }));
}
proof fn lits() ensures "w:t"@ != "w:delText"@, "w:t"@ != "w:tab"@, "w:t"@ != "w:ptab"@, "w:t"@ != "w:sym"@, "w:t"@ != "w:br"@, "w:t"@ != "w:cr"@, "w:t"@ != "w:fldChar"@, "w:t"@ != "w:instrText"@, "w:t"@ != "w:r"@, "w:t"@ != "w:rPr"@, "w:delText"@ != "w:tab"@, "w:delText"@ != "w:ptab"@, "w:delText"@ != "w:sym"@, "w:delText"@ != "w:br"@, "w:delText"@ != "w:cr"@, "w:delText"@ != "w:fldChar"@, "w:delText"@ != "w:instrText"@, "w:delText"@ != "w:r"@, "w:delText"@ != "w:rPr"@, "w:tab"@ != "w:ptab"@, "w:tab"@ != "w:sym"@, "w:tab"@ != "w:br"@, "w:tab"@ != "w:cr"@, "w:tab"@ != "w:fldChar"@, "w:tab"@ != "w:instrText"@, "w:tab"@ != "w:r"@, "w:tab"@ != "w:rPr"@, "w:ptab"@ != "w:sym"@, "w:ptab"@ != "w:br"@, "w:ptab"@ != "w:cr"@, "w:ptab"@ != "w:fldChar"@, "w:ptab"@ != "w:instrText"@, "w:ptab"@ != "w:r"@, "w:ptab"@ != "w:rPr"@, "w:sym"@ != "w:br"@, "w:sym"@ != "w:cr"@, "w:sym"@ != "w:fldChar"@, "w:sym"@ != "w:instrText"@, "w:sym"@ != "w:r"@, "w:sym"@ != "w:rPr"@, "w:br"@ != "w:cr"@, "w:br"@ != "w:fldChar"@, "w:br"@ != "w:instrText"@, "w:br"@ != "w:r"@, "w:br"@ != "w:rPr"@, "w:cr"@ != "w:fldChar"@, "w:cr"@ != "w:instrText"@, "w:cr"@ != "w:r"@, "w:cr"@ != "w:rPr"@, "w:fldChar"@ != "w:instrText"@, "w:fldChar"@ != "w:r"@, "w:fldChar"@ != "w:rPr"@, "w:instrText"@ != "w:r"@, "w:instrText"@ != "w:rPr"@, "w:r"@ != "w:rPr"@
{ reveal_strlit("w:t"); reveal_strlit("w:delText"); reveal_strlit("w:tab"); reveal_strlit("w:ptab"); reveal_strlit("w:sym"); reveal_strlit("w:br"); reveal_strlit("w:cr"); reveal_strlit("w:fldChar"); reveal_strlit("w:instrText"); reveal_strlit("w:r"); reveal_strlit("w:rPr"); assert("w:t"@[2] != "w:r"@[2]); assert("w:delText"@[2] != "w:fldChar"@[2]); assert("w:tab"@[2] != "w:sym"@[2]); assert("w:tab"@[2] != "w:rPr"@[2]); assert("w:sym"@[2] != "w:rPr"@[2]); assert("w:br"@[2] != "w:cr"@[2]); }
proof fn lemma_kid(c: RunChild, rest: Seq<Tok>, x: Rn)
    requires settled(c) ensures rd(toks(c) + rest, x, TextState::Idle) == rd(rest, add(x, c), TextState::Idle)
{
    lits(); let t = toks(c) + rest;
    match c {
        RunChild::Text(w) => { lemma_words("w:t"@, w.text@, rest); reveal_with_fuel(rd, 4); }
        RunChild::DeleteText(w) => { lemma_words("w:delText"@, w.text@, rest); reveal_with_fuel(rd, 4); }
        RunChild::Tab(w) => { lemma_one(tab_el(w), rest); reveal_with_fuel(rd, 3); }
        RunChild::PTab(w) => { lemma_one(ptab_el(w), rest); lemma_ptab(w); reveal_with_fuel(rd, 3); }
        RunChild::Sym(w) => { lemma_one(sym_el(w), rest); lemma_sym(w); reveal_with_fuel(rd, 3); }
        RunChild::Break(w) => { lemma_one(br_el(w), rest); reveal_with_fuel(rd, 3); }
        RunChild::CarriageReturn(w) => { lemma_one(El { n: "w:cr"@, a: Seq::empty() }, rest); reveal_with_fuel(rd, 3); }
        RunChild::FieldChar(w) => { lemma_one(fld_el(w), rest); lemma_fld(w); reveal_with_fuel(rd, 3); }
        RunChild::InstrTextString(s) => { lemma_words("w:instrText"@, escaped(s@)@, rest); reveal_with_fuel(rd, 4); }
        _ => {}
    }
}
proof fn lemma_all(c: Seq<RunChild>, rest: Seq<Tok>, x: Rn)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x, TextState::Idle) == rd(rest, Rn { c: x.c + c, ..x }, TextState::Idle) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
    }
}
/// Run formatting is written between its tags and read back (theorem_run_formatting in unit rb_read).
pub open spec fn formatted(p: RunProperty) -> bool { exists |b: Seq<Tok>| #![trigger rp_body(p, b)] rp_body(p, b) }
pub open spec fn rp_body(p: RunProperty, b: Seq<Tok>) -> bool { rp_toks(p) == seq![Tok::Open(El { n: "w:rPr"@, a: Seq::empty() })] + b && forall |rest: Seq<Tok>| #[trigger] rp_val(b + rest) == Some((p, rest)) }
/// Whatever follows the run, reading what was written for it gives the same formatting and the same content in the same order.
proof fn theorem_run_content(x: Run, log: Seq<Tok>, rest: Seq<Tok>)
    requires formatted(x.run_property), forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| run_onto(x, log) == log.push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) + b
        && #[trigger] rd(b + rest, run0(), TextState::Idle) == Some((rv(x), rest))
{
    lits(); let c = x.children@; let p = choose |p: Seq<Tok>| #![trigger rp_body(x.run_property, p)] rp_body(x.run_property, p);
    let o = Tok::Open(El { n: "w:rPr"@, a: Seq::empty() }); let e = Tok::Close("w:r"@);
    let b = (rp_toks(x.run_property) + all_toks(c)).push(e);
    lemma_kids(c, log.push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) + rp_toks(x.run_property));
    assert(run_onto(x, log) =~= log.push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) + b);
    let tail = seq![e] + rest; let m = all_toks(c) + tail; let t = b + rest;
    assert(t =~= seq![o] + (p + m)); assert(t[0] == o); assert(t.skip(1) =~= p + m); assert(rp_val(t.skip(1)) == Some((x.run_property, m)));
    assert(m.len() < t.len());
    let y = Rn { p: x.run_property, c: Seq::empty() };
    assert(rd(t, run0(), TextState::Idle) == rd(m, y, TextState::Idle)) by { reveal_with_fuel(rd, 2); }
    lemma_all(c, tail, y);
    assert(Seq::<RunChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd(tail, rv(x), TextState::Idle) == Some((rv(x), rest))) by { reveal_with_fuel(rd, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
