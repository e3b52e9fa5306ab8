broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize, vals::seen_shown_i32, vals::seen_shown_u32;
pub uninterp spec fn dflt<T>() -> T;
pub uninterp spec fn escaped(s: Seq<char>) -> String;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: comparing letters without regard to case: equal texts are the same, texts of different lengths are not.
pub uninterp spec fn same_letters(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn without(a: Seq<char>) -> Seq<char>;
pub uninterp spec fn ends(a: Seq<char>, b: Seq<char>) -> bool;
pub trait VxText { fn vx_same(&self, o: &str) -> (r: bool); fn vx_ends(&self, o: &str) -> (r: bool); fn vx_replace<P>(&self, p: P, o: &str) -> (r: String); }
impl VxText for str {
    #[verifier::external_body] fn vx_same(&self, o: &str) -> (r: bool) ensures r == same_letters(self@, o@), self@ == o@ ==> r, self@.len() != o@.len() ==> !r { unimplemented!() }
    #[verifier::external_body] fn vx_ends(&self, o: &str) -> (r: bool) ensures r == ends(self@, o@) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P>(&self, p: P, o: &str) -> (r: String) ensures r@ == without(self@) { unimplemented!() }
}
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub uninterp spec fn cast<A, B>(a: A) -> B;
#[verifier::external_body] pub fn vx_cast<A, B>(a: A) -> (r: B) ensures r == cast::<A, B>(a) { unimplemented!() }
pub open spec fn float_to<T>(s: Seq<char>) -> Option<T> { match parsed::<f64>(s) { Some(f) => Some(cast::<f64, T>(f)), None => None } }
pub mod nums {
    use super::*;
    // TRUSTED: numbers up to 2^53 are printed and read back exactly, also by way of a floating point number.
    pub broadcast axiom fn usize_back(n: &usize) ensures (#[trigger] shown_of::<usize>(n))@ == shown_of::<usize>(n)@, *n < 0x20_0000_0000_0000 ==> float_to::<usize>(shown_of::<usize>(n)@) == Some(*n), parsed::<usize>(shown_of::<usize>(n)@) == Some(*n);
    pub broadcast axiom fn usize_back_u32(n: &usize) ensures #![trigger shown_of::<usize>(n)] *n <= u32::MAX ==> float_to::<u32>(shown_of::<usize>(n)@) == Some(*n as u32) && cast::<u32, usize>(*n as u32) == *n;
    pub broadcast axiom fn u32_back(n: &u32) ensures #![trigger shown_of::<u32>(n)] float_to::<u32>(shown_of::<u32>(n)@) == Some(*n), parsed::<u32>(shown_of::<u32>(n)@) == Some(*n);
    pub broadcast axiom fn i32_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] float_to::<i32>(shown_of::<i32>(n)@) == Some(*n), parsed::<i32>(shown_of::<i32>(n)@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end
//@fn reader/attributes/val.rs::read_val
//@| ensures opt(r) == first(av(attrs@), "val"@),
//@at start
//@| proof { lemma_first(av(attrs@), "val"@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != "val"@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), "val"@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end
// TRUSTED here, proved in the codec unit: the name a value prints as is read as that value.
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
pub mod codec {
    use super::*;
    pub broadcast axiom fn border(t: &BorderType) ensures #![trigger shown_of::<BorderType>(t)] named::<BorderType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn shd(t: &ShdType) ensures #![trigger shown_of::<ShdType>(t)] named::<ShdType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn vert(t: &VertAlignType) ensures #![trigger shown_of::<VertAlignType>(t)] *t != VertAlignType::Unsupported ==> named::<VertAlignType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn theme(t: &ThemeColor) ensures #![trigger shown_of::<ThemeColor>(t)] *t != ThemeColor::Unsupported ==> named::<ThemeColor>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: letters equal themselves; texts of different lengths have different letters.
    pub broadcast axiom fn same(a: Seq<char>) ensures #[trigger] same_letters(a, a);
    pub broadcast axiom fn differ(a: Seq<char>, b: Seq<char>) ensures a.len() != b.len() ==> !(#[trigger] same_letters(a, b));
    pub broadcast axiom fn truth(t: &bool) ensures #![trigger shown_of::<bool>(t)] seen(shown_of(t)@) == shown_of(t)@;
}
//@fn <BorderType as FromStr>::from_str ext
//@| ensures (match (r, named::<BorderType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <ShdType as FromStr>::from_str ext
//@| ensures (match (r, named::<ShdType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <VertAlignType as FromStr>::from_str ext
//@| ensures (match (r, named::<VertAlignType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <ThemeColor as FromStr>::from_str ext
//@| ensures (match (r, named::<ThemeColor>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub open spec fn is_no(v: Seq<char>) -> bool { v == "0"@ || same_letters(v, "false"@) || same_letters(v, "off"@) }
//@fn reader/attributes/bool_value.rs::is_false
//@| ensures r == is_no(v@), v@ == "false"@ ==> r, v@ == "true"@ ==> !r,
//@at start
//@| proof { reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("true"); }
//@end
pub open spec fn bd_ok(a: At) -> bool { (a.n == "sz"@ || a.n == "space"@ ==> float_to::<u32>(a.v) is Some) && (a.n == "val"@ ==> named::<BorderType>(a.v) is Some) }
pub open spec fn num_or(v: Option<Seq<char>>, d: u32) -> Option<u32> { match v { Some(v) => float_to::<u32>(v), None => Some(d) } }
//@fn reader/attributes/border.rs::read_border casts
//@| ensures (forall |i: int| 0 <= i < attrs@.len() ==> bd_ok(#[trigger] av(attrs@)[i])) ==> r is Ok,
//@|   r matches Ok(b) ==> b.size == num_or(last(av(attrs@), "sz"@), 4) && b.space == num_or(last(av(attrs@), "space"@), 0)
//@|     && b.color@ == (match last(av(attrs@), "color"@) { Some(c) => c, None => "000000"@ })
//@|     && Some(b.border_type) == (match last(av(attrs@), "val"@) { Some(v) => named::<BorderType>(v), None => Some(BorderType::Single) }),
//@at start
//@| proof { reveal_strlit("sz"); reveal_strlit("space"); reveal_strlit("color"); reveal_strlit("val"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant size == num_or(last(av(attrs@).take(it.index@), "sz"@), 4), space == num_or(last(av(attrs@).take(it.index@), "space"@), 0),
//@|   color@ == (match last(av(attrs@).take(it.index@), "color"@) { Some(c) => c, None => "000000"@ }),
//@|   Some(border_type) == (match last(av(attrs@).take(it.index@), "val"@) { Some(v) => named::<BorderType>(v), None => Some(BorderType::Single) }),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); assert(s.take(it.index@ + 1).last() == s[it.index@]); assert(s[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal_strlit("sz"); reveal_strlit("space"); reveal_strlit("color"); reveal_strlit("val"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end


//@fn reader/ignore.rs::ignore_element
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@loop 0
//@| invariant el == ignore,
//@end
pub open spec fn shd_of(a: Seq<At>) -> Shading decreases a.len() {
    if a.len() == 0 { shd0() } else {
        let p = shd_of(a.drop_last()); let n = a.last().n; let v = a.last().v;
        if n == "val"@ { match named::<ShdType>(v) { Some(t) => sp_Shading_shd_type(p, t), None => p } }
        else if n == "color"@ { sp_Shading_color(p, v) } else if n == "fill"@ { sp_Shading_fill(p, v) } else { p }
    }
}
//@fn <Shading as ElementReader>::read r=out
//@| ensures out == Ok::<Shading, ReaderError>(shd_of(av(attrs@))), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant shd == shd_of(av(attrs@).take(it.index@)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); assert(s.take(it.index@ + 1).last() == s[it.index@]); assert(s[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
pub open spec fn bdr_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> bd_ok(#[trigger] a[i]) }
pub open spec fn shd0() -> Shading { Shading { shd_type: ShdType::Clear, color: strv("auto"@), fill: strv("FFFFFF"@) } }
proof fn lemma_last(a: Seq<At>, n: Seq<char>)
    ensures last(a, n) matches Some(v) ==> exists |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == n && a[i].v == v
    decreases a.len()
{ if a.len() > 0 && a.last().n != n { lemma_last(a.drop_last(), n); if let Some(v) = last(a, n) { let i = choose |i: int| 0 <= i < a.drop_last().len() && (#[trigger] a.drop_last()[i]).n == n && a.drop_last()[i].v == v; assert(a[i].n == n); } } else if a.len() > 0 { assert(a[a.len() - 1].n == n); } }
proof fn lemma_first_push(s: Seq<At>, x: At, n: Seq<char>)
    ensures first(s.push(x), n) == (match first(s, n) { Some(v) => Some(v), None => if x.n == n { Some(x.v) } else { None } })
    decreases s.len()
{
    if s.len() == 0 { assert(s.push(x).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(first, 3); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_first_push(s.skip(1), x, n); }
}
proof fn lemma_first_with(s: Seq<At>, m: Seq<char>, v: Option<Seq<char>>, n: Seq<char>)
    ensures first(with(s, m, v), n) == (match first(s, n) { Some(v) => Some(v), None => match v { Some(v) if m == n => Some(seen(v)), _ => None } })
{ if let Some(v) = v { lemma_first_push(s, At { n: m, v: seen(v) }, n); } }
proof fn lemma_last_with(s: Seq<At>, m: Seq<char>, v: Option<Seq<char>>, n: Seq<char>)
    ensures last(with(s, m, v), n) == (match v { Some(v) if m == n => Some(seen(v)), _ => last(s, n) })
{ if let Some(v) = v { assert(s.push(At { n: m, v: seen(v) }).drop_last() =~= s); } }
proof fn lemma_val(v: Seq<char>) ensures first(val(v), "val"@) == Some(seen(v)), first(val(v), "id"@) is None
{ reveal_strlit("val"); reveal_strlit("id"); assert(val(v).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(first, 3); }
pub open spec fn kept(s: String) -> bool { seen(s@) == s@ }
pub open spec fn kept_e(s: String) -> bool { escaped(seen(s@)) == s }
pub open spec fn kept_o(s: Option<String>) -> bool { s matches Some(s) ==> kept(s) }
pub open spec fn kept_eo(s: Option<String>) -> bool { s matches Some(s) ==> kept_e(s) }
pub open spec fn fits(n: usize) -> bool { n < 0x20_0000_0000_0000 }
pub open spec fn fits32(n: usize) -> bool { n <= u32::MAX }
