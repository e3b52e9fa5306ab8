//@include prelude.rs
verus! {
//@include rd_pre.rs
//@gsub `escape::` => ``
//@include rx_spec.rs
//@include tc_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "r"@ { Some(XMLElement::Run) } else if n == "ins"@ { Some(XMLElement::Insert) } else if n == "del"@ { Some(XMLElement::Delete) } else if n == "moveFrom"@ { Some(XMLElement::MoveFrom) } else if n == "moveTo"@ { Some(XMLElement::MoveTo) } else { None } }
proof fn cks() ensures ck("r"@) == Some(XMLElement::Run), ck("ins"@) == Some(XMLElement::Insert), ck("del"@) == Some(XMLElement::Delete), ck("moveFrom"@) == Some(XMLElement::MoveFrom), ck("moveTo"@) == Some(XMLElement::MoveTo) { reveal(ck); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); assert("ins"@[0] != "del"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); }
//@end
proof fn lits() ensures "r"@ != "ins"@, "r"@ != "del"@, "r"@ != "moveFrom"@, "r"@ != "moveTo"@, "ins"@ != "del"@, "ins"@ != "moveFrom"@, "ins"@ != "moveTo"@, "del"@ != "moveFrom"@, "del"@ != "moveTo"@, "moveFrom"@ != "moveTo"@
{ reveal_strlit("r"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("moveFrom"); reveal_strlit("moveTo"); assert("ins"@[0] != "del"@[0]); }
pub uninterp spec fn escaped(s: Seq<char>) -> String;
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
/// What reading a run and a deletion gives (unit rn_read; below).
pub uninterp spec fn run_val(t: Seq<Tok>) -> Option<(Run, Seq<Tok>)>;
pub uninterp spec fn del_val(a: Seq<At>, t: Seq<Tok>) -> Option<(Delete, Seq<Tok>)>;
//@fn <Run as ElementReader>::read ext r=out
//@| ensures run_val(old(r).todo()) matches Some(x) ==> (out == Ok::<Run, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
impl Delete { #[verifier::external_body] pub fn read<R: Read>(r: &mut EventReader<R>, attrs: &[OwnedAttribute]) -> (out: Result<Self, ReaderError>)
    ensures del_val(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Delete, ReaderError>(x.0) && final(r).todo() == x.1) { unimplemented!() } }
pub struct Ch<C> { pub author: String, pub date: String, pub c: Seq<C> }
pub open spec fn fin<C>(a0: String, d0: String, a: Seq<At>, c: Seq<C>) -> Ch<C> { Ch { author: match last(a, "author"@) { Some(v) => escaped(v), None => a0 }, date: match last(a, "date"@) { Some(v) => strv(v), None => d0 }, c } }
pub open spec fn told<C>(x: Ch<C>, a: Seq<At>, c: Seq<C>) -> bool { x.c == c && (last(a, "author"@) matches Some(v) ==> x.author == escaped(v)) && (last(a, "date"@) matches Some(v) ==> x.date == strv(v)) }
/// A run or a deletion is written between its tags and read back.
pub open spec fn ran(v: Run) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid_run(v, a, b)] laid_run(v, a, b) }
pub open spec fn laid_run(v: Run, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n: "r"@, a })] + b && forall |rest: Seq<Tok>| #[trigger] run_val(b + rest) == Some((v, rest)) }
pub open spec fn gone(v: Delete) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid_del(v, a, b)] laid_del(v, a, b) }
pub open spec fn laid_del(v: Delete, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n: "del"@, a })] + b && forall |rest: Seq<Tok>| #[trigger] del_val(a, b + rest) == Some((v, rest)) }
proof fn lemma_ran(v: Run, rest: Seq<Tok>)
    requires ran(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && (t[0] matches Tok::Open(e) && e.n == "r"@) && run_val(t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid_run(v, a, b)] laid_run(v, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n: "r"@, a })] + (b + rest)); assert(t.skip(1) =~= b + rest);
}
proof fn lemma_gone(v: Delete, rest: Seq<Tok>) -> (a: Seq<At>)
    requires gone(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n: "del"@, a }) && del_val(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid_del(v, a, b)] laid_del(v, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n: "del"@, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_by(id: Seq<char>, author: Seq<char>, date: Seq<char>) ensures last(by(id, author, date), "author"@) == Some(seen(author)), last(by(id, author, date), "date"@) == Some(seen(date))
{
    reveal_strlit("id"); reveal_strlit("author"); reveal_strlit("date"); reveal_with_fuel(last, 4);
    let z = Seq::<At>::empty(); let x = z.push(At { n: "id"@, v: seen(id) }); let y = x.push(At { n: "author"@, v: seen(author) }); let w = y.push(At { n: "date"@, v: seen(date) });
    assert(w.drop_last() =~= y); assert(y.drop_last() =~= x);
}
// ---- Insert
pub open spec fn v_Insert(x: Insert) -> Ch<InsertChild> { Ch { author: x.author, date: x.date, c: x.children@ } }
//@fn <Insert as Default>::default r=out
//@| ensures out.children@ == Seq::<InsertChild>::empty(),
//@end
//@fn Insert::new_with_empty
//@| ensures r.children@ == Seq::<InsertChild>::empty(),
//@sub `..Default::default()` => `..Insert::default()`
//@end
//@fn Insert::add_run
//@| ensures v_Insert(r) == (Ch { c: self.children@.push(InsertChild::Run(Box::new(run))), ..v_Insert(self) }),
//@end
//@fn Insert::add_delete
//@| ensures v_Insert(r) == (Ch { c: self.children@.push(InsertChild::Delete(del)), ..v_Insert(self) }),
//@end
//@fn Insert::add_comment_start ext
//@end
//@fn Insert::add_comment_end ext
//@end
//@fn Insert::author
//@| ensures v_Insert(r) == (Ch { author: escaped(author.chars()), ..v_Insert(self) }),
//@end
//@fn Insert::date
//@| ensures v_Insert(r) == (Ch { date: strv(date.chars()), ..v_Insert(self) }),
//@end
pub open spec fn rd_Insert(t: Seq<Tok>, c: Seq<InsertChild>) -> Option<(Seq<InsertChild>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "r"@ { match run_val(t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Insert(y.1, c.push(InsertChild::Run(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "del"@ { match del_val(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Insert(y.1, c.push(InsertChild::Delete(y.0))) } else { None }, None => None } } else { None },
        Tok::Close(n) => if n == "ins"@ { Some((c, t.skip(1))) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <Insert as ElementReader>::read r=out
//@| ensures rd_Insert(old(r).todo(), Seq::empty()) matches Some(y) ==> (out matches Ok(z) && told(v_Insert(z), av(attrs@), y.0)) && final(r).todo() == y.1,
//@sub `.expect("should convert to XMLElement")` => `.unwrap()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd_Insert(r.todo(), Seq::empty()); let ghost vx_o = ins;
//@loop 0
//@| invariant vx_g == rd_Insert(old(r).todo(), Seq::empty()), vx_g is Some ==> rd_Insert(r.todo(), ins.children@) == vx_g && ins.author == vx_o.author && ins.date == vx_o.date,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_Insert, 2); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_g == rd_Insert(old(r).todo(), Seq::empty()), vx_g is Some ==> vx_g == Some((ins.children@, r.todo())) && v_Insert(ins) == fin(vx_o.author, vx_o.date, av(attrs@).take(it.index@ as int), ins.children@),
//@loopstart 1
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: attr.name.local_name@, v: attr.value@ })); reveal_strlit("author"); reveal_strlit("date"); }
//@afterloop 1
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); assert(vx_g is Some ==> v_Insert(ins) == fin(vx_o.author, vx_o.date, av(attrs@), ins.children@)); assert(vx_g is Some ==> vx_g == Some((ins.children@, r.todo()))); }
//@end
pub open spec fn settled_Insert(c: InsertChild) -> bool { match c { InsertChild::Run(b) => ran(*b), InsertChild::Delete(b) => gone(b), _ => false } }
pub open spec fn toks_Insert(c: Seq<InsertChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_Insert(c[0], Seq::empty()) + toks_Insert(c.skip(1)) } }
proof fn lemma_kids_Insert(c: Seq<InsertChild>, log: Seq<Tok>) ensures kids_Insert(c, log) == log + toks_Insert(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_Insert(c) =~= log); } else {
        let k = kid_Insert(c[0], Seq::empty()); assert(kid_Insert(c[0], log) =~= log + k);
        lemma_kids_Insert(c.skip(1), kid_Insert(c[0], log));
        assert(log + k + toks_Insert(c.skip(1)) =~= log + (k + toks_Insert(c.skip(1))));
    }
}
proof fn lemma_all_Insert(c: Seq<InsertChild>, rest: Seq<Tok>, x: Seq<InsertChild>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_Insert(#[trigger] c[i])
    ensures rd_Insert(toks_Insert(c) + rest, x) == rd_Insert(rest, x + c) decreases c.len()
{
    if c.len() == 0 { assert(toks_Insert(c) + rest =~= rest); assert(x + c =~= x); } else {
        assert(settled_Insert(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_Insert(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_Insert(c[0], Seq::empty()); let m = toks_Insert(c.skip(1)) + rest; let s = toks_Insert(c) + rest; assert(s =~= k + m);
        match c[0] {
            InsertChild::Run(b) => { lemma_ran(*b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            InsertChild::Delete(b) => { let a = lemma_gone(b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(b) + m); }
            _ => {}
        }
        assert(rd_Insert(s, x) == rd_Insert(m, x.push(c[0]))) by { reveal_with_fuel(rd_Insert, 2); }
        lemma_all_Insert(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }
}
/// Whatever follows the change, reading what was written for it gives the same author, date and content in the same order.
proof fn theorem_tracked_ins(x: Insert, id: Seq<char>, log: Seq<Tok>, rest: Seq<Tok>)
    requires escaped(seen(x.author@)) == x.author, seen(x.date@) == x.date@, forall |i: int| 0 <= i < x.children@.len() ==> settled_Insert(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_Insert(x, id, log) == log.push(Tok::Open(El { n: "ins"@, a: by(id, x.author@, x.date@) })) + b && #[trigger] rd_Insert(b + rest, Seq::empty()) == Some((x.children@, rest)),
        forall |y: Ch<InsertChild>| #[trigger] told(y, by(id, x.author@, x.date@), x.children@) ==> y == v_Insert(x)
{
    lits(); let c = x.children@; let e = Tok::Close("ins"@); let b = toks_Insert(c).push(e); let h = log.push(Tok::Open(El { n: "ins"@, a: by(id, x.author@, x.date@) }));
    lemma_kids_Insert(c, h); assert(onto_Insert(x, id, log) =~= h + b);
    let tail = seq![e] + rest; assert(b + rest =~= toks_Insert(c) + tail); lemma_all_Insert(c, tail, Seq::empty());
    assert(Seq::<InsertChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_Insert(tail, c) == Some((c, rest))) by { reveal_with_fuel(rd_Insert, 2); }
    lemma_by(id, x.author@, x.date@);
}
// ---- Delete
pub open spec fn v_Delete(x: Delete) -> Ch<DeleteChild> { Ch { author: x.author, date: x.date, c: x.children@ } }
//@fn <Delete as Default>::default r=out
//@| ensures out.children@ == Seq::<DeleteChild>::empty(),
//@end
//@fn Delete::new
//@| ensures r.children@ == Seq::<DeleteChild>::empty(),
//@sub `..Default::default()` => `..Delete::default()`
//@end
//@fn Delete::add_run
//@| ensures v_Delete(r) == (Ch { c: self.children@.push(DeleteChild::Run(Box::new(run))), ..v_Delete(self) }),
//@end
//@fn Delete::add_comment_start ext
//@end
//@fn Delete::add_comment_end ext
//@end
//@fn Delete::author
//@| ensures v_Delete(r) == (Ch { author: escaped(author.chars()), ..v_Delete(self) }),
//@end
//@fn Delete::date
//@| ensures v_Delete(r) == (Ch { date: strv(date.chars()), ..v_Delete(self) }),
//@end
pub open spec fn rd_Delete(t: Seq<Tok>, c: Seq<DeleteChild>) -> Option<(Seq<DeleteChild>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "r"@ { match run_val(t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_Delete(y.1, c.push(DeleteChild::Run(Box::new(y.0)))) } else { None }, None => None } }
             else { None },
        Tok::Close(n) => if n == "del"@ { Some((c, t.skip(1))) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <Delete as ElementReader>::read r=out name=read_body
//@| ensures rd_Delete(old(r).todo(), Seq::empty()) matches Some(y) ==> (out matches Ok(z) && told(v_Delete(z), av(attrs@), y.0)) && final(r).todo() == y.1,
//@sub `.expect("should convert to XMLElement")` => `.unwrap()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd_Delete(r.todo(), Seq::empty()); let ghost vx_o = del;
//@loop 0
//@| invariant vx_g == rd_Delete(old(r).todo(), Seq::empty()), vx_g is Some ==> rd_Delete(r.todo(), del.children@) == vx_g && del.author == vx_o.author && del.date == vx_o.date,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_Delete, 2); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_g == rd_Delete(old(r).todo(), Seq::empty()), vx_g is Some ==> vx_g == Some((del.children@, r.todo())) && v_Delete(del) == fin(vx_o.author, vx_o.date, av(attrs@).take(it.index@ as int), del.children@),
//@loopstart 1
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: attr.name.local_name@, v: attr.value@ })); reveal_strlit("author"); reveal_strlit("date"); }
//@afterloop 1
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); assert(vx_g is Some ==> v_Delete(del) == fin(vx_o.author, vx_o.date, av(attrs@), del.children@)); assert(vx_g is Some ==> vx_g == Some((del.children@, r.todo()))); }
//@end
pub open spec fn settled_Delete(c: DeleteChild) -> bool { match c { DeleteChild::Run(b) => ran(*b),  _ => false } }
pub open spec fn toks_Delete(c: Seq<DeleteChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_Delete(c[0], Seq::empty()) + toks_Delete(c.skip(1)) } }
proof fn lemma_kids_Delete(c: Seq<DeleteChild>, log: Seq<Tok>) ensures kids_Delete(c, log) == log + toks_Delete(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_Delete(c) =~= log); } else {
        let k = kid_Delete(c[0], Seq::empty()); assert(kid_Delete(c[0], log) =~= log + k);
        lemma_kids_Delete(c.skip(1), kid_Delete(c[0], log));
        assert(log + k + toks_Delete(c.skip(1)) =~= log + (k + toks_Delete(c.skip(1))));
    }
}
proof fn lemma_all_Delete(c: Seq<DeleteChild>, rest: Seq<Tok>, x: Seq<DeleteChild>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_Delete(#[trigger] c[i])
    ensures rd_Delete(toks_Delete(c) + rest, x) == rd_Delete(rest, x + c) decreases c.len()
{
    if c.len() == 0 { assert(toks_Delete(c) + rest =~= rest); assert(x + c =~= x); } else {
        assert(settled_Delete(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_Delete(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_Delete(c[0], Seq::empty()); let m = toks_Delete(c.skip(1)) + rest; let s = toks_Delete(c) + rest; assert(s =~= k + m);
        match c[0] {
            DeleteChild::Run(b) => { lemma_ran(*b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            
            _ => {}
        }
        assert(rd_Delete(s, x) == rd_Delete(m, x.push(c[0]))) by { reveal_with_fuel(rd_Delete, 2); }
        lemma_all_Delete(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }
}
/// Whatever follows the change, reading what was written for it gives the same author, date and content in the same order.
proof fn theorem_tracked_del(x: Delete, id: Seq<char>, log: Seq<Tok>, rest: Seq<Tok>)
    requires escaped(seen(x.author@)) == x.author, seen(x.date@) == x.date@, forall |i: int| 0 <= i < x.children@.len() ==> settled_Delete(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_Delete(x, id, log) == log.push(Tok::Open(El { n: "del"@, a: by(id, x.author@, x.date@) })) + b && #[trigger] rd_Delete(b + rest, Seq::empty()) == Some((x.children@, rest)),
        forall |y: Ch<DeleteChild>| #[trigger] told(y, by(id, x.author@, x.date@), x.children@) ==> y == v_Delete(x)
{
    lits(); let c = x.children@; let e = Tok::Close("del"@); let b = toks_Delete(c).push(e); let h = log.push(Tok::Open(El { n: "del"@, a: by(id, x.author@, x.date@) }));
    lemma_kids_Delete(c, h); assert(onto_Delete(x, id, log) =~= h + b);
    let tail = seq![e] + rest; assert(b + rest =~= toks_Delete(c) + tail); lemma_all_Delete(c, tail, Seq::empty());
    assert(Seq::<DeleteChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_Delete(tail, c) == Some((c, rest))) by { reveal_with_fuel(rd_Delete, 2); }
    lemma_by(id, x.author@, x.date@);
}
// ---- MoveFrom
pub open spec fn v_MoveFrom(x: MoveFrom) -> Ch<MoveFromChild> { Ch { author: x.author, date: x.date, c: x.children@ } }
//@fn <MoveFrom as Default>::default r=out
//@| ensures out.children@ == Seq::<MoveFromChild>::empty(),
//@end
//@fn MoveFrom::new
//@| ensures r.children@ == Seq::<MoveFromChild>::empty(),
//@sub `..Default::default()` => `..MoveFrom::default()`
//@end
//@fn MoveFrom::add_run
//@| ensures v_MoveFrom(r) == (Ch { c: self.children@.push(MoveFromChild::Run(Box::new(run))), ..v_MoveFrom(self) }),
//@end
//@fn MoveFrom::add_comment_start ext
//@end
//@fn MoveFrom::add_comment_end ext
//@end
//@fn MoveFrom::author
//@| ensures v_MoveFrom(r) == (Ch { author: escaped(author.chars()), ..v_MoveFrom(self) }),
//@end
//@fn MoveFrom::date
//@| ensures v_MoveFrom(r) == (Ch { date: strv(date.chars()), ..v_MoveFrom(self) }),
//@end
pub open spec fn rd_MoveFrom(t: Seq<Tok>, c: Seq<MoveFromChild>) -> Option<(Seq<MoveFromChild>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "r"@ { match run_val(t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_MoveFrom(y.1, c.push(MoveFromChild::Run(Box::new(y.0)))) } else { None }, None => None } }
             else { None },
        Tok::Close(n) => if n == "moveFrom"@ { Some((c, t.skip(1))) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <MoveFrom as ElementReader>::read r=out
//@| ensures rd_MoveFrom(old(r).todo(), Seq::empty()) matches Some(y) ==> (out matches Ok(z) && told(v_MoveFrom(z), av(attrs@), y.0)) && final(r).todo() == y.1,
//@sub `.expect("should convert to XMLElement")` => `.unwrap()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd_MoveFrom(r.todo(), Seq::empty()); let ghost vx_o = mf;
//@loop 0
//@| invariant vx_g == rd_MoveFrom(old(r).todo(), Seq::empty()), vx_g is Some ==> rd_MoveFrom(r.todo(), mf.children@) == vx_g && mf.author == vx_o.author && mf.date == vx_o.date,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_MoveFrom, 2); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_g == rd_MoveFrom(old(r).todo(), Seq::empty()), vx_g is Some ==> vx_g == Some((mf.children@, r.todo())) && v_MoveFrom(mf) == fin(vx_o.author, vx_o.date, av(attrs@).take(it.index@ as int), mf.children@),
//@loopstart 1
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: attr.name.local_name@, v: attr.value@ })); reveal_strlit("author"); reveal_strlit("date"); }
//@afterloop 1
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); assert(vx_g is Some ==> v_MoveFrom(mf) == fin(vx_o.author, vx_o.date, av(attrs@), mf.children@)); assert(vx_g is Some ==> vx_g == Some((mf.children@, r.todo()))); }
//@end
pub open spec fn settled_MoveFrom(c: MoveFromChild) -> bool { match c { MoveFromChild::Run(b) => ran(*b),  _ => false } }
pub open spec fn toks_MoveFrom(c: Seq<MoveFromChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_MoveFrom(c[0], Seq::empty()) + toks_MoveFrom(c.skip(1)) } }
proof fn lemma_kids_MoveFrom(c: Seq<MoveFromChild>, log: Seq<Tok>) ensures kids_MoveFrom(c, log) == log + toks_MoveFrom(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_MoveFrom(c) =~= log); } else {
        let k = kid_MoveFrom(c[0], Seq::empty()); assert(kid_MoveFrom(c[0], log) =~= log + k);
        lemma_kids_MoveFrom(c.skip(1), kid_MoveFrom(c[0], log));
        assert(log + k + toks_MoveFrom(c.skip(1)) =~= log + (k + toks_MoveFrom(c.skip(1))));
    }
}
proof fn lemma_all_MoveFrom(c: Seq<MoveFromChild>, rest: Seq<Tok>, x: Seq<MoveFromChild>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_MoveFrom(#[trigger] c[i])
    ensures rd_MoveFrom(toks_MoveFrom(c) + rest, x) == rd_MoveFrom(rest, x + c) decreases c.len()
{
    if c.len() == 0 { assert(toks_MoveFrom(c) + rest =~= rest); assert(x + c =~= x); } else {
        assert(settled_MoveFrom(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_MoveFrom(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_MoveFrom(c[0], Seq::empty()); let m = toks_MoveFrom(c.skip(1)) + rest; let s = toks_MoveFrom(c) + rest; assert(s =~= k + m);
        match c[0] {
            MoveFromChild::Run(b) => { lemma_ran(*b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            
            _ => {}
        }
        assert(rd_MoveFrom(s, x) == rd_MoveFrom(m, x.push(c[0]))) by { reveal_with_fuel(rd_MoveFrom, 2); }
        lemma_all_MoveFrom(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }
}
/// Whatever follows the change, reading what was written for it gives the same author, date and content in the same order.
proof fn theorem_tracked_moveFrom(x: MoveFrom, id: Seq<char>, log: Seq<Tok>, rest: Seq<Tok>)
    requires escaped(seen(x.author@)) == x.author, seen(x.date@) == x.date@, forall |i: int| 0 <= i < x.children@.len() ==> settled_MoveFrom(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_MoveFrom(x, id, log) == log.push(Tok::Open(El { n: "moveFrom"@, a: by(id, x.author@, x.date@) })) + b && #[trigger] rd_MoveFrom(b + rest, Seq::empty()) == Some((x.children@, rest)),
        forall |y: Ch<MoveFromChild>| #[trigger] told(y, by(id, x.author@, x.date@), x.children@) ==> y == v_MoveFrom(x)
{
    lits(); let c = x.children@; let e = Tok::Close("moveFrom"@); let b = toks_MoveFrom(c).push(e); let h = log.push(Tok::Open(El { n: "moveFrom"@, a: by(id, x.author@, x.date@) }));
    lemma_kids_MoveFrom(c, h); assert(onto_MoveFrom(x, id, log) =~= h + b);
    let tail = seq![e] + rest; assert(b + rest =~= toks_MoveFrom(c) + tail); lemma_all_MoveFrom(c, tail, Seq::empty());
    assert(Seq::<MoveFromChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_MoveFrom(tail, c) == Some((c, rest))) by { reveal_with_fuel(rd_MoveFrom, 2); }
    lemma_by(id, x.author@, x.date@);
}
// ---- MoveTo
pub open spec fn v_MoveTo(x: MoveTo) -> Ch<MoveToChild> { Ch { author: x.author, date: x.date, c: x.children@ } }
//@fn <MoveTo as Default>::default r=out
//@| ensures out.children@ == Seq::<MoveToChild>::empty(),
//@end
//@fn MoveTo::new_with_empty
//@| ensures r.children@ == Seq::<MoveToChild>::empty(),
//@sub `..Default::default()` => `..MoveTo::default()`
//@end
//@fn MoveTo::add_run
//@| ensures v_MoveTo(r) == (Ch { c: self.children@.push(MoveToChild::Run(Box::new(run))), ..v_MoveTo(self) }),
//@end
//@fn MoveTo::add_delete
//@| ensures v_MoveTo(r) == (Ch { c: self.children@.push(MoveToChild::Delete(del)), ..v_MoveTo(self) }),
//@end
//@fn MoveTo::add_comment_start ext
//@end
//@fn MoveTo::add_comment_end ext
//@end
//@fn MoveTo::author
//@| ensures v_MoveTo(r) == (Ch { author: escaped(author.chars()), ..v_MoveTo(self) }),
//@end
//@fn MoveTo::date
//@| ensures v_MoveTo(r) == (Ch { date: strv(date.chars()), ..v_MoveTo(self) }),
//@end
pub open spec fn rd_MoveTo(t: Seq<Tok>, c: Seq<MoveToChild>) -> Option<(Seq<MoveToChild>, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "r"@ { match run_val(t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_MoveTo(y.1, c.push(MoveToChild::Run(Box::new(y.0)))) } else { None }, None => None } }
            else if e.n == "del"@ { match del_val(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd_MoveTo(y.1, c.push(MoveToChild::Delete(y.0))) } else { None }, None => None } } else { None },
        Tok::Close(n) => if n == "moveTo"@ { Some((c, t.skip(1))) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <MoveTo as ElementReader>::read r=out
//@| ensures rd_MoveTo(old(r).todo(), Seq::empty()) matches Some(y) ==> (out matches Ok(z) && told(v_MoveTo(z), av(attrs@), y.0)) && final(r).todo() == y.1,
//@sub `.expect("should convert to XMLElement")` => `.unwrap()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd_MoveTo(r.todo(), Seq::empty()); let ghost vx_o = mt;
//@loop 0
//@| invariant vx_g == rd_MoveTo(old(r).todo(), Seq::empty()), vx_g is Some ==> rd_MoveTo(r.todo(), mt.children@) == vx_g && mt.author == vx_o.author && mt.date == vx_o.date,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd_MoveTo, 2); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_g == rd_MoveTo(old(r).todo(), Seq::empty()), vx_g is Some ==> vx_g == Some((mt.children@, r.todo())) && v_MoveTo(mt) == fin(vx_o.author, vx_o.date, av(attrs@).take(it.index@ as int), mt.children@),
//@loopstart 1
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: attr.name.local_name@, v: attr.value@ })); reveal_strlit("author"); reveal_strlit("date"); }
//@afterloop 1
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); assert(vx_g is Some ==> v_MoveTo(mt) == fin(vx_o.author, vx_o.date, av(attrs@), mt.children@)); assert(vx_g is Some ==> vx_g == Some((mt.children@, r.todo()))); }
//@end
pub open spec fn settled_MoveTo(c: MoveToChild) -> bool { match c { MoveToChild::Run(b) => ran(*b), MoveToChild::Delete(b) => gone(b), _ => false } }
pub open spec fn toks_MoveTo(c: Seq<MoveToChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { kid_MoveTo(c[0], Seq::empty()) + toks_MoveTo(c.skip(1)) } }
proof fn lemma_kids_MoveTo(c: Seq<MoveToChild>, log: Seq<Tok>) ensures kids_MoveTo(c, log) == log + toks_MoveTo(c) decreases c.len()
{
    if c.len() == 0 { assert(log + toks_MoveTo(c) =~= log); } else {
        let k = kid_MoveTo(c[0], Seq::empty()); assert(kid_MoveTo(c[0], log) =~= log + k);
        lemma_kids_MoveTo(c.skip(1), kid_MoveTo(c[0], log));
        assert(log + k + toks_MoveTo(c.skip(1)) =~= log + (k + toks_MoveTo(c.skip(1))));
    }
}
proof fn lemma_all_MoveTo(c: Seq<MoveToChild>, rest: Seq<Tok>, x: Seq<MoveToChild>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_MoveTo(#[trigger] c[i])
    ensures rd_MoveTo(toks_MoveTo(c) + rest, x) == rd_MoveTo(rest, x + c) decreases c.len()
{
    if c.len() == 0 { assert(toks_MoveTo(c) + rest =~= rest); assert(x + c =~= x); } else {
        assert(settled_MoveTo(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_MoveTo(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        let k = kid_MoveTo(c[0], Seq::empty()); let m = toks_MoveTo(c.skip(1)) + rest; let s = toks_MoveTo(c) + rest; assert(s =~= k + m);
        match c[0] {
            MoveToChild::Run(b) => { lemma_ran(*b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }
            MoveToChild::Delete(b) => { let a = lemma_gone(b, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(b) + m); }
            _ => {}
        }
        assert(rd_MoveTo(s, x) == rd_MoveTo(m, x.push(c[0]))) by { reveal_with_fuel(rd_MoveTo, 2); }
        lemma_all_MoveTo(c.skip(1), rest, x.push(c[0]));
        assert(x.push(c[0]) + c.skip(1) =~= x + c);
    }
}
/// Whatever follows the change, reading what was written for it gives the same author, date and content in the same order.
proof fn theorem_tracked_moveTo(x: MoveTo, id: Seq<char>, log: Seq<Tok>, rest: Seq<Tok>)
    requires escaped(seen(x.author@)) == x.author, seen(x.date@) == x.date@, forall |i: int| 0 <= i < x.children@.len() ==> settled_MoveTo(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_MoveTo(x, id, log) == log.push(Tok::Open(El { n: "moveTo"@, a: by(id, x.author@, x.date@) })) + b && #[trigger] rd_MoveTo(b + rest, Seq::empty()) == Some((x.children@, rest)),
        forall |y: Ch<MoveToChild>| #[trigger] told(y, by(id, x.author@, x.date@), x.children@) ==> y == v_MoveTo(x)
{
    lits(); let c = x.children@; let e = Tok::Close("moveTo"@); let b = toks_MoveTo(c).push(e); let h = log.push(Tok::Open(El { n: "moveTo"@, a: by(id, x.author@, x.date@) }));
    lemma_kids_MoveTo(c, h); assert(onto_MoveTo(x, id, log) =~= h + b);
    let tail = seq![e] + rest; assert(b + rest =~= toks_MoveTo(c) + tail); lemma_all_MoveTo(c, tail, Seq::empty());
    assert(Seq::<MoveToChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_MoveTo(tail, c) == Some((c, rest))) by { reveal_with_fuel(rd_MoveTo, 2); }
    lemma_by(id, x.author@, x.date@);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
