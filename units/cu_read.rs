//@include prelude.rs
use std::collections::HashMap;
verus! {
//@include rd_pre.rs
//@gsub `.push_str(&` => `.vx_push(&`
//@include rx_spec.rs
//@include cu_spec.rs
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxPush { fn vx_push(&mut self, t: &str); }
impl VxPush for String { #[verifier::external_body] fn vx_push(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() } }
broadcast use ax::str_ext, vals::string_val, vals::str_shown, vals::string_shown;
pub enum ReaderError { ZipError, XMLReadError, Unknown }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub mod vx_unused { pub struct StartElement; }
pub trait Read: Sized { spec fn part(&self) -> Seq<Tok>; }
// TRUSTED: the event reader gives out the tokens of the part that are not empty texts, one by one, then the end of the document (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    (XmlEvent::Whitespace(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
//@fn EventReader::new ext
//@| ensures r.todo() == seen_toks(reader.part()),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@|   old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
//@end
/// The tokens a reader is given: no empty texts.
pub open spec fn shows(t: Tok) -> bool { !(t matches Tok::Chars(s) && s.len() == 0) }
pub open spec fn seen_toks(t: Seq<Tok>) -> Seq<Tok> decreases t.len()
{ if t.len() == 0 { t } else if shows(t.last()) { seen_toks(t.drop_last()).push(t.last()) } else { seen_toks(t.drop_last()) } }
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/name.rs::read_name
//@| ensures opt(r) == first(av(attrs@), "name"@),
//@at start
//@| proof { lemma_first(av(attrs@), "name"@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != "name"@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), "name"@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r matches Ok(e) && (e == XMLElement::Property <==> s@ == "property"@),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal_strlit("property"); }
//@end
//@fn <VtXMLElement as FromStr>::from_str autostr
//@| ensures r matches Ok(e) && (e == VtXMLElement::Lpwstr <==> s@ == "lpwstr"@),
//@at start
//@| proof { reveal_strlit("lpwstr"); }
//@end
//@item CustomProps
// TRUSTED: the derived default is empty; a hash map keeps one value for each name, the last given.
//@fn CustomProps::new ext
//@| ensures held(r.properties) == Map::<Seq<char>, Seq<char>>::empty(),
//@end
#[verifier::external_body] pub fn vx_insert(h: &mut HashMap<String, String>, k: String, v: String) ensures held(*final(h)) == held(*old(h)).insert(k@, v@) { unimplemented!() }
//@fn CustomProps::add_custom_property
//@| ensures held(r.properties) == held(self.properties).insert(name.chars(), item.chars()),
//@sub `.properties.insert(` => `.properties.vx_put(`
//@end
pub trait VxPut { fn vx_put(&mut self, k: String, v: String); }
impl VxPut for HashMap<String, String> { #[verifier::external_body] fn vx_put(&mut self, k: String, v: String) ensures held(*final(self)) == held(*old(self)).insert(k@, v@) { unimplemented!() } }

// ---- what reading the tokens gives
pub type Props = Map<Seq<char>, Seq<char>>;
/// The text up to the next end of an element, and what follows that; None if there is none.
pub open spec fn text(t: Seq<Tok>, v: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> decreases t.len()
{ if t.len() == 0 { None } else { match t[0] { Tok::Close(_) => Some((v, t.skip(1))), Tok::Chars(s) => text(t.skip(1), v + s), _ => text(t.skip(1), v) } } }
pub open spec fn outside(t: Seq<Tok>, m: Props) -> Option<Props> decreases t.len()
{
    if t.len() == 0 { Some(m) } else { match t[0] {
        Tok::Open(e) => if e.n == "property"@ && first(e.a, "name"@) is Some { inside(t.skip(1), first(e.a, "name"@)->Some_0, m) } else { outside(t.skip(1), m) },
        _ => outside(t.skip(1), m),
    } }
}
pub open spec fn inside(t: Seq<Tok>, k: Seq<char>, m: Props) -> Option<Props> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if e.n == "lpwstr"@ { match text(t.skip(1), Seq::empty()) { Some(x) => if x.1.len() < t.len() { inside(x.1, k, m.insert(k, x.0)) } else { None }, None => None } } else { inside(t.skip(1), k, m) },
        Tok::Close(n) => if n == "property"@ { outside(t.skip(1), m) } else { inside(t.skip(1), k, m) },
        _ => inside(t.skip(1), k, m),
    } }
}
proof fn lemma_text(t: Seq<Tok>, v: Seq<char>) ensures text(t, v) matches Some(x) ==> x.1.len() < t.len() decreases t.len()
{ if t.len() > 0 { match t[0] { Tok::Chars(s) => { lemma_text(t.skip(1), v + s); } _ => { lemma_text(t.skip(1), v); } } } }
//@fn reader/custom_properties.rs::read_value r=out
//@| ensures text(old(r).todo(), Seq::empty()) matches Some(x) ==> (out matches Ok(s) && s@ == x.0 && final(r).todo() == x.1),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@sub `match r.next_event()` => `let vx_ev = r.next_event(); match vx_ev`
//@loop 0
//@| invariant text(old(r).todo(), Seq::empty()) is Some ==> text(r.todo(), value@) == text(old(r).todo(), Seq::empty()),
//@at start
//@| proof { reveal_strlit(""); }
//@before `loop {`
//@| proof { assert(value@ =~= Seq::<char>::empty()); }
//@loopstart 0
//@| let ghost vx_t = r.todo(); let ghost vx_v = value@;
//@| proof { reveal_with_fuel(text, 2); }
//@end
//@fn <CustomProps as FromXML>::from_xml r=out
//@| ensures outside(seen_toks(reader.part()), Map::empty()) matches Some(m) ==> (out matches Ok(p) && held(p.properties) == m),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@loop 0
//@| invariant vx_m == outside(seen_toks(reader.part()), Map::empty()), vx_m is Some ==> outside(r.todo(), held(props.properties)) == vx_m,
//@before `loop {`
//@| let ghost vx_m = outside(r.todo(), Map::empty());
//@loopstart 0
//@| proof { reveal_with_fuel(outside, 2); }
//@loop 1
//@| invariant_except_break vx_m is Some ==> inside(r.todo(), key@, held(props.properties)) == vx_m,
//@| invariant vx_m == outside(seen_toks(reader.part()), Map::empty()),
//@| ensures vx_m is Some ==> outside(r.todo(), held(props.properties)) == vx_m,
//@loopstart 1
//@| proof { reveal_with_fuel(inside, 2); if r.todo().len() > 0 { lemma_text(r.todo().skip(1), Seq::empty()); } }
//@end

// ---- custom properties written and read are the same
pub open spec fn kept(s: Seq<char>) -> bool { seen(escaped(s)@) == s }
pub open spec fn toks(i: usize, e: Pair) -> Seq<Tok> {
    if e.1.len() == 0 { seq![Tok::Open(prop_el(i, e.0)), Tok::Open(str_el()), Tok::Close("lpwstr"@), Tok::Close("property"@)] }
    else { seq![Tok::Open(prop_el(i, e.0)), Tok::Open(str_el()), Tok::Chars(e.1), Tok::Close("lpwstr"@), Tok::Close("property"@)] }
}
pub open spec fn all_toks(e: Seq<Pair>, i: usize) -> Seq<Tok> decreases e.len()
{ if e.len() == 0 { Seq::empty() } else { toks(i, e[0]) + all_toks(e.skip(1), (i + 1) as usize) } }
pub open spec fn keeps(e: Seq<Pair>) -> bool { forall |i: int| 0 <= i < e.len() ==> kept((#[trigger] e[i]).0) && kept(e[i].1) }
proof fn lemma_push(l: Seq<Tok>, t: Tok) ensures seen_toks(l.push(t)) == (if shows(t) { seen_toks(l).push(t) } else { seen_toks(l) }) { assert(l.push(t).drop_last() =~= l); }
proof fn lemma_seen(e: Seq<Pair>, i: usize, l: Seq<Tok>)
    requires keeps(e) ensures seen_toks(put_props(e, i, l)) == seen_toks(l) + all_toks(e, i)
    decreases e.len()
{
    if e.len() == 0 { assert(seen_toks(l) + all_toks(e, i) =~= seen_toks(l)); } else {
        let a = l.push(Tok::Open(prop_el(i, e[0].0))); let b = a.push(Tok::Open(str_el())); let c = b.push(Tok::Chars(seen(escaped(e[0].1)@))); let d = c.push(Tok::Close("lpwstr"@));
        lemma_push(l, Tok::Open(prop_el(i, e[0].0))); lemma_push(a, Tok::Open(str_el())); lemma_push(b, Tok::Chars(seen(escaped(e[0].1)@))); lemma_push(c, Tok::Close("lpwstr"@)); lemma_push(d, Tok::Close("property"@));
        assert(kept(e[0].1));
        let p = put_prop(i, e[0], l);
        assert(seen_toks(p) =~= seen_toks(l) + toks(i, e[0]));
        assert forall |j: int| 0 <= j < e.skip(1).len() implies kept((#[trigger] e.skip(1)[j]).0) && kept(e.skip(1)[j].1) by { assert(e.skip(1)[j] == e[j + 1]); }
        lemma_seen(e.skip(1), (i + 1) as usize, p);
        assert((seen_toks(l) + toks(i, e[0])) + all_toks(e.skip(1), (i + 1) as usize) =~= seen_toks(l) + all_toks(e, i));
    }
}
pub open spec fn taken(e: Seq<Pair>, m: Props) -> Props decreases e.len() { if e.len() == 0 { m } else { taken(e.skip(1), m.insert(e[0].0, e[0].1)) } }
proof fn lemma_one(i: usize, e: Pair, t: Seq<Tok>, m: Props)
    requires kept(e.0) ensures outside(toks(i, e) + t, m) == outside(t, m.insert(e.0, e.1))
{
    reveal_strlit("property"); reveal_strlit("lpwstr"); reveal_strlit("name"); reveal_strlit("fmtid"); reveal_strlit("pid");
    let a = prop_at(i, e.0); assert("fmtid"@ != "name"@ && "pid"@ != "name"@);
    assert(a.skip(1)[0].n == "pid"@); assert(a.skip(1).skip(1)[0].n == "name"@); reveal_with_fuel(first, 4);
    assert(first(a, "name"@) == Some(e.0));
    let s = toks(i, e) + t; let u = s.skip(1); let w = u.skip(1);
    assert(s[0] == Tok::Open(prop_el(i, e.0))); assert(outside(s, m) == inside(u, e.0, m));
    assert(u[0] == Tok::Open(str_el()));
    let m2 = m.insert(e.0, e.1);
    let x = seq![Tok::Close("property"@)] + t;
    if e.1.len() == 0 { assert(w[0] == Tok::Close("lpwstr"@)); assert(w.skip(1) =~= x); assert(text(w, Seq::empty()) == Some((Seq::<char>::empty(), x))); assert(e.1 =~= Seq::<char>::empty()); }
    else { assert(w[0] == Tok::Chars(e.1)); assert(w.skip(1)[0] == Tok::Close("lpwstr"@)); assert(w.skip(1).skip(1) =~= x); assert(Seq::<char>::empty() + e.1 =~= e.1); reveal_with_fuel(text, 3); assert(text(w, Seq::empty()) == Some((e.1, x))); }
    assert(inside(u, e.0, m) == inside(x, e.0, m2));
    assert(x[0] == Tok::Close("property"@)); assert(x.skip(1) =~= t);
}
proof fn lemma_all(e: Seq<Pair>, i: usize, t: Seq<Tok>, m: Props)
    requires keeps(e) ensures outside(all_toks(e, i) + t, m) == outside(t, taken(e, m))
    decreases e.len()
{
    if e.len() == 0 { assert(all_toks(e, i) + t =~= t); } else {
        let r = all_toks(e.skip(1), (i + 1) as usize);
        assert(all_toks(e, i) + t =~= toks(i, e[0]) + (r + t));
        assert(kept(e[0].0));
        lemma_one(i, e[0], r + t, m);
        assert forall |j: int| 0 <= j < e.skip(1).len() implies kept((#[trigger] e.skip(1)[j]).0) && kept(e.skip(1)[j].1) by { assert(e.skip(1)[j] == e[j + 1]); }
        lemma_all(e.skip(1), (i + 1) as usize, t, m.insert(e[0].0, e[0].1));
    }
}
pub open spec fn apart(e: Seq<Pair>) -> bool { forall |i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0 }
proof fn lemma_taken(e: Seq<Pair>, m: Props)
    requires apart(e)
    ensures forall |i: int| 0 <= i < e.len() ==> taken(e, m).contains_key((#[trigger] e[i]).0) && taken(e, m)[e[i].0] == e[i].1,
        forall |k: Seq<char>| (forall |i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k) ==> (#[trigger] taken(e, m).contains_key(k) == m.contains_key(k)) && taken(e, m)[k] == m[k],
    decreases e.len()
{
    if e.len() > 0 {
        let s = e.skip(1); let n = m.insert(e[0].0, e[0].1);
        assert forall |i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(s[i] == e[i + 1] && s[j] == e[j + 1]); }
        lemma_taken(s, n);
        assert forall |j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 != e[0].0 by { assert(s[j] == e[j + 1]); }
        assert(taken(s, n).contains_key(e[0].0) == n.contains_key(e[0].0));
        assert forall |i: int| 0 <= i < e.len() implies taken(e, m).contains_key((#[trigger] e[i]).0) && taken(e, m)[e[i].0] == e[i].1 by { if i > 0 { assert(s[i - 1] == e[i]); } }
        assert forall |k: Seq<char>| (forall |i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k) implies (#[trigger] taken(e, m).contains_key(k) == m.contains_key(k)) && taken(e, m)[k] == m[k] by {
            assert(e[0].0 != k);
            assert forall |j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 != k by { assert(s[j] == e[j + 1]); }
            assert(taken(s, n).contains_key(k) == n.contains_key(k));
        }
    }
}
/// What is written for custom properties is read as these properties.
pub proof fn theorem_custom_properties(h: HashMap<String, String>, a: Seq<At>)
    requires forall |k: Seq<char>| #[trigger] held(h).contains_key(k) ==> kept(k) && kept(held(h)[k]),
    ensures outside(seen_toks(part(held(h), Seq::empty(), a)), Map::empty()) == Some(held(h))
{
    listed(h);
    let m = held(h); let e = entries(m); let o = Tok::Open(El { n: "Properties"@, a }); let l = Seq::<Tok>::empty().push(o);
    reveal_strlit("Properties"); reveal_strlit("property");
    lemma_push(Seq::empty(), o); lemma_push(put_props(e, 0, l), Tok::Close("Properties"@));
    lemma_seen(e, 0, l);
    let c = seq![Tok::Close("Properties"@)];
    let t = seen_toks(part(m, Seq::empty(), a));
    assert(t =~= seq![o] + (all_toks(e, 0) + c));
    assert(t[0] == o); assert(t.skip(1) =~= all_toks(e, 0) + c);
    lemma_all(e, 0, c, Map::empty());
    lemma_taken(e, Map::empty());
    let r = taken(e, Map::empty());
    assert(c.skip(1) =~= Seq::<Tok>::empty()); reveal_with_fuel(outside, 3);
    assert forall |k: Seq<char>| r.contains_key(k) == #[trigger] m.contains_key(k) && (m.contains_key(k) ==> r[k] == m[k]) by {
        if m.contains_key(k) { let i = choose |i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; }
        else { assert forall |i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0 != k by {} assert(r.contains_key(k) == Map::<Seq<char>, Seq<char>>::empty().contains_key(k)); }
    }
    assert(r =~= m);
}
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
