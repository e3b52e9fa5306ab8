//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include ro_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
/// What is read from, as tokens.
pub trait Part { spec fn part(&self) -> Seq<Tok>; }
impl<R> Part for R { uninterp spec fn part(&self) -> Seq<Tok>; }
//@fn EventReader::new ext
//@| ensures r.todo() == reader.part(),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
//@|   old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "tr"@ { Some(XMLElement::TableRow) } else if n == "trPr"@ { Some(XMLElement::Unsupported) } else if n == "trHeight"@ { Some(XMLElement::TableRowHeight) } else if n == "del"@ { Some(XMLElement::Delete) } else if n == "ins"@ { Some(XMLElement::Insert) } else if n == "tc"@ { Some(XMLElement::TableCell) } else if n == "cantSplit"@ { Some(XMLElement::Unsupported) } else { None } }
proof fn cks() ensures ck("tr"@) == Some(XMLElement::TableRow), ck("trPr"@) == Some(XMLElement::Unsupported), ck("trHeight"@) == Some(XMLElement::TableRowHeight), ck("del"@) == Some(XMLElement::Delete), ck("ins"@) == Some(XMLElement::Insert), ck("tc"@) == Some(XMLElement::TableCell), ck("cantSplit"@) == Some(XMLElement::Unsupported) { reveal(ck); reveal_strlit("tr"); reveal_strlit("trPr"); reveal_strlit("trHeight"); reveal_strlit("del"); reveal_strlit("ins"); reveal_strlit("tc"); reveal_strlit("cantSplit"); assert("tr"@[1] != "tc"@[1]); assert("del"@[0] != "ins"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("tr"); reveal_strlit("trPr"); reveal_strlit("trHeight"); reveal_strlit("del"); reveal_strlit("ins"); reveal_strlit("tc"); reveal_strlit("cantSplit"); }
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <TableCell as ElementReader>::read ext r=out
//@| ensures nest_val::<TableCell>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<TableCell, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <Delete as ElementReader>::read ext r=out
//@| ensures nest_val::<Delete>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Delete, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn <Insert as ElementReader>::read ext r=out
//@| ensures nest_val::<Insert>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<Insert, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
//@fn reader/attributes/val.rs::read_val
//@| ensures opt(r) == first(av(attrs@), "val"@),
//@at start
//@| proof { lemma_first(av(attrs@), "val"@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != "val"@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), "val"@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end
/// What a text is as a value.
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
pub mod rules {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn rule(t: &HeightRule) ensures #![trigger shown_of::<HeightRule>(t)] named::<HeightRule>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
}
//@fn <HeightRule as FromStr>::from_str ext
//@| ensures (match (r, named::<HeightRule>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn reader/attributes/width.rs::read_width ext
//@end
#[verifier::external_body] fn vx_f32(n: isize) -> f32 { unimplemented!() }
pub struct Rv { pub c: Seq<TableCell>, pub h: Option<f32>, pub rule: Option<HeightRule>, pub del: Option<Delete>, pub ins: Option<Insert> }
pub open spec fn kids(c: Seq<TableCell>) -> Seq<TableRowChild> { c.map_values(|x: TableCell| TableRowChild::TableCell(x)) }
pub open spec fn prop_of(v: Rv) -> TableRowProperty { TableRowProperty { grid_after: None, width_after: None, grid_before: None, width_before: None, row_height: v.h, height_rule: v.rule, del: v.del, ins: v.ins, cant_split: None } }
pub open spec fn nothing() -> Rv { Rv { c: Seq::empty(), h: None, rule: None, del: None, ins: None } }
// TRUSTED: a new row holds the cells it is made of, in order, and no formatting.
//@fn TableRow::new ext
//@| ensures r.cells@ == kids(cells@), r.property == prop_of(nothing()),
//@end
//@fn TableRowProperty::grid_after r=out
//@| ensures out == (TableRowProperty { grid_after: Some(after), ..self }),
//@end
//@fn TableRow::grid_after r=out
//@| ensures out == (TableRow { property: TableRowProperty { grid_after: Some(grid_after), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::width_after r=out
//@| ensures out == (TableRowProperty { width_after: Some(w), ..self }),
//@end
//@fn TableRow::width_after r=out
//@| ensures out == (TableRow { property: TableRowProperty { width_after: Some(w), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::grid_before r=out
//@| ensures out == (TableRowProperty { grid_before: Some(before), ..self }),
//@end
//@fn TableRow::grid_before r=out
//@| ensures out == (TableRow { property: TableRowProperty { grid_before: Some(grid_before), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::width_before r=out
//@| ensures out == (TableRowProperty { width_before: Some(w), ..self }),
//@end
//@fn TableRow::width_before r=out
//@| ensures out == (TableRow { property: TableRowProperty { width_before: Some(w), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::row_height r=out
//@| ensures out == (TableRowProperty { row_height: Some(h), ..self }),
//@end
//@fn TableRow::row_height r=out
//@| ensures out == (TableRow { property: TableRowProperty { row_height: Some(h), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::height_rule r=out
//@| ensures out == (TableRowProperty { height_rule: Some(r), ..self }),
//@end
//@fn TableRow::height_rule r=out
//@| ensures out == (TableRow { property: TableRowProperty { height_rule: Some(r), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::delete r=out
//@| ensures out == (TableRowProperty { del: Some(d), ..self }),
//@end
//@fn TableRow::delete r=out
//@| ensures out == (TableRow { property: TableRowProperty { del: Some(d), ..self.property }, ..self }),
//@end
//@fn TableRowProperty::insert r=out
//@| ensures out == (TableRowProperty { ins: Some(i), ..self }),
//@end
//@fn TableRow::insert r=out
//@| ensures out == (TableRow { property: TableRowProperty { ins: Some(i), ..self.property }, ..self }),
//@end
pub open spec fn high_of(a: Seq<At>, x: Rv) -> Rv { Rv {
    h: match first(a, "val"@) { Some(v) => match parsed::<f32>(v) { Some(h) => Some(h), None => x.h }, None => x.h },
    rule: match first(a, "hRule"@) { Some(v) => match named::<HeightRule>(v) { Some(h) => Some(h), None => x.rule }, None => x.rule },
    ..x } }
pub open spec fn rdr(t: Seq<Tok>, x: Rv) -> Option<(Rv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "tc"@ { match nest_val::<TableCell>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { c: x.c.push(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "del"@ { match nest_val::<Delete>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { del: Some(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "ins"@ { match nest_val::<Insert>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { ins: Some(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "trHeight"@ { rdr(t.skip(1), high_of(e.a, x)) }
            else if e.n == "trPr"@ || e.n == "cantSplit"@ { rdr(t.skip(1), x) }
            else { None },
        Tok::Close(m) => if m == "tr"@ { Some((x, t.skip(1))) } else if m == "trPr"@ || m == "trHeight"@ || m == "cantSplit"@ { rdr(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <TableRow as ElementReader>::read r=out
//@| ensures rdr(old(r).todo(), nothing()) matches Some(y) ==> (out matches Ok(z) && z.cells@ == kids(y.0.c) && z.property == prop_of(y.0)) && final(r).todo() == y.1,
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@sub `u32::from_str(&v)` => `vx_parse::<u32>(&v)`
//@sub `f32::from_str(&v)` => `vx_parse::<f32>(&v)`
//@sub `v.0 as f32` => `vx_f32(v.0)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@before `loop {`
//@| let ghost vx_g = rdr(r.todo(), nothing()); assert(Rv { c: cells@, h: row_height, rule: height_rule, del, ins } == nothing());
//@loop 0
//@| invariant vx_g == rdr(old(r).todo(), nothing()), vx_g is Some ==> rdr(r.todo(), Rv { c: cells@, h: row_height, rule: height_rule, del, ins }) == vx_g && grid_after is None && width_after is None && grid_before is None && width_before is None,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rdr, 2); }
//@end
proof fn lits() ensures "tr"@ != "trPr"@, "tr"@ != "trHeight"@, "tr"@ != "del"@, "tr"@ != "ins"@, "tr"@ != "tc"@, "tr"@ != "cantSplit"@, "trPr"@ != "trHeight"@, "trPr"@ != "del"@, "trPr"@ != "ins"@, "trPr"@ != "tc"@, "trPr"@ != "cantSplit"@, "trHeight"@ != "del"@, "trHeight"@ != "ins"@, "trHeight"@ != "tc"@, "trHeight"@ != "cantSplit"@, "del"@ != "ins"@, "del"@ != "tc"@, "del"@ != "cantSplit"@, "ins"@ != "tc"@, "ins"@ != "cantSplit"@, "tc"@ != "cantSplit"@
{ reveal_strlit("tr"); reveal_strlit("trPr"); reveal_strlit("trHeight"); reveal_strlit("del"); reveal_strlit("ins"); reveal_strlit("tc"); reveal_strlit("cantSplit"); assert("tr"@[1] != "tc"@[1]); assert("del"@[0] != "ins"@[0]); }
/// What has its own content is written between its tags and read back (cells: theorem_cell_content, tracked changes: theorem_tracked_ins and _del).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
pub open spec fn cell_toks(c: Seq<TableRowChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { nest_toks(cell_of(c[0])) + cell_toks(c.skip(1)) } }
pub open spec fn bare(c: Seq<TableRowChild>) -> Seq<TableCell> { c.map_values(|x: TableRowChild| cell_of(x)) }
proof fn lemma_cells(c: Seq<TableRowChild>, log: Seq<Tok>) ensures cells_onto(c, log) == log + cell_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + cell_toks(c) =~= log); } else {
        let k = nest_toks(cell_of(c[0])); lemma_cells(c.skip(1), log + k);
        assert(log + k + cell_toks(c.skip(1)) =~= log + (k + cell_toks(c.skip(1))));
    }
}
proof fn lemma_all_cells(c: Seq<TableRowChild>, rest: Seq<Tok>, x: Rv)
    requires forall |i: int| 0 <= i < c.len() ==> lasting(cell_of(#[trigger] c[i]), "tc"@)
    ensures rdr(cell_toks(c) + rest, x) == rdr(rest, Rv { c: x.c + bare(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(cell_toks(c) + rest =~= rest); assert(x.c + bare(c) =~= x.c); } else {
        lits(); assert(lasting(cell_of(c[0]), "tc"@));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies lasting(cell_of(#[trigger] c.skip(1)[i]), "tc"@) by { assert(c.skip(1)[i] == c[i + 1]); }
        let m = cell_toks(c.skip(1)) + rest; let s = cell_toks(c) + rest; let a = lemma_nest(cell_of(c[0]), "tc"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(cell_of(c[0])) + m);
        let y = Rv { c: x.c.push(cell_of(c[0])), ..x };
        assert(rdr(s, x) == rdr(m, y)) by { reveal_with_fuel(rdr, 2); }
        lemma_all_cells(c.skip(1), rest, y); assert(y.c + bare(c.skip(1)) =~= x.c + bare(c));
    }
}
pub open spec fn opt_toks<T>(v: Option<T>) -> Seq<Tok> { match v { Some(v) => nest_toks(v), None => Seq::empty() } }
pub open spec fn high_toks(p: TableRowProperty) -> Seq<Tok> { match p.row_height { Some(h) => one(Seq::empty(), high_el(h, rule_of(p.height_rule))), None => Seq::empty() } }
/// What is read of a row: everything that is written, with the height rule that was meant.
pub open spec fn rv(x: TableRow) -> Rv { Rv { c: bare(x.cells@), h: x.property.row_height, rule: if x.property.row_height is Some { Some(rule_of(x.property.height_rule)) } else { None }, del: x.property.del, ins: x.property.ins } }
/// What is written of a row is all there is to it, and what is in it is read back.
pub open spec fn settled(x: TableRow) -> bool {
    let p = x.property;
    &&& p.cant_split is None
    &&& (p.row_height matches Some(h) ==> parsed::<f32>(shown(h)@) == Some(h) && seen(shown(h)@) == shown(h)@)
    &&& (p.del matches Some(d) ==> lasting(d, "del"@))
    &&& (p.ins matches Some(d) ==> lasting(d, "ins"@))
    &&& (forall |i: int| 0 <= i < x.cells@.len() ==> lasting(cell_of(#[trigger] x.cells@[i]), "tc"@))
}
proof fn lemma_high(h: f32, r: HeightRule, x: Rv) requires parsed::<f32>(shown(h)@) == Some(h), seen(shown(h)@) == shown(h)@ ensures high_of(high_el(h, r).a, x) == (Rv { h: Some(h), rule: Some(r), ..x })
{
    broadcast use rules::rule; reveal_strlit("val"); reveal_strlit("hRule");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(h)@); let a2 = ats(a1, "hRule"@, shown(r)@);
    assert(seen(shown_of(&r)@) == shown_of(&r)@); assert(high_el(h, r).a == a2); assert("val"@ != "hRule"@);
    assert(a2.len() == 2); assert(a2[0].n == "val"@); assert(a2[1].n == "hRule"@); assert(a2.skip(1)[0] == a2[1]);
    reveal_with_fuel(first, 3);
}
proof fn lemma_prop(p: TableRowProperty, h: Seq<Tok>) requires p.cant_split is None
    ensures prop_onto(p, h) == h + (Seq::<Tok>::empty().push(plain("trPr"@)) + opt_toks(p.del) + opt_toks(p.ins) + high_toks(p)).push(Tok::Close("trPr"@))
{
    let z = Seq::<Tok>::empty(); let o = plain("trPr"@); let l0 = h.push(o); assert(l0 =~= h + z.push(o));
    let d = opt_toks(p.del); let i = opt_toks(p.ins); let g = high_toks(p);
    let l1 = opt_onto(p.del, l0); assert(l1 =~= l0 + d);
    let l2 = opt_onto(p.ins, l1); assert(l2 =~= l1 + i);
    let l3 = high_onto(p.row_height, p.height_rule, l2); assert(l3 =~= l2 + g);
    assert(l3.push(Tok::Close("trPr"@)) =~= h + (z.push(o) + d + i + g).push(Tok::Close("trPr"@)));
}
proof fn lemma_high_read(p: TableRowProperty, t4: Seq<Tok>, y: Rv)
    requires p.row_height matches Some(h) ==> parsed::<f32>(shown(h)@) == Some(h) && seen(shown(h)@) == shown(h)@, y.h is None, y.rule is None
    ensures rdr(high_toks(p) + t4, y) == rdr(t4, Rv { h: p.row_height, rule: if p.row_height is Some { Some(rule_of(p.height_rule)) } else { None }, ..y })
{
    lits(); let t3 = high_toks(p) + t4;
    match p.row_height { Some(v) => {
        let k = high_el(v, rule_of(p.height_rule)); lemma_high(v, rule_of(p.height_rule), y);
        assert(t3[0] == Tok::Open(k)); assert(t3.skip(1)[0] == Tok::Close("trHeight"@)); assert(t3.skip(1).skip(1) =~= t4); reveal_with_fuel(rdr, 3);
    } None => { assert(t3 =~= t4); } }
}
proof fn lemma_opts(del: Option<Delete>, ins: Option<Insert>, t3: Seq<Tok>, y: Rv)
    requires del matches Some(d) ==> lasting(d, "del"@), ins matches Some(d) ==> lasting(d, "ins"@), y.del is None, y.ins is None
    ensures rdr(opt_toks(del) + (opt_toks(ins) + t3), y) == rdr(t3, Rv { del, ins, ..y })
{
    lits(); let z = Seq::<Tok>::empty(); let t2 = opt_toks(ins) + t3; let t1 = opt_toks(del) + t2; let y1 = Rv { del, ..y }; let y2 = Rv { ins, ..y1 };
    assert(rdr(t1, y) == rdr(t2, y1)) by { match del { Some(v) => { let a = lemma_nest(v, "del"@, t2); assert(t1 =~= z + nest_toks(v) + t2); reveal_with_fuel(rdr, 2); } None => { assert(t1 =~= t2); } } }
    assert(rdr(t2, y1) == rdr(t3, y2)) by { match ins { Some(v) => { let a = lemma_nest(v, "ins"@, t3); assert(t2 =~= z + nest_toks(v) + t3); reveal_with_fuel(rdr, 2); } None => { assert(t2 =~= t3); } } }
}
proof fn lemma_back(c: Seq<TableRowChild>) ensures kids(bare(c)) == c { assert(kids(bare(c)) =~= c); }
proof fn lemma_body(x: TableRow, rest: Seq<Tok>) requires settled(x) ensures rdr(body(x) + rest, nothing()) == Some((rv(x), rest))
{
    lits(); let z = Seq::<Tok>::empty(); let c = x.cells@; let p = x.property; let e = Tok::Close("tr"@);
    let o = plain("trPr"@); let f = Tok::Close("trPr"@); let d = opt_toks(p.del); let i = opt_toks(p.ins); let g = high_toks(p); let b = body(x);
    let t6 = z.push(e) + rest; let t5 = cell_toks(c) + t6; let t4 = z.push(f) + t5; let t3 = g + t4; let t1 = d + (i + t3); assert(b + rest =~= z.push(o) + t1);
    let y0 = nothing(); let y2 = Rv { del: p.del, ins: p.ins, ..y0 }; let y3 = Rv { h: p.row_height, rule: rv(x).rule, ..y2 };
    assert((b + rest)[0] == o); assert((b + rest).skip(1) =~= t1); assert(rdr(b + rest, y0) == rdr(t1, y0)) by { reveal_with_fuel(rdr, 2); }
    lemma_opts(p.del, p.ins, t3, y0);
    lemma_high_read(p, t4, y2);
    assert(t4[0] == f); assert(t4.skip(1) =~= t5); assert(rdr(t4, y3) == rdr(t5, y3)) by { reveal_with_fuel(rdr, 2); }
    lemma_all_cells(c, t6, y3); assert(y3.c + bare(c) =~= bare(c));
    assert(t6[0] == e); assert(t6.skip(1) =~= rest); assert(rdr(t6, rv(x)) == Some((rv(x), rest))) by { reveal_with_fuel(rdr, 2); }
}
pub open spec fn body(x: TableRow) -> Seq<Tok> { ((Seq::<Tok>::empty().push(plain("trPr"@)) + opt_toks(x.property.del) + opt_toks(x.property.ins) + high_toks(x.property)).push(Tok::Close("trPr"@)) + cell_toks(x.cells@)).push(Tok::Close("tr"@)) }
/// Whatever follows the row, reading what was written for it gives the same cells and formatting.
proof fn theorem_row_content(x: TableRow, log: Seq<Tok>, rest: Seq<Tok>)
    requires settled(x)
    ensures exists |b: Seq<Tok>| tr_onto(x, log) == log.push(plain("tr"@)) + b && #[trigger] rdr(b + rest, nothing()) == Some((rv(x), rest)),
        kids(rv(x).c) == x.cells@,
        x.property.grid_after is None && x.property.width_after is None && x.property.grid_before is None && x.property.width_before is None ==> prop_of(rv(x)) == (TableRowProperty { height_rule: rv(x).rule, ..x.property }),
{
    let h = log.push(plain("tr"@)); let b = body(x);
    lemma_cells(x.cells@, prop_onto(x.property, h)); lemma_prop(x.property, h); assert(tr_onto(x, log) =~= h + b);
    lemma_body(x, rest); lemma_back(x.cells@);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
