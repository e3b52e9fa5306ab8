//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include tl_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
pub uninterp spec fn dflt<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
pub trait VxInto: Sized { spec fn chars(&self) -> Seq<char>; fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars(); }
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
impl VxInto for &String { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// TRUSTED: number parsing gives the number a number prints as; a cast of a number in range keeps it.
#[verifier::external_body] pub struct VxNumErr { x: u8 }
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn vx_parse<T>(s: &str) -> (r: Result<T, VxNumErr>)
    ensures (match (r, parsed::<T>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }) { unimplemented!() }
pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
pub enum ReaderError { ZipError, NumError, FloatError, TypeError(TypeError), XMLReadError, DocumentNotFoundError, DocumentRelsNotFoundError, DocumentStylesNotFoundError, DocumentNumberingsNotFoundError, HeaderOrFooterRelsNotFoundError, Unknown }
impl From<VxNumErr> for ReaderError { #[verifier::external_body] fn from(e: VxNumErr) -> Self { ReaderError::NumError } }
impl From<TypeError> for ReaderError { #[verifier::external_body] fn from(e: TypeError) -> Self { ReaderError::TypeError(e) } }
//@item reader/xml_parser.rs::OwnedName
//@item reader/xml_parser.rs::OwnedAttribute
//@item reader/xml_parser.rs::Namespace
//@item reader/xml_parser.rs::XmlEvent
#[verifier::external_body] pub struct VxXmlErr { x: u8 }
pub trait Read {}
pub mod vx_unused { pub struct StartElement; }
// TRUSTED: the event reader gives out the tokens of the part, one by one (its own code: unit reader).
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct EventReader<R> { x: R }
impl<R: Read> EventReader<R> { pub uninterp spec fn todo(&self) -> Seq<Tok>; }
/// The attributes as a reader sees them.
pub open spec fn av(s: Seq<OwnedAttribute>) -> Seq<At> { s.map_values(|a: OwnedAttribute| At { n: a.name.local_name@, v: a.value@ }) }
pub open spec fn is_tok(e: XmlEvent, t: Tok) -> bool { match (e, t) {
    (XmlEvent::StartElement { name, attributes, .. }, Tok::Open(x)) => name.local_name@ == x.n && av(attributes@) == x.a,
    (XmlEvent::EndElement { name }, Tok::Close(n)) => name.local_name@ == n,
    (XmlEvent::Characters(s), Tok::Chars(t)) => s@ == t,
    _ => false,
} }
/// What is read from, as tokens.
pub trait Part { spec fn part(&self) -> Seq<Tok>; }
impl<R> Part for R { uninterp spec fn part(&self) -> Seq<Tok>; }
//@fn EventReader::new ext
//@| ensures r.todo() == reader.part(),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
//@|   old(self).todo().len() > 0 ==> (r matches Ok(e) && is_tok(e, old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1)),
//@end
/// The first and the last attribute with a name.
pub open spec fn first(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n { Some(s[0].v) } else { first(s.skip(1), n) } }
pub open spec fn last(s: Seq<At>, n: Seq<char>) -> Option<Seq<char>> decreases s.len()
{ if s.len() == 0 { None } else if s.last().n == n { Some(s.last().v) } else { last(s.drop_last(), n) } }
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
proof fn lemma_first(s: Seq<At>, n: Seq<char>)
    ensures forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) ==> first(s, n) == Some(s[i].v),
        (forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n) ==> first(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s.skip(1), n);
        assert forall |i: int| 0 <= i < s.len() && (#[trigger] s[i]).n == n && (forall |j: int| 0 <= j < i ==> (#[trigger] s[j]).n != n) implies first(s, n) == Some(s[i].v) by {
            if i > 0 {
                assert(s.skip(1)[i - 1] == s[i]);
                assert forall |j: int| 0 <= j < i - 1 implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
            }
        }
        if forall |j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).n != n {
            assert forall |j: int| 0 <= j < s.skip(1).len() implies (#[trigger] s.skip(1)[j]).n != n by { assert(s.skip(1)[j] == s[j + 1]); }
        }
    }
}
//@fn reader/attributes/mod.rs::read
//@| ensures opt(r) == first(av(attrs@), target@),
//@at start
//@| proof { lemma_first(av(attrs@), target@); }
//@loop 0 iter=it
//@| invariant forall |j: int| 0 <= j < it.index@ ==> (#[trigger] av(attrs@)[j]).n != target@,
//@loopstart 0
//@| proof { lemma_first(av(attrs@), target@); assert(av(attrs@)[it.index@] == (At { n: a.name.local_name@, v: a.value@ })); }
//@end

#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> { if n == "tbl"@ { Some(XMLElement::Table) } else if n == "tblPr"@ { Some(XMLElement::TableProperty) } else if n == "tblGrid"@ { Some(XMLElement::TableGrid) } else if n == "gridCol"@ { Some(XMLElement::GridCol) } else if n == "tr"@ { Some(XMLElement::TableRow) } else { None } }
proof fn cks() ensures ck("tbl"@) == Some(XMLElement::Table), ck("tblPr"@) == Some(XMLElement::TableProperty), ck("tblGrid"@) == Some(XMLElement::TableGrid), ck("gridCol"@) == Some(XMLElement::GridCol), ck("tr"@) == Some(XMLElement::TableRow) { reveal(ck); reveal_strlit("tbl"); reveal_strlit("tblPr"); reveal_strlit("tblGrid"); reveal_strlit("gridCol"); reveal_strlit("tr"); assert("tblGrid"@[0] != "gridCol"@[0]); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("tbl"); reveal_strlit("tblPr"); reveal_strlit("tblGrid"); reveal_strlit("gridCol"); reveal_strlit("tr"); }
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
//@fn <TableRow as ElementReader>::read ext r=out
//@| ensures nest_val::<TableRow>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<TableRow, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <TableProperty as ElementReader>::read ext r=out
//@| ensures nest_val::<TableProperty>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<TableProperty, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
/// What a text is as a value; as a number; without percent signs.
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn float_to<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn without(a: Seq<char>) -> Seq<char>;
pub mod cells {
    use super::*;
    // TRUSTED: whole numbers from zero up are printed and read back exactly and contain neither markup nor a percent sign.
    pub broadcast axiom fn width_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] *n >= 0 ==> without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@ && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && seen(shown_of::<i32>(n)@) == shown_of::<i32>(n)@;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn wide(t: &WidthType) ensures #![trigger shown_of::<WidthType>(t)] *t != WidthType::Unsupported ==> named::<WidthType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
}
pub open spec fn wid_f(a: Seq<At>) -> Option<(isize, WidthType)> decreases a.len() {
    if a.len() == 0 { Some((0, WidthType::Auto)) } else { match wid_f(a.drop_last()) { None => None, Some(p) => {
        let n = a.last().n; let v = a.last().v;
        if n == "type"@ { match named::<WidthType>(v) { Some(t) => Some((p.0, t)), None => None } }
        else if n == "w"@ { match float_to::<isize>(without(v)) { Some(x) => Some((x, p.1)), None => None } } else { Some(p) } } } }
}
// Proved in unit rt_read.
//@fn reader/attributes/width.rs::read_width ext
//@| ensures (match (r, wid_f(av(attrs@))) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TableBorders as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <TableCellMargins as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <TableAlignmentType as FromStr>::from_str ext
//@end
pub struct Tv { pub p: TableProperty, pub g: Seq<usize>, pub r: Seq<TableChild> }
pub open spec fn tv(x: Table) -> Tv { Tv { p: x.property, g: x.grid@, r: x.rows@ } }
// TRUSTED: a table made of no rows has none.
//@fn Table::without_borders ext
//@| ensures rows@.len() == 0 ==> r.rows@ == Seq::<TableChild>::empty(),
//@end
//@fn Table::add_row
//@| ensures tv(r) == (Tv { r: self.rows@.push(TableChild::TableRow(row)), ..tv(self) }),
//@end
//@fn Table::set_grid
//@| ensures tv(r) == (Tv { g: grid@, ..tv(self) }),
//@end
pub open spec fn rdt(t: Seq<Tok>, x: Tv) -> Option<(Tv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "tblPr"@ { match nest_val::<TableProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdt(y.1, Tv { p: y.0, ..x }) } else { None }, None => None } }
            else if e.n == "tr"@ { match nest_val::<TableRow>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdt(y.1, Tv { r: x.r.push(TableChild::TableRow(y.0)), ..x }) } else { None }, None => None } }
            else if e.n == "gridCol"@ { match wid_f(e.a) { Some(w) => rdt(t.skip(1), Tv { g: x.g.push(w.0 as usize), ..x }), None => None } }
            else if e.n == "tblGrid"@ { rdt(t.skip(1), x) }
            else { None },
        Tok::Close(m) => if m == "tbl"@ { Some((x, t.skip(1))) } else if m == "gridCol"@ || m == "tblGrid"@ { rdt(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts(x: Tv) -> bool { x.g == Seq::<usize>::empty() && x.r == Seq::<TableChild>::empty() }
//@fn <Table as ElementReader>::read r=out
//@| ensures exists |x: Tv| starts(x) && (#[trigger] rdt(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && tv(z) == y.0) && final(r).todo() == y.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@before `loop {`
//@| let ghost vx_x = Tv { g: grid_col@, ..tv(t) }; let ghost vx_g = rdt(r.todo(), vx_x); assert(starts(vx_x));
//@loop 0
//@| invariant vx_g == rdt(old(r).todo(), vx_x), starts(vx_x), vx_g is Some ==> rdt(r.todo(), Tv { g: grid_col@, ..tv(t) }) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rdt, 2); }
//@end
proof fn lits() ensures "tbl"@ != "tblPr"@, "tbl"@ != "tblGrid"@, "tbl"@ != "gridCol"@, "tbl"@ != "tr"@, "tblPr"@ != "tblGrid"@, "tblPr"@ != "gridCol"@, "tblPr"@ != "tr"@, "tblGrid"@ != "gridCol"@, "tblGrid"@ != "tr"@, "gridCol"@ != "tr"@
{ reveal_strlit("tbl"); reveal_strlit("tblPr"); reveal_strlit("tblGrid"); reveal_strlit("gridCol"); reveal_strlit("tr"); assert("tblGrid"@[0] != "gridCol"@[0]); }
/// What has its own content is written between its tags and read back (formatting: theorem_table_formatting).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
pub open spec fn col_toks(g: Seq<usize>) -> Seq<Tok> decreases g.len() { if g.len() == 0 { Seq::empty() } else { one(Seq::empty(), col_el(g[0])) + col_toks(g.skip(1)) } }
pub open spec fn row_toks(c: Seq<TableChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { nest_toks(row_of(c[0])) + row_toks(c.skip(1)) } }
proof fn lemma_cols(g: Seq<usize>, log: Seq<Tok>) ensures cols_onto(g, log) == log + col_toks(g) decreases g.len()
{
    if g.len() == 0 { assert(log + col_toks(g) =~= log); } else {
        let k = one(Seq::empty(), col_el(g[0])); assert(one(log, col_el(g[0])) =~= log + k); lemma_cols(g.skip(1), log + k);
        assert(log + k + col_toks(g.skip(1)) =~= log + (k + col_toks(g.skip(1))));
    }
}
proof fn lemma_rows(c: Seq<TableChild>, log: Seq<Tok>) ensures rows_onto(c, log) == log + row_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + row_toks(c) =~= log); } else {
        let k = nest_toks(row_of(c[0])); lemma_rows(c.skip(1), log + k);
        assert(log + k + row_toks(c.skip(1)) =~= log + (k + row_toks(c.skip(1))));
    }
}
proof fn lemma_wide(n: usize) requires n <= i32::MAX ensures wid_f(col_el(n).a) == Some((n as isize, WidthType::Dxa)), (n as isize) as usize == n
{
    broadcast use cells::width_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let m = n as i32; let t = WidthType::Dxa;
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(m)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&m)@) == shown_of(&m)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid_f, 4); assert(col_el(n).a == a2);
}
proof fn lemma_all_cols(g: Seq<usize>, rest: Seq<Tok>, x: Tv)
    requires forall |i: int| 0 <= i < g.len() ==> #[trigger] g[i] <= i32::MAX
    ensures rdt(col_toks(g) + rest, x) == rdt(rest, Tv { g: x.g + g, ..x }) decreases g.len()
{
    if g.len() == 0 { assert(col_toks(g) + rest =~= rest); assert(x.g + g =~= x.g); } else {
        lits(); assert(g[0] <= i32::MAX); lemma_wide(g[0]);
        assert forall |i: int| 0 <= i < g.skip(1).len() implies #[trigger] g.skip(1)[i] <= i32::MAX by { assert(g.skip(1)[i] == g[i + 1]); }
        let m = col_toks(g.skip(1)) + rest; let s = col_toks(g) + rest; let k = one(Seq::empty(), col_el(g[0])); assert(s =~= k + m);
        assert(s[0] == Tok::Open(col_el(g[0]))); assert(s.skip(1)[0] == Tok::Close("gridCol"@)); assert(s.skip(1).skip(1) =~= m);
        let y = Tv { g: x.g.push(g[0]), ..x };
        assert(rdt(s, x) == rdt(m, y)) by { reveal_with_fuel(rdt, 3); }
        lemma_all_cols(g.skip(1), rest, y); assert(y.g + g.skip(1) =~= x.g + g);
    }
}
proof fn lemma_all_rows(c: Seq<TableChild>, rest: Seq<Tok>, x: Tv)
    requires forall |i: int| 0 <= i < c.len() ==> lasting(row_of(#[trigger] c[i]), "tr"@)
    ensures rdt(row_toks(c) + rest, x) == rdt(rest, Tv { r: x.r + c, ..x }) decreases c.len()
{
    if c.len() == 0 { assert(row_toks(c) + rest =~= rest); assert(x.r + c =~= x.r); } else {
        lits(); assert(lasting(row_of(c[0]), "tr"@));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies lasting(row_of(#[trigger] c.skip(1)[i]), "tr"@) by { assert(c.skip(1)[i] == c[i + 1]); }
        let m = row_toks(c.skip(1)) + rest; let s = row_toks(c) + rest; let a = lemma_nest(row_of(c[0]), "tr"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(row_of(c[0])) + m);
        let y = Tv { r: x.r.push(c[0]), ..x };
        assert(rdt(s, x) == rdt(m, y)) by { reveal_with_fuel(rdt, 2); }
        lemma_all_rows(c.skip(1), rest, y); assert(y.r + c.skip(1) =~= x.r + c);
    }
}
/// Whatever follows the table, reading what was written for it gives the same formatting, columns and rows.
proof fn theorem_table_content(x: Table, log: Seq<Tok>, rest: Seq<Tok>, s: Tv)
    requires lasting(x.property, "tblPr"@), starts(s), forall |i: int| 0 <= i < x.grid@.len() ==> #[trigger] x.grid@[i] <= i32::MAX, forall |i: int| 0 <= i < x.rows@.len() ==> lasting(row_of(#[trigger] x.rows@[i]), "tr"@)
    ensures exists |b: Seq<Tok>| tbl_onto(x, log) == log.push(plain("tbl"@)) + b && #[trigger] rdt(b + rest, s) == Some((tv(x), rest))
{
    lits(); let z = Seq::<Tok>::empty(); let c = x.rows@; let g = x.grid@; let h = log.push(plain("tbl"@)); let q = nest_toks(x.property); let e = Tok::Close("tbl"@);
    let o = plain("tblGrid"@); let f = Tok::Close("tblGrid"@);
    lemma_cols(g, (h + q).push(o)); lemma_rows(c, grid_onto(g, h + q));
    let b = ((q.push(o) + col_toks(g)).push(f) + row_toks(c)).push(e); assert(tbl_onto(x, log) =~= h + b);
    let t4 = z.push(e) + rest; let t3 = row_toks(c) + t4; let t2 = z.push(f) + t3; let t1 = col_toks(g) + t2; let t0 = z.push(o) + t1; assert(b + rest =~= z + q + t0);
    let a = lemma_nest(x.property, "tblPr"@, t0); let y = Tv { p: x.property, ..s };
    assert(rdt(b + rest, s) == rdt(t0, y)) by { reveal_with_fuel(rdt, 2); }
    assert(t0[0] == o); assert(t0.skip(1) =~= t1); assert(rdt(t0, y) == rdt(t1, y)) by { reveal_with_fuel(rdt, 2); }
    lemma_all_cols(g, t2, y); assert(s.g + g =~= g); let y2 = Tv { g, ..y };
    assert(t2[0] == f); assert(t2.skip(1) =~= t3); assert(rdt(t2, y2) == rdt(t3, y2)) by { reveal_with_fuel(rdt, 2); }
    lemma_all_rows(c, t4, y2); assert(s.r + c =~= c);
    assert(t4[0] == e); assert(t4.skip(1) =~= rest); assert(rdt(t4, tv(x)) == Some((tv(x), rest))) by { reveal_with_fuel(rdt, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
