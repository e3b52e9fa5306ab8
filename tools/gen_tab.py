"""Writes the units about the content of tables (tl_spec, tl_write, tl_read)."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
hr, hw, cw, rt, pw = rd('hf_read.rs'), rd('hf_write.rs'), rd('cu_write.rs'), rd('rt_read.rs'), rd('pc_write.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
NAMES = 'w:tbl w:tblGrid w:gridCol w:w w:type'.split()
wr('tl_spec.rs', '''// What tables look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn wide_at(v: i32, t: WidthType) -> Seq<At> { ats(ats(Seq::empty(), "w"@, shown(v)@), "type"@, shown(t)@) }
pub open spec fn col_el(n: usize) -> El { El { n: "gridCol"@, a: wide_at(n as i32, WidthType::Dxa) } }
pub open spec fn row_of(c: TableChild) -> TableRow { match c { TableChild::TableRow(x) => x } }
pub open spec fn cols_onto(g: Seq<usize>, log: Seq<Tok>) -> Seq<Tok> decreases g.len() { if g.len() == 0 { log } else { cols_onto(g.skip(1), one(log, col_el(g[0]))) } }
pub open spec fn rows_onto(c: Seq<TableChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { rows_onto(c.skip(1), log + nest_toks(row_of(c[0]))) } }
pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
pub open spec fn grid_onto(g: Seq<usize>, log: Seq<Tok>) -> Seq<Tok> { cols_onto(g, log.push(plain("tblGrid"@))).push(Tok::Close("tblGrid"@)) }
pub open spec fn tbl_onto(x: Table, log: Seq<Tok>) -> Seq<Tok> { rows_onto(x.rows@, grid_onto(x.grid@, log.push(plain("tbl"@)) + nest_toks(x.property))).push(Tok::Close("tbl"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item Table
//@item TableChild
//@item WidthType
''')
wr('tl_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include tl_spec.rs
//@include wr_head.rs
//@item TableGrid
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in ['TableRow', 'TableProperty']) + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + ''.join(f'''//@fn XMLBuilder::{f}
//@| ensures opened(self, r, El {{ n: "{n}"@, a: Seq::empty() }}),
//@at start
//@| proof {{ names(); }}
//@end
''' for f, n in [('open_table', 'tbl'), ('open_table_grid', 'tblGrid')]) + '''//@fn XMLBuilder::grid_column
//@| ensures put(self, r, El { n: "gridCol"@, a: wide_at(w, t) }),
//@at start
//@| proof { names(); }
//@end
// TRUSTED here: what has its own content is written after what is there already (table formatting: unit rt_write).
''' + ''.join(f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
''' for t in ['TableRow', 'TableProperty']) + cut(hw, 'impl<T: BuildXML> BuildXML for Box<T>', 'pub open spec fn fold<T>') + cut(pw, 'pub open spec fn all_onto', 'proof fn lemma_all') + cut(hw, 'pub open spec fn fold<T>', 'pub trait ToOptBool') + '''//@fn <TableChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(row_of(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_rows(c: Seq<TableChild>, log: Seq<Tok>) ensures all_onto(c, log) == rows_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_rows(c.skip(1), log + nest_toks(row_of(c[0]))); } }
pub open spec fn g_col() -> spec_fn(usize, Seq<Tok>) -> Seq<Tok> { |c: usize, l: Seq<Tok>| one(l, col_el(c)) }
proof fn lemma_cols(c: Seq<usize>, log: Seq<Tok>) ensures fold(c, log, g_col()) == cols_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_cols(c.skip(1), one(log, col_el(c[0]))); } }
//@fn TableGrid::new
//@| ensures r.grid == grid,
//@end
//@fn <TableGrid as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == grid_onto(self.grid@, stream.log()) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*g, b, o, g_col())
//@at start
//@| proof { names(); assert(stream.open().push("tblGrid"@).drop_last() =~= stream.open()); lemma_cols(self.grid@, stream.log().push(plain("tblGrid"@))); }
//@end
impl BuildXML for TableGrid {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { grid_onto(self.grid@, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED: a copy of a list of numbers holds the same numbers.
#[verifier::external_body] fn vx_copy(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
//@fn <Table as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tbl_onto(*self, stream.log()) && w.open() == stream.open(),
//@sub `self.grid.clone()` => `vx_copy(&self.grid)`
//@at start
//@| proof { names(); assert(stream.open().push("tbl"@).drop_last() =~= stream.open()); lemma_rows(self.rows@, grid_onto(self.grid@, stream.log().push(plain("tbl"@)) + nest_toks(self.property))); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'tbl': 'Table', 'tblPr': 'TableProperty', 'tblGrid': 'TableGrid', 'gridCol': 'GridCol', 'tr': 'TableRow'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
head = cut(hr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('hf_spec', 'tl_spec')
wr('tl_read.rs', head + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av(_attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
''' for t in ['TableRow', 'TableProperty']) + '''/// What a text is as a value; as a number; without percent signs.
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn float_to<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn without(a: Seq<char>) -> Seq<char>;
pub mod cells {
    use super::*;
    // TRUSTED: whole numbers from zero up are printed and read back exactly and contain neither markup nor a percent sign.
    pub broadcast axiom fn width_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] *n >= 0 ==> without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@ && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && seen(shown_of::<i32>(n)@) == shown_of::<i32>(n)@;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn wide(t: &WidthType) ensures #![trigger shown_of::<WidthType>(t)] *t != WidthType::Unsupported ==> named::<WidthType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
}
''' + cut(rt, 'pub open spec fn wid_f', 'proof fn lemma_wid(') + '''// Proved in unit rt_read.
//@fn reader/attributes/width.rs::read_width ext
//@| ensures (match (r, wid_f(av(attrs@))) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TableBorders as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <TableCellMargins as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <TableAlignmentType as FromStr>::from_str ext
//@end
pub struct Tv { pub p: TableProperty, pub g: Seq<usize>, pub r: Seq<TableChild> }
pub open spec fn tv(x: Table) -> Tv { Tv { p: x.property, g: x.grid@, r: x.rows@ } }
// TRUSTED: a table made of no rows has none.
//@fn Table::without_borders ext
//@| ensures rows@.len() == 0 ==> r.rows@ == Seq::<TableChild>::empty(),
//@end
//@fn Table::add_row
//@| ensures tv(r) == (Tv { r: self.rows@.push(TableChild::TableRow(row)), ..tv(self) }),
//@end
//@fn Table::set_grid
//@| ensures tv(r) == (Tv { g: grid@, ..tv(self) }),
//@end
pub open spec fn rdt(t: Seq<Tok>, x: Tv) -> Option<(Tv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "tblPr"@ { match nest_val::<TableProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdt(y.1, Tv { p: y.0, ..x }) } else { None }, None => None } }
            else if e.n == "tr"@ { match nest_val::<TableRow>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdt(y.1, Tv { r: x.r.push(TableChild::TableRow(y.0)), ..x }) } else { None }, None => None } }
            else if e.n == "gridCol"@ { match wid_f(e.a) { Some(w) => rdt(t.skip(1), Tv { g: x.g.push(w.0 as usize), ..x }), None => None } }
            else if e.n == "tblGrid"@ { rdt(t.skip(1), x) }
            else { None },
        Tok::Close(m) => if m == "tbl"@ { Some((x, t.skip(1))) } else if m == "gridCol"@ || m == "tblGrid"@ { rdt(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts(x: Tv) -> bool { x.g == Seq::<usize>::empty() && x.r == Seq::<TableChild>::empty() }
//@fn <Table as ElementReader>::read r=out
//@| ensures exists |x: Tv| starts(x) && (#[trigger] rdt(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && tv(z) == y.0) && final(r).todo() == y.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@before `loop {`
//@| let ghost vx_x = Tv { g: grid_col@, ..tv(t) }; let ghost vx_g = rdt(r.todo(), vx_x); assert(starts(vx_x));
//@loop 0
//@| invariant vx_g == rdt(old(r).todo(), vx_x), starts(vx_x), vx_g is Some ==> rdt(r.todo(), Tv { g: grid_col@, ..tv(t) }) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rdt, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }
''' + cut(hr, '/// What has its own content is written between', '// ---- Header').replace('(paragraphs: theorem_paragraph_content, section formatting: theorem_section_formatting)', '(formatting: theorem_table_formatting)') + '''pub open spec fn col_toks(g: Seq<usize>) -> Seq<Tok> decreases g.len() { if g.len() == 0 { Seq::empty() } else { one(Seq::empty(), col_el(g[0])) + col_toks(g.skip(1)) } }
pub open spec fn row_toks(c: Seq<TableChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { nest_toks(row_of(c[0])) + row_toks(c.skip(1)) } }
proof fn lemma_cols(g: Seq<usize>, log: Seq<Tok>) ensures cols_onto(g, log) == log + col_toks(g) decreases g.len()
{
    if g.len() == 0 { assert(log + col_toks(g) =~= log); } else {
        let k = one(Seq::empty(), col_el(g[0])); assert(one(log, col_el(g[0])) =~= log + k); lemma_cols(g.skip(1), log + k);
        assert(log + k + col_toks(g.skip(1)) =~= log + (k + col_toks(g.skip(1))));
    }
}
proof fn lemma_rows(c: Seq<TableChild>, log: Seq<Tok>) ensures rows_onto(c, log) == log + row_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + row_toks(c) =~= log); } else {
        let k = nest_toks(row_of(c[0])); lemma_rows(c.skip(1), log + k);
        assert(log + k + row_toks(c.skip(1)) =~= log + (k + row_toks(c.skip(1))));
    }
}
proof fn lemma_wide(n: usize) requires n <= i32::MAX ensures wid_f(col_el(n).a) == Some((n as isize, WidthType::Dxa)), (n as isize) as usize == n
{
    broadcast use cells::width_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let m = n as i32; let t = WidthType::Dxa;
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(m)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&m)@) == shown_of(&m)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid_f, 4); assert(col_el(n).a == a2);
}
proof fn lemma_all_cols(g: Seq<usize>, rest: Seq<Tok>, x: Tv)
    requires forall |i: int| 0 <= i < g.len() ==> #[trigger] g[i] <= i32::MAX
    ensures rdt(col_toks(g) + rest, x) == rdt(rest, Tv { g: x.g + g, ..x }) decreases g.len()
{
    if g.len() == 0 { assert(col_toks(g) + rest =~= rest); assert(x.g + g =~= x.g); } else {
        lits(); assert(g[0] <= i32::MAX); lemma_wide(g[0]);
        assert forall |i: int| 0 <= i < g.skip(1).len() implies #[trigger] g.skip(1)[i] <= i32::MAX by { assert(g.skip(1)[i] == g[i + 1]); }
        let m = col_toks(g.skip(1)) + rest; let s = col_toks(g) + rest; let k = one(Seq::empty(), col_el(g[0])); assert(s =~= k + m);
        assert(s[0] == Tok::Open(col_el(g[0]))); assert(s.skip(1)[0] == Tok::Close("gridCol"@)); assert(s.skip(1).skip(1) =~= m);
        let y = Tv { g: x.g.push(g[0]), ..x };
        assert(rdt(s, x) == rdt(m, y)) by { reveal_with_fuel(rdt, 3); }
        lemma_all_cols(g.skip(1), rest, y); assert(y.g + g.skip(1) =~= x.g + g);
    }
}
proof fn lemma_all_rows(c: Seq<TableChild>, rest: Seq<Tok>, x: Tv)
    requires forall |i: int| 0 <= i < c.len() ==> lasting(row_of(#[trigger] c[i]), "tr"@)
    ensures rdt(row_toks(c) + rest, x) == rdt(rest, Tv { r: x.r + c, ..x }) decreases c.len()
{
    if c.len() == 0 { assert(row_toks(c) + rest =~= rest); assert(x.r + c =~= x.r); } else {
        lits(); assert(lasting(row_of(c[0]), "tr"@));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies lasting(row_of(#[trigger] c.skip(1)[i]), "tr"@) by { assert(c.skip(1)[i] == c[i + 1]); }
        let m = row_toks(c.skip(1)) + rest; let s = row_toks(c) + rest; let a = lemma_nest(row_of(c[0]), "tr"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(row_of(c[0])) + m);
        let y = Tv { r: x.r.push(c[0]), ..x };
        assert(rdt(s, x) == rdt(m, y)) by { reveal_with_fuel(rdt, 2); }
        lemma_all_rows(c.skip(1), rest, y); assert(y.r + c.skip(1) =~= x.r + c);
    }
}
/// Whatever follows the table, reading what was written for it gives the same formatting, columns and rows.
proof fn theorem_table_content(x: Table, log: Seq<Tok>, rest: Seq<Tok>, s: Tv)
    requires lasting(x.property, "tblPr"@), starts(s), forall |i: int| 0 <= i < x.grid@.len() ==> #[trigger] x.grid@[i] <= i32::MAX, forall |i: int| 0 <= i < x.rows@.len() ==> lasting(row_of(#[trigger] x.rows@[i]), "tr"@)
    ensures exists |b: Seq<Tok>| tbl_onto(x, log) == log.push(plain("tbl"@)) + b && #[trigger] rdt(b + rest, s) == Some((tv(x), rest))
{
    lits(); let z = Seq::<Tok>::empty(); let c = x.rows@; let g = x.grid@; let h = log.push(plain("tbl"@)); let q = nest_toks(x.property); let e = Tok::Close("tbl"@);
    let o = plain("tblGrid"@); let f = Tok::Close("tblGrid"@);
    lemma_cols(g, (h + q).push(o)); lemma_rows(c, grid_onto(g, h + q));
    let b = ((q.push(o) + col_toks(g)).push(f) + row_toks(c)).push(e); assert(tbl_onto(x, log) =~= h + b);
    let t4 = z.push(e) + rest; let t3 = row_toks(c) + t4; let t2 = z.push(f) + t3; let t1 = col_toks(g) + t2; let t0 = z.push(o) + t1; assert(b + rest =~= z + q + t0);
    let a = lemma_nest(x.property, "tblPr"@, t0); let y = Tv { p: x.property, ..s };
    assert(rdt(b + rest, s) == rdt(t0, y)) by { reveal_with_fuel(rdt, 2); }
    assert(t0[0] == o); assert(t0.skip(1) =~= t1); assert(rdt(t0, y) == rdt(t1, y)) by { reveal_with_fuel(rdt, 2); }
    lemma_all_cols(g, t2, y); assert(s.g + g =~= g); let y2 = Tv { g, ..y };
    assert(t2[0] == f); assert(t2.skip(1) =~= t3); assert(rdt(t2, y2) == rdt(t3, y2)) by { reveal_with_fuel(rdt, 2); }
    lemma_all_rows(c, t4, y2); assert(s.r + c =~= c);
    assert(t4[0] == e); assert(t4.skip(1) =~= rest); assert(rdt(t4, tv(x)) == Some((tv(x), rest))) by { reveal_with_fuel(rdt, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
