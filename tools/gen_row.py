"""Writes the units about the content of table rows (ro_spec, ro_write, ro_read)."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
hr, hw, cw, rt, pw, rw, rh = rd('hf_read.rs'), rd('hf_write.rs'), rd('cu_write.rs'), rd('rt_read.rs'), rd('pc_write.rs'), rd('rt_write.rs'), rd('rd_head.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
NAMES = 'w:tr w:trPr w:trHeight w:val w:hRule w:cantSplit'.split()
wr('ro_spec.rs', '''// What table rows look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
/// Heights are at least what is asked for unless something else is said.
pub open spec fn rule_of(r: Option<HeightRule>) -> HeightRule { match r { Some(r) => r, None => HeightRule::AtLeast } }
pub open spec fn high_el(h: f32, r: HeightRule) -> El { El { n: "trHeight"@, a: ats(ats(Seq::empty(), "val"@, shown(h)@), "hRule"@, shown(r)@) } }
pub open spec fn opt_onto<T>(v: Option<T>, log: Seq<Tok>) -> Seq<Tok> { match v { Some(v) => log + nest_toks(v), None => log } }
pub open spec fn cant_onto(v: Option<CantSplit>, log: Seq<Tok>) -> Seq<Tok> { match v { Some(v) => one(log, El { n: "cantSplit"@, a: Seq::empty() }), None => log } }
pub open spec fn high_onto(h: Option<f32>, r: Option<HeightRule>, log: Seq<Tok>) -> Seq<Tok> { match h { Some(h) => one(log, high_el(h, rule_of(r))), None => log } }
pub open spec fn prop_onto(p: TableRowProperty, log: Seq<Tok>) -> Seq<Tok> { high_onto(p.row_height, p.height_rule, cant_onto(p.cant_split, opt_onto(p.ins, opt_onto(p.del, log.push(plain("trPr"@)))))).push(Tok::Close("trPr"@)) }
pub open spec fn cell_of(c: TableRowChild) -> TableCell { match c { TableRowChild::TableCell(x) => x } }
pub open spec fn cells_onto(c: Seq<TableRowChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { cells_onto(c.skip(1), log + nest_toks(cell_of(c[0]))) } }
pub open spec fn tr_onto(x: TableRow, log: Seq<Tok>) -> Seq<Tok> { cells_onto(x.cells@, prop_onto(x.property, log.push(plain("tr"@)))).push(Tok::Close("tr"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item TableRow
//@item TableRowChild
//@item TableRowProperty
//@item CantSplit
//@item HeightRule
''')
wr('ro_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include ro_spec.rs
//@include wr_head.rs
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in ['TableCell', 'Delete', 'Insert']) + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + ''.join(f'''//@fn XMLBuilder::{f}
//@| ensures opened(self, r, El {{ n: "{n}"@, a: Seq::empty() }}),
//@at start
//@| proof {{ names(); }}
//@end
''' for f, n in [('open_table_row', 'tr'), ('open_table_row_property', 'trPr')]) + '''//@fn XMLBuilder::table_row_height
//@| ensures put(self, r, El { n: "trHeight"@, a: ats(ats(Seq::empty(), "val"@, arg0@), "hRule"@, arg1@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::cant_split
//@| ensures put(self, r, El { n: "cantSplit"@, a: Seq::empty() }),
//@at start
//@| proof { names(); }
//@end
''' + cut(rw, '//@fn XMLBuilder::apply_opt', '//@fn XMLBuilder::border_top') + '''// TRUSTED here: what has its own content is written after what is there already (tracked changes: unit tc_write, cells: unit hf_write).
''' + ''.join(f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
''' for t in ['TableCell', 'Delete', 'Insert']) + cut(hw, 'impl<T: BuildXML> BuildXML for Box<T>', 'pub open spec fn fold<T>') + cut(pw, 'pub open spec fn all_onto', 'proof fn lemma_all') + '''//@fn <CantSplit as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == one(stream.log(), El { n: "cantSplit"@, a: Seq::empty() }) && w.open() == stream.open(),
//@end
impl BuildXML for CantSplit {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, El { n: "cantSplit"@, a: Seq::empty() }) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TableRowChild as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TableRowChild {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { log + nest_toks(cell_of(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// TRUSTED: format! of one value prints it; a height rule that is not given is the default one.
#[verifier::external_body] fn vx_show<T>(v: T) -> (r: String) ensures r == shown(v) { unimplemented!() }
#[verifier::external_body] fn vx_rule(v: Option<HeightRule>) -> (r: HeightRule) ensures r == rule_of(v) { unimplemented!() }
//@fn <TableRowProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == prop_onto(*self, stream.log()) && w.open() == stream.open(),
//@sub `format!("{h}")` => `vx_show(h)`
//@sub `self.height_rule.unwrap_or_default().to_string()` => `vx_show(vx_rule(self.height_rule))`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, high_el(h, rule_of(self.height_rule)))
//@at start
//@| proof { names(); reveal(kid); assert(stream.open().push("trPr"@).drop_last() =~= stream.open()); }
//@end
impl BuildXML for TableRowProperty {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { prop_onto(*self, log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
proof fn lemma_cells(c: Seq<TableRowChild>, log: Seq<Tok>) ensures all_onto(c, log) == cells_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_cells(c.skip(1), log + nest_toks(cell_of(c[0]))); } }
//@fn <TableRow as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); assert(stream.open().push("tr"@).drop_last() =~= stream.open()); lemma_cells(self.cells@, prop_onto(self.property, stream.log().push(plain("tr"@)))); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'tr': 'TableRow', 'trPr': 'Unsupported', 'trHeight': 'TableRowHeight', 'del': 'Delete', 'ins': 'Insert', 'tc': 'TableCell', 'cantSplit': 'Unsupported'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
head = cut(hr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('hf_spec', 'ro_spec')
SET = [('grid_after', 'u32', 'grid_after', 'grid_after'), ('width_after', 'f32', 'w', 'width_after'), ('grid_before', 'u32', 'grid_before', 'grid_before'), ('width_before', 'f32', 'w', 'width_before'), ('row_height', 'f32', 'h', 'row_height'), ('height_rule', 'HeightRule', 'r', 'height_rule'), ('delete', 'Delete', 'd', 'del'), ('insert', 'Insert', 'i', 'ins')]
PA = {'grid_after': 'after', 'grid_before': 'before'}
sets = ''.join(f'''//@fn TableRowProperty::{f} r=out
//@| ensures out == (TableRowProperty {{ {fld}: Some({PA.get(f, a)}), ..self }}),
//@end
//@fn TableRow::{f} r=out
//@| ensures out == (TableRow {{ property: TableRowProperty {{ {fld}: Some({a}), ..self.property }}, ..self }}),
//@end
''' for f, t, a, fld in SET)
CUR = 'Rv { c: cells@, h: row_height, rule: height_rule, del, ins }'
wr('ro_read.rs', head + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
//@fn reader/ignore.rs::ignore_element ext
//@| ensures el != ignore ==> final(r).todo() == old(r).todo(),
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({a}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
''' + ('//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`\n' if a == '_attrs' else '') + '''//@end
''' for t, a in [('TableCell', '_attrs'), ('Delete', 'attrs'), ('Insert', 'attrs')]) + cut(rh, '//@fn reader/attributes/val.rs::read_val', '// TRUSTED here, proved in the codec unit') + '''/// What a text is as a value.
pub uninterp spec fn named<T>(s: Seq<char>) -> Option<T>;
pub mod rules {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn rule(t: &HeightRule) ensures #![trigger shown_of::<HeightRule>(t)] named::<HeightRule>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
}
//@fn <HeightRule as FromStr>::from_str ext
//@| ensures (match (r, named::<HeightRule>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn reader/attributes/width.rs::read_width ext
//@end
#[verifier::external_body] fn vx_f32(n: isize) -> f32 { unimplemented!() }
pub struct Rv { pub c: Seq<TableCell>, pub h: Option<f32>, pub rule: Option<HeightRule>, pub del: Option<Delete>, pub ins: Option<Insert> }
pub open spec fn kids(c: Seq<TableCell>) -> Seq<TableRowChild> { c.map_values(|x: TableCell| TableRowChild::TableCell(x)) }
pub open spec fn prop_of(v: Rv) -> TableRowProperty { TableRowProperty { grid_after: None, width_after: None, grid_before: None, width_before: None, row_height: v.h, height_rule: v.rule, del: v.del, ins: v.ins, cant_split: None } }
pub open spec fn nothing() -> Rv { Rv { c: Seq::empty(), h: None, rule: None, del: None, ins: None } }
// TRUSTED: a new row holds the cells it is made of, in order, and no formatting.
//@fn TableRow::new ext
//@| ensures r.cells@ == kids(cells@), r.property == prop_of(nothing()),
//@end
''' + sets + '''pub open spec fn high_of(a: Seq<At>, x: Rv) -> Rv { Rv {
    h: match first(a, "val"@) { Some(v) => match parsed::<f32>(v) { Some(h) => Some(h), None => x.h }, None => x.h },
    rule: match first(a, "hRule"@) { Some(v) => match named::<HeightRule>(v) { Some(h) => Some(h), None => x.rule }, None => x.rule },
    ..x } }
pub open spec fn rdr(t: Seq<Tok>, x: Rv) -> Option<(Rv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "tc"@ { match nest_val::<TableCell>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { c: x.c.push(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "del"@ { match nest_val::<Delete>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { del: Some(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "ins"@ { match nest_val::<Insert>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rdr(y.1, Rv { ins: Some(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "trHeight"@ { rdr(t.skip(1), high_of(e.a, x)) }
            else if e.n == "trPr"@ || e.n == "cantSplit"@ { rdr(t.skip(1), x) }
            else { None },
        Tok::Close(m) => if m == "tr"@ { Some((x, t.skip(1))) } else if m == "trPr"@ || m == "trHeight"@ || m == "cantSplit"@ { rdr(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <TableRow as ElementReader>::read r=out
//@| ensures rdr(old(r).todo(), nothing()) matches Some(y) ==> (out matches Ok(z) && z.cells@ == kids(y.0.c) && z.property == prop_of(y.0)) && final(r).todo() == y.1,
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@sub `u32::from_str(&v)` => `vx_parse::<u32>(&v)`
//@sub `f32::from_str(&v)` => `vx_parse::<f32>(&v)`
//@sub `v.0 as f32` => `vx_f32(v.0)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@before `loop {`
//@| let ghost vx_g = rdr(r.todo(), nothing()); assert(''' + CUR + ''' == nothing());
//@loop 0
//@| invariant vx_g == rdr(old(r).todo(), nothing()), vx_g is Some ==> rdr(r.todo(), ''' + CUR + ''') == vx_g && grid_after is None && width_after is None && grid_before is None && width_before is None,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rdr, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }
''' + cut(hr, '/// What has its own content is written between', '// ---- Header').replace('(paragraphs: theorem_paragraph_content, section formatting: theorem_section_formatting)', '(cells: theorem_cell_content, tracked changes: theorem_tracked_ins and _del)') + '''pub open spec fn cell_toks(c: Seq<TableRowChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { nest_toks(cell_of(c[0])) + cell_toks(c.skip(1)) } }
pub open spec fn bare(c: Seq<TableRowChild>) -> Seq<TableCell> { c.map_values(|x: TableRowChild| cell_of(x)) }
proof fn lemma_cells(c: Seq<TableRowChild>, log: Seq<Tok>) ensures cells_onto(c, log) == log + cell_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + cell_toks(c) =~= log); } else {
        let k = nest_toks(cell_of(c[0])); lemma_cells(c.skip(1), log + k);
        assert(log + k + cell_toks(c.skip(1)) =~= log + (k + cell_toks(c.skip(1))));
    }
}
proof fn lemma_all_cells(c: Seq<TableRowChild>, rest: Seq<Tok>, x: Rv)
    requires forall |i: int| 0 <= i < c.len() ==> lasting(cell_of(#[trigger] c[i]), "tc"@)
    ensures rdr(cell_toks(c) + rest, x) == rdr(rest, Rv { c: x.c + bare(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(cell_toks(c) + rest =~= rest); assert(x.c + bare(c) =~= x.c); } else {
        lits(); assert(lasting(cell_of(c[0]), "tc"@));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies lasting(cell_of(#[trigger] c.skip(1)[i]), "tc"@) by { assert(c.skip(1)[i] == c[i + 1]); }
        let m = cell_toks(c.skip(1)) + rest; let s = cell_toks(c) + rest; let a = lemma_nest(cell_of(c[0]), "tc"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(cell_of(c[0])) + m);
        let y = Rv { c: x.c.push(cell_of(c[0])), ..x };
        assert(rdr(s, x) == rdr(m, y)) by { reveal_with_fuel(rdr, 2); }
        lemma_all_cells(c.skip(1), rest, y); assert(y.c + bare(c.skip(1)) =~= x.c + bare(c));
    }
}
pub open spec fn opt_toks<T>(v: Option<T>) -> Seq<Tok> { match v { Some(v) => nest_toks(v), None => Seq::empty() } }
pub open spec fn high_toks(p: TableRowProperty) -> Seq<Tok> { match p.row_height { Some(h) => one(Seq::empty(), high_el(h, rule_of(p.height_rule))), None => Seq::empty() } }
/// What is read of a row: everything that is written, with the height rule that was meant.
pub open spec fn rv(x: TableRow) -> Rv { Rv { c: bare(x.cells@), h: x.property.row_height, rule: if x.property.row_height is Some { Some(rule_of(x.property.height_rule)) } else { None }, del: x.property.del, ins: x.property.ins } }
/// What is written of a row is all there is to it, and what is in it is read back.
pub open spec fn settled(x: TableRow) -> bool {
    let p = x.property;
    &&& p.cant_split is None
    &&& (p.row_height matches Some(h) ==> parsed::<f32>(shown(h)@) == Some(h) && seen(shown(h)@) == shown(h)@)
    &&& (p.del matches Some(d) ==> lasting(d, "del"@))
    &&& (p.ins matches Some(d) ==> lasting(d, "ins"@))
    &&& (forall |i: int| 0 <= i < x.cells@.len() ==> lasting(cell_of(#[trigger] x.cells@[i]), "tc"@))
}
proof fn lemma_high(h: f32, r: HeightRule, x: Rv) requires parsed::<f32>(shown(h)@) == Some(h), seen(shown(h)@) == shown(h)@ ensures high_of(high_el(h, r).a, x) == (Rv { h: Some(h), rule: Some(r), ..x })
{
    broadcast use rules::rule; reveal_strlit("val"); reveal_strlit("hRule");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(h)@); let a2 = ats(a1, "hRule"@, shown(r)@);
    assert(seen(shown_of(&r)@) == shown_of(&r)@); assert(high_el(h, r).a == a2); assert("val"@ != "hRule"@);
    assert(a2.len() == 2); assert(a2[0].n == "val"@); assert(a2[1].n == "hRule"@); assert(a2.skip(1)[0] == a2[1]);
    reveal_with_fuel(first, 3);
}
proof fn lemma_prop(p: TableRowProperty, h: Seq<Tok>) requires p.cant_split is None
    ensures prop_onto(p, h) == h + (Seq::<Tok>::empty().push(plain("trPr"@)) + opt_toks(p.del) + opt_toks(p.ins) + high_toks(p)).push(Tok::Close("trPr"@))
{
    let z = Seq::<Tok>::empty(); let o = plain("trPr"@); let l0 = h.push(o); assert(l0 =~= h + z.push(o));
    let d = opt_toks(p.del); let i = opt_toks(p.ins); let g = high_toks(p);
    let l1 = opt_onto(p.del, l0); assert(l1 =~= l0 + d);
    let l2 = opt_onto(p.ins, l1); assert(l2 =~= l1 + i);
    let l3 = high_onto(p.row_height, p.height_rule, l2); assert(l3 =~= l2 + g);
    assert(l3.push(Tok::Close("trPr"@)) =~= h + (z.push(o) + d + i + g).push(Tok::Close("trPr"@)));
}
proof fn lemma_high_read(p: TableRowProperty, t4: Seq<Tok>, y: Rv)
    requires p.row_height matches Some(h) ==> parsed::<f32>(shown(h)@) == Some(h) && seen(shown(h)@) == shown(h)@, y.h is None, y.rule is None
    ensures rdr(high_toks(p) + t4, y) == rdr(t4, Rv { h: p.row_height, rule: if p.row_height is Some { Some(rule_of(p.height_rule)) } else { None }, ..y })
{
    lits(); let t3 = high_toks(p) + t4;
    match p.row_height { Some(v) => {
        let k = high_el(v, rule_of(p.height_rule)); lemma_high(v, rule_of(p.height_rule), y);
        assert(t3[0] == Tok::Open(k)); assert(t3.skip(1)[0] == Tok::Close("trHeight"@)); assert(t3.skip(1).skip(1) =~= t4); reveal_with_fuel(rdr, 3);
    } None => { assert(t3 =~= t4); } }
}
proof fn lemma_opts(del: Option<Delete>, ins: Option<Insert>, t3: Seq<Tok>, y: Rv)
    requires del matches Some(d) ==> lasting(d, "del"@), ins matches Some(d) ==> lasting(d, "ins"@), y.del is None, y.ins is None
    ensures rdr(opt_toks(del) + (opt_toks(ins) + t3), y) == rdr(t3, Rv { del, ins, ..y })
{
    lits(); let z = Seq::<Tok>::empty(); let t2 = opt_toks(ins) + t3; let t1 = opt_toks(del) + t2; let y1 = Rv { del, ..y }; let y2 = Rv { ins, ..y1 };
    assert(rdr(t1, y) == rdr(t2, y1)) by { match del { Some(v) => { let a = lemma_nest(v, "del"@, t2); assert(t1 =~= z + nest_toks(v) + t2); reveal_with_fuel(rdr, 2); } None => { assert(t1 =~= t2); } } }
    assert(rdr(t2, y1) == rdr(t3, y2)) by { match ins { Some(v) => { let a = lemma_nest(v, "ins"@, t3); assert(t2 =~= z + nest_toks(v) + t3); reveal_with_fuel(rdr, 2); } None => { assert(t2 =~= t3); } } }
}
proof fn lemma_back(c: Seq<TableRowChild>) ensures kids(bare(c)) == c { assert(kids(bare(c)) =~= c); }
proof fn lemma_body(x: TableRow, rest: Seq<Tok>) requires settled(x) ensures rdr(body(x) + rest, nothing()) == Some((rv(x), rest))
{
    lits(); let z = Seq::<Tok>::empty(); let c = x.cells@; let p = x.property; let e = Tok::Close("tr"@);
    let o = plain("trPr"@); let f = Tok::Close("trPr"@); let d = opt_toks(p.del); let i = opt_toks(p.ins); let g = high_toks(p); let b = body(x);
    let t6 = z.push(e) + rest; let t5 = cell_toks(c) + t6; let t4 = z.push(f) + t5; let t3 = g + t4; let t1 = d + (i + t3); assert(b + rest =~= z.push(o) + t1);
    let y0 = nothing(); let y2 = Rv { del: p.del, ins: p.ins, ..y0 }; let y3 = Rv { h: p.row_height, rule: rv(x).rule, ..y2 };
    assert((b + rest)[0] == o); assert((b + rest).skip(1) =~= t1); assert(rdr(b + rest, y0) == rdr(t1, y0)) by { reveal_with_fuel(rdr, 2); }
    lemma_opts(p.del, p.ins, t3, y0);
    lemma_high_read(p, t4, y2);
    assert(t4[0] == f); assert(t4.skip(1) =~= t5); assert(rdr(t4, y3) == rdr(t5, y3)) by { reveal_with_fuel(rdr, 2); }
    lemma_all_cells(c, t6, y3); assert(y3.c + bare(c) =~= bare(c));
    assert(t6[0] == e); assert(t6.skip(1) =~= rest); assert(rdr(t6, rv(x)) == Some((rv(x), rest))) by { reveal_with_fuel(rdr, 2); }
}
pub open spec fn body(x: TableRow) -> Seq<Tok> { ((Seq::<Tok>::empty().push(plain("trPr"@)) + opt_toks(x.property.del) + opt_toks(x.property.ins) + high_toks(x.property)).push(Tok::Close("trPr"@)) + cell_toks(x.cells@)).push(Tok::Close("tr"@)) }
/// Whatever follows the row, reading what was written for it gives the same cells and formatting.
proof fn theorem_row_content(x: TableRow, log: Seq<Tok>, rest: Seq<Tok>)
    requires settled(x)
    ensures exists |b: Seq<Tok>| tr_onto(x, log) == log.push(plain("tr"@)) + b && #[trigger] rdr(b + rest, nothing()) == Some((rv(x), rest)),
        kids(rv(x).c) == x.cells@,
        x.property.grid_after is None && x.property.width_after is None && x.property.grid_before is None && x.property.width_before is None ==> prop_of(rv(x)) == (TableRowProperty { height_rule: rv(x).rule, ..x.property }),
{
    let h = log.push(plain("tr"@)); let b = body(x);
    lemma_cells(x.cells@, prop_onto(x.property, h)); lemma_prop(x.property, h); assert(tr_onto(x, log) =~= h + b);
    lemma_body(x, rest); lemma_back(x.cells@);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
