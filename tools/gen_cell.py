#!/usr/bin/env python3
"""Writes units/rt_core.rs (builder contracts the reader of cell formatting leans on), rt_names.rs and the generated parts of the cell units."""
import re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = here + '/units/'
text = open(U + 'builders_core.rs').read()
specs, blocks = {}, {}
for m in re.finditer(r'^pub open spec fn (sp_\w+)\(.*$', text, re.M): specs[m.group(1)] = m.group(0)
for m in re.finditer(r'^//@fn (\S+)[^\n]*\n(?://@[^\n]*\n)*?//@end$', text, re.M): blocks[m.group(1)] = m.group(0)
WANT = '''TableCellProperty::width TableCellProperty::grid_span TableCellProperty::vertical_merge TableCellProperty::vertical_align
TableCellProperty::shading TableCellProperty::text_direction TableCellProperty::set_borders TableCellProperty::margins
TableCellBorders::set TableCellBorder::new TableCellBorder::border_type TableCellBorder::color TableCellBorder::size
CellMargins::margin_top CellMargins::margin_right CellMargins::margin_bottom CellMargins::margin_left
Shading::color Shading::fill Shading::shd_type
TableProperty::width TableProperty::align TableProperty::indent TableProperty::style TableProperty::position TableProperty::set_margins TableProperty::set_borders
TableBorders::set TableBorder::new TableBorder::border_type TableBorder::color TableBorder::size
TableCellMargins::margin_top TableCellMargins::margin_right TableCellMargins::margin_bottom TableCellMargins::margin_left
TablePositionProperty::left_from_text TablePositionProperty::right_from_text TablePositionProperty::vertical_anchor TablePositionProperty::horizontal_anchor
TablePositionProperty::position_x_alignment TablePositionProperty::position_y_alignment TablePositionProperty::position_x TablePositionProperty::position_y'''.split()
done_s, done_b, out = set(), set(), []
def need(spec):
    if spec in done_s or spec not in specs: return
    done_s.add(spec)
    for s in re.findall(r'\bsp_\w+', specs[spec]): need(s)
    out.append(specs[spec])
    key = spec[3:].replace('_', '::', 1)
    if key in blocks: block(key)
def block(key):
    if key in done_b: return
    done_b.add(key)
    for s in re.findall(r'\bsp_\w+', blocks[key]): need(s)
    out.append(blocks[key])
for w in WANT:
    if w not in blocks: print('no contract for', w); continue
    block(w)
open(U + 'rt_core.rs', 'w').write('\n'.join(out) + '\n')
SIDES = [('top', 'Top', 'top'), ('left', 'Left', 'left'), ('bottom', 'Bottom', 'bottom'), ('right', 'Right', 'right'),
         ('inside_h', 'InsideH', 'insideH'), ('inside_v', 'InsideV', 'insideV'), ('tl2br', 'Tl2br', 'tl2br'), ('tr2bl', 'Tr2bl', 'tr2bl')]
MSIDES = SIDES[:4]
KINDS = [('tcPr', 'TableCellProperty'), ('tcPrChange', 'TableCellPropertyChange'), ('tcW', 'TableCellWidth'), ('tcBorders', 'TableCellBorders'), ('gridSpan', 'TableGridSpan'),
         ('vMerge', 'TableVMerge'), ('vAlign', 'VAlign'), ('textDirection', 'TextDirection'), ('shd', 'Shading'), ('tcMar', 'CellMargins')] + [(n, k) for _, k, n in SIDES] + [('tblPr', 'TableProperty'), ('tblW', 'TableWidth'), ('jc', 'Justification'),
         ('tblBorders', 'TableBorders'), ('tblCellMar', 'TableCellMargin'), ('tblInd', 'TableIndent'), ('tblStyle', 'TableStyle'), ('tblpPr', 'TablePositionProperty')]
TPOS = [('left_from_text', 'leftFromText', 1), ('right_from_text', 'rightFromText', 1), ('vertical_anchor', 'vertAnchor', 0), ('horizontal_anchor', 'horzAnchor', 0),
        ('position_x_alignment', 'tblpXSpec', 0), ('position_y_alignment', 'tblpYSpec', 0), ('position_x', 'tblpX', 1), ('position_y', 'tblpY', 1)]
NAMES = [n for n, _ in KINDS if n != 'tcPrChange'] + ['w', 'type', 'val', 'sz', 'space', 'color', 'fill'] + [n for _, n, _ in TPOS]
o = ['/// What the names written look like without their prefix.', 'pub proof fn names()', '    ensures']
o += ['        local("w:%s"@) == "%s"@,' % (n, n) for n in NAMES] + ['{']
o += ['    reveal_strlit("w:%s"); reveal_strlit("%s"); assert(local("w:%s"@) =~= "%s"@);' % (n, n, n, n) for n in NAMES] + ['}']
open(U + 'rt_names.rs', 'w').write('\n'.join(o) + '\n')

# ---- what is written
L = []
w = L.append
w('// Table cell formatting: the tokens of each part of it.')
w('pub open spec fn side(p: TableCellBorderPosition) -> Seq<char> { match p { %s } }' % ', '.join('TableCellBorderPosition::%s => "%s"@' % (k, n) for _, k, n in SIDES))
w('pub open spec fn el_edge(b: TableCellBorder) -> El { El { n: side(b.position), a: border_at(b.border_type, b.size, b.space, b.color@) } }')
w('pub open spec fn wide_at(v: i32, t: WidthType) -> Seq<At> { ats(ats(Seq::empty(), "w"@, shown(v)@), "type"@, shown(t)@) }')
w('pub open spec fn el_wide(n: Seq<char>, v: i32, t: WidthType) -> El { El { n, a: wide_at(v, t) } }')
for f, k, n in SIDES:
    w('#[verifier::opaque] pub open spec fn be_%s(b: TableCellBorders) -> Option<El> { match b.%s { Some(v) => Some(el_edge(v)), None => None } }' % (f, f))
for f, k, n in MSIDES:
    w('#[verifier::opaque] pub open spec fn me_%s(m: CellMargins) -> Option<El> { match m.%s { Some(v) => Some(el_wide("%s"@, v.val as i32, v.width_type)), None => None } }' % (f, f, n))
def nest(parts, last): return ' + ('.join(parts + [last]) + ')' * len(parts)
w('pub open spec fn edges(b: TableCellBorders) -> Seq<Tok> { %s }' % nest(['ol(be_%s(b))' % f for f, _, _ in SIDES], 'seq![Tok::Close("tcBorders"@)]'))
w('pub open spec fn rims(m: CellMargins) -> Seq<Tok> { %s }' % nest(['ol(me_%s(m))' % f for f, _, _ in MSIDES], 'seq![Tok::Close("tcMar"@)]'))
LEAF = [('width', 'el_wide("tcW"@, v.width as i32, v.width_type)'), ('grid_span', 'el_val("gridSpan"@, shown(v.val)@)'), ('vertical_merge', 'el_val("vMerge"@, shown(v.val)@)'),
        ('vertical_align', 'el_val("vAlign"@, shown(v.val)@)'), ('text_direction', 'el_val("textDirection"@, shown(v.val)@)'), ('shading', 'el_shading(v)')]
for f, e in LEAF:
    w('#[verifier::opaque] pub open spec fn ce_%s(x: TableCellProperty) -> Option<El> { match x.%s { Some(v) => Some(%s), None => None } }' % (f, f, e))
def op(n): return 'seq![Tok::Open(El { n: "%s"@, a: Seq::empty() })]' % n
w('#[verifier::opaque] pub open spec fn w_edges(x: TableCellProperty) -> Seq<Tok> { match x.borders { Some(b) => %s + edges(b), None => Seq::empty() } }' % op('tcBorders'))
w('#[verifier::opaque] pub open spec fn w_rims(x: TableCellProperty) -> Seq<Tok> { match x.margins { Some(b) => %s + rims(b), None => Seq::empty() } }' % op('tcMar'))
ORDER = ['ol(ce_width(x))', 'w_edges(x)', 'ol(ce_grid_span(x))', 'ol(ce_vertical_merge(x))', 'ol(ce_vertical_align(x))', 'ol(ce_text_direction(x))', 'ol(ce_shading(x))', 'w_rims(x)']
w('/// The tokens inside cell formatting, followed by others.')
w('pub open spec fn tcpr_body(x: TableCellProperty, t: Seq<Tok>) -> Seq<Tok> { %s }' % nest(ORDER, 't'))
w('pub open spec fn tcpr_onto(x: TableCellProperty, log: Seq<Tok>) -> Seq<Tok> { log + (%s + tcpr_body(x, seq![Tok::Close("tcPr"@)])) }' % op('tcPr'))
open(U + 'rt_spec.rs', 'w').write('\n'.join(L) + '\n')

L = []
w = L.append
w('//@include prelude.rs\nverus! {\n//@include wr_pre.rs\n//@include rx_spec.rs\n//@include rt_spec.rs\n//@include tb_spec.rs\n//@include wr_head.rs')
w('''//@fn XMLBuilder::apply
//@| requires f.requires((self,)),
//@| ensures f.ensures((self,), r),
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end''')
def put(fn, e): w('//@fn XMLBuilder::%s\n//@| ensures put(self, r, %s),\n//@at start\n//@| proof { names(); }\n//@end' % (fn, e))
def opn(fn, n): w('''//@fn XMLBuilder::%s
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "%s"@, a: Seq::empty() })) && w.open() == self.open().push("%s"@) && w.open().drop_last() == self.open() && w.open().last() == "%s"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end''' % (fn, n, n, n))
for f, k, n in SIDES: put('border_' + f, 'El { n: "%s"@, a: border_at(val, size, space, color@) }' % n)
for f, k, n in MSIDES: put('margin_' + f, 'el_wide("%s"@, w, t)' % n)
put('table_cell_width', 'el_wide("tcW"@, w, t)')
put('grid_span', 'el_val("gridSpan"@, shown(val)@)')
put('vertical_merge', 'el_val("vMerge"@, val@)')
put('vertical_align', 'el_val("vAlign"@, val@)')
put('text_direction', 'el_val("textDirection"@, arg0@)')
put('shd', 'El { n: "shd"@, a: shd_at(arg0@, arg1@, arg2@) }')
opn('open_table_cell_property', 'tcPr'); opn('open_table_cell_borders', 'tcBorders'); opn('open_cell_margins', 'tcMar')
w('pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }')
def bx(ty, onto, extra=''):
    w('''//@fn <%s as BuildXML>::build_to name=build_to_body%s
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),%s
//@end
impl BuildXML for %s {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { %s }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}''' % (ty, '', extra, ty, onto))
bx('TableCellWidth', 'one(log, el_wide("tcW"@, self.width as i32, self.width_type))', '\n//@sub `self.width as i32` => `#[verifier::truncate] (self.width as i32)`')
bx('GridSpan', 'one(log, el_val("gridSpan"@, shown(self.val)@))')
bx('VMerge', 'one(log, el_val("vMerge"@, shown(self.val)@))')
bx('VAlign', 'one(log, el_val("vAlign"@, shown(self.val)@))')
bx('TextDirection', 'one(log, el_val("textDirection"@, shown(self.val)@))')
bx('Shading', 'one(log, el_shading(*self))')
# the function picked by the position is called where it is picked
subs = '\n//@sub `let func = match self.position {` => `let vx_f = |b: XMLBuilder<W>| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_edge(*self)) { match self.position {`'
for f, k, n in SIDES:
    subs += '\n//@sub `TableCellBorderPosition::%s => XMLBuilder::border_%s,` => `TableCellBorderPosition::%s => XMLBuilder::border_%s(b, self.border_type, self.size, self.space, &self.color),`' % (k, f, k, f)
subs += '\n//@sub `};~~XMLBuilder::from(stream)` => `} } ; XMLBuilder::from(stream)`'
subs += '\n//@sub `|b| func(b, self.border_type, self.size, self.space, &self.color)` => `vx_f`'
bx('TableCellBorder', 'one(log, el_edge(*self))', subs)
open(U + 'rt_write.rs', 'w').write('\n'.join(L) + '\n')
def wrapper(name, var, ty, tag, pieces, closing, result):
    """log.push(open) + a1 + … + an, then the closing tag, is log + (open + (a1 + (… + close)))."""
    P = 'log.push(Tok::Open(El { n: "%s"@, a: Seq::empty() }))' % tag
    w('proof fn %s(%s: %s, log: Seq<Tok>)' % (name, var, ty))
    chain = P
    for p in pieces: chain = '(%s + %s)' % (chain, p)
    w('    ensures %s.push(Tok::Close("%s"@)) == log + (%s + %s),\n{' % (chain, tag, op(tag), result))
    n = len(pieces)
    w('    let p0 = %s; let t%d = seq![Tok::Close("%s"@)];' % (P, n, tag))
    for i in range(n - 1, -1, -1): w('    let t%d = %s + t%d;' % (i, pieces[i], i + 1))
    for i in range(n): w('    let p%d = p%d + %s; lemma_cat(p%d, %s, t%d);' % (i + 1, i, pieces[i], i, pieces[i], i + 1))
    w('    assert(p%d.push(Tok::Close("%s"@)) =~= p%d + t%d);' % (n, tag, n, n))
    w('    assert(p0 + t0 =~= log + (%s + t0));\n}' % op(tag))
wrapper('lemma_edges', 'b', 'TableCellBorders', 'tcBorders', ['ol(be_%s(b))' % f for f, _, _ in SIDES], '', 'edges(b)')
wrapper('lemma_rims', 'm', 'CellMargins', 'tcMar', ['ol(me_%s(m))' % f for f, _, _ in MSIDES], '', 'rims(m)')
wrapper('lemma_tcpr', 'x', 'TableCellProperty', 'tcPr', ORDER, '', 'tcpr_body(x, seq![Tok::Close("tcPr"@)])')
def kids(name, var, ty, fs):
    w('proof fn %s(%s: %s)\n    ensures' % (name, var, ty))
    for f, s, _ in fs: w('        forall |l: Seq<Tok>| #[trigger] kid(%s.%s, l) == l + %s,' % (var, f, s))
    w('{ reveal(kid); reveal(ol);')
    for f, s, r in fs:
        w('    assert forall |l: Seq<Tok>| #[trigger] kid(%s.%s, l) == l + %s by { reveal(%s); assert(kid(%s.%s, l) =~= l + %s); }' % (var, f, s, r, var, f, s))
    w('}')
kids('kids_edges', 'b', 'TableCellBorders', [(f, 'ol(be_%s(b))' % f, 'be_' + f) for f, _, _ in SIDES])
bx('TableCellBorders', 'log + (%s + edges(*self))' % op('tcBorders'), '\n//@at start\n//@| proof { names(); kids_edges(*self); lemma_edges(*self, stream.log()); }')
cl = ''
for i, (f, k, n) in enumerate(MSIDES):
    cl += '\n//@closure %d\n//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_wide("%s"@, %s.val as i32, %s.width_type)))' % (i, n, f, f)
    cl = cl.replace('\n//@closure', '\n//@closure')
sb = ''.join('\n//@sub `%s.val as i32` => `#[verifier::truncate] (%s.val as i32)`\n//@sub `|%s, b|` => `|%s: &CellMargin, b: XMLBuilder<W>|`' % (f, f, f, f) for f, _, _ in MSIDES)
w('''pub open spec fn wrote<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, o: Option<El>) -> bool { r matches Ok(w) ==> w.log() == a.log() + ol(o) && w.open() == a.open() }
proof fn puts<W: Write>()
    ensures forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) ==> wrote(a, r, Some(e)),
        forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l,
{
    reveal(ol);
    assert forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) implies wrote(a, r, Some(e)) by { let l = a.log(); assert(l.push(Tok::Open(e)).push(Tok::Close(e.n)) =~= l + leaf(e)); }
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l by { assert(l + Seq::<Tok>::empty() =~= l); }
}''')
bx('CellMargins', 'log + (%s + rims(*self))' % op('tcMar'), sb + cl + '\n//@at start\n//@| proof { names(); puts::<W>(); lemma_rims(*self, stream.log()); %s }' % ' '.join('reveal(me_%s);' % f for f, _, n in MSIDES))
FS = [(f, 'ol(ce_%s(x))' % f, 'ce_' + f) for f, _ in LEAF] + [('borders', 'w_edges(x)', 'w_edges'), ('margins', 'w_rims(x)', 'w_rims')]
kids('kids_cell', 'x', 'TableCellProperty', FS)
w('''//@fn <TableCellProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == tcpr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); kids_cell(*self); lemma_tcpr(*self, stream.log()); }
//@end
//@include tb_write.rs
//@include rt_names.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}''')
open(U + 'rt_write.rs', 'w').write('\n'.join(L) + '\n')

# ---- what is read
L = []
w = L.append
w('//@include prelude.rs\nverus! {\n//@include rd_pre.rs\n//@include rx_spec.rs\n//@include rt_spec.rs\n//@include tb_spec.rs\n//@include rd_head.rs\n//@include rt_core.rs')
w('/// What an element name stands for.')
w('#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {\n    %s else { None }\n}' % ' else '.join('if n == "%s"@ { Some(XMLElement::%s) }' % (n, k) for n, k in KINDS))
rs = ' '.join('reveal_strlit("%s");' % n for n, _ in KINDS)
w('proof fn kinds() ensures\n' + '\n'.join('    ck("%s"@) == Some(XMLElement::%s),' % (n, k) for n, k in KINDS) + '\n{ reveal(ck); %s }' % rs)
w('''//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); %s }
//@end''' % rs)
for t in ['WidthType', 'VMergeType', 'VAlignType', 'TextDirectionType']:
    w('//@fn <%s as FromStr>::from_str ext\n//@| ensures (match (r, named::<%s>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),\n//@end' % (t, t))
w('''pub mod cells {
    use super::*;
    // TRUSTED: whole numbers from zero up are printed and read back exactly and contain no percent sign.
    pub broadcast axiom fn width_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] *n >= 0 ==> parsed::<usize>(shown_of::<i32>(n)@) == Some(*n as usize) && without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@
        && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && cast::<isize, usize>(*n as isize) == *n as usize;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn wide(t: &WidthType) ensures #![trigger shown_of::<WidthType>(t)] *t != WidthType::Unsupported ==> named::<WidthType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn merge(t: &VMergeType) ensures #![trigger shown_of::<VMergeType>(t)] *t != VMergeType::Unsupported ==> named::<VMergeType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn align(t: &VAlignType) ensures #![trigger shown_of::<VAlignType>(t)] *t != VAlignType::Unsupported ==> named::<VAlignType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn direction(t: &TextDirectionType) ensures #![trigger shown_of::<TextDirectionType>(t)] named::<TextDirectionType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: derived defaults leave every optional value absent.
    pub broadcast axiom fn d_cell() ensures #[trigger] dflt::<TableCellProperty>() == no_cell();
    pub broadcast axiom fn d_margins() ensures #[trigger] dflt::<CellMargins>() == no_rims();
}''')
w('pub open spec fn no_cell() -> TableCellProperty { TableCellProperty { width: None, borders: None, grid_span: None, vertical_merge: None, vertical_align: None, text_direction: None, shading: None, margins: None } }')
w('pub open spec fn no_rims() -> CellMargins { CellMargins { top: None, left: None, bottom: None, right: None } }')
w('pub open spec fn no_edges() -> TableCellBorders { TableCellBorders { %s } }' % ', '.join('%s: None' % f for f, _, _ in SIDES))
w('''//@fn TableCellProperty::new r=out
//@| ensures out == dflt::<TableCellProperty>(),
//@end
//@fn TableCellBorders::with_empty r=out
//@| ensures out == no_edges(),
//@end
//@fn <Shading as Default>::default r=out
//@| ensures out == shd0(),
//@end
//@fn Shading::new r=out
//@| ensures out == shd0(),
//@end
/// A width: a number and what it counts.
pub open spec fn wid(a: Seq<At>) -> Option<(usize, WidthType)> decreases a.len() {
    if a.len() == 0 { Some((0, WidthType::Auto)) } else { match wid(a.drop_last()) { None => None, Some(p) => {
        let n = a.last().n; let v = a.last().v;
        if n == "type"@ { match named::<WidthType>(v) { Some(t) => Some((p.0, t)), None => None } }
        else if n == "w"@ { match parsed::<usize>(v) { Some(x) => Some((x, p.1)), None => None } } else { Some(p) } } } }
}
pub open spec fn wid_f(a: Seq<At>) -> Option<(isize, WidthType)> decreases a.len() {
    if a.len() == 0 { Some((0, WidthType::Auto)) } else { match wid_f(a.drop_last()) { None => None, Some(p) => {
        let n = a.last().n; let v = a.last().v;
        if n == "type"@ { match named::<WidthType>(v) { Some(t) => Some((p.0, t)), None => None } }
        else if n == "w"@ { match float_to::<isize>(without(v)) { Some(x) => Some((x, p.1)), None => None } } else { Some(p) } } } }
}
proof fn lemma_wid(a: Seq<At>, i: int) requires 0 <= i <= a.len() ensures wid(a) is Some ==> wid(a.take(i)) is Some, wid_f(a) is Some ==> wid_f(a.take(i)) is Some
    decreases a.len()
{ if i < a.len() { lemma_wid(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } else { assert(a.take(i) =~= a); } }
//@fn reader/attributes/width.rs::read_width casts
//@| ensures (match (r, wid_f(av(attrs@))) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); reveal_strlit("type"); reveal_strlit("w"); }
//@loop 0 iter=it
//@| invariant wid_f(av(attrs@).take(it.index@)) == Some((w, width_type)),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); assert(s.take(it.index@ + 1).last() == s[it.index@]); assert(s[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   lemma_wid(s, it.index@ + 1); reveal_strlit("type"); reveal_strlit("w"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
/// A border read from its attributes.
pub open spec fn edge_of(p: TableCellBorderPosition, a: Seq<At>) -> TableCellBorder {
    let t = match last(a, "val"@) { Some(v) => named::<BorderType>(v)->0, None => BorderType::Single };
    let c = match last(a, "color"@) { Some(c) => c, None => "000000"@ };
    TableCellBorder { border_type: t, size: cast::<u32, usize>(num_or(last(a, "sz"@), 4)->0), color: strv(c), position: p, space: 0 }
}''')
w('pub open spec fn pos_of(k: XMLElement) -> Option<TableCellBorderPosition> { match k { XMLElement::End => Some(TableCellBorderPosition::Right), XMLElement::Start => Some(TableCellBorderPosition::Left), %s, _ => None } }'
  % ', '.join('XMLElement::%s => Some(TableCellBorderPosition::%s)' % (k, k) for _, k, _ in SIDES))
w('''#[verifier::opaque] pub open spec fn bstep(b: TableCellBorders, k: XMLElement, a: Seq<At>) -> Option<TableCellBorders> { match pos_of(k) { Some(p) => if bdr_fine(a) { Some(sp_TableCellBorders_set(b, edge_of(p, a))) } else { None }, None => Some(b) } }
pub open spec fn brun(b: TableCellBorders, t: Seq<Tok>) -> Option<(TableCellBorders, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match bstep(b, k, e.a) { Some(q) => brun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellBorders { Some((b, t.skip(1))) } else { brun(b, t.skip(1)) }, None => None },
        Tok::Chars(_) => brun(b, t.skip(1)),
    } }
}
//@fn <TableCellBorders as ElementReader>::read r=out casts
//@| ensures brun(no_edges(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellBorders, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant brun(no_edges(), old(r).todo()) is Some ==> brun(borders, r.todo()) == brun(no_edges(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(bstep); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_last(e.a, "sz"@); lemma_last(e.a, "space"@); lemma_last(e.a, "val"@); } } }
//@end
#[verifier::opaque] pub open spec fn mstep(m: CellMargins, k: XMLElement, a: Seq<At>) -> CellMargins { match wid_f(a) { None => m, Some(x) => { let v = cast::<isize, usize>(x.0); match k {
    XMLElement::Top => sp_CellMargins_margin_top(m, v, x.1), XMLElement::Right => sp_CellMargins_margin_right(m, v, x.1), XMLElement::Bottom => sp_CellMargins_margin_bottom(m, v, x.1), XMLElement::Left => sp_CellMargins_margin_left(m, v, x.1), _ => m } } } }
pub open spec fn mrun(m: CellMargins, t: Seq<Tok>) -> Option<(CellMargins, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => mrun(mstep(m, k, e.a), t.skip(1)), None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::CellMargins { Some((m, t.skip(1))) } else { mrun(m, t.skip(1)) }, None => None },
        Tok::Chars(_) => mrun(m, t.skip(1)),
    } }
}
//@fn <CellMargins as ElementReader>::read r=out casts
//@| ensures mrun(dflt::<CellMargins>(), old(r).todo()) matches Some(x) ==> out == Ok::<CellMargins, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@sub `CellMargins::default()` => `vx_default::<CellMargins>()`
//@loop 0
//@| invariant mrun(dflt::<CellMargins>(), old(r).todo()) is Some ==> mrun(margins, r.todo()) == mrun(dflt::<CellMargins>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(mstep); }
//@end
/// What one child element without content does to the cell formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn cstep(p: TableCellProperty, k: XMLElement, a: Seq<At>) -> Option<TableCellProperty> { match k {
    XMLElement::TableCellPropertyChange | XMLElement::TableCellBorders | XMLElement::CellMargins => None,
    XMLElement::TableCellWidth => match wid(a) { Some(x) => Some(sp_TableCellProperty_width(p, x.0, x.1)), None => None },
    XMLElement::TableGridSpan => if a.len() == 0 { Some(p) } else { match parsed::<usize>(a[0].v) { Some(n) => Some(sp_TableCellProperty_grid_span(p, n)), None => None } },
    XMLElement::TableVMerge => if a.len() == 0 { Some(sp_TableCellProperty_vertical_merge(p, VMergeType::Continue)) } else { match named::<VMergeType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_vertical_merge(p, n)), None => None } },
    XMLElement::VAlign => if a.len() == 0 { Some(p) } else { match named::<VAlignType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_vertical_align(p, n)), None => None } },
    XMLElement::Shading => Some(sp_TableCellProperty_shading(p, shd_of(a))),
    XMLElement::TextDirection => if a.len() == 0 { Some(p) } else { match named::<TextDirectionType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_text_direction(p, n)), None => Some(p) } },
    _ => Some(p),
} }
/// Cell formatting read from tokens, and the tokens after it.
pub open spec fn crun(p: TableCellProperty, t: Seq<Tok>) -> Option<(TableCellProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) {
            Some(XMLElement::TableCellBorders) => match brun(no_edges(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { crun(sp_TableCellProperty_set_borders(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::CellMargins) => match mrun(dflt::<CellMargins>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { crun(sp_TableCellProperty_margins(p, x.0), x.1) } else { None }, None => None },
            Some(k) => match cstep(p, k, e.a) { Some(q) => crun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellProperty { Some((p, t.skip(1))) } else { crun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => crun(p, t.skip(1)),
    } }
}
//@fn <TableCellProperty as ElementReader>::read r=out casts
//@| ensures crun(dflt::<TableCellProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant crun(dflt::<TableCellProperty>(), old(r).todo()) is Some ==> crun(property, r.todo()) == crun(dflt::<TableCellProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(cstep); }
//@before `let mut w = 0;`
//@| let ghost vx_a = av(attributes@); proof { assert(vx_a.take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_a == av(it.seq()), wid(vx_a.take(it.index@)) == Some((w, width_type)), crun(dflt::<TableCellProperty>(), old(r).todo()) is Some ==> wid(vx_a) is Some,
//@loopstart 1
//@| proof { assert(vx_a.take(it.index@ + 1).drop_last() =~= vx_a.take(it.index@)); assert(vx_a.take(it.index@ + 1).last() == vx_a[it.index@]); assert(vx_a[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   lemma_wid(vx_a, it.index@ + 1); reveal_strlit("type"); reveal_strlit("w"); }
//@afterloop 1
//@| proof { assert(vx_a.take(vx_a.len() as int) =~= vx_a); }
//@end
''')
w('''//@include rt_thm.rs
//@include tb_read.rs
//@include rt_names.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}''')
open(U + 'rt_read.rs', 'w').write('\n'.join(L) + '\n')
L = []
w = L.append
w("""/// Cell formatting that builder calls produce from text without stray markup.
pub open spec fn settled_b(b: Option<TableCellBorder>, p: TableCellBorderPosition) -> bool { b matches Some(v) ==> v.position == p && v.space == 0 && fits32(v.size) && kept(v.color) }
pub open spec fn settled_m(m: Option<CellMargin>) -> bool { m matches Some(v) ==> v.val <= i32::MAX && v.width_type != WidthType::Unsupported }
pub open spec fn settled_c(x: TableCellProperty) -> bool {
    &&& (x.width matches Some(v) ==> v.width <= i32::MAX && v.width_type != WidthType::Unsupported)
    &&& (x.vertical_merge matches Some(v) ==> v.val != VMergeType::Unsupported)
    &&& (x.vertical_align matches Some(v) ==> v.val != VAlignType::Unsupported)
    &&& (x.shading matches Some(s) ==> kept(s.color) && kept(s.fill))
    &&& (x.borders matches Some(b) ==> settled_bs(b))
    &&& (x.margins matches Some(m) ==> settled_ms(m))
}""")
w('pub open spec fn settled_bs(b: TableCellBorders) -> bool { %s }' % ' && '.join('settled_b(b.%s, TableCellBorderPosition::%s)' % (f, k) for f, k, _ in SIDES))
w('pub open spec fn settled_ms(m: CellMargins) -> bool { %s }' % ' && '.join('settled_m(m.%s)' % f for f, _, _ in MSIDES))
def nextlem(nm, ty, run, stepped, end, inner):
    w("""pub open spec fn %(n)sap(p: %(t)s, e: El) -> Option<%(t)s> { match ck(e.n) { Some(k) => if k == XMLElement::%(end)s { None } else { %(s)s }, None => None } }
pub open spec fn %(n)snext(p: %(t)s, q: %(t)s, o: Option<El>) -> bool { match o { Some(e) => %(n)sap(p, e) == Some(q), None => p == q } }
proof fn lemma_%(n)snext(p: %(t)s, q: %(t)s, o: Option<El>, t: Seq<Tok>) requires %(n)snext(p, q, o) ensures %(r)s(p, ol(o) + t) == %(r)s(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t); %(i)s reveal_with_fuel(%(r)s, 3); } }
}""" % dict(n=nm, t=ty, r=run, s=stepped, end=end, i=inner))
nextlem('b', 'TableCellBorders', 'brun', 'bstep(p, k, e.a)', 'TableCellBorders', '')
nextlem('m', 'CellMargins', 'mrun', 'Some(mstep(p, k, e.a))', 'CellMargins', '')
nextlem('c', 'TableCellProperty', 'crun', 'cstep(p, k, e.a)', 'TableCellProperty', 'reveal(cstep);')
w("""proof fn lemma_edge(b: TableCellBorder) requires settled_b(Some(b), b.position) ensures bdr_fine(el_edge(b).a), edge_of(b.position, el_edge(b).a) == b
{
    broadcast use codec::border, nums::usize_back_u32; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("space");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(b.border_type)@); let a2 = ats(a1, "sz"@, shown(b.size)@); let a3 = ats(a2, "space"@, shown(b.space)@); let a4 = ats(a3, "color"@, b.color@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2); assert(a4.drop_last() =~= a3);
    reveal_with_fuel(last, 6);
    assert(a4[0] == a1[0] && a4[1] == a2[1] && a4[2] == a3[2]);
    assert(el_edge(b).a == a4); assert(bdr_fine(a4)); assert(edge_of(b.position, a4) == b);
}
proof fn lemma_wide(n: usize, t: WidthType) requires n <= i32::MAX, t != WidthType::Unsupported
    ensures wid(wide_at(n as i32, t)) == Some((n, t)), wid_f(wide_at(n as i32, t)) == Some((n as i32 as isize, t)), cast::<isize, usize>(n as i32 as isize) == n
{
    broadcast use cells::width_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let m = n as i32;
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(m)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&m)@) == shown_of(&m)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid, 4); reveal_with_fuel(wid_f, 4);
    assert(wide_at(m, t) == a2);
}""")
def back(nm, ty, run, sides, step, var, close, empty, res):
    w('proof fn lemma_%s_back(x: %s, t: Seq<Tok>) requires settled_%s(x) ensures %s(%s, %s(x) + t) == Some((x, t))\n{' % (res, ty, nm + 's', run, empty, res))
    w('    hide(%s); kinds(); reveal(%s);' % (run, step))
    n = len(sides)
    w('    let c = seq![Tok::Close("%s"@)]; let u%d = c + t;' % (close, n))
    for i in range(n - 1, -1, -1): w('    let u%d = ol(%s_%s(x)) + u%d;' % (i, var, sides[i][0], i + 1))
    w('    let p0 = %s;' % empty)
    for i, (f, k, tag) in enumerate(sides):
        w('    let p%d = %s { %s: x.%s, ..p%d };' % (i + 1, ty, f, f, i))
        if nm == 'b': w('    assert(bnext(p%d, p%d, be_%s(x))) by { reveal(be_%s); if let Some(v) = x.%s { lemma_edge(v); } }' % (i, i + 1, f, f, f))
        else: w('    assert(mnext(p%d, p%d, me_%s(x))) by { reveal(me_%s); if let Some(v) = x.%s { lemma_wide(v.val, v.width_type); } }' % (i, i + 1, f, f, f))
        w('    lemma_%snext(p%d, p%d, %s_%s(x), u%d);' % (nm, i, i + 1, var, f, i + 1))
    w('    assert(p%d == x);' % n)
    # unfold the tokens
    tails = ['s%d' % i for i in range(n + 1)]
    w('    let s%d = c;' % n)
    for i in range(n - 1, -1, -1): w('    let s%d = ol(%s_%s(x)) + s%d; lemma_cat(ol(%s_%s(x)), s%d, t);' % (i, var, sides[i][0], i + 1, var, sides[i][0], i + 1))
    w('    assert(%s(x) == s0); assert(s0 + t == u0);' % res)
    w('    assert(u%d[0] == Tok::Close("%s"@)); assert(u%d.skip(1) =~= t); lemma_%s_end(x, u%d);\n}' % (n, close, n, run, n))
for run, ty, k in [('brun', 'TableCellBorders', 'tcBorders'), ('mrun', 'CellMargins', 'tcMar'), ('crun', 'TableCellProperty', 'tcPr')]:
    w('proof fn lemma_%s_end(x: %s, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("%s"@) ensures %s(x, u) == Some((x, u.skip(1))) { kinds(); }' % (run, ty, k, run))
back('b', 'TableCellBorders', 'brun', SIDES, 'bstep', 'be', 'tcBorders', 'no_edges()', 'edges')
back('m', 'CellMargins', 'mrun', MSIDES, 'mstep', 'me', 'tcMar', 'no_rims()', 'rims')
def leaf(f, body): w('proof fn c_%s(x: TableCellProperty, p: TableCellProperty) requires settled_c(x) ensures x.%s is Some || p.%s is None ==> cnext(p, TableCellProperty { %s: x.%s, ..p }, ce_%s(x))\n{ reveal(ce_%s); reveal(cstep); kinds(); %s }' % (f, f, f, f, f, f, f, body))
leaf('width', 'if let Some(v) = x.width { lemma_wide(v.width, v.width_type); }')
leaf('grid_span', 'broadcast use nums::usize_back; if let Some(v) = x.grid_span { assert(seen(shown_of(&v.val)@) == shown_of(&v.val)@); assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); }')
leaf('vertical_merge', 'broadcast use cells::merge; if let Some(v) = x.vertical_merge { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); }')
leaf('vertical_align', 'broadcast use cells::align; if let Some(v) = x.vertical_align { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); }')
leaf('text_direction', 'broadcast use cells::direction; if let Some(v) = x.text_direction { assert(val(shown(v.val)@)[0].v == shown_of(&v.val)@); }')
leaf('shading', """broadcast use codec::shd; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill");
    if let Some(s) = x.shading {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(s.shd_type)@); let a2 = ats(a1, "color"@, s.color@); let a3 = ats(a2, "fill"@, s.fill@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2);
        reveal_with_fuel(shd_of, 5);
        assert(shd_of(a3) == s);
    }""")
for f, tag, piece, res, dfl in [('borders', 'tcBorders', 'w_edges', 'edges', ''), ('margins', 'tcMar', 'w_rims', 'rims', 'broadcast use cells::d_margins; ')]:
    w("""proof fn c_%s(x: TableCellProperty, p: TableCellProperty, t: Seq<Tok>) requires settled_c(x), p.%s is None ensures crun(p, %s(x) + t) == crun(TableCellProperty { %s: x.%s, ..p }, t)
{
    reveal(%s); kinds(); %s
    match x.%s { None => { assert(%s(x) + t =~= t); }
        Some(b) => { lemma_%s_back(b, t); let o = %s; let u = %s(x) + t; assert(u =~= o + (%s(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= %s(b) + t); } }
}""" % (f, f, piece, f, f, piece, dfl, f, piece, res, op(tag), piece, res, res))
SEQ = ['width', 'borders', 'grid_span', 'vertical_merge', 'vertical_align', 'text_direction', 'shading', 'margins']
w("""/// Cell formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_cell_formatting(x: TableCellProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_c(x)
    ensures tcpr_onto(x, log).subrange(0, log.len() as int) == log, tcpr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "tcPr"@, a: Seq::empty() }),
        crun(dflt::<TableCellProperty>(), tcpr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(crun); broadcast use cells::d_cell;
    let c = seq![Tok::Close("tcPr"@)]; let u8 = c + t;""")
n = len(SEQ)
for i in range(n - 1, -1, -1): w('    let u%d = %s + u%d;' % (i, ORDER[i], i + 1))
w('    let p0 = no_cell();')
for i, f in enumerate(SEQ):
    w('    let p%d = TableCellProperty { %s: x.%s, ..p%d };' % (i + 1, f, f, i))
    if f in ('borders', 'margins'): w('    c_%s(x, p%d, u%d);' % (f, i, i + 1))
    else: w('    c_%s(x, p%d); lemma_cnext(p%d, p%d, ce_%s(x), u%d);' % (f, i, i, i + 1, f, i + 1))
w('    assert(p8 == x); let s8 = c;')
for i in range(n - 1, -1, -1): w('    let s%d = %s + s%d; lemma_cat(%s, s%d, t);' % (i, ORDER[i], i + 1, ORDER[i], i + 1))
w("""    assert(tcpr_body(x, c) == s0); assert(s0 + t == u0);
    assert(u8[0] == Tok::Close("tcPr"@)); assert(u8.skip(1) =~= t); lemma_crun_end(x, u8);
    let o = %s;
    assert(tcpr_onto(x, log) == log + (o + s0));
    assert(tcpr_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(tcpr_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}""" % op('tcPr'))
open(U + 'rt_thm.rs', 'w').write('\n'.join(L) + '\n')

# ==== table formatting
TS = SIDES[:6]
L = []
w = L.append
w('// Table formatting: the tokens of each part of it.')
w('pub open spec fn tside(p: TableBorderPosition) -> Seq<char> { match p { %s } }' % ', '.join('TableBorderPosition::%s => "%s"@' % (k, n) for _, k, n in TS))
w('pub open spec fn el_tedge(b: TableBorder) -> El { El { n: tside(b.position), a: border_at(b.border_type, b.size, b.space, b.color@) } }')
for f, k, n in TS: w('#[verifier::opaque] pub open spec fn tbe_%s(b: TableBorders) -> Option<El> { match b.%s { Some(v) => Some(el_tedge(v)), None => None } }' % (f, f))
for f, k, n in MSIDES: w('#[verifier::opaque] pub open spec fn tme_%s(m: TableCellMargins) -> Option<El> { Some(el_wide("%s"@, m.%s.val as i32, m.%s.width_type)) }' % (f, n, f, f))
w('pub open spec fn tedges(b: TableBorders) -> Seq<Tok> { %s }' % nest(['ol(tbe_%s(b))' % f for f, _, _ in TS], 'seq![Tok::Close("tblBorders"@)]'))
w('pub open spec fn trims(m: TableCellMargins) -> Seq<Tok> { %s }' % nest(['ol(tme_%s(m))' % f for f, _, _ in MSIDES], 'seq![Tok::Close("tblCellMar"@)]'))
a = 'Seq::empty()'
for f, n, num in TPOS: a = 'with(%s, "%s"@, %s)' % (a, n, ('num(p.%s)' if num else 'txt(p.%s)') % f)
w('pub open spec fn el_tpos(p: TablePositionProperty) -> El { El { n: "tblpPr"@, a: %s } }' % a)
TLEAF = [('width', None, 'el_wide("tblW"@, x.width.width as i32, x.width.width_type)'), ('justification', None, 'el_val("jc"@, x.justification.val@)'),
         ('indent', 1, 'el_wide("tblInd"@, v.width, v.width_type)'), ('style', 1, 'el_val("tblStyle"@, v.val@)'), ('position', 1, 'el_tpos(v)')]
for f, o, e in TLEAF:
    if o: w('#[verifier::opaque] pub open spec fn te_%s(x: TableProperty) -> Option<El> { match x.%s { Some(v) => Some(%s), None => None } }' % (f, f, e))
    else: w('#[verifier::opaque] pub open spec fn te_%s(x: TableProperty) -> Option<El> { Some(%s) }' % (f, e))
w('#[verifier::opaque] pub open spec fn w_tedges(x: TableProperty) -> Seq<Tok> { %s + tedges(x.borders) }' % op('tblBorders'))
w('#[verifier::opaque] pub open spec fn w_trims(x: TableProperty) -> Seq<Tok> { match x.margins { Some(b) => %s + trims(b), None => Seq::empty() } }' % op('tblCellMar'))
TORDER = ['ol(te_width(x))', 'ol(te_justification(x))', 'w_tedges(x)', 'w_trims(x)', 'ol(te_indent(x))', 'ol(te_style(x))', 'ol(te_position(x))']
w('/// The tokens inside table formatting, followed by others. (A layout is written between the style and the position; the reader does not support it.)')
w('pub open spec fn tblpr_body(x: TableProperty, t: Seq<Tok>) -> Seq<Tok> { %s }' % nest(TORDER, 't'))
w('pub open spec fn tblpr_onto(x: TableProperty, log: Seq<Tok>) -> Seq<Tok> { log + (%s + tblpr_body(x, seq![Tok::Close("tblPr"@)])) }' % op('tblPr'))
open(U + 'tb_spec.rs', 'w').write('\n'.join(L) + '\n')

L = []
w = L.append
w("""// TRUSTED: the texts of an optional text, one after another, are that text.
pub trait VxOptText { fn vx_text(&self) -> (r: String); }
impl VxOptText for Option<String> { #[verifier::external_body] fn vx_text(&self) -> (r: String) ensures *self matches Some(s) ==> r@ == s@ { unimplemented!() } }
//@fn XMLBuilder::table_position_property
//@| ensures put(self, r, el_tpos(*prop)),
//@sub `.iter().cloned().collect()` => `.vx_text()`
//@at start
//@| proof { names(); }
//@end""")
put('table_width', 'el_wide("tblW"@, w, t)')
put('table_indent', 'el_wide("tblInd"@, w, t)')
put('justification', 'el_val("jc"@, val@)')
put('table_style', 'el_val("tblStyle"@, val@)')
opn('open_table_property', 'tblPr'); opn('open_table_borders', 'tblBorders'); opn('open_table_cell_margins', 'tblCellMar')
bx('TableWidth', 'one(log, el_wide("tblW"@, self.width as i32, self.width_type))', '\n//@sub `self.width as i32` => `#[verifier::truncate] (self.width as i32)`')
bx('TableIndent', 'one(log, el_wide("tblInd"@, self.width, self.width_type))')
bx('Justification', 'one(log, el_val("jc"@, self.val@))')
bx('TableStyle', 'one(log, el_val("tblStyle"@, self.val@))')
bx('TablePositionProperty', 'one(log, el_tpos(*self))')
w("""// The layout is outside; nothing is said about what is written for it.
pub uninterp spec fn other<T>(t: T, log: Seq<Tok>) -> Seq<Tok>;
impl BuildXML for TableLayout {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}""")
subs = '\n//@sub `let func = match self.position {` => `let vx_f = |b: XMLBuilder<W>| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_tedge(*self)) { match self.position {`'
for f, k, n in TS:
    subs += '\n//@sub `TableBorderPosition::%s => XMLBuilder::border_%s,` => `TableBorderPosition::%s => XMLBuilder::border_%s(b, self.border_type, self.size, self.space, &self.color),`' % (k, f, k, f)
subs += '\n//@sub `};~~XMLBuilder::from(stream)` => `} } ; XMLBuilder::from(stream)`'
subs += '\n//@sub `|b| func(b, self.border_type, self.size, self.space, &self.color)` => `vx_f`'
bx('TableBorder', 'one(log, el_tedge(*self))', subs)
wrapper('lemma_tedges', 'b', 'TableBorders', 'tblBorders', ['ol(tbe_%s(b))' % f for f, _, _ in TS], '', 'tedges(b)')
wrapper('lemma_trims', 'm', 'TableCellMargins', 'tblCellMar', ['ol(tme_%s(m))' % f for f, _, _ in MSIDES], '', 'trims(m)')
wrapper('lemma_tblpr', 'x', 'TableProperty', 'tblPr', TORDER, '', 'tblpr_body(x, seq![Tok::Close("tblPr"@)])')
kids('kids_tedges', 'b', 'TableBorders', [(f, 'ol(tbe_%s(b))' % f, 'tbe_' + f) for f, _, _ in TS])
bx('TableBorders', 'log + (%s + tedges(*self))' % op('tblBorders'), '\n//@at start\n//@| proof { names(); kids_tedges(*self); lemma_tedges(*self, stream.log()); }')
bx('TableCellMargins', 'log + (%s + trims(*self))' % op('tblCellMar'), ''.join('\n//@sub `self.%s.val as i32` => `#[verifier::truncate] (self.%s.val as i32)`' % (f, f) for f, _, _ in MSIDES)
   + '\n//@at start\n//@| proof { names(); puts::<W>(); lemma_trims(*self, stream.log()); %s }' % ' '.join('reveal(tme_%s);' % f for f, _, _ in MSIDES))
kids('kids_table', 'x', 'TableProperty', [(f, 'ol(te_%s(x))' % f, 'te_' + f) for f, o, _ in TLEAF if o] + [('margins', 'w_trims(x)', 'w_trims')])
w("""proof fn kids_table_always(x: TableProperty)
    ensures forall |l: Seq<Tok>| #[trigger] x.width.onto(l) == l + ol(te_width(x)), forall |l: Seq<Tok>| #[trigger] x.justification.onto(l) == l + ol(te_justification(x)),
        forall |l: Seq<Tok>| #[trigger] x.borders.onto(l) == l + w_tedges(x), x.layout is None ==> forall |l: Seq<Tok>| #[trigger] kid(x.layout, l) == l,
{ reveal(ol); reveal(kid);
    assert forall |l: Seq<Tok>| #[trigger] x.width.onto(l) == l + ol(te_width(x)) by { reveal(te_width); assert(x.width.onto(l) =~= l + ol(te_width(x))); }
    assert forall |l: Seq<Tok>| #[trigger] x.justification.onto(l) == l + ol(te_justification(x)) by { reveal(te_justification); assert(x.justification.onto(l) =~= l + ol(te_justification(x))); }
    assert forall |l: Seq<Tok>| #[trigger] x.borders.onto(l) == l + w_tedges(x) by { reveal(w_tedges); }
}
//@fn <TableProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.open() == stream.open() && (self.layout is None ==> w.log() == tblpr_onto(*self, stream.log())),
//@at start
//@| proof { names(); kids_table(*self); kids_table_always(*self); lemma_tblpr(*self, stream.log()); }
//@end""")
open(U + 'tb_write.rs', 'w').write('\n'.join(L) + '\n')
L = []
w = L.append
w("""// Table formatting: what is read.
//@fn <TableAlignmentType as FromStr>::from_str ext
//@| ensures (match (r, named::<TableAlignmentType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub mod tables {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn align(t: &TableAlignmentType) ensures #![trigger shown_of::<TableAlignmentType>(t)] named::<TableAlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: whole numbers are printed and read back exactly also by way of a floating point number, and contain no percent sign.
    pub broadcast axiom fn indent_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@ && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && cast::<isize, i32>(*n as isize) == *n;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below; derived defaults leave every optional value absent.
    pub broadcast axiom fn d_table() ensures #[trigger] dflt::<TableProperty>() == table0(dflt::<TableBorders>());
    pub broadcast axiom fn d_rims() ensures #[trigger] dflt::<TableCellMargins>() == rims0();
    pub broadcast axiom fn d_pos() ensures #[trigger] dflt::<TablePositionProperty>() == no_pos();
}""")
w('pub open spec fn table0(b: TableBorders) -> TableProperty { TableProperty { width: TableWidth { width: 0, width_type: WidthType::Auto }, justification: Justification { val: strv("left"@) }, borders: b, margins: None, indent: None, style: None, layout: None, position: None } }')
w('pub open spec fn rims0() -> TableCellMargins { TableCellMargins { top: CellMargin { val: 0, width_type: WidthType::Dxa }, left: CellMargin { val: 55, width_type: WidthType::Dxa }, bottom: CellMargin { val: 0, width_type: WidthType::Dxa }, right: CellMargin { val: 55, width_type: WidthType::Dxa } } }')
w('pub open spec fn no_pos() -> TablePositionProperty { TablePositionProperty { %s } }' % ', '.join('%s: None' % f for f, _, _ in TPOS))
w('pub open spec fn no_tedges() -> TableBorders { TableBorders { %s } }' % ', '.join('%s: None' % f for f, _, _ in TS))
w("""//@fn <TableProperty as Default>::default r=out
//@| ensures out == table0(dflt::<TableBorders>()),
//@end
//@fn TableBorders::new r=out
//@| ensures out == dflt::<TableBorders>(),
//@end
//@fn <CellMargin as Default>::default r=out
//@| ensures out == (CellMargin { val: 55, width_type: WidthType::Dxa }),
//@end
//@fn <TableCellMargins as Default>::default r=out
//@| ensures out == rims0(),
//@end
//@fn TableProperty::new r=out
//@| ensures out == dflt::<TableProperty>(),
//@end
//@fn TableBorders::with_empty r=out
//@| ensures out == no_tedges(),
//@end
//@fn TablePositionProperty::new r=out
//@| ensures out == dflt::<TablePositionProperty>(),
//@end
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
pub open spec fn tedge_of(p: TableBorderPosition, a: Seq<At>) -> TableBorder {
    let t = match last(a, "val"@) { Some(v) => named::<BorderType>(v)->0, None => BorderType::Single };
    let c = match last(a, "color"@) { Some(c) => c, None => "000000"@ };
    TableBorder { border_type: t, size: cast::<u32, usize>(num_or(last(a, "sz"@), 4)->0), color: strv(c), position: p, space: 0 }
}""")
w('pub open spec fn tpos_of(k: XMLElement) -> Option<TableBorderPosition> { match k { %s, _ => None } }' % ', '.join('XMLElement::%s => Some(TableBorderPosition::%s)' % (k, k) for _, k, _ in TS))
w("""#[verifier::opaque] pub open spec fn tbstep(b: TableBorders, k: XMLElement, a: Seq<At>) -> Option<TableBorders> { match tpos_of(k) { Some(p) => if bdr_fine(a) { Some(sp_TableBorders_set(b, tedge_of(p, a))) } else { None }, None => Some(b) } }
pub open spec fn tbrun(b: TableBorders, t: Seq<Tok>) -> Option<(TableBorders, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match tbstep(b, k, e.a) { Some(q) => tbrun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableBorders { Some((b, t.skip(1))) } else { tbrun(b, t.skip(1)) }, None => None },
        Tok::Chars(_) => tbrun(b, t.skip(1)),
    } }
}
//@fn <TableBorders as ElementReader>::read r=out casts
//@| ensures tbrun(no_tedges(), old(r).todo()) matches Some(x) ==> out == Ok::<TableBorders, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant tbrun(no_tedges(), old(r).todo()) is Some ==> tbrun(borders, r.todo()) == tbrun(no_tedges(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tbstep); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_last(e.a, "sz"@); lemma_last(e.a, "space"@); lemma_last(e.a, "val"@); } } }
//@end
#[verifier::opaque] pub open spec fn tmstep(m: TableCellMargins, k: XMLElement, a: Seq<At>) -> TableCellMargins { match wid_f(a) { None => m, Some(x) => { let v = cast::<isize, usize>(x.0); match k {
    XMLElement::Top => sp_TableCellMargins_margin_top(m, v, x.1), XMLElement::Right => sp_TableCellMargins_margin_right(m, v, x.1), XMLElement::Bottom => sp_TableCellMargins_margin_bottom(m, v, x.1), XMLElement::Left => sp_TableCellMargins_margin_left(m, v, x.1), _ => m } } } }
pub open spec fn tmrun(m: TableCellMargins, t: Seq<Tok>) -> Option<(TableCellMargins, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => tmrun(tmstep(m, k, e.a), t.skip(1)), None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellMargin { Some((m, t.skip(1))) } else { tmrun(m, t.skip(1)) }, None => None },
        Tok::Chars(_) => tmrun(m, t.skip(1)),
    } }
}
//@fn <TableCellMargins as ElementReader>::read r=out casts
//@| ensures tmrun(dflt::<TableCellMargins>(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellMargins, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@sub `TableCellMargins::default()` => `vx_default::<TableCellMargins>()`
//@loop 0
//@| invariant tmrun(dflt::<TableCellMargins>(), old(r).todo()) is Some ==> tmrun(margins, r.todo()) == tmrun(dflt::<TableCellMargins>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tmstep); }
//@end""")
body = ' else '.join('if n == "%s"@ { %s }' % (n, ('match parsed::<i32>(v) { Some(x) => sp_TablePositionProperty_%s(p, x), None => p }' if num else 'sp_TablePositionProperty_%s(p, v)') % f) for f, n, num in TPOS)
prs = ' '.join('reveal_strlit("%s");' % n for _, n, _ in TPOS)
w("""#[verifier::opaque] pub open spec fn at_step(p: TablePositionProperty, n: Seq<char>, v: Seq<char>) -> TablePositionProperty {
    %s else { p }
}
pub open spec fn at_of(a: Seq<At>) -> TablePositionProperty decreases a.len() { if a.len() == 0 { dflt::<TablePositionProperty>() } else { at_step(at_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_at_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures at_of(with(a, n, v)) == (match v { Some(v) => at_step(at_of(a), n, seen(v)), None => at_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }
//@fn <TablePositionProperty as ElementReader>::read r=out autostr
//@| ensures out == Ok::<TablePositionProperty, ReaderError>(at_of(av(attrs@))), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant at_of(av(attrs@).take(it.index@ as int)) == property, _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal(at_step); %s }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end""" % (body, prs))
w("""/// What one child element without content does to the table formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn tstep(p: TableProperty, k: XMLElement, a: Seq<At>) -> Option<TableProperty> { match k {
    XMLElement::TableBorders | XMLElement::TableCellMargin => None,
    XMLElement::TableWidth => match wid_f(a) { Some(x) => Some(sp_TableProperty_width(p, cast::<isize, usize>(x.0), x.1)), None => Some(p) },
    XMLElement::Justification => match first(a, "val"@) { Some(v) => match named::<TableAlignmentType>(v) { Some(t) => Some(sp_TableProperty_align(p, t)), None => Some(p) }, None => Some(p) },
    XMLElement::TableIndent => match wid_f(a) { Some(x) => if x.0 != 0 { Some(sp_TableProperty_indent(p, cast::<isize, i32>(x.0))) } else { Some(p) }, None => Some(p) },
    XMLElement::TableStyle => match first(a, "val"@) { Some(v) => Some(sp_TableProperty_style(p, v)), None => Some(p) },
    XMLElement::TablePositionProperty => Some(sp_TableProperty_position(p, at_of(a))),
    _ => Some(p),
} }
/// Table formatting read from tokens, and the tokens after it.
pub open spec fn trun(p: TableProperty, t: Seq<Tok>) -> Option<(TableProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) {
            Some(XMLElement::TableBorders) => match tbrun(no_tedges(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { trun(sp_TableProperty_set_borders(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::TableCellMargin) => match tmrun(dflt::<TableCellMargins>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { trun(sp_TableProperty_set_margins(p, x.0), x.1) } else { None }, None => None },
            Some(k) => match tstep(p, k, e.a) { Some(q) => trun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableProperty { Some((p, t.skip(1))) } else { trun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => trun(p, t.skip(1)),
    } }
}
pub open spec fn tp0() -> TableProperty { sp_TableProperty_set_borders(dflt::<TableProperty>(), no_tedges()) }
//@fn <TableProperty as ElementReader>::read r=out casts
//@| ensures trun(tp0(), old(r).todo()) matches Some(x) ==> out == Ok::<TableProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant trun(tp0(), old(r).todo()) is Some ==> trun(tp, r.todo()) == trun(tp0(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(tstep); }
//@end
// Reading what was written.
pub open spec fn settled_tb(b: Option<TableBorder>, p: TableBorderPosition) -> bool { b matches Some(v) ==> v.position == p && v.space == 0 && fits32(v.size) && kept(v.color) }
pub open spec fn settled_tm(v: CellMargin) -> bool { v.val <= i32::MAX && v.width_type != WidthType::Unsupported }""")
w('pub open spec fn settled_tbs(b: TableBorders) -> bool { %s }' % ' && '.join('settled_tb(b.%s, TableBorderPosition::%s)' % (f, k) for f, k, _ in TS))
w('pub open spec fn settled_tms(m: TableCellMargins) -> bool { %s }' % ' && '.join('settled_tm(m.%s)' % f for f, _, _ in MSIDES))
w("""/// Table formatting that builder calls produce from text without stray markup; a layout is not read, and an indent of zero means none.
pub open spec fn settled_t(x: TableProperty) -> bool {
    &&& x.layout is None && settled_tbs(x.borders) && (x.margins matches Some(m) ==> settled_tms(m))
    &&& x.width.width <= i32::MAX && x.width.width_type != WidthType::Unsupported
    &&& exists |t: TableAlignmentType| x.justification.val == #[trigger] shown_of(&t)
    &&& (x.indent matches Some(v) ==> v.width != 0 && v.width_type == WidthType::Dxa)
    &&& (x.style matches Some(v) ==> kept_e(v.val))
    &&& (x.position matches Some(p) ==> kept_o(p.vertical_anchor) && kept_o(p.horizontal_anchor) && kept_o(p.position_x_alignment) && kept_o(p.position_y_alignment))
}""")
nextlem('tb', 'TableBorders', 'tbrun', 'tbstep(p, k, e.a)', 'TableBorders', '')
nextlem('tm', 'TableCellMargins', 'tmrun', 'Some(tmstep(p, k, e.a))', 'TableCellMargin', '')
nextlem('t', 'TableProperty', 'trun', 'tstep(p, k, e.a)', 'TableProperty', 'reveal(tstep);')
w("""proof fn lemma_tedge(b: TableBorder) requires settled_tb(Some(b), b.position) ensures bdr_fine(el_tedge(b).a), tedge_of(b.position, el_tedge(b).a) == b
{
    broadcast use codec::border, nums::usize_back_u32; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("space");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(b.border_type)@); let a2 = ats(a1, "sz"@, shown(b.size)@); let a3 = ats(a2, "space"@, shown(b.space)@); let a4 = ats(a3, "color"@, b.color@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2); assert(a4.drop_last() =~= a3);
    reveal_with_fuel(last, 6);
    assert(a4[0] == a1[0] && a4[1] == a2[1] && a4[2] == a3[2]);
    assert(el_tedge(b).a == a4); assert(bdr_fine(a4)); assert(tedge_of(b.position, a4) == b);
}
proof fn lemma_signed(n: i32, t: WidthType) requires t != WidthType::Unsupported
    ensures wid_f(wide_at(n, t)) == Some((n as isize, t)), cast::<isize, i32>(n as isize) == n
{
    broadcast use tables::indent_back, cells::wide; reveal_strlit("w"); reveal_strlit("type");
    let a0 = Seq::<At>::empty(); let a1 = ats(a0, "w"@, shown(n)@); let a2 = ats(a1, "type"@, shown(t)@);
    assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1);
    assert(seen(shown_of(&n)@) == shown_of(&n)@); assert(seen(shown_of(&t)@) == shown_of(&t)@);
    reveal_with_fuel(wid_f, 4);
    assert(wide_at(n, t) == a2);
}""")
for run, ty, k in [('tbrun', 'TableBorders', 'tblBorders'), ('tmrun', 'TableCellMargins', 'tblCellMar'), ('trun', 'TableProperty', 'tblPr')]:
    w('proof fn lemma_%s_end(x: %s, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("%s"@) ensures %s(x, u) == Some((x, u.skip(1))) { kinds(); }' % (run, ty, k, run))
def tback(nm, ty, run, sides, step, var, close, empty, res, use):
    w('proof fn lemma_%s_back(x: %s, t: Seq<Tok>) requires settled_%s(x) ensures %s(%s, %s(x) + t) == Some((x, t))\n{' % (res, ty, nm + 's', run, empty, res))
    w('    hide(%s); kinds(); reveal(%s);%s' % (run, step, use))
    n = len(sides)
    w('    let c = seq![Tok::Close("%s"@)]; let u%d = c + t;' % (close, n))
    for i in range(n - 1, -1, -1): w('    let u%d = ol(%s_%s(x)) + u%d;' % (i, var, sides[i][0], i + 1))
    w('    let p0 = %s;' % empty)
    for i, (f, k, tag) in enumerate(sides):
        w('    let p%d = %s { %s: x.%s, ..p%d };' % (i + 1, ty, f, f, i))
        if nm == 'tb': w('    assert(tbnext(p%d, p%d, tbe_%s(x))) by { reveal(tbe_%s); if let Some(v) = x.%s { lemma_tedge(v); } }' % (i, i + 1, f, f, f))
        else: w('    assert(tmnext(p%d, p%d, tme_%s(x))) by { reveal(tme_%s); lemma_wide(x.%s.val, x.%s.width_type); }' % (i, i + 1, f, f, f, f))
        w('    lemma_%snext(p%d, p%d, %s_%s(x), u%d);' % (nm, i, i + 1, var, f, i + 1))
    w('    assert(p%d == x);' % n)
    w('    let s%d = c;' % n)
    for i in range(n - 1, -1, -1): w('    let s%d = ol(%s_%s(x)) + s%d; lemma_cat(ol(%s_%s(x)), s%d, t);' % (i, var, sides[i][0], i + 1, var, sides[i][0], i + 1))
    w('    assert(%s(x) == s0); assert(s0 + t == u0);' % res)
    w('    assert(u%d[0] == Tok::Close("%s"@)); assert(u%d.skip(1) =~= t); lemma_%s_end(x, u%d);\n}' % (n, close, n, run, n))
tback('tb', 'TableBorders', 'tbrun', TS, 'tbstep', 'tbe', 'tblBorders', 'no_tedges()', 'tedges', '')
tback('tm', 'TableCellMargins', 'tmrun', MSIDES, 'tmstep', 'tme', 'tblCellMar', 'dflt::<TableCellMargins>()', 'trims', '')
def tleaf(f, body): w('proof fn t_%s(x: TableProperty, p: TableProperty) requires settled_t(x) ensures %s ==> tnext(p, TableProperty { %s: x.%s, ..p }, te_%s(x))\n{ reveal(te_%s); reveal(tstep); kinds(); %s }'
    % (f, 'true' if f in ('width', 'justification') else 'x.%s is Some || p.%s is None' % (f, f), f, f, f, f, body))
tleaf('width', 'lemma_wide(x.width.width, x.width.width_type);')
tleaf('justification', 'broadcast use tables::align; let a = choose |t: TableAlignmentType| x.justification.val == #[trigger] shown_of(&t); lemma_val(x.justification.val@); assert(seen(shown_of(&a)@) == shown_of(&a)@);')
tleaf('indent', 'if let Some(v) = x.indent { lemma_signed(v.width, v.width_type); }')
tleaf('style', 'if let Some(v) = x.style { lemma_val(v.val@); }')
pb = 'broadcast use nums::i32_back, tables::d_pos; reveal(at_step); %s\n    if let Some(f) = x.position {\n        let a0 = Seq::<At>::empty(); let p0 = no_pos();\n' % prs
for i, (f, n, num) in enumerate(TPOS):
    v = ('num(f.%s)' if num else 'txt(f.%s)') % f
    pb += '        let a%d = with(a%d, "%s"@, %s); lemma_at_with(a%d, "%s"@, %s); let p%d = TablePositionProperty { %s: f.%s, ..p%d };%s assert(at_of(a%d) == p%d);\n' % (i + 1, i, n, v, i, n, v, i + 1, f, f, i,
        (' if let Some(v) = f.%s { assert(seen(shown_of(&v)@) == shown_of(&v)@); }' % f) if num else '', i + 1, i + 1)
pb += '        assert(p8 == f); assert(el_tpos(f).a == a8);\n    }'
tleaf('position', pb)
w("""proof fn t_borders(x: TableProperty, p: TableProperty, t: Seq<Tok>) requires settled_t(x) ensures trun(p, w_tedges(x) + t) == trun(TableProperty { borders: x.borders, ..p }, t)
{
    reveal(w_tedges); kinds(); let b = x.borders;
    lemma_tedges_back(b, t); let o = %s; let u = w_tedges(x) + t; assert(u =~= o + (tedges(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= tedges(b) + t);
}
proof fn t_margins(x: TableProperty, p: TableProperty, t: Seq<Tok>) requires settled_t(x), p.margins is None ensures trun(p, w_trims(x) + t) == trun(TableProperty { margins: x.margins, ..p }, t)
{
    reveal(w_trims); kinds();
    match x.margins { None => { assert(w_trims(x) + t =~= t); }
        Some(b) => { lemma_trims_back(b, t); let o = %s; let u = w_trims(x) + t; assert(u =~= o + (trims(b) + t)); assert(u[0] == o[0]); assert(u.skip(1) =~= trims(b) + t); } }
}""" % (op('tblBorders'), op('tblCellMar')))
TSEQ = ['width', 'justification', 'borders', 'margins', 'indent', 'style', 'position']
w("""/// Table formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_table_formatting(x: TableProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_t(x)
    ensures tblpr_onto(x, log).subrange(0, log.len() as int) == log, tblpr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "tblPr"@, a: Seq::empty() }),
        trun(tp0(), tblpr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(trun); broadcast use tables::d_table;
    let c = seq![Tok::Close("tblPr"@)]; let u7 = c + t;""")
n = len(TSEQ)
for i in range(n - 1, -1, -1): w('    let u%d = %s + u%d;' % (i, TORDER[i], i + 1))
w('    let p0 = tp0();')
for i, f in enumerate(TSEQ):
    w('    let p%d = TableProperty { %s: x.%s, ..p%d };' % (i + 1, f, f, i))
    if f in ('borders', 'margins'): w('    t_%s(x, p%d, u%d);' % (f, i, i + 1))
    else: w('    t_%s(x, p%d); lemma_tnext(p%d, p%d, te_%s(x), u%d);' % (f, i, i, i + 1, f, i + 1))
w('    assert(p7 == x); let s7 = c;')
for i in range(n - 1, -1, -1): w('    let s%d = %s + s%d; lemma_cat(%s, s%d, t);' % (i, TORDER[i], i + 1, TORDER[i], i + 1))
w("""    assert(tblpr_body(x, c) == s0); assert(s0 + t == u0);
    assert(u7[0] == Tok::Close("tblPr"@)); assert(u7.skip(1) =~= t); lemma_trun_end(x, u7);
    let o = %s;
    assert(tblpr_onto(x, log) == log + (o + s0));
    assert(tblpr_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(tblpr_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}""" % op('tblPr'))
open(U + 'tb_read.rs', 'w').write('\n'.join(L) + '\n')
