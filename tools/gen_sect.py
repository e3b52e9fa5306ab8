#!/usr/bin/env python3
"""Writes the units on section formatting: rs_core.rs, rs_names.rs, rs_spec.rs, rs_write.rs, rs_read.rs."""
import re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = here + '/units/'
text = open(U + 'builders_core.rs').read()
specs, blocks = {}, {}
for m in re.finditer(r'^pub open spec fn (sp_\w+)\(.*$', text, re.M): specs[m.group(1)] = m.group(0)
for m in re.finditer(r'^//@fn (\S+)[^\n]*\n(?://@[^\n]*\n)*?//@end$', text, re.M): blocks[m.group(1)] = m.group(0)
MARGIN = 'top right bottom left header footer gutter'.split()
WANT = '''SectionProperty::page_margin SectionProperty::page_size SectionProperty::doc_grid SectionProperty::page_num_type SectionProperty::title_pg
PageSize::width PageSize::height DocGrid::grid_type DocGrid::line_pitch DocGrid::char_space PageNumType::start PageNumType::chap_style
HeaderReference::new FooterReference::new Shading::color Shading::fill Shading::shd_type'''.split() + ['PageMargin::' + f for f in MARGIN]
out, done = [], set()
for k in WANT:
    if k not in blocks: print('no contract for', k); continue
    for s in re.findall(r'\bsp_\w+', blocks[k]):
        if s not in done: done.add(s); out.append(specs[s])
    out.append(blocks[k])
open(U + 'rs_core.rs', 'w').write('\n'.join(out) + '\n')
KINDS = [('sectPr', 'SectionProperty'), ('pgSz', 'PageSize'), ('pgMar', 'PageMargin'), ('docGrid', 'DocGrid'), ('headerReference', 'HeaderReference'), ('footerReference', 'FooterReference'),
         ('pgNumType', 'PageNumType'), ('type', 'Type'), ('titlePg', 'TitlePg'), ('textDirection', 'TextDirection'), ('cols', 'Unsupported')]
NAMES = [n for n, _ in KINDS] + ['w', 'h', 'orient', 'space', 'num', 'linePitch', 'charSpace', 'start', 'chapStyle', 'val'] + MARGIN
o = ['/// What the names written look like without their prefix.', 'pub proof fn names()', '    ensures']
o += ['        local("w:%s"@) == "%s"@,' % (n, n) for n in NAMES] + ['        local("r:id"@) == "id"@,', '{']
o += ['    reveal_strlit("w:%s"); reveal_strlit("%s"); assert(local("w:%s"@) =~= "%s"@);' % (n, n, n, n) for n in NAMES]
o += ['    reveal_strlit("r:id"); reveal_strlit("id"); assert(local("r:id"@) =~= "id"@);', '}']
open(U + 'rs_names.rs', 'w').write('\n'.join(o) + '\n')
def nest(parts, last): return ' + ('.join(parts + [last]) + ')' * len(parts)
def op(n): return 'seq![Tok::Open(El { n: "%s"@, a: Seq::empty() })]' % n
REFS = [(w_, k) for k in ('header', 'footer') for w_ in ('default', 'first', 'even')]
def rf(w_, k): return ('' if w_ == 'default' else w_ + '_') + k + '_reference'

# ---- what is written
L = []
w = L.append
def chain(pairs):
    s = 'Seq::empty()'
    for n, v in pairs: s = 'with(%s, "%s"@, %s)' % (s, n, v)
    return s
w('// Section formatting: the tokens of each part of it.')
w('#[verifier::external_body] pub struct Header { x: u8 }\n#[verifier::external_body] pub struct Footer { x: u8 }')
w('pub open spec fn size_at(s: PageSize) -> Seq<At> { %s }' % chain([('w', 'Some(shown(s.w)@)'), ('h', 'Some(shown(s.h)@)'), ('orient', 'num(s.orient)')]))
w('pub open spec fn margin_at(s: PageMargin) -> Seq<At> { %s }' % chain([(f, 'Some(shown(s.%s)@)' % f) for f in MARGIN]))
w('pub open spec fn grid_at(t: DocGridType, p: Option<usize>, c: Option<isize>) -> Seq<At> { %s }' % chain([('type', 'Some(shown(t)@)'), ('linePitch', 'num(p)'), ('charSpace', 'num(c)')]))
w('pub open spec fn count_at(s: Option<u32>, c: Option<String>) -> Seq<At> { %s }' % chain([('start', 'num(s)'), ('chapStyle', 'txt(c)')]))
w('pub open spec fn ref_at(t: Seq<char>, id: Seq<char>) -> Seq<At> { %s }' % chain([('type', 'Some(t)'), ('id', 'Some(id)')]))
w('pub open spec fn cols_at(s: Seq<char>, n: Seq<char>) -> Seq<At> { %s }' % chain([('space', 'Some(s)'), ('num', 'Some(n)')]))
PARTS = [('page_size', 'Some(El { n: "pgSz"@, a: size_at(x.page_size) })'), ('page_margin', 'Some(El { n: "pgMar"@, a: margin_at(x.page_margin) })'),
         ('cols', 'Some(El { n: "cols"@, a: cols_at(shown(x.space)@, shown(x.columns)@) })'),
         ('doc_grid', 'match x.doc_grid { Some(v) => Some(El { n: "docGrid"@, a: grid_at(v.grid_type, v.line_pitch, v.char_space) }), None => None }')]
for w_, k in REFS: PARTS.append((rf(w_, k), 'match x.%s { Some(v) => Some(El { n: "%sReference"@, a: ref_at(v.%s_type@, v.id@) }), None => None }' % (rf(w_, k), k, k)))
PARTS += [('page_num_type', 'match x.page_num_type { Some(v) => Some(El { n: "pgNumType"@, a: count_at(v.start, v.chap_style) }), None => None }'),
          ('text_direction', 'if x.text_direction@ != "lrTb"@ { Some(el_val("textDirection"@, x.text_direction@)) } else { None }'),
          ('section_type', 'match x.section_type { Some(v) => Some(el_val("type"@, shown(v)@)), None => None }'),
          ('title_pg', 'if x.title_pg { Some(El { n: "titlePg"@, a: Seq::empty() }) } else { None }')]
for f, e in PARTS: w('#[verifier::opaque] pub open spec fn se_%s(x: SectionProperty) -> Option<El> { %s }' % (f, e))
ORDER = ['ol(se_%s(x))' % f for f, _ in PARTS]
w('/// The tokens inside section formatting, followed by others.')
w('pub open spec fn sect_body(x: SectionProperty, t: Seq<Tok>) -> Seq<Tok> { %s }' % nest(ORDER, 't'))
w('pub open spec fn sect_onto(x: SectionProperty, log: Seq<Tok>) -> Seq<Tok> { log + (%s + sect_body(x, seq![Tok::Close("sectPr"@)])) }' % op('sectPr'))
open(U + 'rs_spec.rs', 'w').write('\n'.join(L) + '\n')

L = []
w = L.append
w('//@include prelude.rs\nverus! {\n//@include wr_pre.rs\n//@include rx_spec.rs\n//@include rs_spec.rs\n//@include wr_head.rs')
w('''pub trait ToOptBool: Sized { spec fn ob(self) -> Option<bool>; fn to_opt_bool(self) -> (r: Option<bool>) ensures r == self.ob(); }
impl ToOptBool for bool { open spec fn ob(self) -> Option<bool> { Some(self) } fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
//@fn XMLBuilder::apply
//@| requires f.requires((self,)),
//@| ensures f.ensures((self,), r),
//@end
//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end''')
def put(fn, e, extra=''): w('//@fn XMLBuilder::%s\n//@| ensures put(self, r, %s),%s\n//@at start\n//@| proof { names(); }\n//@end' % (fn, e, extra))
put('page_size', 'El { n: "pgSz"@, a: with(with(Seq::empty(), "w"@, Some(arg0@)), "h"@, Some(arg1@)) }')
put('page_size_with_orient', 'El { n: "pgSz"@, a: with(with(with(Seq::empty(), "w"@, Some(arg0@)), "h"@, Some(arg1@)), "orient"@, Some(arg2@)) }')
put('page_margin', 'El { n: "pgMar"@, a: %s }' % chain([(f, 'Some(arg%d@)' % i) for i, f in enumerate(MARGIN)]))
put('columns', 'El { n: "cols"@, a: cols_at(arg0@, arg1@) }')
put('doc_grid', 'El { n: "docGrid"@, a: grid_at(*t, line_pitch, char_space) }', '\n//@sub `attr_display("w:type", t)` => `attr_display("w:type", *t)`')
put('header_reference', 'El { n: "headerReference"@, a: ref_at(arg0@, arg1@) }')
put('footer_reference', 'El { n: "footerReference"@, a: ref_at(arg0@, arg1@) }')
put('page_num_type', 'El { n: "pgNumType"@, a: count_at(start, chap_style) }')
put('text_direction', 'el_val("textDirection"@, arg0@)')
put('type_tag', 'el_val("type"@, val@)')
put('title_pg', 'El { n: "titlePg"@, a: Seq::empty() }')
w('''//@fn XMLBuilder::open_section_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "sectPr"@, a: Seq::empty() })) && w.open() == self.open().push("sectPr"@) && w.open().drop_last() == self.open() && w.open().last() == "sectPr"@ && w.open().len() > 0,
//@at start
//@| proof { names(); }
//@end
#[verifier::opaque] pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }''')
def bx(ty, onto, extra=''):
    w('''//@fn <%s as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),%s
//@at start
//@| proof { reveal(one); }
//@end
impl BuildXML for %s {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { %s }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}''' % (ty, extra, ty, onto))
def shows(fs): return ''.join('\n//@sub `format!("{}", self.%s)` => `self.%s.vx_str()`' % (f, f) for f in fs)
bx('PageSize', 'one(log, El { n: "pgSz"@, a: size_at(*self) })', shows(['w', 'h']) + '\n//@sub `|b| match` => `|b: XMLBuilder<W>| match`\n//@closure 0\n//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, El { n: "pgSz"@, a: size_at(*self) })')
bx('PageMargin', 'one(log, El { n: "pgMar"@, a: margin_at(*self) })', shows(MARGIN))
bx('DocGrid', 'one(log, El { n: "docGrid"@, a: grid_at(self.grid_type, self.line_pitch, self.char_space) })')
for k in ('header', 'footer'): bx(k.title() + 'Reference', 'one(log, El { n: "%sReference"@, a: ref_at(self.%s_type@, self.id@) })' % (k, k))
bx('PageNumType', 'one(log, El { n: "pgNumType"@, a: count_at(self.start, self.chap_style) })')
P = 'log.push(Tok::Open(El { n: "sectPr"@, a: Seq::empty() }))'
ch = P
for p in ORDER: ch = '(%s + %s)' % (ch, p)
n = len(ORDER)
w('proof fn lemma_sect(x: SectionProperty, log: Seq<Tok>)\n    ensures %s.push(Tok::Close("sectPr"@)) == sect_onto(x, log),\n{' % ch)
w('    let p0 = %s; let t%d = seq![Tok::Close("sectPr"@)];' % (P, n))
for i in range(n - 1, -1, -1): w('    let t%d = %s + t%d;' % (i, ORDER[i], i + 1))
for i in range(n): w('    let p%d = p%d + %s; lemma_cat(p%d, %s, t%d);' % (i + 1, i, ORDER[i], i, ORDER[i], i + 1))
w('    assert(p%d.push(Tok::Close("sectPr"@)) =~= p%d + t%d);' % (n, n, n))
w('    assert(p0 + t0 =~= log + (%s + t0));\n}' % op('sectPr'))
KID = ['doc_grid'] + [rf(a, b) for a, b in REFS] + ['page_num_type']
w('proof fn kids_sect(x: SectionProperty)\n    ensures')
for f in KID: w('        forall |l: Seq<Tok>| #[trigger] kid(x.%s, l) == l + ol(se_%s(x)),' % (f, f))
for f, n_ in [('page_size', 'pgSz'), ('page_margin', 'pgMar')]:
    w('        forall |l: Seq<Tok>| #[trigger] one(l, El { n: "%s"@, a: %s_at(x.%s) }) == l + ol(se_%s(x)),' % (n_, f[5:], f, f))
w('{ reveal(kid); reveal(ol); reveal(one);')
for f in KID: w('    assert forall |l: Seq<Tok>| #[trigger] kid(x.%s, l) == l + ol(se_%s(x)) by { reveal(se_%s); assert(kid(x.%s, l) =~= l + ol(se_%s(x))); }' % (f, f, f, f, f))
for f, n_ in [('page_size', 'pgSz'), ('page_margin', 'pgMar')]:
    w('    assert forall |l: Seq<Tok>| #[trigger] one(l, El { n: "%s"@, a: %s_at(x.%s) }) == l + ol(se_%s(x)) by { reveal(se_%s); assert(one(l, El { n: "%s"@, a: %s_at(x.%s) }) =~= l + ol(se_%s(x))); }' % (n_, f[5:], f, f, f, n_, f[5:], f, f))
w('}')
w('''pub open spec fn wrote<W: Write>(a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, o: Option<El>) -> bool { r matches Ok(w) ==> w.log() == a.log() + ol(o) && w.open() == a.open() }
proof fn puts<W: Write>()
    ensures forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) ==> wrote(a, r, Some(e)),
        forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l,
{
    reveal(ol);
    assert forall |a: XMLBuilder<W>, r: Result<XMLBuilder<W>>, e: El| #[trigger] put(a, r, e) implies wrote(a, r, Some(e)) by { let l = a.log(); assert(l.push(Tok::Open(e)).push(Tok::Close(e.n)) =~= l + leaf(e)); }
    assert forall |l: Seq<Tok>| #[trigger] (l + ol(None)) == l by { assert(l + Seq::<Tok>::empty() =~= l); }
}
//@fn <SectionProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == sect_onto(*self, stream.log()) && w.open() == stream.open(),%s
//@sub `self.text_direction != "lrTb"` => `self.text_direction.as_str() != "lrTb"`
//@sub `"lrTb", |b| {` => `"lrTb", |b: XMLBuilder<W>| {`
//@sub `self.title_pg, |b|` => `self.title_pg, |b: XMLBuilder<W>|`
//@sub `|t, b|` => `|t: SectionType, b: XMLBuilder<W>|`
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_val("textDirection"@, self.text_direction@)))
//@closure 1
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(el_val("type"@, shown(t)@)))
//@closure 2
//@| -> (o: Result<XMLBuilder<W>>) ensures wrote(b, o, Some(El { n: "titlePg"@, a: Seq::empty() }))
//@at start
//@| proof { names(); puts::<W>(); kids_sect(*self); lemma_sect(*self, stream.log()); reveal(se_cols); reveal(se_text_direction); reveal(se_section_type); reveal(se_title_pg); }
//@end
//@include rs_names.rs
//@auto except=Header,Footer
proof fn vx_probe() ensures false {}
fn main(){}
}''' % shows(['space', 'columns']))
open(U + 'rs_write.rs', 'w').write('\n'.join(L) + '\n')

# ---- what is read
L = []
w = L.append
w('//@include prelude.rs\nverus! {\n//@include rd_pre.rs\n//@include rx_spec.rs\n//@include rs_spec.rs\n//@include rd_head.rs\n//@include rs_core.rs')
w('/// What an element name stands for.')
w('#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {\n    %s else { None }\n}' % ' else '.join('if n == "%s"@ { Some(XMLElement::%s) }' % (n, k) for n, k in KINDS))
rs = ' '.join('reveal_strlit("%s");' % n for n, _ in KINDS)
w('proof fn kinds() ensures\n' + '\n'.join('    ck("%s"@) == Some(XMLElement::%s),' % (n, k) for n, k in KINDS) + '\n{ reveal(ck); %s }' % rs)
src = open('/repo/docx-core/src/reader/xml_element.rs').read()
src = src[src.index('impl FromStr for XMLElement'):]
src = src[:src.index('\n}\n')]
lits = sorted(set(re.findall(r'"(\w+)"', src)))
w('''//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); %s
//@|   if s@ == "cols"@ { %s } }
//@end''' % (rs, ' '.join('reveal_strlit("%s");' % l for l in lits if len(l) == 4)  + ' ' + ' '.join('reveal_strlit("%s");' % l for l in lits if len(l) != 4)))
for t in ['DocGridType', 'SectionType']:
    w('//@fn <%s as FromStr>::from_str ext\n//@| ensures (match (r, named::<%s>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),\n//@end' % (t, t))
w('''pub mod sects {
    use super::*;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn grid(t: &DocGridType) ensures #![trigger shown_of::<DocGridType>(t)] named::<DocGridType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn kind(t: &SectionType) ensures #![trigger shown_of::<SectionType>(t)] named::<SectionType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: numbers contain no letters; whole numbers up to 2^24 are read exactly by way of a short floating point number; casts keep numbers in range.
    pub broadcast axiom fn no_unit(n: &i32) ensures #![trigger shown_of::<i32>(n)] !ends(shown_of::<i32>(n)@, "pt"@);
    pub broadcast axiom fn no_unit_u(n: &u32) ensures #![trigger shown_of::<u32>(n)] !ends(shown_of::<u32>(n)@, "pt"@), *n <= i32::MAX ==> float_to::<i32>(shown_of::<u32>(n)@) == Some(*n as i32) && cast::<i32, u32>(*n as i32) == *n;
    pub broadcast axiom fn pitch(n: &usize) ensures #![trigger shown_of::<usize>(n)] *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<usize>(n)@) matches Some(f) && cast::<f32, usize>(f) == *n);
    pub broadcast axiom fn space(n: &isize) ensures #![trigger shown_of::<isize>(n)] seen(shown_of::<isize>(n)@) == shown_of::<isize>(n)@, -0x100_0000 <= *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<isize>(n)@) matches Some(f) && cast::<f32, isize>(f) == *n);
    // TRUSTED: these words contain no markup.
    pub axiom fn words() ensures seen("default"@) == "default"@, seen("first"@) == "first"@, seen("even"@) == "even"@;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below; derived defaults leave every optional value absent.
    pub broadcast axiom fn d_size() ensures #[trigger] dflt::<PageSize>() == size0();
    pub broadcast axiom fn d_margin() ensures #[trigger] dflt::<PageMargin>() == margin0();
    pub broadcast axiom fn d_count() ensures #[trigger] dflt::<PageNumType>() == (PageNumType { start: None, chap_style: None });
    pub broadcast axiom fn d_sect() ensures #[trigger] dflt::<SectionProperty>() == sect0();
}
pub open spec fn size0() -> PageSize { PageSize { w: 11906, h: 16838, orient: None } }
pub open spec fn margin0() -> PageMargin { PageMargin { top: 1985, left: 1701, bottom: 1701, right: 1701, header: 851, footer: 992, gutter: 0 } }''')
HF = ['header', 'first_header', 'even_header', 'footer', 'first_footer', 'even_footer']
w('pub open spec fn sect0() -> SectionProperty { SectionProperty { page_size: dflt::<PageSize>(), page_margin: dflt::<PageMargin>(), columns: 1, space: 425, title_pg: false, text_direction: strv("lrTb"@), doc_grid: None, %s, section_type: None, page_num_type: None } }' % ', '.join('%s: None, %s_reference: None' % (f, f) for f in HF))
for t, s in [('PageSize', 'size0()'), ('PageMargin', 'margin0()'), ('SectionProperty', 'sect0()')]:
    w('//@fn <%s as Default>::default r=out\n//@| ensures out == %s,\n//@end' % (t, s))
for t in ['PageSize', 'PageMargin', 'SectionProperty', 'PageNumType']: w('//@fn %s::new r=out\n//@| ensures out == dflt::<%s>(),\n//@end' % (t, t))
w('''//@fn <Shading as Default>::default r=out
//@| ensures out == shd0(),
//@end
//@fn Shading::new r=out
//@| ensures out == shd0(),
//@end
//@fn DocGrid::with_empty r=out
//@| ensures out == (DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None }),
//@end
/// A length: in points, or a number.
pub open spec fn points(s: Seq<char>) -> Option<i32> { match float_to::<i32>(without(s)) { Some(n) => Some(times(n, 20)), None => None } }
pub open spec fn dax(s: Seq<char>) -> Option<i32> { if ends(s, "pt"@) { points(s) } else { float_to::<i32>(s) } }
pub uninterp spec fn times(a: i32, b: i32) -> i32;
pub trait VxTimes { fn vx_times(self, o: i32) -> (r: i32); }
impl VxTimes for i32 { #[verifier::external_body] fn vx_times(self, o: i32) -> (r: i32) ensures r == times(self, o) { unimplemented!() } }
//@fn reader/attributes/val.rs::value_to_dax casts
//@| ensures (match (r, dax(v@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@sub `.saturating_mul(` => `.vx_times(`
//@end''')
def fold(k, ty, start, okb, steps, key, opts, var, attrs, res='out', err='ReaderError', extra='', post=''):
    names = ' '.join('reveal_strlit("%s");' % n for n, _ in steps)
    body = ' else '.join('if n == "%s"@ { %s }' % (n, s) for n, s in steps)
    w('''#[verifier::opaque] pub open spec fn %(k)s_step(p: %(ty)s, n: Seq<char>, v: Seq<char>) -> %(ty)s { %(body)s else { p } }
#[verifier::opaque] pub open spec fn %(k)s_ok(a: At) -> bool { let n = a.n; let v = a.v; %(okb)s }
pub open spec fn %(k)s_fine(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() ==> %(k)s_ok(#[trigger] a[i]) }
pub open spec fn %(k)s_of(a: Seq<At>) -> %(ty)s decreases a.len() { if a.len() == 0 { %(start)s } else { %(k)s_step(%(k)s_of(a.drop_last()), a.last().n, a.last().v) } }
proof fn lemma_%(k)s_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures %(k)s_of(with(a, n, v)) == (match v { Some(v) => %(k)s_step(%(k)s_of(a), n, seen(v)), None => %(k)s_of(a) }),
        %(k)s_fine(a) && (v matches Some(v) ==> %(k)s_ok(At { n, v: seen(v) })) ==> %(k)s_fine(with(a, n, v)),
{ if let Some(v) = v { let b = a.push(At { n, v: seen(v) }); assert(b.drop_last() =~= a); if %(k)s_fine(a) && %(k)s_ok(At { n, v: seen(v) }) { assert forall |i: int| 0 <= i < b.len() implies %(k)s_ok(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } } }
//@fn %(key)s r=out %(opts)s
//@| ensures %(k)s_fine(av(%(attrs)s@)) ==> (out matches Ok(x) && %(same)s),%(post)s%(extra)s
//@at start
//@| proof { assert(av(%(attrs)s@).take(0) =~= Seq::<At>::empty()); %(names)s }
//@loop 0 iter=it
//@| invariant %(inv)s,%(inv2)s
//@loopstart 0
//@| proof { let s = av(%(attrs)s@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   if %(k)s_fine(s) { assert(%(k)s_ok(s[it.index@ as int])); } reveal(%(k)s_step); reveal(%(k)s_ok); %(names)s }
//@afterloop 0
//@| proof { assert(av(%(attrs)s@).take(%(attrs)s@.len() as int) =~= av(%(attrs)s@)); }
//@end''' % dict(k=k, ty=ty, body=body, okb=okb, start=start, key=key, opts=opts, attrs=attrs, names=names, extra=extra,
        same=('(x.0@, x.1@) == %s_of(av(%s@))' if k == 'ref' else 'x == %s_of(av(%s@))') % (k, attrs),
        post=(' final(_r).todo() == old(_r).todo(),' if post else ''),
        inv=('(rid@, header_type@) == ref_of(av(%s@).take(it.index@ as int))' % attrs if k == 'ref' else '%s_of(av(%s@).take(it.index@ as int)) == %s' % (k, attrs, var)),
        inv2=(' _r.todo() == old(_r).todo(),' if post else '')))
fold('size', 'PageSize', 'dflt::<PageSize>()', 'n == "w"@ || n == "h"@ ==> dax(v) is Some', [('w', 'sp_PageSize_width(p, cast::<i32, u32>(dax(v)->0))'), ('h', 'sp_PageSize_height(p, cast::<i32, u32>(dax(v)->0))')],
     'reader/section_property.rs::read_page_size', 'autostr casts', 'size', 'attributes')
fold('margin', 'PageMargin', 'dflt::<PageMargin>()', ' || '.join('n == "%s"@' % f for f in MARGIN) + ' ==> dax(v) is Some', [(f, 'sp_PageMargin_%s(p, dax(v)->0)' % f) for f in MARGIN],
     'reader/section_property.rs::read_page_margin', 'autostr', 'margin', 'attributes')
fold('ref', '(Seq<char>, Seq<char>)', '(""@, "default"@)', 'true', [('type', '(p.0, v)'), ('id', '(v, p.1)')],
     'reader/section_property.rs::read_header_or_footer_reference', 'autostr', '', 'attributes')
fold('grid', 'DocGrid', 'DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None }',
     '(n == "type"@ ==> named::<DocGridType>(v) is Some) && (n == "linePitch"@ || n == "charSpace"@ ==> parsed::<f32>(v) is Some)',
     [('type', 'sp_DocGrid_grid_type(p, named::<DocGridType>(v)->0)'), ('linePitch', 'sp_DocGrid_line_pitch(p, cast::<f32, usize>(parsed::<f32>(v)->0))'), ('charSpace', 'sp_DocGrid_char_space(p, cast::<f32, isize>(parsed::<f32>(v)->0))')],
     '<DocGrid as ElementReader>::read', 'autostr casts', 'doc_grid', 'attrs', post=1)
fold('count', 'PageNumType', 'dflt::<PageNumType>()', 'true', [('start', 'match parsed::<u32>(v) { Some(s) => sp_PageNumType_start(p, s), None => p }'), ('chapStyle', 'sp_PageNumType_chap_style(p, v)')],
     '<PageNumType as ElementReader>::read', 'autostr', 'p', 'attrs', post=1)
def refstep(k):
    s = '{ let q = ref_of(a); '
    s += ' else '.join('if q.1 == "%s"@ { Some(SectionProperty { %s: Some(sp_%sReference_new(q.1, q.0)), ..p }) }' % (w_, rf(w_, k), k.title()) for w_ in ('default', 'first', 'even'))
    return s + ' else { Some(p) } }'
w('''/// What one child element does to the section formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn sstep(p: SectionProperty, k: XMLElement, a: Seq<At>) -> Option<SectionProperty> { match k {
    XMLElement::PageMargin => if margin_fine(a) { Some(sp_SectionProperty_page_margin(p, margin_of(a))) } else { None },
    XMLElement::PageSize => if size_fine(a) { Some(sp_SectionProperty_page_size(p, size_of(a))) } else { None },
    XMLElement::DocGrid => if grid_fine(a) { Some(sp_SectionProperty_doc_grid(p, grid_of(a))) } else { None },
    XMLElement::PageNumType => Some(sp_SectionProperty_page_num_type(p, count_of(a))),
    XMLElement::HeaderReference => %s,
    XMLElement::FooterReference => %s,
    XMLElement::Type => match first(a, "val"@) { Some(v) => match named::<SectionType>(v) { Some(t) => Some(SectionProperty { section_type: Some(t), ..p }), None => Some(p) }, None => Some(p) },
    XMLElement::TitlePg => Some(sp_SectionProperty_title_pg(p)),
    _ => Some(p),
} }
/// Section formatting read from tokens, and the tokens after it.
pub open spec fn srun(p: SectionProperty, t: Seq<Tok>) -> Option<(SectionProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match sstep(p, k, e.a) { Some(q) => srun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::SectionProperty { Some((p, t.skip(1))) } else { srun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => srun(p, t.skip(1)),
    } }
}
proof fn lemma_always(a: Seq<At>) ensures ref_fine(a), count_fine(a) { reveal(ref_ok); reveal(count_ok); }
//@fn <SectionProperty as ElementReader>::read r=out autostr
//@| ensures srun(dflt::<SectionProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<SectionProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant srun(dflt::<SectionProperty>(), old(r).todo()) is Some ==> srun(sp, r.todo()) == srun(dflt::<SectionProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(sstep); reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_always(e.a); } } }
//@end
// Reading what was written.
pub open spec fn small(n: Option<usize>) -> bool { n matches Some(n) ==> n <= 0x100_0000 }
pub open spec fn small_i(n: Option<isize>) -> bool { n matches Some(n) ==> -0x100_0000 <= n <= 0x100_0000 }''' % (refstep('header'), refstep('footer')))
for k in ('header', 'footer'):
    w('pub open spec fn settled_%s(r: Option<%sReference>, t: Seq<char>) -> bool { r matches Some(r) ==> r.%s_type@ == t && kept(r.id) }' % (k, k.title(), k))
w('''/// Section formatting that builder calls produce from text without stray markup; orientation, columns and text direction are not read, and the parts
/// for headers and footers are read by other functions.
pub open spec fn settled_s(x: SectionProperty) -> bool {
    &&& x.page_size.orient is None && x.page_size.w <= i32::MAX && x.page_size.h <= i32::MAX
    &&& x.columns == 1 && x.space == 425 && x.text_direction@ == "lrTb"@
    &&& %s
    &&& %s
    &&& (x.doc_grid matches Some(g) ==> small(g.line_pitch) && small_i(g.char_space))
    &&& (x.page_num_type matches Some(v) ==> kept_o(v.chap_style))
}''' % (' && '.join('x.%s is None' % f for f in HF), ' && '.join('settled_%s(x.%s, "%s"@)' % (k, rf(w_, k), w_) for w_, k in REFS)))
w("""pub open spec fn sap(p: SectionProperty, e: El) -> Option<SectionProperty> { match ck(e.n) { Some(k) => if k == XMLElement::SectionProperty { None } else { sstep(p, k, e.a) }, None => None } }
pub open spec fn snext(p: SectionProperty, q: SectionProperty, o: Option<El>) -> bool { match o { Some(e) => sap(p, e) == Some(q), None => p == q } }
proof fn lemma_snext(p: SectionProperty, q: SectionProperty, o: Option<El>, t: Seq<Tok>) requires snext(p, q, o) ensures srun(p, ol(o) + t) == srun(q, t)
{
    reveal(ol);
    match o { None => { assert(Seq::<Tok>::empty() + t =~= t); }
        Some(e) => { let u = leaf(e) + t; assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t); reveal_with_fuel(srun, 3); } }
}
proof fn lemma_srun_end(x: SectionProperty, u: Seq<Tok>) requires u.len() > 0, u[0] == Tok::Close("sectPr"@) ensures srun(x, u) == Some((x, u.skip(1))) { kinds(); }""")
def steps(k, ty, start, pairs, el, f):
    """Attribute by attribute: [(name, value, field, hint)]"""
    s = 'reveal(%s_step); reveal(%s_ok); %s let a0 = Seq::<At>::empty(); let p0 = %s; assert(%s_of(a0) == p0);' % (k, k, ' '.join('reveal_strlit("%s");' % n for n, _, _, _ in pairs), start, k)
    for i, (n, v, fl, h) in enumerate(pairs):
        q = '(%s)' % fl if ty is None else '%s { %s: %s.%s, ..p%d }' % (ty, fl, f, fl, i)
        s += '\n    %s let a%d = with(a%d, "%s"@, %s); lemma_%s_with(a%d, "%s"@, %s); let p%d = %s; assert(%s_of(a%d) == p%d); assert(%s_fine(a%d));' % (h, i + 1, i, n, v, k, i, n, v, i + 1, q, k, i + 1, i + 1, k, i + 1)
    return s
def leaf(f, cond, body): w('proof fn s_%s(x: SectionProperty, p: SectionProperty) requires settled_s(x) ensures %s ==> snext(p, SectionProperty { %s: x.%s, ..p }, se_%s(x))\n{ reveal(se_%s); reveal(sstep); kinds(); %s }' % (f, cond, f, f, f, f, body))
def opt(f): return 'x.%s is Some || p.%s is None' % (f, f)
leaf('page_size', 'true', 'broadcast use sects::no_unit_u, sects::d_size; let f = x.page_size;\n    ' + steps('size', 'PageSize', 'size0()', [(n, 'Some(shown(f.%s)@)' % n, n, 'assert(seen(shown_of(&f.%s)@) == shown_of(&f.%s)@);' % (n, n)) for n in ('w', 'h')], '', 'f') + '\n    assert(p2 == f); assert(size_at(f) == a2);')
leaf('page_margin', 'true', 'broadcast use nums::i32_back, sects::no_unit, sects::d_margin; let f = x.page_margin;\n    ' + steps('margin', 'PageMargin', 'margin0()', [(n, 'Some(shown(f.%s)@)' % n, n, 'assert(seen(shown_of(&f.%s)@) == shown_of(&f.%s)@);' % (n, n)) for n in MARGIN], '', 'f') + '\n    assert(p7 == f); assert(margin_at(f) == a7);')
hint = 'if let Some(v) = f.%s { assert(seen(shown_of(&v)@) == shown_of(&v)@); }'
leaf('doc_grid', opt('doc_grid'), 'broadcast use sects::grid, sects::pitch, sects::space; if let Some(f) = x.doc_grid {\n    ' + steps('grid', 'DocGrid', 'DocGrid { grid_type: DocGridType::Default, line_pitch: None, char_space: None }',
     [('type', 'Some(shown(f.grid_type)@)', 'grid_type', 'assert(seen(shown_of(&f.grid_type)@) == shown_of(&f.grid_type)@);'), ('linePitch', 'num(f.line_pitch)', 'line_pitch', hint % 'line_pitch'), ('charSpace', 'num(f.char_space)', 'char_space', hint % 'char_space')], '', 'f')
     + '\n    assert(p3 == f); assert(grid_at(f.grid_type, f.line_pitch, f.char_space) == a3); }')
leaf('page_num_type', opt('page_num_type'), 'broadcast use nums::u32_back, sects::d_count; if let Some(f) = x.page_num_type {\n    ' + steps('count', 'PageNumType', 'PageNumType { start: None, chap_style: None }',
     [('start', 'num(f.start)', 'start', hint % 'start'), ('chapStyle', 'txt(f.chap_style)', 'chap_style', '')], '', 'f') + '\n    assert(p2 == f); assert(count_at(f.start, f.chap_style) == a2); }')
for w_, k in REFS:
    f = rf(w_, k)
    leaf(f, opt(f), 'reveal_strlit("default"); reveal_strlit("first"); reveal_strlit("even"); sects::words(); if let Some(f) = x.%s {\n    ' % f + steps('ref', None, '(""@, "default"@)', [('type', 'Some(f.%s_type@)' % k, '""@, f.%s_type@' % k, ''), ('id', 'Some(f.id@)', 'f.id@, f.%s_type@' % k, '')], '', 'f')
         + '\n    assert(ref_at(f.%s_type@, f.id@) == a2); assert(sp_%sReference_new(f.%s_type@, f.id@) == f); }' % (k, k.title(), k))
leaf('section_type', opt('section_type'), 'broadcast use sects::kind; if let Some(v) = x.section_type { lemma_val(shown(v)@); assert(seen(shown_of(&v)@) == shown_of(&v)@); }')
leaf('title_pg', 'x.title_pg || !p.title_pg', '')
leaf('text_direction', 'p.text_direction == x.text_direction', '')
w('proof fn s_cols(x: SectionProperty, p: SectionProperty) ensures snext(p, p, se_cols(x)) { reveal(se_cols); reveal(sstep); kinds(); }')
w("""/// Section formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_section_formatting(x: SectionProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_s(x)
    ensures sect_onto(x, log).subrange(0, log.len() as int) == log, sect_onto(x, log)[log.len() as int] == Tok::Open(El { n: "sectPr"@, a: Seq::empty() }),
        srun(dflt::<SectionProperty>(), sect_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(srun); broadcast use sects::d_sect;
    let c = seq![Tok::Close("sectPr"@)]; let u%d = c + t;""" % len(ORDER))
n = len(ORDER)
for i in range(n - 1, -1, -1): w('    let u%d = %s + u%d;' % (i, ORDER[i], i + 1))
w('    let p0 = sect0(); assert(x.text_direction == strv("lrTb"@));')
for i, (f, _) in enumerate(PARTS):
    w('    let p%d = %s; s_%s(x, p%d); lemma_snext(p%d, p%d, se_%s(x), u%d);' % (i + 1, 'p%d' % i if f == 'cols' else 'SectionProperty { %s: x.%s, ..p%d }' % (f, f, i), f, i, i, i + 1, f, i + 1))
w('    assert(p%d == x); let s%d = c;' % (n, n))
for i in range(n - 1, -1, -1): w('    let s%d = %s + s%d; lemma_cat(%s, s%d, t);' % (i, ORDER[i], i + 1, ORDER[i], i + 1))
w("""    assert(sect_body(x, c) == s0); assert(s0 + t == u0);
    assert(u%d[0] == Tok::Close("sectPr"@)); assert(u%d.skip(1) =~= t); lemma_srun_end(x, u%d);
    let o = %s;
    assert(sect_onto(x, log) == log + (o + s0));
    assert(sect_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(sect_onto(x, log).skip(log.len() as int + 1) + t =~= s0 + t);
}
//@auto except=Header,Footer
proof fn vx_probe() ensures false {}
fn main(){}
}""" % (n, n, n, op('sectPr')))
open(U + 'rs_read.rs', 'w').write('\n'.join(L) + '\n')
