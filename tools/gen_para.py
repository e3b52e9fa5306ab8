#!/usr/bin/env python3
"""Writes units/rp_spec.rs, rp_write.rs and rp_read.rs: paragraph formatting as it is written and read back (C11)."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Pieces of paragraph formatting in the order they are written: (name, field, element or None for the composed ones).
PIECES = [
    ('run', 'run_property', None),
    ('style', 'style', 'el_val("pStyle"@, v.val@)'),
    ('numbering', 'numbering_property', None),
    ('frame', 'frame_property', 'el_frame(v)'),
    ('alignment', 'alignment', 'el_val("jc"@, v.val@)'),
    ('indent', 'indent', 'el_ind(v)'),
    ('spacing', 'line_spacing', 'el_spacing(v)'),
    ('outline', 'outline_lvl', 'el_val("outlineLvl"@, shown(v.v)@)'),
    ('shading', 'shading', 'el_shading(v)'),
    ('text_alignment', 'text_alignment', 'el_val("textAlignment"@, shown(v.0)@)'),
    ('adjust', 'adjust_right_ind', 'el_val("adjustRightInd"@, shown(v.0)@)'),
    ('snap', 'snap_to_grid', 'el_val("snapToGrid"@, shown(v)@)'),
    ('keep_next', 'keep_next', 'ON keepNext'),
    ('keep_lines', 'keep_lines', 'ON keepLines'),
    ('page_break', 'page_break_before', 'ON pageBreakBefore'),
    ('widow', 'widow_control', 'el_val("widowControl"@, if v { "1"@ } else { "0"@ })'),
    ('tabs', 'tabs', None),
]
COMPOSED = [n for n, f, e in PIECES if e is None]
def toks(n): return 'w_%s(x)' % n if n in COMPOSED else 'ol(po_%s(x))' % n
SP = '        '
FRAME_TEXT = [('wrap', 'wrap'), ('h_rule', 'hRule'), ('h_anchor', 'hAnchor'), ('v_anchor', 'vAnchor'), ('x_align', 'xAlign'), ('y_align', 'yAlign')]
FRAME_NUM = [('x', 'x'), ('y', 'y'), ('h_space', 'hSpace'), ('v_space', 'vSpace'), ('w', 'w'), ('h', 'h')]
SPACING = [('before', 'before'), ('after', 'after'), ('before_lines', 'beforeLines'), ('after_lines', 'afterLines'), ('line', 'line')]

# ---------------------------------------------------------------- shared vocabulary
o = []
a = o.append
a('// Paragraph formatting: the tokens of each part of it.')
a('// Section properties, tracked changes and borders of paragraphs are outside; nothing is said about them.')
a('#[verifier::external_body] pub struct SectionProperty { x: u8 }')
a('#[verifier::external_body] pub struct ParagraphPropertyChange { x: u8 }')
a('#[verifier::external_body] pub struct ParagraphBorders { x: u8 }')
a('pub open spec fn num<T>(v: Option<T>) -> Option<Seq<char>> { match v { Some(v) => Some(shown(v)@), None => None } }')
a('pub open spec fn or0(v: Option<i32>) -> i32 { match v { Some(v) => v, None => 0 } }')
a('#[verifier::opaque] pub open spec fn ol(o: Option<El>) -> Seq<Tok> { match o { Some(e) => leaf(e), None => Seq::empty() } }')
a('''pub open spec fn ind_at(start: i32, end: i32, chars: Option<i32>, special: Option<SpecialIndentType>) -> Seq<At> {
    let a = with(ats(ats(Seq::empty(), "left"@, shown(start)@), "right"@, shown(end)@), "leftChars"@, num(chars));
    match special { Some(SpecialIndentType::FirstLine(v)) => ats(a, "firstLine"@, shown(v)@), Some(SpecialIndentType::Hanging(v)) => ats(a, "hanging"@, shown(v)@), None => a }
}
pub open spec fn el_ind(i: Indent) -> El { El { n: "ind"@, a: ind_at(or0(i.start), or0(i.end), i.start_chars, i.special_indent) } }
pub open spec fn rule_txt(r: Option<LineSpacingType>) -> Option<Seq<char>> { match r { Some(LineSpacingType::Auto) => Some("auto"@), Some(LineSpacingType::AtLeast) => Some("atLeast"@), Some(LineSpacingType::Exact) => Some("exact"@), None => None } }''')
e = 'Seq::empty()'
for f, n in SPACING: e = 'with(%s, "%s"@, num(%s))' % (e, n, f)
a('pub open spec fn spacing_at(before: Option<u32>, after: Option<u32>, line: Option<i32>, before_lines: Option<u32>, after_lines: Option<u32>, rule: Option<LineSpacingType>) -> Seq<At> {\n    with(%s, "lineRule"@, rule_txt(rule)) }' % e)
a('pub open spec fn el_spacing(l: LineSpacing) -> El { El { n: "spacing"@, a: spacing_at(l.before, l.after, l.line, l.before_lines, l.after_lines, l.line_rule) } }')
e = 'Seq::empty()'
for f, n in FRAME_TEXT: e = 'with(%s, "%s"@, txt(f.%s))' % (e, n, f)
for f, n in FRAME_NUM: e = 'with(%s, "%s"@, num(f.%s))' % (e, n, f)
a('pub open spec fn el_frame(f: FrameProperty) -> El { El { n: "framePr"@, a: %s } }' % e)
a('pub open spec fn tab_at(val: Option<TabValueType>, leader: Option<TabLeaderType>, pos: Option<usize>) -> Seq<At> { with(with(with(Seq::empty(), "val"@, num(val)), "leader"@, num(leader)), "pos"@, num(pos)) }')
a('pub open spec fn el_tab(t: Tab) -> El { El { n: "tab"@, a: tab_at(t.val, t.leader, t.pos) } }')
a('pub open spec fn each<T>(s: Seq<T>, g: spec_fn(T) -> El) -> Seq<El> { s.map_values(g) }')
a('pub open spec fn tab_el() -> spec_fn(Tab) -> El { |t: Tab| el_tab(t) }')
for n, f, e in PIECES:
    if e is None: continue
    if e.startswith('ON '):
        a('#[verifier::opaque] pub open spec fn po_%s(x: ParagraphProperty) -> Option<El> { if x.%s == Some(true) { Some(el_switch("%s"@, true)) } else { None } }' % (n, f, e[3:]))
    else:
        a('#[verifier::opaque] pub open spec fn po_%s(x: ParagraphProperty) -> Option<El> { match x.%s { Some(v) => Some(%s), None => None } }' % (n, f, e))
def el(n): return 'Tok::Open(El { n: "%s"@, a: Seq::empty() })' % n
a('#[verifier::opaque] pub open spec fn w_run(x: ParagraphProperty) -> Seq<Tok> { seq![%s] + (flat(rpr_els(x.run_property)) + seq![Tok::Close("rPr"@)]) }' % el('rPr'))
a('pub open spec fn o_num_id(v: NumberingProperty) -> Option<El> { match v.id { Some(i) => Some(el_val("numId"@, shown(i.id)@)), None => None } }')
a('pub open spec fn o_level(v: NumberingProperty) -> Option<El> { match v.level { Some(i) => Some(el_val("ilvl"@, shown(i.val)@)), None => None } }')
a('pub open spec fn num_body(v: NumberingProperty) -> Seq<Tok> { ol(o_num_id(v)) + (ol(o_level(v)) + seq![Tok::Close("numPr"@)]) }')
a('#[verifier::opaque] pub open spec fn w_numbering(x: ParagraphProperty) -> Seq<Tok> { match x.numbering_property { Some(v) => seq![%s] + num_body(v), None => Seq::empty() } }' % el('numPr'))
a('#[verifier::opaque] pub open spec fn w_tabs(x: ParagraphProperty) -> Seq<Tok> { if x.tabs@.len() > 0 { seq![%s] + (flat(each(x.tabs@, tab_el())) + seq![Tok::Close("tabs"@)]) } else { Seq::empty() } }' % el('tabs'))
a('/// The tokens inside paragraph formatting, followed by others.')
e = 't'
for n, f, _ in reversed(PIECES): e = '%s + (%s)' % (toks(n), e)
a('pub open spec fn ppr_body(x: ParagraphProperty, t: Seq<Tok>) -> Seq<Tok> { %s }' % e)
a('pub open spec fn ppr_onto(x: ParagraphProperty, log: Seq<Tok>) -> Seq<Tok> { log + (seq![%s] + ppr_body(x, seq![Tok::Close("pPr"@)])) }' % el('pPr'))
a('''/// The parts nothing is said about are absent.
pub open spec fn simple_r(x: RunProperty) -> bool { x.ins is None && x.del is None && x.positional_tab is None }
pub open spec fn simple_p(x: ParagraphProperty) -> bool { simple_r(x.run_property) && x.section_property is None && x.paragraph_property_change is None && x.borders is None && x.bidi != Some(true) }
pub proof fn lemma_cat(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }''')
open(here + '/units/rp_spec.rs', 'w').write('\n'.join(o) + '\n')

# ---------------------------------------------------------------- writing
o = []
a = o.append
a('// Paragraph formatting: what is written.')
def fn(key, ens, *rest):
    a('//@fn %s' % key); a('//@| ensures %s,' % ens)
    for r in rest: a(r)
    a('//@end')
NAMES = ['//@at start', '//@| proof { names(); names_p(); }']
for k in ['paragraph_style pStyle', 'justification jc', 'text_alignment textAlignment']:
    f, n = k.split(); fn('XMLBuilder::' + f, 'put(self, r, el_val("%s"@, val@))' % n, *NAMES)
fn('XMLBuilder::widow_control', 'put(self, r, el_val("widowControl"@, arg0@))', *NAMES)
for k in ['outline_lvl outlineLvl', 'adjust_right_ind adjustRightInd', 'indent_level ilvl', 'num_id numId']:
    f, n = k.split(); fn('XMLBuilder::' + f, 'put(self, r, el_val("%s"@, shown(val)@))' % n, *NAMES)
fn('XMLBuilder::snap_to_grid', 'put(self, r, el_val("snapToGrid"@, shown(v)@))', *NAMES)
for k in ['keep_next keepNext', 'keep_lines keepLines', 'page_break_before pageBreakBefore']:
    f, n = k.split(); fn('XMLBuilder::' + f, 'put(self, r, el_switch("%s"@, true))' % n, *NAMES)
fn('XMLBuilder::indent', 'put(self, r, El { n: "ind"@, a: ind_at(or0(start), end, start_chars, special_indent) })', '//@sub `start.unwrap_or(0)` => `vx_or0(start)`', *NAMES)
fn('XMLBuilder::line_spacing', 'put(self, r, El { n: "spacing"@, a: spacing_at(before, after, line, before_lines, after_lines, spacing) })', *NAMES)
fn('XMLBuilder::frame_property', 'put(self, r, el_frame(*prop))', '//@sub `.iter().cloned().collect()` => `.vx_text()`', *NAMES)
fn('XMLBuilder::tab', 'put(self, r, El { n: "tab"@, a: tab_at(v, leader, pos) })', *NAMES)
for k in ['open_tabs tabs', 'open_numbering_property numPr', 'open_paragraph_property pPr']:
    f, n = k.split()
    fn('XMLBuilder::' + f, 'r matches Ok(w) ==> w.log() == self.log().push(%s) && w.open() == self.open().push("%s"@) && w.open().drop_last() == self.open() && w.open().last() == "%s"@ && w.open().len() > 0' % (el(n), n, n), *NAMES)
a("""pub fn vx_or0(v: Option<i32>) -> (r: i32) ensures r == or0(v) { match v { Some(v) => v, None => 0 } }
// TRUSTED: the texts of an optional text, one after another, are that text.
pub trait VxOptText { fn vx_text(&self) -> (r: String); }
impl VxOptText for Option<String> { #[verifier::external_body] fn vx_text(&self) -> (r: String) ensures *self matches Some(s) ==> r@ == s@ { unimplemented!() } }
pub trait ToOptBool: Sized { spec fn ob(self) -> Option<bool>; fn to_opt_bool(self) -> (r: Option<bool>) ensures r == self.ob(); }
impl ToOptBool for bool { open spec fn ob(self) -> Option<bool> { Some(self) } fn to_opt_bool(self) -> (r: Option<bool>) { Some(self) } }
impl ToOptBool for Option<bool> { open spec fn ob(self) -> Option<bool> { self } fn to_opt_bool(self) -> (r: Option<bool>) { self } }
fn is_some_true(c: Option<bool>) -> (r: bool) ensures r == (c == Some(true)) { match c { Some(b) => b, None => false } }
//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
//@fn XMLBuilder::apply_opt
//@| requires forall |t: T| f.requires((t, self)),
//@| ensures opt matches Some(t) ==> f.ensures((t, self), r), opt is None ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@end
// Extracted for references to a vector, the only items it is given here.
//@fn XMLBuilder::apply_each
//@| requires forall |t: &'x T, b: Self| f.requires((t, b)),
//@| ensures forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     ==> (r matches Ok(w) ==> w.log() == onto(self.log(), #[trigger] each(items@, g)) && w.open() == self.open()),
//@sub `T, I: IntoIterator<Item = T>, F: Fn(T, Self)` => `'x, T, F: Fn(&'x T, Self)`
//@sub `items: I` => `items: &'x Vec<T>`
//@sub `items.into_iter()` => `items.iter()`
//@loop 0 iter=it
//@| invariant forall |t: &'x T, b: Self| f.requires((t, b)),
//@|   forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     ==> this.log() == onto(self.log(), #[trigger] each(items@.take(it.index@ as int), g)) && this.open() == self.open(),
//@at start
//@| proof { assert forall |g: spec_fn(T) -> El| #[trigger] each(items@.take(0), g) == Seq::<El>::empty() by { assert(each(items@.take(0), g) =~= Seq::<El>::empty()); } }
//@loopend 0
//@| proof { assert forall |g: spec_fn(T) -> El| #[trigger] each(items@.take(it.index@ + 1), g) == each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])) by {
//@|     assert(each(items@.take(it.index@ + 1), g) =~= each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])));
//@|     assert(each(items@.take(it.index@ as int), g).push(g(items@[it.index@ as int])).drop_last() =~= each(items@.take(it.index@ as int), g)); }
//@|   assert forall |g: spec_fn(T) -> El| (forall |t: &'x T, b: Self, o: Result<Self>| #[trigger] f.ensures((t, b), o) ==> put(b, o, g(*t)))
//@|     implies this.log() == onto(self.log(), #[trigger] each(items@.take(it.index@ + 1), g)) && this.open() == self.open() by { let s = each(items@.take(it.index@ as int), g); let e = g(items@[it.index@ as int]); assert(s.push(e).drop_last() =~= s); assert(s.push(e).last() == e); } }
//@afterloop 0
//@| proof { assert(items@.take(items@.len() as int) =~= items@); }
//@end
""")
def build(ty, onto, *rest):
    a('//@fn <%s as BuildXML>::build_to name=build_to_body' % ty)
    a('//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),')
    for r in rest: a(r)
    a('//@end')
    impl(ty, onto)
def impl(ty, onto, ext=False):
    a('impl BuildXML for %s {' % ty)
    a('    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { %s }' % onto)
    if ext: a('    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }')
    else: a('    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }')
    a('}')
build('ParagraphStyle', 'one(log, el_val("pStyle"@, self.val@))')
build('Justification', 'one(log, el_val("jc"@, self.val@))')
build('TextAlignment', 'one(log, el_val("textAlignment"@, shown(self.0)@))', '//@sub `format!("{}", self.0)` => `self.0.vx_str()`')
build('AdjustRightInd', 'one(log, el_val("adjustRightInd"@, shown(self.0)@))')
build('OutlineLvl', 'one(log, el_val("outlineLvl"@, shown(self.v)@))')
build('NumberingId', 'one(log, el_val("numId"@, shown(self.id)@))')
build('IndentLevel', 'one(log, el_val("ilvl"@, shown(self.val)@))')
build('Indent', 'one(log, el_ind(*self))', '//@sub `self.end.unwrap_or_default()` => `vx_or0(self.end)`')
build('LineSpacing', 'one(log, el_spacing(*self))')
build('FrameProperty', 'one(log, el_frame(*self))')
build('Tab', 'one(log, el_tab(*self))')
a("""proof fn lemma_ol(o: Option<El>) ensures forall |l: Seq<Tok>| #[trigger] (l + ol(o)) == omore(l, o)
{ reveal(ol); reveal(omore); assert forall |l: Seq<Tok>| #[trigger] (l + ol(o)) == omore(l, o) by { assert(l + ol(o) =~= omore(l, o)); } }
proof fn lemma_num(v: NumberingProperty, log: Seq<Tok>)
    ensures log + (seq![%s] + num_body(v)) == kid(v.level, kid(v.id, log.push(%s))).push(Tok::Close("numPr"@))
{
    reveal(kid); reveal(ol);
    assert(log + (seq![%s] + num_body(v)) =~= kid(v.level, kid(v.id, log.push(%s))).push(Tok::Close("numPr"@)));
}""" % ((el('numPr'),) * 4))
build('NumberingProperty', 'log + (seq![%s] + num_body(*self))' % el('numPr'), '//@at start', '//@| proof { names(); names_p(); lemma_num(*self, stream.log()); }')
a('// Proved above for formatting without tracked marks and positional tabs; nothing is said about the rest.')
impl('RunProperty', 'if simple_r(*self) { rpr_onto(*self, log) } else { other(*self, log) }', True)
impl('SectionProperty', 'other(*self, log)', True)
impl('ParagraphPropertyChange', 'other(*self, log)', True)
impl('ParagraphBorders', 'other(*self, log)', True)
def chain(fin):
    e = 'log.push(%s)' % el('pPr')
    for n, f, _ in PIECES: e = '(%s + %s)' % (e, toks(n))
    return e + '.push(Tok::Close("pPr"@))'
a('proof fn lemma_ppr(x: ParagraphProperty, log: Seq<Tok>)\n    ensures ppr_onto(x, log) == %s' % chain(1))
a('{')
a('    let l0 = log.push(%s); let c = seq![Tok::Close("pPr"@)];' % el('pPr'))
for i, (n, f, _) in enumerate(PIECES): a('    let l%d = l%d + %s;' % (i + 1, i, toks(n)))
a('    let t%d = c;' % len(PIECES))
for i, (n, f, _) in reversed(list(enumerate(PIECES))): a('    let t%d = %s + t%d; lemma_cat(l%d, %s, t%d);' % (i, toks(n), i + 1, i, toks(n), i + 1))
a('    assert(l%d.push(Tok::Close("pPr"@)) =~= l%d + c);' % (len(PIECES), len(PIECES)))
a('    lemma_cat(log, seq![%s], t0); assert(l0 =~= log + seq![%s]);' % (el('pPr'), el('pPr')))
a('}')
SW = ('snap', 'keep_next', 'keep_lines', 'page_break', 'widow')
a('proof fn lemma_pkids(x: ParagraphProperty)\n    requires simple_p(x)\n    ensures')
a('        forall |l: Seq<Tok>| #[trigger] kid(x.section_property, l) == l, forall |l: Seq<Tok>| #[trigger] kid(x.paragraph_property_change, l) == l, forall |l: Seq<Tok>| #[trigger] kid(x.borders, l) == l,')
a('        forall |l: Seq<Tok>| #[trigger] x.run_property.onto(l) == l + w_run(x),')
for n, f, e in PIECES:
    if e is None or n in SW: continue
    a('        forall |l: Seq<Tok>| #[trigger] kid(x.%s, l) == l + %s,' % (f, toks(n)))
a('        forall |l: Seq<Tok>| #[trigger] kid(x.numbering_property, l) == l + w_numbering(x),')
for n, f, e in PIECES:
    if n not in SW: continue
    t = e.replace('el_val', 'El_val') if 0 else e
    if e.startswith('ON '):
        a('        x.%s == Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + %s) == one(l, el_switch("%s"@, true))), x.%s != Some(true) ==> (forall |l: Seq<Tok>| #[trigger] (l + %s) == l),' % (f, toks(n), e[3:], f, toks(n)))
    else:
        a('        x.%s matches Some(v) ==> (forall |l: Seq<Tok>| #[trigger] (l + %s) == one(l, %s)), x.%s is None ==> (forall |l: Seq<Tok>| #[trigger] (l + %s) == l),' % (f, toks(n), e, f, toks(n)))
a('        x.tabs@.len() > 0 ==> (forall |l: Seq<Tok>| #[trigger] (l + w_tabs(x)) == onto(l.push(%s), each(x.tabs@, tab_el())).push(Tok::Close("tabs"@))), x.tabs@.len() == 0 ==> (forall |l: Seq<Tok>| #[trigger] (l + w_tabs(x)) == l),' % el('tabs'))
a('{ reveal(omore); reveal(kid);')
for n, f, e in PIECES:
    if e is None: continue
    a('    assert forall |l: Seq<Tok>| #[trigger] (l + %s) == omore(l, po_%s(x)) by { lemma_ol(po_%s(x)); }' % (toks(n), n, n))
    a('    reveal(po_%s);' % n)
a('    assert forall |l: Seq<Tok>| #[trigger] x.run_property.onto(l) == l + w_run(x) by { reveal(w_run); lemma_onto(l.push(%s), rpr_els(x.run_property)); assert(rpr_onto(x.run_property, l) =~= l + w_run(x)); }' % el('rPr'))
a('    assert forall |l: Seq<Tok>| #[trigger] kid(x.numbering_property, l) == l + w_numbering(x) by { reveal(w_numbering); if x.numbering_property is None { assert(l + w_numbering(x) =~= l); } }')
a('    assert forall |l: Seq<Tok>| true implies #[trigger] (l + w_tabs(x)) == (if x.tabs@.len() > 0 { onto(l.push(%s), each(x.tabs@, tab_el())).push(Tok::Close("tabs"@)) } else { l }) by { reveal(w_tabs); let s = each(x.tabs@, tab_el()); lemma_onto(l.push(%s), s); if x.tabs@.len() > 0 { assert(l + w_tabs(x) =~= onto(l.push(%s), s).push(Tok::Close("tabs"@))); } else { assert(l + w_tabs(x) =~= l); } }' % ((el('tabs'),) * 3))
a('}')
a("""//@fn <ParagraphProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> simple_p(*self) ==> w.log() == ppr_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { names(); names_p(); lemma_ppr(*self, stream.log()); if simple_p(*self) { lemma_pkids(*self); } }
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_val("snapToGrid"@, shown(v)@))
//@closure 1
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("keepNext"@, true))
//@closure 2
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("keepLines"@, true))
//@closure 3
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_switch("pageBreakBefore"@, true))
//@closure 5
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_val("widowControl"@, if flag { "1"@ } else { "0"@ }))
//@closure 6
//@| -> (o: Result<XMLBuilder<W>>) ensures o matches Ok(w) ==> w.log() == onto(b.log().push(%s), each(self.tabs@, tab_el())).push(Tok::Close("tabs"@)) && w.open() == b.open()
//@closure 7
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, el_tab(*tab))
//@end""" % el('tabs'))
open(here + '/units/rp_write.rs', 'w').write('\n'.join(o) + '\n')

# ---------------------------------------------------------------- reading
KINDS = '''pPr ParagraphProperty pStyle ParagraphStyle numPr NumberingProperty framePr FrameProperty jc Justification ind Indent outlineLvl OutlineLvl
textAlignment TextAlignment adjustRightInd AdjustRightInd snapToGrid SnapToGrid keepNext KeepNext keepLines KeepLines pageBreakBefore PageBreakBefore
widowControl WidowControl tabs Tabs tab Tab ilvl IndentLevel numId NumberingId wrap Wrap hRule HeightRule hAnchor HAnchor vAnchor VAnchor hSpace HSpace
vSpace VSpace xAlign XAlign yAlign YAlign h H x X y Y'''.split()
KINDS = list(zip(KINDS[::2], KINDS[1::2]))
OLD = [('spacing', 'Spacing'), ('shd', 'Shading'), ('w', 'W'), ('rPr', 'RunProperty')]
o = []
a = o.append
def rv(l): return ' '.join('reveal_strlit("%s");' % n for n in l)
a('// Paragraph formatting: what is read.')
a('/// What further element names stand for.')
a('#[verifier::opaque] pub open spec fn kind_p(n: Seq<char>) -> Option<XMLElement> {\n    ' + ' else '.join('if n == "%s"@ { Some(XMLElement::%s) }' % k for k in KINDS) + ' else { None }\n}')
a('#[verifier::opaque] pub open spec fn pk(n: Seq<char>) -> Option<XMLElement> { match kind(n) { Some(k) => Some(k), None => kind_p(n) } }')
a('proof fn kinds_p() ensures\n    ' + ',\n    '.join('pk("%s"@) == Some(XMLElement::%s)' % k for k in KINDS + OLD) + ',')
OLDN = '''rPr rPrChange ins del ptab rStyle b bCs i iCs caps strike dstrike highlight u vertAlign color sz szCs spacing fitText rFonts shd vanish specVanish bdr w'''.split()
a('{ reveal(pk); reveal(kind); reveal(kind_p); %s }' % rv(OLDN + [n for n, k in KINDS]))
a('''pub mod more_nums {
    use super::*;
    // TRUSTED: whole numbers up to 2^24 are read exactly by way of a short floating point number; numbers contain no letters.
    pub broadcast axiom fn usize_back_f32(n: &usize) ensures #![trigger shown_of::<usize>(n)] *n <= 0x100_0000 ==> (parsed::<f32>(shown_of::<usize>(n)@) matches Some(f) && cast::<f32, usize>(f) == *n);
    pub broadcast axiom fn isize_back(n: &isize) ensures #![trigger shown_of::<isize>(n)] parsed::<isize>(shown_of::<isize>(n)@) == Some(*n), seen(shown_of::<isize>(n)@) == shown_of::<isize>(n)@;
    pub broadcast axiom fn no_unit(n: &i32) ensures #![trigger shown_of::<i32>(n)] !ends(shown_of::<i32>(n)@, "pt"@);
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn align(t: &AlignmentType) ensures #![trigger shown_of::<AlignmentType>(t)] named::<AlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn text_align(t: &TextAlignmentType) ensures #![trigger shown_of::<TextAlignmentType>(t)] named::<TextAlignmentType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn tab_val(t: &TabValueType) ensures #![trigger shown_of::<TabValueType>(t)] named::<TabValueType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn tab_leader(t: &TabLeaderType) ensures #![trigger shown_of::<TabLeaderType>(t)] named::<TabLeaderType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: these words contain no markup.
    pub axiom fn words() ensures seen("auto"@) == "auto"@, seen("atLeast"@) == "atLeast"@, seen("exact"@) == "exact"@, seen("1"@) == "1"@;
    // TRUSTED: derived defaults.
    pub broadcast axiom fn d_ppr() ensures #[trigger] dflt::<ParagraphProperty>() == no_ppr();
    pub broadcast axiom fn d_frame() ensures #[trigger] dflt::<FrameProperty>() == no_frame();
    pub broadcast axiom fn d_spacing() ensures #[trigger] dflt::<LineSpacing>() == no_spacing();
    pub broadcast axiom fn d_tab() ensures #[trigger] dflt::<Tab>() == (Tab { val: None, leader: None, pos: None });
    pub broadcast axiom fn d_num() ensures #[trigger] dflt::<NumberingProperty>() == (NumberingProperty { id: None, level: None });
    pub broadcast axiom fn d_tabs() ensures (#[trigger] dflt::<Tabs>()).tabs@ == Seq::<Tab>::empty();
    pub broadcast axiom fn no_items<T>() ensures (#[trigger] vecv(Seq::<T>::empty()))@ == Seq::<T>::empty();
}
pub open spec fn no_ppr() -> ParagraphProperty { ParagraphProperty { run_property: no_rpr(), style: None, numbering_property: None, alignment: None, indent: None, line_spacing: None, keep_next: None, keep_lines: None, bidi: None, page_break_before: None, widow_control: None, outline_lvl: None, section_property: None, tabs: vecv(Seq::empty()), paragraph_property_change: None, borders: None, frame_property: None, text_alignment: None, adjust_right_ind: None, snap_to_grid: None, shading: None, div_id: None } }
pub open spec fn no_frame() -> FrameProperty { FrameProperty { h: None, h_rule: None, h_anchor: None, h_space: None, v_anchor: None, v_space: None, w: None, wrap: None, x: None, x_align: None, y: None, y_align: None } }
pub open spec fn no_spacing() -> LineSpacing { LineSpacing { line_rule: None, before: None, after: None, before_lines: None, after_lines: None, line: None } }
''')
for ty in ['ParagraphProperty', 'FrameProperty', 'LineSpacing', 'Tabs']:
    fn('%s::new r=out' % ty, 'out == dflt::<%s>()' % ty, *(['//@sub `Self::default()` => `vx_default()`'] if ty == 'LineSpacing' else []))
fn('NumberingId::new r=out', 'out.id == id')
fn('IndentLevel::new r=out', 'out.val == val')
a('''//@fn OutlineLvl::new r=out
//@| requires v < 10,
//@| ensures out.v == v,
//@sub `assert!(v < 10, "outline level should be less than 10");` => `assert(v < 10);`
//@end''')
fn('ParagraphProperty::outline_lvl r=out', 'out == (ParagraphProperty { outline_lvl: Some(OutlineLvl { v: if v >= 10 { 9 } else { v } }), ..self })')
fn('ParagraphStyle::new r=out', 'val matches Some(v) ==> out.val == escaped(v.chars())')
fn('ParagraphProperty::style r=out', 'out == (ParagraphProperty { style: Some(ParagraphStyle { val: escaped(style_id@) }), ..self })')
for ty in ['AlignmentType', 'TextAlignmentType', 'TabValueType', 'TabLeaderType']:
    fn('<%s as FromStr>::from_str ext' % ty, '(match (r, named::<%s>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false })' % ty)
a('pub open spec fn rule_of(s: Seq<char>) -> Option<LineSpacingType> { if s == "auto"@ { Some(LineSpacingType::Auto) } else if s == "atLeast"@ { Some(LineSpacingType::AtLeast) } else if s == "exact"@ { Some(LineSpacingType::Exact) } else { None } }')
fn('<LineSpacingType as FromStr>::from_str autostr', '(match (r, rule_of(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false })', '//@at start', '//@| proof { %s }' % rv(['auto', 'atLeast', 'exact']))
a('''/// A length: in points, or a number.
pub open spec fn points(s: Seq<char>) -> Option<i32> { match float_to::<i32>(without(s)) { Some(n) => Some(times(n, 20)), None => None } }
pub open spec fn dax(s: Seq<char>) -> Option<i32> { if ends(s, "pt"@) { points(s) } else { float_to::<i32>(s) } }
pub uninterp spec fn times(a: i32, b: i32) -> i32;
pub trait VxTimes { fn vx_times(self, o: i32) -> (r: i32); }
impl VxTimes for i32 { #[verifier::external_body] fn vx_times(self, o: i32) -> (r: i32) ensures r == times(self, o) { unimplemented!() } }
//@fn reader/attributes/val.rs::value_to_dax casts
//@| ensures (match (r, dax(v@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@sub `.saturating_mul(` => `.vx_times(`
//@end''')
IND = '(Option<i32>, Option<i32>, Option<SpecialIndentType>, Option<i32>, Option<i32>, Option<i32>)'
a('pub type Ind = %s;' % IND)
a('''#[verifier::opaque] pub open spec fn ind_step(p: Ind, n: Seq<char>, v: Seq<char>) -> Option<Ind> {
    if n == "left"@ || n == "start"@ { match dax(v) { Some(d) => Some((Some(d), p.1, p.2, p.3, p.4, p.5)), None => None } }
    else if n == "leftChars"@ || n == "startChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, Some(d), p.4, p.5)), None => None } }
    else if n == "end"@ || n == "right"@ { match dax(v) { Some(d) => Some((p.0, Some(d), p.2, p.3, p.4, p.5)), None => None } }
    else if n == "hanging"@ { match dax(v) { Some(d) => Some((p.0, p.1, Some(SpecialIndentType::Hanging(d)), p.3, p.4, p.5)), None => None } }
    else if n == "firstLine"@ { match dax(v) { Some(d) => Some((p.0, p.1, Some(SpecialIndentType::FirstLine(d)), p.3, p.4, p.5)), None => None } }
    else if n == "firstLineChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, p.3, p.4, Some(d))), None => Some(p) } }
    else if n == "hangingChars"@ { match float_to::<i32>(v) { Some(d) => Some((p.0, p.1, p.2, p.3, Some(d), p.5)), None => Some(p) } }
    else { Some(p) }
}
#[verifier::opaque] pub open spec fn spacing_step(p: LineSpacing, n: Seq<char>, v: Seq<char>) -> Option<LineSpacing> {
    if n == "before"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_before(p, d)), None => None } }
    else if n == "after"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_after(p, d)), None => None } }
    else if n == "line"@ { match float_to::<i32>(v) { Some(d) => Some(sp_LineSpacing_line(p, d)), None => None } }
    else if n == "lineRule"@ { match rule_of(v) { Some(d) => Some(sp_LineSpacing_line_rule(p, d)), None => None } }
    else if n == "beforeLines"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_before_lines(p, d)), None => None } }
    else if n == "afterLines"@ { match float_to::<u32>(v) { Some(d) => Some(sp_LineSpacing_after_lines(p, d)), None => None } }
    else { Some(p) }
}''')
fs = ['    match pk(n) {']
for f, n in FRAME_TEXT: fs.append('        Some(XMLElement::%s) => Some(sp_FrameProperty_%s(p, v)),' % (dict(KINDS)[n], f))
for f, n in FRAME_NUM:
    b = {'w': 'width', 'h': 'height'}.get(f, f)
    fs.append('        Some(XMLElement::%s) => match float_to::<%s>(v) { Some(d) => Some(sp_FrameProperty_%s(p, d)), None => Some(p) },' % (dict(KINDS + OLD)[n], 'u32' if f in 'wh' else 'i32', b))
fs += ['        Some(_) => Some(p),', '        None => None,', '    }']
a('#[verifier::opaque] pub open spec fn frame_step(p: FrameProperty, n: Seq<char>, v: Seq<char>) -> Option<FrameProperty> {\n%s\n}' % '\n'.join(fs))
for g, ty, zero in [('ind', 'Ind', '(None, None, None, None, None, None)'), ('spacing', 'LineSpacing', 'dflt::<LineSpacing>()'), ('frame', 'FrameProperty', 'dflt::<FrameProperty>()')]:
    a('''pub open spec fn %(g)s_of(a: Seq<At>) -> Option<%(ty)s> decreases a.len()
{ if a.len() == 0 { Some(%(z)s) } else { match %(g)s_of(a.drop_last()) { Some(p) => %(g)s_step(p, a.last().n, a.last().v), None => None } } }
proof fn lemma_%(g)s_none(a: Seq<At>, i: int)
    requires 0 <= i <= a.len()
    ensures %(g)s_of(a.take(i)) is None ==> %(g)s_of(a) is None
    decreases a.len()
{ if i == a.len() { assert(a.take(i) =~= a); } else { lemma_%(g)s_none(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } }
proof fn lemma_%(g)s_with(a: Seq<At>, n: Seq<char>, v: Option<Seq<char>>)
    ensures %(g)s_of(with(a, n, v)) == (match v { Some(v) => match %(g)s_of(a) { Some(p) => %(g)s_step(p, n, seen(v)), None => None }, None => %(g)s_of(a) })
{ if let Some(v) = v { assert(a.push(At { n, v: seen(v) }).drop_last() =~= a); } }''' % dict(g=g, ty=ty, z=zero))
def fold_hints(g, names, at='attrs'):
    return ['//@loopstart 0',
        '//@| proof { let s = av(%s@); lemma_%s_none(s, it.index@ + 1); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ }));' % (at, g),
        '//@|   reveal(%s_step); %s }' % (g, names),
        '//@afterloop 0', '//@| proof { assert(av(%s@).take(%s@.len() as int) =~= av(%s@)); }' % (at, at, at)]
INAMES = 'left start leftChars startChars end right hanging firstLine firstLineChars hangingChars'.split()
SNAMES = 'before after line lineRule beforeLines afterLines'.split()
fn('reader/attributes/indent.rs::read_indent casts', 'ind_of(av(attrs@)) matches Some(x) ==> r == Ok::<Ind, ReaderError>(x)',
   '//@at start', '//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }',
   '//@loop 0 iter=it', '//@| invariant ind_of(av(attrs@).take(it.index@ as int)) == Some((start, end, special, start_chars, hanging_chars, first_line_chars)),',
   *fold_hints('ind', rv(INAMES)))
fn('reader/attributes/line_spacing.rs::read_line_spacing autostr casts', 'spacing_of(av(attributes@)) matches Some(x) ==> r == Ok::<LineSpacing, ReaderError>(x)',
   '//@at start', '//@| proof { assert(av(attributes@).take(0) =~= Seq::<At>::empty()); }',
   '//@loop 0 iter=it', '//@| invariant spacing_of(av(attributes@).take(it.index@ as int)) == Some(spacing),',
   *fold_hints('spacing', rv(SNAMES), 'attributes'))
fn('<FrameProperty as ElementReader>::read r=out casts', 'frame_of(av(attrs@)) matches Some(x) ==> out == Ok::<FrameProperty, ReaderError>(x), final(_r).todo() == old(_r).todo()',
   '//@at start', '//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }',
   '//@loop 0 iter=it', '//@| invariant frame_of(av(attrs@).take(it.index@ as int)) matches Some(x) ==> x == fp, _r.todo() == old(_r).todo(),',
   *fold_hints('frame', ''))
a('''/// The first attribute with a name whose value means something.
pub open spec fn pick<T>(s: Seq<At>, n: Seq<char>, g: spec_fn(Seq<char>) -> Option<T>) -> Option<T> decreases s.len()
{ if s.len() == 0 { None } else if s[0].n == n && g(s[0].v) is Some { g(s[0].v) } else { pick(s.skip(1), n, g) } }
pub open spec fn as_val() -> spec_fn(Seq<char>) -> Option<TabValueType> { |v: Seq<char>| named::<TabValueType>(v) }
pub open spec fn as_leader() -> spec_fn(Seq<char>) -> Option<TabLeaderType> { |v: Seq<char>| named::<TabLeaderType>(v) }
pub open spec fn as_pos() -> spec_fn(Seq<char>) -> Option<f32> { |v: Seq<char>| parsed::<f32>(v) }''')
for f, n, g in [('type', 'val', 'as_val'), ('leader', 'leader', 'as_leader'), ('pos', 'pos', 'as_pos')]:
    fn('reader/tab.rs::read_custom_tab_stop_' + f, '(match (r, pick(av(attributes@), "%s"@, %s())) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false })' % (n, g),
       '//@at start', '//@| proof { assert(av(attributes@).skip(0) =~= av(attributes@)); }',
       '//@loop 0 iter=it', '//@| invariant pick(av(attributes@).skip(it.index@ as int), "%s"@, %s()) == pick(av(attributes@), "%s"@, %s()),' % (n, g, n, g),
       '//@loopstart 0', '//@| proof { let s = av(attributes@); let u = s.skip(it.index@ as int); assert(u[0] == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); assert(u.skip(1) =~= s.skip(it.index@ + 1)); }')
a('''pub open spec fn tab_of(a: Seq<At>) -> Tab { Tab { val: pick(a, "val"@, as_val()), leader: pick(a, "leader"@, as_leader()), pos: match pick(a, "pos"@, as_pos()) { Some(f) => Some(cast::<f32, usize>(f)), None => None } } }
//@fn <Tab as ElementReader>::read r=out casts
//@| ensures old(r).todo().len() > 0 && (old(r).todo()[0] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) ==> out == Ok::<Tab, ReaderError>(tab_of(av(attrs@))) && final(r).todo() == old(r).todo().skip(1),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_tab;
//@loop 0
//@| invariant tab == tab_of(av(attrs@)), old(r).todo().len() > 0 && (old(r).todo()[0] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) ==> r.todo() == old(r).todo(),
//@end
pub open spec fn tabs_run(s: Seq<Tab>, t: Seq<Tok>) -> Option<(Seq<Tab>, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => if pk(e.n) == Some(XMLElement::Tab) { if t.len() > 1 && (t[1] matches Tok::Close(n) && pk(n) == Some(XMLElement::Tab)) { tabs_run(s.push(tab_of(e.a)), t.skip(2)) } else { None } } else if pk(e.n) is Some { tabs_run(s, t.skip(1)) } else { None },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::Tabs { Some((s, t.skip(1))) } else { tabs_run(s, t.skip(1)) }, None => None },
        Tok::Chars(_) => tabs_run(s, t.skip(1)),
    } }
}
//@fn <Tabs as ElementReader>::read r=out
//@| ensures tabs_run(Seq::empty(), old(r).todo()) matches Some(x) ==> (out matches Ok(tb) && tb.tabs@ == x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_tabs;
//@loop 0
//@| invariant tabs_run(Seq::empty(), old(r).todo()) is Some ==> tabs_run(tabs.tabs@, r.todo()) == tabs_run(Seq::empty(), old(r).todo()),
//@loopstart 0
//@| proof { let t = r.todo(); if t.len() > 1 { assert(t.skip(1)[0] == t[1]); assert(t.skip(1).skip(1) =~= t.skip(2)); } }
//@end
pub open spec fn num_of(id: Option<usize>, level: Option<usize>) -> NumberingProperty { NumberingProperty { id: match id { Some(id) => Some(NumberingId { id }), None => None }, level: match level { Some(val) => Some(IndentLevel { val }), None => None } } }
pub open spec fn num_run(id: Option<usize>, level: Option<usize>, t: Seq<Tok>) -> Option<(NumberingProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match pk(e.n) {
            Some(XMLElement::IndentLevel) => match first(e.a, "val"@) { Some(v) => match parsed::<usize>(v) { Some(n) => num_run(id, Some(n), t.skip(1)), None => None }, None => num_run(id, level, t.skip(1)) },
            Some(XMLElement::NumberingId) => match first(e.a, "val"@) { Some(v) => match parsed::<usize>(v) { Some(n) => num_run(Some(n), level, t.skip(1)), None => None }, None => num_run(id, level, t.skip(1)) },
            Some(_) => num_run(id, level, t.skip(1)),
            None => None,
        },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::NumberingProperty { Some((num_of(id, level), t.skip(1))) } else { num_run(id, level, t.skip(1)) }, None => None },
        Tok::Chars(_) => num_run(id, level, t.skip(1)),
    } }
}
//@fn <NumberingProperty as ElementReader>::read r=out
//@| ensures num_run(None, None, old(r).todo()) matches Some(x) ==> out == Ok::<NumberingProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use more_nums::d_num;
//@loop 0
//@| invariant num_run(None, None, old(r).todo()) is Some ==> num_run(id, level, r.todo()) == num_run(None, None, old(r).todo()),
//@loopstart 0
//@| broadcast use more_nums::d_num;
//@end
/// What one child element without content does to the paragraph formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn pstep(p: ParagraphProperty, k: XMLElement, a: Seq<At>) -> Option<ParagraphProperty> {
    let v = first(a, "val"@);
    match k {
        XMLElement::RunProperty | XMLElement::NumberingProperty | XMLElement::Tabs | XMLElement::SectionProperty | XMLElement::ParagraphPropertyChange | XMLElement::ParagraphBorders => None,
        XMLElement::Indent => match ind_of(a) { Some(i) => if i.4 is None && i.5 is None { Some(sp_ParagraphProperty_indent(p, i.0, i.2, i.1, i.3)) } else { None }, None => None },
        XMLElement::Spacing => match spacing_of(a) { Some(l) => Some(sp_ParagraphProperty_line_spacing(p, l)), None => None },
        XMLElement::Justification => match v { Some(v) => match named::<AlignmentType>(v) { Some(t) => Some(sp_ParagraphProperty_align(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::TextAlignment => match v { Some(v) => match named::<TextAlignmentType>(v) { Some(t) => Some(sp_ParagraphProperty_text_alignment(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::AdjustRightInd => match v { Some(v) => match parsed::<isize>(v) { Some(t) => Some(sp_ParagraphProperty_adjust_right_ind(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::ParagraphStyle => match v { Some(v) => Some(ParagraphProperty { style: Some(ParagraphStyle { val: escaped(v) }), ..p }), None => Some(p) },
        XMLElement::DivId => match v { Some(v) => Some(ParagraphProperty { div_id: Some(strv(v)), ..p }), None => Some(p) },
        XMLElement::OutlineLvl => match v { Some(v) => match parsed::<usize>(v) { Some(n) => Some(ParagraphProperty { outline_lvl: Some(OutlineLvl { v: if n >= 10 { 9 } else { n } }), ..p }), None => Some(p) }, None => Some(p) },
        XMLElement::SnapToGrid => Some(ParagraphProperty { snap_to_grid: Some(on(a)), ..p }),
        XMLElement::KeepNext => Some(ParagraphProperty { keep_next: if on(a) { Some(true) } else { p.keep_next }, ..p }),
        XMLElement::KeepLines => Some(ParagraphProperty { keep_lines: if on(a) { Some(true) } else { p.keep_lines }, ..p }),
        XMLElement::PageBreakBefore => Some(ParagraphProperty { page_break_before: if on(a) { Some(true) } else { p.page_break_before }, ..p }),
        XMLElement::WidowControl => Some(ParagraphProperty { widow_control: if on(a) { Some(true) } else { p.widow_control }, ..p }),
        XMLElement::FrameProperty => match frame_of(a) { Some(f) => Some(ParagraphProperty { frame_property: Some(f), ..p }), None => None },
        XMLElement::Shading => Some(ParagraphProperty { shading: Some(shd_of(a)), ..p }),
        _ => Some(p),
    }
}
/// Paragraph formatting read from tokens, and the tokens after it.
pub open spec fn prun(p: ParagraphProperty, t: Seq<Tok>) -> Option<(ParagraphProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match pk(e.n) {
            Some(XMLElement::RunProperty) => match run(dflt::<RunProperty>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(ParagraphProperty { run_property: x.0, ..p }, x.1) } else { None }, None => None },
            Some(XMLElement::NumberingProperty) => match num_run(None, None, t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(sp_ParagraphProperty_numbering_property(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::Tabs) => match tabs_run(Seq::empty(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { prun(ParagraphProperty { tabs: vecv(p.tabs@ + x.0), ..p }, x.1) } else { None }, None => None },
            Some(k) => match pstep(p, k, e.a) { Some(q) => prun(q, t.skip(1)), None => None },
            None => None,
        },
        Tok::Close(n) => match pk(n) { Some(k) => if k == XMLElement::ParagraphProperty { Some((p, t.skip(1))) } else { prun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => prun(p, t.skip(1)),
    } }
}
//@fn <SectionProperty as ElementReader>::read ext r=out
//@end
//@fn <ParagraphPropertyChange as ElementReader>::read ext r=out
//@end
//@fn <ParagraphBorders as ElementReader>::read ext r=out
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@end
//@fn <ParagraphProperty as ElementReader>::read r=out
//@| ensures prun(dflt::<ParagraphProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<ParagraphProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant prun(dflt::<ParagraphProperty>(), old(r).todo()) is Some ==> prun(p, r.todo()) == prun(dflt::<ParagraphProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(pstep); }
//@before `for t in tabs.tabs`
//@| let ghost p0 = p; let ghost ts = tabs.tabs@; proof { assert(p0.tabs@ + ts.take(0) =~= p0.tabs@); }
//@loop 1 iter=it
//@| invariant it.seq() == ts, p == (ParagraphProperty { tabs: p.tabs, ..p0 }), p.tabs@ == p0.tabs@ + ts.take(it.index@ as int),
//@loopend 1
//@| proof { assert((p0.tabs@ + ts.take(it.index@ as int)).push(ts[it.index@ as int]) =~= p0.tabs@ + ts.take(it.index@ + 1)); }
//@afterloop 1
//@| proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end''')
open(here + '/units/rp_read.rs', 'w').write('\n'.join(o) + '\n')

# ---------------------------------------------------------------- reading what was written
a('''
// Reading what was written.
proof fn n_leaf(p: ParagraphProperty, q: ParagraphProperty, e: El, k: XMLElement, t: Seq<Tok>)
    requires pk(e.n) == Some(k), pstep(p, k, e.a) == Some(q), k != XMLElement::ParagraphProperty
    ensures prun(p, leaf(e) + t) == prun(q, t)
{
    reveal(pstep);
    let u = leaf(e) + t;
    assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);
    reveal_with_fuel(prun, 3);
}
proof fn n_opt(p: ParagraphProperty, q: ParagraphProperty, o: Option<El>, k: XMLElement, t: Seq<Tok>)
    requires o matches Some(e) ==> pk(e.n) == Some(k) && pstep(p, k, e.a) == Some(q), k != XMLElement::ParagraphProperty, o is None ==> p == q
    ensures prun(p, ol(o) + t) == prun(q, t)
{ reveal(ol); if let Some(e) = o { n_leaf(p, q, e, k, t); } else { assert(ol(o) + t =~= t); } }
/// Formatting that builder calls produce from text without stray markup.
pub open spec fn settled_p(x: ParagraphProperty) -> bool {
    &&& simple_p(x) && settled(x.run_property) && x.bidi is None && x.div_id is None
    &&& (x.style matches Some(s) ==> kept_e(s.val))
    &&& (x.frame_property matches Some(f) ==> kept_o(f.wrap) && kept_o(f.h_rule) && kept_o(f.h_anchor) && kept_o(f.v_anchor) && kept_o(f.x_align) && kept_o(f.y_align))
    &&& (x.alignment matches Some(j) ==> exists |t: AlignmentType| j.val == #[trigger] shown_of(&t))
    &&& (x.indent matches Some(i) ==> i.start is Some && i.end is Some && i.hanging_chars is None && i.first_line_chars is None)
    &&& (x.outline_lvl matches Some(l) ==> l.v < 10)
    &&& (x.shading matches Some(s) ==> kept(s.color) && kept(s.fill))
    &&& x.keep_next != Some(false) && x.keep_lines != Some(false) && x.page_break_before != Some(false) && x.widow_control != Some(false)
    &&& (forall |i: int| 0 <= i < x.tabs@.len() ==> ((#[trigger] x.tabs@[i]).pos matches Some(n) ==> n <= 0x100_0000))
}''')
def lem(n, field, k, body, hyp=''):
    a('proof fn n_%s(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)\n    requires settled_p(x), p.%s is None%s\n    ensures prun(p, ol(po_%s(x)) + t) == prun(ParagraphProperty { %s: x.%s, ..p }, t)' % (n, field, hyp, n, field, field))
    a('{\n    reveal(po_%s); reveal(pstep); kinds_p(); let q = ParagraphProperty { %s: x.%s, ..p };' % (n, field, field))
    a('    ' + body)
    a('    n_opt(p, q, po_%s(x), XMLElement::%s, t);\n}' % (n, k))
lem('style', 'style', 'ParagraphStyle', 'if let Some(v) = x.style { lemma_val(v.val@); }')
lem('alignment', 'alignment', 'Justification', 'broadcast use more_nums::align; if let Some(v) = x.alignment { lemma_val(v.val@); let u = choose |u: AlignmentType| v.val == #[trigger] shown_of(&u); assert(named::<AlignmentType>(shown_of(&u)@) == Some(u)); }')
lem('outline', 'outline_lvl', 'OutlineLvl', 'broadcast use nums::usize_back; if let Some(v) = x.outline_lvl { lemma_val(shown(v.v)@); }')
lem('text_alignment', 'text_alignment', 'TextAlignment', 'broadcast use more_nums::text_align; if let Some(v) = x.text_alignment { lemma_val(shown(v.0)@); }')
lem('adjust', 'adjust_right_ind', 'AdjustRightInd', 'broadcast use more_nums::isize_back; if let Some(v) = x.adjust_right_ind { lemma_val(shown(v.0)@); }')
lem('snap', 'snap_to_grid', 'SnapToGrid', 'if let Some(v) = x.snap_to_grid { lemma_on("snapToGrid"@, v); }')
for n, f, k, m in [('keep_next', 'keep_next', 'KeepNext', 'keepNext'), ('keep_lines', 'keep_lines', 'KeepLines', 'keepLines'), ('page_break', 'page_break_before', 'PageBreakBefore', 'pageBreakBefore')]:
    lem(n, f, k, 'lemma_on("%s"@, true); if let Some(b) = x.%s { assert(b); }' % (m, f))
lem('widow', 'widow_control', 'WidowControl', 'broadcast use codec::differ; more_nums::words(); lemma_val("1"@); reveal_strlit("1"); reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("off");')
lem('shading', 'shading', 'Shading', '''broadcast use codec::shd; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill");
    if let Some(s) = x.shading {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(s.shd_type)@); let a2 = ats(a1, "color"@, s.color@); let a3 = ats(a2, "fill"@, s.fill@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2);
        reveal_with_fuel(shd_of, 5);
        assert(shd_of(a3) == s);
    }''')
ib = ['broadcast use nums::i32_back, more_nums::no_unit; %s reveal(ind_step);' % rv(INAMES), '    if let Some(i) = x.indent {',
  '        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "left"@, shown(i.start->0)@); let a2 = ats(a1, "right"@, shown(i.end->0)@); let a3 = with(a2, "leftChars"@, num(i.start_chars));',
  '        lemma_ind_with(a0, "left"@, Some(shown(i.start->0)@)); lemma_ind_with(a1, "right"@, Some(shown(i.end->0)@)); lemma_ind_with(a2, "leftChars"@, num(i.start_chars));',
  '        let n: Option<i32> = None; let z: Ind = (n, n, None, n, n, n); assert(ind_of(a0) == Some(z));',
  '        let i1: Ind = (i.start, n, None, n, n, n); assert(ind_of(a1) == Some(i1)); let i2: Ind = (i.start, i.end, None, n, n, n); assert(ind_of(a2) == Some(i2)); let i3: Ind = (i.start, i.end, None, i.start_chars, n, n); assert(ind_of(a3) == Some(i3));',
  '        match i.special_indent { Some(SpecialIndentType::FirstLine(v)) => { lemma_ind_with(a3, "firstLine"@, Some(shown(v)@)); } Some(SpecialIndentType::Hanging(v)) => { lemma_ind_with(a3, "hanging"@, Some(shown(v)@)); } None => {} }',
  '        let i4: Ind = (i.start, i.end, i.special_indent, i.start_chars, n, n); assert(ind_of(el_ind(i).a) == Some(i4));',
  '    }']
lem('indent', 'indent', 'Indent', '\n'.join(ib))
sb = ['broadcast use nums::u32_back, nums::i32_back, more_nums::d_spacing; %s reveal(spacing_step); more_nums::words(); %s' % (rv(SNAMES), rv(['auto', 'atLeast', 'exact'])), '    if let Some(l) = x.line_spacing {', '        let a0 = Seq::<At>::empty(); let p0 = no_spacing();']
for i, (f, n) in enumerate(SPACING): sb.append('        let a%d = with(a%d, "%s"@, num(l.%s)); lemma_spacing_with(a%d, "%s"@, num(l.%s)); let p%d = LineSpacing { %s: l.%s, ..p%d }; assert(spacing_of(a%d) == Some(p%d));' % (i+1, i, n, f, i, n, f, i+1, f, f, i, i+1, i+1))
sb += ['        lemma_spacing_with(a%d, "lineRule"@, rule_txt(l.line_rule)); assert(spacing_of(el_spacing(l).a) == Some(l));' % len(SPACING), '    }']
lem('spacing', 'line_spacing', 'Spacing', '\n'.join(sb))
fb = ['broadcast use nums::u32_back, nums::i32_back, more_nums::d_frame; reveal(frame_step);', '    if let Some(f) = x.frame_property {', '        let a0 = Seq::<At>::empty(); let p0 = no_frame();']
for i, (f, n) in enumerate(FRAME_TEXT + FRAME_NUM):
    v = '%s(f.%s)' % ('txt' if i < len(FRAME_TEXT) else 'num', f)
    fb.append('        let a%d = with(a%d, "%s"@, %s); lemma_frame_with(a%d, "%s"@, %s); let p%d = FrameProperty { %s: f.%s, ..p%d }; assert(frame_of(a%d) == Some(p%d));' % (i+1, i, n, v, i, n, v, i+1, f, f, i, i+1, i+1))
fb += ['        assert(frame_of(el_frame(f).a) == Some(f));', '    }']
lem('frame', 'frame_property', 'FrameProperty', '\n'.join(fb))
a('''proof fn n_run(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x)
    ensures prun(p, w_run(x) + t) == prun(ParagraphProperty { run_property: x.run_property, ..p }, t)
{
    reveal(w_run); kinds_p(); kinds(); broadcast use dfl::d_rpr;
    let c = seq![Tok::Close("rPr"@)]; let s = rpr_els(x.run_property);
    lemma_back(x.run_property); lemma_run(no_rpr(), s, c + t);
    assert((c + t)[0] == Tok::Close("rPr"@)); assert((c + t).skip(1) =~= t);
    let u = w_run(x) + t;
    assert(u[0] == Tok::Open(El { n: "rPr"@, a: Seq::empty() })); assert(u.skip(1) =~= flat(s) + (c + t));
    assert(run(dflt::<RunProperty>(), u.skip(1)) == Some((x.run_property, t)));
}
proof fn n_num_leaf(id: Option<usize>, level: Option<usize>, e: El, n: usize, t: Seq<Tok>)
    requires e.a == val(shown(n)@)
    ensures e.n == "numId"@ ==> num_run(id, level, leaf(e) + t) == num_run(Some(n), level, t), e.n == "ilvl"@ ==> num_run(id, level, leaf(e) + t) == num_run(id, Some(n), t)
{
    kinds_p(); broadcast use nums::usize_back; lemma_val(shown(n)@); assert(seen(shown_of(&n)@) == shown_of(&n)@);
    let u = leaf(e) + t;
    assert(u[0] == Tok::Open(e)); assert(u.skip(1)[0] == Tok::Close(e.n)); assert(u.skip(1).skip(1) =~= t);
    reveal_with_fuel(num_run, 3);
}
proof fn n_numbering(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.numbering_property is None
    ensures prun(p, w_numbering(x) + t) == prun(ParagraphProperty { numbering_property: x.numbering_property, ..p }, t)
{
    reveal(w_numbering); reveal(ol); kinds_p();
    if let Some(v) = x.numbering_property {
        let c = seq![Tok::Close("numPr"@)]; let ct = c + t; let n: Option<usize> = None;
        let l = match v.level { Some(l) => Some(l.val), None => None }; let i = match v.id { Some(i) => Some(i.id), None => None };
        let lt = ol(o_level(v)) + ct;
        assert(ct[0] == Tok::Close("numPr"@)); assert(ct.skip(1) =~= t);
        if let Some(e) = o_level(v) { n_num_leaf(i, n, e, v.level->0.val, ct); } else { assert(lt =~= ct); }
        if let Some(e) = o_num_id(v) { n_num_leaf(n, n, e, v.id->0.id, lt); } else { assert(ol(o_num_id(v)) + lt =~= lt); }
        assert(num_of(i, l) == v);
        let u = w_numbering(x) + t;
        assert(u[0] == Tok::Open(El { n: "numPr"@, a: Seq::empty() })); assert(u.skip(1) =~= ol(o_num_id(v)) + lt);
        assert(num_run(n, n, u.skip(1)) == Some((v, t)));
        assert(sp_ParagraphProperty_numbering_property(p, v) == (ParagraphProperty { numbering_property: x.numbering_property, ..p }));
    } else { assert(w_numbering(x) + t =~= t); }
}
proof fn lemma_pick_with<T>(s: Seq<At>, m: Seq<char>, v: Option<Seq<char>>, n: Seq<char>, g: spec_fn(Seq<char>) -> Option<T>)
    ensures pick(with(s, m, v), n, g) == (match pick(s, n, g) { Some(y) => Some(y), None => match v { Some(v) => if m == n { g(seen(v)) } else { None }, None => None } })
    decreases s.len()
{
    if let Some(w) = v {
        let z = At { n: m, v: seen(w) };
        if s.len() == 0 { assert(s.push(z).skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(pick, 3); }
        else { assert(s.push(z).skip(1) =~= s.skip(1).push(z)); lemma_pick_with(s.skip(1), m, v, n, g); }
    }
}
proof fn lemma_tab(b: Tab)
    requires b.pos matches Some(n) ==> n <= 0x100_0000
    ensures tab_of(el_tab(b).a) == b
{
    broadcast use more_nums::usize_back_f32, more_nums::tab_val, more_nums::tab_leader; reveal_strlit("val"); reveal_strlit("leader"); reveal_strlit("pos");
    let a0 = Seq::<At>::empty(); let a1 = with(a0, "val"@, num(b.val)); let a2 = with(a1, "leader"@, num(b.leader)); let a3 = with(a2, "pos"@, num(b.pos));
    assert("val"@.len() == 3 && "leader"@.len() == 6 && "pos"@.len() == 3 && "val"@[0] != "pos"@[0]);
    lemma_pick_with(a0, "val"@, num(b.val), "val"@, as_val()); lemma_pick_with(a1, "leader"@, num(b.leader), "val"@, as_val()); lemma_pick_with(a2, "pos"@, num(b.pos), "val"@, as_val());
    lemma_pick_with(a0, "val"@, num(b.val), "leader"@, as_leader()); lemma_pick_with(a1, "leader"@, num(b.leader), "leader"@, as_leader()); lemma_pick_with(a2, "pos"@, num(b.pos), "leader"@, as_leader());
    lemma_pick_with(a0, "val"@, num(b.val), "pos"@, as_pos()); lemma_pick_with(a1, "leader"@, num(b.leader), "pos"@, as_pos()); lemma_pick_with(a2, "pos"@, num(b.pos), "pos"@, as_pos());
}
proof fn lemma_tabs(s: Seq<Tab>, b: Seq<Tab>, t: Seq<Tok>)
    requires forall |i: int| 0 <= i < b.len() ==> ((#[trigger] b[i]).pos matches Some(n) ==> n <= 0x100_0000)
    ensures tabs_run(s, flat(each(b, tab_el())) + t) == tabs_run(s + b, t)
    decreases b.len()
{
    let m = each(b, tab_el());
    if b.len() == 0 { assert(flat(m) + t =~= t); assert(s + b =~= s); } else {
        kinds_p(); lemma_tab(b[0]);
        assert(m.skip(1) =~= each(b.skip(1), tab_el())); assert(m[0] == el_tab(b[0]));
        lemma_tabs(s.push(b[0]), b.skip(1), t);
        assert(s.push(b[0]) + b.skip(1) =~= s + b);
        let u = flat(m) + t;
        assert(u[0] == Tok::Open(m[0])); assert(u[1] == Tok::Close(m[0].n)); assert(u.skip(2) =~= flat(m.skip(1)) + t);
        assert(tabs_run(s, u) == tabs_run(s.push(b[0]), u.skip(2)));
    }
}
proof fn n_tabs(x: ParagraphProperty, p: ParagraphProperty, t: Seq<Tok>)
    requires settled_p(x), p.tabs == vecv(Seq::<Tab>::empty())
    ensures prun(p, w_tabs(x) + t) == prun(ParagraphProperty { tabs: x.tabs, ..p }, t)
{
    reveal(w_tabs); kinds_p(); broadcast use more_nums::no_items;
    if x.tabs@.len() > 0 {
        let c = seq![Tok::Close("tabs"@)]; let m = each(x.tabs@, tab_el());
        lemma_tabs(Seq::empty(), x.tabs@, c + t);
        assert(Seq::<Tab>::empty() + x.tabs@ =~= x.tabs@); assert(p.tabs@ + x.tabs@ =~= x.tabs@);
        assert((c + t)[0] == Tok::Close("tabs"@)); assert((c + t).skip(1) =~= t);
        let u = w_tabs(x) + t;
        assert(u[0] == Tok::Open(El { n: "tabs"@, a: Seq::empty() })); assert(u.skip(1) =~= flat(m) + (c + t));
        assert(tabs_run(Seq::empty(), u.skip(1)) == Some((x.tabs@, t)));
    } else { assert(w_tabs(x) + t =~= t); assert(x.tabs@ =~= Seq::<Tab>::empty()); }
}''')
N = len(PIECES)
a('proof fn lemma_body(x: ParagraphProperty, c: Seq<Tok>, t: Seq<Tok>) ensures ppr_body(x, c) + t == ppr_body(x, c + t)\n{')
a('    let t%d = c + t; let c%d = c;' % (N, N))
for i, (n, f, _) in reversed(list(enumerate(PIECES))): a('    let t%d = %s + t%d; let c%d = %s + c%d; lemma_cat(%s, c%d, t);' % (i, toks(n), i + 1, i, toks(n), i + 1, toks(n), i + 1))
a('}')
a('proof fn lemma_pback(x: ParagraphProperty, t: Seq<Tok>)\n    requires settled_p(x)\n    ensures prun(no_ppr(), ppr_body(x, t)) == prun(x, t)\n{\n    hide(prun); hide(settled_p);')
a('    let t%d = t;' % N)
for i, (n, f, _) in reversed(list(enumerate(PIECES))): a('    let t%d = %s + t%d;' % (i, toks(n), i + 1))
a('    let q0 = no_ppr();')
for i, (n, f, _) in enumerate(PIECES): a('    let q%d = ParagraphProperty { %s: x.%s, ..q%d }; n_%s(x, q%d, t%d); assert(prun(q%d, t%d) == prun(q%d, t%d));' % (i + 1, f, f, i, n, i, i + 1, i, i, i + 1, i + 1))
a('    assert(q%d == x) by { reveal(settled_p); }\n}' % N)
a("""/// Paragraph formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_paragraph_formatting(x: ParagraphProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled_p(x)
    ensures ppr_onto(x, log).subrange(0, log.len() as int) == log, ppr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "pPr"@, a: Seq::empty() }),
        prun(dflt::<ParagraphProperty>(), ppr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    hide(ppr_body);
    broadcast use more_nums::d_ppr; kinds_p();
    let c = seq![Tok::Close("pPr"@)]; let b = ppr_body(x, c);
    lemma_body(x, c, t); lemma_pback(x, c + t);
    assert((c + t)[0] == Tok::Close("pPr"@)); assert((c + t).skip(1) =~= t);
    let w = ppr_onto(x, log);
    assert(w.subrange(0, log.len() as int) =~= log);
    assert(w.skip(log.len() as int + 1) =~= b);
}""")
open(here + '/units/rp_read.rs', 'w').write('\n'.join(o) + '\n')
