"""Writes the units about the content of headers, footers and table cells (hf_spec, hf_write, hf_read)."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
dr, dw, tw, cw = rd('dc_read.rs'), rd('dc_write.rs'), rd('tc_write.rs'), rd('cu_write.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
NEST = [('Paragraph', 'p', 'add_paragraph', 'p'), ('Table', 'tbl', 'add_table', 't'), ('StructuredDataTag', 'sdt', 'add_structured_data_tag', 't')]
T = [('Header', 'HeaderChild', 'hdr', 'open_header', []), ('Footer', 'FooterChild', 'ftr', 'open_footer', []), ('TableCell', 'TableCellContent', 'tc', 'open_table_cell', ['TableOfContents'])]
NAMES = ['w:hdr', 'w:ftr', 'w:tc']
TY = [n[0] for n in NEST] + ['TableOfContents', 'TableCellProperty']
def spec(t, C, n, o, more):
    k = f'pub open spec fn kid_{t}(c: {C}, log: Seq<Tok>) -> Seq<Tok> {{ match c {{ ' + ' '.join(f'{C}::{x}(b) => log + nest_toks(*b),' for x in [y[0] for y in NEST] + more) + ' } }\n'
    k += f'pub open spec fn kids_{t}(c: Seq<{C}>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() {{ if c.len() == 0 {{ log }} else {{ kids_{t}(c.skip(1), kid_{t}(c[0], log)) }} }}\n'
    if t == 'TableCell':
        k += '''/// A cell that would hold nothing, or only a table, is given an empty paragraph as well.
pub open spec fn pads(c: Seq<TableCellContent>) -> bool { c.len() == 0 || (c.len() == 1 && c[0] is Table) }
pub open spec fn onto_TableCell(x: TableCell, log: Seq<Tok>) -> Seq<Tok> { kids_TableCell(x.children@, log.push(Tok::Open(El { n: "tc"@, a: Seq::empty() })) + nest_toks(x.property)).push(Tok::Close("tc"@)) }
'''
    else:
        k += f'pub open spec fn onto_{t}(x: {t}, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> {{ kids_{t}(x.children@, log.push(Tok::Open(El {{ n: "{n}"@, a }}))).push(Tok::Close("{n}"@)) }}\n'
    return k
wr('hf_spec.rs', '''// What headers, footers and table cells look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
''' + ''.join(spec(*x) for x in T) + '''/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
''' + ''.join(f'//@item {t}\n//@item {C}\n' for t, C, _, _, _ in T))
def body(t, C, n, o, more):
    s = f'''pub open spec fn g_{t}() -> spec_fn({C}, Seq<Tok>) -> Seq<Tok> {{ |c: {C}, l: Seq<Tok>| kid_{t}(c, l) }}
proof fn lemma_{t}(c: Seq<{C}>, log: Seq<Tok>) ensures fold(c, log, g_{t}()) == kids_{t}(c, log) decreases c.len()
{{ if c.len() > 0 {{ lemma_{t}(c.skip(1), kid_{t}(c[0], log)); }} }}
'''
    if t == 'TableCell':
        op = 'stream.log().push(Tok::Open(El { n: "tc"@, a: Seq::empty() })) + nest_toks(self.property)'
        return s + f'''//@fn XMLBuilder::open_table_cell
//@| ensures opened(self, r, El {{ n: "tc"@, a: Seq::empty() }}),
//@at start
//@| proof {{ names(); }}
//@end
//@fn Paragraph::new ext
//@end
//@fn <TableCell as BuildXML>::build_to name=build_to_body
//@| ensures !pads(self.children@) ==> (r matches Ok(w) ==> w.log() == onto_TableCell(*self, stream.log()) && w.open() == stream.open()),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures !pads(self.children@) && self.children@.contains(*ch) ==> does(*ch, b, o, g_TableCell())
//@at start
//@| proof {{ names(); assert(stream.open().push("tc"@).drop_last() =~= stream.open()); lemma_TableCell(self.children@, {op}); }}
//@end
'''
    op = f'stream.log().push(Tok::Open(El {{ n: "{n}"@, a }}))'
    return s + f'''//@fn XMLBuilder::{o}
//@| ensures r matches Ok(w) ==> exists |a: Seq<At>| w.log() == #[trigger] self.log().push(Tok::Open(El {{ n: "{n}"@, a }})) && w.open() == self.open().push("{n}"@),
//@at start
//@| proof {{ names(); }}
//@end
//@fn <{t} as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |a: Seq<At>| w.log() == #[trigger] onto_{t}(*self, stream.log(), a)) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures does(*c, b, o, g_{t}())
//@at start
//@| proof {{ names(); assert(stream.open().push("{n}"@).drop_last() =~= stream.open());
//@|   assert forall |a: Seq<At>| #![trigger {op}] onto_{t}(*self, stream.log(), a).len() >= 0 && fold(self.children@, {op}, g_{t}()) == kids_{t}(self.children@, {op}) by {{ lemma_{t}(self.children@, {op}); }} }}
//@end
'''
each = cut(tw, 'pub open spec fn fold<T>', '//@fn <InsertChild as')
each = each.replace('#[trigger] f.ensures((&t, b), o) ==> does', '#[trigger] f.ensures((&t, b), o) && items@.contains(t) ==> does').replace('assert(s[0] == items0[it.index@ as int]);', 'assert(s[0] == items0[it.index@ as int]); assert(items@.contains(s[0]));').replace('//@| invariant forall |t: T, b: Self|', '//@| invariant items0 == items@, forall |t: T, b: Self|')
IF = cut(rd('rs_write.rs'), 'pub trait ToOptBool', '//@fn XMLBuilder::apply\n') + '''//@fn XMLBuilder::apply_if
//@| requires f.requires((self,)),
//@| ensures clause.ob() == Some(true) ==> f.ensures((self,), r), clause.ob() != Some(true) ==> r == Ok::<XMLBuilder<W>, Error>(self),
//@sub `impl Into<Option<bool>>` => `impl ToOptBool`
//@sub `clause.into() == Some(true)` => `is_some_true(clause.to_opt_bool())`
//@end
'''
wr('hf_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include hf_spec.rs
//@include wr_head.rs
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in TY) + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + '''// Here: the declaration is no token.
//@fn XMLBuilder::declaration ext
//@| ensures r matches Ok(w) ==> w.log() == self.log() && w.open() == self.open(),
//@end
// TRUSTED here: what has its own content is written after what is there already (paragraphs: unit pc_write, cell formatting: unit rt_write).
''' + ''.join(f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
''' for t in TY) + cut(tw, 'impl<T: BuildXML> BuildXML for Box<T>', 'pub open spec fn all_onto') + each + IF + ''.join(body(*x) for x in T) + '''//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'hdr': 'Unsupported', 'ftr': 'Unsupported', 'tc': 'TableCell', 'tcPr': 'TableCellProperty', 'p': 'Paragraph', 'tbl': 'Table', 'sdt': 'StructuredDataTag'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
head = cut(dr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('dc_spec', 'hf_spec')
def reader(t, C, n, o, more):
    cell = t == 'TableCell'
    P = 'TableCellProperty' if cell else '()'
    v = {'Header': 'header', 'Footer': 'footer', 'TableCell': 'cell'}[t]
    pf = 'x.property' if cell else '()'
    s = f'''// ---- {t}
pub open spec fn v_{t}(x: {t}) -> Cn<{C}, {P}> {{ Cn {{ c: x.children@, n: x.has_numbering, p: {pf} }} }}
pub open spec fn counts_{t}(c: {C}) -> bool {{ match c {{ ''' + ' '.join(f'{C}::{x[0]}(b) => {"false" if cell and x[0] == "StructuredDataTag" else "b.has_numbering"},' for x in NEST) + (' _ => false' if cell else '') + f''' }} }}
pub open spec fn add_{t}(x: Cn<{C}, {P}>, c: {C}) -> Cn<{C}, {P}> {{ Cn {{ c: x.c.push(c), n: x.n || counts_{t}(c), ..x }} }}
''' + ('''//@fn <TableCell as Default>::default r=out
//@| ensures out.children@ == Seq::<TableCellContent>::empty(), !out.has_numbering,
//@end
''' if cell else f'''// TRUSTED: what deriving a default gives.
impl {t} {{ #[verifier::external_body] pub fn default() -> (r: Self) ensures r.children@ == Seq::<{C}>::empty(), !r.has_numbering {{ unimplemented!() }} }}
''') + (f'''//@fn TableCell::new
//@| ensures r.children@ == Seq::<{C}>::empty(), !r.has_numbering,
//@sub `Default::default()` => `TableCell::default()`
//@end
''' if cell else '') + ''.join(f'''//@fn {t}::{f}
//@| ensures v_{t}(r) == add_{t}(v_{t}(self), {C}::{x}(Box::new({a}))),
//@end
''' for x, _, f, a in NEST)
    last = f'Tok::Close(m) => if m == "tc"@ {{ Some((x, t.skip(1))) }} else {{ None }}' if cell else f'Tok::Close(m) => rd_{t}(t.skip(1), x)'
    R = f'(Cn<{C}, {P}>, Seq<Tok>)' if cell else f'Cn<{C}, {P}>'
    s += f'''pub open spec fn rd_{t}(t: Seq<Tok>, x: Cn<{C}, {P}>) -> Option<{R}> decreases t.len()
{{
    if t.len() == 0 {{ {"None" if cell else "Some(x)"} }} else {{ match t[0] {{
        Tok::Open(e) => ''' + (f'if e.n == "tcPr"@ {{ match nest_val::<TableCellProperty>(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd_{t}(y.1, Cn {{ p: y.0, ..x }}) }} else {{ None }}, None => None }} }}' if cell else f'if e.n == "{n}"@ {{ rd_{t}(t.skip(1), x) }}') + ''.join(f'''
            else if e.n == "{m}"@ {{ match nest_val::<{y}>(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd_{t}(y.1, add_{t}(x, {C}::{y}(Box::new(y.0)))) }} else {{ None }}, None => None }} }}''' for y, m, _, _ in NEST) + f''' else {{ None }},
        {last},
        Tok::Chars(_) => None,
    }} }}
}}
pub open spec fn starts_{t}(x: Cn<{C}, {P}>) -> bool {{ x.c == Seq::<{C}>::empty() && !x.n }}
'''
    if cell:
        s += f'''//@fn <TableCell as ElementReader>::read r=out
//@| ensures exists |x: Cn<{C}, {P}>| starts_{t}(x) && (#[trigger] rd_{t}(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && v_{t}(z) == y.0) && final(r).todo() == y.1),
//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {{`
//@| let ghost vx_x = v_{t}({v}); let ghost vx_g = rd_{t}(r.todo(), v_{t}({v})); assert(starts_{t}(vx_x));
//@loop 0
//@| invariant vx_g == rd_{t}(old(r).todo(), vx_x), starts_{t}(vx_x), vx_g is Some ==> rd_{t}(r.todo(), v_{t}({v})) == vx_g,
//@loopstart 0
//@| proof {{ cks(); lits(); reveal_with_fuel(rd_{t}, 2); }}
//@end
'''
    else:
        s += f'''//@fn <{t} as FromXML>::from_xml r=out
//@| ensures exists |x: Cn<{C}, {P}>| starts_{t}(x) && (#[trigger] rd_{t}(reader.part(), x) matches Some(y) ==> (out matches Ok(z) && v_{t}(z) == y)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {{`
//@| let ghost vx_x = v_{t}({v}); let ghost vx_g = rd_{t}(parser.todo(), v_{t}({v})); assert(starts_{t}(vx_x));
//@loop 0
//@| invariant_except_break vx_g is Some ==> rd_{t}(parser.todo(), v_{t}({v})) == vx_g,
//@| invariant vx_g == rd_{t}(reader.part(), vx_x), starts_{t}(vx_x),
//@| ensures vx_g is Some ==> vx_g == Some(v_{t}({v})),
//@loopstart 0
//@| proof {{ cks(); lits(); reveal_with_fuel(rd_{t}, 2); }}
//@end
'''
    s += f'''pub open spec fn settled_{t}(c: {C}) -> bool {{ match c {{ ''' + ' '.join(f'{C}::{y}(b) => lasting(*b, "{m}"@),' for y, m, _, _ in NEST) + (' _ => false' if more else '') + f''' }} }}
pub open spec fn any_{t}(c: Seq<{C}>) -> bool {{ exists |i: int| 0 <= i < c.len() && counts_{t}(#[trigger] c[i]) }}
pub open spec fn toks_{t}(c: Seq<{C}>) -> Seq<Tok> decreases c.len() {{ if c.len() == 0 {{ Seq::empty() }} else {{ kid_{t}(c[0], Seq::empty()) + toks_{t}(c.skip(1)) }} }}
proof fn lemma_kids_{t}(c: Seq<{C}>, log: Seq<Tok>) ensures kids_{t}(c, log) == log + toks_{t}(c) decreases c.len()
{{
    if c.len() == 0 {{ assert(log + toks_{t}(c) =~= log); }} else {{
        let k = kid_{t}(c[0], Seq::empty()); assert(kid_{t}(c[0], log) =~= log + k);
        lemma_kids_{t}(c.skip(1), kid_{t}(c[0], log));
        assert(log + k + toks_{t}(c.skip(1)) =~= log + (k + toks_{t}(c.skip(1))));
    }}
}}
proof fn lemma_all_{t}(c: Seq<{C}>, rest: Seq<Tok>, x: Cn<{C}, {P}>)
    requires forall |i: int| 0 <= i < c.len() ==> settled_{t}(#[trigger] c[i])
    ensures rd_{t}(toks_{t}(c) + rest, x) == rd_{t}(rest, Cn {{ c: x.c + c, n: x.n || any_{t}(c), ..x }}) decreases c.len()
{{
    if c.len() == 0 {{ assert(toks_{t}(c) + rest =~= rest); assert(x.c + c =~= x.c); }} else {{
        assert(settled_{t}(c[0])); lits();
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled_{t}(#[trigger] c.skip(1)[i]) by {{ assert(c.skip(1)[i] == c[i + 1]); }}
        let k = kid_{t}(c[0], Seq::empty()); let m = toks_{t}(c.skip(1)) + rest; let s = toks_{t}(c) + rest; assert(s =~= k + m);
        match c[0] {{
''' + ''.join(f'            {C}::{y}(b) => {{ let a = lemma_nest(*b, "{m}"@, m); assert(s =~= Seq::<Tok>::empty() + nest_toks(*b) + m); }}\n' for y, m, _, _ in NEST) + ('            _ => {}\n' if more else '') + f'''        }}
        assert(rd_{t}(s, x) == rd_{t}(m, add_{t}(x, c[0]))) by {{ reveal_with_fuel(rd_{t}, 2); }}
        lemma_all_{t}(c.skip(1), rest, add_{t}(x, c[0]));
        assert(add_{t}(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_{t}(c) == (counts_{t}(c[0]) || any_{t}(c.skip(1)))) by {{
            if any_{t}(c) {{ let i = choose |i: int| 0 <= i < c.len() && counts_{t}(#[trigger] c[i]); if i > 0 {{ assert(c.skip(1)[i - 1] == c[i]); }} }}
            if any_{t}(c.skip(1)) {{ let i = choose |i: int| 0 <= i < c.skip(1).len() && counts_{t}(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }}
        }}
    }}
}}
'''
    if cell:
        s += f'''/// Whatever follows the cell, reading what was written for it gives the same formatting and the same content in the same order.
proof fn theorem_cell_content(x: TableCell, log: Seq<Tok>, rest: Seq<Tok>, s: Cn<{C}, {P}>)
    requires lasting(x.property, "tcPr"@), x.has_numbering == any_{t}(x.children@), starts_{t}(s), !pads(x.children@),
        forall |i: int| 0 <= i < x.children@.len() ==> settled_{t}(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| onto_{t}(x, log) == log.push(Tok::Open(El {{ n: "tc"@, a: Seq::empty() }})) + b && #[trigger] rd_{t}(b + rest, s) == Some((v_{t}(x), rest))
{{
    lits(); let c = x.children@; let e = Tok::Close("tc"@); let h = log.push(Tok::Open(El {{ n: "tc"@, a: Seq::empty() }})); let q = nest_toks(x.property);
    lemma_kids_{t}(c, h + q); let b = (q + toks_{t}(c)).push(e); assert(onto_{t}(x, log) =~= h + b);
    let tail = Seq::<Tok>::empty().push(e) + rest; let m = toks_{t}(c) + tail; assert(b + rest =~= Seq::<Tok>::empty() + q + m);
    let a = lemma_nest(x.property, "tcPr"@, m); let y = Cn {{ p: x.property, ..s }};
    assert(rd_{t}(b + rest, s) == rd_{t}(m, y)) by {{ reveal_with_fuel(rd_{t}, 2); }}
    lemma_all_{t}(c, tail, y); assert(s.c + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd_{t}(tail, v_{t}(x)) == Some((v_{t}(x), rest))) by {{ reveal_with_fuel(rd_{t}, 2); }}
}}
'''
    else:
        s += f'''/// Reading the part written for a {t.lower()} gives the same content in the same order.
proof fn theorem_{t.lower()}_content(x: {t}, a: Seq<At>, s: Cn<{C}, {P}>)
    requires x.has_numbering == any_{t}(x.children@), starts_{t}(s), forall |i: int| 0 <= i < x.children@.len() ==> settled_{t}(#[trigger] x.children@[i])
    ensures rd_{t}(onto_{t}(x, Seq::empty(), a), s) == Some(v_{t}(x))
{{
    lits(); let c = x.children@; let z = Seq::<Tok>::empty(); let h = z.push(Tok::Open(El {{ n: "{n}"@, a }})); let end = z.push(Tok::Close("{n}"@));
    lemma_kids_{t}(c, h); let t = onto_{t}(x, z, a); let m = toks_{t}(c) + end; assert(t =~= h + m); assert(t[0] == h[0]); assert(t.skip(1) =~= m);
    assert(rd_{t}(t, s) == rd_{t}(m, s)) by {{ reveal_with_fuel(rd_{t}, 2); }}
    lemma_all_{t}(c, end, s); assert(s.c + c =~= c); assert(end.skip(1) =~= z); reveal_with_fuel(rd_{t}, 3);
}}
'''
    return s
NR = [('Paragraph', 'attrs'), ('Table', '_attrs'), ('StructuredDataTag', 'attrs'), ('TableCellProperty', '_attrs')]
wr('hf_read.rs', head + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({a}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
{"//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`" + chr(10) if a == '_attrs' else ''}//@end
''' for t, a in NR) + 'pub struct Cn<C, P> { pub c: Seq<C>, pub n: bool, pub p: P }\n//@fn TableCellProperty::new ext\n//@end\nproof fn lits() ensures ' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }
''' + cut(dr, '/// What has its own content is written between', 'pub open spec fn settled') + cut(dr, 'proof fn lemma_nest', 'proof fn lemma_bookmark_end') + ''.join(reader(*x) for x in T) + '''//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
