"""Writes the units about the content of structured data tags (sd_spec, sd_write, sd_read) from those about paragraphs."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
ps, pw, pr, rw, cw = rd('pc_spec.rs'), rd('pc_write.rs'), rd('pc_read.rs'), rd('rt_write.rs'), rd('cu_write.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
C = 'StructuredDataTagChild'
NAMES = 'w:sdt w:sdtPr w:sdtContent w:dataBinding w:alias w:val w:xpath w:prefixMappings w:storeItemID w:bookmarkStart w:bookmarkEnd w:id w:name'.split()
NEST = [('Run', 'r', 'Run'), ('Paragraph', 'p', 'Paragraph'), ('Table', 'tbl', 'Table'), ('StructuredDataTag', 'sdt', 'StructuredDataTag')]
wr('sd_spec.rs', '// What a structured data tag looks like in a part.\n' + cut(ps, '/// What anything that has', 'pub open spec fn kid_onto') + f'''pub open spec fn kid_onto(c: {C}, log: Seq<Tok>) -> Seq<Tok> {{
    match c {{
        {C}::BookmarkStart(b) => one(log, bms_el(b)),
        {C}::BookmarkEnd(b) => one(log, bme_el(b)),
        {C}::CommentEnd(b) => log + nest_toks(b),
''' + ''.join(f'        {C}::{k}(b) => log + nest_toks(*b),\n' for k in [n[2] for n in NEST] + ['CommentStart']) + '''    }
}
''' + cut(ps, 'pub open spec fn kids_onto', 'pub open spec fn p_el').replace('ParagraphChild', C) + '''pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
pub open spec fn bind_el(d: DataBinding) -> El { El { n: "dataBinding"@, a: with(with(with(Seq::empty(), "xpath"@, txt(d.xpath)), "prefixMappings"@, txt(d.prefix_mappings)), "storeItemID"@, txt(d.store_item_id)) } }
pub open spec fn bind_onto(d: Option<DataBinding>, log: Seq<Tok>) -> Seq<Tok> { match d { Some(d) => one(log, bind_el(d)), None => log } }
pub open spec fn alias_el(s: Seq<char>) -> El { El { n: "alias"@, a: ats(Seq::empty(), "val"@, s) } }
pub open spec fn alias_onto(d: Option<String>, log: Seq<Tok>) -> Seq<Tok> { match d { Some(d) => one(log, alias_el(d@)), None => log } }
pub open spec fn prop_onto(p: StructuredDataTagProperty, log: Seq<Tok>) -> Seq<Tok> { alias_onto(p.alias, bind_onto(p.data_binding, log.push(plain("sdtPr"@)) + nest_toks(p.run_property))).push(Tok::Close("sdtPr"@)) }
pub open spec fn sdt_onto(x: StructuredDataTag, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, prop_onto(x.property, log.push(plain("sdt"@))).push(plain("sdtContent"@))).push(Tok::Close("sdtContent"@)).push(Tok::Close("sdt"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item StructuredDataTag
//@item StructuredDataTagChild
//@item StructuredDataTagProperty
//@item DataBinding
//@item BookmarkStart
//@item BookmarkEnd
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in ['Run', 'Paragraph', 'Table', 'CommentRangeStart', 'CommentRangeEnd', 'RunProperty']))
def nest(t):
    return f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
'''
def body(t, spec, pre=''):
    return f'''//@fn <{t} as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
{pre}//@at start
//@| proof {{ names(); reveal(kid); assert(stream.open().push("sdtPr"@).drop_last() =~= stream.open()); }}
//@end
impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ {spec} }}
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ self.build_to_body(stream) }}
}}
'''
wr('sd_write.rs', cut(pw, '//@include prelude.rs', '#[verifier::external_body] pub struct ParagraphProperty').replace('pc_spec', 'sd_spec') + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + ''.join(f'''//@fn XMLBuilder::{f}
//@| ensures opened(self, r, El {{ n: "{n}"@, a: Seq::empty() }}),
//@at start
//@| proof {{ names(); }}
//@end
''' for f, n in [('open_structured_tag', 'sdt'), ('open_structured_tag_content', 'sdtContent'), ('open_structured_tag_property', 'sdtPr')]) + '''pub open spec fn txt_of(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
//@fn XMLBuilder::data_binding
//@| ensures put(self, r, El { n: "dataBinding"@, a: with(with(with(Seq::empty(), "xpath"@, txt_of(xpath)), "prefixMappings"@, txt_of(prefix_mappings)), "storeItemID"@, txt_of(store_item_id)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::alias
//@| ensures put(self, r, alias_el(val@)),
//@at start
//@| proof { names(); }
//@end
''' + cut(rw, '//@fn XMLBuilder::apply_opt', '//@fn XMLBuilder::border_top') + cut(pw, '//@fn XMLBuilder::bookmark_start', '// TRUSTED here: what has its own') + '// TRUSTED here: what has its own content is written after what is there already (runs: unit rn_write, paragraphs: unit pc_write, tables: unit tl_write).\n' + ''.join(nest(t) for t in ['Run', 'Paragraph', 'Table', 'StructuredDataTag', 'CommentRangeStart', 'CommentRangeEnd', 'RunProperty']) + cut(pw, 'impl<T: BuildXML> BuildXML for Box<T>', '//@fn <ParagraphChild as') + body('DataBinding', 'one(log, bind_el(*self))') + body('StructuredDataTagProperty', 'prop_onto(*self, log)', '''//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures put(b, o, alias_el(alias@))
''') + cut(pw, '//@fn <ParagraphChild as', '//@fn <Paragraph as BuildXML>').replace('ParagraphChild', C) + '''//@fn <StructuredDataTag as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == sdt_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { let h = prop_onto(self.property, stream.log().push(plain("sdt"@))); lemma_all(self.children@, h.push(plain("sdtContent"@))); assert(stream.open().push("sdt"@).drop_last() =~= stream.open()); assert(stream.open().push("sdt"@).push("sdtContent"@).drop_last() =~= stream.open().push("sdt"@)); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'sdt': 'StructuredDataTag', 'sdtPr': 'Unsupported', 'sdtContent': 'Unsupported', 'rPr': 'RunProperty', 'dataBinding': 'Unsupported', 'alias': 'Unsupported', 'bookmarkStart': 'BookmarkStart', 'bookmarkEnd': 'BookmarkEnd', 'r': 'Run', 'p': 'Paragraph', 'tbl': 'Table'}
SKIP = ['sdtPr', 'sdtContent', 'rPr', 'dataBinding', 'alias']
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
import re
theorem = cut(pr, '/// What has its own content is written between', '/// Whatever follows the paragraph').replace('(runs: theorem_run_content, formatting: theorem_paragraph_formatting)', '(runs: theorem_run_content, paragraphs: theorem_paragraph_content, tables: theorem_table_content)')
theorem = re.sub(r'        ParagraphChild::(Run|MoveFrom|MoveTo|Hyperlink|Insert|Delete)\(b\) => .*\n', '', theorem)
i = theorem.index('        _ => false,')
theorem = theorem[:i] + f'        {C}::Run(b) => bare(*b),\n' + ''.join(f'        {C}::{k}(b) => lasting(*b, "{n}"@),\n' for t, n, k in NEST[1:]) + theorem[i:]
i = theorem.index('        _ => {}')
theorem = theorem[:i] + f'        {C}::Run(b) => {{ lemma_bare(*b, rest); }}\n' + ''.join(f'        {C}::{k}(b) => {{ let a = lemma_nest(*b, "{n}"@, rest); }}\n' for t, n, k in NEST[1:]) + theorem[i:]
theorem = theorem.replace('ParagraphChild', C).replace('x: Pn', f'x: Seq<{C}>').replace('add(x, c[0]).c', 'x.push(c[0])').replace('add(x, c[0])', 'x.push(c[0])').replace('add(x, c)', 'x.push(c)').replace('Pn { c: x.c + c, ..x }', 'x + c').replace('x.c', 'x')
theorem = theorem.replace('proof fn lemma_bookmark_end', '''/// A run is read without regard to its attributes; it is written without any.
pub open spec fn bare(v: Run) -> bool { exists |b: Seq<Tok>| #![trigger laid(v, "r"@, Seq::<At>::empty(), b)] laid(v, "r"@, Seq::<At>::empty(), b) }
proof fn lemma_bare(v: Run, rest: Seq<Tok>)
    requires bare(v) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n: "r"@, a: Seq::empty() }) && nest_val::<Run>(Seq::empty(), t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let b = choose |b: Seq<Tok>| #![trigger laid(v, "r"@, Seq::<At>::empty(), b)] laid(v, "r"@, Seq::<At>::empty(), b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![plain("r"@)] + (b + rest)); assert(t.skip(1) =~= b + rest);
}
proof fn lemma_bookmark_end''', 1)
theorem = re.sub(r'\brd\(([^;]*?), (x|x \+ c|x\.push\([a-z0-9\[\]]+\))\)', r'rd(\1, \2, Seq::empty())', theorem)
CONT = lambda e, c: f'rd({e}, x.push({C}::{c}), z)'
wr('sd_read.rs', cut(pr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('pc_spec', 'sd_spec') + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({a}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
''' + ('//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`\n' if t == 'Table' else '') + '''//@end
''' for t, a in [('Run', '_attrs'), ('Paragraph', 'attrs'), ('Table', '_attrs')]) + '''// The tag inside a tag, as far as its place among the others goes.
impl StructuredDataTag { #[verifier::external_body] pub fn vx_nested<R: Read>(r: &mut EventReader<R>, attrs: &[OwnedAttribute]) -> (out: Result<Self, ReaderError>)
    ensures nest_val::<StructuredDataTag>(av(attrs@), old(r).todo()) matches Some(x) ==> (out == Ok::<StructuredDataTag, ReaderError>(x.0) && final(r).todo() == x.1) { unimplemented!() } }
//@fn RunProperty::new ext
//@end
''' + '''#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn CommentRangeStart::new ext
//@end
//@fn CommentRangeEnd::new ext
//@end
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below.
    pub broadcast axiom fn d_sdt() ensures (#[trigger] dflt::<StructuredDataTag>()).children@ == Seq::<StructuredDataTagChild>::empty();
}
//@fn <StructuredDataTagProperty as Default>::default r=out
//@end
//@fn StructuredDataTagProperty::new
//@end
//@fn <StructuredDataTag as Default>::default r=out
//@| ensures out.children@ == Seq::<StructuredDataTagChild>::empty(),
//@end
//@fn StructuredDataTag::new
//@| ensures r.children@ == Seq::<StructuredDataTagChild>::empty(),
//@at start
//@| broadcast use dfl::d_sdt;
//@end
''' + cut(pr, '//@fn BookmarkStart::new', '//@fn Paragraph::add_bookmark_start') + cut(pr, 'pub open spec fn ids_ok', '// ---- what reading the tokens') + f'''// ---- what reading the tokens of a structured data tag gives; z: the attributes of the tag
pub open spec fn rd(t: Seq<Tok>, x: Seq<{C}>, z: Seq<At>) -> Option<(Seq<{C}>, Seq<Tok>)> decreases t.len()
{{
    if t.len() == 0 {{ None }} else {{ match t[0] {{
        Tok::Open(e) =>
            if e.n == "bookmarkStart"@ {{ match bms_of(e.a) {{ Some(b) => {CONT('t.skip(1)', 'BookmarkStart(b)')}, None => None }} }}
            else if e.n == "bookmarkEnd"@ {{ match bme_of(e.a) {{ Some(b) => {CONT('t.skip(1)', 'BookmarkEnd(b)')}, None => None }} }}
''' + ''.join(f'''            else if e.n == "{n}"@ {{ match nest_val::<{t}>({'z' if n == 'r' else 'e.a'}, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ {CONT('y.1', k + '(Box::new(y.0))')} }} else {{ None }}, None => None }} }}
''' for t, n, k in NEST) + '            else if ' + ' || '.join(f'e.n == "{n}"@' for n in SKIP) + ''' { rd(t.skip(1), x, z) }
            else { None },
        Tok::Close(n) => if n == "sdt"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ || ''' + ' || '.join(f'n == "{n}"@' for n in SKIP) + ''' { rd(t.skip(1), x, z) } else { None },
        Tok::Chars(_) => None,
    } }
}
//@fn <StructuredDataTag as ElementReader>::read r=out
//@| ensures rd(old(r).todo(), Seq::empty(), av(attrs@)) matches Some(y) ==> (out matches Ok(z) && z.children@ == y.0) && final(r).todo() == y.1,
//@sub `StructuredDataTag::read(` => `StructuredDataTag::vx_nested(`
//@sub `usize::from_str(&id)` => `vx_parse::<usize>(&id)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd(r.todo(), Seq::empty(), av(attrs@)); assert(sdt.children@ =~= Seq::<StructuredDataTagChild>::empty());
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), Seq::empty(), av(attrs@)), vx_g is Some ==> rd(r.todo(), sdt.children@, av(attrs@)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }

// ---- the content read from what was written for a tag is the content that was written
''' + theorem + f'''/// An element the reader of tags passes over.
pub open spec fn passed(e: El) -> bool {{ {' || '.join(f'e.n == "{n}"@' for n in SKIP)} }}
proof fn lemma_pass(e: El, rest: Seq<Tok>, x: Seq<{C}>) requires passed(e) ensures rd(one(Seq::empty(), e) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{{ lits(); lemma_one(e, rest); reveal_with_fuel(rd, 3); }}
proof fn lemma_tag(t: Tok, rest: Seq<Tok>, x: Seq<{C}>) requires (match t {{ Tok::Open(e) => passed(e), Tok::Close(n) => passed(El {{ n, a: Seq::empty() }}), _ => false }})
    ensures rd(seq![t] + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{{ lits(); let s = seq![t] + rest; assert(s[0] == t); assert(s.skip(1) =~= rest); reveal_with_fuel(rd, 2); }}
pub open spec fn r_el() -> El {{ El {{ n: "rPr"@, a: Seq::empty() }} }}
pub open spec fn bind_toks(d: Option<DataBinding>) -> Seq<Tok> {{ bind_onto(d, Seq::empty()) }}
pub open spec fn alias_toks(d: Option<String>) -> Seq<Tok> {{ alias_onto(d, Seq::empty()) }}
proof fn lemma_prop(p: StructuredDataTagProperty, h: Seq<Tok>) requires nest_toks(p.run_property) == one(Seq::empty(), r_el())
    ensures prop_onto(p, h) == h + (seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(p.data_binding) + (alias_toks(p.alias) + seq![Tok::Close("sdtPr"@)]))))
{{
    let l0 = h.push(plain("sdtPr"@)) + nest_toks(p.run_property); let l1 = bind_onto(p.data_binding, l0); assert(l1 =~= l0 + bind_toks(p.data_binding));
    let l2 = alias_onto(p.alias, l1); assert(l2 =~= l1 + alias_toks(p.alias));
    assert(l2.push(Tok::Close("sdtPr"@)) =~= h + (seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(p.data_binding) + (alias_toks(p.alias) + seq![Tok::Close("sdtPr"@)])))));
}}
proof fn lemma_bind(d: Option<DataBinding>, rest: Seq<Tok>, x: Seq<{C}>) ensures rd(bind_toks(d) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{{ match d {{ Some(d) => {{ lemma_pass(bind_el(d), rest, x); }} None => {{ assert(bind_toks(d) + rest =~= rest); }} }} }}
proof fn lemma_alias(d: Option<String>, rest: Seq<Tok>, x: Seq<{C}>) ensures rd(alias_toks(d) + rest, x, Seq::empty()) == rd(rest, x, Seq::empty())
{{ match d {{ Some(d) => {{ lemma_pass(alias_el(d@), rest, x); }} None => {{ assert(alias_toks(d) + rest =~= rest); }} }} }}
pub open spec fn inner(x: StructuredDataTag, rest: Seq<Tok>) -> Seq<Tok> {{ seq![plain("sdtContent"@)] + (all_toks(x.children@) + (seq![Tok::Close("sdtContent"@)] + (seq![Tok::Close("sdt"@)] + rest))) }}
proof fn lemma_inner(x: StructuredDataTag, rest: Seq<Tok>) requires forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures rd(inner(x, rest), Seq::empty(), Seq::empty()) == Some((x.children@, rest))
{{
    lits(); let c = x.children@; let o = Seq::<{C}>::empty(); let e = Tok::Close("sdt"@); let t3 = seq![e] + rest; let t2 = seq![Tok::Close("sdtContent"@)] + t3; let t1 = all_toks(c) + t2;
    lemma_tag(plain("sdtContent"@), t1, o); lemma_all(c, t2, o); assert(o + c =~= c); lemma_tag(Tok::Close("sdtContent"@), t3, c);
    assert(t3[0] == e); assert(t3.skip(1) =~= rest); assert(rd(t3, c, Seq::empty()) == Some((c, rest))) by {{ reveal_with_fuel(rd, 2); }}
}}
pub open spec fn outer(x: StructuredDataTag, rest: Seq<Tok>) -> Seq<Tok> {{ seq![plain("sdtPr"@)] + (one(Seq::empty(), r_el()) + (bind_toks(x.property.data_binding) + (alias_toks(x.property.alias) + (seq![Tok::Close("sdtPr"@)] + inner(x, rest))))) }}
/// Whatever follows the tag, reading what was written for it gives the same content in the same order.
proof fn theorem_tag_content(x: StructuredDataTag, log: Seq<Tok>, rest: Seq<Tok>)
    requires nest_toks(x.property.run_property) == one(Seq::empty(), r_el()), forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures sdt_onto(x, log) + rest == log.push(plain("sdt"@)) + outer(x, rest), rd(outer(x, rest), Seq::empty(), Seq::empty()) == Some((x.children@, rest))
{{
    let h = log.push(plain("sdt"@)); let p = x.property; let o = Seq::<{C}>::empty();
    lemma_prop(p, h); lemma_kids(x.children@, prop_onto(p, h).push(plain("sdtContent"@)));
    assert(sdt_onto(x, log) + rest =~= h + outer(x, rest));
    let t4 = inner(x, rest); let t3 = seq![Tok::Close("sdtPr"@)] + t4; let t2 = alias_toks(p.alias) + t3; let t1 = bind_toks(p.data_binding) + t2; let t0 = one(Seq::empty(), r_el()) + t1;
    lemma_tag(plain("sdtPr"@), t0, o); lemma_pass(r_el(), t1, o); lemma_bind(p.data_binding, t2, o); lemma_alias(p.alias, t3, o); lemma_tag(Tok::Close("sdtPr"@), t4, o); lemma_inner(x, rest);
}}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {{}}
fn main(){{}}
}}
''')
