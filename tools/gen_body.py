"""Writes the units about the body of a document (dc_spec, dc_write, dc_read) from those about paragraphs."""
import os, re
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
NEST = [('Paragraph', 'p', 'add_paragraph', 'p'), ('Table', 'tbl', 'add_table', 't'), ('StructuredDataTag', 'sdt', 'add_structured_data_tag', 't')]
REST = [('CommentRangeStart', 'CommentStart', 1), ('CommentRangeEnd', 'CommentEnd', 0), ('TableOfContents', 'TableOfContents', 1), ('Section', 'Section', 1)]
NAMES = 'w:document w:body w:bookmarkStart w:bookmarkEnd w:id w:name'.split()
pr, pw, ps = rd('pc_read.rs'), rd('pc_write.rs'), rd('pc_spec.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
opn = open(os.path.join(U, '..', 'units', 'cu_write.rs')).read()
wr('dc_spec.rs', '''// What the body of a document looks like in a part.
''' + cut(ps, '/// What anything that has', 'pub open spec fn kid_onto') + '''pub open spec fn kid_onto(c: DocumentChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        DocumentChild::BookmarkStart(b) => one(log, bms_el(b)),
        DocumentChild::BookmarkEnd(b) => one(log, bme_el(b)),
''' + ''.join(f'        DocumentChild::{k}(b) => log + nest_toks({"*b" if x else "b"}),\n' for k, x in [(t, 1) for t, _, _, _ in NEST] + [(k, x) for _, k, x in REST]) + '''    }
}
pub open spec fn kids_onto(c: Seq<DocumentChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn body_el() -> El { El { n: "body"@, a: Seq::empty() } }
pub open spec fn doc_onto(x: Document, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> { (kids_onto(x.children@, log.push(Tok::Open(El { n: "document"@, a })).push(Tok::Open(body_el()))) + nest_toks(x.section_property)).push(Tok::Close("body"@)).push(Tok::Close("document"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item Document
//@item DocumentChild
//@item BookmarkStart
//@item BookmarkEnd
''')
TY = [n[0] for n in NEST] + [n[0] for n in REST] + ['SectionProperty']
wr('dc_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include dc_spec.rs
//@include wr_head.rs
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in TY) + cut(opn, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + '''
// Here: the declaration is no token.
//@fn XMLBuilder::declaration ext
//@| ensures r matches Ok(w) ==> w.log() == self.log() && w.open() == self.open(),
//@end
//@fn XMLBuilder::open_body
//@| ensures opened(self, r, body_el()),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_document
//@| ensures r matches Ok(w) ==> exists |a: Seq<At>| w.log() == #[trigger] self.log().push(Tok::Open(El { n: "document"@, a })) && w.open() == self.open().push("document"@),
//@at start
//@| proof { names(); }
//@end
''' + cut(pw, '//@fn XMLBuilder::bookmark_start', '// TRUSTED here')
 + '// TRUSTED here: what has its own content is written after what is there already (paragraphs: unit pc_write, section formatting: unit rs_write).\n' + ''.join(f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
''' for t in TY) + cut(pw, 'impl<T: BuildXML> BuildXML for Box<T>', '//@fn <Paragraph as BuildXML>').replace('ParagraphChild', 'DocumentChild') + '''//@fn <Document as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> (exists |a: Seq<At>| w.log() == #[trigger] doc_onto(*self, stream.log(), a)) && w.open() == stream.open(),
//@at start
//@| proof { names(); assert forall |l: Seq<Tok>| #[trigger] all_onto(self.children@, l) == kids_onto(self.children@, l) by { lemma_all(self.children@, l); } let o = stream.open(); assert(o.push("document"@).push("body"@).drop_last() =~= o.push("document"@)); assert(o.push("document"@).drop_last() =~= o);
//@|   assert forall |a: Seq<At>| #![trigger stream.log().push(Tok::Open(El { n: "document"@, a }))] doc_onto(*self, stream.log(), a).len() >= 0 by {} }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'document': 'Unsupported', 'body': 'Body', 'p': 'Paragraph', 'tbl': 'Table', 'sdt': 'StructuredDataTag', 'bookmarkStart': 'BookmarkStart', 'bookmarkEnd': 'BookmarkEnd', 'sectPr': 'SectionProperty'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
head = cut(pr, '//@include prelude.rs', 'pub struct Pn').replace('pc_spec', 'dc_spec')
i = head.index('#[verifier::opaque] pub open spec fn ck')
head = head[:i]
head = head.replace('//@fn EventReader::next_event ext\n', '''/// What is read from, as tokens.
pub trait Part { spec fn part(&self) -> Seq<Tok>; }
impl<R> Part for R { uninterp spec fn part(&self) -> Seq<Tok>; }
//@fn EventReader::new ext
//@| ensures r.todo() == reader.part(),
//@end
//@fn EventReader::next_event ext
//@| ensures old(self).todo().len() == 0 ==> (r matches Ok(e) && e == XmlEvent::EndDocument && final(self).todo() == old(self).todo()),
''').replace('//@| ensures old(self).todo().len() > 0 ==>', '//@|   old(self).todo().len() > 0 ==>')
wr('dc_read.rs', head + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
''' + '''/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({a}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
{"//@sub `_: &[OwnedAttribute]` => `_attrs: &[OwnedAttribute]`" + chr(10) if t == 'Table' else ''}//@end
''' for t, a in [('Paragraph', 'attrs'), ('Table', '_attrs'), ('StructuredDataTag', 'attrs'), ('SectionProperty', '_attrs')]) + '''
pub struct Dn { pub c: Seq<DocumentChild>, pub s: SectionProperty, pub n: bool }
pub open spec fn dv(x: Document) -> Dn { Dn { c: x.children@, s: x.section_property, n: x.has_numbering } }
pub open spec fn add(x: Dn, c: DocumentChild) -> Dn { Dn { c: x.c.push(c), n: x.n || counts(c), ..x } }
/// Whether numbering is used in it.
pub open spec fn counts(c: DocumentChild) -> bool { match c { DocumentChild::Paragraph(p) => p.has_numbering, DocumentChild::Table(t) => t.has_numbering, DocumentChild::StructuredDataTag(t) => t.has_numbering, _ => false } }
//@fn SectionProperty::new ext
//@| ensures r == dflt::<SectionProperty>(),
//@end
//@fn <Document as Default>::default r=out
//@| ensures out.children@ == Seq::<DocumentChild>::empty(), !out.has_numbering,
//@end
''' + ''.join(f'''//@fn Document::{f}
//@| ensures dv(r) == add(dv(self), DocumentChild::{t}(Box::new({a}))),
//@end
''' for t, n, f, a in NEST) + '''//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
//@fn Document::add_bookmark_start
//@| ensures dv(r) == add(dv(self), DocumentChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Document::add_bookmark_end
//@| ensures dv(r) == add(dv(self), DocumentChild::BookmarkEnd(BookmarkEnd { id })),
//@end
//@fn Document::default_section_property
//@| ensures dv(r) == (Dn { s: property, ..dv(self) }),
//@end
//@fn Comment::new ext
//@end
//@fn Document::add_comment_start ext
//@end
//@fn Document::add_comment_end ext
//@end
''' + cut(pr, 'pub open spec fn ids_ok', '// ---- what reading the tokens') + '''// ---- what reading the tokens of a part gives
pub open spec fn rd(t: Seq<Tok>, x: Dn) -> Option<Dn> decreases t.len()
{
    if t.len() == 0 { Some(x) } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "document"@ || e.n == "body"@ { rd(t.skip(1), x) }
            else if e.n == "sectPr"@ { match nest_val::<SectionProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, Dn { s: y.0, ..x }) } else { None }, None => None } }
            else if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, DocumentChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, DocumentChild::BookmarkEnd(b))), None => None } }
''' + ''.join(f'''            else if e.n == "{n}"@ {{ match nest_val::<{t}>(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd(y.1, add(x, DocumentChild::{t}(Box::new(y.0)))) }} else {{ None }}, None => None }} }}
''' for t, n, _, _ in NEST) + '''            else { None },
        Tok::Close(n) => rd(t.skip(1), x),
        Tok::Chars(_) => None,
    } }
}
pub open spec fn starts(x: Dn) -> bool { x.c == Seq::<DocumentChild>::empty() && !x.n }
//@fn <Document as FromXML>::from_xml r=out
//@| ensures exists |x: Dn| starts(x) && (#[trigger] rd(reader.part(), x) matches Some(y) ==> (out matches Ok(z) && dv(z) == y)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = dv(doc); let ghost vx_g = rd(parser.todo(), dv(doc)); assert(starts(vx_x));
//@loop 0
//@| invariant_except_break vx_g is Some ==> rd(parser.todo(), dv(doc)) == vx_g,
//@| invariant vx_g == rd(reader.part(), vx_x), starts(vx_x),
//@| ensures vx_g is Some ==> vx_g == Some(dv(doc)),
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }

// ---- a document read from what was written for it is the document that was written
''' + cut(pr, '/// What has its own content is written between', 'pub open spec fn settled').replace('(runs: theorem_run_content, formatting: theorem_paragraph_formatting)', '(paragraphs: theorem_paragraph_content, section formatting: theorem_section_formatting)') + '''pub open spec fn settled(c: DocumentChild) -> bool {
    match c {
        DocumentChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        DocumentChild::BookmarkEnd(b) => true,
''' + ''.join(f'        DocumentChild::{t}(b) => lasting(*b, "{n}"@),\n' for t, n, _, _ in NEST) + '''        _ => false,
    }
}
pub open spec fn any_counts(c: Seq<DocumentChild>) -> bool { exists |i: int| 0 <= i < c.len() && counts(#[trigger] c[i]) }
''' + cut(pr, 'pub open spec fn toks(c', 'proof fn lemma_kid(c').replace('ParagraphChild', 'DocumentChild') + '''proof fn lemma_kid(c: DocumentChild, rest: Seq<Tok>, x: Dn)
    requires settled(c) ensures rd(toks(c) + rest, x) == rd(rest, add(x, c))
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        DocumentChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        DocumentChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
''' + ''.join(f'        DocumentChild::{t}(b) => {{ let a = lemma_nest(*b, "{n}"@, rest); }}\n' for t, n, _, _ in NEST) + '''        _ => {}
    }
}
proof fn lemma_all(c: Seq<DocumentChild>, rest: Seq<Tok>, x: Dn)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x) == rd(rest, Dn { c: x.c + c, n: x.n || any_counts(c), ..x }) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
        assert(any_counts(c) == (counts(c[0]) || any_counts(c.skip(1)))) by {
            if any_counts(c) { let i = choose |i: int| 0 <= i < c.len() && counts(#[trigger] c[i]); if i > 0 { assert(c.skip(1)[i - 1] == c[i]); } }
            if any_counts(c.skip(1)) { let i = choose |i: int| 0 <= i < c.skip(1).len() && counts(#[trigger] c.skip(1)[i]); assert(c[i + 1] == c.skip(1)[i]); }
        }
    }
}
/// Reading the part written for a document gives the same content in the same order and the same section formatting.
proof fn theorem_document_content(x: Document, a: Seq<At>, s: Dn)
    requires lasting(x.section_property, "sectPr"@), x.has_numbering == any_counts(x.children@), starts(s),
        forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures rd(doc_onto(x, Seq::empty(), a), s) == Some(dv(x))
{
    lits(); let c = x.children@; let z = Seq::<Tok>::empty(); let h = z.push(Tok::Open(El { n: "document"@, a })).push(Tok::Open(body_el()));
    lemma_kids(c, h);
    let end = z.push(Tok::Close("body"@)).push(Tok::Close("document"@)); let tail = z + nest_toks(x.section_property) + end; let m = all_toks(c) + tail; let t = doc_onto(x, z, a);
    assert(t =~= h + m); assert(t[0] == h[0]); assert(t.skip(1)[0] == h[1]); assert(t.skip(1).skip(1) =~= m);
    assert(rd(t, s) == rd(m, s)) by { reveal_with_fuel(rd, 3); }
    lemma_all(c, tail, s);
    assert(s.c + c =~= c);
    let q = lemma_nest(x.section_property, "sectPr"@, end); let y = Dn { c, n: any_counts(c), ..s };
    assert(rd(tail, y) == rd(end, dv(x))) by { reveal_with_fuel(rd, 2); }
    assert(end.skip(1).skip(1) =~= z); reveal_with_fuel(rd, 4);
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
