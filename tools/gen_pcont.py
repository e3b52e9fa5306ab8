"""Writes the units about the content of paragraphs (pc_spec, pc_write, pc_read) from the shared heads."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
NEST = [('Run', 'r', 'Run', 1), ('Insert', 'ins', 'Insert', 0), ('Delete', 'del', 'Delete', 0), ('MoveFrom', 'moveFrom', 'MoveFrom', 0), ('MoveTo', 'moveTo', 'MoveTo', 0), ('Hyperlink', 'hyperlink', 'Hyperlink', 0)]
REST = [('CommentRangeStart', 'CommentStart', 1), ('CommentRangeEnd', 'CommentEnd', 0), ('StructuredDataTag', 'StructuredDataTag', 1), ('PageNum', 'PageNum', 1), ('NumPages', 'NumPages', 1)]
NAMES = 'w:p w:bookmarkStart w:bookmarkEnd w14:paraId w:id w:name'.split()
wr('pc_spec.rs', '''// What a paragraph looks like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn bms_el(b: BookmarkStart) -> El { El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, shown(b.id)@), "name"@, b.name@) } }
pub open spec fn bme_el(b: BookmarkEnd) -> El { El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, shown(b.id)@) } }
pub open spec fn kid_onto(c: ParagraphChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        ParagraphChild::BookmarkStart(b) => one(log, bms_el(b)),
        ParagraphChild::BookmarkEnd(b) => one(log, bme_el(b)),
''' + ''.join(f'        ParagraphChild::{k}(b) => log + nest_toks({"*b" if x else "b"}),\n' for k, x in [(k, x) for _, _, k, x in NEST] + [(k, x) for _, k, x in REST]) + '''    }
}
pub open spec fn kids_onto(c: Seq<ParagraphChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn p_el(x: Paragraph) -> El { El { n: "p"@, a: ats(Seq::empty(), "paraId"@, x.id@) } }
pub open spec fn para_onto(x: Paragraph, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, log.push(Tok::Open(p_el(x))) + nest_toks(x.property)).push(Tok::Close("p"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item Paragraph
//@item ParagraphChild
//@item BookmarkStart
//@item BookmarkEnd
''' + ''.join(f'#[verifier::external_body] pub struct {t} {{ x: u8 }}\n' for t in [n[0] for n in NEST] + [n[0] for n in REST]))
def body(t, spec):
    return f'''//@fn <{t} as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@at start
//@| proof {{ names(); }}
//@end
impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ {spec} }}
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ self.build_to_body(stream) }}
}}
'''
def nest(t):
    return f'''impl BuildXML for {t} {{
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> {{ log + nest_toks(*self) }}
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) {{ unimplemented!() }}
}}
'''
def put(f, e):
    return f'''//@fn XMLBuilder::{f}
//@| ensures put(self, r, {e}),
//@at start
//@| proof {{ names(); }}
//@end
'''
wr('pc_write.rs', '''//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rx_spec.rs
//@include pc_spec.rs
//@include wr_head.rs
#[verifier::external_body] pub struct ParagraphProperty { x: u8 }
//@fn XMLBuilder::open_paragraph
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "p"@, a: ats(Seq::empty(), "paraId"@, arg0@) })) && w.open() == self.open().push("p"@),
//@at start
//@| proof { names(); }
//@end
''' + put('bookmark_start', 'El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, arg0@), "name"@, arg1@) }') + put('bookmark_end', 'El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, arg0@) }')
 + body('BookmarkStart', 'one(log, bms_el(*self))') + body('BookmarkEnd', 'one(log, bme_el(*self))')
 + '// TRUSTED here: what has its own content is written after what is there already (runs: unit rn_write, paragraph formatting: unit rb_write).\n' + ''.join(nest(t) for t in [n[0] for n in NEST] + [n[0] for n in REST] + ['ParagraphProperty'])
 + '''impl<T: BuildXML> BuildXML for Box<T> {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { (**self).onto(log) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { (**self).build_to(stream) }
}
''' + body('ParagraphChild', 'kid_onto(*self, log)') + '''pub open spec fn all_onto<T: BuildXML>(c: Seq<T>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { all_onto(c.skip(1), c[0].onto(log)) } }
//@fn XMLBuilder::add_children
//@| ensures r matches Ok(w) ==> w.log() == all_onto(children@, self.log()) && w.open() == self.open(),
//@at start
//@| proof { assert(children@.skip(0) =~= children@); }
//@loop 0 iter=it
//@| invariant all_onto(children@.skip(it.index@ as int), this.log()) == all_onto(children@, self.log()), this.open() == self.open(),
//@loopend 0
//@| proof { assert(children@.skip(it.index@ as int).skip(1) =~= children@.skip(it.index@ + 1)); }
//@afterloop 0
//@| proof { assert(children@.skip(children@.len() as int).len() == 0); }
//@end
proof fn lemma_all(c: Seq<ParagraphChild>, log: Seq<Tok>) ensures all_onto(c, log) == kids_onto(c, log) decreases c.len()
{ if c.len() > 0 { lemma_all(c.skip(1), kid_onto(c[0], log)); } }
//@fn <Paragraph as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == para_onto(*self, stream.log()) && w.open() == stream.open(),
//@at start
//@| proof { lemma_all(self.children@, stream.log().push(Tok::Open(p_el(*self))) + nest_toks(self.property)); assert(stream.open().push("p"@).drop_last() =~= stream.open()); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
h = rd('rd_head.rs')
def cut(a, b):
    i = h.index(a); return h[i:h.index(b, i)]
EL = {'p': 'Paragraph', 'pPr': 'ParagraphProperty', 'bookmarkStart': 'BookmarkStart', 'bookmarkEnd': 'BookmarkEnd', **{n: t for t, n, _, _ in NEST}}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
add = {'Run': 'add_run', 'Insert': 'add_insert', 'Delete': 'add_delete', 'MoveFrom': 'add_move_from', 'MoveTo': 'add_move_to', 'Hyperlink': 'add_hyperlink'}
par = {'Run': 'run', 'Insert': 'insert', 'Delete': 'delete', 'MoveFrom': 'move_from', 'MoveTo': 'move_to', 'Hyperlink': 'link'}
bx = lambda x, e: f'Box::new({e})' if x else e
wr('pc_read.rs', '''//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include pc_spec.rs
broadcast use ax::str_ext, vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown, vals::bool_shown, vals::seen_shown_usize;
''' + cut('pub uninterp spec fn dflt', 'pub uninterp spec fn escaped') + cut('#[verifier::external_body] pub fn vx_default', '// TRUSTED: comparing letters') + cut('// TRUSTED: number parsing', 'pub uninterp spec fn cast') + '''pub mod nums {
    use super::*;
    // TRUSTED: a number is read as the number it was printed from.
    pub broadcast axiom fn usize_back(n: &usize) ensures parsed::<usize>((#[trigger] shown_of::<usize>(n))@) == Some(*n);
}
''' + cut('pub enum ReaderError', 'proof fn lemma_first(s') + cut('proof fn lemma_first(s', '//@fn reader/attributes/val.rs::read_val') + f'''
#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
''' + '''#[verifier::external_body] pub struct NumberingProperty { x: u8 }
/// Of paragraph formatting only whether there is numbering matters here.
#[verifier::external_body] pub struct ParagraphProperty { x: u8 }
pub uninterp spec fn numbered(p: ParagraphProperty) -> bool;
#[verifier::external_body] pub fn vx_numbered(p: &ParagraphProperty) -> (r: bool) ensures r == numbered(*p) { unimplemented!() }
//@fn ParagraphProperty::new ext
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({'_attrs' if t == 'Run' else 'attrs'}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
''' for t in [n[0] for n in NEST] + ['ParagraphProperty']) + '''
pub struct Pn { pub id: String, pub p: ParagraphProperty, pub n: bool, pub c: Seq<ParagraphChild> }
pub open spec fn pv(x: Paragraph) -> Pn { Pn { id: x.id, p: x.property, n: x.has_numbering, c: x.children@ } }
pub open spec fn add(x: Pn, c: ParagraphChild) -> Pn { Pn { c: x.c.push(c), ..x } }
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below.
    pub broadcast axiom fn d_para() ensures (#[trigger] dflt::<Paragraph>()).children@ == Seq::<ParagraphChild>::empty(), !dflt::<Paragraph>().has_numbering;
}
//@fn documents/paragraph_id.rs::generate_para_id ext
//@end
//@fn <Paragraph as Default>::default r=out
//@| ensures out.children@ == Seq::<ParagraphChild>::empty(), !out.has_numbering,
//@end
//@fn Paragraph::new
//@| ensures r.children@ == Seq::<ParagraphChild>::empty(), !r.has_numbering,
//@at start
//@| broadcast use dfl::d_para;
//@end
//@fn Paragraph::id
//@| ensures pv(r) == (Pn { id: strv(id.chars()), ..pv(self) }),
//@end
''' + ''.join(f'''//@fn Paragraph::{add[t]}
//@| ensures pv(r) == add(pv(self), ParagraphChild::{k}({bx(x, par[t])})),
//@end
''' for t, n, k, x in NEST) + '''//@fn BookmarkStart::new
//@| ensures r == (BookmarkStart { id, name: strv(name.chars()) }),
//@end
//@fn BookmarkEnd::new
//@| ensures r == (BookmarkEnd { id }),
//@end
//@fn Paragraph::add_bookmark_start
//@| ensures pv(r) == add(pv(self), ParagraphChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Paragraph::add_bookmark_end
//@| ensures pv(r) == add(pv(self), ParagraphChild::BookmarkEnd(BookmarkEnd { id })),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn Paragraph::add_comment_start ext
//@end
//@fn Paragraph::add_comment_end ext
//@end
pub open spec fn ids_ok(a: Seq<At>) -> bool { forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).n == "id"@ ==> parsed::<usize>(a[i].v) is Some }
pub open spec fn id_in(a: Seq<At>) -> Option<usize> { match last(a, "id"@) { Some(v) => parsed::<usize>(v), None => None } }
pub open spec fn bms_of(a: Seq<At>) -> Option<BookmarkStart> { match (id_in(a), last(a, "name"@)) { (Some(id), Some(n)) if ids_ok(a) => Some(BookmarkStart { id, name: strv(n) }), _ => None } }
pub open spec fn bme_of(a: Seq<At>) -> Option<BookmarkEnd> { match id_in(a) { Some(id) if ids_ok(a) => Some(BookmarkEnd { id }), _ => None } }
//@fn <BookmarkStart as ElementReader>::read r=out
//@| ensures bms_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkStart, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { reveal_strlit("id"); reveal_strlit("name"); assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), opt(name) == last(av(attrs@).take(it.index@ as int), "name"@), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); reveal_strlit("id"); reveal_strlit("name"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
//@fn <BookmarkEnd as ElementReader>::read r=out
//@| ensures bme_of(av(attrs@)) matches Some(b) ==> out == Ok::<BookmarkEnd, ReaderError>(b), final(_r).todo() == old(_r).todo(),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant id == id_in(av(attrs@).take(it.index@ as int)), _r.todo() == old(_r).todo(),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@ as int)); assert(s.take(it.index@ + 1).last() == s[it.index@ as int]); assert(s[it.index@ as int] == (At { n: a.name.local_name@, v: a.value@ })); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end

// ---- what reading the tokens of a paragraph gives
pub open spec fn rd(t: Seq<Tok>, x: Pn) -> Option<(Pn, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "pPr"@ { match nest_val::<ParagraphProperty>(e.a, t.skip(1)) { Some(y) => if y.1.len() < t.len() { rd(y.1, Pn { p: y.0, n: numbered(y.0), ..x }) } else { None }, None => None } }
            else if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkEnd(b))), None => None } }
''' + ''.join(f'''            else if e.n == "{n}"@ {{ match nest_val::<{t}>(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd(y.1, add(x, ParagraphChild::{k}({bx(x, 'y.0')}))) }} else {{ None }}, None => None }} }}
''' for t, n, k, x in NEST) + '''            else { None },
        Tok::Close(n) => if n == "p"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ { rd(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
/// A paragraph is read like one that starts with this, apart from its formatting.
pub open spec fn starts(x: Pn, a: Seq<At>) -> bool { x.c == Seq::<ParagraphChild>::empty() && !x.n && (first(a, "paraId"@) matches Some(v) ==> x.id == strv(v)) }
//@fn <Paragraph as ElementReader>::read r=out
//@| ensures exists |x: Pn| starts(x, av(attrs@)) && (#[trigger] rd(old(r).todo(), x) matches Some(y) ==> (out matches Ok(z) && pv(z) == y.0) && final(r).todo() == y.1),
//@sub `pr.numbering_property.is_some()` => `vx_numbered(&pr)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_x = pv(p); let ghost vx_g = rd(r.todo(), pv(p)); assert(starts(vx_x, av(attrs@)));
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), vx_x), starts(vx_x, av(attrs@)), vx_g is Some ==> rd(r.todo(), pv(p)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }

// ---- a paragraph read from what was written for it is the paragraph that was written
/// What has its own content is written between its tags and read back (runs: theorem_run_content, formatting: theorem_paragraph_formatting).
pub open spec fn lasting<T>(v: T, n: Seq<char>) -> bool { exists |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b) }
pub open spec fn laid<T>(v: T, n: Seq<char>, a: Seq<At>, b: Seq<Tok>) -> bool { nest_toks(v) == seq![Tok::Open(El { n, a })] + b && forall |rest: Seq<Tok>| #[trigger] nest_val::<T>(a, b + rest) == Some((v, rest)) }
pub open spec fn settled(c: ParagraphChild) -> bool {
    match c {
        ParagraphChild::BookmarkStart(b) => seen(b.name@) == b.name@,
        ParagraphChild::BookmarkEnd(b) => true,
''' + ''.join(f'        ParagraphChild::{k}(b) => lasting({"*b" if x else "b"}, "{n}"@),\n' for t, n, k, x in NEST) + '''        _ => false,
    }
}
pub open spec fn toks(c: ParagraphChild) -> Seq<Tok> { kid_onto(c, Seq::empty()) }
pub open spec fn all_toks(c: Seq<ParagraphChild>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { Seq::empty() } else { toks(c[0]) + all_toks(c.skip(1)) } }
proof fn lemma_kids(c: Seq<ParagraphChild>, log: Seq<Tok>) ensures kids_onto(c, log) == log + all_toks(c) decreases c.len()
{
    if c.len() == 0 { assert(log + all_toks(c) =~= log); } else {
        assert(kid_onto(c[0], log) =~= log + toks(c[0]));
        lemma_kids(c.skip(1), kid_onto(c[0], log));
        assert(log + toks(c[0]) + all_toks(c.skip(1)) =~= log + (toks(c[0]) + all_toks(c.skip(1))));
    }
}
proof fn lemma_one(e: El, rest: Seq<Tok>)
    ensures ({ let t = one(Seq::empty(), e) + rest; t.len() >= 2 && t[0] == Tok::Open(e) && t.skip(1).len() > 0 && t.skip(1)[0] == Tok::Close(e.n) && t.skip(1).skip(1) == rest })
{ let t = one(Seq::empty(), e) + rest; assert(t.skip(1).skip(1) =~= rest); }
proof fn lemma_nest<T>(v: T, n: Seq<char>, rest: Seq<Tok>) -> (a: Seq<At>)
    requires lasting(v, n) ensures ({ let t = Seq::<Tok>::empty() + nest_toks(v) + rest; t.len() > 0 && t[0] == Tok::Open(El { n, a }) && nest_val::<T>(a, t.skip(1)) == Some((v, rest)) && rest.len() < t.len() })
{
    let (a, b) = choose |a: Seq<At>, b: Seq<Tok>| #![trigger laid(v, n, a, b)] laid(v, n, a, b);
    let t = Seq::<Tok>::empty() + nest_toks(v) + rest; assert(t =~= seq![Tok::Open(El { n, a })] + (b + rest)); assert(t.skip(1) =~= b + rest); a
}
proof fn lemma_bookmark_end(e: BookmarkEnd) ensures bme_of(bme_el(e).a) == Some(e)
{ broadcast use nums::usize_back; reveal_with_fuel(last, 3); assert(bme_el(e).a.last().v == shown(e.id)@); }
proof fn lemma_bookmark_start(s: BookmarkStart) requires seen(s.name@) == s.name@ ensures bms_of(bms_el(s).a) == Some(s)
{
    broadcast use nums::usize_back;
    reveal_strlit("id"); reveal_strlit("name"); reveal_with_fuel(last, 3);
    let z = Seq::<At>::empty(); let x = At { n: "id"@, v: seen(shown(s.id)@) }; let y = At { n: "name"@, v: seen(s.name@) };
    assert(z.push(x).push(y).drop_last() =~= z.push(x)); assert(bms_el(s).a =~= z.push(x).push(y));
}
proof fn lemma_kid(c: ParagraphChild, rest: Seq<Tok>, x: Pn)
    requires settled(c) ensures rd(toks(c) + rest, x) == rd(rest, add(x, c))
{
    lits(); reveal_with_fuel(rd, 3); let t = toks(c) + rest;
    match c {
        ParagraphChild::BookmarkStart(b) => { lemma_one(bms_el(b), rest); lemma_bookmark_start(b); }
        ParagraphChild::BookmarkEnd(b) => { lemma_one(bme_el(b), rest); lemma_bookmark_end(b); }
''' + ''.join(f'        ParagraphChild::{k}(b) => {{ let a = lemma_nest({"*b" if x else "b"}, "{n}"@, rest); }}\n' for t, n, k, x in NEST) + '''        _ => {}
    }
}
proof fn lemma_all(c: Seq<ParagraphChild>, rest: Seq<Tok>, x: Pn)
    requires forall |i: int| 0 <= i < c.len() ==> settled(#[trigger] c[i])
    ensures rd(all_toks(c) + rest, x) == rd(rest, Pn { c: x.c + c, ..x }) decreases c.len()
{
    if c.len() == 0 { assert(all_toks(c) + rest =~= rest); assert(x.c + c =~= x.c); } else {
        assert(settled(c[0]));
        assert forall |i: int| 0 <= i < c.skip(1).len() implies settled(#[trigger] c.skip(1)[i]) by { assert(c.skip(1)[i] == c[i + 1]); }
        assert(all_toks(c) + rest =~= toks(c[0]) + (all_toks(c.skip(1)) + rest));
        lemma_kid(c[0], all_toks(c.skip(1)) + rest, x);
        lemma_all(c.skip(1), rest, add(x, c[0]));
        assert(add(x, c[0]).c + c.skip(1) =~= x.c + c);
    }
}
/// Whatever follows the paragraph, reading what was written for it gives the same identifier, formatting and content in the same order.
proof fn theorem_paragraph_content(x: Paragraph, log: Seq<Tok>, rest: Seq<Tok>, s: Pn)
    requires lasting(x.property, "pPr"@), x.has_numbering == numbered(x.property), seen(x.id@) == x.id@, starts(s, p_el(x).a),
        forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| para_onto(x, log) == log.push(Tok::Open(p_el(x))) + b && #[trigger] rd(b + rest, s) == Some((pv(x), rest))
{
    lits(); let c = x.children@; let e = Tok::Close("p"@); let b = (nest_toks(x.property) + all_toks(c)).push(e);
    lemma_kids(c, log.push(Tok::Open(p_el(x))) + nest_toks(x.property));
    assert(para_onto(x, log) =~= log.push(Tok::Open(p_el(x))) + b);
    let tail = seq![e] + rest; let m = all_toks(c) + tail; let t = b + rest;
    let a = lemma_nest(x.property, "pPr"@, m);
    assert(t =~= Seq::<Tok>::empty() + nest_toks(x.property) + m);
    let y = Pn { p: x.property, n: x.has_numbering, ..s };
    assert(rd(t, s) == rd(m, y)) by { reveal_with_fuel(rd, 2); }
    lemma_all(c, tail, y);
    assert(Seq::<ParagraphChild>::empty() + c =~= c); assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(s.id == x.id) by { let w = p_el(x).a; assert(w[0].n == "paraId"@); assert(first(w, "paraId"@) == Some(seen(x.id@))); }
    assert(rd(tail, pv(x)) == Some((pv(x), rest))) by { reveal_with_fuel(rd, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
