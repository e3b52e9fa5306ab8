"""Writes the units about the content of hyperlinks (li_spec, li_write, li_read) from those about paragraphs."""
import os
U = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')
rd = lambda n: open(os.path.join(U, n)).read()
def wr(n, s): open(os.path.join(U, n), 'w').write(s)
ps, pw, pr, rw, cw = rd('pc_spec.rs'), rd('pc_write.rs'), rd('pc_read.rs'), rd('rt_write.rs'), rd('cu_write.rs')
def cut(s, a, b):
    i = s.index(a); return s[i:s.index(b, i)]
NAMES = 'w:hyperlink w:bookmarkStart w:bookmarkEnd w:id r:id w:name w:anchor w:history'.split()
NEST = [('Run', 'r', 1), ('Insert', 'ins', 0), ('Delete', 'del', 0)]
wr('li_spec.rs', '// What a hyperlink looks like in a part.\n' + cut(ps, '/// What anything that has', 'pub open spec fn p_el') + '''pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
pub open spec fn hist(h: Option<usize>) -> usize { match h { Some(n) => n, None => 1 } }
pub open spec fn rid_of(l: HyperlinkData) -> Option<Seq<char>> { match l { HyperlinkData::External { rid, .. } => Some(rid@), _ => None } }
pub open spec fn anchor_of(l: HyperlinkData) -> Option<Seq<char>> { match l { HyperlinkData::Anchor { anchor } => Some(escaped(anchor@)), _ => None } }
pub open spec fn link_at(r: Option<Seq<char>>, a: Option<Seq<char>>, h: usize) -> Seq<At> { ats(with(with(Seq::empty(), "id"@, r), "anchor"@, a), "history"@, shown(h)@) }
pub open spec fn link_el(x: Hyperlink) -> El { El { n: "hyperlink"@, a: link_at(rid_of(x.link), anchor_of(x.link), hist(x.history)) } }
pub open spec fn link_onto(x: Hyperlink, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, log.push(Tok::Open(link_el(x)))).push(Tok::Close("hyperlink"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures ''' + ', '.join('local("%s"@) == "%s"@' % (n, n.split(':')[1]) for n in NAMES) + '''
{ ''' + ' '.join('reveal_strlit("%s"); reveal_strlit("%s"); assert(local("%s"@) =~= "%s"@);' % (n, n.split(':')[1], n, n.split(':')[1]) for n in NAMES) + ''' }
//@item Hyperlink
//@item HyperlinkData
''' + ps[ps.index('//@item ParagraphChild'):].replace('#[verifier::external_body] pub struct Hyperlink { x: u8 }\n', ''))
wr('li_write.rs', cut(pw, '//@include prelude.rs', '#[verifier::external_body] pub struct ParagraphProperty').replace('pc_spec', 'li_spec') + cut(cw, '/// An element was opened.', '//@fn XMLBuilder::open_custom_properties') + '''//@fn XMLBuilder::open_hyperlink
//@| ensures opened(self, r, El { n: "hyperlink"@, a: link_at(txt_of(rid), txt_of(anchor), hist(history)) }),
//@at start
//@| proof { names(); }
//@end
pub open spec fn txt_of(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
''' + cut(rw, '//@fn XMLBuilder::apply\n', '//@fn XMLBuilder::apply_opt') + '''// TRUSTED here: what escaping gives is a function of the text (unit escape).
//@fn escape/mod.rs::escape ext
//@| ensures r@ == escaped(text@),
//@end
''' + cut(pw, '//@fn XMLBuilder::bookmark_start', 'impl BuildXML for ParagraphProperty') + cut(pw, 'impl<T: BuildXML> BuildXML for Box<T>', '//@fn <Paragraph as BuildXML>') + '''//@fn <Hyperlink as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == link_onto(*self, stream.log()) && w.open() == stream.open(),
//@closure 0
//@| -> (o: Result<XMLBuilder<W>>) ensures opened(b, o, link_el(*self))
//@at start
//@| proof { lemma_all(self.children@, stream.log().push(Tok::Open(link_el(*self)))); assert(stream.open().push("hyperlink"@).drop_last() =~= stream.open()); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
EL = {'hyperlink': 'Hyperlink', 'bookmarkStart': 'BookmarkStart', 'bookmarkEnd': 'BookmarkEnd', 'r': 'Run', 'ins': 'Insert', 'del': 'Delete'}
ck = ' else '.join(f'if n == "{n}"@ {{ Some(XMLElement::{t}) }}' for n, t in EL.items()) + ' else { None }'
rev = ' '.join(f'reveal_strlit("{n}");' for n in EL)
def diffs(L):
    ex = []
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if len(a) == len(b):
                k = next(j for j in range(len(a)) if a[j] != b[j]); ex.append(f'assert("{a}"@[{k}] != "{b}"@[{k}]);')
    return ' '.join(f'reveal_strlit("{a}");' for a in L) + ' ' + ' '.join(ex)
LITS = list(EL)
bx = lambda x, e: f'Box::new({e})' if x else e
add = {'Run': ('add_run', 'run'), 'Insert': ('add_insert', 'insert'), 'Delete': ('add_delete', 'delete')}
theorem = cut(pr, '/// What has its own content is written between', '/// Whatever follows the paragraph').replace('Pn', 'Hv').replace('(runs: theorem_run_content, formatting: theorem_paragraph_formatting)', '(runs: theorem_run_content, tracked changes: theorem_tracked_ins and _del)')
import re
theorem = re.sub(r'        ParagraphChild::(MoveFrom|MoveTo|Hyperlink)\(b\) => .*\n', '', theorem)
wr('li_read.rs', cut(pr, '//@include prelude.rs', '#[verifier::opaque] pub open spec fn ck').replace('pc_spec', 'li_spec') + f'''#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {{ {ck} }}
proof fn cks() ensures {', '.join(f'ck("{n}"@) == Some(XMLElement::{t})' for n, t in EL.items())} {{ reveal(ck); {diffs(LITS)} }}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof {{ reveal(ck); {rev} }}
//@end
//@fn reader/ignore.rs::ignore_element ext
//@end
/// What reading anything that has its own content gives, from its attributes and what follows its start.
pub uninterp spec fn nest_val<T>(a: Seq<At>, t: Seq<Tok>) -> Option<(T, Seq<Tok>)>;
''' + ''.join(f'''//@fn <{t} as ElementReader>::read ext r=out
//@| ensures nest_val::<{t}>(av({'_attrs' if t == 'Run' else 'attrs'}@), old(r).todo()) matches Some(x) ==> (out == Ok::<{t}, ReaderError>(x.0) && final(r).todo() == x.1),
//@end
''' for t, _, _ in NEST) + '''
pub struct Hv { pub l: HyperlinkData, pub h: Option<usize>, pub c: Seq<ParagraphChild> }
pub open spec fn hv(x: Hyperlink) -> Hv { Hv { l: x.link, h: x.history, c: x.children@ } }
pub open spec fn add(x: Hv, c: ParagraphChild) -> Hv { Hv { c: x.c.push(c), ..x } }
''' + ''.join(f'''//@fn Hyperlink::{add[t][0]}
//@| ensures hv(r) == add(hv(self), ParagraphChild::{t}({bx(x, add[t][1])})),
//@end
''' for t, n, x in NEST) + cut(pr, '//@fn BookmarkStart::new', '//@fn Paragraph::add_bookmark_start') + '''//@fn Hyperlink::add_bookmark_start
//@| ensures hv(r) == add(hv(self), ParagraphChild::BookmarkStart(BookmarkStart { id, name: strv(name.chars()) })),
//@end
//@fn Hyperlink::add_bookmark_end
//@| ensures hv(r) == add(hv(self), ParagraphChild::BookmarkEnd(BookmarkEnd { id })),
//@end
#[verifier::external_body] pub struct Comment { x: u8 }
//@fn Comment::new ext
//@end
//@fn Hyperlink::add_comment_start ext
//@end
//@fn Hyperlink::add_comment_end ext
//@end
''' + cut(pr, 'pub open spec fn ids_ok', '// ---- what reading the tokens') + '''// ---- what reading the tokens of a hyperlink gives
pub open spec fn num_of(v: Seq<char>) -> usize { match parsed::<usize>(v) { Some(n) => n, None => 1 } }
pub open spec fn init(a: Seq<At>) -> Hv { Hv {
    l: match first(a, "anchor"@) { Some(v) => HyperlinkData::Anchor { anchor: strv(v) }, None => HyperlinkData::External { rid: match first(a, "id"@) { Some(v) => strv(v), None => strv(Seq::empty()) }, path: strv(Seq::empty()) } },
    h: match first(a, "history"@) { Some(v) => Some(num_of(v)), None => None }, c: Seq::empty() } }
pub open spec fn rd(t: Seq<Tok>, x: Hv) -> Option<(Hv, Seq<Tok>)> decreases t.len()
{
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) =>
            if e.n == "bookmarkStart"@ { match bms_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkStart(b))), None => None } }
            else if e.n == "bookmarkEnd"@ { match bme_of(e.a) { Some(b) => rd(t.skip(1), add(x, ParagraphChild::BookmarkEnd(b))), None => None } }
''' + ''.join(f'''            else if e.n == "{n}"@ {{ match nest_val::<{t}>(e.a, t.skip(1)) {{ Some(y) => if y.1.len() < t.len() {{ rd(y.1, add(x, ParagraphChild::{t}({bx(x, 'y.0')}))) }} else {{ None }}, None => None }} }}
''' for t, n, x in NEST) + '''            else { None },
        Tok::Close(n) => if n == "hyperlink"@ { Some((x, t.skip(1))) } else if n == "bookmarkStart"@ || n == "bookmarkEnd"@ { rd(t.skip(1), x) } else { None },
        Tok::Chars(_) => None,
    } }
}
// TRUSTED: an absent text is taken as the empty text; so is the default text; an unreadable number as the one given.
#[verifier::external_body] fn vx_or_empty(s: Option<String>) -> (r: String) ensures r@ == (match s { Some(s) => s@, None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body] fn vx_or(s: Result<usize, VxNumErr>, n: usize) -> (r: usize) ensures r == (match s { Ok(s) => s, Err(_) => n }) { unimplemented!() }
#[verifier::external_body] fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
//@fn <Hyperlink as ElementReader>::read r=out
//@| ensures rd(old(r).todo(), init(av(attrs@))) matches Some(y) ==> (out matches Ok(z) && hv(z) == y.0) && final(r).todo() == y.1,
//@sub `rid.take().unwrap_or_default()` => `vx_or_empty(rid.take())`
//@sub `String::default()` => `vx_empty()`
//@sub `usize::from_str(&h).unwrap_or(1)` => `vx_or(vx_parse::<usize>(&h), 1)`
//@sub `usize::from_str(&id)` => `vx_parse::<usize>(&id)`
//@closure 0
//@| -> (o: usize) ensures o == num_of(h@)
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@before `loop {`
//@| let ghost vx_g = rd(r.todo(), init(av(attrs@))); assert(hv(link) == init(av(attrs@)));
//@loop 0
//@| invariant vx_g == rd(old(r).todo(), init(av(attrs@))), vx_g is Some ==> rd(r.todo(), hv(link)) == vx_g,
//@loopstart 0
//@| proof { cks(); lits(); reveal_with_fuel(rd, 2); }
//@end
proof fn lits() ensures ''' + ', '.join(f'"{a}"@ != "{b}"@' for i, a in enumerate(LITS) for b in LITS[i + 1:]) + '''
{ ''' + diffs(LITS) + ''' }

// ---- a hyperlink read from what was written for it is the hyperlink that was written
''' + theorem + '''/// The target and the name of the relationship survive escaping and attribute reading.
pub open spec fn kept(l: HyperlinkData) -> bool { match l { HyperlinkData::Anchor { anchor } => seen(escaped(anchor@)) == anchor@, HyperlinkData::External { rid, .. } => seen(rid@) == rid@ } }
/// What is in the link's own element: the target lies in the relationships; history defaults to one.
pub open spec fn shows(x: Hyperlink) -> Hv { Hv { l: match x.link { HyperlinkData::Anchor { anchor } => x.link, HyperlinkData::External { rid, .. } => HyperlinkData::External { rid, path: strv(Seq::empty()) } }, h: Some(hist(x.history)), c: x.children@ } }
proof fn lemma_init(x: Hyperlink) requires kept(x.link) ensures init(link_el(x).a) == (Hv { c: Seq::empty(), ..shows(x) })
{
    broadcast use nums::usize_back; reveal_strlit("id"); reveal_strlit("anchor"); reveal_strlit("history"); reveal_with_fuel(first, 3);
    let n = hist(x.history); let a = link_el(x).a; let z = Seq::<At>::empty(); let k = At { n: "history"@, v: seen(shown(n)@) };
    assert(seen(shown_of(&n)@) == shown_of(&n)@); assert("id"@ != "anchor"@ && "id"@ != "history"@ && "anchor"@ != "history"@);
    match x.link {
        HyperlinkData::Anchor { anchor } => { let q = At { n: "anchor"@, v: seen(escaped(anchor@)) }; assert(a =~= z.push(q).push(k)); assert(a[0] == q); assert(a.skip(1)[0] == k); assert(a.skip(1).skip(1).len() == 0); assert(strv(anchor@) == anchor); }
        HyperlinkData::External { rid, .. } => { let q = At { n: "id"@, v: seen(rid@) }; assert(a =~= z.push(q).push(k)); assert(a[0] == q); assert(a.skip(1)[0] == k); assert(a.skip(1).skip(1).len() == 0); assert(strv(rid@) == rid); }
    }
}
/// Whatever follows the hyperlink, reading what was written for it gives the same target and content in the same order.
proof fn theorem_hyperlink_content(x: Hyperlink, log: Seq<Tok>, rest: Seq<Tok>)
    requires kept(x.link), forall |i: int| 0 <= i < x.children@.len() ==> settled(#[trigger] x.children@[i])
    ensures exists |b: Seq<Tok>| link_onto(x, log) == log.push(Tok::Open(link_el(x))) + b && #[trigger] rd(b + rest, init(link_el(x).a)) == Some((shows(x), rest))
{
    lits(); let c = x.children@; let e = Tok::Close("hyperlink"@); let b = all_toks(c).push(e); let h = log.push(Tok::Open(link_el(x)));
    lemma_kids(c, h); assert(link_onto(x, log) =~= h + b); lemma_init(x);
    let tail = seq![e] + rest; let s = init(link_el(x).a); assert(b + rest =~= all_toks(c) + tail);
    lemma_all(c, tail, s); assert(s.c + c =~= c);
    assert(tail[0] == e); assert(tail.skip(1) =~= rest);
    assert(rd(tail, shows(x)) == Some((shows(x), rest))) by { reveal_with_fuel(rd, 2); }
}
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
