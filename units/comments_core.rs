// Comments: the collector, the thread entries, and what update_dependencies leaves in the document.
// TRUSTED: filter_map over a vector calls the closure once per element, in order, and keeps the results.
/// Results of the calls that gave one, in order.
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T> decreases o.len() {
    if o.len() == 0 { Seq::<T>::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } }
}
/// The map built from pairs in order; a later pair replaces an earlier one.
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::<K, V>::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
broadcast proof fn lemma_somes_ext<T>(o: Seq<Option<T>>, p: Seq<Option<T>>)
    requires o =~= p
    ensures #[trigger] somes(o) == #[trigger] somes(p)
{}
pub trait VxCollect<U>: Sized { spec fn holds(&self, s: Seq<U>) -> bool; }
impl<U> VxCollect<U> for Vec<U> { open spec fn holds(&self, s: Seq<U>) -> bool { self@ == s } }
impl<K, V> VxCollect<(K, V)> for PlainMap<K, V> { open spec fn holds(&self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) } }
pub open spec fn outcomes<T, U, F: Fn(&T) -> Option<U>>(v: Seq<T>, f: F, o: Seq<Option<U>>) -> bool { o.len() == v.len() && forall |i: int| 0 <= i < v.len() ==> call_ensures(f, (&v[i],), #[trigger] o[i]) }
#[verifier::external_body]
pub fn vx_filter_collect<T, U, C: VxCollect<U>, F: Fn(&T) -> Option<U>>(v: &Vec<T>, f: F) -> (r: C)
    requires forall |i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures exists |o: Seq<Option<U>>| #[trigger] outcomes(v@, f, o) && r.holds(somes(o))
{ unimplemented!() }
// TRUSTED: a clone is the same value.
#[verifier::external_body]
pub fn vx_copy<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn vx_rfind_map<T, U, F: Fn(&T) -> Option<U>>(v: &Vec<T>, f: F) -> (r: Option<U>)
    requires forall |i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures exists |o: Seq<Option<U>>| #![auto] o.len() == v@.len() && (forall |i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), o[i])) && r == last_some(o)
{ v.iter().rev().find_map(|x| f(x)) }
pub open spec fn last_some<T>(o: Seq<Option<T>>) -> Option<T> decreases o.len() {
    if o.len() == 0 { None } else if o.last() is Some { o.last() } else { last_some(o.drop_last()) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct PlainSet<K> { m: std::collections::HashSet<K> }
impl<K> PlainSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
}
/// Id of the last paragraph among the children.
pub open spec fn last_par(c: Seq<CommentChild>) -> Option<String> decreases c.len() {
    if c.len() == 0 { None } else { match c.last() { CommentChild::Paragraph(p) => Some(p.id), CommentChild::Table(_) => last_par(c.drop_last()) } }
}
pub open spec fn par_of(c: CommentChild) -> Option<String> { match c { CommentChild::Paragraph(p) => Some(p.id), CommentChild::Table(_) => None } }
broadcast proof fn lemma_last_par(c: Seq<CommentChild>, o: Seq<Option<String>>)
    requires o.len() == c.len(), forall |i: int| 0 <= i < c.len() ==> #[trigger] o[i] == par_of(c[i])
    ensures #[trigger] last_some(o) == #[trigger] last_par(c)
    decreases c.len()
{
    if c.len() > 0 { assert(o[c.len() - 1] == par_of(c[c.len() - 1])); lemma_last_par(c.drop_last(), o.drop_last()); }
}
//@fn documents/mod.rs::last_paragraph_id
//@| ensures r == last_par(comment.children@),
//@sub `comment~~.children~~.iter()~~.rev()~~.find_map(` => `vx_rfind_map(&comment.children, `
//@sub `paragraph.id.clone()` => `vx_copy(&paragraph.id)`
//@sub `|child|` => `|child: &CommentChild|`
//@closure 0
//@| -> (o: Option<String>) ensures o == par_of(*child)
//@at start
//@| broadcast use lemma_last_par;
//@end
/// Pairs of comment id and last paragraph id.
pub open spec fn key_of(c: Comment) -> Option<(usize, String)> { match last_par(c.children@) { Some(s) => Some((c.id, s)), None => None } }
pub open spec fn keys_of(c: Seq<Comment>) -> Seq<(usize, String)> { somes(c.map_values(|x: Comment| key_of(x))) }
pub open spec fn par_by_id(c: Seq<Comment>) -> Map<usize, String> { map_of(keys_of(c)) }
/// The thread entry of a comment, given the last paragraph of every comment.
pub open spec fn entry_of(c: Comment, m: Map<usize, String>) -> Option<CommentExtended> {
    if !m.contains_key(c.id) { None } else {
        match c.parent_comment_id {
            None => Some(CommentExtended { paragraph_id: m[c.id], done: false, parent_paragraph_id: None }),
            Some(p) => if m.contains_key(p) { Some(CommentExtended { paragraph_id: m[c.id], done: false, parent_paragraph_id: Some(m[p]) }) } else { None },
        }
    }
}
pub open spec fn entries_of(c: Seq<Comment>, m: Map<usize, String>) -> Seq<CommentExtended> { somes(c.map_values(|x: Comment| entry_of(x, m))) }
//@fn CommentExtended::new
//@| ensures r == (CommentExtended { paragraph_id: paragraph_id, done: false, parent_paragraph_id: None }),
//@sub `impl Into<String>` => `String`
//@sub `.into()` => ``
//@end
//@fn CommentExtended::parent_paragraph_id
//@| ensures r == (CommentExtended { parent_paragraph_id: Some(id), ..self }),
//@sub `impl Into<String>` => `String`
//@sub `.into()` => ``
//@end
//@fn Comment::id
//@| ensures r == self.id,
//@end
//@fn CommentRangeStart::get_comment_ref
//@| ensures *r == self.comment,
//@end
//@fn CommentRangeStart::get_id
//@| ensures r == self.id,
//@end
//@fn CommentRangeStart::comment
//@| ensures *final(self) == (CommentRangeStart { comment: comment, ..*old(self) }),
//@end
//@fn CommentRangeStart::new
//@| ensures r.id == comment.id, r.comment == comment,
//@end
//@fn documents/mod.rs::create_comment_extended
//@| ensures r == entry_of(*comment, comment_map@),
//@sub `parent.clone()` => `vx_copy(parent)`
//@sub `comment_map.get(&comment.id())?.clone()` => `vx_copy(comment_map.get(&comment.id())?)`
//@sub `|parent|` => `|parent: &String|`
//@closure 0
//@| -> (o: CommentExtended) ensures o == (CommentExtended { parent_paragraph_id: Some(*parent), ..comment_extended })
//@end
//@fn Comments::add_comments
//@| ensures final(self).comments == comments,
//@end
//@fn CommentsExtended::add_comments_extended
//@| ensures final(self).children == c,
//@end
impl CommentCollector {
    /// The registered comments have distinct ids, and the ids are remembered.
    pub open spec fn wf(&self) -> bool { registry(self.comments@) && forall |n: usize| #[trigger] self.ids@.contains(n) <==> has_id(self.comments@, n) }
}
pub open spec fn has_id(c: Seq<Comment>, n: usize) -> bool { exists |i: int| 0 <= i < c.len() && (#[trigger] c[i]).id == n }
/// No two comments with one id.
pub open spec fn registry(c: Seq<Comment>) -> bool { forall |i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).id != (#[trigger] c[j]).id }
/// Events of comment ranges, in order, one per id.
pub open spec fn firsts(h: Seq<Ev>) -> Seq<Comment> decreases h.len() {
    if h.len() == 0 { Seq::<Comment>::empty() } else {
        let f = firsts(h.drop_last());
        match h.last() { Ev::Com(a, b) => if has_id(f, a.comment.id) { f } else { f.push(a.comment) }, _ => f }
    }
}
proof fn lemma_firsts(h: Seq<Ev>)
    ensures registry(firsts(h)), forall |i: int| 0 <= i < h.len() ==> ((#[trigger] h[i]) matches Ev::Com(a, b) ==> has_id(firsts(h), a.comment.id)),
        forall |j: int| 0 <= j < firsts(h).len() ==> exists |i: int| 0 <= i < h.len() && h[i] is Com && (#[trigger] h[i])->Com_0.comment == #[trigger] firsts(h)[j],
    decreases h.len()
{
    if h.len() > 0 {
        let p = h.drop_last(); let f = firsts(p); let g = firsts(h);
        lemma_firsts(p);
        assert forall |i: int| 0 <= i < h.len() implies ((#[trigger] h[i]) matches Ev::Com(a, b) ==> has_id(g, a.comment.id)) by {
            if i < p.len() { assert(p[i] == h[i]);
                if let Ev::Com(a, b) = h[i] { let k = choose |k: int| 0 <= k < f.len() && (#[trigger] f[k]).id == a.comment.id; assert(g[k] == f[k]); } }
            else { if let Ev::Com(a, b) = h[i] { if !has_id(f, a.comment.id) { assert(g[f.len() as int].id == a.comment.id); } } }
        }
        assert forall |j: int| 0 <= j < g.len() implies exists |i: int| 0 <= i < h.len() && h[i] is Com && (#[trigger] h[i])->Com_0.comment == #[trigger] g[j] by {
            if j < f.len() { assert(g[j] == f[j]); let i = choose |i: int| 0 <= i < p.len() && p[i] is Com && (#[trigger] p[i])->Com_0.comment == f[j]; assert(h[i] == p[i]); }
            else { assert(h[h.len() - 1] is Com); }
        }
    }
}
//@hooks CommentCollector DocumentTreeVisitor visit_comment_start
//@fn <CommentCollector as DocumentTreeVisitor>::visit_comment_start
//@| requires old(self).wf(),
//@| ensures final(self).wf(), *final(start) == *old(start),
//@|   has_id(old(self).comments@, old(start).comment.id) ==> final(self).comments@ == old(self).comments@,
//@|   !has_id(old(self).comments@, old(start).comment.id) ==> final(self).comments@ == old(self).comments@.push(old(start).comment),
//@sub `comment.clone()` => `vx_copy(comment)`
//@at start
//@| let ghost c0 = self.comments@;
//@at end
//@| proof { let c1 = self.comments@; assert forall |n: usize| #[trigger] self.ids@.contains(n) <==> has_id(c1, n) by {
//@|   if has_id(c0, n) { let i = choose |i: int| 0 <= i < c0.len() && (#[trigger] c0[i]).id == n; assert(c1[i].id == n); }
//@|   if has_id(c1, n) && !has_id(c0, n) { let i = choose |i: int| 0 <= i < c1.len() && (#[trigger] c1[i]).id == n; if i < c0.len() { assert(c0[i].id == n); } }
//@|   if n == start.comment.id && c1.len() > c0.len() { assert(c1[c0.len() as int].id == n); } } }
//@end
impl DocumentTreeVisitor for CommentCollector {
    type K = ();
    open spec fn readonly() -> bool { true }
    open spec fn fixed(&self) -> () { () }
    open spec fn ok(&self) -> bool { self.wf() }
    open spec fn inv(&self, h: Seq<Ev>) -> bool { self.comments@ == firsts(h) }
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
        let ghost s0 = *self;
        CommentCollector::visit_comment_start(self, start);
        proof { assert forall |h: Seq<Ev>| #[trigger] s0.inv(h) implies self.inv(h + seq![Ev::Com(*old(start), *start)]) by { assert((h + seq![Ev::Com(*old(start), *start)]).drop_last() =~= h); } }
    }
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) { proof { assert forall |h: Seq<Ev>| #[trigger] self.inv(h) implies self.inv(h + seq![Ev::Para(*paragraph)]) by { assert((h + seq![Ev::Para(*paragraph)]).drop_last() =~= h); } } }
    fn visit_run(&mut self, run: &mut Run) { proof { assert forall |h: Seq<Ev>| #[trigger] self.inv(h) implies self.inv(h + seq![Ev::Run(*run)]) by { assert((h + seq![Ev::Run(*run)]).drop_last() =~= h); } } }
    fn visit_picture(&mut self, picture: &mut Pic) { proof { assert forall |h: Seq<Ev>| #[trigger] self.inv(h) implies self.inv(h + seq![Ev::Pic(*picture, *picture)]) by { assert((h + seq![Ev::Pic(*picture, *picture)]).drop_last() =~= h); } } }
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) { proof { assert forall |h: Seq<Ev>| #[trigger] self.inv(h) implies self.inv(h + seq![Ev::Link(*link, link.link)]) by { assert((h + seq![Ev::Link(*link, link.link)]).drop_last() =~= h); } } }
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) { proof { assert forall |h: Seq<Ev>| #[trigger] self.inv(h) implies self.inv(h + seq![Ev::Foot(*reference)]) by { assert((h + seq![Ev::Foot(*reference)]).drop_last() =~= h); } } }
}
/// Every external hyperlink of the visit has a relationship with its final id that leads to its target.
pub open spec fn links_declared(h: Seq<Ev>, rels: Seq<(String, String, String)>) -> bool {
    forall |i: int| 0 <= i < h.len() ==> (match #[trigger] h[i] {
        Ev::Link(a, d) => match a.link {
            HyperlinkData::External { rid, path } => d matches HyperlinkData::External { rid: rid2, path: path2 } && path2@ == path@ && exists |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0@ == rid2@ && rels[k].1@ == path@,
            _ => d == a.link },
        _ => true })
}
/// The comments part holds every comment of the visit once, and every thread entry names the last paragraph
/// of its comment and of the parent of its comment.
pub open spec fn comments_stored(h: Seq<Ev>, a: Docx, b: Docx) -> bool {
    let c = firsts(h);
    if c.len() == 0 { b.comments == a.comments && b.comments_extended == a.comments_extended } else {
        b.comments.comments@ == c && b.comments_extended.children@ == entries_of(c, par_by_id(c)) && b.document_rels.has_comments
    }
}
pub open spec fn rel_ids_distinct(r: Seq<(String, String, String)>) -> bool { forall |i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@ }
pub open spec fn deps_done(a: Docx, b: Docx) -> bool {
    links_declared(ev_document(a.document, b.document), b.document_rels.hyperlinks@) && rel_ids_distinct(b.document_rels.hyperlinks@)
        && comments_stored(ev_document(b.document, b.document), a, b)
        && b == (Docx { document: b.document, document_rels: b.document_rels, comments: b.comments, comments_extended: b.comments_extended, ..a })
        && b.document_rels == (DocumentRels { hyperlinks: b.document_rels.hyperlinks, has_comments: b.document_rels.has_comments, ..a.document_rels })
}
//@fn Docx::update_dependencies
//@| requires rel_ids_distinct(old(self).document_rels.hyperlinks@),
//@| ensures deps_done(*old(self), *final(self)),
//@sub `(self.document_rels.hyperlinks, _) = hyperlinks.finish();` => `let vx_finished = hyperlinks.finish(); self.document_rels.hyperlinks = vx_finished.0;`
//@sub `CommentCollector::default()` => `CommentCollector { comments: Vec::new(), ids: PlainSet::new() }`
//@sub `comments~~.iter()~~.filter_map(` => `vx_filter_collect(&comments, `
//@sub `)~~.collect();` => `);`
//@sub `let comments_extended =` => `let comments_extended: Vec<CommentExtended> =`
//@sub `|comment|` => `|comment: &Comment|`
//@closure 0
//@| -> (o: Option<(usize, String)>) ensures o == key_of(*comment)
//@closure 1
//@| -> (o: Option<CommentExtended>) ensures o == entry_of(*comment, comment_map@)
//@at start
//@| let ghost s0 = *self;
//@before `visit_document(&mut self.document, &mut hyperlinks);`
//@| let ghost hc0 = hyperlinks;
//@after `visit_document(&mut self.document, &mut hyperlinks);`
//@| let ghost d1 = self.document; let ghost hc = hyperlinks; proof { lemma_from_empty(hc0, ev_document(s0.document, d1), hc);
//@|   assert forall |i: int| 0 <= i < ev_document(s0.document, d1).len() implies hc.linked(#[trigger] ev_document(s0.document, d1)[i]) by {} }
//@before `visit_document(&mut self.document, &mut collector);`
//@| let ghost cc0 = collector;
//@after `visit_document(&mut self.document, &mut collector);`
//@| let ghost h = ev_document(d1, self.document); proof { lemma_from_empty(cc0, h, collector); assert(links_declared(ev_document(s0.document, d1), self.document_rels.hyperlinks@)); }
//@before `return;`
//@| proof { assert(deps_done(s0, *self)); }
//@before `self.document_rels.has_comments = true;`
//@| broadcast use lemma_somes_ext;
//@| assert(comment_map@ == par_by_id(comments@)); assert(comments_extended@ == entries_of(comments@, comment_map@));
//@at end
//@| proof { assert(deps_done(s0, *self)); }
//@end
//@hooks CommentSetter DocumentTreeVisitor visit_comment_start
/// The comment of a range after reading: the one with its id, if there is one.
pub open spec fn set_from(m: Map<usize, &Comment>, a: CommentRangeStart) -> CommentRangeStart {
    if m.contains_key(a.id) { CommentRangeStart { comment: *m[a.id], ..a } } else { a }
}
/// Every comment range of the visit got its comment; nothing else changed.
pub open spec fn all_set(m: Map<usize, &Comment>, h: Seq<Ev>) -> bool {
    forall |i: int| 0 <= i < h.len() ==> (match #[trigger] h[i] { Ev::Com(a, b) => b == set_from(m, a), Ev::Pic(a, b) => a == b, Ev::Link(a, d) => d == a.link, _ => true })
}
//@fn <CommentSetter as DocumentTreeVisitor>::visit_comment_start
//@| ensures *final(self) == *old(self), *final(start) == set_from(old(self).comments_by_id@, *old(start)),
//@sub `comment.clone()` => `vx_copy(comment)`
//@end
impl<'a> DocumentTreeVisitor for CommentSetter<'a> {
    open spec fn readonly() -> bool { false }
    type K = Map<usize, &'a Comment>;
    open spec fn fixed(&self) -> Map<usize, &'a Comment> { self.comments_by_id@ }
    open spec fn ok(&self) -> bool { true }
    open spec fn inv(&self, h: Seq<Ev>) -> bool { all_set(self.comments_by_id@, h) }
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) { CommentSetter::visit_comment_start(self, start); }
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {}
    fn visit_run(&mut self, run: &mut Run) {}
    fn visit_picture(&mut self, picture: &mut Pic) {}
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {}
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {}
}
// TRUSTED: map over a slice calls the closure once per element, in order.
#[verifier::external_body]
pub fn vx_map_collect<'a, T, K, V, F: Fn(&'a T) -> (K, V)>(v: &'a [T], f: F) -> (r: PlainMap<K, V>)
    requires forall |i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures exists |o: Seq<(K, V)>| #![auto] o.len() == v@.len() && (forall |i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), o[i])) && r@ == map_of(o)
{ unimplemented!() }
broadcast proof fn lemma_map_ext<K, V>(o: Seq<(K, V)>, p: Seq<(K, V)>)
    requires o =~= p
    ensures #[trigger] map_of(o) == #[trigger] map_of(p)
{}
/// The comments of the comments part by id.
pub open spec fn by_id<'a>(c: Seq<Comment>) -> Map<usize, &'a Comment> { map_of(c.map_values(|x: Comment| (x.id, &x))) }
//@fn Docx::store_comments
//@| ensures all_set(by_id(comments@), ev_document(old(self).document, final(self).document)),
//@|   comments@.len() > 0 ==> final(self).document_rels.has_comments,
//@sub `visit_document(&mut self.document, &mut CommentSetter { comments_by_id });` => `let mut setter = CommentSetter { comments_by_id }; let ghost t0 = setter; visit_document(&mut self.document, &mut setter); proof { lemma_from_empty(t0, ev_document(s0.document, self.document), setter); }`
//@sub `comments~~.iter()~~.map(` => `vx_map_collect(comments, `
//@sub `)~~.collect();` => `); assert(comments_by_id@ == by_id(comments@));`
//@sub `|comment|` => `|comment: &'a Comment|`
//@sub `comments: &[Comment]` => `comments: &'a [Comment]`
//@sub `fn store_comments(` => `fn store_comments<'a>(`
//@closure 0
//@| -> (o: (usize, &'a Comment)) ensures o == (comment.id, comment)
//@at start
//@| broadcast use lemma_map_ext; let ghost s0 = *self;
//@end
/// Meaning of the thread map: with distinct ids, every comment that has a paragraph is found under its id.
proof fn lemma_par_by_id(c: Seq<Comment>)
    requires registry(c)
    ensures forall |i: int| 0 <= i < c.len() && last_par((#[trigger] c[i]).children@) is Some ==> par_by_id(c).contains_key(c[i].id) && par_by_id(c)[c[i].id] == last_par(c[i].children@)->Some_0,
        forall |n: usize| #[trigger] par_by_id(c).contains_key(n) ==> has_id(c, n),
    decreases c.len()
{
    let f = |x: Comment| key_of(x);
    if c.len() > 0 {
        let p = c.drop_last(); let l = c.last();
        assert forall |i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).id != (#[trigger] p[j]).id by { assert(c[i] == p[i]); assert(c[j] == p[j]); }
        lemma_par_by_id(p);
        assert(c.map_values(f).drop_last() =~= p.map_values(f));
        let kp = keys_of(p);
        if key_of(l) is Some { assert(keys_of(c) == kp.push(key_of(l)->Some_0)); assert(kp.push(key_of(l)->Some_0).drop_last() =~= kp); } else { assert(keys_of(c) == kp); }
        assert forall |i: int| 0 <= i < c.len() && last_par((#[trigger] c[i]).children@) is Some implies par_by_id(c).contains_key(c[i].id) && par_by_id(c)[c[i].id] == last_par(c[i].children@)->Some_0 by {
            if i < p.len() { assert(p[i] == c[i]); assert(c[c.len() - 1].id != c[i].id); }
        }
        assert forall |n: usize| #[trigger] par_by_id(c).contains_key(n) implies has_id(c, n) by {
            if key_of(l) is Some && n == l.id { assert(c[c.len() - 1].id == n); } else { assert(par_by_id(p).contains_key(n)); let i = choose |i: int| 0 <= i < p.len() && (#[trigger] p[i]).id == n; assert(c[i] == p[i]); }
        }
    } else { assert(c.map_values(f) =~= Seq::<Option<(usize, String)>>::empty()); }
}
