// Hyperlink relationships: the collector's invariant, its hook, and what a finished collector holds.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct PairMap<V> { m: std::collections::HashMap<(String, String), V> }
impl<V> PairMap<V> {
    pub uninterp spec fn view(&self) -> Map<(Seq<char>, Seq<char>), V>;
    #[verifier::external_body] pub fn get(&self, k: &(String, String)) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key((k.0@, k.1@)), r matches Some(v) ==> *v == self@[(k.0@, k.1@)] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: (String, String), v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert((k.0@, k.1@), v) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_suffixed(id: &str, n: &usize) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_inc(n: usize) -> (r: usize) { unimplemented!() }
impl HyperlinkCollector {
    /// Relationship ids are distinct and taken; a remembered link has a relationship with its id and target.
    pub open spec fn wf(&self) -> bool {
        &&& forall |i: int| 0 <= i < self.relationships@.len() ==> self.relationship_ids@.contains((#[trigger] self.relationships@[i]).0@)
        &&& forall |i: int, j: int| 0 <= i < j < self.relationships@.len() ==> (#[trigger] self.relationships@[i]).0@ != (#[trigger] self.relationships@[j]).0@
        &&& forall |k: (Seq<char>, Seq<char>)| #[trigger] self.id_by_link@.contains_key(k) ==> self.declared(self.id_by_link@[k]@, k.1)
    }
    /// The part has a relationship with this id that leads to this target.
    pub open spec fn declared(&self, id: Seq<char>, path: Seq<char>) -> bool {
        exists |i: int| 0 <= i < self.relationships@.len() && (#[trigger] self.relationships@[i]).0@ == id && self.relationships@[i].1@ == path
    }
}
broadcast proof fn lemma_declared(a: HyperlinkCollector, b: HyperlinkCollector, id: Seq<char>, path: Seq<char>)
    requires #[trigger] a.declared(id, path), a.relationships@.is_prefix_of(b.relationships@)
    ensures #[trigger] b.declared(id, path)
{
    let i = choose |i: int| 0 <= i < a.relationships@.len() && (#[trigger] a.relationships@[i]).0@ == id && a.relationships@[i].1@ == path;
    assert(b.relationships@[i] == a.relationships@[i]);
}
//@fn <HyperlinkCollector as DocumentTreeVisitor>::visit_hyperlink
//@| requires old(self).wf(),
//@| ensures final(self).wf(), old(self).relationships@.is_prefix_of(final(self).relationships@), old(self).relationship_ids@.subset_of(final(self).relationship_ids@),
//@|   final(self).relationships@.len() <= old(self).relationships@.len() + 1,
//@|   final(self).relationships@.len() > old(self).relationships@.len() ==> !old(self).relationship_ids@.contains(final(self).relationships@.last().0@) && final(self).relationships@.last().2@ == "External"@,
//@|   match old(link).link {
//@|     HyperlinkData::External { rid, path } => final(link).link matches HyperlinkData::External { rid: rid2, path: path2 } && path2@ == path@ && final(self).declared(rid2@, path@),
//@|     _ => final(link).link == old(link).link },
//@|   *final(link) == (Hyperlink { link: final(link).link, ..*old(link) }),
//@sub `format!("{}_{suffix}", link.0)` => `vx_suffixed(&link.0, &suffix)`
//@sub `suffix += 1;` => `suffix = vx_inc(suffix);`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::loop_isolation(false)]
//@at start
//@| let ghost s0 = *self;
//@loop 0
//@| invariant true,
//@at end
//@| proof { let n = self.relationships@.len() - 1; assert(self.relationships@[n].0@ == rid@); assert(self.declared(rid@, path@));
//@|   assert forall |k: (Seq<char>, Seq<char>)| #[trigger] s0.id_by_link@.contains_key(k) implies self.declared(s0.id_by_link@[k]@, k.1) by { lemma_declared(s0, *self, s0.id_by_link@[k]@, k.1); } }
//@end
//@hooks HyperlinkCollector DocumentTreeVisitor visit_hyperlink
//@fn HyperlinkCollector::new
//@| requires forall |i: int, j: int| 0 <= i < j < relationships@.len() ==> (#[trigger] relationships@[i]).0@ != (#[trigger] relationships@[j]).0@,
//@| ensures r.wf(), r.relationships == relationships, reserved_ids@.subset_of(r.relationship_ids@),
//@sub `..Default::default()` => `relationships: Vec::new(), id_by_link: vx_new()`
//@loop 0 iter=it
//@| invariant it.seq().len() == relationships@.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == relationships@[i],
//@|   reserved_ids@.subset_of(collector.relationship_ids@), forall |i: int| 0 <= i < it.index@ ==> collector.relationship_ids@.contains((#[trigger] relationships@[i]).0@),
//@|   forall |k: (Seq<char>, Seq<char>)| #[trigger] collector.id_by_link@.contains_key(k) ==> exists |i: int| 0 <= i < relationships@.len() && (#[trigger] relationships@[i]).0@ == collector.id_by_link@[k]@ && relationships@[i].1@ == k.1,
//@end
//@fn HyperlinkCollector::finish
//@| ensures r.0 == self.relationships, r.1 == self.relationship_ids,
//@end

/// What the collector knows about one hook call: an external link ends with an id whose relationship leads to its target.
impl HyperlinkCollector {
    pub open spec fn linked(&self, e: Ev) -> bool {
        match e {
            Ev::Link(a, d) => match a.link {
                HyperlinkData::External { rid, path } => d matches HyperlinkData::External { rid: rid2, path: path2 } && path2@ == path@ && self.declared(rid2@, path@),
                _ => d == a.link },
            _ => true,
        }
    }
}
impl<V> VxNew for PairMap<V> { open spec fn is_new(&self) -> bool { self@ == Map::<(Seq<char>, Seq<char>), V>::empty() } }
impl VxDefault for HyperlinkCollector { open spec fn is_default(&self) -> bool { self.relationships@.len() == 0 && self.relationship_ids@ == Set::<Seq<char>>::empty() && self.id_by_link@ == Map::<(Seq<char>, Seq<char>), String>::empty() } }
impl DocumentTreeVisitor for HyperlinkCollector {
    type K = ();
    open spec fn readonly() -> bool { false }
    open spec fn fixed(&self) -> () { () }
    open spec fn ok(&self) -> bool { self.wf() }
    open spec fn inv(&self, h: Seq<Ev>) -> bool { self.wf() && forall |i: int| 0 <= i < h.len() ==> self.linked(#[trigger] h[i]) }
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
        let ghost s0 = *self;
        HyperlinkCollector::visit_hyperlink(self, link);
        proof { assert forall |e: Ev| #[trigger] s0.linked(e) implies self.linked(e) by {
            if let Ev::Link(a, d) = e { if let HyperlinkData::External { rid, path } = a.link { let r2 = d->rid; lemma_declared(s0, *self, r2@, path@); } } } }
    }
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {}
    fn visit_run(&mut self, run: &mut Run) {}
    fn visit_picture(&mut self, picture: &mut Pic) {}
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {}
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {}
}
