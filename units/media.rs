//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `HashMap<String, usize>` => `StrMap<usize>`
//@gsub `HashMap<(usize, u32), Vec<usize>>` => `PlainMap<(usize, u32), Vec<usize>>`
//@gsub `HashMap<usize, usize>` => `PlainMap<usize, usize>`
//@gsub `HashMap::new()` => `vx_new()`
//@gsub `HashSet::new()` => `StrSet::new()`
//@gsub `HashSet<String>` => `StrSet`
//@include maps.rs
//@include stdx.rs
//@gsub `.vx_str()` => `.to_owned()`
// TRUSTED: equality of byte vectors, the checksum, formatted names.
#[verifier::external_body]
pub fn vx_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_crc(b: &Vec<u8>) -> (r: u32) { unimplemented!() }
#[verifier::external_body]
pub fn vx_name(prefix: &str, id: &str) -> (r: String) ensures r@ == prefix@ + id@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_suffixed(id: &str, n: &usize) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_succ(n: &usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn vx_find<F: Fn(&usize) -> bool>(v: &Vec<usize>, f: F) -> (r: Option<usize>)
    requires forall |i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],))
    ensures r matches Some(x) ==> v@.contains(x) && f.ensures((&x,), true)
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_target(id: &str) -> (r: String) ensures r@ == "media/"@ + id@ + ".png"@ { unimplemented!() }
impl MediaRegistry {
    /// Media ids are distinct and the indexes lead to the media they are about.
    pub open spec fn wf(&self) -> bool {
        &&& forall |i: int| 0 <= i < self.media@.len() ==> self.media_by_id@.contains_key((#[trigger] self.media@[i]).0@) && self.media_by_id@[self.media@[i].0@] == i
        &&& forall |k: Seq<char>| #[trigger] self.media_by_id@.contains_key(k) ==> self.media_by_id@[k] < self.media@.len() && self.media@[self.media_by_id@[k] as int].0@ == k
        &&& forall |f: (usize, u32), i: int| #![trigger self.by_fingerprint@[f]@[i]] self.by_fingerprint@.contains_key(f) && 0 <= i < self.by_fingerprint@[f]@.len() ==> self.by_fingerprint@[f]@[i] < self.media@.len()
    }
    pub open spec fn grown(&self, o: &MediaRegistry) -> bool { o.media@.is_prefix_of(self.media@) }
}
//@fn MediaRegistry::unique_media_id
//@| requires old(self).wf(),
//@| ensures !old(self).media_by_id@.contains_key(r@), final(self).wf(),
//@|   final(self).media@ == old(self).media@, final(self).media_by_id@ == old(self).media_by_id@, final(self).by_fingerprint@ == old(self).by_fingerprint@,
//@sub `.entry(preferred_id.to_owned())~~.or_insert(2)` => `.vx_or_insert(preferred_id.to_owned(), 2)`
//@sub `format!("{preferred_id}_{suffix}")` => `vx_suffixed(preferred_id, suffix)`
//@sub `suffix~~.checked_add(1)~~.expect("the media ID suffix space should not be exhausted")` => `vx_succ(suffix)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::loop_isolation(false)]
//@loop 0
//@| invariant true,
//@end
//@fn MediaRegistry::register
//@| requires old(self).wf(), old(self).media@.len() < usize::MAX,
//@| ensures final(self).wf(), final(self).grown(old(self)), r < final(self).media@.len(), final(self).media@[r as int].1@ == bytes@,
//@|   final(self).media@.len() <= old(self).media@.len() + 1,
//@sub `self.media[index].1 == bytes` => `vx_same(&self.media[index].1, &bytes)`
//@sub `self.media[*index].1 == bytes` => `vx_same(&self.media[*index].1, &bytes)`
//@sub `crc32fast::hash(&bytes)` => `vx_crc(&bytes)`
//@sub `candidates~~.iter()~~.copied()~~.find(` => `vx_find(candidates, `
//@sub `.entry(fingerprint)~~.or_default()` => `.vx_or_default(fingerprint)`
//@closure 0
//@| -> (r: Option<usize>) requires forall |i: int| 0 <= i < candidates@.len() ==> #[trigger] candidates@[i] < self.media@.len() ensures r matches Some(x) ==> x < self.media@.len() && self.media@[x as int].1@ == bytes@
//@closure 1
//@| -> (b: bool) requires *index < self.media@.len() ensures b == (self.media@[*index as int].1@ == bytes@)
//@end
//@fn MediaRegistry::media_id
//@| requires index < self.media@.len(),
//@| ensures r@ == self.media@[index as int].0@,
//@end
//@fn MediaRegistry::into_media
//@| ensures r@ == self.media@,
//@end
impl<'a> PackagePartCollector<'a> {
    pub open spec fn target(id: Seq<char>) -> Seq<char> { "media/"@ + id + ".png"@ }
    /// Relationship ids of the part are distinct and each leads to the medium it was made for.
    pub open spec fn wf(&self) -> bool {
        &&& self.registry.wf()
        &&& forall |i: int| 0 <= i < self.relationships@.len() ==> self.relationship_ids@.contains((#[trigger] self.relationships@[i]).0@)
        &&& forall |i: int, j: int| 0 <= i < j < self.relationships@.len() ==> (#[trigger] self.relationships@[i]).0@ != (#[trigger] self.relationships@[j]).0@
        &&& forall |m: usize| #[trigger] self.relationships_by_media@.contains_key(m) ==> m < self.registry.media@.len() && self.relationships_by_media@[m] < self.relationships@.len()
                && self.relationships@[self.relationships_by_media@[m] as int].1@ == Self::target(self.registry.media@[m as int].0@)
    }
    /// The relationship with this id leads to exactly these bytes.
    pub open spec fn leads(&self, id: Seq<char>, bytes: Seq<u8>) -> bool {
        exists |i: int, m: int| 0 <= i < self.relationships@.len() && 0 <= m < self.registry.media@.len() && (#[trigger] self.relationships@[i]).0@ == id
            && self.relationships@[i].1@ == Self::target((#[trigger] self.registry.media@[m]).0@) && self.registry.media@[m].1@ == bytes
    }
}
//@fn PackagePartCollector::relationship_id
//@| ensures r@ == (match self.relationship_prefix { Some(p) => p@ + picture_id@, None => picture_id@ }),
//@sub `format!("{prefix}{picture_id}")` => `vx_name(prefix, picture_id)`
//@end
//@fn PackagePartCollector::new
//@| requires registry.wf(),
//@| ensures r.wf(), *r.registry == *old(registry), *final(r.registry) == *final(registry), r.relationship_prefix == relationship_prefix, r.relationships@.len() == 0, r.footnotes@.len() == 0, r.hyperlinks@.len() == 0,
//@end
//@fn PackagePartCollector::finish
//@| ensures r.relationships == self.relationships, r.hyperlinks == self.hyperlinks, r.footnotes == self.footnotes,
//@end
//@fn PackagePartCollector::unique_relationship_id
//@| requires old(self).wf(),
//@| ensures !old(self).relationship_ids@.contains(r@), final(self).wf(), final(self).relationship_prefix == old(self).relationship_prefix,
//@|   *final(self) == (PackagePartCollector { next_relationship_suffix_by_id: final(self).next_relationship_suffix_by_id, ..*old(self) }),
//@sub `.entry(preferred_id.to_owned())~~.or_insert(2)` => `.vx_or_insert(preferred_id.to_owned(), 2)`
//@sub `format!("{preferred_id}_{suffix}")` => `vx_suffixed(preferred_id, suffix)`
//@sub `suffix~~.checked_add(1)~~.expect("the relationship ID suffix space should not be exhausted")` => `vx_succ(suffix)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::loop_isolation(false)]
//@loop 0
//@| invariant true,
//@end
//@fn <PackagePartCollector as DocumentTreeVisitor>::visit_picture
//@| requires old(self).wf(), old(self).registry.media@.len() < usize::MAX,
//@| ensures final(self).wf(), final(self).leads(final(picture).id@, old(picture).image@),
//@|   final(self).registry.grown(&*old(self).registry), old(self).relationships@.is_prefix_of(final(self).relationships@),
//@|   final(self).footnotes == old(self).footnotes, final(self).hyperlinks == old(self).hyperlinks,
//@sub `format!("media/{}.png", self.registry.media_id(media_index))` => `vx_target(self.registry.media_id(media_index))`
//@at end
//@| proof { let i = self.relationships@.len() - 1; assert(self.relationships@[i].0@ == picture.id@); assert(self.relationships@[i].1@ == Self::target(self.registry.media@[media_index as int].0@)); }
//@end
proof fn lemma_cancel(p: Seq<char>, a: Seq<char>, b: Seq<char>, q: Seq<char>)
    requires p + a + q == p + b + q
    ensures a == b
{
    assert((p + a + q).len() == p.len() + a.len() + q.len()); assert((p + b + q).len() == p.len() + b.len() + q.len());
    assert forall |i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((p + a + q)[p.len() + i] == a[i]); assert((p + b + q)[p.len() + i] == b[i]); }
    assert(a =~= b);
}
/// Two media with the same part name are one medium: pictures with different bytes never share a part.
proof fn lemma_own_part(g: MediaRegistry, i: int, j: int)
    requires g.wf(), 0 <= i < g.media@.len(), 0 <= j < g.media@.len(),
        PackagePartCollector::target(g.media@[i].0@) == PackagePartCollector::target(g.media@[j].0@)
    ensures i == j
{ lemma_cancel("media/"@, g.media@[i].0@, g.media@[j].0@, ".png"@); }
/// A reference stays good while further pictures are collected.
proof fn lemma_stays(a: PackagePartCollector, b: PackagePartCollector, id: Seq<char>, bytes: Seq<u8>)
    requires a.leads(id, bytes), b.registry.grown(&*a.registry), a.relationships@.is_prefix_of(b.relationships@)
    ensures b.leads(id, bytes)
{
    let (i, m) = choose |i: int, m: int| 0 <= i < a.relationships@.len() && 0 <= m < a.registry.media@.len() && (#[trigger] a.relationships@[i]).0@ == id
            && a.relationships@[i].1@ == PackagePartCollector::target((#[trigger] a.registry.media@[m]).0@) && a.registry.media@[m].1@ == bytes;
    assert(b.relationships@[i] == a.relationships@[i]); assert(b.registry.media@[m] == a.registry.media@[m]);
}
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
