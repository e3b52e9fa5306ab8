//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `BTreeMap<String, String>` => `StrMap<String>`
//@gsub `BTreeMap::new()` => `StrMap::new()`
//@gsub `impl Into<String>` => `&str`
//@gsub `.into()` => `.to_owned()`
//@include maps.rs
//@include fmt.rs
//@include stdx.rs
//@gsub `.vx_str()` => `.to_owned()`
//@gsub `.vx_clone()` => `.clone()`
//@gsub `std::mem::take(` => `vx_take(`
#[verifier::external_body]
pub fn vx_take<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
proof fn lemma_cancel(p: Seq<char>, a: Seq<char>, b: Seq<char>, q: Seq<char>)
    requires p + a + q == p + b + q
    ensures a == b
{
    assert((p + a + q).len() == p.len() + a.len() + q.len()); assert((p + b + q).len() == p.len() + b.len() + q.len());
    assert forall |i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((p + a + q)[p.len() + i] == a[i]); assert((p + b + q)[p.len() + i] == b[i]); }
    assert(a =~= b);
}
pub open spec fn numbered(p: Seq<char>, n: int, q: Seq<char>) -> Seq<char> { p + dec(n) + q }
pub open spec fn hdr(n: int) -> Seq<char> { numbered("/word/header"@, n, ".xml"@) }
pub open spec fn ftr(n: int) -> Seq<char> { numbered("/word/footer"@, n, ".xml"@) }
proof fn lemma_numbered(p: Seq<char>, a: int, b: int, q: Seq<char>)
    requires numbered(p, a, q) == numbered(p, b, q)
    ensures a == b
{ lemma_cancel(p, dec(a), dec(b), q); dec_injective(a, b); }
proof fn lemma_names()
    ensures forall |i: int, j: int| #[trigger] hdr(i) == #[trigger] hdr(j) ==> i == j, forall |i: int, j: int| #[trigger] ftr(i) == #[trigger] ftr(j) ==> i == j,
        forall |i: int, j: int| #[trigger] hdr(i) != #[trigger] ftr(j)
{
    assert forall |i: int, j: int| #[trigger] hdr(i) == #[trigger] hdr(j) implies i == j by { lemma_numbered("/word/header"@, i, j, ".xml"@); }
    assert forall |i: int, j: int| #[trigger] ftr(i) == #[trigger] ftr(j) implies i == j by { lemma_numbered("/word/footer"@, i, j, ".xml"@); }
    reveal_strlit("/word/header"); reveal_strlit("/word/footer");
    assert forall |i: int, j: int| #[trigger] hdr(i) != #[trigger] ftr(j) by { assert(hdr(i)[6] == 'h'); assert(ftr(j)[6] == 'f'); }
}
pub open spec fn ct_hdr() -> Seq<char> { "application/vnd.openxmlformats-officedocument.wordprocessingml.header+xml"@ }
pub open spec fn ct_ftr() -> Seq<char> { "application/vnd.openxmlformats-officedocument.wordprocessingml.footer+xml"@ }
pub open spec fn put(m: Map<Seq<char>, String>, n: Map<Seq<char>, String>, k: Seq<char>, v: Seq<char>) -> bool { n.contains_key(k) && n[k]@ == v && n == m.insert(k, n[k]) }
pub open spec fn other(k: Seq<char>) -> bool { (forall |i: int| k != #[trigger] hdr(i)) && (forall |i: int| k != #[trigger] ftr(i)) }
impl ContentTypes {
    /// Exactly the counted header and footer parts have entries of their kind.
    pub open spec fn wf(&self) -> bool {
        &&& forall |i: int| #[trigger] self.types@.contains_key(hdr(i)) <==> 1 <= i <= self.header_count
        &&& forall |i: int| #[trigger] self.types@.contains_key(ftr(i)) <==> 1 <= i <= self.footer_count
        &&& forall |i: int| 1 <= i <= self.header_count ==> (#[trigger] self.types@[hdr(i)])@ == ct_hdr()
        &&& forall |i: int| 1 <= i <= self.footer_count ==> (#[trigger] self.types@[ftr(i)])@ == ct_ftr()
    }
    /// Nothing but header and footer entries differs.
    pub open spec fn rest_same(&self, o: ContentTypes) -> bool {
        &&& self.web_extension_count == o.web_extension_count && self.custom_xml_count == o.custom_xml_count
        &&& forall |k: Seq<char>| other(k) ==> (#[trigger] self.types@.contains_key(k) <==> o.types@.contains_key(k)) && (o.types@.contains_key(k) ==> self.types@[k] == o.types@[k])
    }
}
//@fn ContentTypes::add_content
//@| ensures put(self.types@, r.types@, path@, namespace@), r == (ContentTypes { types: r.types, ..self }),
//@end
//@fn ContentTypes::add_header
//@| requires self.header_count < usize::MAX,
//@| ensures put(self.types@, r.types@, hdr(self.header_count + 1), ct_hdr()), r == (ContentTypes { types: r.types, header_count: (self.header_count + 1) as usize, ..self }),
//@|   self.wf() ==> r.wf(), r.rest_same(self),
//@at start
//@| proof { lemma_names(); }
//@at end
//@| assert(this.types@.contains_key(hdr(self.header_count + 1)) && this.types@[hdr(self.header_count + 1)]@ == ct_hdr());
//@end
//@fn ContentTypes::add_footer
//@| requires self.footer_count < usize::MAX,
//@| ensures put(self.types@, r.types@, ftr(self.footer_count + 1), ct_ftr()), r == (ContentTypes { types: r.types, footer_count: (self.footer_count + 1) as usize, ..self }),
//@|   self.wf() ==> r.wf(), r.rest_same(self),
//@at start
//@| proof { lemma_names(); }
//@at end
//@| assert(this.types@.contains_key(ftr(self.footer_count + 1)) && this.types@[ftr(self.footer_count + 1)]@ == ct_ftr());
//@end
//@fn ContentTypes::set_header_and_footer_count
//@| requires self.wf(),
//@| ensures r.wf(), r.header_count == headers, r.footer_count == footers, r.rest_same(self),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| proof { lemma_names(); }
//@loop 0
//@| invariant this.wf(), this.rest_same(self), forall |i: int, j: int| #[trigger] hdr(i) == #[trigger] hdr(j) ==> i == j, forall |i: int, j: int| #[trigger] hdr(i) != #[trigger] ftr(j),
//@loopstart 0
//@| let ghost t0 = this;
//@loopend 0
//@| assert(this.types@ == t0.types@.remove(hdr(this.header_count + 1)));
//@| assert forall |k: Seq<char>| other(k) implies (#[trigger] this.types@.contains_key(k) <==> self.types@.contains_key(k)) && (self.types@.contains_key(k) ==> this.types@[k] == self.types@[k]) by { assert(k != hdr(this.header_count + 1)); assert(t0.types@.contains_key(k) <==> self.types@.contains_key(k)); }
//@| assert(!this.types@.contains_key(hdr(this.header_count + 1)));
//@loop 1
//@| invariant this.wf(), this.rest_same(self), this.header_count <= headers,
//@loop 2
//@| invariant this.wf(), this.rest_same(self), this.header_count == headers, forall |i: int, j: int| #[trigger] ftr(i) == #[trigger] ftr(j) ==> i == j, forall |i: int, j: int| #[trigger] hdr(i) != #[trigger] ftr(j),
//@loopstart 2
//@| let ghost t0 = this;
//@loopend 2
//@| assert(this.types@ == t0.types@.remove(ftr(this.footer_count + 1)));
//@| assert forall |k: Seq<char>| other(k) implies (#[trigger] this.types@.contains_key(k) <==> self.types@.contains_key(k)) && (self.types@.contains_key(k) ==> this.types@[k] == self.types@[k]) by { assert(k != ftr(this.footer_count + 1)); assert(t0.types@.contains_key(k) <==> self.types@.contains_key(k)); }
//@| assert(!this.types@.contains_key(ftr(this.footer_count + 1)));
//@loop 3
//@| invariant this.wf(), this.rest_same(self), this.header_count == headers, this.footer_count <= footers,
//@end
//@fn ContentTypes::add_taskpanes
//@| ensures put(self.types@, r.types@, "/word/webextensions/taskpanes.xml"@, "application/vnd.ms-office.webextensiontaskpanes+xml"@), r == (ContentTypes { types: r.types, ..self }),
//@end
//@fn ContentTypes::add_footnotes
//@| ensures put(self.types@, r.types@, "/word/footnotes.xml"@, "application/vnd.openxmlformats-officedocument.wordprocessingml.footnotes+xml"@), r == (ContentTypes { types: r.types, ..self }),
//@end
pub open spec fn webext(n: int) -> Seq<char> { numbered("/word/webextensions/webextension"@, n, ".xml"@) }
pub open spec fn item_props(n: int) -> Seq<char> { numbered("/customXml/itemProps"@, n, ".xml"@) }
//@fn ContentTypes::add_web_extensions
//@| requires self.web_extension_count < usize::MAX,
//@| ensures put(self.types@, r.types@, webext(self.web_extension_count as int), "application/vnd.ms-office.webextension+xml"@), r == (ContentTypes { types: r.types, web_extension_count: (self.web_extension_count + 1) as usize, ..self }),
//@end
//@fn ContentTypes::add_custom_xml
//@| requires self.custom_xml_count < usize::MAX,
//@| ensures put(self.types@, r.types@, item_props(self.custom_xml_count as int), "application/vnd.openxmlformats-officedocument.customXmlProperties+xml"@), r == (ContentTypes { types: r.types, custom_xml_count: (self.custom_xml_count + 1) as usize, ..self }),
//@end
pub open spec fn rid(n: int) -> Seq<char> { "rId"@ + dec(n) }
/// Relationship ids are numbered in order, so they are distinct.
pub open spec fn rids(v: Seq<(String, String, String)>) -> bool { forall |i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1@ == rid(i + 1) }
proof fn lemma_rids(v: Seq<(String, String, String)>, i: int, j: int)
    requires rids(v), 0 <= i < v.len(), 0 <= j < v.len(), v[i].1@ == v[j].1@
    ensures i == j
{ let e = Seq::<char>::empty(); assert("rId"@ + dec(i + 1) + e =~= "rId"@ + dec(i + 1)); assert("rId"@ + dec(j + 1) + e =~= "rId"@ + dec(j + 1)); lemma_cancel("rId"@, dec(i + 1), dec(j + 1), e); dec_injective(i + 1, j + 1); }
//@fn Rels::add_rel
//@| requires self.rels@.len() < usize::MAX,
//@| ensures r.rels@.len() == self.rels@.len() + 1, self.rels@.is_prefix_of(r.rels@), r.rels@.last().0@ == rel_type@, r.rels@.last().1@ == rid(self.rels@.len() as int + 1), r.rels@.last().2@ == target@, rids(self.rels@) ==> rids(r.rels@),
//@end
//@fn Rels::add_taskpanes_rel
//@| requires self.rels@.len() < usize::MAX,
//@| ensures r.rels@.len() == self.rels@.len() + 1, self.rels@.is_prefix_of(r.rels@), rids(self.rels@) ==> rids(r.rels@),
//@|   r.rels@.last().0@ == "http://schemas.microsoft.com/office/2011/relationships/webextensiontaskpanes"@, r.rels@.last().2@ == "word/webextensions/taskpanes.xml"@,
//@end
pub open spec fn pane_rels(v: Seq<(String, String, String)>) -> bool {
    rids(v) && forall |i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0@ == "http://schemas.microsoft.com/office/2011/relationships/webextension"@ && v[i].2@ == numbered("webextension"@, i + 1, ".xml"@)
}
//@fn TaskpanesRels::add_rel
//@| requires self.rels@.len() < usize::MAX,
//@| ensures r.rels@.len() == self.rels@.len() + 1, pane_rels(self.rels@) ==> pane_rels(r.rels@),
//@end
//@fn CustomItemRels::first_item
//@| ensures r == (CustomItemRels { first_item: first_item, ..self }),
//@end
//@fn CustomItemRels::add_item
//@| requires self.custom_item_count < usize::MAX,
//@| ensures r == (CustomItemRels { custom_item_count: (self.custom_item_count + 1) as usize, ..self }),
//@end
//@fn CustomItemRels::new ext
//@| ensures r.custom_item_count == 0, r.first_item == 0,
//@end
//@fn DocumentRels::add_custom_item
//@| requires self.custom_xml_count < usize::MAX,
//@| ensures r == (DocumentRels { custom_xml_count: (self.custom_xml_count + 1) as usize, ..self }),
//@end
/// Every custom item and web extension has its relationship, properties part and content type.
pub open spec fn listed(d: Docx) -> bool {
    &&& d.content_type.custom_xml_count == d.custom_items@.len() + 1
    &&& d.document_rels.custom_xml_count == d.custom_items@.len()
    &&& d.custom_item_rels@.len() == d.custom_items@.len() && d.custom_item_props@.len() == d.custom_items@.len()
    &&& forall |i: int| 0 <= i < d.custom_item_rels@.len() ==> (#[trigger] d.custom_item_rels@[i]).first_item == i && d.custom_item_rels@[i].custom_item_count == 1
    &&& forall |i: int| 1 <= i <= d.custom_items@.len() ==> #[trigger] d.content_type.types@.contains_key(item_props(i))
    &&& d.content_type.web_extension_count == d.web_extensions@.len() + 1
    &&& d.taskpanes_rels.rels@.len() == d.web_extensions@.len() && pane_rels(d.taskpanes_rels.rels@)
    &&& forall |i: int| 1 <= i <= d.web_extensions@.len() ==> #[trigger] d.content_type.types@.contains_key(webext(i))
    &&& d.web_extensions@.len() > 0 ==> d.taskpanes is Some
    &&& rids(d.rels.rels@)
    &&& d.taskpanes is Some ==> d.content_type.types@.contains_key("/word/webextensions/taskpanes.xml"@) && exists |i: int| 0 <= i < d.rels.rels@.len() && (#[trigger] d.rels.rels@[i]).2@ == "word/webextensions/taskpanes.xml"@
}
pub open spec fn small(d: Docx) -> bool { d.rels.rels@.len() < 0x1000_0000 && d.custom_items@.len() < 0x1000_0000 && d.web_extensions@.len() < 0x1000_0000 }
//@fn Docx::taskpanes
//@| requires listed(self), small(self),
//@| ensures listed(r), r.taskpanes is Some, r == (Docx { taskpanes: r.taskpanes, rels: r.rels, content_type: r.content_type, ..self }),
//@|   r.rels.rels@.len() <= self.rels.rels@.len() + 1, self.taskpanes is Some ==> r == self,
//@at end
//@| proof { let i = this.rels.rels@.len() - 1; assert(this.rels.rels@[i].2@ == "word/webextensions/taskpanes.xml"@); }
//@end
//@fn Docx::web_extension
//@| requires listed(self), small(self),
//@| ensures listed(r), r.web_extensions@ == self.web_extensions@.push(ext), r.custom_items == self.custom_items, r.document == self.document, r.document_rels == self.document_rels,
//@end
//@fn Docx::add_custom_item
//@| requires listed(self), small(self),
//@| ensures listed(r), r.custom_items@.len() == self.custom_items@.len() + 1, self.custom_items@.is_prefix_of(r.custom_items@), r.web_extensions == self.web_extensions, r.document == self.document, r.rels == self.rels,
//@sub `CustomItem::from_str(xml).expect("should parse xml string")` => `vx_item(xml)`
//@end
#[verifier::external_body]
pub fn vx_item(s: &str) -> (r: CustomItem) { unimplemented!() }
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
