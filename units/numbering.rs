//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@include tree_core.rs
/// A paragraph that refers to a numbering definition.
pub open spec fn numbered(p: Paragraph) -> bool { p.property.numbering_property is Some }
/// A hook call that shows a numbered paragraph: the paragraph itself or one in a footnote.
pub open spec fn plain_num(e: Ev) -> bool {
    match e { Ev::Para(p) => numbered(p), Ev::Foot(f) => exists |k: int| 0 <= k < f.content@.len() && numbered(#[trigger] f.content@[k]), _ => false }
}
pub open spec fn any_plain(h: Seq<Ev>) -> bool { exists |k: int| 0 <= k < h.len() && plain_num(#[trigger] h[k]) }
/// As above, or one in the text of a comment.
pub open spec fn num_ev(e: Ev) -> bool { plain_num(e) || (e matches Ev::Com(a, b) && any_plain(ev_comment(a.comment, b.comment))) }
pub open spec fn any_num(h: Seq<Ev>) -> bool { exists |k: int| 0 <= k < h.len() && num_ev(#[trigger] h[k]) }
// `|=` on booleans.
pub trait VxOrAssign { fn vx_or_assign(&mut self, b: bool); }
impl VxOrAssign for bool { fn vx_or_assign(&mut self, b: bool) ensures *final(self) == (*old(self) || b) { if b { *self = true; } } }
// TRUSTED: Iterator::any over a vector.
#[verifier::external_body]
pub fn vx_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall |i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures r ==> exists |i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall |i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
{ v.iter().any(|x| f(x)) }
//@hooks NumberingFinder DocumentTreeVisitor visit_paragraph,visit_comment_start,visit_footnote_reference
//@fn <NumberingFinder as DocumentTreeVisitor>::visit_paragraph
//@| ensures final(self).found == (old(self).found || numbered(*old(paragraph))), *final(paragraph) == *old(paragraph),
//@end
//@fn <NumberingFinder as DocumentTreeVisitor>::visit_footnote_reference
//@| ensures old(self).found ==> final(self).found, plain_num(Ev::Foot(*reference)) ==> final(self).found,
//@sub `reference~~.content~~.iter()~~.any(` => `vx_any(&reference.content, `
//@sub `|paragraph|` => `|paragraph: &Paragraph|`
//@closure 0
//@| -> (o: bool) ensures o == numbered(*paragraph)
//@end
//@fn <NumberingFinder as DocumentTreeVisitor>::visit_comment_start
//@| ensures old(self).found ==> final(self).found, num_ev(Ev::Com(*old(start), *final(start))) ==> final(self).found, *final(start) == *old(start),
//@at start
//@| let ghost s0 = *self; let ghost c0 = start.comment;
//@at end
//@| proof { let e = ev_comment(c0, start.comment); let p = some_numbered(); let h = seq![Ev::Para(p)];
//@|   if s0.found { assert(num_ev(h[0])); assert(s0.inv(h)); assert(self.inv(h + e)); assert((h + e)[0] == h[0]); assert(any_num(h + e)); }
//@|   if any_plain(e) { let k = choose |k: int| 0 <= k < e.len() && plain_num(#[trigger] e[k]); let z = Seq::<Ev>::empty(); if s0.found {} else { assert(s0.inv(z)); assert((z + e)[k] == e[k]); assert(num_ev((z + e)[k])); } } }
//@end
pub open spec fn some_numbered() -> Paragraph { Paragraph { property: ParagraphProperty { numbering_property: Some(arbitrary()), ..arbitrary() }, ..arbitrary() } }
impl DocumentTreeVisitor for NumberingFinder {
    type K = ();
    open spec fn readonly() -> bool { true }
    open spec fn fixed(&self) -> () { () }
    open spec fn ok(&self) -> bool { true }
    open spec fn inv(&self, h: Seq<Ev>) -> bool { any_num(h) ==> self.found }
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) { NumberingFinder::visit_paragraph(self, paragraph); }
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) { NumberingFinder::visit_footnote_reference(self, reference); }
    // The hook calls the traversal again: the body is verified above as a function with this contract.
    #[verifier::external_body]
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) { unimplemented!() }
    fn visit_run(&mut self, run: &mut Run) {}
    fn visit_picture(&mut self, picture: &mut Pic) {}
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {}
}
// TRUSTED: the headers (footers) of the document, in the order of `all_headers` (`all_footers`); writing back the same values changes nothing.
pub uninterp spec fn all_headers(d: Document) -> Seq<(String, Header)>;
pub uninterp spec fn all_footers(d: Document) -> Seq<(String, Footer)>;
#[verifier::external_body]
pub fn vx_headers_mut(d: &mut Document) -> (r: Vec<&mut (String, Header)>)
    ensures r@.len() == all_headers(*old(d)).len(), forall |i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == all_headers(*old(d))[i],
        (forall |i: int| 0 <= i < r@.len() ==> *final(#[trigger] r@[i]) == all_headers(*old(d))[i]) ==> *final(d) == *old(d),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_footers_mut(d: &mut Document) -> (r: Vec<&mut (String, Footer)>)
    ensures r@.len() == all_footers(*old(d)).len(), forall |i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == all_footers(*old(d))[i],
        (forall |i: int| 0 <= i < r@.len() ==> *final(#[trigger] r@[i]) == all_footers(*old(d))[i]) ==> *final(d) == *old(d),
{ unimplemented!() }
/// A numbered paragraph somewhere in the body, a header, a footer, a comment, a footnote or a style.
pub open spec fn uses_numbering(d: Docx) -> bool {
    ||| any_num(ev_document(d.document, d.document))
    ||| exists |i: int| 0 <= i < all_headers(d.document).len() && any_num(ev_header((#[trigger] all_headers(d.document)[i]).1, all_headers(d.document)[i].1))
    ||| exists |i: int| 0 <= i < all_footers(d.document).len() && any_num(ev_footer((#[trigger] all_footers(d.document)[i]).1, all_footers(d.document)[i].1))
    ||| exists |i: int| 0 <= i < d.styles.styles@.len() && (#[trigger] d.styles.styles@[i]).paragraph_property.numbering_property is Some
}
proof fn lemma_found(a: NumberingFinder, s: Seq<Ev>, b: NumberingFinder)
    requires folds(a, s, b)
    ensures a.found ==> b.found, any_num(s) ==> b.found
{
    let h = seq![Ev::Para(some_numbered())];
    if a.found { assert(num_ev(h[0])); assert(a.inv(h)); assert(b.inv(h + s)); assert((h + s)[0] == h[0]); assert(any_num(h + s)); }
    else { lemma_from_empty(a, s, b); }
}
//@fn Docx::update_numbering_reference
//@| ensures uses_numbering(*old(self)) ==> final(self).document_rels.has_numberings, old(self).document_rels.has_numberings ==> final(self).document_rels.has_numberings,
//@|   final(self).document == old(self).document, final(self).numberings == old(self).numberings,
//@sub `NumberingFinder::default()` => `NumberingFinder { found: false }`
//@sub `for (_, header) in it: self.document.headers_mut() ~~` => `for pair in it: vx_headers_mut(&mut self.document) `
//@sub `for (_, footer) in jt: self.document.footers_mut() ~~` => `for pair in jt: vx_footers_mut(&mut self.document) `
//@sub `visit_header(header, &mut finder);` => `visit_header(&mut pair.1, &mut finder);`
//@sub `visit_footer(footer, &mut finder);` => `visit_footer(&mut pair.1, &mut finder);`
//@sub `self~~.styles~~.styles~~.iter()~~.any(` => `vx_any(&self.styles.styles, `
//@sub `|style|` => `|style: &Style|`
//@closure 0
//@| -> (o: bool) ensures o == (style.paragraph_property.numbering_property is Some)
//@at start
//@| let ghost d0 = self.document; let ghost s0 = *self;
//@before `visit_document(&mut self.document, &mut finder);`
//@| let ghost f0 = finder;
//@after `visit_document(&mut self.document, &mut finder);`
//@| proof { lemma_found(f0, ev_document(d0, d0), finder); }
//@loop 0 iter=it
//@| invariant it.seq().len() == all_headers(d0).len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == all_headers(d0)[i],
//@|   any_num(ev_document(d0, d0)) ==> finder.found,
//@|   forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == all_headers(d0)[i],
//@|   forall |i: int| 0 <= i < it.index@ && any_num(ev_header((#[trigger] all_headers(d0)[i]).1, all_headers(d0)[i].1)) ==> finder.found,
//@loopstart 0
//@| let ghost g = finder; let ghost hd = pair.1;
//@loopend 0
//@| proof { lemma_found(g, ev_header(hd, hd), finder); }
//@loop 1 iter=jt
//@| invariant jt.seq().len() == all_footers(d0).len(), forall |i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == all_footers(d0)[i],
//@|   any_num(ev_document(d0, d0)) ==> finder.found,
//@|   forall |i: int| 0 <= i < all_headers(d0).len() && any_num(ev_header((#[trigger] all_headers(d0)[i]).1, all_headers(d0)[i].1)) ==> finder.found,
//@|   forall |i: int| 0 <= i < jt.index@ ==> *final(#[trigger] jt.seq()[i]) == all_footers(d0)[i],
//@|   forall |i: int| 0 <= i < jt.index@ && any_num(ev_footer((#[trigger] all_footers(d0)[i]).1, all_footers(d0)[i].1)) ==> finder.found,
//@loopstart 1
//@| let ghost g = finder; let ghost hd = pair.1;
//@loopend 1
//@| proof { lemma_found(g, ev_footer(hd, hd), finder); }
//@end
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
