// Traversal of the document tree: which nodes a visitor is shown, and in which order.
/// One hook call: the node before it and, for hooks that change nodes, the node after it.
pub ghost enum Ev { Para(Paragraph), Run(Run), Pic(Pic, Pic), Com(CommentRangeStart, CommentRangeStart), Link(Hyperlink, HyperlinkData), Foot(FootnoteReference) }
// The declaration of the trait with its contract. `inv` says what a visitor knows after the hook calls `h`;
// `ok` is what every hook needs and keeps, `fixed` what no hook changes, and the
// hooks of a `readonly` visitor leave their node as it was;
// a hook takes the visitor from `h` to `h` and its own call, and keeps the children of the node.
pub trait DocumentTreeVisitor: Sized {
    type K;
    spec fn readonly() -> bool;
    spec fn fixed(&self) -> Self::K;
    spec fn ok(&self) -> bool;
    spec fn inv(&self, h: Seq<Ev>) -> bool;
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Para(*old(paragraph))]), final(paragraph).children == old(paragraph).children, Self::readonly() ==> *final(paragraph) == *old(paragraph);
    fn visit_run(&mut self, run: &mut Run) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Run(*old(run))]), final(run).children == old(run).children, Self::readonly() ==> *final(run) == *old(run);
    fn visit_picture(&mut self, picture: &mut Pic) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Pic(*old(picture), *final(picture))]), Self::readonly() ==> *final(picture) == *old(picture);
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Com(*old(start), *final(start))]), Self::readonly() ==> *final(start) == *old(start);
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Link(*old(link), final(link).link)]), final(link).children == old(link).children, Self::readonly() ==> *final(link) == *old(link);
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Foot(*reference)]);
}
pub open spec fn ro<V: DocumentTreeVisitor>(v: V) -> bool { V::readonly() }
// TRUSTED: two vectors with the same elements are the same value.
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ =~= b@, ensures #![trigger a@, b@] a == b;
/// The visitor went from `a` to `b` through exactly the hook calls `s`.
pub open spec fn folds<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V) -> bool { a.fixed() == b.fixed() && forall |h: Seq<Ev>| #[trigger] a.inv(h) ==> b.inv(h + s) }
pub proof fn lemma_folds<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V, t: Seq<Ev>, c: V)
    requires folds(a, s, b), folds(b, t, c)
    ensures folds(a, s + t, c)
{
    assert forall |h: Seq<Ev>| #[trigger] a.inv(h) implies c.inv(h + (s + t)) by { assert(b.inv(h + s)); assert((h + s) + t =~= h + (s + t)); }
}
pub proof fn lemma_from_empty<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V)
    requires folds(a, s, b), a.inv(Seq::<Ev>::empty())
    ensures b.inv(s)
{
    assert(Seq::<Ev>::empty() + s =~= s);
}
pub proof fn lemma_still<V: DocumentTreeVisitor>(a: V)
    ensures folds(a, Seq::<Ev>::empty(), a)
{
    assert forall |h: Seq<Ev>| #[trigger] a.inv(h) implies a.inv(h + Seq::<Ev>::empty()) by { assert(h + Seq::<Ev>::empty() =~= h); }
}

pub open spec fn ev_run_kids_n(x: Run, y: Run, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_run_kids_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (RunChild::Drawing(a), RunChild::Drawing(b)) => (match (a.data, b.data) { (Some(DrawingData::Pic(p)), Some(DrawingData::Pic(q))) => seq![Ev::Pic(p, q)], _ => Seq::<Ev>::empty() }), (RunChild::CommentStart(a), RunChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], (RunChild::FootnoteReference(a), RunChild::FootnoteReference(b)) => seq![Ev::Foot(a)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_run_kids(x: Run, y: Run) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_run_kids_n(x, y, x.children.len() as int) }
pub open spec fn ev_run(x: Run, y: Run) -> Seq<Ev> decreases x, x.children.len() + 2 { seq![Ev::Run(x)] + ev_run_kids(x, y) }
pub open spec fn ev_insert_n(x: Insert, y: Insert, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_insert_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (InsertChild::Run(a), InsertChild::Run(b)) => ev_run(*a, *b), (InsertChild::Delete(a), InsertChild::Delete(b)) => ev_delete(a, b), (InsertChild::CommentStart(a), InsertChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_insert(x: Insert, y: Insert) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_insert_n(x, y, x.children.len() as int) }
pub open spec fn ev_delete_n(x: Delete, y: Delete, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_delete_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (DeleteChild::Run(a), DeleteChild::Run(b)) => ev_run(*a, *b), (DeleteChild::CommentStart(a), DeleteChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_delete(x: Delete, y: Delete) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_delete_n(x, y, x.children.len() as int) }
pub open spec fn ev_move_from_n(x: MoveFrom, y: MoveFrom, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_move_from_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (MoveFromChild::Run(a), MoveFromChild::Run(b)) => ev_run(*a, *b), (MoveFromChild::CommentStart(a), MoveFromChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_move_from(x: MoveFrom, y: MoveFrom) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_move_from_n(x, y, x.children.len() as int) }
pub open spec fn ev_move_to_n(x: MoveTo, y: MoveTo, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_move_to_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (MoveToChild::Run(a), MoveToChild::Run(b)) => ev_run(*a, *b), (MoveToChild::Delete(a), MoveToChild::Delete(b)) => ev_delete(a, b), (MoveToChild::CommentStart(a), MoveToChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_move_to(x: MoveTo, y: MoveTo) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_move_to_n(x, y, x.children.len() as int) }
pub open spec fn ev_paras_n(x: Vec<ParagraphChild>, y: Vec<ParagraphChild>, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.len() { Seq::<Ev>::empty() } else { ev_paras_n(x, y, n - 1) + (match (x[n - 1], y[n - 1]) { (ParagraphChild::Run(a), ParagraphChild::Run(b)) => ev_run(*a, *b), (ParagraphChild::Insert(a), ParagraphChild::Insert(b)) => ev_insert(a, b), (ParagraphChild::Delete(a), ParagraphChild::Delete(b)) => ev_delete(a, b), (ParagraphChild::MoveFrom(a), ParagraphChild::MoveFrom(b)) => ev_move_from(a, b), (ParagraphChild::MoveTo(a), ParagraphChild::MoveTo(b)) => ev_move_to(a, b), (ParagraphChild::Hyperlink(a), ParagraphChild::Hyperlink(b)) => ev_hyperlink(a, b), (ParagraphChild::StructuredDataTag(a), ParagraphChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (ParagraphChild::CommentStart(a), ParagraphChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_paras(x: Vec<ParagraphChild>, y: Vec<ParagraphChild>) -> Seq<Ev> decreases x, x.len() + 1 { ev_paras_n(x, y, x.len() as int) }
pub open spec fn ev_hyperlink(x: Hyperlink, y: Hyperlink) -> Seq<Ev> decreases x, 0int { seq![Ev::Link(x, y.link)] + ev_paras(x.children, y.children) }
pub open spec fn ev_paragraph(x: Paragraph, y: Paragraph) -> Seq<Ev> decreases x, 0int { seq![Ev::Para(x)] + ev_paras(x.children, y.children) }
pub open spec fn ev_sdt_n(x: StructuredDataTag, y: StructuredDataTag, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_sdt_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (StructuredDataTagChild::Run(a), StructuredDataTagChild::Run(b)) => ev_run(*a, *b), (StructuredDataTagChild::Paragraph(a), StructuredDataTagChild::Paragraph(b)) => ev_paragraph(*a, *b), (StructuredDataTagChild::Table(a), StructuredDataTagChild::Table(b)) => ev_table(*a, *b), (StructuredDataTagChild::StructuredDataTag(a), StructuredDataTagChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (StructuredDataTagChild::CommentStart(a), StructuredDataTagChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_sdt(x: StructuredDataTag, y: StructuredDataTag) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_sdt_n(x, y, x.children.len() as int) }
pub open spec fn ev_cell_n(x: TableCell, y: TableCell, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_cell_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (TableCellContent::Paragraph(a), TableCellContent::Paragraph(b)) => ev_paragraph(*a, *b), (TableCellContent::Table(a), TableCellContent::Table(b)) => ev_table(*a, *b), (TableCellContent::StructuredDataTag(a), TableCellContent::StructuredDataTag(b)) => ev_sdt(*a, *b), (TableCellContent::TableOfContents(a), TableCellContent::TableOfContents(b)) => ev_toc(*a, *b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_cell(x: TableCell, y: TableCell) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_cell_n(x, y, x.children.len() as int) }
pub open spec fn ev_row_n(x: TableRow, y: TableRow, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.cells.len() { Seq::<Ev>::empty() } else { ev_row_n(x, y, n - 1) + (match (x.cells[n - 1], y.cells[n - 1]) { (TableRowChild::TableCell(a), TableRowChild::TableCell(b)) => ev_cell(a, b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_row(x: TableRow, y: TableRow) -> Seq<Ev> decreases x, x.cells.len() + 1 { ev_row_n(x, y, x.cells.len() as int) }
pub open spec fn ev_table_n(x: Table, y: Table, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.rows.len() { Seq::<Ev>::empty() } else { ev_table_n(x, y, n - 1) + (match (x.rows[n - 1], y.rows[n - 1]) { (TableChild::TableRow(a), TableChild::TableRow(b)) => ev_row(a, b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_table(x: Table, y: Table) -> Seq<Ev> decreases x, x.rows.len() + 1 { ev_table_n(x, y, x.rows.len() as int) }
pub open spec fn ev_tocs_n(x: Vec<TocContent>, y: Vec<TocContent>, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.len() { Seq::<Ev>::empty() } else { ev_tocs_n(x, y, n - 1) + (match (x[n - 1], y[n - 1]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_tocs(x: Vec<TocContent>, y: Vec<TocContent>) -> Seq<Ev> decreases x, x.len() + 1 { ev_tocs_n(x, y, x.len() as int) }
pub open spec fn ev_toc(x: TableOfContents, y: TableOfContents) -> Seq<Ev> decreases x, 0int { ev_tocs(x.before_contents, y.before_contents) + ev_tocs(x.after_contents, y.after_contents) }
pub open spec fn ev_section_n(x: Section, y: Section, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_section_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (SectionChild::Paragraph(a), SectionChild::Paragraph(b)) => ev_paragraph(*a, *b), (SectionChild::Table(a), SectionChild::Table(b)) => ev_table(*a, *b), (SectionChild::StructuredDataTag(a), SectionChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (SectionChild::TableOfContents(a), SectionChild::TableOfContents(b)) => ev_toc(*a, *b), (SectionChild::CommentStart(a), SectionChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_section(x: Section, y: Section) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_section_n(x, y, x.children.len() as int) }
pub open spec fn ev_document_n(x: Document, y: Document, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_document_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (DocumentChild::Paragraph(a), DocumentChild::Paragraph(b)) => ev_paragraph(*a, *b), (DocumentChild::Table(a), DocumentChild::Table(b)) => ev_table(*a, *b), (DocumentChild::StructuredDataTag(a), DocumentChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (DocumentChild::TableOfContents(a), DocumentChild::TableOfContents(b)) => ev_toc(*a, *b), (DocumentChild::Section(a), DocumentChild::Section(b)) => ev_section(*a, *b), (DocumentChild::CommentStart(a), DocumentChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_document(x: Document, y: Document) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_document_n(x, y, x.children.len() as int) }
pub open spec fn ev_header_n(x: Header, y: Header, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_header_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (HeaderChild::Paragraph(a), HeaderChild::Paragraph(b)) => ev_paragraph(*a, *b), (HeaderChild::Table(a), HeaderChild::Table(b)) => ev_table(*a, *b), (HeaderChild::StructuredDataTag(a), HeaderChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_header(x: Header, y: Header) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_header_n(x, y, x.children.len() as int) }
pub open spec fn ev_footer_n(x: Footer, y: Footer, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_footer_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (FooterChild::Paragraph(a), FooterChild::Paragraph(b)) => ev_paragraph(*a, *b), (FooterChild::Table(a), FooterChild::Table(b)) => ev_table(*a, *b), (FooterChild::StructuredDataTag(a), FooterChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_footer(x: Footer, y: Footer) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_footer_n(x, y, x.children.len() as int) }
pub open spec fn ev_comment_n(x: Comment, y: Comment, n: int) -> Seq<Ev> decreases x, n {
    if n <= 0 || n > x.children.len() { Seq::<Ev>::empty() } else { ev_comment_n(x, y, n - 1) + (match (x.children[n - 1], y.children[n - 1]) { (CommentChild::Paragraph(a), CommentChild::Paragraph(b)) => ev_paragraph(*a, *b), (CommentChild::Table(a), CommentChild::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() }) }
}
pub open spec fn ev_comment(x: Comment, y: Comment) -> Seq<Ev> decreases x, x.children.len() + 1 { ev_comment_n(x, y, x.children.len() as int) }
/// The first n values of d are the values the borrows end up with.
#[verifier::prophetic]
pub open spec fn ends<T>(s: Seq<&mut T>, d: Seq<T>, n: int) -> bool { d.len() == s.len() && forall |i: int| 0 <= i < n ==> #[trigger] d[i] == *final(s[i]) }
// TRUSTED: Iterator::chain over two vectors yields the elements of the first, then those of the second.
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a mut Vec<T>, b: &'a mut Vec<T>) -> (r: Vec<&'a mut T>)
    ensures r@.len() == old(a)@.len() + old(b)@.len(), final(a)@.len() == old(a)@.len(), final(b)@.len() == old(b)@.len(),
        forall |i: int| 0 <= i < old(a)@.len() ==> *(#[trigger] r@[i]) == old(a)@[i] && *final(r@[i]) == final(a)@[i],
        forall |i: int| 0 <= i < old(b)@.len() ==> *(#[trigger] r@[i + old(a)@.len()]) == old(b)@[i] && *final(r@[i + old(a)@.len()]) == final(b)@[i],
        forall |i: int| 0 <= i < old(a)@.len() ==> *final(r@[i]) == #[trigger] final(a)@[i], forall |i: int| 0 <= i < old(b)@.len() ==> *final(r@[i + old(a)@.len()]) == #[trigger] final(b)@[i],
{ a.iter_mut().chain(b.iter_mut()).collect() }
//@fn documents/document_tree.rs::visit_document
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_document(*old(document), *final(document)), *final(visitor)), ro(*old(visitor)) ==> *final(document) == *old(document),
//@|   *final(document) == (Document { children: final(document).children, ..*old(document) }), final(document).children@.len() == old(document).children@.len(),
//@|   forall |i: int| 0 <= i < old(document).children@.len() ==> kept_section(#[trigger] old(document).children@[i], final(document).children@[i]),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *document; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Document| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_document_n(x0, d, it.index@ as int), *visitor),
//@|   forall |i: int| 0 <= i < it.index@ ==> kept_section(x0.children@[i], *final(#[trigger] it.seq()[i])),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Document| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_document_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DocumentChild::Paragraph(a), DocumentChild::Paragraph(b)) => ev_paragraph(*a, *b), (DocumentChild::Table(a), DocumentChild::Table(b)) => ev_table(*a, *b), (DocumentChild::StructuredDataTag(a), DocumentChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (DocumentChild::TableOfContents(a), DocumentChild::TableOfContents(b)) => ev_toc(*a, *b), (DocumentChild::Section(a), DocumentChild::Section(b)) => ev_section(*a, *b), (DocumentChild::CommentStart(a), DocumentChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_document_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DocumentChild::Paragraph(a), DocumentChild::Paragraph(b)) => ev_paragraph(*a, *b), (DocumentChild::Table(a), DocumentChild::Table(b)) => ev_table(*a, *b), (DocumentChild::StructuredDataTag(a), DocumentChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (DocumentChild::TableOfContents(a), DocumentChild::TableOfContents(b)) => ev_toc(*a, *b), (DocumentChild::Section(a), DocumentChild::Section(b)) => ev_section(*a, *b), (DocumentChild::CommentStart(a), DocumentChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_document_n(x0, d, it.index@ as int + 1) == ev_document_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DocumentChild::Paragraph(a), DocumentChild::Paragraph(b)) => ev_paragraph(*a, *b), (DocumentChild::Table(a), DocumentChild::Table(b)) => ev_table(*a, *b), (DocumentChild::StructuredDataTag(a), DocumentChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (DocumentChild::TableOfContents(a), DocumentChild::TableOfContents(b)) => ev_toc(*a, *b), (DocumentChild::Section(a), DocumentChild::Section(b)) => ev_section(*a, *b), (DocumentChild::CommentStart(a), DocumentChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_document(x0, *document) == ev_document_n(x0, *document, x0.children.len() as int)); assert(folds(v0, ev_document_n(x0, *document, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(document.children@ =~= x0.children@); axiom_vec_ext(document.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_header
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_header(*old(header), *final(header)), *final(visitor)), ro(*old(visitor)) ==> *final(header) == *old(header),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *header; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Header| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_header_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Header| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_header_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (HeaderChild::Paragraph(a), HeaderChild::Paragraph(b)) => ev_paragraph(*a, *b), (HeaderChild::Table(a), HeaderChild::Table(b)) => ev_table(*a, *b), (HeaderChild::StructuredDataTag(a), HeaderChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_header_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (HeaderChild::Paragraph(a), HeaderChild::Paragraph(b)) => ev_paragraph(*a, *b), (HeaderChild::Table(a), HeaderChild::Table(b)) => ev_table(*a, *b), (HeaderChild::StructuredDataTag(a), HeaderChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_header_n(x0, d, it.index@ as int + 1) == ev_header_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (HeaderChild::Paragraph(a), HeaderChild::Paragraph(b)) => ev_paragraph(*a, *b), (HeaderChild::Table(a), HeaderChild::Table(b)) => ev_table(*a, *b), (HeaderChild::StructuredDataTag(a), HeaderChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_header(x0, *header) == ev_header_n(x0, *header, x0.children.len() as int)); assert(folds(v0, ev_header_n(x0, *header, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(header.children@ =~= x0.children@); axiom_vec_ext(header.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_footer
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_footer(*old(footer), *final(footer)), *final(visitor)), ro(*old(visitor)) ==> *final(footer) == *old(footer),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *footer; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Footer| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_footer_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Footer| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_footer_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (FooterChild::Paragraph(a), FooterChild::Paragraph(b)) => ev_paragraph(*a, *b), (FooterChild::Table(a), FooterChild::Table(b)) => ev_table(*a, *b), (FooterChild::StructuredDataTag(a), FooterChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_footer_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (FooterChild::Paragraph(a), FooterChild::Paragraph(b)) => ev_paragraph(*a, *b), (FooterChild::Table(a), FooterChild::Table(b)) => ev_table(*a, *b), (FooterChild::StructuredDataTag(a), FooterChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_footer_n(x0, d, it.index@ as int + 1) == ev_footer_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (FooterChild::Paragraph(a), FooterChild::Paragraph(b)) => ev_paragraph(*a, *b), (FooterChild::Table(a), FooterChild::Table(b)) => ev_table(*a, *b), (FooterChild::StructuredDataTag(a), FooterChild::StructuredDataTag(b)) => ev_sdt(*a, *b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_footer(x0, *footer) == ev_footer_n(x0, *footer, x0.children.len() as int)); assert(folds(v0, ev_footer_n(x0, *footer, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(footer.children@ =~= x0.children@); axiom_vec_ext(footer.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_comment
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_comment(*old(comment), *final(comment)), *final(visitor)), ro(*old(visitor)) ==> *final(comment) == *old(comment),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *comment; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Comment| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_comment_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Comment| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_comment_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (CommentChild::Paragraph(a), CommentChild::Paragraph(b)) => ev_paragraph(*a, *b), (CommentChild::Table(a), CommentChild::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_comment_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (CommentChild::Paragraph(a), CommentChild::Paragraph(b)) => ev_paragraph(*a, *b), (CommentChild::Table(a), CommentChild::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_comment_n(x0, d, it.index@ as int + 1) == ev_comment_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (CommentChild::Paragraph(a), CommentChild::Paragraph(b)) => ev_paragraph(*a, *b), (CommentChild::Table(a), CommentChild::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_comment(x0, *comment) == ev_comment_n(x0, *comment, x0.children.len() as int)); assert(folds(v0, ev_comment_n(x0, *comment, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(comment.children@ =~= x0.children@); axiom_vec_ext(comment.children, x0.children); } }
//@end
/// Section properties are not handed to visitors.
pub open spec fn kept_section(a: DocumentChild, b: DocumentChild) -> bool {
    match a { DocumentChild::Section(s) => b matches DocumentChild::Section(t) && t.property == s.property, _ => !(b is Section) }
}
//@fn documents/document_tree.rs::visit_document_child
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), (match (*old(child), *final(child)) { (DocumentChild::Paragraph(a), DocumentChild::Paragraph(b)) => ev_paragraph(*a, *b), (DocumentChild::Table(a), DocumentChild::Table(b)) => ev_table(*a, *b), (DocumentChild::StructuredDataTag(a), DocumentChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (DocumentChild::TableOfContents(a), DocumentChild::TableOfContents(b)) => ev_toc(*a, *b), (DocumentChild::Section(a), DocumentChild::Section(b)) => ev_section(*a, *b), (DocumentChild::CommentStart(a), DocumentChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *final(visitor)), ro(*old(visitor)) ==> *final(child) == *old(child),
//@|   kept_section(*old(child), *final(child)),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| proof { lemma_still(*visitor); }
//@end
//@fn documents/document_tree.rs::visit_section
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_section(*old(section), *final(section)), *final(visitor)), ro(*old(visitor)) ==> *final(section) == *old(section),
//@|   *final(section) == (Section { children: final(section).children, ..*old(section) }),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *section; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Section| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_section_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Section| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_section_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (SectionChild::Paragraph(a), SectionChild::Paragraph(b)) => ev_paragraph(*a, *b), (SectionChild::Table(a), SectionChild::Table(b)) => ev_table(*a, *b), (SectionChild::StructuredDataTag(a), SectionChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (SectionChild::TableOfContents(a), SectionChild::TableOfContents(b)) => ev_toc(*a, *b), (SectionChild::CommentStart(a), SectionChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_section_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (SectionChild::Paragraph(a), SectionChild::Paragraph(b)) => ev_paragraph(*a, *b), (SectionChild::Table(a), SectionChild::Table(b)) => ev_table(*a, *b), (SectionChild::StructuredDataTag(a), SectionChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (SectionChild::TableOfContents(a), SectionChild::TableOfContents(b)) => ev_toc(*a, *b), (SectionChild::CommentStart(a), SectionChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_section_n(x0, d, it.index@ as int + 1) == ev_section_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (SectionChild::Paragraph(a), SectionChild::Paragraph(b)) => ev_paragraph(*a, *b), (SectionChild::Table(a), SectionChild::Table(b)) => ev_table(*a, *b), (SectionChild::StructuredDataTag(a), SectionChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (SectionChild::TableOfContents(a), SectionChild::TableOfContents(b)) => ev_toc(*a, *b), (SectionChild::CommentStart(a), SectionChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_section(x0, *section) == ev_section_n(x0, *section, x0.children.len() as int)); assert(folds(v0, ev_section_n(x0, *section, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(section.children@ =~= x0.children@); axiom_vec_ext(section.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_table
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_table(*old(table), *final(table)), *final(visitor)), ro(*old(visitor)) ==> *final(table) == *old(table),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *table; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.rows.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.rows[i], visitor.ok(),
//@|   forall |d: Table| ends(it.seq(), d.rows@, it.index@ as int) ==> #[trigger] folds(v0, ev_table_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.rows[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Table| ends(it.seq(), d.rows@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_table_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.rows@, it.index@ as int)); assert(d.rows@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.rows[it.index@ as int], d.rows[it.index@ as int]) { (TableChild::TableRow(a), TableChild::TableRow(b)) => ev_row(a, b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_table_n(x0, d, it.index@ as int), vm0, (match (x0.rows[it.index@ as int], d.rows[it.index@ as int]) { (TableChild::TableRow(a), TableChild::TableRow(b)) => ev_row(a, b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_table_n(x0, d, it.index@ as int + 1) == ev_table_n(x0, d, it.index@ as int) + (match (x0.rows[it.index@ as int], d.rows[it.index@ as int]) { (TableChild::TableRow(a), TableChild::TableRow(b)) => ev_row(a, b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_table(x0, *table) == ev_table_n(x0, *table, x0.rows.len() as int)); assert(folds(v0, ev_table_n(x0, *table, x0.rows.len() as int), *visitor)); proof { if ro(v0) { assert(table.rows@ =~= x0.rows@); axiom_vec_ext(table.rows, x0.rows); } }
//@loopstart 0
//@| let ghost r0 = x0.rows[it.index@ as int]->TableRow_0; let ghost v1 = *visitor;
//@loop 1 iter=jt
//@| invariant jt.seq().len() == r0.cells.len(), forall |i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == r0.cells[i], visitor.ok(),
//@|   forall |d: TableRow| ends(jt.seq(), d.cells@, jt.index@ as int) ==> #[trigger] folds(v1, ev_row_n(r0, d, jt.index@ as int), *visitor),
//@|   ro(v1) ==> forall |i: int| 0 <= i < jt.index@ ==> *final(#[trigger] jt.seq()[i]) == r0.cells[i],
//@loopstart 1
//@| let ghost vm1 = *visitor; proof { lemma_still(*visitor); }
//@loopend 1
//@| proof { assert forall |d: TableRow| ends(jt.seq(), d.cells@, jt.index@ as int + 1) implies #[trigger] folds(v1, ev_row_n(r0, d, jt.index@ as int + 1), *visitor) by {
//@|   assert(ends(jt.seq(), d.cells@, jt.index@ as int)); assert(d.cells@[jt.index@ as int] == *final(jt.seq()[jt.index@ as int])); assert(folds(vm1, (match (r0.cells[jt.index@ as int], d.cells[jt.index@ as int]) { (TableRowChild::TableCell(a), TableRowChild::TableCell(b)) => ev_cell(a, b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v1, ev_row_n(r0, d, jt.index@ as int), vm1, (match (r0.cells[jt.index@ as int], d.cells[jt.index@ as int]) { (TableRowChild::TableCell(a), TableRowChild::TableCell(b)) => ev_cell(a, b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_row_n(r0, d, jt.index@ as int + 1) == ev_row_n(r0, d, jt.index@ as int) + (match (r0.cells[jt.index@ as int], d.cells[jt.index@ as int]) { (TableRowChild::TableCell(a), TableRowChild::TableCell(b)) => ev_cell(a, b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 1
//@| assert(ev_row(r0, *row) == ev_row_n(r0, *row, r0.cells.len() as int)); assert(folds(v1, ev_row_n(r0, *row, r0.cells.len() as int), *visitor)); proof { if ro(v1) { assert(row.cells@ =~= r0.cells@); axiom_vec_ext(row.cells, r0.cells); } }
//@loopstart 1
//@| let ghost c0 = r0.cells[jt.index@ as int]->TableCell_0; let ghost v2 = *visitor;
//@loop 2 iter=kt
//@| invariant kt.seq().len() == c0.children.len(), forall |i: int| 0 <= i < kt.seq().len() ==> *(#[trigger] kt.seq()[i]) == c0.children[i], visitor.ok(),
//@|   forall |d: TableCell| ends(kt.seq(), d.children@, kt.index@ as int) ==> #[trigger] folds(v2, ev_cell_n(c0, d, kt.index@ as int), *visitor),
//@|   ro(v2) ==> forall |i: int| 0 <= i < kt.index@ ==> *final(#[trigger] kt.seq()[i]) == c0.children[i],
//@loopstart 2
//@| let ghost vm2 = *visitor; proof { lemma_still(*visitor); }
//@loopend 2
//@| proof { assert forall |d: TableCell| ends(kt.seq(), d.children@, kt.index@ as int + 1) implies #[trigger] folds(v2, ev_cell_n(c0, d, kt.index@ as int + 1), *visitor) by {
//@|   assert(ends(kt.seq(), d.children@, kt.index@ as int)); assert(d.children@[kt.index@ as int] == *final(kt.seq()[kt.index@ as int])); assert(folds(vm2, (match (c0.children[kt.index@ as int], d.children[kt.index@ as int]) { (TableCellContent::Paragraph(a), TableCellContent::Paragraph(b)) => ev_paragraph(*a, *b), (TableCellContent::Table(a), TableCellContent::Table(b)) => ev_table(*a, *b), (TableCellContent::StructuredDataTag(a), TableCellContent::StructuredDataTag(b)) => ev_sdt(*a, *b), (TableCellContent::TableOfContents(a), TableCellContent::TableOfContents(b)) => ev_toc(*a, *b), _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v2, ev_cell_n(c0, d, kt.index@ as int), vm2, (match (c0.children[kt.index@ as int], d.children[kt.index@ as int]) { (TableCellContent::Paragraph(a), TableCellContent::Paragraph(b)) => ev_paragraph(*a, *b), (TableCellContent::Table(a), TableCellContent::Table(b)) => ev_table(*a, *b), (TableCellContent::StructuredDataTag(a), TableCellContent::StructuredDataTag(b)) => ev_sdt(*a, *b), (TableCellContent::TableOfContents(a), TableCellContent::TableOfContents(b)) => ev_toc(*a, *b), _ => Seq::<Ev>::empty() }), *visitor); assert(ev_cell_n(c0, d, kt.index@ as int + 1) == ev_cell_n(c0, d, kt.index@ as int) + (match (c0.children[kt.index@ as int], d.children[kt.index@ as int]) { (TableCellContent::Paragraph(a), TableCellContent::Paragraph(b)) => ev_paragraph(*a, *b), (TableCellContent::Table(a), TableCellContent::Table(b)) => ev_table(*a, *b), (TableCellContent::StructuredDataTag(a), TableCellContent::StructuredDataTag(b)) => ev_sdt(*a, *b), (TableCellContent::TableOfContents(a), TableCellContent::TableOfContents(b)) => ev_toc(*a, *b), _ => Seq::<Ev>::empty() })); } }
//@afterloop 2
//@| assert(ev_cell(c0, *cell) == ev_cell_n(c0, *cell, c0.children.len() as int)); assert(folds(v2, ev_cell_n(c0, *cell, c0.children.len() as int), *visitor)); proof { if ro(v2) { assert(cell.children@ =~= c0.children@); axiom_vec_ext(cell.children, c0.children); } }
//@end
pub open spec fn ev_toc_n(x: TableOfContents, d: Vec<TocContent>, e: Vec<TocContent>, n: int) -> Seq<Ev> { let m = x.before_contents.len() as int; ev_tocs_n(x.before_contents, d, if n < m { n } else { m }) + ev_tocs_n(x.after_contents, e, n - m) }
/// As `ends`, for a sequence of borrows into two vectors.
#[verifier::prophetic]
pub open spec fn ends2<T>(s: Seq<&mut T>, d: Seq<T>, e: Seq<T>, n: int) -> bool { (forall |i: int| 0 <= i < n && i < d.len() ==> #[trigger] d[i] == *final(s[i])) && (forall |i: int| 0 <= i < n - d.len() ==> #[trigger] e[i] == *final(s[i + d.len()])) }
//@fn documents/document_tree.rs::visit_table_of_contents
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_toc(*old(toc), *final(toc)), *final(visitor)), ro(*old(visitor)) ==> *final(toc) == *old(toc),
//@sub `in it: toc~~.before_contents~~.iter_mut()~~.chain(toc.after_contents.iter_mut())` => `in it: vx_chain(&mut toc.before_contents, &mut toc.after_contents)`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *toc; let ghost v0 = *visitor; let ghost m = x0.before_contents@.len() as int; proof { lemma_still(*visitor); assert(Seq::<Ev>::empty() =~= Seq::<Ev>::empty() + Seq::<Ev>::empty()); }
//@loop 0 iter=it
//@| invariant visitor.ok(), it.seq().len() == m + x0.after_contents.len(), m == x0.before_contents.len(),
//@|   forall |i: int| 0 <= i < m ==> *(#[trigger] it.seq()[i]) == x0.before_contents[i],
//@|   forall |i: int| 0 <= i < x0.after_contents.len() ==> *(#[trigger] it.seq()[i + m]) == x0.after_contents[i],
//@|   forall |d: Vec<TocContent>, e: Vec<TocContent>| d.len() == m && ends2(it.seq(), d@, e@, it.index@ as int) ==> #[trigger] folds(v0, ev_toc_n(x0, d, e, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == (if i < m { x0.before_contents[i] } else { x0.after_contents[i - m] }),
//@loopstart 0
//@| let ghost vm = *visitor;
//@| proof { if it.index@ >= m { assert(*it.seq()[it.index@ - m + m] == x0.after_contents[it.index@ - m]); } }
//@loopend 0
//@| proof { assert forall |d: Vec<TocContent>, e: Vec<TocContent>| d.len() == m && ends2(it.seq(), d@, e@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_toc_n(x0, d, e, it.index@ as int + 1), *visitor) by {
//@|   assert(ends2(it.seq(), d@, e@, it.index@ as int)); if it.index@ < m { assert(d@[it.index@ as int] == *final(it.seq()[it.index@ as int])); } else { assert(e@[it.index@ - m] == *final(it.seq()[it.index@ - m + m])); }
//@|   assert(folds(vm, (if it.index@ < m { match (x0.before_contents[it.index@ as int], d[it.index@ as int]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } } else { match (x0.after_contents[it.index@ - m], e[it.index@ - m]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } }), *visitor)); lemma_folds(v0, ev_toc_n(x0, d, e, it.index@ as int), vm, (if it.index@ < m { match (x0.before_contents[it.index@ as int], d[it.index@ as int]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } } else { match (x0.after_contents[it.index@ - m], e[it.index@ - m]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } }), *visitor); assert((ev_toc_n(x0, d, e, it.index@ as int)) + (if it.index@ < m { match (x0.before_contents[it.index@ as int], d[it.index@ as int]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } } else { match (x0.after_contents[it.index@ - m], e[it.index@ - m]) { (TocContent::Paragraph(a), TocContent::Paragraph(b)) => ev_paragraph(*a, *b), (TocContent::Table(a), TocContent::Table(b)) => ev_table(*a, *b), _ => Seq::<Ev>::empty() } }) =~= ev_toc_n(x0, d, e, it.index@ as int + 1)); } }
//@afterloop 0
//@| proof { let d = toc.before_contents; let e = toc.after_contents; let n = m + x0.after_contents.len(); assert(folds(v0, ev_toc_n(x0, d, e, n), *visitor)); if ro(v0) { assert(d@ =~= x0.before_contents@); assert forall |i: int| 0 <= i < e@.len() implies e@[i] == x0.after_contents@[i] by { }; assert(e@ =~= x0.after_contents@); axiom_vec_ext(d, x0.before_contents); axiom_vec_ext(e, x0.after_contents); } }
//@end
//@fn documents/document_tree.rs::visit_structured_data_tag
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_sdt(*old(tag), *final(tag)), *final(visitor)), ro(*old(visitor)) ==> *final(tag) == *old(tag),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *tag; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: StructuredDataTag| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_sdt_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: StructuredDataTag| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_sdt_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (StructuredDataTagChild::Run(a), StructuredDataTagChild::Run(b)) => ev_run(*a, *b), (StructuredDataTagChild::Paragraph(a), StructuredDataTagChild::Paragraph(b)) => ev_paragraph(*a, *b), (StructuredDataTagChild::Table(a), StructuredDataTagChild::Table(b)) => ev_table(*a, *b), (StructuredDataTagChild::StructuredDataTag(a), StructuredDataTagChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (StructuredDataTagChild::CommentStart(a), StructuredDataTagChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_sdt_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (StructuredDataTagChild::Run(a), StructuredDataTagChild::Run(b)) => ev_run(*a, *b), (StructuredDataTagChild::Paragraph(a), StructuredDataTagChild::Paragraph(b)) => ev_paragraph(*a, *b), (StructuredDataTagChild::Table(a), StructuredDataTagChild::Table(b)) => ev_table(*a, *b), (StructuredDataTagChild::StructuredDataTag(a), StructuredDataTagChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (StructuredDataTagChild::CommentStart(a), StructuredDataTagChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_sdt_n(x0, d, it.index@ as int + 1) == ev_sdt_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (StructuredDataTagChild::Run(a), StructuredDataTagChild::Run(b)) => ev_run(*a, *b), (StructuredDataTagChild::Paragraph(a), StructuredDataTagChild::Paragraph(b)) => ev_paragraph(*a, *b), (StructuredDataTagChild::Table(a), StructuredDataTagChild::Table(b)) => ev_table(*a, *b), (StructuredDataTagChild::StructuredDataTag(a), StructuredDataTagChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (StructuredDataTagChild::CommentStart(a), StructuredDataTagChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_sdt(x0, *tag) == ev_sdt_n(x0, *tag, x0.children.len() as int)); assert(folds(v0, ev_sdt_n(x0, *tag, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(tag.children@ =~= x0.children@); axiom_vec_ext(tag.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_paragraph
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_paragraph(*old(paragraph), *final(paragraph)), *final(visitor)), ro(*old(visitor)) ==> *final(paragraph) == *old(paragraph),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *paragraph; let ghost v0 = *visitor;
//@after `visitor.visit_paragraph(paragraph);`
//@| let ghost v1 = *visitor; proof { assert(folds(v0, seq![Ev::Para(x0)], v1)); }
//@at end
//@| proof { lemma_folds(v0, seq![Ev::Para(x0)], v1, ev_paras(x0.children, paragraph.children), *visitor); }
//@end
//@fn documents/document_tree.rs::visit_hyperlink
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_hyperlink(*old(link), *final(link)), *final(visitor)), ro(*old(visitor)) ==> *final(link) == *old(link),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *link; let ghost v0 = *visitor;
//@after `visitor.visit_hyperlink(link);`
//@| let ghost v1 = *visitor; proof { assert(folds(v0, seq![Ev::Link(x0, link.link)], v1)); }
//@at end
//@| proof { lemma_folds(v0, seq![Ev::Link(x0, link.link)], v1, ev_paras(x0.children, link.children), *visitor); }
//@end
//@fn documents/document_tree.rs::visit_paragraph_children
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_paras(*old(children), *final(children)), *final(visitor)), ro(*old(visitor)) ==> *final(children) == *old(children),
//@sub `children: &mut [ParagraphChild]` => `children: &mut Vec<ParagraphChild>`
//@sub `for child in it: children` => `for child in it: children.iter_mut()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *children; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0[i], visitor.ok(),
//@|   forall |d: Vec<ParagraphChild>| ends(it.seq(), d@, it.index@ as int) ==> #[trigger] folds(v0, ev_paras_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Vec<ParagraphChild>| ends(it.seq(), d@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_paras_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d@, it.index@ as int)); assert(d@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0[it.index@ as int], d[it.index@ as int]) { (ParagraphChild::Run(a), ParagraphChild::Run(b)) => ev_run(*a, *b), (ParagraphChild::Insert(a), ParagraphChild::Insert(b)) => ev_insert(a, b), (ParagraphChild::Delete(a), ParagraphChild::Delete(b)) => ev_delete(a, b), (ParagraphChild::MoveFrom(a), ParagraphChild::MoveFrom(b)) => ev_move_from(a, b), (ParagraphChild::MoveTo(a), ParagraphChild::MoveTo(b)) => ev_move_to(a, b), (ParagraphChild::Hyperlink(a), ParagraphChild::Hyperlink(b)) => ev_hyperlink(a, b), (ParagraphChild::StructuredDataTag(a), ParagraphChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (ParagraphChild::CommentStart(a), ParagraphChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_paras_n(x0, d, it.index@ as int), vm0, (match (x0[it.index@ as int], d[it.index@ as int]) { (ParagraphChild::Run(a), ParagraphChild::Run(b)) => ev_run(*a, *b), (ParagraphChild::Insert(a), ParagraphChild::Insert(b)) => ev_insert(a, b), (ParagraphChild::Delete(a), ParagraphChild::Delete(b)) => ev_delete(a, b), (ParagraphChild::MoveFrom(a), ParagraphChild::MoveFrom(b)) => ev_move_from(a, b), (ParagraphChild::MoveTo(a), ParagraphChild::MoveTo(b)) => ev_move_to(a, b), (ParagraphChild::Hyperlink(a), ParagraphChild::Hyperlink(b)) => ev_hyperlink(a, b), (ParagraphChild::StructuredDataTag(a), ParagraphChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (ParagraphChild::CommentStart(a), ParagraphChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_paras_n(x0, d, it.index@ as int + 1) == ev_paras_n(x0, d, it.index@ as int) + (match (x0[it.index@ as int], d[it.index@ as int]) { (ParagraphChild::Run(a), ParagraphChild::Run(b)) => ev_run(*a, *b), (ParagraphChild::Insert(a), ParagraphChild::Insert(b)) => ev_insert(a, b), (ParagraphChild::Delete(a), ParagraphChild::Delete(b)) => ev_delete(a, b), (ParagraphChild::MoveFrom(a), ParagraphChild::MoveFrom(b)) => ev_move_from(a, b), (ParagraphChild::MoveTo(a), ParagraphChild::MoveTo(b)) => ev_move_to(a, b), (ParagraphChild::Hyperlink(a), ParagraphChild::Hyperlink(b)) => ev_hyperlink(a, b), (ParagraphChild::StructuredDataTag(a), ParagraphChild::StructuredDataTag(b)) => ev_sdt(*a, *b), (ParagraphChild::CommentStart(a), ParagraphChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_paras(x0, *children) == ev_paras_n(x0, *children, x0.len() as int)); assert(folds(v0, ev_paras_n(x0, *children, x0.len() as int), *visitor)); proof { if ro(v0) { assert((*children)@ =~= x0@); axiom_vec_ext(*children, x0); } }
//@end
//@fn documents/document_tree.rs::visit_insert
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_insert(*old(insert), *final(insert)), *final(visitor)), ro(*old(visitor)) ==> *final(insert) == *old(insert),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *insert; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Insert| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_insert_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Insert| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_insert_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (InsertChild::Run(a), InsertChild::Run(b)) => ev_run(*a, *b), (InsertChild::Delete(a), InsertChild::Delete(b)) => ev_delete(a, b), (InsertChild::CommentStart(a), InsertChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_insert_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (InsertChild::Run(a), InsertChild::Run(b)) => ev_run(*a, *b), (InsertChild::Delete(a), InsertChild::Delete(b)) => ev_delete(a, b), (InsertChild::CommentStart(a), InsertChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_insert_n(x0, d, it.index@ as int + 1) == ev_insert_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (InsertChild::Run(a), InsertChild::Run(b)) => ev_run(*a, *b), (InsertChild::Delete(a), InsertChild::Delete(b)) => ev_delete(a, b), (InsertChild::CommentStart(a), InsertChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_insert(x0, *insert) == ev_insert_n(x0, *insert, x0.children.len() as int)); assert(folds(v0, ev_insert_n(x0, *insert, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(insert.children@ =~= x0.children@); axiom_vec_ext(insert.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_delete
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_delete(*old(delete), *final(delete)), *final(visitor)), ro(*old(visitor)) ==> *final(delete) == *old(delete),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *delete; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Delete| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_delete_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Delete| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_delete_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DeleteChild::Run(a), DeleteChild::Run(b)) => ev_run(*a, *b), (DeleteChild::CommentStart(a), DeleteChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_delete_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DeleteChild::Run(a), DeleteChild::Run(b)) => ev_run(*a, *b), (DeleteChild::CommentStart(a), DeleteChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_delete_n(x0, d, it.index@ as int + 1) == ev_delete_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (DeleteChild::Run(a), DeleteChild::Run(b)) => ev_run(*a, *b), (DeleteChild::CommentStart(a), DeleteChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_delete(x0, *delete) == ev_delete_n(x0, *delete, x0.children.len() as int)); assert(folds(v0, ev_delete_n(x0, *delete, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(delete.children@ =~= x0.children@); axiom_vec_ext(delete.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_move_from
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_move_from(*old(moved), *final(moved)), *final(visitor)), ro(*old(visitor)) ==> *final(moved) == *old(moved),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *moved; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: MoveFrom| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_move_from_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: MoveFrom| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_move_from_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveFromChild::Run(a), MoveFromChild::Run(b)) => ev_run(*a, *b), (MoveFromChild::CommentStart(a), MoveFromChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_move_from_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveFromChild::Run(a), MoveFromChild::Run(b)) => ev_run(*a, *b), (MoveFromChild::CommentStart(a), MoveFromChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_move_from_n(x0, d, it.index@ as int + 1) == ev_move_from_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveFromChild::Run(a), MoveFromChild::Run(b)) => ev_run(*a, *b), (MoveFromChild::CommentStart(a), MoveFromChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_move_from(x0, *moved) == ev_move_from_n(x0, *moved, x0.children.len() as int)); assert(folds(v0, ev_move_from_n(x0, *moved, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(moved.children@ =~= x0.children@); axiom_vec_ext(moved.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_move_to
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_move_to(*old(moved), *final(moved)), *final(visitor)), ro(*old(visitor)) ==> *final(moved) == *old(moved),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *moved; let ghost v0 = *visitor; proof { lemma_still(*visitor); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: MoveTo| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v0, ev_move_to_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: MoveTo| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v0, ev_move_to_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveToChild::Run(a), MoveToChild::Run(b)) => ev_run(*a, *b), (MoveToChild::Delete(a), MoveToChild::Delete(b)) => ev_delete(a, b), (MoveToChild::CommentStart(a), MoveToChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v0, ev_move_to_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveToChild::Run(a), MoveToChild::Run(b)) => ev_run(*a, *b), (MoveToChild::Delete(a), MoveToChild::Delete(b)) => ev_delete(a, b), (MoveToChild::CommentStart(a), MoveToChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_move_to_n(x0, d, it.index@ as int + 1) == ev_move_to_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (MoveToChild::Run(a), MoveToChild::Run(b)) => ev_run(*a, *b), (MoveToChild::Delete(a), MoveToChild::Delete(b)) => ev_delete(a, b), (MoveToChild::CommentStart(a), MoveToChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_move_to(x0, *moved) == ev_move_to_n(x0, *moved, x0.children.len() as int)); assert(folds(v0, ev_move_to_n(x0, *moved, x0.children.len() as int), *visitor)); proof { if ro(v0) { assert(moved.children@ =~= x0.children@); axiom_vec_ext(moved.children, x0.children); } }
//@end
//@fn documents/document_tree.rs::visit_run
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), ev_run(*old(run), *final(run)), *final(visitor)), ro(*old(visitor)) ==> *final(run) == *old(run),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]
//@at start
//@| let ghost x0 = *run; let ghost v0 = *visitor;
//@after `visitor.visit_run(run);`
//@| let ghost v1 = *visitor; proof { lemma_still(*visitor); assert(folds(v0, seq![Ev::Run(x0)], v1)); }
//@loop 0 iter=it
//@| invariant it.seq().len() == x0.children.len(), forall |i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == x0.children[i], visitor.ok(),
//@|   forall |d: Run| ends(it.seq(), d.children@, it.index@ as int) ==> #[trigger] folds(v1, ev_run_kids_n(x0, d, it.index@ as int), *visitor),
//@|   ro(v1) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == x0.children[i],
//@loopstart 0
//@| let ghost vm0 = *visitor; proof { lemma_still(*visitor); }
//@loopend 0
//@| proof { assert forall |d: Run| ends(it.seq(), d.children@, it.index@ as int + 1) implies #[trigger] folds(v1, ev_run_kids_n(x0, d, it.index@ as int + 1), *visitor) by {
//@|   assert(ends(it.seq(), d.children@, it.index@ as int)); assert(d.children@[it.index@ as int] == *final(it.seq()[it.index@ as int])); assert(folds(vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (RunChild::Drawing(a), RunChild::Drawing(b)) => (match (a.data, b.data) { (Some(DrawingData::Pic(p)), Some(DrawingData::Pic(q))) => seq![Ev::Pic(p, q)], _ => Seq::<Ev>::empty() }), (RunChild::CommentStart(a), RunChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], (RunChild::FootnoteReference(a), RunChild::FootnoteReference(b)) => seq![Ev::Foot(a)], _ => Seq::<Ev>::empty() }), *visitor)); lemma_folds(v1, ev_run_kids_n(x0, d, it.index@ as int), vm0, (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (RunChild::Drawing(a), RunChild::Drawing(b)) => (match (a.data, b.data) { (Some(DrawingData::Pic(p)), Some(DrawingData::Pic(q))) => seq![Ev::Pic(p, q)], _ => Seq::<Ev>::empty() }), (RunChild::CommentStart(a), RunChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], (RunChild::FootnoteReference(a), RunChild::FootnoteReference(b)) => seq![Ev::Foot(a)], _ => Seq::<Ev>::empty() }), *visitor); assert(ev_run_kids_n(x0, d, it.index@ as int + 1) == ev_run_kids_n(x0, d, it.index@ as int) + (match (x0.children[it.index@ as int], d.children[it.index@ as int]) { (RunChild::Drawing(a), RunChild::Drawing(b)) => (match (a.data, b.data) { (Some(DrawingData::Pic(p)), Some(DrawingData::Pic(q))) => seq![Ev::Pic(p, q)], _ => Seq::<Ev>::empty() }), (RunChild::CommentStart(a), RunChild::CommentStart(b)) => seq![Ev::Com(*a, *b)], (RunChild::FootnoteReference(a), RunChild::FootnoteReference(b)) => seq![Ev::Foot(a)], _ => Seq::<Ev>::empty() })); } }
//@afterloop 0
//@| assert(ev_run_kids(x0, *run) == ev_run_kids_n(x0, *run, x0.children.len() as int)); assert(folds(v1, ev_run_kids_n(x0, *run, x0.children.len() as int), *visitor)); proof { if ro(v1) { assert(run.children@ =~= x0.children@); axiom_vec_ext(run.children, x0.children); } }
//@afterloop 0
//@| proof { lemma_folds(v0, seq![Ev::Run(x0)], v1, ev_run_kids(x0, *run), *visitor); }
//@end
