use vstd::multiset::Multiset;
// Paragraph ids of a document, in the order in which they are collected.
pub type Id = Seq<char>;

pub open spec fn k_doc(c: DocumentChild) -> Seq<Id> decreases c, 0int { match c { DocumentChild::Paragraph(p) => id_paragraph(*p), DocumentChild::Table(t) => id_table(*t), DocumentChild::StructuredDataTag(s) => id_sdt(*s), DocumentChild::TableOfContents(t) => id_toc(*t), DocumentChild::Section(s) => id_section(*s), DocumentChild::CommentStart(c) => id_comment(c.comment), _ => Seq::<Id>::empty() } }
pub open spec fn k_docs(s: Seq<DocumentChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_docs(s, n - 1) + k_doc(s[n - 1]) } }
pub open spec fn k_sec(c: SectionChild) -> Seq<Id> decreases c, 0int { match c { SectionChild::Paragraph(p) => id_paragraph(*p), SectionChild::Table(t) => id_table(*t), SectionChild::StructuredDataTag(s) => id_sdt(*s), SectionChild::TableOfContents(t) => id_toc(*t), SectionChild::CommentStart(c) => id_comment(c.comment), _ => Seq::<Id>::empty() } }
pub open spec fn k_secs(s: Seq<SectionChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_secs(s, n - 1) + k_sec(s[n - 1]) } }
pub open spec fn k_hdr(c: HeaderChild) -> Seq<Id> decreases c, 0int { match c { HeaderChild::Paragraph(p) => id_paragraph(*p), HeaderChild::Table(t) => id_table(*t), HeaderChild::StructuredDataTag(s) => id_sdt(*s) } }
pub open spec fn k_hdrs(s: Seq<HeaderChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_hdrs(s, n - 1) + k_hdr(s[n - 1]) } }
pub open spec fn k_ftr(c: FooterChild) -> Seq<Id> decreases c, 0int { match c { FooterChild::Paragraph(p) => id_paragraph(*p), FooterChild::Table(t) => id_table(*t), FooterChild::StructuredDataTag(s) => id_sdt(*s) } }
pub open spec fn k_ftrs(s: Seq<FooterChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_ftrs(s, n - 1) + k_ftr(s[n - 1]) } }
pub open spec fn k_com(c: CommentChild) -> Seq<Id> decreases c, 0int { match c { CommentChild::Paragraph(p) => id_paragraph(*p), CommentChild::Table(t) => id_table(*t) } }
pub open spec fn k_coms(s: Seq<CommentChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_coms(s, n - 1) + k_com(s[n - 1]) } }
pub open spec fn k_toc(c: TocContent) -> Seq<Id> decreases c, 0int { match c { TocContent::Paragraph(p) => id_paragraph(*p), TocContent::Table(t) => id_table(*t) } }
pub open spec fn k_tocs(s: Seq<TocContent>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_tocs(s, n - 1) + k_toc(s[n - 1]) } }
pub open spec fn k_row(c: TableChild) -> Seq<Id> decreases c, 0int { match c { TableChild::TableRow(r) => k_cells(r.cells@, r.cells@.len() as int) } }
pub open spec fn k_rows(s: Seq<TableChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_rows(s, n - 1) + k_row(s[n - 1]) } }
pub open spec fn k_cell(c: TableRowChild) -> Seq<Id> decreases c, 0int { match c { TableRowChild::TableCell(c) => k_cons(c.children@, c.children@.len() as int) } }
pub open spec fn k_cells(s: Seq<TableRowChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_cells(s, n - 1) + k_cell(s[n - 1]) } }
pub open spec fn k_con(c: TableCellContent) -> Seq<Id> decreases c, 0int { match c { TableCellContent::Paragraph(p) => id_paragraph(*p), TableCellContent::Table(t) => id_table(*t), TableCellContent::StructuredDataTag(s) => id_sdt(*s), TableCellContent::TableOfContents(t) => id_toc(*t) } }
pub open spec fn k_cons(s: Seq<TableCellContent>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_cons(s, n - 1) + k_con(s[n - 1]) } }
pub open spec fn k_par(c: ParagraphChild) -> Seq<Id> decreases c, 0int { match c { ParagraphChild::Run(r) => id_run(*r), ParagraphChild::CommentStart(c) => id_comment(c.comment), ParagraphChild::Insert(i) => id_insert(i), ParagraphChild::Delete(d) => id_delete(d), ParagraphChild::MoveFrom(m) => id_move_from(m), ParagraphChild::MoveTo(m) => id_move_to(m), ParagraphChild::Hyperlink(h) => id_hyperlink(h), ParagraphChild::StructuredDataTag(s) => id_sdt(*s), _ => Seq::<Id>::empty() } }
pub open spec fn k_pars(s: Seq<ParagraphChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_pars(s, n - 1) + k_par(s[n - 1]) } }
pub open spec fn k_ins(c: InsertChild) -> Seq<Id> decreases c, 0int { match c { InsertChild::Run(r) => id_run(*r), InsertChild::CommentStart(c) => id_comment(c.comment), InsertChild::Delete(d) => id_delete(d), _ => Seq::<Id>::empty() } }
pub open spec fn k_inss(s: Seq<InsertChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_inss(s, n - 1) + k_ins(s[n - 1]) } }
pub open spec fn k_del(c: DeleteChild) -> Seq<Id> decreases c, 0int { match c { DeleteChild::Run(r) => id_run(*r), DeleteChild::CommentStart(c) => id_comment(c.comment), _ => Seq::<Id>::empty() } }
pub open spec fn k_dels(s: Seq<DeleteChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_dels(s, n - 1) + k_del(s[n - 1]) } }
pub open spec fn k_mvf(c: MoveFromChild) -> Seq<Id> decreases c, 0int { match c { MoveFromChild::Run(r) => id_run(*r), MoveFromChild::CommentStart(c) => id_comment(c.comment), _ => Seq::<Id>::empty() } }
pub open spec fn k_mvfs(s: Seq<MoveFromChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_mvfs(s, n - 1) + k_mvf(s[n - 1]) } }
pub open spec fn k_mvt(c: MoveToChild) -> Seq<Id> decreases c, 0int { match c { MoveToChild::Run(r) => id_run(*r), MoveToChild::Delete(d) => id_delete(d), MoveToChild::CommentStart(c) => id_comment(c.comment), _ => Seq::<Id>::empty() } }
pub open spec fn k_mvts(s: Seq<MoveToChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_mvts(s, n - 1) + k_mvt(s[n - 1]) } }
pub open spec fn k_run(c: RunChild) -> Seq<Id> decreases c, 0int { match c { RunChild::CommentStart(c) => id_comment(c.comment), RunChild::FootnoteReference(f) => k_notes(f.content@, f.content@.len() as int), _ => Seq::<Id>::empty() } }
pub open spec fn k_runs(s: Seq<RunChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_runs(s, n - 1) + k_run(s[n - 1]) } }
pub open spec fn k_sdt(c: StructuredDataTagChild) -> Seq<Id> decreases c, 0int { match c { StructuredDataTagChild::Run(r) => id_run(*r), StructuredDataTagChild::Paragraph(p) => id_paragraph(*p), StructuredDataTagChild::Table(t) => id_table(*t), StructuredDataTagChild::CommentStart(c) => id_comment(c.comment), StructuredDataTagChild::StructuredDataTag(s) => id_sdt(*s), _ => Seq::<Id>::empty() } }
pub open spec fn k_sdts(s: Seq<StructuredDataTagChild>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_sdts(s, n - 1) + k_sdt(s[n - 1]) } }
pub open spec fn k_note(c: Paragraph) -> Seq<Id> decreases c, 1int { id_paragraph(c) }
pub open spec fn k_notes(s: Seq<Paragraph>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_notes(s, n - 1) + k_note(s[n - 1]) } }
pub open spec fn k_comment(c: Comment) -> Seq<Id> { id_comment(c) }
pub open spec fn k_comments(s: Seq<Comment>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_comments(s, n - 1) + k_comment(s[n - 1]) } }
pub open spec fn k_foot(c: Footnote) -> Seq<Id> { k_notes(c.content@, c.content@.len() as int) }
pub open spec fn k_foots(s: Seq<Footnote>, n: int) -> Seq<Id> decreases s, n { if n <= 0 || n > s.len() { Seq::<Id>::empty() } else { k_foots(s, n - 1) + k_foot(s[n - 1]) } }
pub open spec fn id_paragraph(x: Paragraph) -> Seq<Id> decreases x, 0int { seq![x.id@] + k_pars(x.children@, x.children@.len() as int) }
pub open spec fn id_hyperlink(x: Hyperlink) -> Seq<Id> decreases x, 0int { k_pars(x.children@, x.children@.len() as int) }
pub open spec fn id_insert(x: Insert) -> Seq<Id> decreases x, 0int { k_inss(x.children@, x.children@.len() as int) }
pub open spec fn id_delete(x: Delete) -> Seq<Id> decreases x, 0int { k_dels(x.children@, x.children@.len() as int) }
pub open spec fn id_move_from(x: MoveFrom) -> Seq<Id> decreases x, 0int { k_mvfs(x.children@, x.children@.len() as int) }
pub open spec fn id_move_to(x: MoveTo) -> Seq<Id> decreases x, 0int { k_mvts(x.children@, x.children@.len() as int) }
pub open spec fn id_run(x: Run) -> Seq<Id> decreases x, 0int { k_runs(x.children@, x.children@.len() as int) }
pub open spec fn id_sdt(x: StructuredDataTag) -> Seq<Id> decreases x, 0int { k_sdts(x.children@, x.children@.len() as int) }
pub open spec fn id_comment(x: Comment) -> Seq<Id> decreases x, 0int { k_coms(x.children@, x.children@.len() as int) }
pub open spec fn id_header(x: Header) -> Seq<Id> decreases x, 0int { k_hdrs(x.children@, x.children@.len() as int) }
pub open spec fn id_footer(x: Footer) -> Seq<Id> decreases x, 0int { k_ftrs(x.children@, x.children@.len() as int) }
pub open spec fn id_table(x: Table) -> Seq<Id> decreases x, 0int { k_rows(x.rows@, x.rows@.len() as int) }
pub open spec fn id_toc(x: TableOfContents) -> Seq<Id> decreases x, 0int { k_tocs(x.before_contents@, x.before_contents@.len() as int) + k_tocs(x.after_contents@, x.after_contents@.len() as int) }
pub open spec fn id_section(x: Section) -> Seq<Id> decreases x, 0int { k_secs(x.children@, x.children@.len() as int) + id_property(x.property) }
pub open spec fn id_oh(x: Option<(String, Header)>) -> Seq<Id> decreases x, 0int { match x { Some(h) => id_header(h.1), None => Seq::<Id>::empty() } }
pub open spec fn id_of(x: Option<(String, Footer)>) -> Seq<Id> decreases x, 0int { match x { Some(h) => id_footer(h.1), None => Seq::<Id>::empty() } }
pub open spec fn id_property(x: SectionProperty) -> Seq<Id> decreases x, 0int { id_oh(x.header) + id_oh(x.first_header) + id_oh(x.even_header) + id_of(x.footer) + id_of(x.first_footer) + id_of(x.even_footer) }
pub open spec fn id_docx(x: Docx) -> Seq<Id> { k_docs(x.document.children@, x.document.children@.len() as int) + id_property(x.document.section_property) + k_comments(x.comments.comments@, x.comments.comments@.len() as int) + k_foots(x.footnotes.footnotes@, x.footnotes.footnotes@.len() as int) }
// TRUSTED: the map from ids to their number of occurrences, as the ids it was told, without order.
#[verifier::external_body]
pub struct IdLog { m: std::collections::HashMap<String, usize> }
impl IdLog {
    pub uninterp spec fn view(&self) -> Multiset<Id>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<Id>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn bump(&mut self, id: &str) ensures final(self)@ == old(self)@.insert(id@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, id: &str) -> (r: bool) ensures r == self@.contains(id@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_repeated(&self) -> (r: StrSet) ensures forall |x: Id| r@.contains(x) == (self@.count(x) >= 2) { unimplemented!() }
    #[verifier::external_body] pub fn vx_keys(self) -> (r: StrSet) ensures forall |x: Id| r@.contains(x) == (self@.count(x) >= 1) { unimplemented!() }
}
/// Ids without regard to their order.
#[verifier::opaque] pub open spec fn ms(s: Seq<Id>) -> Multiset<Id> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { ms(s.drop_last()).insert(s.last()) } }
pub broadcast proof fn ms_add(a: Seq<Id>, b: Seq<Id>) ensures #[trigger] ms(a + b) == ms(a).add(ms(b)) decreases b.len()
{
    reveal_with_fuel(ms, 2);
    if b.len() == 0 { assert(a + b =~= a); assert(ms(a).add(ms(b)) =~= ms(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); ms_add(a, b.drop_last()); assert(ms(a + b) =~= ms(a).add(ms(b))); }
}
pub broadcast proof fn ms_one(x: Id) ensures #[trigger] ms(seq![x]) == Multiset::<Id>::empty().insert(x) { reveal_with_fuel(ms, 3); assert(seq![x].drop_last() =~= Seq::<Id>::empty()); }
pub broadcast proof fn ms_none() ensures #[trigger] ms(Seq::<Id>::empty()) == Multiset::<Id>::empty() { reveal_with_fuel(ms, 2); }
/// An id is counted as often as it occurs.
pub proof fn ms_counts(a: Seq<Id>, x: Id)
    ensures (ms(a).count(x) >= 1) == a.contains(x), (ms(a).count(x) >= 2) == repeated(a).contains(x)
    decreases a.len()
{
    reveal_with_fuel(ms, 2);
    if a.len() > 0 {
        let d = a.drop_last(); ms_counts(d, x);
        if d.contains(x) { let i = choose |i: int| 0 <= i < d.len() && d[i] == x; assert(a[i] == x); if a.last() == x { assert(a[i] == x && a[a.len() - 1] == x); } }
        if a.contains(x) { let i = choose |i: int| 0 <= i < a.len() && a[i] == x; if i < d.len() { assert(d[i] == x); } }
        if a.last() == x { assert(a[a.len() - 1] == x); }
        if repeated(d).contains(x) { let (i, j) = choose |i: int, j: int| 0 <= i < j < d.len() && d[i] == x && d[j] == x; assert(a[i] == x && a[j] == x); }
        if repeated(a).contains(x) { let (i, j) = choose |i: int, j: int| 0 <= i < j < a.len() && a[i] == x && a[j] == x; assert(d[i] == x); if j < d.len() { assert(d[j] == x); } }
    }
}
pub open spec fn repeated(a: Seq<Id>) -> Set<Id> { a.to_set().filter(|x: Id| exists |i: int, j: int| 0 <= i < j < a.len() && a[i] == x && a[j] == x) }
//@gsub `HashMap<&'a str, usize>` => `IdLog`
//@gsub `HashMap<&str, usize>` => `IdLog`
//@fn documents/mod.rs::collect_para_ids_in_hyperlink
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_hyperlink(*hyperlink))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == hyperlink.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == hyperlink.children@[i],
//@|   counts@ =~= l0.add(ms(k_pars(hyperlink.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_par(hyperlink.children@[it0.index@ as int])))); assert(k_pars(hyperlink.children@, it0.index@ as int + 1) == k_pars(hyperlink.children@, it0.index@ as int) + k_par(hyperlink.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_pars(hyperlink.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_hyperlink(*hyperlink))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_insert
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_insert(*insert))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == insert.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == insert.children@[i],
//@|   counts@ =~= l0.add(ms(k_inss(insert.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_ins(insert.children@[it0.index@ as int])))); assert(k_inss(insert.children@, it0.index@ as int + 1) == k_inss(insert.children@, it0.index@ as int) + k_ins(insert.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_inss(insert.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_insert(*insert))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_delete
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_delete(*delete))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == delete.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == delete.children@[i],
//@|   counts@ =~= l0.add(ms(k_dels(delete.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_del(delete.children@[it0.index@ as int])))); assert(k_dels(delete.children@, it0.index@ as int + 1) == k_dels(delete.children@, it0.index@ as int) + k_del(delete.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_dels(delete.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_delete(*delete))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_move_from
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_move_from(*moved))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == moved.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == moved.children@[i],
//@|   counts@ =~= l0.add(ms(k_mvfs(moved.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_mvf(moved.children@[it0.index@ as int])))); assert(k_mvfs(moved.children@, it0.index@ as int + 1) == k_mvfs(moved.children@, it0.index@ as int) + k_mvf(moved.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_mvfs(moved.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_move_from(*moved))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_move_to
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_move_to(*moved))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == moved.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == moved.children@[i],
//@|   counts@ =~= l0.add(ms(k_mvts(moved.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_mvt(moved.children@[it0.index@ as int])))); assert(k_mvts(moved.children@, it0.index@ as int + 1) == k_mvts(moved.children@, it0.index@ as int) + k_mvt(moved.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_mvts(moved.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_move_to(*moved))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_structured_data_tag
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_sdt(*tag))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == tag.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == tag.children@[i],
//@|   counts@ =~= l0.add(ms(k_sdts(tag.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_sdt(tag.children@[it0.index@ as int])))); assert(k_sdts(tag.children@, it0.index@ as int + 1) == k_sdts(tag.children@, it0.index@ as int) + k_sdt(tag.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_sdts(tag.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_sdt(*tag))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_comment
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_comment(*comment))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == comment.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == comment.children@[i],
//@|   counts@ =~= l0.add(ms(k_coms(comment.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_com(comment.children@[it0.index@ as int])))); assert(k_coms(comment.children@, it0.index@ as int + 1) == k_coms(comment.children@, it0.index@ as int) + k_com(comment.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_coms(comment.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_comment(*comment))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_header
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_header(*header))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == header.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == header.children@[i],
//@|   counts@ =~= l0.add(ms(k_hdrs(header.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_hdr(header.children@[it0.index@ as int])))); assert(k_hdrs(header.children@, it0.index@ as int + 1) == k_hdrs(header.children@, it0.index@ as int) + k_hdr(header.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_hdrs(header.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_header(*header))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_footer
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_footer(*footer))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == footer.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == footer.children@[i],
//@|   counts@ =~= l0.add(ms(k_ftrs(footer.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_ftr(footer.children@[it0.index@ as int])))); assert(k_ftrs(footer.children@, it0.index@ as int + 1) == k_ftrs(footer.children@, it0.index@ as int) + k_ftr(footer.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_ftrs(footer.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_footer(*footer))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_section
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_section(*section))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == section.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == section.children@[i],
//@|   counts@ =~= l0.add(ms(k_secs(section.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_sec(section.children@[it0.index@ as int])))); assert(k_secs(section.children@, it0.index@ as int + 1) == k_secs(section.children@, it0.index@ as int) + k_sec(section.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_secs(section.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_section(*section))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_toc
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_toc(*toc))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == toc.before_contents@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == toc.before_contents@[i],
//@|   counts@ =~= l0.add(ms(k_tocs(toc.before_contents@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_toc(toc.before_contents@[it0.index@ as int])))); assert(k_tocs(toc.before_contents@, it0.index@ as int + 1) == k_tocs(toc.before_contents@, it0.index@ as int) + k_toc(toc.before_contents@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_tocs(toc.before_contents@, it0.index@ as int + 1))));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == toc.after_contents@.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == toc.after_contents@[i],
//@|   counts@ =~= l0.add(ms(k_tocs(toc.before_contents@, toc.before_contents@.len() as int) + k_tocs(toc.after_contents@, it1.index@ as int))),
//@loopstart 1
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb1 = counts@;
//@loopend 1
//@| assert(counts@ =~= lb1.add(ms(k_toc(toc.after_contents@[it1.index@ as int])))); assert(k_tocs(toc.after_contents@, it1.index@ as int + 1) == k_tocs(toc.after_contents@, it1.index@ as int) + k_toc(toc.after_contents@[it1.index@ as int])); assert(counts@ =~= l0.add(ms(k_tocs(toc.before_contents@, toc.before_contents@.len() as int) + k_tocs(toc.after_contents@, it1.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_toc(*toc))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_document_child
//@| ensures final(counts)@ =~= old(counts)@.add(ms(k_doc(*child))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; 
//@end
//@fn documents/mod.rs::collect_para_ids_in_section_property
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_property(*property))),
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@; let ghost p = *property;
//@at end
//@| assert(counts@ =~= l0.add(ms(id_property(p))));
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@end
//@fn documents/mod.rs::collect_para_ids_in_paragraph
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_paragraph(*paragraph))),
//@sub `*counts.entry(paragraph.id.as_str()).or_insert(0) += 1` => `counts.bump(paragraph.id.as_str())`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == paragraph.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == paragraph.children@[i],
//@|   counts@ =~= l0.add(ms(seq![paragraph.id@] + k_pars(paragraph.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_par(paragraph.children@[it0.index@ as int])))); assert(k_pars(paragraph.children@, it0.index@ as int + 1) == k_pars(paragraph.children@, it0.index@ as int) + k_par(paragraph.children@[it0.index@ as int])); assert(counts@ =~= l0.add(ms(seq![paragraph.id@] + k_pars(paragraph.children@, it0.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_paragraph(*paragraph))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_run
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_run(*run))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == run.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == run.children@[i],
//@|   counts@ =~= l0.add(ms(k_runs(run.children@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost l1 = counts@;
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_run(run.children@[it0.index@ as int])))); assert(k_runs(run.children@, it0.index@ as int + 1) == k_runs(run.children@, it0.index@ as int) + k_run(run.children@[it0.index@ as int])); assert(counts@ =~= l1.add(ms(k_run(run.children@[it0.index@ as int])))); assert(counts@ =~= l0.add(ms(k_runs(run.children@, it0.index@ as int + 1))));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == reference.content@.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == reference.content@[i],
//@|   counts@ =~= l1.add(ms(k_notes(reference.content@, it1.index@ as int))),
//@loopstart 1
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb1 = counts@;
//@loopend 1
//@| assert(counts@ =~= lb1.add(ms(k_note(reference.content@[it1.index@ as int])))); assert(k_notes(reference.content@, it1.index@ as int + 1) == k_notes(reference.content@, it1.index@ as int) + k_note(reference.content@[it1.index@ as int])); assert(counts@ =~= l1.add(ms(k_notes(reference.content@, it1.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_run(*run))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_table
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_table(*table))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == table.rows@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == table.rows@[i],
//@|   counts@ =~= l0.add(ms(k_rows(table.rows@, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost l1 = counts@; let ghost r0 = table.rows@[it0.index@ as int]->TableRow_0.cells@;
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_row(table.rows@[it0.index@ as int])))); assert(k_rows(table.rows@, it0.index@ as int + 1) == k_rows(table.rows@, it0.index@ as int) + k_row(table.rows@[it0.index@ as int])); assert(counts@ =~= l1.add(ms(k_row(table.rows@[it0.index@ as int])))); assert(counts@ =~= l0.add(ms(k_rows(table.rows@, it0.index@ as int + 1))));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == r0.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == r0[i],
//@|   counts@ =~= l1.add(ms(k_cells(r0, it1.index@ as int))),
//@loopstart 1
//@| broadcast use ms_add, ms_one, ms_none; let ghost l2 = counts@; let ghost c0 = r0[it1.index@ as int]->TableCell_0.children@;
//@loopstart 1
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb1 = counts@;
//@loopend 1
//@| assert(counts@ =~= lb1.add(ms(k_cell(r0[it1.index@ as int])))); assert(k_cells(r0, it1.index@ as int + 1) == k_cells(r0, it1.index@ as int) + k_cell(r0[it1.index@ as int])); assert(counts@ =~= l2.add(ms(k_cell(r0[it1.index@ as int])))); assert(counts@ =~= l1.add(ms(k_cells(r0, it1.index@ as int + 1))));
//@loop 2 iter=it2
//@| invariant it2.seq().len() == c0.len(), forall |i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == c0[i],
//@|   counts@ =~= l2.add(ms(k_cons(c0, it2.index@ as int))),
//@loopstart 2
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb2 = counts@;
//@loopend 2
//@| assert(counts@ =~= lb2.add(ms(k_con(c0[it2.index@ as int])))); assert(k_cons(c0, it2.index@ as int + 1) == k_cons(c0, it2.index@ as int) + k_con(c0[it2.index@ as int])); assert(counts@ =~= l2.add(ms(k_cons(c0, it2.index@ as int + 1))));
//@at end
//@| assert(counts@ =~= l0.add(ms(id_table(*table))));
//@end
//@fn documents/mod.rs::collect_para_ids_in_docx
//@| ensures final(counts)@ =~= old(counts)@.add(ms(id_docx(*docx))),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@at start
//@| broadcast use ms_add, ms_one, ms_none; let ghost l0 = counts@; let ghost d = docx.document.children@; let ghost p = id_property(docx.document.section_property); let ghost c = docx.comments.comments@; let ghost f = docx.footnotes.footnotes@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == d.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == d[i],
//@|   counts@ =~= l0.add(ms(k_docs(d, it0.index@ as int))),
//@loopstart 0
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb0 = counts@;
//@loopend 0
//@| assert(counts@ =~= lb0.add(ms(k_doc(d[it0.index@ as int])))); assert(k_docs(d, it0.index@ as int + 1) == k_docs(d, it0.index@ as int) + k_doc(d[it0.index@ as int])); assert(counts@ =~= l0.add(ms(k_docs(d, it0.index@ as int + 1))));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == c.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == c[i],
//@|   counts@ =~= l0.add(ms(k_docs(d, d.len() as int) + p + k_comments(c, it1.index@ as int))),
//@loopstart 1
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb1 = counts@;
//@loopend 1
//@| assert(counts@ =~= lb1.add(ms(k_comment(c[it1.index@ as int])))); assert(k_comments(c, it1.index@ as int + 1) == k_comments(c, it1.index@ as int) + k_comment(c[it1.index@ as int])); assert(counts@ =~= l0.add(ms(k_docs(d, d.len() as int) + p + k_comments(c, it1.index@ as int + 1))));
//@loop 2 iter=it2
//@| invariant it2.seq().len() == f.len(), forall |i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == f[i],
//@|   counts@ =~= l0.add(ms(k_docs(d, d.len() as int) + p + k_comments(c, c.len() as int) + k_foots(f, it2.index@ as int))),
//@loopstart 2
//@| broadcast use ms_add, ms_one, ms_none; let ghost l1 = counts@; let ghost n = f[it2.index@ as int].content@;
//@loopstart 2
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb2 = counts@;
//@loopend 2
//@| assert(counts@ =~= lb2.add(ms(k_foot(f[it2.index@ as int])))); assert(k_foots(f, it2.index@ as int + 1) == k_foots(f, it2.index@ as int) + k_foot(f[it2.index@ as int])); assert(counts@ =~= l1.add(ms(k_foot(f[it2.index@ as int])))); assert(counts@ =~= l0.add(ms(k_docs(d, d.len() as int) + p + k_comments(c, c.len() as int) + k_foots(f, it2.index@ as int + 1))));
//@loop 3 iter=it3
//@| invariant it3.seq().len() == n.len(), forall |i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == n[i],
//@|   counts@ =~= l1.add(ms(k_notes(n, it3.index@ as int))),
//@loopstart 3
//@| broadcast use ms_add, ms_one, ms_none; let ghost lb3 = counts@;
//@loopend 3
//@| assert(counts@ =~= lb3.add(ms(k_note(n[it3.index@ as int])))); assert(k_notes(n, it3.index@ as int + 1) == k_notes(n, it3.index@ as int) + k_note(n[it3.index@ as int])); assert(counts@ =~= l1.add(ms(k_notes(n, it3.index@ as int + 1))));
//@end
/// What refreshing does to a stretch of paragraphs with ids `a`, which then have ids `b`: an id outside `dup` stays, of each
/// id in `dup` at most one occurrence stays, and every other paragraph gets an id nobody used; (u, s) are the used and seen ids.
#[verifier::opaque]
pub open spec fn step(a: Seq<Id>, b: Seq<Id>, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>) -> bool {
    &&& a.len() == b.len() && u0.subset_of(u1) && s0.subset_of(s1)
    &&& (forall |i: int| 0 <= i < a.len() ==> u0.contains(#[trigger] a[i])) ==> {
        &&& forall |i: int| 0 <= i < a.len() ==> #[trigger] cls(a[i], b[i], dup, u0, s0, u1, s1)
        &&& forall |i: int, j: int| 0 <= i < j < a.len() && #[trigger] b[i] == #[trigger] b[j] ==> !dup.contains(b[i]) && b[i] == a[i] && b[j] == a[j]
    }
}
pub open spec fn cls(x: Id, y: Id, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>) -> bool {
    y.len() > 0 && if x.len() > 0 && !dup.contains(x) { y == x } else if y == x { dup.contains(x) && !s0.contains(x) && s1.contains(x) } else { !u0.contains(y) && u1.contains(y) }
}
proof fn cat(a: Seq<Id>, b: Seq<Id>, c: Seq<Id>, d: Seq<Id>, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>, u2: Set<Id>, s2: Set<Id>)
    requires step(a, b, dup, u0, s0, u1, s1), step(c, d, dup, u1, s1, u2, s2)
    ensures step(a + c, b + d, dup, u0, s0, u2, s2)
{
    reveal(step);
    let x = a + c; let y = b + d;
    if forall |i: int| 0 <= i < x.len() ==> u0.contains(#[trigger] x[i]) {
        assert forall |i: int| 0 <= i < a.len() implies u0.contains(#[trigger] a[i]) by { assert(x[i] == a[i]); }
        assert forall |i: int| 0 <= i < c.len() implies u1.contains(#[trigger] c[i]) && u0.contains(c[i]) by { assert(x[a.len() + i] == c[i]); }
        assert forall |i: int| 0 <= i < x.len() implies #[trigger] cls(x[i], y[i], dup, u0, s0, u2, s2) by {
            if i < a.len() { assert(cls(a[i], b[i], dup, u0, s0, u1, s1)); } else { assert(cls(c[i - a.len()], d[i - a.len()], dup, u1, s1, u2, s2)); } }
        assert forall |i: int, j: int| 0 <= i < j < x.len() && #[trigger] y[i] == #[trigger] y[j] implies !dup.contains(y[i]) && y[i] == x[i] && y[j] == x[j] by {
            if j < a.len() { assert(b[i] == b[j]); } else if i >= a.len() { assert(d[i - a.len()] == d[j - a.len()]); }
            else { assert(cls(a[i], b[i], dup, u0, s0, u1, s1)); assert(cls(c[j - a.len()], d[j - a.len()], dup, u1, s1, u2, s2)); assert(u0.contains(a[i])); assert(u0.contains(c[j - a.len()])); } }
    }
}
broadcast proof fn none(dup: Set<Id>, u: Set<Id>, s: Set<Id>) ensures #[trigger] step(Seq::<Id>::empty(), Seq::<Id>::empty(), dup, u, s, u, s) { reveal(step); }
#[verifier::prophetic]
pub open spec fn agree<T>(d: Seq<T>, s: Seq<&mut T>, n: int) -> bool { d.len() >= n && forall |i: int| 0 <= i < n ==> d[i] == *final(#[trigger] s[i]) }
/// After refreshing, no two paragraphs have the same id, none is empty, and an id that was unique is still there.
proof fn lemma_unique(a: Seq<Id>, b: Seq<Id>, u1: Set<Id>, s1: Set<Id>)
    requires step(a, b, repeated(a), a.to_set(), Set::<Id>::empty(), u1, s1)
    ensures distinct(b), kept(a, b)
{
    reveal(step);
    let dup = repeated(a);
    assert forall |i: int| 0 <= i < a.len() implies a.to_set().contains(#[trigger] a[i]) by {}
    assert forall |i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { if b[i] == b[j] { assert(a[i] == a[j]); assert(dup.contains(a[i])); } }
    assert forall |i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by { assert(cls(a[i], b[i], dup, a.to_set(), Set::<Id>::empty(), u1, s1)); }
    assert forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0 && !dup.contains(a[i]) implies b[i] == a[i] by { assert(cls(a[i], b[i], dup, a.to_set(), Set::<Id>::empty(), u1, s1)); }
}
pub open spec fn distinct(b: Seq<Id>) -> bool { (forall |i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] != #[trigger] b[j]) && forall |i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0 }
pub open spec fn kept(a: Seq<Id>, b: Seq<Id>) -> bool { a.len() == b.len() && forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0 && !repeated(a).contains(a[i]) ==> b[i] == a[i] }
//@fn documents/mod.rs::refresh_para_ids_in_hyperlink
//@| ensures step(id_hyperlink(*old(hyperlink)), id_hyperlink(*final(hyperlink)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = hyperlink.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<ParagraphChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_pars(c0, it0.index@ as int), #[trigger] k_pars(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<ParagraphChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_pars(c0, it0.index@ as int + 1), #[trigger] k_pars(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_pars(c0, n), k_pars(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_par(c0[n]), k_par(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_pars(c0, n), k_pars(d, n), k_par(c0[n]), k_par(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_pars(c0, c0.len() as int), k_pars(hyperlink.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(hyperlink.children@.len() == c0.len()); assert(id_hyperlink(*hyperlink) == k_pars(hyperlink.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_insert
//@| ensures step(id_insert(*old(insert)), id_insert(*final(insert)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = insert.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<InsertChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_inss(c0, it0.index@ as int), #[trigger] k_inss(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<InsertChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_inss(c0, it0.index@ as int + 1), #[trigger] k_inss(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_inss(c0, n), k_inss(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_ins(c0[n]), k_ins(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_inss(c0, n), k_inss(d, n), k_ins(c0[n]), k_ins(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_inss(c0, c0.len() as int), k_inss(insert.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(insert.children@.len() == c0.len()); assert(id_insert(*insert) == k_inss(insert.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_delete
//@| ensures step(id_delete(*old(delete)), id_delete(*final(delete)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = delete.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<DeleteChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_dels(c0, it0.index@ as int), #[trigger] k_dels(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<DeleteChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_dels(c0, it0.index@ as int + 1), #[trigger] k_dels(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_dels(c0, n), k_dels(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_del(c0[n]), k_del(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_dels(c0, n), k_dels(d, n), k_del(c0[n]), k_del(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_dels(c0, c0.len() as int), k_dels(delete.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(delete.children@.len() == c0.len()); assert(id_delete(*delete) == k_dels(delete.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_move_from
//@| ensures step(id_move_from(*old(moved)), id_move_from(*final(moved)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = moved.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<MoveFromChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_mvfs(c0, it0.index@ as int), #[trigger] k_mvfs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<MoveFromChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_mvfs(c0, it0.index@ as int + 1), #[trigger] k_mvfs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_mvfs(c0, n), k_mvfs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_mvf(c0[n]), k_mvf(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_mvfs(c0, n), k_mvfs(d, n), k_mvf(c0[n]), k_mvf(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_mvfs(c0, c0.len() as int), k_mvfs(moved.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(moved.children@.len() == c0.len()); assert(id_move_from(*moved) == k_mvfs(moved.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_move_to
//@| ensures step(id_move_to(*old(moved)), id_move_to(*final(moved)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = moved.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<MoveToChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_mvts(c0, it0.index@ as int), #[trigger] k_mvts(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<MoveToChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_mvts(c0, it0.index@ as int + 1), #[trigger] k_mvts(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_mvts(c0, n), k_mvts(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_mvt(c0[n]), k_mvt(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_mvts(c0, n), k_mvts(d, n), k_mvt(c0[n]), k_mvt(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_mvts(c0, c0.len() as int), k_mvts(moved.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(moved.children@.len() == c0.len()); assert(id_move_to(*moved) == k_mvts(moved.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_structured_data_tag
//@| ensures step(id_sdt(*old(tag)), id_sdt(*final(tag)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = tag.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<StructuredDataTagChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_sdts(c0, it0.index@ as int), #[trigger] k_sdts(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<StructuredDataTagChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_sdts(c0, it0.index@ as int + 1), #[trigger] k_sdts(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_sdts(c0, n), k_sdts(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_sdt(c0[n]), k_sdt(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_sdts(c0, n), k_sdts(d, n), k_sdt(c0[n]), k_sdt(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_sdts(c0, c0.len() as int), k_sdts(tag.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(tag.children@.len() == c0.len()); assert(id_sdt(*tag) == k_sdts(tag.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_comment
//@| ensures step(id_comment(*old(comment)), id_comment(*final(comment)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = comment.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<CommentChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_coms(c0, it0.index@ as int), #[trigger] k_coms(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<CommentChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_coms(c0, it0.index@ as int + 1), #[trigger] k_coms(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_coms(c0, n), k_coms(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_com(c0[n]), k_com(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_coms(c0, n), k_coms(d, n), k_com(c0[n]), k_com(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_coms(c0, c0.len() as int), k_coms(comment.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(comment.children@.len() == c0.len()); assert(id_comment(*comment) == k_coms(comment.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_header
//@| ensures step(id_header(*old(header)), id_header(*final(header)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = header.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<HeaderChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_hdrs(c0, it0.index@ as int), #[trigger] k_hdrs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<HeaderChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_hdrs(c0, it0.index@ as int + 1), #[trigger] k_hdrs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_hdrs(c0, n), k_hdrs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_hdr(c0[n]), k_hdr(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_hdrs(c0, n), k_hdrs(d, n), k_hdr(c0[n]), k_hdr(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_hdrs(c0, c0.len() as int), k_hdrs(header.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(header.children@.len() == c0.len()); assert(id_header(*header) == k_hdrs(header.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_footer
//@| ensures step(id_footer(*old(footer)), id_footer(*final(footer)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = footer.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<FooterChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_ftrs(c0, it0.index@ as int), #[trigger] k_ftrs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<FooterChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_ftrs(c0, it0.index@ as int + 1), #[trigger] k_ftrs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_ftrs(c0, n), k_ftrs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_ftr(c0[n]), k_ftr(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_ftrs(c0, n), k_ftrs(d, n), k_ftr(c0[n]), k_ftr(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_ftrs(c0, c0.len() as int), k_ftrs(footer.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(footer.children@.len() == c0.len()); assert(id_footer(*footer) == k_ftrs(footer.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_document_child
//@| ensures step(k_doc(*old(child)), k_doc(*final(child)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none;
//@end
//@fn documents/mod.rs::refresh_para_ids_in_section
//@| ensures step(id_section(*old(section)), id_section(*final(section)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = section.children@; let ghost p0 = section.property;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<SectionChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_secs(c0, it0.index@ as int), #[trigger] k_secs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<SectionChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_secs(c0, it0.index@ as int + 1), #[trigger] k_secs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_secs(c0, n), k_secs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_sec(c0[n]), k_sec(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_secs(c0, n), k_secs(d, n), k_sec(c0[n]), k_sec(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_secs(c0, c0.len() as int), k_secs(section.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(section.children@.len() == c0.len());
//@afterloop 0
//@| let ghost ub = used@; let ghost sb = seen@; let ghost b1 = k_secs(section.children@, c0.len() as int);
//@at end
//@| proof { cat(k_secs(c0, c0.len() as int), b1, id_property(p0), id_property(section.property), duplicates@, u0, s0, ub, sb, used@, seen@); assert(section.children@.len() == c0.len()); assert(id_section(*section) == k_secs(section.children@, c0.len() as int) + id_property(section.property)); }
//@end
//@fn documents/mod.rs::refresh_para_ids_in_toc
//@| ensures step(id_toc(*old(toc)), id_toc(*final(toc)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = toc.before_contents@; let ghost c1 = toc.after_contents@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<TocContent>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_tocs(c0, it0.index@ as int), #[trigger] k_tocs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<TocContent>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_tocs(c0, it0.index@ as int + 1), #[trigger] k_tocs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_tocs(c0, n), k_tocs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_toc(c0[n]), k_toc(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_tocs(c0, n), k_tocs(d, n), k_toc(c0[n]), k_toc(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| let ghost ub = used@; let ghost sb = seen@; let ghost b1 = k_tocs(toc.before_contents@, c0.len() as int); assert(step(k_tocs(c0, c0.len() as int), b1, duplicates@, u0, s0, ub, sb));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == c1.len(), forall |i: int| 0 <= i < c1.len() ==> *(#[trigger] it1.seq()[i]) == c1[i],
//@|   forall |d: Seq<TocContent>| agree(d, it1.seq(), it1.index@ as int) ==> step(k_tocs(c1, it1.index@ as int), #[trigger] k_tocs(d, it1.index@ as int), duplicates@, ub, sb, used@, seen@),
//@loopstart 1
//@| broadcast use none; let ghost ua1 = used@; let ghost sa1 = seen@;
//@loopend 1
//@| 
//@| assert forall |d: Seq<TocContent>| agree(d, it1.seq(), it1.index@ as int + 1) implies step(k_tocs(c1, it1.index@ as int + 1), #[trigger] k_tocs(d, it1.index@ as int + 1), duplicates@, ub, sb, used@, seen@) by {
//@|   let n = it1.index@ as int; assert(agree(d, it1.seq(), n)); assert(step(k_tocs(c1, n), k_tocs(d, n), duplicates@, ub, sb, ua1, sa1));
//@|   assert(d[n] == *final(it1.seq()[n])); assert(step(k_toc(c1[n]), k_toc(d[n]), duplicates@, ua1, sa1, used@, seen@));
//@|   cat(k_tocs(c1, n), k_tocs(d, n), k_toc(c1[n]), k_toc(d[n]), duplicates@, ub, sb, ua1, sa1, used@, seen@); }
//@afterloop 1
//@| assert(step(k_tocs(c1, c1.len() as int), k_tocs(toc.after_contents@, c1.len() as int), duplicates@, ub, sb, used@, seen@)); assert(toc.after_contents@.len() == c1.len());
//@at end
//@| proof { cat(k_tocs(c0, c0.len() as int), b1, k_tocs(c1, c1.len() as int), k_tocs(toc.after_contents@, c1.len() as int), duplicates@, u0, s0, ub, sb, used@, seen@); assert(toc.before_contents@.len() == c0.len()); assert(id_toc(*toc) == k_tocs(toc.before_contents@, c0.len() as int) + k_tocs(toc.after_contents@, c1.len() as int)); }
//@end
//@fn documents/mod.rs::refresh_para_ids_in_paragraph
//@| ensures step(id_paragraph(*old(paragraph)), id_paragraph(*final(paragraph)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = paragraph.children@; let ghost i0 = paragraph.id@;
//@before `for child in &mut paragraph.children`
//@| let ghost ub = used@; let ghost sb = seen@; let ghost i1 = paragraph.id@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<ParagraphChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_pars(c0, it0.index@ as int), #[trigger] k_pars(d, it0.index@ as int), duplicates@, ub, sb, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<ParagraphChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_pars(c0, it0.index@ as int + 1), #[trigger] k_pars(d, it0.index@ as int + 1), duplicates@, ub, sb, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_pars(c0, n), k_pars(d, n), duplicates@, ub, sb, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_par(c0[n]), k_par(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_pars(c0, n), k_pars(d, n), k_par(c0[n]), k_par(d[n]), duplicates@, ub, sb, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| assert(step(k_pars(c0, c0.len() as int), k_pars(paragraph.children@, c0.len() as int), duplicates@, ub, sb, used@, seen@)); assert(paragraph.children@.len() == c0.len());
//@at end
//@| proof { cat(seq![i0], seq![i1], k_pars(c0, c0.len() as int), k_pars(paragraph.children@, c0.len() as int), duplicates@, u0, s0, ub, sb, used@, seen@); assert(id_paragraph(*paragraph) == seq![i1] + k_pars(paragraph.children@, c0.len() as int)); }
//@end
//@fn documents/mod.rs::refresh_para_ids_in_run
//@| ensures step(id_run(*old(run)), id_run(*final(run)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = run.children@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<RunChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_runs(c0, it0.index@ as int), #[trigger] k_runs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@; let ghost n0 = c0[it0.index@ as int]->FootnoteReference_0.content@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<RunChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_runs(c0, it0.index@ as int + 1), #[trigger] k_runs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_runs(c0, n), k_runs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_run(c0[n]), k_run(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_runs(c0, n), k_runs(d, n), k_run(c0[n]), k_run(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@loop 1 iter=it1
//@| invariant it1.seq().len() == n0.len(), forall |i: int| 0 <= i < n0.len() ==> *(#[trigger] it1.seq()[i]) == n0[i],
//@|   forall |d: Seq<Paragraph>| agree(d, it1.seq(), it1.index@ as int) ==> step(k_notes(n0, it1.index@ as int), #[trigger] k_notes(d, it1.index@ as int), duplicates@, ua0, sa0, used@, seen@),
//@loopstart 1
//@| broadcast use none; let ghost ua1 = used@; let ghost sa1 = seen@;
//@loopend 1
//@| 
//@| assert forall |d: Seq<Paragraph>| agree(d, it1.seq(), it1.index@ as int + 1) implies step(k_notes(n0, it1.index@ as int + 1), #[trigger] k_notes(d, it1.index@ as int + 1), duplicates@, ua0, sa0, used@, seen@) by {
//@|   let n = it1.index@ as int; assert(agree(d, it1.seq(), n)); assert(step(k_notes(n0, n), k_notes(d, n), duplicates@, ua0, sa0, ua1, sa1));
//@|   assert(d[n] == *final(it1.seq()[n])); assert(step(k_note(n0[n]), k_note(d[n]), duplicates@, ua1, sa1, used@, seen@));
//@|   cat(k_notes(n0, n), k_notes(d, n), k_note(n0[n]), k_note(d[n]), duplicates@, ua0, sa0, ua1, sa1, used@, seen@); }
//@afterloop 1
//@| assert(step(k_notes(n0, n0.len() as int), k_notes(reference.content@, n0.len() as int), duplicates@, ua0, sa0, used@, seen@)); assert(reference.content@.len() == n0.len());
//@afterloop 0
//@| assert(step(k_runs(c0, c0.len() as int), k_runs(run.children@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(run.children@.len() == c0.len()); assert(id_run(*run) == k_runs(run.children@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_table
//@| ensures step(id_table(*old(table)), id_table(*final(table)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = table.rows@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<TableChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_rows(c0, it0.index@ as int), #[trigger] k_rows(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@; let ghost c1 = c0[it0.index@ as int]->TableRow_0.cells@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<TableChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_rows(c0, it0.index@ as int + 1), #[trigger] k_rows(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_rows(c0, n), k_rows(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_row(c0[n]), k_row(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_rows(c0, n), k_rows(d, n), k_row(c0[n]), k_row(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@loop 1 iter=it1
//@| invariant it1.seq().len() == c1.len(), forall |i: int| 0 <= i < c1.len() ==> *(#[trigger] it1.seq()[i]) == c1[i],
//@|   forall |d: Seq<TableRowChild>| agree(d, it1.seq(), it1.index@ as int) ==> step(k_cells(c1, it1.index@ as int), #[trigger] k_cells(d, it1.index@ as int), duplicates@, ua0, sa0, used@, seen@),
//@loopstart 1
//@| broadcast use none; let ghost ua1 = used@; let ghost sa1 = seen@; let ghost c2 = c1[it1.index@ as int]->TableCell_0.children@;
//@loopend 1
//@| 
//@| assert forall |d: Seq<TableRowChild>| agree(d, it1.seq(), it1.index@ as int + 1) implies step(k_cells(c1, it1.index@ as int + 1), #[trigger] k_cells(d, it1.index@ as int + 1), duplicates@, ua0, sa0, used@, seen@) by {
//@|   let n = it1.index@ as int; assert(agree(d, it1.seq(), n)); assert(step(k_cells(c1, n), k_cells(d, n), duplicates@, ua0, sa0, ua1, sa1));
//@|   assert(d[n] == *final(it1.seq()[n])); assert(step(k_cell(c1[n]), k_cell(d[n]), duplicates@, ua1, sa1, used@, seen@));
//@|   cat(k_cells(c1, n), k_cells(d, n), k_cell(c1[n]), k_cell(d[n]), duplicates@, ua0, sa0, ua1, sa1, used@, seen@); }
//@loop 2 iter=it2
//@| invariant it2.seq().len() == c2.len(), forall |i: int| 0 <= i < c2.len() ==> *(#[trigger] it2.seq()[i]) == c2[i],
//@|   forall |d: Seq<TableCellContent>| agree(d, it2.seq(), it2.index@ as int) ==> step(k_cons(c2, it2.index@ as int), #[trigger] k_cons(d, it2.index@ as int), duplicates@, ua1, sa1, used@, seen@),
//@loopstart 2
//@| broadcast use none; let ghost ua2 = used@; let ghost sa2 = seen@;
//@loopend 2
//@| 
//@| assert forall |d: Seq<TableCellContent>| agree(d, it2.seq(), it2.index@ as int + 1) implies step(k_cons(c2, it2.index@ as int + 1), #[trigger] k_cons(d, it2.index@ as int + 1), duplicates@, ua1, sa1, used@, seen@) by {
//@|   let n = it2.index@ as int; assert(agree(d, it2.seq(), n)); assert(step(k_cons(c2, n), k_cons(d, n), duplicates@, ua1, sa1, ua2, sa2));
//@|   assert(d[n] == *final(it2.seq()[n])); assert(step(k_con(c2[n]), k_con(d[n]), duplicates@, ua2, sa2, used@, seen@));
//@|   cat(k_cons(c2, n), k_cons(d, n), k_con(c2[n]), k_con(d[n]), duplicates@, ua1, sa1, ua2, sa2, used@, seen@); }
//@afterloop 2
//@| assert(step(k_cons(c2, c2.len() as int), k_cons(cell.children@, c2.len() as int), duplicates@, ua1, sa1, used@, seen@)); assert(cell.children@.len() == c2.len());
//@afterloop 1
//@| assert(step(k_cells(c1, c1.len() as int), k_cells(row.cells@, c1.len() as int), duplicates@, ua0, sa0, used@, seen@)); assert(row.cells@.len() == c1.len());
//@afterloop 0
//@| assert(step(k_rows(c0, c0.len() as int), k_rows(table.rows@, c0.len() as int), duplicates@, u0, s0, used@, seen@)); assert(table.rows@.len() == c0.len()); assert(id_table(*table) == k_rows(table.rows@, c0.len() as int));
//@end
//@fn documents/mod.rs::refresh_para_ids_in_section_property
//@| ensures step(id_property(*old(property)), id_property(*final(property)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),
//@sub `.as_mut()` => `.as_mut()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost p0 = *property;
//@after `property.header.as_mut()`
//@| let ghost u1 = used@; let ghost s1 = seen@; let ghost b1 = id_oh(property.header); assert(step(id_oh(p0.header), b1, duplicates@, u0, s0, u1, s1));
//@after `property.first_header.as_mut()`
//@| let ghost u2 = used@; let ghost s2 = seen@; let ghost b2 = id_oh(property.first_header); assert(step(id_oh(p0.first_header), b2, duplicates@, u1, s1, u2, s2));
//@after `property.even_header.as_mut()`
//@| let ghost u3 = used@; let ghost s3 = seen@; let ghost b3 = id_oh(property.even_header); assert(step(id_oh(p0.even_header), b3, duplicates@, u2, s2, u3, s3));
//@after `property.footer.as_mut()`
//@| let ghost u4 = used@; let ghost s4 = seen@; let ghost b4 = id_of(property.footer); assert(step(id_of(p0.footer), b4, duplicates@, u3, s3, u4, s4));
//@after `property.first_footer.as_mut()`
//@| let ghost u5 = used@; let ghost s5 = seen@; let ghost b5 = id_of(property.first_footer); assert(step(id_of(p0.first_footer), b5, duplicates@, u4, s4, u5, s5));
//@at end
//@| let ghost u6 = used@; let ghost s6 = seen@; let ghost b6 = id_of(property.even_footer); assert(step(id_of(p0.even_footer), b6, duplicates@, u5, s5, u6, s6));
//@at end
//@| proof { cat(id_oh(p0.header), b1, id_oh(p0.first_header), b2, duplicates@, u0, s0, u1, s1, u2, s2); cat(id_oh(p0.header) + id_oh(p0.first_header), b1 + b2, id_oh(p0.even_header), b3, duplicates@, u0, s0, u2, s2, u3, s3); cat(id_oh(p0.header) + id_oh(p0.first_header) + id_oh(p0.even_header), b1 + b2 + b3, id_of(p0.footer), b4, duplicates@, u0, s0, u3, s3, u4, s4); cat(id_oh(p0.header) + id_oh(p0.first_header) + id_oh(p0.even_header) + id_of(p0.footer), b1 + b2 + b3 + b4, id_of(p0.first_footer), b5, duplicates@, u0, s0, u4, s4, u5, s5); cat(id_oh(p0.header) + id_oh(p0.first_header) + id_oh(p0.even_header) + id_of(p0.footer) + id_of(p0.first_footer), b1 + b2 + b3 + b4 + b5, id_of(p0.even_footer), b6, duplicates@, u0, s0, u5, s5, u6, s6); }
//@end
//@fn documents/mod.rs::ensure_unique_paragraph_id
//@| ensures step(seq![old(paragraph).id@], seq![final(paragraph).id@], duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@), *final(paragraph) == (Paragraph { id: final(paragraph).id, ..*old(paragraph) }),
//@at start
//@| proof { reveal(step); }
//@end
//@fn documents/mod.rs::next_unique_paragraph_id
//@| ensures !used@.contains(r@), r@.len() > 0,
//@sub `(first_candidate..)~~.map(|value| format!("{value:08x}"))~~.find(|candidate| !used.contains(candidate))~~.expect("the paragraph ID space should not be exhausted")` => `vx_first_unused(used, first_candidate)`
//@sub `used~~.len()~~.checked_add(1)~~.expect("the paragraph ID space should not be exhausted")` => `vx_first(used)`
//@end
// TRUSTED: the scan yields the first eight-digit number that is not used; a generated id is not empty.
#[verifier::external_body]
pub fn vx_first(used: &StrSet) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn vx_first_unused(used: &StrSet, n: usize) -> (r: String) ensures !used@.contains(r@), r@.len() > 0 { unimplemented!() }
//@fn documents/paragraph_id.rs::generate_para_id ext
//@| ensures r@.len() == 8,
//@end
#[verifier::external_body]
pub fn vx_reserve<T>(x: T) { unimplemented!() }
//@fn documents/mod.rs::refresh_para_ids_in_docx
//@| ensures step(id_docx(*old(docx)), id_docx(*final(docx)), duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@), final(docx).document_rels == old(docx).document_rels,
//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost c0 = docx.document.children@; let ghost p0 = docx.document.section_property; let ghost c1 = docx.comments.comments@; let ghost c2 = docx.footnotes.footnotes@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == c0.len(), forall |i: int| 0 <= i < c0.len() ==> *(#[trigger] it0.seq()[i]) == c0[i],
//@|   forall |d: Seq<DocumentChild>| agree(d, it0.seq(), it0.index@ as int) ==> step(k_docs(c0, it0.index@ as int), #[trigger] k_docs(d, it0.index@ as int), duplicates@, u0, s0, used@, seen@),
//@loopstart 0
//@| broadcast use none; let ghost ua0 = used@; let ghost sa0 = seen@;
//@loopend 0
//@| 
//@| assert forall |d: Seq<DocumentChild>| agree(d, it0.seq(), it0.index@ as int + 1) implies step(k_docs(c0, it0.index@ as int + 1), #[trigger] k_docs(d, it0.index@ as int + 1), duplicates@, u0, s0, used@, seen@) by {
//@|   let n = it0.index@ as int; assert(agree(d, it0.seq(), n)); assert(step(k_docs(c0, n), k_docs(d, n), duplicates@, u0, s0, ua0, sa0));
//@|   assert(d[n] == *final(it0.seq()[n])); assert(step(k_doc(c0[n]), k_doc(d[n]), duplicates@, ua0, sa0, used@, seen@));
//@|   cat(k_docs(c0, n), k_docs(d, n), k_doc(c0[n]), k_doc(d[n]), duplicates@, u0, s0, ua0, sa0, used@, seen@); }
//@afterloop 0
//@| let ghost u1 = used@; let ghost s1 = seen@; let ghost b1 = k_docs(docx.document.children@, c0.len() as int); assert(step(k_docs(c0, c0.len() as int), b1, duplicates@, u0, s0, u1, s1));
//@before `for comment in`
//@| let ghost u2 = used@; let ghost s2 = seen@; let ghost b2 = id_property(docx.document.section_property);
//@loop 1 iter=it1
//@| invariant it1.seq().len() == c1.len(), forall |i: int| 0 <= i < c1.len() ==> *(#[trigger] it1.seq()[i]) == c1[i],
//@|   forall |d: Seq<Comment>| agree(d, it1.seq(), it1.index@ as int) ==> step(k_comments(c1, it1.index@ as int), #[trigger] k_comments(d, it1.index@ as int), duplicates@, u2, s2, used@, seen@),
//@loopstart 1
//@| broadcast use none; let ghost ua1 = used@; let ghost sa1 = seen@;
//@loopend 1
//@| 
//@| assert forall |d: Seq<Comment>| agree(d, it1.seq(), it1.index@ as int + 1) implies step(k_comments(c1, it1.index@ as int + 1), #[trigger] k_comments(d, it1.index@ as int + 1), duplicates@, u2, s2, used@, seen@) by {
//@|   let n = it1.index@ as int; assert(agree(d, it1.seq(), n)); assert(step(k_comments(c1, n), k_comments(d, n), duplicates@, u2, s2, ua1, sa1));
//@|   assert(d[n] == *final(it1.seq()[n])); assert(step(k_comment(c1[n]), k_comment(d[n]), duplicates@, ua1, sa1, used@, seen@));
//@|   cat(k_comments(c1, n), k_comments(d, n), k_comment(c1[n]), k_comment(d[n]), duplicates@, u2, s2, ua1, sa1, used@, seen@); }
//@afterloop 1
//@| let ghost u3 = used@; let ghost s3 = seen@; let ghost b3 = k_comments(docx.comments.comments@, c1.len() as int); assert(step(k_comments(c1, c1.len() as int), b3, duplicates@, u2, s2, u3, s3));
//@loop 2 iter=it2
//@| invariant it2.seq().len() == c2.len(), forall |i: int| 0 <= i < c2.len() ==> *(#[trigger] it2.seq()[i]) == c2[i],
//@|   forall |d: Seq<Footnote>| agree(d, it2.seq(), it2.index@ as int) ==> step(k_foots(c2, it2.index@ as int), #[trigger] k_foots(d, it2.index@ as int), duplicates@, u3, s3, used@, seen@),
//@loopstart 2
//@| broadcast use none; let ghost ua2 = used@; let ghost sa2 = seen@; let ghost n0 = c2[it2.index@ as int].content@;
//@loopend 2
//@| 
//@| assert forall |d: Seq<Footnote>| agree(d, it2.seq(), it2.index@ as int + 1) implies step(k_foots(c2, it2.index@ as int + 1), #[trigger] k_foots(d, it2.index@ as int + 1), duplicates@, u3, s3, used@, seen@) by {
//@|   let n = it2.index@ as int; assert(agree(d, it2.seq(), n)); assert(step(k_foots(c2, n), k_foots(d, n), duplicates@, u3, s3, ua2, sa2));
//@|   assert(d[n] == *final(it2.seq()[n])); assert(step(k_foot(c2[n]), k_foot(d[n]), duplicates@, ua2, sa2, used@, seen@));
//@|   cat(k_foots(c2, n), k_foots(d, n), k_foot(c2[n]), k_foot(d[n]), duplicates@, u3, s3, ua2, sa2, used@, seen@); }
//@loop 3 iter=it3
//@| invariant it3.seq().len() == n0.len(), forall |i: int| 0 <= i < n0.len() ==> *(#[trigger] it3.seq()[i]) == n0[i],
//@|   forall |d: Seq<Paragraph>| agree(d, it3.seq(), it3.index@ as int) ==> step(k_notes(n0, it3.index@ as int), #[trigger] k_notes(d, it3.index@ as int), duplicates@, ua2, sa2, used@, seen@),
//@loopstart 3
//@| broadcast use none; let ghost ua3 = used@; let ghost sa3 = seen@;
//@loopend 3
//@| 
//@| assert forall |d: Seq<Paragraph>| agree(d, it3.seq(), it3.index@ as int + 1) implies step(k_notes(n0, it3.index@ as int + 1), #[trigger] k_notes(d, it3.index@ as int + 1), duplicates@, ua2, sa2, used@, seen@) by {
//@|   let n = it3.index@ as int; assert(agree(d, it3.seq(), n)); assert(step(k_notes(n0, n), k_notes(d, n), duplicates@, ua2, sa2, ua3, sa3));
//@|   assert(d[n] == *final(it3.seq()[n])); assert(step(k_note(n0[n]), k_note(d[n]), duplicates@, ua3, sa3, used@, seen@));
//@|   cat(k_notes(n0, n), k_notes(d, n), k_note(n0[n]), k_note(d[n]), duplicates@, ua2, sa2, ua3, sa3, used@, seen@); }
//@afterloop 3
//@| assert(step(k_notes(n0, n0.len() as int), k_notes(footnote.content@, n0.len() as int), duplicates@, ua2, sa2, used@, seen@)); assert(footnote.content@.len() == n0.len());
//@afterloop 2
//@| assert(step(k_foots(c2, c2.len() as int), k_foots(docx.footnotes.footnotes@, c2.len() as int), duplicates@, u3, s3, used@, seen@)); assert(docx.footnotes.footnotes@.len() == c2.len());
//@at end
//@| proof { let a0 = k_docs(c0, c0.len() as int); let a2 = k_comments(c1, c1.len() as int); let a3 = k_foots(c2, c2.len() as int); let b4 = k_foots(docx.footnotes.footnotes@, c2.len() as int);
//@|   cat(a0, b1, id_property(p0), b2, duplicates@, u0, s0, u1, s1, u2, s2); cat(a0 + id_property(p0), b1 + b2, a2, b3, duplicates@, u0, s0, u2, s2, u3, s3);
//@|   cat(a0 + id_property(p0) + a2, b1 + b2 + b3, a3, b4, duplicates@, u0, s0, u3, s3, used@, seen@); }
//@end
//@fn Docx::refresh_duplicate_para_ids
//@| ensures distinct(id_docx(*final(self))), kept(id_docx(*old(self)), id_docx(*final(self))),
//@sub `HashMap::new()` => `IdLog::new()`
//@sub `counts~~.iter()~~.filter(|(_, count)| **count > 1)~~.map(|(id, _)| (*id).to_owned())~~.collect()` => `counts.vx_repeated()`
//@sub `reserve_para_ids(counts.into_keys())` => `vx_reserve(counts)`
//@sub `counts.into_keys().map(str::to_owned).collect()` => `counts.vx_keys()`
//@sub `HashSet::new()` => `StrSet::new()`
//@sub `reserve_para_ids(used.iter().map(String::as_str))` => `vx_reserve(&used)`
//@at start
//@| broadcast use ms_none; let ghost a = id_docx(*self);
//@after `collect_para_ids_in_docx(self, &mut counts)`
//@| assert(counts@ =~= ms(a)); proof { assert forall |x: Id| (counts@.count(x) >= 1) == a.contains(x) && (counts@.count(x) >= 2) == repeated(a).contains(x) by { ms_counts(a, x); } }
//@before `reserve_para_ids(counts.into_keys())`
//@| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
//@|   assert forall |i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() > 0 by { if a[i].len() == 0 { assert(a[i] =~= Seq::<char>::empty()); assert(a.contains(a[i])); } }
//@|   assert forall |i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by { if a[i] == a[j] { assert(repeated(a).contains(a[i])); ms_counts(a, a[i]); assert(duplicates@.contains(a[i])); } } }
//@before `refresh_para_ids_in_docx(self`
//@| proof { assert forall |x: Id| used@.contains(x) == a.to_set().contains(x) by { ms_counts(a, x); } assert(used@ =~= a.to_set()); assert forall |x: Id| duplicates@.contains(x) == repeated(a).contains(x) by { ms_counts(a, x); } assert(duplicates@ =~= repeated(a)); }
//@at end
//@| proof { assert(duplicates@ =~= repeated(a)); lemma_unique(a, id_docx(*self), used@, seen@); }
//@end
