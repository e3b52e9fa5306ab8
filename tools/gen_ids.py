#!/usr/bin/env python3
"""Writes units/ids_core.rs: contracts of the paragraph id collection and refresh functions (run by hand; output is committed)."""
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
w = o.append
E0 = "Seq::<Id>::empty()"
w('''use vstd::multiset::Multiset;
// Paragraph ids of a document, in the order in which they are collected.
pub type Id = Seq<char>;
''')
PARA, TAB, SDT, TOC = "Paragraph(p) => id_paragraph(*p)", "Table(t) => id_table(*t)", "StructuredDataTag(s) => id_sdt(*s)", "TableOfContents(t) => id_toc(*t)"
RUN, COM = "Run(r) => id_run(*r)", "CommentStart(c) => id_comment(c.comment)"
DEL = "Delete(d) => id_delete(d)"
def one(name, en, arms, rest=True):
    w(f"pub open spec fn {name}(c: {en}) -> Seq<Id> decreases c, 0int {{ match c {{ " + ", ".join(f"{en}::{a}" for a in arms) + (f", _ => {E0}" if rest else "") + " } }")
def kids(en, onef):
    k = onef + "s"
    w(f"pub open spec fn {k}(s: Seq<{en}>, n: int) -> Seq<Id> decreases s, n {{ if n <= 0 || n > s.len() {{ {E0} }} else {{ {k}(s, n - 1) + {onef}(s[n - 1]) }} }}")
def cont(name, ty, body):
    w(f"pub open spec fn {name}(x: {ty}) -> Seq<Id> decreases x, 0int {{ {body} }}")
def all_(k, v): return f"{k}({v}@, {v}@.len() as int)"
one("k_doc", "DocumentChild", [PARA, TAB, SDT, TOC, "Section(s) => id_section(*s)", COM]); kids("DocumentChild", "k_doc")
one("k_sec", "SectionChild", [PARA, TAB, SDT, TOC, COM]); kids("SectionChild", "k_sec")
one("k_hdr", "HeaderChild", [PARA, TAB, SDT], False); kids("HeaderChild", "k_hdr")
one("k_ftr", "FooterChild", [PARA, TAB, SDT], False); kids("FooterChild", "k_ftr")
one("k_com", "CommentChild", [PARA, TAB], False); kids("CommentChild", "k_com")
one("k_toc", "TocContent", [PARA, TAB], False); kids("TocContent", "k_toc")
one("k_row", "TableChild", ["TableRow(r) => " + all_("k_cells", "r.cells")], False); kids("TableChild", "k_row")
one("k_cell", "TableRowChild", ["TableCell(c) => " + all_("k_cons", "c.children")], False); kids("TableRowChild", "k_cell")
one("k_con", "TableCellContent", [PARA, TAB, SDT, TOC], False); kids("TableCellContent", "k_con")
PK = [RUN, COM, "Insert(i) => id_insert(i)", DEL, "MoveFrom(m) => id_move_from(m)", "MoveTo(m) => id_move_to(m)", "Hyperlink(h) => id_hyperlink(h)", SDT]
one("k_par", "ParagraphChild", PK); kids("ParagraphChild", "k_par")
one("k_ins", "InsertChild", [RUN, COM, DEL]); kids("InsertChild", "k_ins")
one("k_del", "DeleteChild", [RUN, COM]); kids("DeleteChild", "k_del")
one("k_mvf", "MoveFromChild", [RUN, COM]); kids("MoveFromChild", "k_mvf")
one("k_mvt", "MoveToChild", [RUN, DEL, COM]); kids("MoveToChild", "k_mvt")
one("k_run", "RunChild", [COM, "FootnoteReference(f) => " + all_("k_notes", "f.content")]); kids("RunChild", "k_run")
one("k_sdt", "StructuredDataTagChild", [RUN, PARA, TAB, COM, SDT]); kids("StructuredDataTagChild", "k_sdt")
w("pub open spec fn k_note(c: Paragraph) -> Seq<Id> decreases c, 1int { id_paragraph(c) }"); kids("Paragraph", "k_note")
w("pub open spec fn k_comment(c: Comment) -> Seq<Id> { id_comment(c) }"); kids("Comment", "k_comment")
w("pub open spec fn k_foot(c: Footnote) -> Seq<Id> { " + all_("k_notes", "c.content") + " }"); kids("Footnote", "k_foot")
cont("id_paragraph", "Paragraph", f"seq![x.id@] + {all_('k_pars','x.children')}")
for n, t, k in (("hyperlink", "Hyperlink", "par"), ("insert", "Insert", "ins"), ("delete", "Delete", "del"), ("move_from", "MoveFrom", "mvf"), ("move_to", "MoveTo", "mvt"), ("run", "Run", "run"), ("sdt", "StructuredDataTag", "sdt"), ("comment", "Comment", "com"), ("header", "Header", "hdr"), ("footer", "Footer", "ftr")):
    cont("id_" + n, t, all_(f"k_{k}s", "x.children"))
cont("id_table", "Table", all_("k_rows", "x.rows"))
cont("id_toc", "TableOfContents", all_("k_tocs", "x.before_contents") + " + " + all_("k_tocs", "x.after_contents"))
cont("id_section", "Section", all_("k_secs", "x.children") + " + id_property(x.property)")
SL = [("header", "header"), ("first_header", "header"), ("even_header", "header"), ("footer", "footer"), ("first_footer", "footer"), ("even_footer", "footer")]
w(f"pub open spec fn id_oh(x: Option<(String, Header)>) -> Seq<Id> {{ match x {{ Some(h) => id_header(h.1), None => {E0} }} }}")
w(f"pub open spec fn id_of(x: Option<(String, Footer)>) -> Seq<Id> {{ match x {{ Some(h) => id_footer(h.1), None => {E0} }} }}")
o[-1] = o[-1].replace("-> Seq<Id> {", "-> Seq<Id> decreases x, 0int {", 1); o[-2] = o[-2].replace("-> Seq<Id> {", "-> Seq<Id> decreases x, 0int {", 1)
cont("id_property", "SectionProperty", " + ".join(("id_oh" if k == "header" else "id_of") + f"(x.{f})" for f, k in SL))
w("pub open spec fn id_docx(x: Docx) -> Seq<Id> { " + " + ".join([all_("k_docs", "x.document.children"), "id_property(x.document.section_property)", all_("k_comments", "x.comments.comments"), all_("k_foots", "x.footnotes.footnotes")]) + " }")
M = "documents/mod.rs::"
# --- collection ---
def cfn(name, param, ids, loops, extra="", end=""):
    w(f'''//@fn {M}collect_para_ids_in_{name}
//@| ensures final(counts)@ == old(counts)@ + {ids}(*{param}),{extra}
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| let ghost l0 = counts@;''')
    for i, (k, vec, base) in enumerate(loops):
        w(f'''//@loop {i} iter=it{i}
//@| invariant it{i}.seq().len() == {vec}@.len(), forall |i: int| 0 <= i < it{i}.seq().len() ==> *(#[trigger] it{i}.seq()[i]) == {vec}@[i],
//@|   counts@ =~= {base} + {k}s({vec}@, it{i}.index@ as int),
//@loopend {i}
//@| assert(counts@ =~= {base} + {k}s({vec}@, it{i}.index@ as int + 1));''')
    w(f'''//@at end
//@| assert(counts@ =~= l0 + {ids}(*{param}));
//@end''')
w('''// TRUSTED: the map from ids to their number of occurrences, as the ids it was told, without order.
#[verifier::external_body]
pub struct IdLog { m: std::collections::HashMap<String, usize> }
impl IdLog {
    pub uninterp spec fn view(&self) -> Multiset<Id>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<Id>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn bump(&mut self, id: &str) ensures final(self)@ == old(self)@.insert(id@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, id: &str) -> (r: bool) ensures r == self@.contains(id@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_repeated(&self) -> (r: StrSet) ensures forall |x: Id| r@.contains(x) == (self@.count(x) >= 2) { unimplemented!() }
    #[verifier::external_body] pub fn vx_keys(self) -> (r: StrSet) ensures forall |x: Id| r@.contains(x) == (self@.count(x) >= 1) { unimplemented!() }
}
/// Ids without regard to their order.
#[verifier::opaque] pub open spec fn ms(s: Seq<Id>) -> Multiset<Id> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { ms(s.drop_last()).insert(s.last()) } }
pub broadcast proof fn ms_add(a: Seq<Id>, b: Seq<Id>) ensures #[trigger] ms(a + b) == ms(a).add(ms(b)) decreases b.len()
{
    reveal_with_fuel(ms, 2);
    if b.len() == 0 { assert(a + b =~= a); assert(ms(a).add(ms(b)) =~= ms(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); ms_add(a, b.drop_last()); assert(ms(a + b) =~= ms(a).add(ms(b))); }
}
pub broadcast proof fn ms_one(x: Id) ensures #[trigger] ms(seq![x]) == Multiset::<Id>::empty().insert(x) { reveal_with_fuel(ms, 3); assert(seq![x].drop_last() =~= Seq::<Id>::empty()); }
pub broadcast proof fn ms_none() ensures #[trigger] ms(Seq::<Id>::empty()) == Multiset::<Id>::empty() { reveal_with_fuel(ms, 2); }
/// An id is counted as often as it occurs.
pub proof fn ms_counts(a: Seq<Id>, x: Id)
    ensures (ms(a).count(x) >= 1) == a.contains(x), (ms(a).count(x) >= 2) == repeated(a).contains(x)
    decreases a.len()
{
    reveal_with_fuel(ms, 2);
    if a.len() > 0 {
        let d = a.drop_last(); ms_counts(d, x);
        if d.contains(x) { let i = choose |i: int| 0 <= i < d.len() && d[i] == x; assert(a[i] == x); if a.last() == x { assert(a[i] == x && a[a.len() - 1] == x); } }
        if a.contains(x) { let i = choose |i: int| 0 <= i < a.len() && a[i] == x; if i < d.len() { assert(d[i] == x); } }
        if a.last() == x { assert(a[a.len() - 1] == x); }
        if repeated(d).contains(x) { let (i, j) = choose |i: int, j: int| 0 <= i < j < d.len() && d[i] == x && d[j] == x; assert(a[i] == x && a[j] == x); }
        if repeated(a).contains(x) { let (i, j) = choose |i: int, j: int| 0 <= i < j < a.len() && a[i] == x && a[j] == x; assert(d[i] == x); if j < d.len() { assert(d[j] == x); } }
    }
}
pub open spec fn repeated(a: Seq<Id>) -> Set<Id> { a.to_set().filter(|x: Id| exists |i: int, j: int| 0 <= i < j < a.len() && a[i] == x && a[j] == x) }
//@gsub `HashMap<&'a str, usize>` => `IdLog`
//@gsub `HashMap<&str, usize>` => `IdLog`''')
for n, p in (("section", "section"),):
    pass
cfn("hyperlink", "hyperlink", "id_hyperlink", [("k_par", "hyperlink.children", "l0")])
cfn("insert", "insert", "id_insert", [("k_ins", "insert.children", "l0")])
cfn("delete", "delete", "id_delete", [("k_del", "delete.children", "l0")])
cfn("move_from", "moved", "id_move_from", [("k_mvf", "moved.children", "l0")])
cfn("move_to", "moved", "id_move_to", [("k_mvt", "moved.children", "l0")])
cfn("structured_data_tag", "tag", "id_sdt", [("k_sdt", "tag.children", "l0")])
cfn("comment", "comment", "id_comment", [("k_com", "comment.children", "l0")])
cfn("header", "header", "id_header", [("k_hdr", "header.children", "l0")])
cfn("footer", "footer", "id_footer", [("k_ftr", "footer.children", "l0")])
cfn("section", "section", "id_section", [("k_sec", "section.children", "l0")])
cfn("toc", "toc", "id_toc", [("k_toc", "toc.before_contents", "l0"), ("k_toc", "toc.after_contents", "l0 + k_tocs(toc.before_contents@, toc.before_contents@.len() as int)")])
w(f'''//@fn {M}collect_para_ids_in_document_child
//@| ensures final(counts)@ =~= old(counts)@ + k_doc(*child),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| 
//@end
//@fn {M}collect_para_ids_in_section_property
//@| ensures final(counts)@ == old(counts)@ + id_property(*property),
//@at start
//@| let ghost l0 = counts@; let ghost p = *property;
//@at end
//@| assert(counts@ =~= l0 + id_property(p));
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@end
//@fn {M}collect_para_ids_in_paragraph
//@| ensures final(counts)@ == old(counts)@ + id_paragraph(*paragraph),
//@sub `*counts.entry(paragraph.id.as_str()).or_insert(0) += 1` => `counts.bump(paragraph.id.as_str())`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == paragraph.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == paragraph.children@[i],
//@|   counts@ =~= l0 + seq![paragraph.id@] + k_pars(paragraph.children@, it0.index@ as int),
//@loopend 0
//@| assert(counts@ =~= l0 + seq![paragraph.id@] + k_pars(paragraph.children@, it0.index@ as int + 1));
//@at end
//@| assert(counts@ =~= l0 + id_paragraph(*paragraph));
//@end
//@fn {M}collect_para_ids_in_run
//@| ensures final(counts)@ == old(counts)@ + id_run(*run),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == run.children@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == run.children@[i],
//@|   counts@ =~= l0 + k_runs(run.children@, it0.index@ as int),
//@loopstart 0
//@| let ghost l1 = counts@;
//@loopend 0
//@| assert(counts@ =~= l1 + k_run(run.children@[it0.index@ as int])); assert(counts@ =~= l0 + k_runs(run.children@, it0.index@ as int + 1));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == reference.content@.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == reference.content@[i],
//@|   counts@ =~= l1 + k_notes(reference.content@, it1.index@ as int),
//@loopend 1
//@| assert(counts@ =~= l1 + k_notes(reference.content@, it1.index@ as int + 1));
//@at end
//@| assert(counts@ =~= l0 + id_run(*run));
//@end
//@fn {M}collect_para_ids_in_table
//@| ensures final(counts)@ == old(counts)@ + id_table(*table),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| let ghost l0 = counts@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == table.rows@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == table.rows@[i],
//@|   counts@ =~= l0 + k_rows(table.rows@, it0.index@ as int),
//@loopstart 0
//@| let ghost l1 = counts@; let ghost r0 = table.rows@[it0.index@ as int]->TableRow_0.cells@;
//@loopend 0
//@| assert(counts@ =~= l1 + k_row(table.rows@[it0.index@ as int])); assert(counts@ =~= l0 + k_rows(table.rows@, it0.index@ as int + 1));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == r0.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == r0[i],
//@|   counts@ =~= l1 + k_cells(r0, it1.index@ as int),
//@loopstart 1
//@| let ghost l2 = counts@; let ghost c0 = r0[it1.index@ as int]->TableCell_0.children@;
//@loopend 1
//@| assert(counts@ =~= l2 + k_cell(r0[it1.index@ as int])); assert(counts@ =~= l1 + k_cells(r0, it1.index@ as int + 1));
//@loop 2 iter=it2
//@| invariant it2.seq().len() == c0.len(), forall |i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == c0[i],
//@|   counts@ =~= l2 + k_cons(c0, it2.index@ as int),
//@loopend 2
//@| assert(counts@ =~= l2 + k_cons(c0, it2.index@ as int + 1));
//@at end
//@| assert(counts@ =~= l0 + id_table(*table));
//@end
//@fn {M}collect_para_ids_in_docx
//@| ensures final(counts)@ =~= old(counts)@ + id_docx(*docx),
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| let ghost l0 = counts@; let ghost d = docx.document.children@; let ghost p = id_property(docx.document.section_property); let ghost c = docx.comments.comments@; let ghost f = docx.footnotes.footnotes@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == d.len(), forall |i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == d[i],
//@|   counts@ =~= l0 + k_docs(d, it0.index@ as int),
//@loopend 0
//@| assert(counts@ =~= l0 + k_docs(d, it0.index@ as int + 1));
//@loop 1 iter=it1
//@| invariant it1.seq().len() == c.len(), forall |i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == c[i],
//@|   counts@ =~= l0 + k_docs(d, d.len() as int) + p + k_comments(c, it1.index@ as int),
//@loopend 1
//@| assert(counts@ =~= l0 + k_docs(d, d.len() as int) + p + k_comments(c, it1.index@ as int + 1));
//@loop 2 iter=it2
//@| invariant it2.seq().len() == f.len(), forall |i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == f[i],
//@|   counts@ =~= l0 + k_docs(d, d.len() as int) + p + k_comments(c, c.len() as int) + k_foots(f, it2.index@ as int),
//@loopstart 2
//@| let ghost l1 = counts@; let ghost n = f[it2.index@ as int].content@;
//@loopend 2
//@| assert(counts@ =~= l1 + k_foot(f[it2.index@ as int])); assert(counts@ =~= l0 + k_docs(d, d.len() as int) + p + k_comments(c, c.len() as int) + k_foots(f, it2.index@ as int + 1));
//@loop 3 iter=it3
//@| invariant it3.seq().len() == n.len(), forall |i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == n[i],
//@|   counts@ =~= l1 + k_notes(n, it3.index@ as int),
//@loopend 3
//@| assert(counts@ =~= l1 + k_notes(n, it3.index@ as int + 1));
//@end''')
# --- refresh ---
import re as _re
def _mid(m):
    n, pre, ks, vec = m.group(1), m.group(2), m.group(3), m.group(4)
    ix = f"it{n}.index@ as int"
    return (f"//@loopstart {n}\n//@| let ghost lb{n} = counts@;\n//@loopend {n}\n//@| assert(counts@ =~= lb{n} + {ks[:-1]}({vec}[{ix}])); assert({ks}({vec}, {ix} + 1) == {ks}({vec}, {ix}) + {ks[:-1]}({vec}[{ix}])); {pre}{ks}({vec}, {ix} + 1));")
_t = "\n".join(o)
_t = _re.sub(r"//@loopend (\d)\n//@\| ((?:assert\(counts@ =~= l\d \+ k_\w+\([^;]*\)\); )?assert\(counts@ =~= [^;]* ?\+ )(k_\w+s)\(([\w.@]+), it\d.index@ as int \+ 1\)\);", _mid, _t)
_t = _t.replace("#[verifier::exec_allows_no_decreases_clause]", "#[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(60)]")
def _ms(t):
    """what is added to the counted ids, without regard to order"""
    out, i = [], 0
    pat = _re.compile(r"((?:final\(counts\)|counts)@ )(?:==|=~=) (old\(counts\)@|lb?\d) \+ ")
    while True:
        m = pat.search(t, i)
        if not m: return "".join(out) + t[i:]
        j, d = m.end(), 0
        while True:
            ch = t[j]
            if ch in "([": d += 1
            elif ch in ")]":
                d -= 1
                if d < 0: break
            elif ch == "," and d == 0: break
            j += 1
        out += [t[i:m.start()], m.group(1), "=~= ", m.group(2), ".add(ms(", t[m.end():j], "))"]
        i = j
_c = _t.index("//@gsub `HashMap<&'a str, usize>`")
_u = _ms(_t[_c:])
BU = "broadcast use ms_add, ms_one, ms_none; "
_u = _re.sub(r"(//@at start\n//@\| )", r"\1" + BU, _u)
_u = _re.sub(r"(//@loopstart \d\n//@\| )", r"\1" + BU, _u)
_t = _t[:_c] + _u
o[:] = _t.split("\n")

w('''/// What refreshing does to a stretch of paragraphs with ids `a`, which then have ids `b`: an id outside `dup` stays, of each
/// id in `dup` at most one occurrence stays, and every other paragraph gets an id nobody used; (u, s) are the used and seen ids.
#[verifier::opaque]
pub open spec fn step(a: Seq<Id>, b: Seq<Id>, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>) -> bool {
    &&& a.len() == b.len() && u0.subset_of(u1) && s0.subset_of(s1)
    &&& (forall |i: int| 0 <= i < a.len() ==> u0.contains(#[trigger] a[i])) ==> {
        &&& forall |i: int| 0 <= i < a.len() ==> #[trigger] cls(a[i], b[i], dup, u0, s0, u1, s1)
        &&& forall |i: int, j: int| 0 <= i < j < a.len() && #[trigger] b[i] == #[trigger] b[j] ==> !dup.contains(b[i]) && b[i] == a[i] && b[j] == a[j]
    }
}
pub open spec fn cls(x: Id, y: Id, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>) -> bool {
    y.len() > 0 && if x.len() > 0 && !dup.contains(x) { y == x } else if y == x { dup.contains(x) && !s0.contains(x) && s1.contains(x) } else { !u0.contains(y) && u1.contains(y) }
}
proof fn cat(a: Seq<Id>, b: Seq<Id>, c: Seq<Id>, d: Seq<Id>, dup: Set<Id>, u0: Set<Id>, s0: Set<Id>, u1: Set<Id>, s1: Set<Id>, u2: Set<Id>, s2: Set<Id>)
    requires step(a, b, dup, u0, s0, u1, s1), step(c, d, dup, u1, s1, u2, s2)
    ensures step(a + c, b + d, dup, u0, s0, u2, s2)
{
    reveal(step);
    let x = a + c; let y = b + d;
    if forall |i: int| 0 <= i < x.len() ==> u0.contains(#[trigger] x[i]) {
        assert forall |i: int| 0 <= i < a.len() implies u0.contains(#[trigger] a[i]) by { assert(x[i] == a[i]); }
        assert forall |i: int| 0 <= i < c.len() implies u1.contains(#[trigger] c[i]) && u0.contains(c[i]) by { assert(x[a.len() + i] == c[i]); }
        assert forall |i: int| 0 <= i < x.len() implies #[trigger] cls(x[i], y[i], dup, u0, s0, u2, s2) by {
            if i < a.len() { assert(cls(a[i], b[i], dup, u0, s0, u1, s1)); } else { assert(cls(c[i - a.len()], d[i - a.len()], dup, u1, s1, u2, s2)); } }
        assert forall |i: int, j: int| 0 <= i < j < x.len() && #[trigger] y[i] == #[trigger] y[j] implies !dup.contains(y[i]) && y[i] == x[i] && y[j] == x[j] by {
            if j < a.len() { assert(b[i] == b[j]); } else if i >= a.len() { assert(d[i - a.len()] == d[j - a.len()]); }
            else { assert(cls(a[i], b[i], dup, u0, s0, u1, s1)); assert(cls(c[j - a.len()], d[j - a.len()], dup, u1, s1, u2, s2)); assert(u0.contains(a[i])); assert(u0.contains(c[j - a.len()])); } }
    }
}
broadcast proof fn none(dup: Set<Id>, u: Set<Id>, s: Set<Id>) ensures #[trigger] step(Seq::<Id>::empty(), Seq::<Id>::empty(), dup, u, s, u, s) { reveal(step); }
#[verifier::prophetic]
pub open spec fn agree<T>(d: Seq<T>, s: Seq<&mut T>, n: int) -> bool { d.len() >= n && forall |i: int| 0 <= i < n ==> d[i] == *final(#[trigger] s[i]) }
/// After refreshing, no two paragraphs have the same id, none is empty, and an id that was unique is still there.
proof fn lemma_unique(a: Seq<Id>, b: Seq<Id>, u1: Set<Id>, s1: Set<Id>)
    requires step(a, b, repeated(a), a.to_set(), Set::<Id>::empty(), u1, s1)
    ensures distinct(b), kept(a, b)
{
    reveal(step);
    let dup = repeated(a);
    assert forall |i: int| 0 <= i < a.len() implies a.to_set().contains(#[trigger] a[i]) by {}
    assert forall |i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { if b[i] == b[j] { assert(a[i] == a[j]); assert(dup.contains(a[i])); } }
    assert forall |i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() > 0 by { assert(cls(a[i], b[i], dup, a.to_set(), Set::<Id>::empty(), u1, s1)); }
    assert forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0 && !dup.contains(a[i]) implies b[i] == a[i] by { assert(cls(a[i], b[i], dup, a.to_set(), Set::<Id>::empty(), u1, s1)); }
}
pub open spec fn distinct(b: Seq<Id>) -> bool { (forall |i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] != #[trigger] b[j]) && forall |i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).len() > 0 }
pub open spec fn kept(a: Seq<Id>, b: Seq<Id>) -> bool { a.len() == b.len() && forall |i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0 && !repeated(a).contains(a[i]) ==> b[i] == a[i] }''')
ST = "duplicates@"
def stp(a, b, st0="u0, s0", st1="used@, seen@"): return f"step({a}, {b}, duplicates@, {st0}, {st1})"
def ens(old, new): return f"step({old}, {new}, duplicates@, old(used)@, old(seen)@, final(used)@, final(seen)@),"
GEN = '''//@attr
//@| #[verifier::spinoff_prover]
//@| #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@;'''
def loop(i, k, en, src, ub="u0", sb="s0", nested=False):
    """loop i over the children `src` (ghost sequence of the children before)"""
    n = f"it{i}.index@ as int"
    w(f'''//@loop {i} iter=it{i}
//@| invariant it{i}.seq().len() == {src}.len(), forall |i: int| 0 <= i < {src}.len() ==> *(#[trigger] it{i}.seq()[i]) == {src}[i],
//@|   forall |d: Seq<{en}>| agree(d, it{i}.seq(), {n}) ==> step({k}s({src}, {n}), #[trigger] {k}s(d, {n}), duplicates@, {ub}, {sb}, used@, seen@),
//@loopstart {i}
//@| broadcast use none; let ghost ua{i} = used@; let ghost sa{i} = seen@;''')
def loopend(i, k, en, src, ub="u0", sb="s0", pre=""):
    n = f"it{i}.index@ as int"
    w(f'''//@loopend {i}
//@| {pre}
//@| assert forall |d: Seq<{en}>| agree(d, it{i}.seq(), {n} + 1) implies step({k}s({src}, {n} + 1), #[trigger] {k}s(d, {n} + 1), duplicates@, {ub}, {sb}, used@, seen@) by {{
//@|   let n = {n}; assert(agree(d, it{i}.seq(), n)); assert(step({k}s({src}, n), {k}s(d, n), duplicates@, {ub}, {sb}, ua{i}, sa{i}));
//@|   assert(d[n] == *final(it{i}.seq()[n])); assert(step({k}({src}[n]), {k}(d[n]), duplicates@, ua{i}, sa{i}, used@, seen@));
//@|   cat({k}s({src}, n), {k}s(d, n), {k}({src}[n]), {k}(d[n]), duplicates@, {ub}, {sb}, ua{i}, sa{i}, used@, seen@); }}''')
def done(i, k, src, vec, ub="u0", sb="s0", new="", old=""):
    w(f'''//@afterloop {i}
//@| assert(step({k}s({src}, {src}.len() as int), {k}s({vec}@, {src}.len() as int), duplicates@, {ub}, {sb}, used@, seen@)); assert({vec}@.len() == {src}.len());{new}''')
def rfn(name, param, ids, k, en, vec):
    w(f'''//@fn {M}refresh_para_ids_in_{name}
//@| ensures {ens(f"{ids}(*old({param}))", f"{ids}(*final({param}))")}
{GEN} let ghost c0 = {vec}@;''')
    loop(0, k, en, "c0"); loopend(0, k, en, "c0")
    done(0, k, "c0", vec, new=f" assert({ids}(*{param}) == {k}s({vec}@, c0.len() as int));")
    w("//@end")
rfn("hyperlink", "hyperlink", "id_hyperlink", "k_par", "ParagraphChild", "hyperlink.children")
rfn("insert", "insert", "id_insert", "k_ins", "InsertChild", "insert.children")
rfn("delete", "delete", "id_delete", "k_del", "DeleteChild", "delete.children")
rfn("move_from", "moved", "id_move_from", "k_mvf", "MoveFromChild", "moved.children")
rfn("move_to", "moved", "id_move_to", "k_mvt", "MoveToChild", "moved.children")
rfn("structured_data_tag", "tag", "id_sdt", "k_sdt", "StructuredDataTagChild", "tag.children")
rfn("comment", "comment", "id_comment", "k_com", "CommentChild", "comment.children")
rfn("header", "header", "id_header", "k_hdr", "HeaderChild", "header.children")
rfn("footer", "footer", "id_footer", "k_ftr", "FooterChild", "footer.children")
w(f'''//@fn {M}refresh_para_ids_in_document_child
//@| ensures {ens("k_doc(*old(child))", "k_doc(*final(child))")}
//@attr
//@| #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none;
//@end
//@fn {M}refresh_para_ids_in_section
//@| ensures {ens("id_section(*old(section))", "id_section(*final(section))")}
{GEN} let ghost c0 = section.children@; let ghost p0 = section.property;''')
loop(0, "k_sec", "SectionChild", "c0"); loopend(0, "k_sec", "SectionChild", "c0")
done(0, "k_sec", "c0", "section.children")
w('''//@afterloop 0
//@| let ghost ub = used@; let ghost sb = seen@; let ghost b1 = k_secs(section.children@, c0.len() as int);
//@at end
//@| proof { cat(k_secs(c0, c0.len() as int), b1, id_property(p0), id_property(section.property), duplicates@, u0, s0, ub, sb, used@, seen@); assert(section.children@.len() == c0.len()); assert(id_section(*section) == k_secs(section.children@, c0.len() as int) + id_property(section.property)); }
//@end''')
w(f'''//@fn {M}refresh_para_ids_in_toc
//@| ensures {ens("id_toc(*old(toc))", "id_toc(*final(toc))")}
{GEN} let ghost c0 = toc.before_contents@; let ghost c1 = toc.after_contents@;''')
loop(0, "k_toc", "TocContent", "c0"); loopend(0, "k_toc", "TocContent", "c0")
w('''//@afterloop 0
//@| let ghost ub = used@; let ghost sb = seen@; let ghost b1 = k_tocs(toc.before_contents@, c0.len() as int); assert(step(k_tocs(c0, c0.len() as int), b1, duplicates@, u0, s0, ub, sb));''')
loop(1, "k_toc", "TocContent", "c1", "ub", "sb"); loopend(1, "k_toc", "TocContent", "c1", "ub", "sb")
done(1, "k_toc", "c1", "toc.after_contents", "ub", "sb")
w('''//@at end
//@| proof { cat(k_tocs(c0, c0.len() as int), b1, k_tocs(c1, c1.len() as int), k_tocs(toc.after_contents@, c1.len() as int), duplicates@, u0, s0, ub, sb, used@, seen@); assert(toc.before_contents@.len() == c0.len()); assert(id_toc(*toc) == k_tocs(toc.before_contents@, c0.len() as int) + k_tocs(toc.after_contents@, c1.len() as int)); }
//@end''')
w(f'''//@fn {M}refresh_para_ids_in_paragraph
//@| ensures {ens("id_paragraph(*old(paragraph))", "id_paragraph(*final(paragraph))")}
{GEN} let ghost c0 = paragraph.children@; let ghost i0 = paragraph.id@;
//@before `for child in &mut paragraph.children`
//@| let ghost ub = used@; let ghost sb = seen@; let ghost i1 = paragraph.id@;''')
loop(0, "k_par", "ParagraphChild", "c0", "ub", "sb"); loopend(0, "k_par", "ParagraphChild", "c0", "ub", "sb")
done(0, "k_par", "c0", "paragraph.children", "ub", "sb")
w('''//@at end
//@| proof { cat(seq![i0], seq![i1], k_pars(c0, c0.len() as int), k_pars(paragraph.children@, c0.len() as int), duplicates@, u0, s0, ub, sb, used@, seen@); assert(id_paragraph(*paragraph) == seq![i1] + k_pars(paragraph.children@, c0.len() as int)); }
//@end''')
w(f'''//@fn {M}refresh_para_ids_in_run
//@| ensures {ens("id_run(*old(run))", "id_run(*final(run))")}
{GEN} let ghost c0 = run.children@;''')
loop(0, "k_run", "RunChild", "c0")
o[-1] += " let ghost n0 = c0[it0.index@ as int]->FootnoteReference_0.content@;"
loopend(0, "k_run", "RunChild", "c0")
loop(1, "k_note", "Paragraph", "n0", "ua0", "sa0"); loopend(1, "k_note", "Paragraph", "n0", "ua0", "sa0")
done(1, "k_note", "n0", "reference.content", "ua0", "sa0")
done(0, "k_run", "c0", "run.children", new=" assert(id_run(*run) == k_runs(run.children@, c0.len() as int));")
w("//@end")
w(f'''//@fn {M}refresh_para_ids_in_table
//@| ensures {ens("id_table(*old(table))", "id_table(*final(table))")}
{GEN} let ghost c0 = table.rows@;''')
loop(0, "k_row", "TableChild", "c0"); o[-1] += " let ghost c1 = c0[it0.index@ as int]->TableRow_0.cells@;"
loopend(0, "k_row", "TableChild", "c0")
loop(1, "k_cell", "TableRowChild", "c1", "ua0", "sa0"); o[-1] += " let ghost c2 = c1[it1.index@ as int]->TableCell_0.children@;"
loopend(1, "k_cell", "TableRowChild", "c1", "ua0", "sa0")
loop(2, "k_con", "TableCellContent", "c2", "ua1", "sa1"); loopend(2, "k_con", "TableCellContent", "c2", "ua1", "sa1")
done(2, "k_con", "c2", "cell.children", "ua1", "sa1"); done(1, "k_cell", "c1", "row.cells", "ua0", "sa0")
done(0, "k_row", "c0", "table.rows", new=" assert(id_table(*table) == k_rows(table.rows@, c0.len() as int));")
w("//@end")
w(f'''//@fn {M}refresh_para_ids_in_section_property
//@| ensures {ens("id_property(*old(property))", "id_property(*final(property))")}
//@sub `.as_mut()` => `.as_mut()`
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@at start
//@| broadcast use none; let ghost u0 = used@; let ghost s0 = seen@; let ghost p0 = *property;''')
prev = "p0"
fs = [f for f, _ in SL]
for i, (f, k) in enumerate(SL):
    fn = "id_oh" if k == "header" else "id_of"
    w(("//@at end" if i == 5 else f"//@after `property.{f}.as_mut()`") + f'''
//@| let ghost u{i+1} = used@; let ghost s{i+1} = seen@; let ghost b{i+1} = {fn}(property.{f}); assert(step({fn}(p0.{f}), b{i+1}, duplicates@, u{i}, s{i}, u{i+1}, s{i+1}));''')
a = [("id_oh" if k == "header" else "id_of") + f"(p0.{f})" for f, k in SL]
b = [f"b{i+1}" for i in range(6)]
cats = " ".join(f"cat({' + '.join(a[:i])}, {' + '.join(b[:i])}, {a[i]}, {b[i]}, duplicates@, u0, s0, u{i}, s{i}, u{i+1}, s{i+1});" for i in range(1, 6))
w(f'''//@at end
//@| proof {{ {cats} }}
//@end
//@fn {M}ensure_unique_paragraph_id
//@| ensures {ens("seq![old(paragraph).id@]", "seq![final(paragraph).id@]")} *final(paragraph) == (Paragraph {{ id: final(paragraph).id, ..*old(paragraph) }}),
//@at start
//@| proof {{ reveal(step); }}
//@end
//@fn {M}next_unique_paragraph_id
//@| ensures !used@.contains(r@), r@.len() > 0,
//@sub `(first_candidate..)~~.map(|value| format!("{{value:08x}}"))~~.find(|candidate| !used.contains(candidate))~~.expect("the paragraph ID space should not be exhausted")` => `vx_first_unused(used, first_candidate)`
//@sub `used~~.len()~~.checked_add(1)~~.expect("the paragraph ID space should not be exhausted")` => `vx_first(used)`
//@end
// TRUSTED: the scan yields the first eight-digit number that is not used; a generated id is not empty.
#[verifier::external_body]
pub fn vx_first(used: &StrSet) -> (r: usize) {{ unimplemented!() }}
#[verifier::external_body]
pub fn vx_first_unused(used: &StrSet, n: usize) -> (r: String) ensures !used@.contains(r@), r@.len() > 0 {{ unimplemented!() }}
//@fn documents/paragraph_id.rs::generate_para_id ext
//@| ensures r@.len() == 8,
//@end
#[verifier::external_body]
pub fn vx_reserve<T>(x: T) {{ unimplemented!() }}
//@fn {M}refresh_para_ids_in_docx
//@| ensures {ens("id_docx(*old(docx))", "id_docx(*final(docx))")} final(docx).document_rels == old(docx).document_rels,
{GEN} let ghost c0 = docx.document.children@; let ghost p0 = docx.document.section_property; let ghost c1 = docx.comments.comments@; let ghost c2 = docx.footnotes.footnotes@;''')
loop(0, "k_doc", "DocumentChild", "c0"); loopend(0, "k_doc", "DocumentChild", "c0")
w('''//@afterloop 0
//@| let ghost u1 = used@; let ghost s1 = seen@; let ghost b1 = k_docs(docx.document.children@, c0.len() as int); assert(step(k_docs(c0, c0.len() as int), b1, duplicates@, u0, s0, u1, s1));
//@before `for comment in`
//@| let ghost u2 = used@; let ghost s2 = seen@; let ghost b2 = id_property(docx.document.section_property);''')
loop(1, "k_comment", "Comment", "c1", "u2", "s2"); loopend(1, "k_comment", "Comment", "c1", "u2", "s2")
w('''//@afterloop 1
//@| let ghost u3 = used@; let ghost s3 = seen@; let ghost b3 = k_comments(docx.comments.comments@, c1.len() as int); assert(step(k_comments(c1, c1.len() as int), b3, duplicates@, u2, s2, u3, s3));''')
loop(2, "k_foot", "Footnote", "c2", "u3", "s3"); o[-1] += " let ghost n0 = c2[it2.index@ as int].content@;"
loopend(2, "k_foot", "Footnote", "c2", "u3", "s3")
loop(3, "k_note", "Paragraph", "n0", "ua2", "sa2"); loopend(3, "k_note", "Paragraph", "n0", "ua2", "sa2")
done(3, "k_note", "n0", "footnote.content", "ua2", "sa2"); done(2, "k_foot", "c2", "docx.footnotes.footnotes", "u3", "s3")
w('''//@at end
//@| proof { let a0 = k_docs(c0, c0.len() as int); let a2 = k_comments(c1, c1.len() as int); let a3 = k_foots(c2, c2.len() as int); let b4 = k_foots(docx.footnotes.footnotes@, c2.len() as int);
//@|   cat(a0, b1, id_property(p0), b2, duplicates@, u0, s0, u1, s1, u2, s2); cat(a0 + id_property(p0), b1 + b2, a2, b3, duplicates@, u0, s0, u2, s2, u3, s3);
//@|   cat(a0 + id_property(p0) + a2, b1 + b2 + b3, a3, b4, duplicates@, u0, s0, u3, s3, used@, seen@); }
//@end
//@fn Docx::refresh_duplicate_para_ids
//@| ensures distinct(id_docx(*final(self))), kept(id_docx(*old(self)), id_docx(*final(self))),
//@sub `HashMap::new()` => `IdLog::new()`
//@sub `counts~~.iter()~~.filter(|(_, count)| **count > 1)~~.map(|(id, _)| (*id).to_owned())~~.collect()` => `counts.vx_repeated()`
//@sub `reserve_para_ids(counts.into_keys())` => `vx_reserve(counts)`
//@sub `counts.into_keys().map(str::to_owned).collect()` => `counts.vx_keys()`
//@sub `HashSet::new()` => `StrSet::new()`
//@sub `reserve_para_ids(used.iter().map(String::as_str))` => `vx_reserve(&used)`
//@at start
//@| broadcast use ms_none; let ghost a = id_docx(*self);
//@after `collect_para_ids_in_docx(self, &mut counts)`
//@| assert(counts@ =~= ms(a)); proof { assert forall |x: Id| (counts@.count(x) >= 1) == a.contains(x) && (counts@.count(x) >= 2) == repeated(a).contains(x) by { ms_counts(a, x); } }
//@before `reserve_para_ids(counts.into_keys())`
//@| proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
//@|   assert forall |i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() > 0 by { if a[i].len() == 0 { assert(a[i] =~= Seq::<char>::empty()); assert(a.contains(a[i])); } }
//@|   assert forall |i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by { if a[i] == a[j] { assert(repeated(a).contains(a[i])); ms_counts(a, a[i]); assert(duplicates@.contains(a[i])); } } }
//@before `refresh_para_ids_in_docx(self`
//@| proof { assert forall |x: Id| used@.contains(x) == a.to_set().contains(x) by { ms_counts(a, x); } assert(used@ =~= a.to_set()); assert forall |x: Id| duplicates@.contains(x) == repeated(a).contains(x) by { ms_counts(a, x); } assert(duplicates@ =~= repeated(a)); }
//@at end
//@| proof { assert(duplicates@ =~= repeated(a)); lemma_unique(a, id_docx(*self), used@, seen@); }
//@end''')
open(R + "/units/ids_core.rs", "w").write("\n".join(o) + "\n")
