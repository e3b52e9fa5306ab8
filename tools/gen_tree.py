import os
U=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','units')
o=[]
w=o.append
w('''// Traversal of the document tree: which nodes a visitor is shown, and in which order.
/// One hook call: the node before it and, for hooks that change nodes, the node after it.
pub ghost enum Ev { Para(Paragraph), Run(Run), Pic(Pic, Pic), Com(CommentRangeStart, CommentRangeStart), Link(Hyperlink, HyperlinkData), Foot(FootnoteReference) }
// The declaration of the trait with its contract. `inv` says what a visitor knows after the hook calls `h`;
// `ok` is what every hook needs and keeps, `fixed` what no hook changes, and the
// hooks of a `readonly` visitor leave their node as it was;
// a hook takes the visitor from `h` to `h` and its own call, and keeps the children of the node.
pub trait DocumentTreeVisitor: Sized {
    type K;
    spec fn readonly() -> bool;
    spec fn fixed(&self) -> Self::K;
    spec fn ok(&self) -> bool;
    spec fn inv(&self, h: Seq<Ev>) -> bool;
    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Para(*old(paragraph))]), final(paragraph).children == old(paragraph).children, Self::readonly() ==> *final(paragraph) == *old(paragraph);
    fn visit_run(&mut self, run: &mut Run) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Run(*old(run))]), final(run).children == old(run).children, Self::readonly() ==> *final(run) == *old(run);
    fn visit_picture(&mut self, picture: &mut Pic) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Pic(*old(picture), *final(picture))]), Self::readonly() ==> *final(picture) == *old(picture);
    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Com(*old(start), *final(start))]), Self::readonly() ==> *final(start) == *old(start);
    fn visit_hyperlink(&mut self, link: &mut Hyperlink) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Link(*old(link), final(link).link)]), final(link).children == old(link).children, Self::readonly() ==> *final(link) == *old(link);
    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) requires old(self).ok(), ensures final(self).ok(), final(self).fixed() == old(self).fixed(), forall |h: Seq<Ev>| #[trigger] old(self).inv(h) ==> final(self).inv(h + seq![Ev::Foot(*reference)]);
}
pub open spec fn ro<V: DocumentTreeVisitor>(v: V) -> bool { V::readonly() }
// TRUSTED: two vectors with the same elements are the same value.
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ =~= b@, ensures #![trigger a@, b@] a == b;
/// The visitor went from `a` to `b` through exactly the hook calls `s`.
pub open spec fn folds<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V) -> bool { a.fixed() == b.fixed() && forall |h: Seq<Ev>| #[trigger] a.inv(h) ==> b.inv(h + s) }
pub proof fn lemma_folds<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V, t: Seq<Ev>, c: V)
    requires folds(a, s, b), folds(b, t, c)
    ensures folds(a, s + t, c)
{
    assert forall |h: Seq<Ev>| #[trigger] a.inv(h) implies c.inv(h + (s + t)) by { assert(b.inv(h + s)); assert((h + s) + t =~= h + (s + t)); }
}
pub proof fn lemma_from_empty<V: DocumentTreeVisitor>(a: V, s: Seq<Ev>, b: V)
    requires folds(a, s, b), a.inv(Seq::<Ev>::empty())
    ensures b.inv(s)
{
    assert(Seq::<Ev>::empty() + s =~= s);
}
pub proof fn lemma_still<V: DocumentTreeVisitor>(a: V)
    ensures folds(a, Seq::<Ev>::empty(), a)
{
    assert forall |h: Seq<Ev>| #[trigger] a.inv(h) implies a.inv(h + Seq::<Ev>::empty()) by { assert(h + Seq::<Ev>::empty() =~= h); }
}
''')
E0="Seq::<Ev>::empty()"
ARMS={}
def kids(name,ty,f,arms):
    """Events of the first n children of a container before (x) and after (y) the visit."""
    ARMS[name]=arms
    w(f'''pub open spec fn {name}_n(x: {ty}, y: {ty}, n: int) -> Seq<Ev> decreases x, n {{
    if n <= 0 || n > x{f}.len() {{ {E0} }} else {{ {name}_n(x, y, n - 1) + (match (x{f}[n - 1], y{f}[n - 1]) {{ {arms} }}) }}
}}
pub open spec fn {name}(x: {ty}, y: {ty}) -> Seq<Ev> decreases x, x{f}.len() + 1 {{ {name}_n(x, y, x{f}.len() as int) }}''')
def arms(en,xs):
    t={"P":("Paragraph","ev_paragraph(*a, *b)"),"T":("Table","ev_table(*a, *b)"),"S":("StructuredDataTag","ev_sdt(*a, *b)"),"C":("CommentStart","seq![Ev::Com(*a, *b)]"),"R":("Run","ev_run(*a, *b)"),
       "TO":("TableOfContents","ev_toc(*a, *b)"),"D":("Delete","ev_delete(a, b)"),"I":("Insert","ev_insert(a, b)"),"MF":("MoveFrom","ev_move_from(a, b)"),"MT":("MoveTo","ev_move_to(a, b)"),
       "H":("Hyperlink","ev_hyperlink(a, b)"),"SE":("Section","ev_section(*a, *b)"),"ROW":("TableRow","ev_row(a, b)"),"CELL":("TableCell","ev_cell(a, b)"),
       "DR":("Drawing","(match (a.data, b.data) { (Some(DrawingData::Pic(p)), Some(DrawingData::Pic(q))) => seq![Ev::Pic(p, q)], _ => Seq::<Ev>::empty() })"),"F":("FootnoteReference","seq![Ev::Foot(a)]")}
    return ", ".join(f"({en}::{t[k][0]}(a), {en}::{t[k][0]}(b)) => {t[k][1]}" for k in xs.split())+f", _ => {E0}"
kids("ev_run_kids","Run",".children",arms("RunChild","DR C F"))
w("pub open spec fn ev_run(x: Run, y: Run) -> Seq<Ev> decreases x, x.children.len() + 2 { seq![Ev::Run(x)] + ev_run_kids(x, y) }")
kids("ev_insert","Insert",".children",arms("InsertChild","R D C"))
kids("ev_delete","Delete",".children",arms("DeleteChild","R C"))
kids("ev_move_from","MoveFrom",".children",arms("MoveFromChild","R C"))
kids("ev_move_to","MoveTo",".children",arms("MoveToChild","R D C"))
kids("ev_paras","Vec<ParagraphChild>","",arms("ParagraphChild","R I D MF MT H S C"))
w("pub open spec fn ev_hyperlink(x: Hyperlink, y: Hyperlink) -> Seq<Ev> decreases x, 0int { seq![Ev::Link(x, y.link)] + ev_paras(x.children, y.children) }")
w("pub open spec fn ev_paragraph(x: Paragraph, y: Paragraph) -> Seq<Ev> decreases x, 0int { seq![Ev::Para(x)] + ev_paras(x.children, y.children) }")
kids("ev_sdt","StructuredDataTag",".children",arms("StructuredDataTagChild","R P T S C"))
kids("ev_cell","TableCell",".children",arms("TableCellContent","P T S TO"))
kids("ev_row","TableRow",".cells",arms("TableRowChild","CELL"))
kids("ev_table","Table",".rows",arms("TableChild","ROW"))
kids("ev_tocs","Vec<TocContent>","",arms("TocContent","P T"))
w("pub open spec fn ev_toc(x: TableOfContents, y: TableOfContents) -> Seq<Ev> decreases x, 0int { ev_tocs(x.before_contents, y.before_contents) + ev_tocs(x.after_contents, y.after_contents) }")
kids("ev_section","Section",".children",arms("SectionChild","P T S TO C"))
kids("ev_document","Document",".children",arms("DocumentChild","P T S TO SE C"))
kids("ev_header","Header",".children",arms("HeaderChild","P T S"))
kids("ev_footer","Footer",".children",arms("FooterChild","P T S"))
kids("ev_comment","Comment",".children",arms("CommentChild","P T"))
w('''/// The first n values of d are the values the borrows end up with.
#[verifier::prophetic]
pub open spec fn ends<T>(s: Seq<&mut T>, d: Seq<T>, n: int) -> bool { d.len() == s.len() && forall |i: int| 0 <= i < n ==> #[trigger] d[i] == *final(s[i]) }''')
TY={"ev_document":"Document","ev_header":"Header","ev_footer":"Footer","ev_comment":"Comment","ev_section":"Section","ev_table":"Table","ev_row":"TableRow","ev_cell":"TableCell","ev_sdt":"StructuredDataTag",
 "ev_insert":"Insert","ev_delete":"Delete","ev_move_from":"MoveFrom","ev_move_to":"MoveTo","ev_run_kids":"Run","ev_paras":"Vec<ParagraphChild>","ev_tocs":"Vec<TocContent>"}
w('''// TRUSTED: Iterator::chain over two vectors yields the elements of the first, then those of the second.
#[verifier::external_body]
pub fn vx_chain<'a, T>(a: &'a mut Vec<T>, b: &'a mut Vec<T>) -> (r: Vec<&'a mut T>)
    ensures r@.len() == old(a)@.len() + old(b)@.len(), final(a)@.len() == old(a)@.len(), final(b)@.len() == old(b)@.len(),
        forall |i: int| 0 <= i < old(a)@.len() ==> *(#[trigger] r@[i]) == old(a)@[i] && *final(r@[i]) == final(a)@[i],
        forall |i: int| 0 <= i < old(b)@.len() ==> *(#[trigger] r@[i + old(a)@.len()]) == old(b)@[i] && *final(r@[i + old(a)@.len()]) == final(b)@[i],
        forall |i: int| 0 <= i < old(a)@.len() ==> *final(r@[i]) == #[trigger] final(a)@[i], forall |i: int| 0 <= i < old(b)@.len() ==> *final(r@[i + old(a)@.len()]) == #[trigger] final(b)@[i],
{ a.iter_mut().chain(b.iter_mut()).collect() }''')
F="documents/document_tree.rs::"
def loop(k,it,ev,x,vec,v0='v0',cur='',inv=''):
    """Directives of loop k over the children of ghost container x; cur is the container after the loop."""
    vm=f"vm{k}"; ty=TY[ev]; n=f"{it}.index@ as int"
    one=f"(match ({x}{vec}[{n}], d{vec}[{n}]) {{ {ARMS[ev]} }})"
    w(f'''//@loop {k} iter={it}
//@| invariant {it}.seq().len() == {x}{vec}.len(), forall |i: int| 0 <= i < {it}.seq().len() ==> *(#[trigger] {it}.seq()[i]) == {x}{vec}[i], visitor.ok(),
//@|   forall |d: {ty}| ends({it}.seq(), d{vec}@, {n}) ==> #[trigger] folds({v0}, {ev}_n({x}, d, {n}), *visitor),{inv}
//@|   ro({v0}) ==> forall |i: int| 0 <= i < {it}.index@ ==> *final(#[trigger] {it}.seq()[i]) == {x}{vec}[i],
//@loopstart {k}
//@| let ghost {vm} = *visitor; proof {{ lemma_still(*visitor); }}
//@loopend {k}
//@| proof {{ assert forall |d: {ty}| ends({it}.seq(), d{vec}@, {it}.index@ as int + 1) implies #[trigger] folds({v0}, {ev}_n({x}, d, {it}.index@ as int + 1), *visitor) by {{
//@|   assert(ends({it}.seq(), d{vec}@, {n})); assert(d{vec}@[{n}] == *final({it}.seq()[{n}])); assert(folds({vm}, {one}, *visitor)); lemma_folds({v0}, {ev}_n({x}, d, {n}), {vm}, {one}, *visitor); assert({ev}_n({x}, d, {it}.index@ as int + 1) == {ev}_n({x}, d, {n}) + {one}); }} }}
//@afterloop {k}
//@| assert({ev}({x}, *{cur}) == {ev}_n({x}, *{cur}, {x}{vec}.len() as int)); assert(folds({v0}, {ev}_n({x}, *{cur}, {x}{vec}.len() as int), *visitor)); proof {{ if ro({v0}) {{ assert({'(*'+cur+')' if not vec else cur}{vec}@ =~= {x}{vec}@); axiom_vec_ext({'*'+cur if not vec else cur+vec}, {x}{vec}); }} }}''')
def head(name,param,ev,frame='',ens=None):
    w(f'''//@fn {F}{name}
//@| requires old(visitor).ok(),
//@| ensures final(visitor).ok(), folds(*old(visitor), {ens or f"{ev}(*old({param}), *final({param}))"}, *final(visitor)), ro(*old(visitor)) ==> *final({param}) == *old({param}),{frame}''')
ATTR='''//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::spinoff_prover]'''
def fn(name,param,ev,loopvec,frame='',inv=''):
    head(name,param,ev,frame)
    w(ATTR)
    w(f'''//@at start
//@| let ghost x0 = *{param}; let ghost v0 = *visitor; proof {{ lemma_still(*visitor); }}''')
    loop(0,'it',ev,'x0',loopvec,cur=param,inv=inv)
    w("//@end")
fn("visit_document","document","ev_document",".children",frame='''
//@|   *final(document) == (Document { children: final(document).children, ..*old(document) }), final(document).children@.len() == old(document).children@.len(),
//@|   forall |i: int| 0 <= i < old(document).children@.len() ==> kept_section(#[trigger] old(document).children@[i], final(document).children@[i]),''',
   inv='''
//@|   forall |i: int| 0 <= i < it.index@ ==> kept_section(x0.children@[i], *final(#[trigger] it.seq()[i])),''')
fn("visit_header","header","ev_header",".children")
fn("visit_footer","footer","ev_footer",".children")
fn("visit_comment","comment","ev_comment",".children")
w('''/// Section properties are not handed to visitors.
pub open spec fn kept_section(a: DocumentChild, b: DocumentChild) -> bool {
    match a { DocumentChild::Section(s) => b matches DocumentChild::Section(t) && t.property == s.property, _ => !(b is Section) }
}''')
head("visit_document_child","child",None,frame='''
//@|   kept_section(*old(child), *final(child)),''',ens="(match (*old(child), *final(child)) { "+ARMS["ev_document"]+" })")
w(ATTR+'''
//@at start
//@| proof { lemma_still(*visitor); }
//@end''')
fn("visit_section","section","ev_section",".children",frame='''
//@|   *final(section) == (Section { children: final(section).children, ..*old(section) }),''')
head("visit_table","table","ev_table")
w(ATTR+'''
//@at start
//@| let ghost x0 = *table; let ghost v0 = *visitor; proof { lemma_still(*visitor); }''')
loop(0,'it','ev_table','x0','.rows',cur='table')
w('''//@loopstart 0
//@| let ghost r0 = x0.rows[it.index@ as int]->TableRow_0; let ghost v1 = *visitor;''')
loop(1,'jt','ev_row','r0','.cells',v0='v1',cur='row')
w('''//@loopstart 1
//@| let ghost c0 = r0.cells[jt.index@ as int]->TableCell_0; let ghost v2 = *visitor;''')
loop(2,'kt','ev_cell','c0','.children',v0='v2',cur='cell')
w("//@end")
one="(if it.index@ < m { match (x0.before_contents[it.index@ as int], d[it.index@ as int]) { %s } } else { match (x0.after_contents[it.index@ - m], e[it.index@ - m]) { %s } })"%(ARMS["ev_tocs"],ARMS["ev_tocs"])
tn=lambda n: f"ev_toc_n(x0, d, e, {n})"
w("pub open spec fn ev_toc_n(x: TableOfContents, d: Vec<TocContent>, e: Vec<TocContent>, n: int) -> Seq<Ev> { let m = x.before_contents.len() as int; ev_tocs_n(x.before_contents, d, if n < m { n } else { m }) + ev_tocs_n(x.after_contents, e, n - m) }")
w('''/// As `ends`, for a sequence of borrows into two vectors.
#[verifier::prophetic]
pub open spec fn ends2<T>(s: Seq<&mut T>, d: Seq<T>, e: Seq<T>, n: int) -> bool { (forall |i: int| 0 <= i < n && i < d.len() ==> #[trigger] d[i] == *final(s[i])) && (forall |i: int| 0 <= i < n - d.len() ==> #[trigger] e[i] == *final(s[i + d.len()])) }''')
head("visit_table_of_contents","toc","ev_toc")
w('''//@sub `in it: toc~~.before_contents~~.iter_mut()~~.chain(toc.after_contents.iter_mut())` => `in it: vx_chain(&mut toc.before_contents, &mut toc.after_contents)`
'''+ATTR+f'''
//@at start
//@| let ghost x0 = *toc; let ghost v0 = *visitor; let ghost m = x0.before_contents@.len() as int; proof {{ lemma_still(*visitor); assert({E0} =~= {E0} + {E0}); }}
//@loop 0 iter=it
//@| invariant visitor.ok(), it.seq().len() == m + x0.after_contents.len(), m == x0.before_contents.len(),
//@|   forall |i: int| 0 <= i < m ==> *(#[trigger] it.seq()[i]) == x0.before_contents[i],
//@|   forall |i: int| 0 <= i < x0.after_contents.len() ==> *(#[trigger] it.seq()[i + m]) == x0.after_contents[i],
//@|   forall |d: Vec<TocContent>, e: Vec<TocContent>| d.len() == m && ends2(it.seq(), d@, e@, it.index@ as int) ==> #[trigger] folds(v0, {tn("it.index@ as int")}, *visitor),
//@|   ro(v0) ==> forall |i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == (if i < m {{ x0.before_contents[i] }} else {{ x0.after_contents[i - m] }}),
//@loopstart 0
//@| let ghost vm = *visitor;
//@| proof {{ if it.index@ >= m {{ assert(*it.seq()[it.index@ - m + m] == x0.after_contents[it.index@ - m]); }} }}
//@loopend 0
//@| proof {{ assert forall |d: Vec<TocContent>, e: Vec<TocContent>| d.len() == m && ends2(it.seq(), d@, e@, it.index@ as int + 1) implies #[trigger] folds(v0, {tn("it.index@ as int + 1")}, *visitor) by {{
//@|   assert(ends2(it.seq(), d@, e@, it.index@ as int)); if it.index@ < m {{ assert(d@[it.index@ as int] == *final(it.seq()[it.index@ as int])); }} else {{ assert(e@[it.index@ - m] == *final(it.seq()[it.index@ - m + m])); }}
//@|   assert(folds(vm, {one}, *visitor)); lemma_folds(v0, {tn("it.index@ as int")}, vm, {one}, *visitor); assert(({tn("it.index@ as int")}) + {one} =~= {tn("it.index@ as int + 1")}); }} }}
//@afterloop 0
//@| proof {{ let d = toc.before_contents; let e = toc.after_contents; let n = m + x0.after_contents.len(); assert(folds(v0, {tn("n")}, *visitor)); if ro(v0) {{ assert(d@ =~= x0.before_contents@); assert forall |i: int| 0 <= i < e@.len() implies e@[i] == x0.after_contents@[i] by {{ }}; assert(e@ =~= x0.after_contents@); axiom_vec_ext(d, x0.before_contents); axiom_vec_ext(e, x0.after_contents); }} }}
//@end''')
fn("visit_structured_data_tag","tag","ev_sdt",".children")
for name,param,ev,k in (("visit_paragraph","paragraph","ev_paragraph","Ev::Para(x0)"),("visit_hyperlink","link","ev_hyperlink","Ev::Link(x0, link.link)")):
    head(name,param,ev)
    w(ATTR+f'''
//@at start
//@| let ghost x0 = *{param}; let ghost v0 = *visitor;
//@after `visitor.{name}({param});`
//@| let ghost v1 = *visitor; proof {{ assert(folds(v0, seq![{k}], v1)); }}
//@at end
//@| proof {{ lemma_folds(v0, seq![{k}], v1, ev_paras(x0.children, {param}.children), *visitor); }}
//@end''')
head("visit_paragraph_children","children","ev_paras")
w('''//@sub `children: &mut [ParagraphChild]` => `children: &mut Vec<ParagraphChild>`
//@sub `for child in it: children` => `for child in it: children.iter_mut()`
'''+ATTR+'''
//@at start
//@| let ghost x0 = *children; let ghost v0 = *visitor; proof { lemma_still(*visitor); }''')
loop(0,'it','ev_paras','x0','',cur='children')
w("//@end")
for n,p in (("insert","insert"),("delete","delete"),("move_from","moved"),("move_to","moved")):
    fn(f"visit_{n}",p,f"ev_{n}",".children")
head("visit_run","run","ev_run")
w(ATTR+'''
//@at start
//@| let ghost x0 = *run; let ghost v0 = *visitor;
//@after `visitor.visit_run(run);`
//@| let ghost v1 = *visitor; proof { lemma_still(*visitor); assert(folds(v0, seq![Ev::Run(x0)], v1)); }''')
loop(0,'it','ev_run_kids','x0','.children',v0='v1',cur='run')
w('''//@afterloop 0
//@| proof { lemma_folds(v0, seq![Ev::Run(x0)], v1, ev_run_kids(x0, *run), *visitor); }
//@end''')
open(U+'/tree_core.rs','w').write("\n".join(o)+"\n")
open(U+'/tree.rs','w').write('''//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@include tree_core.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
''')
