//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::zipper::` => ``
//@gsub `crate::` => ``
//@gsub `zip::result::ZipResult<` => `ZipResult<`
//@gsub `zip::ZipWriter` => `ZipWriter`
//@gsub `zip::CompressionMethod` => `CompressionMethod`
//@gsub `std::io::Write + std::io::Seek` => `Write + Seek`
//@gsub `write_xml(` => `write_xml(vx_st, `
//@gsub `.build()` => `.vx_build(vx_st)`
//@gsub `.iter().enumerate()` => `.vx_enum()`
//@gsub `.into_iter().enumerate()` => `.vx_enum_own()`
//@include fmt.rs
pub trait Write {}
pub trait Seek {}
pub struct ZipError;
pub type ZipResult<T> = Result<T, ZipError>;
// TRUSTED: entry options are values; the two ways of making them used here are functions of nothing else.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SimpleFileOptions { x: u8 }
pub enum CompressionMethod { Stored, Deflated, Other }
pub uninterp spec fn plain_options() -> SimpleFileOptions;
pub uninterp spec fn with_method(o: SimpleFileOptions, m: CompressionMethod) -> SimpleFileOptions;
pub uninterp spec fn with_permissions(o: SimpleFileOptions, m: u32) -> SimpleFileOptions;
impl SimpleFileOptions {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r == plain_options() { unimplemented!() }
    #[verifier::external_body] pub fn compression_method(self, m: CompressionMethod) -> (r: Self) ensures r == with_method(self, m) { unimplemented!() }
    #[verifier::external_body] pub fn unix_permissions(self, m: u32) -> (r: Self) ensures r == with_permissions(self, m) { unimplemented!() }
}
/// What goes into an archive, in order.
pub enum Entry { Dir(Seq<char>, SimpleFileOptions), File(Seq<char>, SimpleFileOptions, Seq<u8>) }
pub open spec fn cat(c: Seq<u8>, b: Seq<u8>) -> Seq<u8> { if c.len() == 0 { b } else { c + b } }
pub trait VxPath { spec fn path(&self) -> Seq<char>; }
impl VxPath for &str { open spec fn path(&self) -> Seq<char> { self@ } }
impl VxPath for String { open spec fn path(&self) -> Seq<char> { self@ } }
// TRUSTED: the zip writer appends an entry per call, bytes go to the entry opened last, and the archive's bytes are a function of the entries.
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct ZipWriter<W> { w: W }
impl<W> ZipWriter<W> {
    pub uninterp spec fn view(&self) -> Seq<Entry>;
    #[verifier::external_body] pub fn new(w: W) -> (r: Self) ensures r@ == Seq::<Entry>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add_directory(&mut self, name: &str, o: SimpleFileOptions) -> (r: ZipResult<()>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Entry::Dir(name@, o)) { unimplemented!() }
    #[verifier::external_body] pub fn start_file<P: VxPath>(&mut self, name: P, o: SimpleFileOptions) -> (r: ZipResult<()>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Entry::File(name.path(), o, Seq::empty())) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &Vec<u8>) -> (r: ZipResult<()>)
        ensures r is Ok ==> forall |z: Seq<Entry>, n: Seq<char>, o: SimpleFileOptions, c: Seq<u8>| old(self)@ == #[trigger] z.push(Entry::File(n, o, c)) ==> final(self)@ == z.push(Entry::File(n, o, cat(c, b@))) { unimplemented!() }
    #[verifier::external_body] pub fn vx_finish(self, vx_st: &mut VxSt) -> (r: ZipResult<W>)
        ensures r is Ok ==> final(vx_st).out() == self@, final(vx_st).ids() == old(vx_st).ids() { unimplemented!() }
}
// TRUSTED: rendering a part appends bytes that depend on the part and on the ids handed out so far; `vx_st` is that counter, threaded
// through every call that renders, plus the entries of the archive finished last.
#[verifier::external_body]
pub struct VxSt { x: u8 }
impl VxSt { pub uninterp spec fn ids(&self) -> int; pub uninterp spec fn out(&self) -> Seq<Entry>; }
pub uninterp spec fn bytes_of<T>(t: T, s: int) -> Seq<u8>;
pub uninterp spec fn next_of<T>(t: T, s: int) -> int;
pub trait BuildXML: Sized {
    #[verifier::external_body] fn vx_build(&self, vx_st: &mut VxSt) -> (r: Vec<u8>)
        ensures r@ == bytes_of(*self, old(vx_st).ids()), final(vx_st).ids() == next_of(*self, old(vx_st).ids()) { unimplemented!() }
}
impl<T> BuildXML for T {}
#[verifier::external_body]
pub fn vx_render<T>(part: &T, buffer: &mut Vec<u8>, vx_st: &mut VxSt) -> (r: ZipResult<()>)
    ensures r is Ok ==> final(buffer)@ == old(buffer)@ + bytes_of(*part, old(vx_st).ids()) && final(vx_st).ids() == next_of(*part, old(vx_st).ids())
{ unimplemented!() }
// TRUSTED: these parts hold nothing that takes an id while it is rendered; a relationship part is never empty.
pub broadcast axiom fn free_ContentTypes(t: ContentTypes, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_Rels(t: Rels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_AppProps(t: AppProps, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CoreProps(t: CoreProps, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CustomProps(t: CustomProps, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_DocumentRels(t: DocumentRels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_Settings(t: Settings, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_FontTable(t: FontTable, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CommentsExtended(t: CommentsExtended, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_HeaderRels(t: HeaderRels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s, bytes_of(t, s).len() > 0;
pub broadcast axiom fn free_FooterRels(t: FooterRels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s, bytes_of(t, s).len() > 0;
pub broadcast axiom fn free_Taskpanes(t: Taskpanes, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_TaskpanesRels(t: TaskpanesRels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_WebExtension(t: WebExtension, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CustomItem(t: CustomItem, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CustomItemRels(t: CustomItemRels, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
pub broadcast axiom fn free_CustomItemProperty(t: CustomItemProperty, s: int) ensures #![trigger bytes_of(t, s)] #![trigger next_of(t, s)] bytes_of(t, s) == bytes_of(t, 0), next_of(t, s) == s;
broadcast proof fn free_list_WebExtension(v: Seq<WebExtension>, s: int, n: int) ensures #[trigger] ids_after(v, s, n) == s decreases n { broadcast use free_WebExtension; if n > 0 { free_list_WebExtension(v, s, n - 1); } }
broadcast proof fn free_list_CustomItem(v: Seq<CustomItem>, s: int, n: int) ensures #[trigger] ids_after(v, s, n) == s decreases n { broadcast use free_CustomItem; if n > 0 { free_list_CustomItem(v, s, n - 1); } }
broadcast proof fn free_list_CustomItemRels(v: Seq<CustomItemRels>, s: int, n: int) ensures #[trigger] ids_after(v, s, n) == s decreases n { broadcast use free_CustomItemRels; if n > 0 { free_list_CustomItemRels(v, s, n - 1); } }
broadcast proof fn free_list_CustomItemProperty(v: Seq<CustomItemProperty>, s: int, n: int) ensures #[trigger] ids_after(v, s, n) == s decreases n { broadcast use free_CustomItemProperty; if n > 0 { free_list_CustomItemProperty(v, s, n - 1); } }
broadcast group group_lists { free_list_WebExtension, free_list_CustomItem, free_list_CustomItemRels, free_list_CustomItemProperty }
broadcast group group_free { free_ContentTypes, free_Rels, free_AppProps, free_CoreProps, free_CustomProps, free_DocumentRels, free_Settings, free_FontTable, free_CommentsExtended, free_HeaderRels, free_FooterRels, free_Taskpanes, free_TaskpanesRels, free_WebExtension, free_CustomItem, free_CustomItemRels, free_CustomItemProperty }

//@gsub `.is_some_and(` => `.vx_is_some_and(`
pub trait VxIsSomeAnd<T>: Sized { spec fn opt(self) -> Option<T>;
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.opt() matches Some(x) ==> f.requires((x,)) ensures self.opt() is None ==> !r, self.opt() matches Some(x) ==> f.ensures((x,), r); }
impl<T> VxIsSomeAnd<T> for Option<T> { open spec fn opt(self) -> Option<T> { self }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } } }
// Iteration helpers; verified.
pub trait VxEnum { type X; spec fn items(&self) -> Seq<Self::X>;
    fn vx_enum(&self) -> (r: Vec<(usize, &Self::X)>) ensures r@.len() == self.items().len(), forall |i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self.items()[i]; }
impl<T> VxEnum for Vec<T> { type X = T; open spec fn items(&self) -> Seq<T> { self@ }
    fn vx_enum(&self) -> (r: Vec<(usize, &T)>) {
        let mut r: Vec<(usize, &T)> = Vec::new(); let mut i = 0;
        while i < self.len() invariant i <= self@.len(), r@.len() == i, forall |k: int| 0 <= k < i ==> (#[trigger] r@[k]).0 == k && *r@[k].1 == self@[k] decreases self@.len() - i { r.push((i, &self[i])); i += 1; }
        r
    } }
pub trait VxEnumOwn { type X; spec fn owned(&self) -> Seq<Self::X>;
    fn vx_enum_own(self) -> (r: Vec<(usize, Self::X)>) where Self: Sized ensures r@.len() == self.owned().len(), r@.len() <= usize::MAX, forall |i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.owned()[i]; }
impl<T> VxEnumOwn for Vec<T> { type X = T; open spec fn owned(&self) -> Seq<T> { self@ }
    #[verifier::loop_isolation(false)]
    fn vx_enum_own(self) -> (r: Vec<(usize, T)>) {
        let mut r: Vec<(usize, T)> = Vec::new(); let n = self.len();
        for x in it: self invariant it.seq() == self@, n == self@.len(), r@.len() == it.index@, forall |k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1 == self@[k] { let i = r.len(); r.push((i, x)); }
        r
    } }
pub struct VxPeek<'a, T> { pub v: &'a Vec<(usize, T)>, pub pos: usize }
impl<'a, T> VxPeek<'a, T> {
    pub fn new(v: &'a Vec<(usize, T)>) -> (r: Self) ensures r.v == v, r.pos == 0 { VxPeek { v, pos: 0 } }
    pub fn peek(&self) -> (r: Option<&'a (usize, T)>) ensures self.pos < self.v@.len() ==> r is Some && *r->0 == self.v@[self.pos as int], self.pos >= self.v@.len() ==> r is None
    { if self.pos < self.v.len() { Some(&self.v[self.pos]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a (usize, T)>) requires old(self).pos <= old(self).v@.len()
        ensures final(self).v == old(self).v, old(self).pos < old(self).v@.len() ==> r is Some && *r->0 == old(self).v@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).v@.len() ==> r is None && final(self).pos == old(self).pos
    { if self.pos < self.v.len() { let r = Some(&self.v[self.pos]); self.pos += 1; r } else { None } }
}
pub fn vx_nonempty<'a>(v: &'a Vec<Vec<u8>>, i: usize) -> (r: Option<&'a Vec<u8>>)
    ensures r is Some == (i < v@.len() && v@[i as int]@.len() > 0), r matches Some(x) ==> *x == v@[i as int]
{ if i < v.len() && v[i].len() > 0 { Some(&v[i]) } else { None } }
pub fn vx_resize(v: &mut Vec<Vec<u8>>, n: usize)
    requires old(v)@.len() <= n
    ensures final(v)@.len() == n, forall |i: int| 0 <= i < n ==> (#[trigger] final(v)@[i]) == (if i < old(v)@.len() { old(v)@[i] } else { final(v)@[i] }), forall |i: int| old(v)@.len() <= i < n ==> (#[trigger] final(v)@[i])@.len() == 0
{ let ghost v0 = v@; while v.len() < n invariant v0.len() <= v@.len() <= n, forall |i: int| 0 <= i < v0.len() ==> (#[trigger] v@[i]) == v0[i], forall |i: int| v0.len() <= i < v@.len() ==> (#[trigger] v@[i])@.len() == 0 decreases n - v@.len() { v.push(Vec::new()); } }
/// The bytes of the rendered parts of a list, and the ids after n of them.
pub open spec fn ids_after<T>(v: Seq<T>, s: int, n: int) -> int decreases n { if n <= 0 { s } else { next_of(v[n - 1], ids_after(v, s, n - 1)) } }
pub open spec fn all_bytes<T>(r: Seq<Vec<u8>>, v: Seq<T>, s: int) -> bool { r.len() == v.len() && forall |i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == bytes_of(v[i], ids_after(v, s, i)) }
pub open spec fn seconds<A, B>(v: Seq<(A, B)>) -> Seq<B> { v.map_values(|p: (A, B)| p.1) }
pub fn vx_build_all<T>(v: &Vec<T>, vx_st: &mut VxSt) -> (r: Vec<Vec<u8>>)
    ensures all_bytes(r@, v@, old(vx_st).ids()), final(vx_st).ids() == ids_after(v@, old(vx_st).ids(), v@.len() as int)
{
    let ghost s = vx_st.ids(); let mut r: Vec<Vec<u8>> = Vec::new(); let mut i = 0;
    while i < v.len() invariant i <= v@.len(), r@.len() == i, vx_st.ids() == ids_after(v@, s, i as int), forall |k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == bytes_of(v@[k], ids_after(v@, s, k)) decreases v@.len() - i { r.push(v[i].vx_build(vx_st)); i += 1; }
    r
}
pub fn vx_build_seconds<A, T>(v: Vec<&(A, T)>, vx_st: &mut VxSt) -> (r: Vec<Vec<u8>>)
    ensures all_bytes(r@, seconds(v@.map_values(|p: &(A, T)| *p)), old(vx_st).ids()), final(vx_st).ids() == ids_after(seconds(v@.map_values(|p: &(A, T)| *p)), old(vx_st).ids(), v@.len() as int)
{
    let ghost s = vx_st.ids(); let ghost w = seconds(v@.map_values(|p: &(A, T)| *p)); let mut r: Vec<Vec<u8>> = Vec::new(); let mut i = 0;
    while i < v.len() invariant w == seconds(v@.map_values(|p: &(A, T)| *p)), i <= v@.len(), r@.len() == i, vx_st.ids() == ids_after(w, s, i as int), forall |k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == bytes_of(w[k], ids_after(w, s, k)) decreases v@.len() - i { assert(w[i as int] == v@[i as int].1); r.push(v[i].1.vx_build(vx_st)); i += 1; }
    r
}
pub fn vx_build_opt<T>(v: Option<T>, vx_st: &mut VxSt) -> (r: Option<Vec<u8>>)
    ensures r is Some == v is Some, v matches Some(x) ==> (r->0)@ == bytes_of(x, old(vx_st).ids()) && final(vx_st).ids() == next_of(x, old(vx_st).ids()), v is None ==> final(vx_st).ids() == old(vx_st).ids()
{ match v { Some(x) => Some(x.vx_build(vx_st)), None => None } }
// TRUSTED: the headers (footers) of a document in package order; the same list for every caller.
pub uninterp spec fn all_headers(d: Document) -> Seq<(String, Header)>;
pub uninterp spec fn all_footers(d: Document) -> Seq<(String, Footer)>;
impl Document {
    #[verifier::external_body] pub fn vx_headers(&self) -> (r: Vec<&(String, Header)>) ensures r@.map_values(|p: &(String, Header)| *p) == all_headers(*self) { unimplemented!() }
    #[verifier::external_body] pub fn vx_footers(&self) -> (r: Vec<&(String, Footer)>) ensures r@.map_values(|p: &(String, Footer)| *p) == all_footers(*self) { unimplemented!() }
}
pub open spec fn dir_o() -> SimpleFileOptions { plain_options() }
pub open spec fn file_o() -> SimpleFileOptions { with_permissions(with_method(plain_options(), CompressionMethod::Deflated), 0o755) }
pub open spec fn d_(n: Seq<char>) -> Entry { Entry::Dir(n, dir_o()) }
pub open spec fn f_(n: Seq<char>, b: Seq<u8>) -> Entry { Entry::File(n, file_o(), b) }
/// The entries of an archive made from parts in memory.
pub open spec fn x_fixed(x: XMLDocx) -> Seq<Entry> {
    seq![d_("word/"@), d_("word/_rels"@), d_("_rels/"@), d_("docProps/"@),
        f_("[Content_Types].xml"@, x.content_type@),
        f_("_rels/.rels"@, x.rels@),
        f_("docProps/app.xml"@, x.doc_props.app@),
        f_("docProps/core.xml"@, x.doc_props.core@),
        f_("docProps/custom.xml"@, x.doc_props.custom@),
        f_("word/_rels/document.xml.rels"@, x.document_rels@),
        f_("word/document.xml"@, x.document@),
        f_("word/styles.xml"@, x.styles@),
        f_("word/settings.xml"@, x.settings@),
        f_("word/fontTable.xml"@, x.font_table@),
        f_("word/comments.xml"@, x.comments@),
        f_("word/numbering.xml"@, x.numberings@),
        f_("word/commentsExtended.xml"@, x.comments_extended@),
        f_("word/footnotes.xml"@, x.footnotes@),
    ]
}

pub open spec fn increasing<T>(rels: Seq<(usize, T)>) -> bool { forall |i: int, j: int| 0 <= i < j < rels.len() ==> (#[trigger] rels[i]).0 < (#[trigger] rels[j]).0 }
pub open spec fn has_rel<T>(rels: Seq<(usize, T)>, i: int) -> bool { exists |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0 == i }
pub open spec fn named<T>(rels: Seq<(usize, T)>, i: int) -> bool { has_rel(rels, i) }
pub open spec fn rel_at<T>(rels: Seq<(usize, T)>, i: int) -> T { rels[choose |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0 == i].1 }
/// A list with the rendered relationships at their places and nothing elsewhere.
pub open spec fn sparse<T>(r: Seq<Vec<u8>>, rels: Seq<(usize, T)>) -> bool {
    &&& forall |k: int| 0 <= k < rels.len() ==> (#[trigger] rels[k]).0 < r.len() && r[rels[k].0 as int]@ == bytes_of(rels[k].1, 0)
    &&& forall |i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@.len() == 0 || named(rels, i)
}

pub open spec fn x_headers(x: XMLDocx, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = x_headers(x, n - 1).push(f_("word/header"@ + dec(n) + ".xml"@, x.headers@[n - 1]@));
        if n - 1 < x.header_rels@.len() && x.header_rels@[n - 1]@.len() > 0 { a.push(f_("word/_rels/header"@ + dec(n) + ".xml.rels"@, x.header_rels@[n - 1]@)) } else { a }
    }
}
pub open spec fn d_headers(h: Seq<(String, Header)>, rels: Seq<(usize, HeaderRels)>, s: int, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = d_headers(h, rels, s, n - 1).push(f_("word/header"@ + dec(n) + ".xml"@, bytes_of(h[n - 1].1, ids_after(seconds(h), s, n - 1))));
        if has_rel(rels, n - 1) { a.push(f_("word/_rels/header"@ + dec(n) + ".xml.rels"@, bytes_of(rel_at(rels, n - 1), 0))) } else { a }
    }
}
proof fn lemma_headers(x: XMLDocx, h: Seq<(String, Header)>, rels: Seq<(usize, HeaderRels)>, s: int, n: int)
    requires 0 <= n <= h.len(), all_bytes(x.headers@, seconds(h), s), sparse(x.header_rels@, rels), increasing(rels)
    ensures x_headers(x, n) == d_headers(h, rels, s, n)
    decreases n
{
    broadcast use group_free;
    if n > 0 {
        lemma_headers(x, h, rels, s, n - 1);
        assert(seconds(h)[n - 1] == h[n - 1].1);
        assert(x.headers@[n - 1]@ == bytes_of(h[n - 1].1, ids_after(seconds(h), s, n - 1)));
        let i = n - 1;
        if has_rel(rels, i) { let k = choose |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0 == i; assert(x.header_rels@[rels[k].0 as int]@ == bytes_of(rels[k].1, 0)); assert(rel_at(rels, i) == rels[k].1); assert(x.header_rels@[i]@.len() > 0); }
        else if i < x.header_rels@.len() && x.header_rels@[i]@.len() > 0 { assert(named(rels, i)); }
    }
}

pub open spec fn x_footers(x: XMLDocx, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = x_footers(x, n - 1).push(f_("word/footer"@ + dec(n) + ".xml"@, x.footers@[n - 1]@));
        if n - 1 < x.footer_rels@.len() && x.footer_rels@[n - 1]@.len() > 0 { a.push(f_("word/_rels/footer"@ + dec(n) + ".xml.rels"@, x.footer_rels@[n - 1]@)) } else { a }
    }
}
pub open spec fn d_footers(h: Seq<(String, Footer)>, rels: Seq<(usize, FooterRels)>, s: int, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else {
        let a = d_footers(h, rels, s, n - 1).push(f_("word/footer"@ + dec(n) + ".xml"@, bytes_of(h[n - 1].1, ids_after(seconds(h), s, n - 1))));
        if has_rel(rels, n - 1) { a.push(f_("word/_rels/footer"@ + dec(n) + ".xml.rels"@, bytes_of(rel_at(rels, n - 1), 0))) } else { a }
    }
}
proof fn lemma_footers(x: XMLDocx, h: Seq<(String, Footer)>, rels: Seq<(usize, FooterRels)>, s: int, n: int)
    requires 0 <= n <= h.len(), all_bytes(x.footers@, seconds(h), s), sparse(x.footer_rels@, rels), increasing(rels)
    ensures x_footers(x, n) == d_footers(h, rels, s, n)
    decreases n
{
    broadcast use group_free;
    if n > 0 {
        lemma_footers(x, h, rels, s, n - 1);
        assert(seconds(h)[n - 1] == h[n - 1].1);
        assert(x.footers@[n - 1]@ == bytes_of(h[n - 1].1, ids_after(seconds(h), s, n - 1)));
        let i = n - 1;
        if has_rel(rels, i) { let k = choose |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0 == i; assert(x.footer_rels@[rels[k].0 as int]@ == bytes_of(rels[k].1, 0)); assert(rel_at(rels, i) == rels[k].1); assert(x.footer_rels@[i]@.len() > 0); }
        else if i < x.footer_rels@.len() && x.footer_rels@[i]@.len() > 0 { assert(named(rels, i)); }
    }
}

pub open spec fn media_entries(m: Seq<(String, Vec<u8>)>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else { media_entries(m, n - 1).push(f_("word/media/"@ + m[n - 1].0@ + ".png"@, m[n - 1].1@)) }
}
pub open spec fn media_part(m: Seq<(String, Vec<u8>)>) -> Seq<Entry> { if m.len() > 0 { seq![d_("word/media/"@)] + media_entries(m, m.len() as int) } else { Seq::empty() } }
pub open spec fn x_exts(v: Seq<Vec<u8>>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else { x_exts(v, n - 1).push(f_("word/webextensions/webextension"@ + dec(n) + ".xml"@, v[n - 1]@)) }
}
pub open spec fn x_panes(x: XMLDocx) -> Seq<Entry> {
    match x.taskpanes { None => Seq::empty(), Some(t) => seq![d_("word/webextensions/"@), f_("word/webextensions/taskpanes.xml"@, t@), d_("word/webextensions/_rels"@), f_("word/webextensions/_rels/taskpanes.xml.rels"@, x.taskpanes_rels@)] + x_exts(x.web_extensions@, x.web_extensions@.len() as int) }
}
pub open spec fn x_items(a: Seq<Vec<u8>>, r: Seq<Vec<u8>>, p: Seq<Vec<u8>>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else { x_items(a, r, p, n - 1).push(f_("customXml/_rels/item"@ + dec(n) + ".xml.rels"@, r[n - 1]@)).push(f_("customXml/item"@ + dec(n) + ".xml"@, a[n - 1]@)).push(f_("customXml/itemProps"@ + dec(n) + ".xml"@, p[n - 1]@)) }
}
pub open spec fn item_dir(n: int) -> Seq<Entry> { if n > 0 { seq![d_("customXml/_rels"@)] } else { Seq::empty() } }
/// Everything, in order: what `XMLDocx::pack` has to write.
pub open spec fn x_entries(x: XMLDocx) -> Seq<Entry> {
    x_fixed(x) + x_headers(x, x.headers@.len() as int) + x_footers(x, x.footers@.len() as int) + media_part(x.media@) + x_panes(x)
        + item_dir(x.custom_items@.len() as int) + x_items(x.custom_items@, x.custom_item_rels@, x.custom_item_props@, x.custom_items@.len() as int)
}
/// Number of ids handed out before each part that takes some.
pub open spec fn s_document(d: Docx, s: int) -> int { s }
pub open spec fn s_styles(d: Docx, s: int) -> int { next_of(d.document, s_document(d, s)) }
pub open spec fn s_comments(d: Docx, s: int) -> int { next_of(d.styles, s_styles(d, s)) }
pub open spec fn s_numberings(d: Docx, s: int) -> int { next_of(d.comments, s_comments(d, s)) }
pub open spec fn s_footnotes(d: Docx, s: int) -> int { next_of(d.numberings, s_numberings(d, s)) }
pub open spec fn s_headers(d: Docx, s: int) -> int { next_of(d.footnotes, s_footnotes(d, s)) }
pub open spec fn s_footers(d: Docx, s: int) -> int { ids_after(seconds(all_headers(d.document)), s_headers(d, s), all_headers(d.document).len() as int) }
pub open spec fn s_end(d: Docx, s: int) -> int { ids_after(seconds(all_footers(d.document)), s_footers(d, s), all_footers(d.document).len() as int) }
/// The parts in memory are the renderings of the document and its package data.
pub open spec fn built(x: XMLDocx, d: Docx, p: PackageMetadata, s: int) -> bool {
    &&& x.content_type@ == bytes_of(d.content_type, 0)
    &&& x.rels@ == bytes_of(d.rels, 0)
    &&& x.doc_props.app@ == bytes_of(d.doc_props.app, 0)
    &&& x.doc_props.core@ == bytes_of(d.doc_props.core, 0)
    &&& x.doc_props.custom@ == bytes_of(d.doc_props.custom, 0)
    &&& x.document_rels@ == bytes_of(d.document_rels, 0)
    &&& x.document@ == bytes_of(d.document, s_document(d, s))
    &&& x.styles@ == bytes_of(d.styles, s_styles(d, s))
    &&& x.settings@ == bytes_of(d.settings, 0)
    &&& x.font_table@ == bytes_of(d.font_table, 0)
    &&& x.comments@ == bytes_of(d.comments, s_comments(d, s))
    &&& x.numberings@ == bytes_of(d.numberings, s_numberings(d, s))
    &&& x.comments_extended@ == bytes_of(d.comments_extended, 0)
    &&& x.footnotes@ == bytes_of(d.footnotes, s_footnotes(d, s))
    &&& all_bytes(x.headers@, seconds(all_headers(d.document)), s_headers(d, s))
    &&& all_bytes(x.footers@, seconds(all_footers(d.document)), s_footers(d, s))
    &&& sparse(x.header_rels@, p.header_rels@)
    &&& sparse(x.footer_rels@, p.footer_rels@)
    &&& x.media@ == p.media@
    &&& x.taskpanes is Some == d.taskpanes is Some
    &&& d.taskpanes matches Some(t) ==> (x.taskpanes->0)@ == bytes_of(t, 0)
    &&& x.taskpanes_rels@ == bytes_of(d.taskpanes_rels, 0)
    &&& free_list(x.web_extensions@, d.web_extensions@)
    &&& free_list(x.custom_items@, d.custom_items@)
    &&& free_list(x.custom_item_rels@, d.custom_item_rels@)
    &&& free_list(x.custom_item_props@, d.custom_item_props@)
}
pub open spec fn free_list<T>(r: Seq<Vec<u8>>, v: Seq<T>) -> bool { r.len() == v.len() && forall |i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == bytes_of(v[i], 0) }
/// The entries of an archive streamed from a document.
pub open spec fn d_fixed(d: Docx, s: int) -> Seq<Entry> {
    seq![d_("word/"@), d_("word/_rels"@), d_("_rels/"@), d_("docProps/"@),
        f_("[Content_Types].xml"@, bytes_of(d.content_type, 0)),
        f_("_rels/.rels"@, bytes_of(d.rels, 0)),
        f_("docProps/app.xml"@, bytes_of(d.doc_props.app, 0)),
        f_("docProps/core.xml"@, bytes_of(d.doc_props.core, 0)),
        f_("docProps/custom.xml"@, bytes_of(d.doc_props.custom, 0)),
        f_("word/_rels/document.xml.rels"@, bytes_of(d.document_rels, 0)),
        f_("word/document.xml"@, bytes_of(d.document, s_document(d, s))),
        f_("word/styles.xml"@, bytes_of(d.styles, s_styles(d, s))),
        f_("word/settings.xml"@, bytes_of(d.settings, 0)),
        f_("word/fontTable.xml"@, bytes_of(d.font_table, 0)),
        f_("word/comments.xml"@, bytes_of(d.comments, s_comments(d, s))),
        f_("word/numbering.xml"@, bytes_of(d.numberings, s_numberings(d, s))),
        f_("word/commentsExtended.xml"@, bytes_of(d.comments_extended, 0)),
        f_("word/footnotes.xml"@, bytes_of(d.footnotes, s_footnotes(d, s))),
    ]
}
pub open spec fn d_exts(v: Seq<WebExtension>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else { d_exts(v, n - 1).push(f_("word/webextensions/webextension"@ + dec(n) + ".xml"@, bytes_of(v[n - 1], 0))) }
}
pub open spec fn d_panes(d: Docx) -> Seq<Entry> {
    match d.taskpanes { None => Seq::empty(), Some(t) => seq![d_("word/webextensions/"@), f_("word/webextensions/taskpanes.xml"@, bytes_of(t, 0)), d_("word/webextensions/_rels"@), f_("word/webextensions/_rels/taskpanes.xml.rels"@, bytes_of(d.taskpanes_rels, 0))] + d_exts(d.web_extensions@, d.web_extensions@.len() as int) }
}
pub open spec fn d_items(a: Seq<CustomItem>, r: Seq<CustomItemRels>, p: Seq<CustomItemProperty>, n: int) -> Seq<Entry> decreases n {
    if n <= 0 { Seq::empty() } else { d_items(a, r, p, n - 1).push(f_("customXml/_rels/item"@ + dec(n) + ".xml.rels"@, bytes_of(r[n - 1], 0))).push(f_("customXml/item"@ + dec(n) + ".xml"@, bytes_of(a[n - 1], 0))).push(f_("customXml/itemProps"@ + dec(n) + ".xml"@, bytes_of(p[n - 1], 0))) }
}
pub open spec fn d_entries(d: Docx, p: PackageMetadata, s: int) -> Seq<Entry> {
    d_fixed(d, s) + d_headers(all_headers(d.document), p.header_rels@, s_headers(d, s), all_headers(d.document).len() as int)
        + d_footers(all_footers(d.document), p.footer_rels@, s_footers(d, s), all_footers(d.document).len() as int) + media_part(p.media@) + d_panes(d)
        + item_dir(d.custom_items@.len() as int) + d_items(d.custom_items@, d.custom_item_rels@, d.custom_item_props@, d.custom_items@.len() as int)
}
proof fn lemma_exts(x: Seq<Vec<u8>>, v: Seq<WebExtension>, n: int)
    requires free_list(x, v), 0 <= n <= v.len()
    ensures x_exts(x, n) == d_exts(v, n)
    decreases n
{ if n > 0 { lemma_exts(x, v, n - 1); assert(x[n - 1]@ == bytes_of(v[n - 1], 0)); } }
proof fn lemma_items(x: Seq<Vec<u8>>, xr: Seq<Vec<u8>>, xp: Seq<Vec<u8>>, a: Seq<CustomItem>, r: Seq<CustomItemRels>, p: Seq<CustomItemProperty>, n: int)
    requires free_list(x, a), free_list(xr, r), free_list(xp, p), 0 <= n <= a.len(), a.len() <= r.len(), a.len() <= p.len()
    ensures x_items(x, xr, xp, n) == d_items(a, r, p, n)
    decreases n
{ if n > 0 { lemma_items(x, xr, xp, a, r, p, n - 1); assert(x[n - 1]@ == bytes_of(a[n - 1], 0)); assert(xr[n - 1]@ == bytes_of(r[n - 1], 0)); assert(xp[n - 1]@ == bytes_of(p[n - 1], 0)); } }
/// Parts made in memory and then packed give the archive that streaming gives.
proof fn lemma_same(x: XMLDocx, d: Docx, p: PackageMetadata, s: int)
    requires built(x, d, p, s), increasing(p.header_rels@), increasing(p.footer_rels@), whole(d)
    ensures x_entries(x) == d_entries(d, p, s)
{
    lemma_headers(x, all_headers(d.document), p.header_rels@, s_headers(d, s), all_headers(d.document).len() as int);
    lemma_footers(x, all_footers(d.document), p.footer_rels@, s_footers(d, s), all_footers(d.document).len() as int);
    lemma_exts(x.web_extensions@, d.web_extensions@, d.web_extensions@.len() as int);
    lemma_items(x.custom_items@, x.custom_item_rels@, x.custom_item_props@, d.custom_items@, d.custom_item_rels@, d.custom_item_props@, d.custom_items@.len() as int);
    assert(x_fixed(x) =~= d_fixed(d, s));
}
/// Every custom item has its relationships and properties, as `add_custom_item` leaves them.
pub open spec fn whole_parts(x: XMLDocx) -> bool { x.custom_items@.len() <= x.custom_item_rels@.len() && x.custom_items@.len() <= x.custom_item_props@.len() }
pub open spec fn parts_fit(p: PackageMetadata) -> bool {
    &&& forall |k: int| 0 <= k < p.header_rels@.len() ==> (#[trigger] p.header_rels@[k]).0 < usize::MAX
    &&& forall |k: int| 0 <= k < p.footer_rels@.len() ==> (#[trigger] p.footer_rels@[k]).0 < usize::MAX
}
pub open spec fn whole(d: Docx) -> bool { d.custom_items@.len() <= d.custom_item_rels@.len() && d.custom_items@.len() <= d.custom_item_props@.len() }
// TRUSTED: preparing the package is a function of the document; relationship lists come in part order; custom items are not touched.
pub open spec fn in_order(d: Docx) -> bool { increasing(prepared(d).1.header_rels@) && increasing(prepared(d).1.footer_rels@) && (whole(d) ==> whole(prepared(d).0)) }
pub uninterp spec fn prepared(d: Docx) -> (Docx, PackageMetadata);
//@fn Docx::prepare_package ext
//@| ensures (*final(self), r) == prepared(*old(self)), in_order(*old(self)),
//@end
//@fn documents/mod.rs::build_sparse_relationships
//@| requires increasing(relationships@), forall |t: T, s: int| #[trigger] bytes_of(t, s) == bytes_of(t, 0) && next_of(t, s) == s, forall |k: int| 0 <= k < relationships@.len() ==> (#[trigger] relationships@[k]).0 < usize::MAX,
//@| ensures sparse(r@, relationships@), final(vx_st).ids() == old(vx_st).ids(),
//@sub `relationships: Vec<(usize, T)>)` => `relationships: Vec<(usize, T)>, vx_st: &mut VxSt)`
//@sub `let mut parts = Vec::new();` => `let mut parts: Vec<Vec<u8>> = Vec::new();`
//@sub `parts.resize_with(index, Vec::new);` => `vx_resize(&mut parts, index);`
//@at start
//@| broadcast use group_free; let ghost r0 = relationships@;
//@loop 0 iter=it
//@| invariant it.seq() == r0, increasing(r0), parts@.len() == (if it.index@ == 0 { 0 } else { r0[it.index@ - 1].0 + 1 }),
//@|   forall |t: T, s: int| #[trigger] bytes_of(t, s) == bytes_of(t, 0) && next_of(t, s) == s, forall |k: int| 0 <= k < r0.len() ==> (#[trigger] r0[k]).0 < usize::MAX,
//@|   vx_st.ids() == old(vx_st).ids(),
//@|   forall |k: int| 0 <= k < it.index@ ==> (#[trigger] r0[k]).0 < parts@.len() && parts@[r0[k].0 as int]@ == bytes_of(r0[k].1, 0),
//@|   forall |i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@.len() == 0 || named(r0, i),
//@loopend 0
//@| proof { assert(named(r0, r0[it.index@].0 as int)); }
//@end
//@fn DocProps::build
//@| ensures r.app@ == bytes_of(self.app, 0), r.core@ == bytes_of(self.core, 0), r.custom@ == bytes_of(self.custom, 0), final(vx_st).ids() == old(vx_st).ids(),
//@sub `fn build(&self)` => `fn vx_build(&self, vx_st: &mut VxSt)`
//@at start
//@| broadcast use group_free; 
//@end
//@fn Docx::build
//@| requires whole(self), parts_fit(prepared(self).1),
//@| ensures in_order(self), built(r, prepared(self).0, prepared(self).1, old(vx_st).ids()), final(vx_st).ids() == s_end(prepared(self).0, old(vx_st).ids()),
//@sub `pub fn build(self)` => `pub fn build(self, vx_st: &mut VxSt)`
//@sub `this~~.document~~.headers()~~.map(|(_, header)| header.build())~~.collect()` => `vx_build_seconds(this.document.vx_headers(), vx_st)`
//@sub `this~~.document~~.footers()~~.map(|(_, footer)| footer.build())~~.collect()` => `vx_build_seconds(this.document.vx_footers(), vx_st)`
//@sub `build_sparse_relationships(package.header_rels)` => `build_sparse_relationships(package.header_rels, vx_st)`
//@sub `build_sparse_relationships(package.footer_rels)` => `build_sparse_relationships(package.footer_rels, vx_st)`
//@sub `this.taskpanes.map(|taskpanes| taskpanes.build())` => `vx_build_opt(this.taskpanes, vx_st)`
//@sub `this~~.web_extensions~~.iter()~~.map(|ext| ext.build())~~.collect()` => `vx_build_all(&this.web_extensions, vx_st)`
//@sub `this~~.custom_items~~.iter()~~.map(|xml| xml.build())~~.collect()` => `vx_build_all(&this.custom_items, vx_st)`
//@sub `this~~.custom_item_rels~~.iter()~~.map(|rel| rel.build())~~.collect()` => `vx_build_all(&this.custom_item_rels, vx_st)`
//@sub `this~~.custom_item_props~~.iter()~~.map(|p| p.build())~~.collect()` => `vx_build_all(&this.custom_item_props, vx_st)`
//@at start
//@| broadcast use group_free, group_lists; 
//@end
//@fn XMLDocx::pack
//@| requires whole_parts(self),
//@| ensures r is Ok ==> final(vx_st).out() == x_entries(self),
//@sub `pub fn pack<W>(self, w: W)` => `pub fn pack<W>(self, w: W, vx_st: &mut VxSt)`
//@sub `zipper::zip(w, self)` => `zip(w, self, vx_st)`
//@end
//@fn Docx::pack
//@| requires whole(self),
//@| ensures r is Ok ==> final(vx_st).out() == d_entries(prepared(self).0, prepared(self).1, old(vx_st).ids()),
//@sub `pub fn pack<W>(self, writer: W)` => `pub fn pack<W>(self, writer: W, vx_st: &mut VxSt)`
//@sub `zip_docx(writer, this, package)` => `zip_docx(writer, this, package, vx_st)`
//@end
//@fn zipper/mod.rs::write_xml
//@| ensures r is Ok ==> final(zip)@ == old(zip)@.push(Entry::File(path@, options, bytes_of(*part, old(vx_st).ids()))) && final(vx_st).ids() == next_of(*part, old(vx_st).ids()),
//@sub `fn write_xml<W, T>(` => `fn write_xml<W, T>(vx_st: &mut VxSt, `
//@sub `let stream = XMLBuilder::new(&mut *buffer)~~.into_inner()~~.map_err(xml_to_zip_error)?;~~let stream = part.build_to(stream).map_err(xml_to_zip_error)?;~~stream.into_inner().map_err(xml_to_zip_error)?;` => `vx_render(part, buffer, vx_st)?;`
//@at start
//@| proof { assert(Seq::<u8>::empty() + bytes_of(*part, vx_st.ids()) =~= bytes_of(*part, vx_st.ids())); }
//@end
/// Walking two ordered lists side by side finds the relationships of a part.
proof fn lemma_at<T>(rels: Seq<(usize, T)>, pos: int, i: int)
    requires increasing(rels), 0 <= pos <= rels.len(), 0 <= i,
        forall |k: int| 0 <= k < pos ==> (#[trigger] rels[k]).0 < i, forall |k: int| pos <= k < rels.len() ==> (#[trigger] rels[k]).0 >= i,
    ensures has_rel(rels, i) == (pos < rels.len() && rels[pos].0 == i), has_rel(rels, i) ==> rel_at(rels, i) == rels[pos].1
{
    if has_rel(rels, i) {
        let k = choose |k: int| 0 <= k < rels.len() && (#[trigger] rels[k]).0 == i;
        assert(k >= pos); if k > pos { assert(rels[pos].0 < rels[k].0); }
    }
}
//@fn zipper/mod.rs::zip_docx
//@| requires whole(docx), increasing(package.header_rels@), increasing(package.footer_rels@),
//@| ensures r is Ok ==> final(vx_st).out() == d_entries(docx, package, old(vx_st).ids()),
//@sub `package: PackageMetadata,` => `package: PackageMetadata, vx_st: &mut VxSt,`
//@sub `package.header_rels.iter().peekable()` => `VxPeek::new(&package.header_rels)`
//@sub `package.footer_rels.iter().peekable()` => `VxPeek::new(&package.footer_rels)`
//@sub `docx.document.headers().enumerate()` => `docx.document.vx_headers().vx_enum_own()`
//@sub `docx.document.footers().enumerate()` => `docx.document.vx_footers().vx_enum_own()`
//@sub `zip.finish()?;` => `zip.vx_finish(vx_st)?;`
//@closure 0
//@| -> (o: bool) ensures o == (vx_p0.0 == index)
//@closure 1
//@| -> (o: bool) ensures o == (vx_p0.0 == index)
//@sub `.is_some_and(|vx_p0|` => `.is_some_and(|vx_p0: &(usize, _)|`
//@attr
//@| #[verifier::loop_isolation(false)]
//@at start
//@| broadcast use group_free; let ghost s0 = vx_st.ids(); let ghost header0 = all_headers(docx.document); let ghost footer0 = all_footers(docx.document);
//@before `let mut header_rels =`
//@| let ghost za = zip@; proof { assert(za =~= d_fixed(docx, s0)); }
//@before `let mut footer_rels =`
//@| let ghost zb = zip@;
//@loop 0 iter=it0
//@| invariant it0.seq().len() == header0.len(), forall |i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == header0[i],
//@|   header0 == all_headers(docx.document), increasing(package.header_rels@), header_rels.v@ == package.header_rels@, header_rels.pos <= header_rels.v@.len(), options == file_o(), it0.seq().len() <= usize::MAX,
//@|   forall |k: int| 0 <= k < header_rels.pos ==> (#[trigger] package.header_rels@[k]).0 < it0.index@, forall |k: int| header_rels.pos <= k < package.header_rels@.len() ==> (#[trigger] package.header_rels@[k]).0 >= it0.index@,
//@|   vx_st.ids() == ids_after(seconds(header0), s_headers(docx, s0), it0.index@), zip@ == za + d_headers(header0, package.header_rels@, s_headers(docx, s0), it0.index@),
//@loopstart 0
//@| proof { assert(seconds(header0)[it0.index@] == header0[it0.index@].1); }
//@| let ghost z0 = zip@; let ghost p0 = header_rels.pos; proof { lemma_at(package.header_rels@, p0 as int, it0.index@); }
//@loopend 0
//@| proof { assert(zip@ =~= za + d_headers(header0, package.header_rels@, s_headers(docx, s0), it0.index@ + 1)); }
//@loop 1 iter=it1
//@| invariant it1.seq().len() == footer0.len(), forall |i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == footer0[i],
//@|   footer0 == all_footers(docx.document), increasing(package.footer_rels@), footer_rels.v@ == package.footer_rels@, footer_rels.pos <= footer_rels.v@.len(), options == file_o(), it1.seq().len() <= usize::MAX,
//@|   forall |k: int| 0 <= k < footer_rels.pos ==> (#[trigger] package.footer_rels@[k]).0 < it1.index@, forall |k: int| footer_rels.pos <= k < package.footer_rels@.len() ==> (#[trigger] package.footer_rels@[k]).0 >= it1.index@,
//@|   vx_st.ids() == ids_after(seconds(footer0), s_footers(docx, s0), it1.index@), zip@ == zb + d_footers(footer0, package.footer_rels@, s_footers(docx, s0), it1.index@),
//@loopstart 1
//@| proof { assert(seconds(footer0)[it1.index@] == footer0[it1.index@].1); }
//@| let ghost z1 = zip@; let ghost p1 = footer_rels.pos; proof { lemma_at(package.footer_rels@, p1 as int, it1.index@); }
//@loopend 1
//@| proof { assert(zip@ =~= zb + d_footers(footer0, package.footer_rels@, s_footers(docx, s0), it1.index@ + 1)); }
//@before `if !package.media.is_empty()`
//@| let ghost zc = zip@;
//@before `for (id, bytes) in package.media`
//@| let ghost zd = zip@;
//@before `if let Some(taskpanes) =`
//@| let ghost ze = zip@;
//@| proof { assert(ze =~= zc + media_part(package.media@)); }
//@before `for (index, extension) in`
//@| let ghost zf = zip@;
//@before `if !docx.custom_items.is_empty()`
//@| let ghost zg = zip@;
//@| proof { assert(zg =~= ze + d_panes(docx)); }
//@before `for (index, item) in`
//@| let ghost zh = zip@;
//@| proof { assert(zh =~= zg + item_dir(docx.custom_items@.len() as int)); }
//@loop 2 iter=it2
//@| invariant it2.seq() == package.media@, options == file_o(), zip@ == zd + media_entries(package.media@, it2.index@),
//@loopend 2
//@| proof { assert(zip@ =~= zd + media_entries(package.media@, it2.index@ + 1)); }
//@loop 3 iter=it3
//@| invariant it3.seq().len() == docx.web_extensions@.len(), forall |i: int| 0 <= i < it3.seq().len() ==> (#[trigger] it3.seq()[i]).0 == i && *it3.seq()[i].1 == docx.web_extensions@[i], options == file_o(),
//@|   zip@ == zf + d_exts(docx.web_extensions@, it3.index@),
//@loopend 3
//@| proof { assert(zip@ =~= zf + d_exts(docx.web_extensions@, it3.index@ + 1)); }
//@loop 4 iter=it4
//@| invariant it4.seq().len() == docx.custom_items@.len(), forall |i: int| 0 <= i < it4.seq().len() ==> (#[trigger] it4.seq()[i]).0 == i && *it4.seq()[i].1 == docx.custom_items@[i], options == file_o(),
//@|   zip@ == zh + d_items(docx.custom_items@, docx.custom_item_rels@, docx.custom_item_props@, it4.index@),
//@loopend 4
//@| proof { assert(zip@ =~= zh + d_items(docx.custom_items@, docx.custom_item_rels@, docx.custom_item_props@, it4.index@ + 1)); }
//@end
//@fn zipper/mod.rs::zip
//@| requires whole_parts(xml),
//@| ensures r is Ok ==> final(vx_st).out() == x_entries(xml),
//@sub `xml: XMLDocx)` => `xml: XMLDocx, vx_st: &mut VxSt)`
//@sub `xml.header_rels.get(i).filter(|rels| !rels.is_empty())` => `vx_nonempty(&xml.header_rels, i)`
//@sub `xml.footer_rels.get(i).filter(|rels| !rels.is_empty())` => `vx_nonempty(&xml.footer_rels, i)`
//@sub `zip.finish()?;` => `zip.vx_finish(vx_st)?;`
//@attr
//@| #[verifier::loop_isolation(false)]
//@before `for (i, h) in xml.headers`
//@| let ghost z0 = zip@; proof { assert(z0 =~= x_fixed(xml)); }
//@before `for (i, h) in xml.footers`
//@| let ghost z1 = zip@;
//@before `if !xml.media.is_empty()`
//@| let ghost z2 = zip@;
//@before `for m in xml.media`
//@| let ghost z3 = zip@;
//@before `if let Some(taskpanes) =`
//@| let ghost z4 = zip@;
//@| proof { assert(z4 =~= z2 + media_part(xml.media@)); }
//@before `for (i, ext) in`
//@| let ghost z5 = zip@;
//@before `if !xml.custom_items.is_empty()`
//@| let ghost z6 = zip@;
//@| proof { assert(z6 =~= z4 + x_panes(xml)); }
//@before `for (i, item) in`
//@| let ghost z7 = zip@;
//@| proof { assert(z7 =~= z6 + item_dir(xml.custom_items@.len() as int)); }
//@loop 0 iter=it0
//@| invariant it0.seq().len() == xml.headers@.len(), forall |i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == i && *it0.seq()[i].1 == xml.headers@[i], options == file_o(),
//@|   vx_st.ids() == old(vx_st).ids(), zip@ == z0 + x_headers(xml, it0.index@),
//@loopend 0
//@| proof { assert(zip@ =~= z0 + x_headers(xml, it0.index@ + 1)); }
//@loop 1 iter=it1
//@| invariant it1.seq().len() == xml.footers@.len(), forall |i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0 == i && *it1.seq()[i].1 == xml.footers@[i], options == file_o(),
//@|   vx_st.ids() == old(vx_st).ids(), zip@ == z1 + x_footers(xml, it1.index@),
//@loopend 1
//@| proof { assert(zip@ =~= z1 + x_footers(xml, it1.index@ + 1)); }
//@loop 2 iter=it2
//@| invariant it2.seq() == xml.media@, options == file_o(), vx_st.ids() == old(vx_st).ids(), zip@ == z3 + media_entries(xml.media@, it2.index@),
//@loopend 2
//@| proof { assert(zip@ =~= z3 + media_entries(xml.media@, it2.index@ + 1)); }
//@loop 3 iter=it3
//@| invariant it3.seq().len() == xml.web_extensions@.len(), forall |i: int| 0 <= i < it3.seq().len() ==> (#[trigger] it3.seq()[i]).0 == i && *it3.seq()[i].1 == xml.web_extensions@[i], options == file_o(),
//@|   vx_st.ids() == old(vx_st).ids(), zip@ == z5 + x_exts(xml.web_extensions@, it3.index@),
//@loopend 3
//@| proof { assert(zip@ =~= z5 + x_exts(xml.web_extensions@, it3.index@ + 1)); }
//@loop 4 iter=it4
//@| invariant it4.seq().len() == xml.custom_items@.len(), forall |i: int| 0 <= i < it4.seq().len() ==> (#[trigger] it4.seq()[i]).0 == i && it4.seq()[i].1 == xml.custom_items@[i], options == file_o(),
//@|   vx_st.ids() == old(vx_st).ids(), zip@ == z7 + x_items(xml.custom_items@, xml.custom_item_rels@, xml.custom_item_props@, it4.index@),
//@loopend 4
//@| proof { assert(zip@ =~= z7 + x_items(xml.custom_items@, xml.custom_item_rels@, xml.custom_item_props@, it4.index@ + 1)); }
//@end
/// Both ways of writing the same document, from the same id counter, give the same archive.
fn vx_both_ways<W: Write + Seek>(a: Docx, b: Docx, w1: W, w2: W, s1: &mut VxSt, s2: &mut VxSt)
    requires a == b, whole(a), parts_fit(prepared(a).1), old(s1).ids() == old(s2).ids()
{
    let ghost s0 = s1.ids();
    let x = a.build(s1);
    proof { lemma_same(x, prepared(a).0, prepared(a).1, s0); }
    let r1 = x.pack(w1, s1);
    let r2 = b.pack(w2, s2);
    if r1.is_ok() && r2.is_ok() { assert(s1.out() == s2.out()); }
}
//@auto except=zipper/mod.rs::xml_to_zip_error,zipper/mod.rs::zip,XMLBuilder,XMLBuilder*,EventWriter,EventWriter*
proof fn vx_probe() ensures false {}
fn main(){}
}
