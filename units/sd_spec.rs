// What a structured data tag looks like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn bms_el(b: BookmarkStart) -> El { El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, shown(b.id)@), "name"@, b.name@) } }
pub open spec fn bme_el(b: BookmarkEnd) -> El { El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, shown(b.id)@) } }
pub open spec fn kid_onto(c: StructuredDataTagChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        StructuredDataTagChild::BookmarkStart(b) => one(log, bms_el(b)),
        StructuredDataTagChild::BookmarkEnd(b) => one(log, bme_el(b)),
        StructuredDataTagChild::CommentEnd(b) => log + nest_toks(b),
        StructuredDataTagChild::Run(b) => log + nest_toks(*b),
        StructuredDataTagChild::Paragraph(b) => log + nest_toks(*b),
        StructuredDataTagChild::Table(b) => log + nest_toks(*b),
        StructuredDataTagChild::StructuredDataTag(b) => log + nest_toks(*b),
        StructuredDataTagChild::CommentStart(b) => log + nest_toks(*b),
    }
}
pub open spec fn kids_onto(c: Seq<StructuredDataTagChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
pub open spec fn bind_el(d: DataBinding) -> El { El { n: "dataBinding"@, a: with(with(with(Seq::empty(), "xpath"@, txt(d.xpath)), "prefixMappings"@, txt(d.prefix_mappings)), "storeItemID"@, txt(d.store_item_id)) } }
pub open spec fn bind_onto(d: Option<DataBinding>, log: Seq<Tok>) -> Seq<Tok> { match d { Some(d) => one(log, bind_el(d)), None => log } }
pub open spec fn alias_el(s: Seq<char>) -> El { El { n: "alias"@, a: ats(Seq::empty(), "val"@, s) } }
pub open spec fn alias_onto(d: Option<String>, log: Seq<Tok>) -> Seq<Tok> { match d { Some(d) => one(log, alias_el(d@)), None => log } }
pub open spec fn prop_onto(p: StructuredDataTagProperty, log: Seq<Tok>) -> Seq<Tok> { alias_onto(p.alias, bind_onto(p.data_binding, log.push(plain("sdtPr"@)) + nest_toks(p.run_property))).push(Tok::Close("sdtPr"@)) }
pub open spec fn sdt_onto(x: StructuredDataTag, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, prop_onto(x.property, log.push(plain("sdt"@))).push(plain("sdtContent"@))).push(Tok::Close("sdtContent"@)).push(Tok::Close("sdt"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:sdt"@) == "sdt"@, local("w:sdtPr"@) == "sdtPr"@, local("w:sdtContent"@) == "sdtContent"@, local("w:dataBinding"@) == "dataBinding"@, local("w:alias"@) == "alias"@, local("w:val"@) == "val"@, local("w:xpath"@) == "xpath"@, local("w:prefixMappings"@) == "prefixMappings"@, local("w:storeItemID"@) == "storeItemID"@, local("w:bookmarkStart"@) == "bookmarkStart"@, local("w:bookmarkEnd"@) == "bookmarkEnd"@, local("w:id"@) == "id"@, local("w:name"@) == "name"@
{ reveal_strlit("w:sdt"); reveal_strlit("sdt"); assert(local("w:sdt"@) =~= "sdt"@); reveal_strlit("w:sdtPr"); reveal_strlit("sdtPr"); assert(local("w:sdtPr"@) =~= "sdtPr"@); reveal_strlit("w:sdtContent"); reveal_strlit("sdtContent"); assert(local("w:sdtContent"@) =~= "sdtContent"@); reveal_strlit("w:dataBinding"); reveal_strlit("dataBinding"); assert(local("w:dataBinding"@) =~= "dataBinding"@); reveal_strlit("w:alias"); reveal_strlit("alias"); assert(local("w:alias"@) =~= "alias"@); reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@); reveal_strlit("w:xpath"); reveal_strlit("xpath"); assert(local("w:xpath"@) =~= "xpath"@); reveal_strlit("w:prefixMappings"); reveal_strlit("prefixMappings"); assert(local("w:prefixMappings"@) =~= "prefixMappings"@); reveal_strlit("w:storeItemID"); reveal_strlit("storeItemID"); assert(local("w:storeItemID"@) =~= "storeItemID"@); reveal_strlit("w:bookmarkStart"); reveal_strlit("bookmarkStart"); assert(local("w:bookmarkStart"@) =~= "bookmarkStart"@); reveal_strlit("w:bookmarkEnd"); reveal_strlit("bookmarkEnd"); assert(local("w:bookmarkEnd"@) =~= "bookmarkEnd"@); reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@); reveal_strlit("w:name"); reveal_strlit("name"); assert(local("w:name"@) =~= "name"@); }
//@item StructuredDataTag
//@item StructuredDataTagChild
//@item StructuredDataTagProperty
//@item DataBinding
//@item BookmarkStart
//@item BookmarkEnd
#[verifier::external_body] pub struct Run { x: u8 }
#[verifier::external_body] pub struct Paragraph { x: u8 }
#[verifier::external_body] pub struct Table { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
#[verifier::external_body] pub struct RunProperty { x: u8 }
