// What the body of a document looks like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn bms_el(b: BookmarkStart) -> El { El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, shown(b.id)@), "name"@, b.name@) } }
pub open spec fn bme_el(b: BookmarkEnd) -> El { El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, shown(b.id)@) } }
pub open spec fn kid_onto(c: DocumentChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        DocumentChild::BookmarkStart(b) => one(log, bms_el(b)),
        DocumentChild::BookmarkEnd(b) => one(log, bme_el(b)),
        DocumentChild::Paragraph(b) => log + nest_toks(*b),
        DocumentChild::Table(b) => log + nest_toks(*b),
        DocumentChild::StructuredDataTag(b) => log + nest_toks(*b),
        DocumentChild::CommentStart(b) => log + nest_toks(*b),
        DocumentChild::CommentEnd(b) => log + nest_toks(b),
        DocumentChild::TableOfContents(b) => log + nest_toks(*b),
        DocumentChild::Section(b) => log + nest_toks(*b),
    }
}
pub open spec fn kids_onto(c: Seq<DocumentChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn body_el() -> El { El { n: "body"@, a: Seq::empty() } }
pub open spec fn doc_onto(x: Document, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> { (kids_onto(x.children@, log.push(Tok::Open(El { n: "document"@, a })).push(Tok::Open(body_el()))) + nest_toks(x.section_property)).push(Tok::Close("body"@)).push(Tok::Close("document"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:document"@) == "document"@, local("w:body"@) == "body"@, local("w:bookmarkStart"@) == "bookmarkStart"@, local("w:bookmarkEnd"@) == "bookmarkEnd"@, local("w:id"@) == "id"@, local("w:name"@) == "name"@
{ reveal_strlit("w:document"); reveal_strlit("document"); assert(local("w:document"@) =~= "document"@); reveal_strlit("w:body"); reveal_strlit("body"); assert(local("w:body"@) =~= "body"@); reveal_strlit("w:bookmarkStart"); reveal_strlit("bookmarkStart"); assert(local("w:bookmarkStart"@) =~= "bookmarkStart"@); reveal_strlit("w:bookmarkEnd"); reveal_strlit("bookmarkEnd"); assert(local("w:bookmarkEnd"@) =~= "bookmarkEnd"@); reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@); reveal_strlit("w:name"); reveal_strlit("name"); assert(local("w:name"@) =~= "name"@); }
//@item Document
//@item DocumentChild
//@item BookmarkStart
//@item BookmarkEnd
