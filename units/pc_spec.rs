// What a paragraph looks like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn bms_el(b: BookmarkStart) -> El { El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, shown(b.id)@), "name"@, b.name@) } }
pub open spec fn bme_el(b: BookmarkEnd) -> El { El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, shown(b.id)@) } }
pub open spec fn kid_onto(c: ParagraphChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        ParagraphChild::BookmarkStart(b) => one(log, bms_el(b)),
        ParagraphChild::BookmarkEnd(b) => one(log, bme_el(b)),
        ParagraphChild::Run(b) => log + nest_toks(*b),
        ParagraphChild::Insert(b) => log + nest_toks(b),
        ParagraphChild::Delete(b) => log + nest_toks(b),
        ParagraphChild::MoveFrom(b) => log + nest_toks(b),
        ParagraphChild::MoveTo(b) => log + nest_toks(b),
        ParagraphChild::Hyperlink(b) => log + nest_toks(b),
        ParagraphChild::CommentStart(b) => log + nest_toks(*b),
        ParagraphChild::CommentEnd(b) => log + nest_toks(b),
        ParagraphChild::StructuredDataTag(b) => log + nest_toks(*b),
        ParagraphChild::PageNum(b) => log + nest_toks(*b),
        ParagraphChild::NumPages(b) => log + nest_toks(*b),
    }
}
pub open spec fn kids_onto(c: Seq<ParagraphChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn p_el(x: Paragraph) -> El { El { n: "p"@, a: ats(Seq::empty(), "paraId"@, x.id@) } }
pub open spec fn para_onto(x: Paragraph, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, log.push(Tok::Open(p_el(x))) + nest_toks(x.property)).push(Tok::Close("p"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:p"@) == "p"@, local("w:bookmarkStart"@) == "bookmarkStart"@, local("w:bookmarkEnd"@) == "bookmarkEnd"@, local("w14:paraId"@) == "paraId"@, local("w:id"@) == "id"@, local("w:name"@) == "name"@
{ reveal_strlit("w:p"); reveal_strlit("p"); assert(local("w:p"@) =~= "p"@); reveal_strlit("w:bookmarkStart"); reveal_strlit("bookmarkStart"); assert(local("w:bookmarkStart"@) =~= "bookmarkStart"@); reveal_strlit("w:bookmarkEnd"); reveal_strlit("bookmarkEnd"); assert(local("w:bookmarkEnd"@) =~= "bookmarkEnd"@); reveal_strlit("w14:paraId"); reveal_strlit("paraId"); assert(local("w14:paraId"@) =~= "paraId"@); reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@); reveal_strlit("w:name"); reveal_strlit("name"); assert(local("w:name"@) =~= "name"@); }
//@item Paragraph
//@item ParagraphChild
//@item BookmarkStart
//@item BookmarkEnd
#[verifier::external_body] pub struct Run { x: u8 }
#[verifier::external_body] pub struct Insert { x: u8 }
#[verifier::external_body] pub struct Delete { x: u8 }
#[verifier::external_body] pub struct MoveFrom { x: u8 }
#[verifier::external_body] pub struct MoveTo { x: u8 }
#[verifier::external_body] pub struct Hyperlink { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
#[verifier::external_body] pub struct StructuredDataTag { x: u8 }
#[verifier::external_body] pub struct PageNum { x: u8 }
#[verifier::external_body] pub struct NumPages { x: u8 }
