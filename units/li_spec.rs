// What a hyperlink looks like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn bms_el(b: BookmarkStart) -> El { El { n: "bookmarkStart"@, a: ats(ats(Seq::empty(), "id"@, shown(b.id)@), "name"@, b.name@) } }
pub open spec fn bme_el(b: BookmarkEnd) -> El { El { n: "bookmarkEnd"@, a: ats(Seq::empty(), "id"@, shown(b.id)@) } }
pub open spec fn kid_onto(c: ParagraphChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        ParagraphChild::BookmarkStart(b) => one(log, bms_el(b)),
        ParagraphChild::BookmarkEnd(b) => one(log, bme_el(b)),
        ParagraphChild::Run(b) => log + nest_toks(*b),
        ParagraphChild::Insert(b) => log + nest_toks(b),
        ParagraphChild::Delete(b) => log + nest_toks(b),
        ParagraphChild::MoveFrom(b) => log + nest_toks(b),
        ParagraphChild::MoveTo(b) => log + nest_toks(b),
        ParagraphChild::Hyperlink(b) => log + nest_toks(b),
        ParagraphChild::CommentStart(b) => log + nest_toks(*b),
        ParagraphChild::CommentEnd(b) => log + nest_toks(b),
        ParagraphChild::StructuredDataTag(b) => log + nest_toks(*b),
        ParagraphChild::PageNum(b) => log + nest_toks(*b),
        ParagraphChild::NumPages(b) => log + nest_toks(*b),
    }
}
pub open spec fn kids_onto(c: Seq<ParagraphChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
pub open spec fn hist(h: Option<usize>) -> usize { match h { Some(n) => n, None => 1 } }
pub open spec fn rid_of(l: HyperlinkData) -> Option<Seq<char>> { match l { HyperlinkData::External { rid, .. } => Some(rid@), _ => None } }
pub open spec fn anchor_of(l: HyperlinkData) -> Option<Seq<char>> { match l { HyperlinkData::Anchor { anchor } => Some(escaped(anchor@)), _ => None } }
pub open spec fn link_at(r: Option<Seq<char>>, a: Option<Seq<char>>, h: usize) -> Seq<At> { ats(with(with(Seq::empty(), "id"@, r), "anchor"@, a), "history"@, shown(h)@) }
pub open spec fn link_el(x: Hyperlink) -> El { El { n: "hyperlink"@, a: link_at(rid_of(x.link), anchor_of(x.link), hist(x.history)) } }
pub open spec fn link_onto(x: Hyperlink, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, log.push(Tok::Open(link_el(x)))).push(Tok::Close("hyperlink"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:hyperlink"@) == "hyperlink"@, local("w:bookmarkStart"@) == "bookmarkStart"@, local("w:bookmarkEnd"@) == "bookmarkEnd"@, local("w:id"@) == "id"@, local("r:id"@) == "id"@, local("w:name"@) == "name"@, local("w:anchor"@) == "anchor"@, local("w:history"@) == "history"@
{ reveal_strlit("w:hyperlink"); reveal_strlit("hyperlink"); assert(local("w:hyperlink"@) =~= "hyperlink"@); reveal_strlit("w:bookmarkStart"); reveal_strlit("bookmarkStart"); assert(local("w:bookmarkStart"@) =~= "bookmarkStart"@); reveal_strlit("w:bookmarkEnd"); reveal_strlit("bookmarkEnd"); assert(local("w:bookmarkEnd"@) =~= "bookmarkEnd"@); reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@); reveal_strlit("r:id"); reveal_strlit("id"); assert(local("r:id"@) =~= "id"@); reveal_strlit("w:name"); reveal_strlit("name"); assert(local("w:name"@) =~= "name"@); reveal_strlit("w:anchor"); reveal_strlit("anchor"); assert(local("w:anchor"@) =~= "anchor"@); reveal_strlit("w:history"); reveal_strlit("history"); assert(local("w:history"@) =~= "history"@); }
//@item Hyperlink
//@item HyperlinkData
//@item ParagraphChild
//@item BookmarkStart
//@item BookmarkEnd
#[verifier::external_body] pub struct Run { x: u8 }
#[verifier::external_body] pub struct Insert { x: u8 }
#[verifier::external_body] pub struct Delete { x: u8 }
#[verifier::external_body] pub struct MoveFrom { x: u8 }
#[verifier::external_body] pub struct MoveTo { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
#[verifier::external_body] pub struct StructuredDataTag { x: u8 }
#[verifier::external_body] pub struct PageNum { x: u8 }
#[verifier::external_body] pub struct NumPages { x: u8 }
