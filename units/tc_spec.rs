// What tracked changes look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn by(id: Seq<char>, author: Seq<char>, date: Seq<char>) -> Seq<At> { ats(ats(ats(Seq::empty(), "id"@, id), "author"@, author), "date"@, date) }
pub open spec fn kid_Insert(c: InsertChild, log: Seq<Tok>) -> Seq<Tok> { match c { InsertChild::Run(b) => log + nest_toks(*b), InsertChild::Delete(b) => log + nest_toks(b), InsertChild::CommentStart(b) => log + nest_toks(*b), InsertChild::CommentEnd(b) => log + nest_toks(b) } }
pub open spec fn kids_Insert(c: Seq<InsertChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_Insert(c.skip(1), kid_Insert(c[0], log)) } }
pub open spec fn onto_Insert(x: Insert, id: Seq<char>, log: Seq<Tok>) -> Seq<Tok> { kids_Insert(x.children@, log.push(Tok::Open(El { n: "ins"@, a: by(id, x.author@, x.date@) }))).push(Tok::Close("ins"@)) }
pub open spec fn kid_Delete(c: DeleteChild, log: Seq<Tok>) -> Seq<Tok> { match c { DeleteChild::Run(b) => log + nest_toks(*b),  DeleteChild::CommentStart(b) => log + nest_toks(*b), DeleteChild::CommentEnd(b) => log + nest_toks(b) } }
pub open spec fn kids_Delete(c: Seq<DeleteChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_Delete(c.skip(1), kid_Delete(c[0], log)) } }
pub open spec fn onto_Delete(x: Delete, id: Seq<char>, log: Seq<Tok>) -> Seq<Tok> { kids_Delete(x.children@, log.push(Tok::Open(El { n: "del"@, a: by(id, x.author@, x.date@) }))).push(Tok::Close("del"@)) }
pub open spec fn kid_MoveFrom(c: MoveFromChild, log: Seq<Tok>) -> Seq<Tok> { match c { MoveFromChild::Run(b) => log + nest_toks(*b),  MoveFromChild::CommentStart(b) => log + nest_toks(*b), MoveFromChild::CommentEnd(b) => log + nest_toks(b) } }
pub open spec fn kids_MoveFrom(c: Seq<MoveFromChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_MoveFrom(c.skip(1), kid_MoveFrom(c[0], log)) } }
pub open spec fn onto_MoveFrom(x: MoveFrom, id: Seq<char>, log: Seq<Tok>) -> Seq<Tok> { kids_MoveFrom(x.children@, log.push(Tok::Open(El { n: "moveFrom"@, a: by(id, x.author@, x.date@) }))).push(Tok::Close("moveFrom"@)) }
pub open spec fn kid_MoveTo(c: MoveToChild, log: Seq<Tok>) -> Seq<Tok> { match c { MoveToChild::Run(b) => log + nest_toks(*b), MoveToChild::Delete(b) => log + nest_toks(b), MoveToChild::CommentStart(b) => log + nest_toks(*b), MoveToChild::CommentEnd(b) => log + nest_toks(b) } }
pub open spec fn kids_MoveTo(c: Seq<MoveToChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_MoveTo(c.skip(1), kid_MoveTo(c[0], log)) } }
pub open spec fn onto_MoveTo(x: MoveTo, id: Seq<char>, log: Seq<Tok>) -> Seq<Tok> { kids_MoveTo(x.children@, log.push(Tok::Open(El { n: "moveTo"@, a: by(id, x.author@, x.date@) }))).push(Tok::Close("moveTo"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:ins"@) == "ins"@, local("w:del"@) == "del"@, local("w:moveFrom"@) == "moveFrom"@, local("w:moveTo"@) == "moveTo"@, local("w:id"@) == "id"@, local("w:author"@) == "author"@, local("w:date"@) == "date"@
{ reveal_strlit("w:ins"); reveal_strlit("ins"); assert(local("w:ins"@) =~= "ins"@); reveal_strlit("w:del"); reveal_strlit("del"); assert(local("w:del"@) =~= "del"@); reveal_strlit("w:moveFrom"); reveal_strlit("moveFrom"); assert(local("w:moveFrom"@) =~= "moveFrom"@); reveal_strlit("w:moveTo"); reveal_strlit("moveTo"); assert(local("w:moveTo"@) =~= "moveTo"@); reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@); reveal_strlit("w:author"); reveal_strlit("author"); assert(local("w:author"@) =~= "author"@); reveal_strlit("w:date"); reveal_strlit("date"); assert(local("w:date"@) =~= "date"@); }
//@item Insert
//@item InsertChild
//@item Delete
//@item DeleteChild
//@item MoveFrom
//@item MoveFromChild
//@item MoveTo
//@item MoveToChild
#[verifier::external_body] pub struct Run { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
