// What the writer puts into a part and the reader takes out of it.
pub mod vals {
    use super::*;
    pub uninterp spec fn strv(s: Seq<char>) -> String;
    pub uninterp spec fn vecv<T>(s: Seq<T>) -> Vec<T>;
    pub uninterp spec fn shown_of<T: ?Sized>(t: &T) -> String;
    // TRUSTED: a string is determined by its characters, a vector by its elements.
    pub broadcast axiom fn string_val(s: String) ensures #[trigger] strv(s@) == s;
    pub broadcast axiom fn vec_val<T>(v: Vec<T>) ensures #![trigger v@] vecv(v@) == v;
    // TRUSTED: a text prints as itself.
    pub broadcast axiom fn str_shown(s: &str) ensures #[trigger] shown_of::<str>(s) == strv(s@), strv(s@)@ == s@;
    pub broadcast axiom fn string_shown(s: &String) ensures #[trigger] shown_of::<String>(s) == *s;
    // TRUSTED: a truth value prints as its name.
    pub broadcast axiom fn bool_shown(b: &bool) ensures (#[trigger] shown_of::<bool>(b))@ == (if *b { "true"@ } else { "false"@ });
    /// The text a reader sees where this text was written (escaping of stray markup, then decoding).
    pub uninterp spec fn seen(s: Seq<char>) -> Seq<char>;
    // TRUSTED: numbers, truth values and names of values contain no markup.
    pub broadcast axiom fn seen_shown_usize(n: &usize) ensures #[trigger] seen(shown_of::<usize>(n)@) == shown_of::<usize>(n)@;
    pub broadcast axiom fn seen_shown_i32(n: &i32) ensures #[trigger] seen(shown_of::<i32>(n)@) == shown_of::<i32>(n)@;
    pub broadcast axiom fn seen_shown_u32(n: &u32) ensures #[trigger] seen(shown_of::<u32>(n)@) == shown_of::<u32>(n)@;
}
pub use vals::{strv, vecv, shown_of, seen};
pub open spec fn shown<T>(t: T) -> String { shown_of(&t) }
/// An attribute, an element without content and a token, with names and texts as a reader sees them.
pub struct At { pub n: Seq<char>, pub v: Seq<char> }
pub struct El { pub n: Seq<char>, pub a: Seq<At> }
pub enum Tok { Open(El), Close(Seq<char>), Chars(Seq<char>) }
/// A name without its prefix of one, two, three or five letters.
pub open spec fn local(s: Seq<char>) -> Seq<char> {
    if s.len() > 2 && s[1] == ':' { s.skip(2) } else if s.len() > 3 && s[2] == ':' { s.skip(3) } else if s.len() > 4 && s[3] == ':' { s.skip(4) } else if s.len() > 6 && s[5] == ':' { s.skip(6) } else { s } }
pub open spec fn leaf(e: El) -> Seq<Tok> { seq![Tok::Open(e), Tok::Close(e.n)] }
/// A log after elements without content; the same elements as tokens, first to last.
pub open spec fn onto(log: Seq<Tok>, s: Seq<El>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { log } else { onto(log, s.drop_last()).push(Tok::Open(s.last())).push(Tok::Close(s.last().n)) } }
pub open spec fn flat(s: Seq<El>) -> Seq<Tok> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { leaf(s[0]) + flat(s.skip(1)) } }
pub open spec fn more(s: Seq<El>, e: Option<El>) -> Seq<El> { match e { Some(e) => s.push(e), None => s } }
pub open spec fn with(s: Seq<At>, n: Seq<char>, v: Option<Seq<char>>) -> Seq<At> { match v { Some(v) => s.push(At { n, v: seen(v) }), None => s } }
pub open spec fn txt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub proof fn lemma_onto(log: Seq<Tok>, s: Seq<El>)
    ensures onto(log, s) == log + flat(s)
    decreases s.len()
{
    if s.len() == 0 { assert(log + flat(s) =~= log); } else {
        lemma_onto(log, s.drop_last());
        lemma_flat_push(s.drop_last(), s.last());
        assert(s.drop_last().push(s.last()) =~= s);
        assert(onto(log, s) =~= log + flat(s));
    }
}
proof fn lemma_flat_push(s: Seq<El>, e: El)
    ensures flat(s.push(e)) == flat(s) + leaf(e)
    decreases s.len()
{
    if s.len() == 0 { assert(s.push(e).skip(1) =~= Seq::<El>::empty()); assert(flat(s.push(e).skip(1)) =~= Seq::<Tok>::empty()); assert(flat(s.push(e)) =~= leaf(e)); assert(flat(s) + leaf(e) =~= leaf(e)); }
    else { lemma_flat_push(s.skip(1), e); assert(s.push(e).skip(1) =~= s.skip(1).push(e)); assert(flat(s.push(e)) =~= flat(s) + leaf(e)); }
}
#[verifier::opaque] pub open spec fn omore(log: Seq<Tok>, e: Option<El>) -> Seq<Tok> { match e { Some(e) => log.push(Tok::Open(e)).push(Tok::Close(e.n)), None => log } }
pub proof fn lemma_more(log: Seq<Tok>, s: Seq<El>, e: Option<El>)
    ensures onto(log, more(s, e)) == omore(onto(log, s), e)
{ reveal(omore); if let Some(x) = e { assert(s.push(x).drop_last() =~= s); } }
pub proof fn lemma_onto0(log: Seq<Tok>) ensures onto(log, Seq::<El>::empty()) == log {}
pub open spec fn val(v: Seq<char>) -> Seq<At> { seq![At { n: "val"@, v: seen(v) }] }
pub open spec fn el_switch(n: Seq<char>, on: bool) -> El { El { n, a: if on { Seq::empty() } else { val("false"@) } } }
pub open spec fn el_val(n: Seq<char>, v: Seq<char>) -> El { El { n, a: val(v) } }
pub open spec fn border_at(ty: BorderType, size: usize, space: usize, color: Seq<char>) -> Seq<At> {
    ats(ats(ats(ats(Seq::empty(), "val"@, shown(ty)@), "sz"@, shown(size)@), "space"@, shown(space)@), "color"@, color) }
pub open spec fn ats(s: Seq<At>, n: Seq<char>, v: Seq<char>) -> Seq<At> { s.push(At { n, v: seen(v) }) }
pub open spec fn shd_at(ty: Seq<char>, color: Seq<char>, fill: Seq<char>) -> Seq<At> { ats(ats(ats(Seq::empty(), "val"@, ty), "color"@, color), "fill"@, fill) }
pub open spec fn el_shading(s: Shading) -> El { El { n: "shd"@, a: shd_at(shown(s.shd_type)@, s.color@, s.fill@) } }
pub open spec fn num<T>(v: Option<T>) -> Option<Seq<char>> { match v { Some(v) => Some(shown(v)@), None => None } }
#[verifier::opaque] pub open spec fn ol(o: Option<El>) -> Seq<Tok> { match o { Some(e) => leaf(e), None => Seq::empty() } }
pub proof fn lemma_cat(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
