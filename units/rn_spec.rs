// What a run looks like in a part. Element names are given with their prefix.
pub uninterp spec fn escaped(s: Seq<char>) -> String;
/// What run formatting is written as (units rb_write and rb_read).
pub uninterp spec fn rp_toks(p: RunProperty) -> Seq<Tok>;
pub uninterp spec fn other_toks(c: RunChild) -> Seq<Tok>;
pub open spec fn keep_at() -> Seq<At> { ats(Seq::empty(), local("xml:space"@), "preserve"@) }
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn words(log: Seq<Tok>, n: Seq<char>, s: Seq<char>) -> Seq<Tok> { log.push(Tok::Open(El { n, a: keep_at() })).push(Tok::Chars(seen(s))).push(Tok::Close(n)) }
pub open spec fn tab_el(t: Tab) -> El { El { n: "w:tab"@, a: with(with(with(Seq::empty(), "val"@, num(t.val)), "leader"@, num(t.leader)), "pos"@, num(t.pos)) } }
pub open spec fn ptab_el(t: PositionalTab) -> El { El { n: "w:ptab"@, a: ats(ats(ats(Seq::empty(), "alignment"@, shown(t.alignment)@), "relativeTo"@, shown(t.relative_to)@), "leader"@, shown(t.leader)@) } }
pub open spec fn sym_el(s: Sym) -> El { El { n: "w:sym"@, a: ats(ats(Seq::empty(), "font"@, s.font@), "char"@, s.char@) } }
pub closed spec fn br_el(b: Break) -> El { El { n: "w:br"@, a: ats(Seq::empty(), "type"@, shown(b.break_type)@) } }
pub open spec fn fld_el(f: FieldChar) -> El { El { n: "w:fldChar"@, a: ats(ats(Seq::empty(), "fldCharType"@, shown(f.field_char_type)@), "dirty"@, shown(f.dirty)@) } }
pub closed spec fn del_text(t: DeleteText) -> Seq<char> { t.text@ }
pub open spec fn kid_onto(c: RunChild, log: Seq<Tok>) -> Seq<Tok> {
    match c {
        RunChild::Text(t) => words(log, "w:t"@, t.text@),
        RunChild::DeleteText(t) => words(log, "w:delText"@, del_text(t)),
        RunChild::Tab(t) => one(log, tab_el(t)),
        RunChild::PTab(t) => one(log, ptab_el(t)),
        RunChild::Sym(s) => one(log, sym_el(s)),
        RunChild::Break(b) => one(log, br_el(b)),
        RunChild::CarriageReturn(_) => one(log, El { n: "w:cr"@, a: Seq::empty() }),
        RunChild::FieldChar(f) => one(log, fld_el(f)),
        RunChild::InstrTextString(s) => words(log, "w:instrText"@, escaped(s@)@),
        _ => log + other_toks(c),
    }
}
pub open spec fn kids_onto(c: Seq<RunChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_onto(c.skip(1), kid_onto(c[0], log)) } }
pub open spec fn run_onto(x: Run, log: Seq<Tok>) -> Seq<Tok> { kids_onto(x.children@, log.push(Tok::Open(El { n: "w:r"@, a: Seq::empty() })) + rp_toks(x.run_property)).push(Tok::Close("w:r"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:t"@) == "t"@, local("w:delText"@) == "delText"@, local("w:tab"@) == "tab"@, local("w:ptab"@) == "ptab"@, local("w:sym"@) == "sym"@, local("w:br"@) == "br"@, local("w:cr"@) == "cr"@, local("w:fldChar"@) == "fldChar"@, local("w:instrText"@) == "instrText"@, local("w:r"@) == "r"@, local("w:rPr"@) == "rPr"@, local("w:val"@) == "val"@, local("w:leader"@) == "leader"@, local("w:pos"@) == "pos"@, local("w:alignment"@) == "alignment"@, local("w:relativeTo"@) == "relativeTo"@, local("w:font"@) == "font"@, local("w:char"@) == "char"@, local("w:type"@) == "type"@, local("w:fldCharType"@) == "fldCharType"@, local("w:dirty"@) == "dirty"@
{ reveal_strlit("w:t"); reveal_strlit("t"); assert(local("w:t"@) =~= "t"@); reveal_strlit("w:delText"); reveal_strlit("delText"); assert(local("w:delText"@) =~= "delText"@); reveal_strlit("w:tab"); reveal_strlit("tab"); assert(local("w:tab"@) =~= "tab"@); reveal_strlit("w:ptab"); reveal_strlit("ptab"); assert(local("w:ptab"@) =~= "ptab"@); reveal_strlit("w:sym"); reveal_strlit("sym"); assert(local("w:sym"@) =~= "sym"@); reveal_strlit("w:br"); reveal_strlit("br"); assert(local("w:br"@) =~= "br"@); reveal_strlit("w:cr"); reveal_strlit("cr"); assert(local("w:cr"@) =~= "cr"@); reveal_strlit("w:fldChar"); reveal_strlit("fldChar"); assert(local("w:fldChar"@) =~= "fldChar"@); reveal_strlit("w:instrText"); reveal_strlit("instrText"); assert(local("w:instrText"@) =~= "instrText"@); reveal_strlit("w:r"); reveal_strlit("r"); assert(local("w:r"@) =~= "r"@); reveal_strlit("w:rPr"); reveal_strlit("rPr"); assert(local("w:rPr"@) =~= "rPr"@); reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@); reveal_strlit("w:leader"); reveal_strlit("leader"); assert(local("w:leader"@) =~= "leader"@); reveal_strlit("w:pos"); reveal_strlit("pos"); assert(local("w:pos"@) =~= "pos"@); reveal_strlit("w:alignment"); reveal_strlit("alignment"); assert(local("w:alignment"@) =~= "alignment"@); reveal_strlit("w:relativeTo"); reveal_strlit("relativeTo"); assert(local("w:relativeTo"@) =~= "relativeTo"@); reveal_strlit("w:font"); reveal_strlit("font"); assert(local("w:font"@) =~= "font"@); reveal_strlit("w:char"); reveal_strlit("char"); assert(local("w:char"@) =~= "char"@); reveal_strlit("w:type"); reveal_strlit("type"); assert(local("w:type"@) =~= "type"@); reveal_strlit("w:fldCharType"); reveal_strlit("fldCharType"); assert(local("w:fldCharType"@) =~= "fldCharType"@); reveal_strlit("w:dirty"); reveal_strlit("dirty"); assert(local("w:dirty"@) =~= "dirty"@); }
//@item Text
//@item DeleteText
//@item Tab
//@item PositionalTab
//@item Sym
//@item Break
//@item CarriageReturn
//@item FieldChar
//@item RunChild
//@item Run
#[verifier::external_body] pub struct RunProperty { x: u8 }
#[verifier::external_body] pub struct Drawing { x: u8 }
#[verifier::external_body] pub struct Shape { x: u8 }
#[verifier::external_body] pub struct CommentRangeStart { x: u8 }
#[verifier::external_body] pub struct CommentRangeEnd { x: u8 }
#[verifier::external_body] pub struct InstrText { x: u8 }
#[verifier::external_body] pub struct DeleteInstrText { x: u8 }
#[verifier::external_body] pub struct FootnoteReference { x: u8 }
