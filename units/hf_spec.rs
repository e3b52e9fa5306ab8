// What headers, footers and table cells look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn kid_Header(c: HeaderChild, log: Seq<Tok>) -> Seq<Tok> { match c { HeaderChild::Paragraph(b) => log + nest_toks(*b), HeaderChild::Table(b) => log + nest_toks(*b), HeaderChild::StructuredDataTag(b) => log + nest_toks(*b), } }
pub open spec fn kids_Header(c: Seq<HeaderChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_Header(c.skip(1), kid_Header(c[0], log)) } }
pub open spec fn onto_Header(x: Header, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> { kids_Header(x.children@, log.push(Tok::Open(El { n: "hdr"@, a }))).push(Tok::Close("hdr"@)) }
pub open spec fn kid_Footer(c: FooterChild, log: Seq<Tok>) -> Seq<Tok> { match c { FooterChild::Paragraph(b) => log + nest_toks(*b), FooterChild::Table(b) => log + nest_toks(*b), FooterChild::StructuredDataTag(b) => log + nest_toks(*b), } }
pub open spec fn kids_Footer(c: Seq<FooterChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_Footer(c.skip(1), kid_Footer(c[0], log)) } }
pub open spec fn onto_Footer(x: Footer, log: Seq<Tok>, a: Seq<At>) -> Seq<Tok> { kids_Footer(x.children@, log.push(Tok::Open(El { n: "ftr"@, a }))).push(Tok::Close("ftr"@)) }
pub open spec fn kid_TableCell(c: TableCellContent, log: Seq<Tok>) -> Seq<Tok> { match c { TableCellContent::Paragraph(b) => log + nest_toks(*b), TableCellContent::Table(b) => log + nest_toks(*b), TableCellContent::StructuredDataTag(b) => log + nest_toks(*b), TableCellContent::TableOfContents(b) => log + nest_toks(*b), } }
pub open spec fn kids_TableCell(c: Seq<TableCellContent>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { kids_TableCell(c.skip(1), kid_TableCell(c[0], log)) } }
/// A cell that would hold nothing, or only a table, is given an empty paragraph as well.
pub open spec fn pads(c: Seq<TableCellContent>) -> bool { c.len() == 0 || (c.len() == 1 && c[0] is Table) }
pub open spec fn onto_TableCell(x: TableCell, log: Seq<Tok>) -> Seq<Tok> { kids_TableCell(x.children@, log.push(Tok::Open(El { n: "tc"@, a: Seq::empty() })) + nest_toks(x.property)).push(Tok::Close("tc"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:hdr"@) == "hdr"@, local("w:ftr"@) == "ftr"@, local("w:tc"@) == "tc"@
{ reveal_strlit("w:hdr"); reveal_strlit("hdr"); assert(local("w:hdr"@) =~= "hdr"@); reveal_strlit("w:ftr"); reveal_strlit("ftr"); assert(local("w:ftr"@) =~= "ftr"@); reveal_strlit("w:tc"); reveal_strlit("tc"); assert(local("w:tc"@) =~= "tc"@); }
//@item Header
//@item HeaderChild
//@item Footer
//@item FooterChild
//@item TableCell
//@item TableCellContent
