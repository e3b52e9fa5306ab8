// What tables look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn wide_at(v: i32, t: WidthType) -> Seq<At> { ats(ats(Seq::empty(), "w"@, shown(v)@), "type"@, shown(t)@) }
pub open spec fn col_el(n: usize) -> El { El { n: "gridCol"@, a: wide_at(n as i32, WidthType::Dxa) } }
pub open spec fn row_of(c: TableChild) -> TableRow { match c { TableChild::TableRow(x) => x } }
pub open spec fn cols_onto(g: Seq<usize>, log: Seq<Tok>) -> Seq<Tok> decreases g.len() { if g.len() == 0 { log } else { cols_onto(g.skip(1), one(log, col_el(g[0]))) } }
pub open spec fn rows_onto(c: Seq<TableChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { rows_onto(c.skip(1), log + nest_toks(row_of(c[0]))) } }
pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
pub open spec fn grid_onto(g: Seq<usize>, log: Seq<Tok>) -> Seq<Tok> { cols_onto(g, log.push(plain("tblGrid"@))).push(Tok::Close("tblGrid"@)) }
pub open spec fn tbl_onto(x: Table, log: Seq<Tok>) -> Seq<Tok> { rows_onto(x.rows@, grid_onto(x.grid@, log.push(plain("tbl"@)) + nest_toks(x.property))).push(Tok::Close("tbl"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:tbl"@) == "tbl"@, local("w:tblGrid"@) == "tblGrid"@, local("w:gridCol"@) == "gridCol"@, local("w:w"@) == "w"@, local("w:type"@) == "type"@
{ reveal_strlit("w:tbl"); reveal_strlit("tbl"); assert(local("w:tbl"@) =~= "tbl"@); reveal_strlit("w:tblGrid"); reveal_strlit("tblGrid"); assert(local("w:tblGrid"@) =~= "tblGrid"@); reveal_strlit("w:gridCol"); reveal_strlit("gridCol"); assert(local("w:gridCol"@) =~= "gridCol"@); reveal_strlit("w:w"); reveal_strlit("w"); assert(local("w:w"@) =~= "w"@); reveal_strlit("w:type"); reveal_strlit("type"); assert(local("w:type"@) =~= "type"@); }
//@item Table
//@item TableChild
//@item WidthType
