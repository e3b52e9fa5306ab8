// What table rows look like in a part.
/// What anything that has its own content is written as.
pub uninterp spec fn nest_toks<T>(v: T) -> Seq<Tok>;
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
pub open spec fn plain(n: Seq<char>) -> Tok { Tok::Open(El { n, a: Seq::empty() }) }
/// Heights are at least what is asked for unless something else is said.
pub open spec fn rule_of(r: Option<HeightRule>) -> HeightRule { match r { Some(r) => r, None => HeightRule::AtLeast } }
pub open spec fn high_el(h: f32, r: HeightRule) -> El { El { n: "trHeight"@, a: ats(ats(Seq::empty(), "val"@, shown(h)@), "hRule"@, shown(r)@) } }
pub open spec fn opt_onto<T>(v: Option<T>, log: Seq<Tok>) -> Seq<Tok> { match v { Some(v) => log + nest_toks(v), None => log } }
pub open spec fn cant_onto(v: Option<CantSplit>, log: Seq<Tok>) -> Seq<Tok> { match v { Some(v) => one(log, El { n: "cantSplit"@, a: Seq::empty() }), None => log } }
pub open spec fn high_onto(h: Option<f32>, r: Option<HeightRule>, log: Seq<Tok>) -> Seq<Tok> { match h { Some(h) => one(log, high_el(h, rule_of(r))), None => log } }
pub open spec fn prop_onto(p: TableRowProperty, log: Seq<Tok>) -> Seq<Tok> { high_onto(p.row_height, p.height_rule, cant_onto(p.cant_split, opt_onto(p.ins, opt_onto(p.del, log.push(plain("trPr"@)))))).push(Tok::Close("trPr"@)) }
pub open spec fn cell_of(c: TableRowChild) -> TableCell { match c { TableRowChild::TableCell(x) => x } }
pub open spec fn cells_onto(c: Seq<TableRowChild>, log: Seq<Tok>) -> Seq<Tok> decreases c.len() { if c.len() == 0 { log } else { cells_onto(c.skip(1), log + nest_toks(cell_of(c[0]))) } }
pub open spec fn tr_onto(x: TableRow, log: Seq<Tok>) -> Seq<Tok> { cells_onto(x.cells@, prop_onto(x.property, log.push(plain("tr"@)))).push(Tok::Close("tr"@)) }
/// What the names written look like without their prefix.
pub proof fn names()
    ensures local("w:tr"@) == "tr"@, local("w:trPr"@) == "trPr"@, local("w:trHeight"@) == "trHeight"@, local("w:val"@) == "val"@, local("w:hRule"@) == "hRule"@, local("w:cantSplit"@) == "cantSplit"@
{ reveal_strlit("w:tr"); reveal_strlit("tr"); assert(local("w:tr"@) =~= "tr"@); reveal_strlit("w:trPr"); reveal_strlit("trPr"); assert(local("w:trPr"@) =~= "trPr"@); reveal_strlit("w:trHeight"); reveal_strlit("trHeight"); assert(local("w:trHeight"@) =~= "trHeight"@); reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@); reveal_strlit("w:hRule"); reveal_strlit("hRule"); assert(local("w:hRule"@) =~= "hRule"@); reveal_strlit("w:cantSplit"); reveal_strlit("cantSplit"); assert(local("w:cantSplit"@) =~= "cantSplit"@); }
//@item TableRow
//@item TableRowChild
//@item TableRowProperty
//@item CantSplit
//@item HeightRule
