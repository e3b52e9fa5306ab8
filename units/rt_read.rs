//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rx_spec.rs
//@include rt_spec.rs
//@include tb_spec.rs
//@include rd_head.rs
//@include rt_core.rs
/// What an element name stands for.
#[verifier::opaque] pub open spec fn ck(n: Seq<char>) -> Option<XMLElement> {
    if n == "tcPr"@ { Some(XMLElement::TableCellProperty) } else if n == "tcPrChange"@ { Some(XMLElement::TableCellPropertyChange) } else if n == "tcW"@ { Some(XMLElement::TableCellWidth) } else if n == "tcBorders"@ { Some(XMLElement::TableCellBorders) } else if n == "gridSpan"@ { Some(XMLElement::TableGridSpan) } else if n == "vMerge"@ { Some(XMLElement::TableVMerge) } else if n == "vAlign"@ { Some(XMLElement::VAlign) } else if n == "textDirection"@ { Some(XMLElement::TextDirection) } else if n == "shd"@ { Some(XMLElement::Shading) } else if n == "tcMar"@ { Some(XMLElement::CellMargins) } else if n == "top"@ { Some(XMLElement::Top) } else if n == "left"@ { Some(XMLElement::Left) } else if n == "bottom"@ { Some(XMLElement::Bottom) } else if n == "right"@ { Some(XMLElement::Right) } else if n == "insideH"@ { Some(XMLElement::InsideH) } else if n == "insideV"@ { Some(XMLElement::InsideV) } else if n == "tl2br"@ { Some(XMLElement::Tl2br) } else if n == "tr2bl"@ { Some(XMLElement::Tr2bl) } else if n == "tblPr"@ { Some(XMLElement::TableProperty) } else if n == "tblW"@ { Some(XMLElement::TableWidth) } else if n == "jc"@ { Some(XMLElement::Justification) } else if n == "tblBorders"@ { Some(XMLElement::TableBorders) } else if n == "tblCellMar"@ { Some(XMLElement::TableCellMargin) } else if n == "tblInd"@ { Some(XMLElement::TableIndent) } else if n == "tblStyle"@ { Some(XMLElement::TableStyle) } else if n == "tblpPr"@ { Some(XMLElement::TablePositionProperty) } else { None }
}
proof fn kinds() ensures
    ck("tcPr"@) == Some(XMLElement::TableCellProperty),
    ck("tcPrChange"@) == Some(XMLElement::TableCellPropertyChange),
    ck("tcW"@) == Some(XMLElement::TableCellWidth),
    ck("tcBorders"@) == Some(XMLElement::TableCellBorders),
    ck("gridSpan"@) == Some(XMLElement::TableGridSpan),
    ck("vMerge"@) == Some(XMLElement::TableVMerge),
    ck("vAlign"@) == Some(XMLElement::VAlign),
    ck("textDirection"@) == Some(XMLElement::TextDirection),
    ck("shd"@) == Some(XMLElement::Shading),
    ck("tcMar"@) == Some(XMLElement::CellMargins),
    ck("top"@) == Some(XMLElement::Top),
    ck("left"@) == Some(XMLElement::Left),
    ck("bottom"@) == Some(XMLElement::Bottom),
    ck("right"@) == Some(XMLElement::Right),
    ck("insideH"@) == Some(XMLElement::InsideH),
    ck("insideV"@) == Some(XMLElement::InsideV),
    ck("tl2br"@) == Some(XMLElement::Tl2br),
    ck("tr2bl"@) == Some(XMLElement::Tr2bl),
    ck("tblPr"@) == Some(XMLElement::TableProperty),
    ck("tblW"@) == Some(XMLElement::TableWidth),
    ck("jc"@) == Some(XMLElement::Justification),
    ck("tblBorders"@) == Some(XMLElement::TableBorders),
    ck("tblCellMar"@) == Some(XMLElement::TableCellMargin),
    ck("tblInd"@) == Some(XMLElement::TableIndent),
    ck("tblStyle"@) == Some(XMLElement::TableStyle),
    ck("tblpPr"@) == Some(XMLElement::TablePositionProperty),
{ reveal(ck); reveal_strlit("tcPr"); reveal_strlit("tcPrChange"); reveal_strlit("tcW"); reveal_strlit("tcBorders"); reveal_strlit("gridSpan"); reveal_strlit("vMerge"); reveal_strlit("vAlign"); reveal_strlit("textDirection"); reveal_strlit("shd"); reveal_strlit("tcMar"); reveal_strlit("top"); reveal_strlit("left"); reveal_strlit("bottom"); reveal_strlit("right"); reveal_strlit("insideH"); reveal_strlit("insideV"); reveal_strlit("tl2br"); reveal_strlit("tr2bl"); reveal_strlit("tblPr"); reveal_strlit("tblW"); reveal_strlit("jc"); reveal_strlit("tblBorders"); reveal_strlit("tblCellMar"); reveal_strlit("tblInd"); reveal_strlit("tblStyle"); reveal_strlit("tblpPr"); }
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, ck(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(ck); reveal_strlit("tcPr"); reveal_strlit("tcPrChange"); reveal_strlit("tcW"); reveal_strlit("tcBorders"); reveal_strlit("gridSpan"); reveal_strlit("vMerge"); reveal_strlit("vAlign"); reveal_strlit("textDirection"); reveal_strlit("shd"); reveal_strlit("tcMar"); reveal_strlit("top"); reveal_strlit("left"); reveal_strlit("bottom"); reveal_strlit("right"); reveal_strlit("insideH"); reveal_strlit("insideV"); reveal_strlit("tl2br"); reveal_strlit("tr2bl"); reveal_strlit("tblPr"); reveal_strlit("tblW"); reveal_strlit("jc"); reveal_strlit("tblBorders"); reveal_strlit("tblCellMar"); reveal_strlit("tblInd"); reveal_strlit("tblStyle"); reveal_strlit("tblpPr"); }
//@end
//@fn <WidthType as FromStr>::from_str ext
//@| ensures (match (r, named::<WidthType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <VMergeType as FromStr>::from_str ext
//@| ensures (match (r, named::<VMergeType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <VAlignType as FromStr>::from_str ext
//@| ensures (match (r, named::<VAlignType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
//@fn <TextDirectionType as FromStr>::from_str ext
//@| ensures (match (r, named::<TextDirectionType>(s@)) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@end
pub mod cells {
    use super::*;
    // TRUSTED: whole numbers from zero up are printed and read back exactly and contain no percent sign.
    pub broadcast axiom fn width_back(n: &i32) ensures #![trigger shown_of::<i32>(n)] *n >= 0 ==> parsed::<usize>(shown_of::<i32>(n)@) == Some(*n as usize) && without(shown_of::<i32>(n)@) == shown_of::<i32>(n)@
        && float_to::<isize>(shown_of::<i32>(n)@) == Some(*n as isize) && cast::<isize, usize>(*n as isize) == *n as usize;
    // TRUSTED here, proved in the codec unit: the name a value prints as is read as that value and contains no markup.
    pub broadcast axiom fn wide(t: &WidthType) ensures #![trigger shown_of::<WidthType>(t)] *t != WidthType::Unsupported ==> named::<WidthType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn merge(t: &VMergeType) ensures #![trigger shown_of::<VMergeType>(t)] *t != VMergeType::Unsupported ==> named::<VMergeType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn align(t: &VAlignType) ensures #![trigger shown_of::<VAlignType>(t)] *t != VAlignType::Unsupported ==> named::<VAlignType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    pub broadcast axiom fn direction(t: &TextDirectionType) ensures #![trigger shown_of::<TextDirectionType>(t)] named::<TextDirectionType>(shown_of(t)@) == Some(*t), seen(shown_of(t)@) == shown_of(t)@;
    // TRUSTED: derived defaults leave every optional value absent.
    pub broadcast axiom fn d_cell() ensures #[trigger] dflt::<TableCellProperty>() == no_cell();
    pub broadcast axiom fn d_margins() ensures #[trigger] dflt::<CellMargins>() == no_rims();
}
pub open spec fn no_cell() -> TableCellProperty { TableCellProperty { width: None, borders: None, grid_span: None, vertical_merge: None, vertical_align: None, text_direction: None, shading: None, margins: None } }
pub open spec fn no_rims() -> CellMargins { CellMargins { top: None, left: None, bottom: None, right: None } }
pub open spec fn no_edges() -> TableCellBorders { TableCellBorders { top: None, left: None, bottom: None, right: None, inside_h: None, inside_v: None, tl2br: None, tr2bl: None } }
//@fn TableCellProperty::new r=out
//@| ensures out == dflt::<TableCellProperty>(),
//@end
//@fn TableCellBorders::with_empty r=out
//@| ensures out == no_edges(),
//@end
//@fn <Shading as Default>::default r=out
//@| ensures out == shd0(),
//@end
//@fn Shading::new r=out
//@| ensures out == shd0(),
//@end
/// A width: a number and what it counts.
pub open spec fn wid(a: Seq<At>) -> Option<(usize, WidthType)> decreases a.len() {
    if a.len() == 0 { Some((0, WidthType::Auto)) } else { match wid(a.drop_last()) { None => None, Some(p) => {
        let n = a.last().n; let v = a.last().v;
        if n == "type"@ { match named::<WidthType>(v) { Some(t) => Some((p.0, t)), None => None } }
        else if n == "w"@ { match parsed::<usize>(v) { Some(x) => Some((x, p.1)), None => None } } else { Some(p) } } } }
}
pub open spec fn wid_f(a: Seq<At>) -> Option<(isize, WidthType)> decreases a.len() {
    if a.len() == 0 { Some((0, WidthType::Auto)) } else { match wid_f(a.drop_last()) { None => None, Some(p) => {
        let n = a.last().n; let v = a.last().v;
        if n == "type"@ { match named::<WidthType>(v) { Some(t) => Some((p.0, t)), None => None } }
        else if n == "w"@ { match float_to::<isize>(without(v)) { Some(x) => Some((x, p.1)), None => None } } else { Some(p) } } } }
}
proof fn lemma_wid(a: Seq<At>, i: int) requires 0 <= i <= a.len() ensures wid(a) is Some ==> wid(a.take(i)) is Some, wid_f(a) is Some ==> wid_f(a.take(i)) is Some
    decreases a.len()
{ if i < a.len() { lemma_wid(a.drop_last(), i); assert(a.drop_last().take(i) =~= a.take(i)); } else { assert(a.take(i) =~= a); } }
//@fn reader/attributes/width.rs::read_width casts
//@| ensures (match (r, wid_f(av(attrs@))) { (Ok(a), Some(b)) => a == b, (Err(_), None) => true, _ => false }),
//@at start
//@| proof { assert(av(attrs@).take(0) =~= Seq::<At>::empty()); reveal_strlit("type"); reveal_strlit("w"); }
//@loop 0 iter=it
//@| invariant wid_f(av(attrs@).take(it.index@)) == Some((w, width_type)),
//@loopstart 0
//@| proof { let s = av(attrs@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); assert(s.take(it.index@ + 1).last() == s[it.index@]); assert(s[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   lemma_wid(s, it.index@ + 1); reveal_strlit("type"); reveal_strlit("w"); }
//@afterloop 0
//@| proof { assert(av(attrs@).take(attrs@.len() as int) =~= av(attrs@)); }
//@end
/// A border read from its attributes.
pub open spec fn edge_of(p: TableCellBorderPosition, a: Seq<At>) -> TableCellBorder {
    let t = match last(a, "val"@) { Some(v) => named::<BorderType>(v)->0, None => BorderType::Single };
    let c = match last(a, "color"@) { Some(c) => c, None => "000000"@ };
    TableCellBorder { border_type: t, size: cast::<u32, usize>(num_or(last(a, "sz"@), 4)->0), color: strv(c), position: p, space: 0 }
}
pub open spec fn pos_of(k: XMLElement) -> Option<TableCellBorderPosition> { match k { XMLElement::End => Some(TableCellBorderPosition::Right), XMLElement::Start => Some(TableCellBorderPosition::Left), XMLElement::Top => Some(TableCellBorderPosition::Top), XMLElement::Left => Some(TableCellBorderPosition::Left), XMLElement::Bottom => Some(TableCellBorderPosition::Bottom), XMLElement::Right => Some(TableCellBorderPosition::Right), XMLElement::InsideH => Some(TableCellBorderPosition::InsideH), XMLElement::InsideV => Some(TableCellBorderPosition::InsideV), XMLElement::Tl2br => Some(TableCellBorderPosition::Tl2br), XMLElement::Tr2bl => Some(TableCellBorderPosition::Tr2bl), _ => None } }
#[verifier::opaque] pub open spec fn bstep(b: TableCellBorders, k: XMLElement, a: Seq<At>) -> Option<TableCellBorders> { match pos_of(k) { Some(p) => if bdr_fine(a) { Some(sp_TableCellBorders_set(b, edge_of(p, a))) } else { None }, None => Some(b) } }
pub open spec fn brun(b: TableCellBorders, t: Seq<Tok>) -> Option<(TableCellBorders, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => match bstep(b, k, e.a) { Some(q) => brun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellBorders { Some((b, t.skip(1))) } else { brun(b, t.skip(1)) }, None => None },
        Tok::Chars(_) => brun(b, t.skip(1)),
    } }
}
//@fn <TableCellBorders as ElementReader>::read r=out casts
//@| ensures brun(no_edges(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellBorders, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant brun(no_edges(), old(r).todo()) is Some ==> brun(borders, r.todo()) == brun(no_edges(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(bstep); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_last(e.a, "sz"@); lemma_last(e.a, "space"@); lemma_last(e.a, "val"@); } } }
//@end
#[verifier::opaque] pub open spec fn mstep(m: CellMargins, k: XMLElement, a: Seq<At>) -> CellMargins { match wid_f(a) { None => m, Some(x) => { let v = cast::<isize, usize>(x.0); match k {
    XMLElement::Top => sp_CellMargins_margin_top(m, v, x.1), XMLElement::Right => sp_CellMargins_margin_right(m, v, x.1), XMLElement::Bottom => sp_CellMargins_margin_bottom(m, v, x.1), XMLElement::Left => sp_CellMargins_margin_left(m, v, x.1), _ => m } } } }
pub open spec fn mrun(m: CellMargins, t: Seq<Tok>) -> Option<(CellMargins, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) { Some(k) => mrun(mstep(m, k, e.a), t.skip(1)), None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::CellMargins { Some((m, t.skip(1))) } else { mrun(m, t.skip(1)) }, None => None },
        Tok::Chars(_) => mrun(m, t.skip(1)),
    } }
}
//@fn <CellMargins as ElementReader>::read r=out casts
//@| ensures mrun(dflt::<CellMargins>(), old(r).todo()) matches Some(x) ==> out == Ok::<CellMargins, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@sub `CellMargins::default()` => `vx_default::<CellMargins>()`
//@loop 0
//@| invariant mrun(dflt::<CellMargins>(), old(r).todo()) is Some ==> mrun(margins, r.todo()) == mrun(dflt::<CellMargins>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(mstep); }
//@end
/// What one child element without content does to the cell formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn cstep(p: TableCellProperty, k: XMLElement, a: Seq<At>) -> Option<TableCellProperty> { match k {
    XMLElement::TableCellPropertyChange | XMLElement::TableCellBorders | XMLElement::CellMargins => None,
    XMLElement::TableCellWidth => match wid(a) { Some(x) => Some(sp_TableCellProperty_width(p, x.0, x.1)), None => None },
    XMLElement::TableGridSpan => if a.len() == 0 { Some(p) } else { match parsed::<usize>(a[0].v) { Some(n) => Some(sp_TableCellProperty_grid_span(p, n)), None => None } },
    XMLElement::TableVMerge => if a.len() == 0 { Some(sp_TableCellProperty_vertical_merge(p, VMergeType::Continue)) } else { match named::<VMergeType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_vertical_merge(p, n)), None => None } },
    XMLElement::VAlign => if a.len() == 0 { Some(p) } else { match named::<VAlignType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_vertical_align(p, n)), None => None } },
    XMLElement::Shading => Some(sp_TableCellProperty_shading(p, shd_of(a))),
    XMLElement::TextDirection => if a.len() == 0 { Some(p) } else { match named::<TextDirectionType>(a[0].v) { Some(n) => Some(sp_TableCellProperty_text_direction(p, n)), None => Some(p) } },
    _ => Some(p),
} }
/// Cell formatting read from tokens, and the tokens after it.
pub open spec fn crun(p: TableCellProperty, t: Seq<Tok>) -> Option<(TableCellProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match ck(e.n) {
            Some(XMLElement::TableCellBorders) => match brun(no_edges(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { crun(sp_TableCellProperty_set_borders(p, x.0), x.1) } else { None }, None => None },
            Some(XMLElement::CellMargins) => match mrun(dflt::<CellMargins>(), t.skip(1)) { Some(x) => if x.1.len() < t.len() { crun(sp_TableCellProperty_margins(p, x.0), x.1) } else { None }, None => None },
            Some(k) => match cstep(p, k, e.a) { Some(q) => crun(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match ck(n) { Some(k) => if k == XMLElement::TableCellProperty { Some((p, t.skip(1))) } else { crun(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => crun(p, t.skip(1)),
    } }
}
//@fn <TableCellProperty as ElementReader>::read r=out casts
//@| ensures crun(dflt::<TableCellProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<TableCellProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@sub `_: &[OwnedAttribute]` => `_a: &[OwnedAttribute]`
//@loop 0
//@| invariant crun(dflt::<TableCellProperty>(), old(r).todo()) is Some ==> crun(property, r.todo()) == crun(dflt::<TableCellProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(cstep); }
//@before `let mut w = 0;`
//@| let ghost vx_a = av(attributes@); proof { assert(vx_a.take(0) =~= Seq::<At>::empty()); }
//@loop 1 iter=it
//@| invariant vx_a == av(it.seq()), wid(vx_a.take(it.index@)) == Some((w, width_type)), crun(dflt::<TableCellProperty>(), old(r).todo()) is Some ==> wid(vx_a) is Some,
//@loopstart 1
//@| proof { assert(vx_a.take(it.index@ + 1).drop_last() =~= vx_a.take(it.index@)); assert(vx_a.take(it.index@ + 1).last() == vx_a[it.index@]); assert(vx_a[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   lemma_wid(vx_a, it.index@ + 1); reveal_strlit("type"); reveal_strlit("w"); }
//@afterloop 1
//@| proof { assert(vx_a.take(vx_a.len() as int) =~= vx_a); }
//@end

//@include rt_thm.rs
//@include tb_read.rs
//@include rt_names.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
