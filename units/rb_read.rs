//@include prelude.rs
verus! {
//@include rd_pre.rs
//@include rb_spec.rs
//@include rp_spec.rs
//@include rd_head.rs
//@include readback_core.rs
/// What an element name stands for.
#[verifier::opaque] pub open spec fn kind(n: Seq<char>) -> Option<XMLElement> {
    if n == "rPr"@ { Some(XMLElement::RunProperty) } else if n == "rPrChange"@ { Some(XMLElement::RunPropertyChange) } else if n == "ins"@ { Some(XMLElement::Insert) } else if n == "del"@ { Some(XMLElement::Delete) } else if n == "ptab"@ { Some(XMLElement::PTab) } else if n == "rStyle"@ { Some(XMLElement::RunStyle) } else if n == "b"@ { Some(XMLElement::Bold) } else if n == "bCs"@ { Some(XMLElement::BoldCs) } else if n == "i"@ { Some(XMLElement::Italic) } else if n == "iCs"@ { Some(XMLElement::ItalicCs) } else if n == "caps"@ { Some(XMLElement::Caps) } else if n == "strike"@ { Some(XMLElement::Strike) } else if n == "dstrike"@ { Some(XMLElement::Dstrike) } else if n == "highlight"@ { Some(XMLElement::Highlight) } else if n == "u"@ { Some(XMLElement::Underline) } else if n == "vertAlign"@ { Some(XMLElement::VertAlign) } else if n == "color"@ { Some(XMLElement::Color) } else if n == "sz"@ { Some(XMLElement::Size) } else if n == "szCs"@ { Some(XMLElement::SizeCs) } else if n == "spacing"@ { Some(XMLElement::Spacing) } else if n == "fitText"@ { Some(XMLElement::FitText) } else if n == "rFonts"@ { Some(XMLElement::RunFonts) } else if n == "shd"@ { Some(XMLElement::Shading) } else if n == "vanish"@ { Some(XMLElement::Vanish) } else if n == "specVanish"@ { Some(XMLElement::SpecVanish) } else if n == "bdr"@ { Some(XMLElement::TextBorder) } else if n == "w"@ { Some(XMLElement::W) }
    else { None }
}
//@fn <XMLElement as FromStr>::from_str autostr
//@| ensures r is Ok, pk(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k), kind(s@) matches Some(k) ==> r == Ok::<XMLElement, ()>(k),
//@attr
//@| #[verifier::rlimit(300)]
//@at start
//@| proof { reveal(pk); reveal(kind_p); reveal_strlit("pPr"); reveal_strlit("pStyle"); reveal_strlit("numPr"); reveal_strlit("framePr"); reveal_strlit("jc"); reveal_strlit("ind"); reveal_strlit("outlineLvl"); reveal_strlit("textAlignment"); reveal_strlit("adjustRightInd"); reveal_strlit("snapToGrid"); reveal_strlit("keepNext"); reveal_strlit("keepLines"); reveal_strlit("pageBreakBefore"); reveal_strlit("widowControl"); reveal_strlit("tabs"); reveal_strlit("tab"); reveal_strlit("ilvl"); reveal_strlit("numId"); reveal_strlit("wrap"); reveal_strlit("hRule"); reveal_strlit("hAnchor"); reveal_strlit("vAnchor"); reveal_strlit("hSpace"); reveal_strlit("vSpace"); reveal_strlit("xAlign"); reveal_strlit("yAlign"); reveal_strlit("h"); reveal_strlit("x"); reveal_strlit("y"); reveal(kind); reveal_strlit("rPr"); reveal_strlit("rPrChange"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("ptab"); reveal_strlit("rStyle"); reveal_strlit("b"); reveal_strlit("bCs"); reveal_strlit("i"); reveal_strlit("iCs"); reveal_strlit("caps"); reveal_strlit("strike"); reveal_strlit("dstrike"); reveal_strlit("highlight"); reveal_strlit("u"); reveal_strlit("vertAlign"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("szCs"); reveal_strlit("spacing"); reveal_strlit("fitText"); reveal_strlit("rFonts"); reveal_strlit("shd"); reveal_strlit("vanish"); reveal_strlit("specVanish"); reveal_strlit("bdr"); reveal_strlit("w"); }
//@end
// The default values of the parts of run formatting.
pub mod dfl {
    use super::*;
    // TRUSTED: Default::default() calls the Default implementation, whose result is proved below.
    pub broadcast axiom fn d_bold() ensures #[trigger] dflt::<Bold>() == (Bold { val: true });
    pub broadcast axiom fn d_bold_cs() ensures #[trigger] dflt::<BoldCs>() == (BoldCs { val: true });
    pub broadcast axiom fn d_italic() ensures #[trigger] dflt::<Italic>() == (Italic { val: true });
    pub broadcast axiom fn d_italic_cs() ensures #[trigger] dflt::<ItalicCs>() == (ItalicCs { val: true });
    pub broadcast axiom fn d_caps() ensures #[trigger] dflt::<Caps>() == (Caps { val: true });
    pub broadcast axiom fn d_strike() ensures #[trigger] dflt::<Strike>() == (Strike { val: true });
    pub broadcast axiom fn d_dstrike() ensures #[trigger] dflt::<Dstrike>() == (Dstrike { val: true });
    // TRUSTED: a derived default leaves every optional value absent.
    pub broadcast axiom fn d_fonts() ensures #[trigger] dflt::<RunFonts>() == no_fonts();
    pub broadcast axiom fn d_rpr() ensures #[trigger] dflt::<RunProperty>() == no_rpr();
}
//@fn <Bold as Default>::default r=out
//@| ensures out == (Bold { val: true }),
//@end
//@fn <BoldCs as Default>::default r=out
//@| ensures out == (BoldCs { val: true }),
//@end
//@fn <Italic as Default>::default r=out
//@| ensures out == (Italic { val: true }),
//@end
//@fn <ItalicCs as Default>::default r=out
//@| ensures out == (ItalicCs { val: true }),
//@end
//@fn <Caps as Default>::default r=out
//@| ensures out == (Caps { val: true }),
//@end
//@fn <Strike as Default>::default r=out
//@| ensures out == (Strike { val: true }),
//@end
//@fn <Dstrike as Default>::default r=out
//@| ensures out == (Dstrike { val: true }),
//@end
pub open spec fn no_fonts() -> RunFonts { RunFonts { ascii: None, hi_ansi: None, east_asia: None, cs: None, ascii_theme: None, hi_ansi_theme: None, east_asia_theme: None, cs_theme: None, hint: None } }
pub open spec fn no_rpr() -> RunProperty { RunProperty { sz: None, sz_cs: None, color: None, highlight: None, vert_align: None, underline: None, bold: None, bold_cs: None, caps: None, italic: None, italic_cs: None, vanish: None, spec_vanish: None, character_spacing: None, fit_text: None, stretch: None, fonts: None, text_border: None, del: None, ins: None, strike: None, dstrike: None, style: None, positional_tab: None, shading: None } }
//@fn RunProperty::new r=out
//@| ensures out == dflt::<RunProperty>(),
//@end
//@fn RunFonts::new r=out
//@| ensures out == dflt::<RunFonts>(),
//@end
//@fn Shading::new r=out
//@| ensures out == shd0(),
//@end
//@fn TextBorder::new r=out
//@| ensures out == bdr0(),
//@end
pub open spec fn bdr0() -> TextBorder { TextBorder { border_type: BorderType::Single, size: 4, space: 0, color: strv("auto"@) } }
//@fn <Shading as Default>::default r=out
//@| ensures out == shd0(),
//@end
//@fn <TextBorder as Default>::default r=out
//@| ensures out == bdr0(),
//@end
/// A switch: on unless the value says no.
pub open spec fn on(a: Seq<At>) -> bool { match first(a, "val"@) { Some(v) => !is_no(v), None => a.len() == 0 || !is_no(a[0].v) } }
// TRUSTED: slice search and Option::or_else do what std says.
#[verifier::external_body] pub fn vx_find<F: Fn(&OwnedAttribute) -> bool>(s: &[OwnedAttribute], f: F) -> (r: Option<&OwnedAttribute>)
    ensures r matches Some(a) ==> exists |i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *a && f.ensures((&s@[i],), true) && forall |j: int| 0 <= j < i ==> f.ensures((&#[trigger] s@[j],), false),
        r is None ==> forall |j: int| 0 <= j < s@.len() ==> f.ensures((&#[trigger] s@[j],), false) { unimplemented!() }
pub trait VxOr<T>: Sized { spec fn vx_o(&self) -> Option<T>; fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) ensures self.vx_o() is Some ==> r == self.vx_o(), self.vx_o() is None ==> f.ensures((), r); }
impl<T> VxOr<T> for Option<T> { open spec fn vx_o(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() } }
//@fn reader/attributes/bool_value.rs::read_bool
//@| ensures r == on(av(attrs@)),
//@at start
//@| proof { lemma_first(av(attrs@), "val"@); assert forall |j: int| 0 <= j < attrs@.len() implies av(attrs@)[j] == (At { n: (#[trigger] attrs@[j]).name.local_name@, v: attrs@[j].value@ }) by {} }
//@closure 0
//@| -> (o: bool) ensures o == (attr.name.local_name@ == "val"@)
//@closure 1
//@| -> (o: Option<&OwnedAttribute>) ensures o == (if attrs@.len() == 0 { None } else { Some(&attrs@[0]) })
//@end
pub open spec fn col(p: RunProperty, a: Seq<At>) -> RunProperty {
    let p = sp_RunProperty_color(p, match first(a, "val"@) { Some(v) => v, None => "auto"@ });
    let p = match first(a, "themeColor"@) { Some(t) => match named::<ThemeColor>(t) { Some(t) => sp_RunProperty_theme_color(p, t), None => p }, None => p };
    let p = match first(a, "themeShade"@) { Some(t) => sp_RunProperty_theme_shade(p, t), None => p };
    match first(a, "themeTint"@) { Some(t) => sp_RunProperty_theme_tint(p, t), None => p }
}
//@fn reader/run_property.rs::read_color r=out
//@| ensures out == col(rp, av(attributes@)),
//@closure 0
//@| -> (o: String) ensures o@ == "auto"@
//@end
pub open spec fn esc(v: Option<Seq<char>>) -> Option<String> { match v { Some(v) => Some(escaped(v)), None => None } }
pub open spec fn fonts_of(a: Seq<At>) -> RunFonts { RunFonts { ascii: esc(last(a, "ascii"@)), hi_ansi: esc(last(a, "hAnsi"@)), east_asia: esc(last(a, "eastAsia"@)), cs: esc(last(a, "cs"@)),
    ascii_theme: esc(last(a, "asciiTheme"@)), hi_ansi_theme: esc(last(a, "hAnsiTheme"@)), east_asia_theme: esc(last(a, "eastAsiaTheme"@)), cs_theme: esc(last(a, "cstheme"@)), hint: esc(last(a, "hint"@)) } }
//@fn reader/run_property.rs::read_run_fonts autostr r=out
//@| ensures out == Ok::<RunFonts, ReaderError>(fonts_of(av(attributes@))),
//@at start
//@| proof { broadcast use dfl::d_fonts; assert(av(attributes@).take(0) =~= Seq::<At>::empty()); }
//@loop 0 iter=it
//@| invariant f == fonts_of(av(attributes@).take(it.index@)),
//@loopstart 0
//@| proof { let s = av(attributes@); assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@)); assert(s.take(it.index@ + 1).last() == s[it.index@]); assert(s[it.index@] == (At { n: a.name.local_name@, v: a.value@ }));
//@|   reveal_strlit("ascii"); reveal_strlit("hAnsi"); reveal_strlit("eastAsia"); reveal_strlit("cs"); reveal_strlit("asciiTheme"); reveal_strlit("hAnsiTheme"); reveal_strlit("eastAsiaTheme"); reveal_strlit("cstheme"); reveal_strlit("hint"); }
//@afterloop 0
//@| proof { assert(av(attributes@).take(attributes@.len() as int) =~= av(attributes@)); }
//@end
pub open spec fn bdr_of(a: Seq<At>) -> TextBorder {
    let t = match last(a, "val"@) { Some(v) => named::<BorderType>(v)->0, None => BorderType::Single };
    let c = match last(a, "color"@) { Some(c) => c, None => "000000"@ };
    TextBorder { border_type: t, color: strv(c), size: cast::<u32, usize>(num_or(last(a, "sz"@), 4)->0), space: cast::<u32, usize>(num_or(last(a, "space"@), 0)->0) }
}
/// What one child element does to the run formatting read so far; None: outside this contract.
#[verifier::opaque] pub open spec fn step(p: RunProperty, k: XMLElement, a: Seq<At>) -> Option<RunProperty> {
    let v = first(a, "val"@);
    match k {
        XMLElement::Insert | XMLElement::Delete | XMLElement::PTab | XMLElement::RunPropertyChange => None,
        XMLElement::RunStyle => match v { Some(v) => Some(sp_RunProperty_style(p, v)), None => Some(p) },
        XMLElement::Bold => if on(a) { Some(sp_RunProperty_bold(p)) } else { Some(sp_RunProperty_disable_bold(p)) },
        XMLElement::Italic => if on(a) { Some(sp_RunProperty_italic(p)) } else { Some(sp_RunProperty_disable_italic(p)) },
        XMLElement::Caps => if on(a) { Some(sp_RunProperty_caps(p)) } else { Some(RunProperty { caps: Some(sp_Caps_disable(sp_Caps_new())), ..p }) },
        XMLElement::Strike => if on(a) { Some(sp_RunProperty_strike(p)) } else { Some(RunProperty { strike: Some(sp_Strike_disable(sp_Strike_new())), ..p }) },
        XMLElement::Dstrike => if on(a) { Some(sp_RunProperty_dstrike(p)) } else { Some(RunProperty { dstrike: Some(sp_Dstrike_disable(sp_Dstrike_new())), ..p }) },
        XMLElement::Highlight => match v { Some(v) => Some(sp_RunProperty_highlight(p, v)), None => Some(p) },
        XMLElement::Underline => match v { Some(v) => Some(sp_RunProperty_underline(p, v)), None => Some(p) },
        XMLElement::VertAlign => match v { Some(v) => match named::<VertAlignType>(v) { Some(t) => Some(sp_RunProperty_vert_align(p, t)), None => Some(p) }, None => Some(p) },
        XMLElement::Color => Some(col(p, a)),
        XMLElement::Size => match v { Some(v) => match float_to::<usize>(v) { Some(n) => Some(sp_RunProperty_size(p, n)), None => None }, None => Some(p) },
        XMLElement::Spacing => match v { Some(v) => match float_to::<i32>(v) { Some(n) => Some(sp_RunProperty_spacing(p, n)), None => Some(p) }, None => Some(p) },
        XMLElement::FitText => match v { Some(v) => match parsed::<usize>(v) { Some(n) => Some(sp_RunProperty_fit_text(p, n, match first(a, "id"@) { Some(i) => parsed::<u32>(i), None => None })), None => Some(p) }, None => Some(p) },
        XMLElement::RunFonts => Some(sp_RunProperty_fonts(p, fonts_of(a))),
        XMLElement::Shading => Some(sp_RunProperty_shading(p, shd_of(a))),
        XMLElement::Vanish => Some(sp_RunProperty_vanish(p)),
        XMLElement::SpecVanish => Some(sp_RunProperty_spec_vanish(p)),
        XMLElement::TextBorder => if bdr_fine(a) { Some(sp_RunProperty_text_border(p, bdr_of(a))) } else { None },
        _ => Some(p),
    }
}
/// Run formatting read from tokens, and the tokens after it.
pub open spec fn run(p: RunProperty, t: Seq<Tok>) -> Option<(RunProperty, Seq<Tok>)> decreases t.len() {
    if t.len() == 0 { None } else { match t[0] {
        Tok::Open(e) => match kind(e.n) { Some(k) => match step(p, k, e.a) { Some(q) => run(q, t.skip(1)), None => None }, None => None },
        Tok::Close(n) => match kind(n) { Some(k) => if k == XMLElement::RunProperty { Some((p, t.skip(1))) } else { run(p, t.skip(1)) }, None => None },
        Tok::Chars(_) => run(p, t.skip(1)),
    } }
}
//@fn <RunProperty as ElementReader>::read r=out casts
//@| ensures run(dflt::<RunProperty>(), old(r).todo()) matches Some(x) ==> out == Ok::<RunProperty, ReaderError>(x.0) && final(r).todo() == x.1,
//@attr
//@| #[verifier::exec_allows_no_decreases_clause]
//@| #[verifier::rlimit(60)]
//@loop 0
//@| invariant run(dflt::<RunProperty>(), old(r).todo()) is Some ==> run(rp, r.todo()) == run(dflt::<RunProperty>(), old(r).todo()),
//@loopstart 0
//@| proof { reveal(step); if r.todo().len() > 0 { if let Tok::Open(e) = r.todo()[0] { lemma_last(e.a, "sz"@); lemma_last(e.a, "space"@); lemma_last(e.a, "val"@); } } }
//@closure 0
//@| -> (o: Option<u32>) ensures o == parsed::<u32>(id@)
//@end


// Reading what was written.
proof fn kinds() ensures
    kind("rPr"@) == Some(XMLElement::RunProperty),
    kind("rPrChange"@) == Some(XMLElement::RunPropertyChange),
    kind("ins"@) == Some(XMLElement::Insert),
    kind("del"@) == Some(XMLElement::Delete),
    kind("ptab"@) == Some(XMLElement::PTab),
    kind("rStyle"@) == Some(XMLElement::RunStyle),
    kind("b"@) == Some(XMLElement::Bold),
    kind("bCs"@) == Some(XMLElement::BoldCs),
    kind("i"@) == Some(XMLElement::Italic),
    kind("iCs"@) == Some(XMLElement::ItalicCs),
    kind("caps"@) == Some(XMLElement::Caps),
    kind("strike"@) == Some(XMLElement::Strike),
    kind("dstrike"@) == Some(XMLElement::Dstrike),
    kind("highlight"@) == Some(XMLElement::Highlight),
    kind("u"@) == Some(XMLElement::Underline),
    kind("vertAlign"@) == Some(XMLElement::VertAlign),
    kind("color"@) == Some(XMLElement::Color),
    kind("sz"@) == Some(XMLElement::Size),
    kind("szCs"@) == Some(XMLElement::SizeCs),
    kind("spacing"@) == Some(XMLElement::Spacing),
    kind("fitText"@) == Some(XMLElement::FitText),
    kind("rFonts"@) == Some(XMLElement::RunFonts),
    kind("shd"@) == Some(XMLElement::Shading),
    kind("vanish"@) == Some(XMLElement::Vanish),
    kind("specVanish"@) == Some(XMLElement::SpecVanish),
    kind("bdr"@) == Some(XMLElement::TextBorder),
    kind("w"@) == Some(XMLElement::W),
{ reveal(kind); reveal_strlit("rPr"); reveal_strlit("rPrChange"); reveal_strlit("ins"); reveal_strlit("del"); reveal_strlit("ptab"); reveal_strlit("rStyle"); reveal_strlit("b"); reveal_strlit("bCs"); reveal_strlit("i"); reveal_strlit("iCs"); reveal_strlit("caps"); reveal_strlit("strike"); reveal_strlit("dstrike"); reveal_strlit("highlight"); reveal_strlit("u"); reveal_strlit("vertAlign"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("szCs"); reveal_strlit("spacing"); reveal_strlit("fitText"); reveal_strlit("rFonts"); reveal_strlit("shd"); reveal_strlit("vanish"); reveal_strlit("specVanish"); reveal_strlit("bdr"); reveal_strlit("w"); }
pub open spec fn ap(p: RunProperty, e: El) -> Option<RunProperty> { match kind(e.n) { Some(k) => if k == XMLElement::RunProperty { None } else { step(p, k, e.a) }, None => None } }
pub open spec fn fold(p: RunProperty, s: Seq<El>) -> Option<RunProperty> decreases s.len()
{ if s.len() == 0 { Some(p) } else { match ap(p, s[0]) { Some(q) => fold(q, s.skip(1)), None => None } } }
proof fn lemma_fold_push(p: RunProperty, s: Seq<El>, e: El)
    ensures fold(p, s.push(e)) == (match fold(p, s) { Some(q) => ap(q, e), None => None })
    decreases s.len()
{
    if s.len() == 0 { assert(s.push(e).skip(1) =~= Seq::<El>::empty()); reveal_with_fuel(fold, 3); }
    else { assert(s.push(e).skip(1) =~= s.skip(1).push(e)); if let Some(q) = ap(p, s[0]) { lemma_fold_push(q, s.skip(1), e); } }
}
proof fn lemma_run(p: RunProperty, s: Seq<El>, t: Seq<Tok>)
    ensures fold(p, s) matches Some(q) ==> run(p, flat(s) + t) == run(q, t)
    decreases s.len()
{
    if s.len() == 0 { assert(flat(s) + t =~= t); }
    else if let Some(q) = ap(p, s[0]) {
        lemma_run(q, s.skip(1), t);
        let u = flat(s) + t;
        assert(u.skip(1).skip(1) =~= flat(s.skip(1)) + t);
        assert(u[0] == Tok::Open(s[0])); assert(u.skip(1)[0] == Tok::Close(s[0].n));
        reveal_with_fuel(run, 3);
    }
}
pub open spec fn next(p: RunProperty, q: RunProperty, o: Option<El>) -> bool { match o { Some(e) => ap(p, e) == Some(q), None => p == q } }
proof fn lemma_next(p0: RunProperty, s: Seq<El>, p: RunProperty, q: RunProperty, o: Option<El>)
    requires fold(p0, s) == Some(p), next(p, q, o)
    ensures fold(p0, more(s, o)) == Some(q)
{ if let Some(e) = o { lemma_fold_push(p0, s, e); } }
proof fn lemma_on(n: Seq<char>, b: bool) ensures on(el_switch(n, b).a) == b, on(val(shown(b)@)) == b, first(Seq::<At>::empty(), "val"@) is None
{
    broadcast use codec::truth, codec::same, codec::differ;
    reveal_strlit("0"); reveal_strlit("false"); reveal_strlit("off"); reveal_strlit("true");
    lemma_val("false"@); lemma_val(shown(b)@); assert(seen(shown_of(&false)@) == shown_of(&false)@); assert(seen(shown_of(&b)@) == shown_of(&b)@);
}
/// Text that is read as it was written, as it is or by way of the escaping of a constructor.
/// Formatting that builder calls produce from text without stray markup: the parts that the builders set together agree.
pub open spec fn settled(x: RunProperty) -> bool {
    &&& x.ins is None && x.del is None && x.positional_tab is None && x.stretch is None
    &&& (match (x.sz, x.sz_cs) { (Some(a), Some(b)) => a.val == b.val && fits(a.val), (None, None) => true, _ => false })
    &&& (match (x.bold, x.bold_cs) { (Some(a), Some(b)) => a.val == b.val, (None, None) => true, _ => false })
    &&& (match (x.italic, x.italic_cs) { (Some(a), Some(b)) => a.val == b.val, (None, None) => true, _ => false })
    &&& (x.dstrike matches Some(d) ==> d.val ==> x.strike is None)
    &&& (x.color matches Some(c) ==> kept(c.val) && kept_o(c.theme_shade) && kept_o(c.theme_tint) && (c.theme_color matches Some(s) ==> exists |t: ThemeColor| t != ThemeColor::Unsupported && s == #[trigger] shown_of(&t)))
    &&& (x.highlight matches Some(h) ==> kept(h.val))
    &&& (x.underline matches Some(h) ==> kept(h.val))
    &&& (x.style matches Some(h) ==> kept_e(h.val))
    &&& (x.vert_align matches Some(v) ==> v.val != VertAlignType::Unsupported)
    &&& (x.fit_text matches Some(f) ==> fits(f.val))
    &&& (x.fonts matches Some(f) ==> kept_eo(f.ascii) && kept_eo(f.hi_ansi) && kept_eo(f.east_asia) && kept_eo(f.cs) && kept_eo(f.ascii_theme) && kept_eo(f.hi_ansi_theme) && kept_eo(f.east_asia_theme) && kept_eo(f.cs_theme) && kept_eo(f.hint))
    &&& (x.text_border matches Some(b) ==> kept(b.color) && fits32(b.size) && fits32(b.space))
    &&& (x.shading matches Some(s) ==> kept(s.color) && kept(s.fill))
}
proof fn l_sz(x: RunProperty, p: RunProperty) requires settled(x), p.sz is None, p.sz_cs is None
    ensures next(p, RunProperty { sz: x.sz, sz_cs: x.sz_cs, ..p }, o_sz(x))
{ reveal(o_sz); reveal(step); kinds(); broadcast use nums::usize_back; if let Some(v) = x.sz { lemma_val(shown(v.val)@); } }
proof fn l_sz_cs(x: RunProperty, p: RunProperty) ensures next(p, p, o_sz_cs(x)) { reveal(o_sz_cs); reveal(step); kinds(); }
proof fn l_bold_cs(x: RunProperty, p: RunProperty) ensures next(p, p, o_bold_cs(x)) { reveal(o_bold_cs); reveal(step); kinds(); }
proof fn l_italic_cs(x: RunProperty, p: RunProperty) ensures next(p, p, o_italic_cs(x)) { reveal(o_italic_cs); reveal(step); kinds(); }
proof fn l_stretch(x: RunProperty, p: RunProperty) ensures next(p, p, o_stretch(x)) { reveal(o_stretch); reveal(step); kinds(); }
proof fn l_bold(x: RunProperty, p: RunProperty) requires settled(x), p.bold is None, p.bold_cs is None
    ensures next(p, RunProperty { bold: x.bold, bold_cs: x.bold_cs, ..p }, o_bold(x))
{ reveal(o_bold); reveal(step); kinds(); broadcast use dfl::d_bold, dfl::d_bold_cs; if let Some(v) = x.bold { lemma_on("b"@, v.val); } }
proof fn l_italic(x: RunProperty, p: RunProperty) requires settled(x), p.italic is None, p.italic_cs is None
    ensures next(p, RunProperty { italic: x.italic, italic_cs: x.italic_cs, ..p }, o_italic(x))
{ reveal(o_italic); reveal(step); kinds(); broadcast use dfl::d_italic, dfl::d_italic_cs; if let Some(v) = x.italic { lemma_on("i"@, v.val); } }
proof fn l_caps(x: RunProperty, p: RunProperty) requires p.caps is None
    ensures next(p, RunProperty { caps: x.caps, ..p }, o_caps(x))
{ reveal(o_caps); reveal(step); kinds(); broadcast use dfl::d_caps; if let Some(v) = x.caps { lemma_on("caps"@, v.val); } }
proof fn l_strike(x: RunProperty, p: RunProperty) requires p.strike is None, p.dstrike is None
    ensures next(p, RunProperty { strike: x.strike, ..p }, o_strike(x))
{ reveal(o_strike); reveal(step); kinds(); broadcast use dfl::d_strike; if let Some(v) = x.strike { lemma_on("strike"@, v.val); } }
proof fn l_dstrike(x: RunProperty, p: RunProperty) requires settled(x), p.dstrike is None, p.strike == x.strike
    ensures next(p, RunProperty { dstrike: x.dstrike, ..p }, o_dstrike(x))
{ reveal(o_dstrike); reveal(step); kinds(); broadcast use dfl::d_dstrike; if let Some(v) = x.dstrike { lemma_on("dstrike"@, v.val); } }
proof fn l_highlight(x: RunProperty, p: RunProperty) requires settled(x), p.highlight is None
    ensures next(p, RunProperty { highlight: x.highlight, ..p }, o_highlight(x))
{ reveal(o_highlight); reveal(step); kinds(); if let Some(v) = x.highlight { lemma_val(v.val@); } }
proof fn l_underline(x: RunProperty, p: RunProperty) requires settled(x), p.underline is None
    ensures next(p, RunProperty { underline: x.underline, ..p }, o_underline(x))
{ reveal(o_underline); reveal(step); kinds(); if let Some(v) = x.underline { lemma_val(v.val@); } }
proof fn l_vanish(x: RunProperty, p: RunProperty) requires p.vanish is None
    ensures next(p, RunProperty { vanish: x.vanish, ..p }, o_vanish(x))
{ reveal(o_vanish); reveal(step); kinds(); if let Some(v) = x.vanish { assert(v == sp_Vanish_new()); } }
proof fn l_spec_vanish(x: RunProperty, p: RunProperty) requires p.spec_vanish is None
    ensures next(p, RunProperty { spec_vanish: x.spec_vanish, ..p }, o_spec_vanish(x))
{ reveal(o_spec_vanish); reveal(step); kinds(); if let Some(v) = x.spec_vanish { assert(v == sp_SpecVanish_new()); } }
proof fn l_vert_align(x: RunProperty, p: RunProperty) requires settled(x), p.vert_align is None
    ensures next(p, RunProperty { vert_align: x.vert_align, ..p }, o_vert_align(x))
{ reveal(o_vert_align); reveal(step); kinds(); broadcast use codec::vert; if let Some(v) = x.vert_align { lemma_val(shown(v.val)@); } }
proof fn l_character_spacing(x: RunProperty, p: RunProperty) requires p.character_spacing is None
    ensures next(p, RunProperty { character_spacing: x.character_spacing, ..p }, o_character_spacing(x))
{ reveal(o_character_spacing); reveal(step); kinds(); broadcast use nums::i32_back; if let Some(v) = x.character_spacing { lemma_val(shown(v.value)@); } }
proof fn l_style(x: RunProperty, p: RunProperty) requires settled(x), p.style is None
    ensures next(p, RunProperty { style: x.style, ..p }, o_style(x))
{ reveal(o_style); reveal(step); kinds(); if let Some(v) = x.style { lemma_val(v.val@); } }
proof fn l_fit_text(x: RunProperty, p: RunProperty) requires settled(x), p.fit_text is None
    ensures next(p, RunProperty { fit_text: x.fit_text, ..p }, o_fit_text(x))
{
    reveal(o_fit_text); reveal(step); kinds(); broadcast use nums::usize_back, nums::u32_back; reveal_strlit("val"); reveal_strlit("id");
    if let Some(f) = x.fit_text {
        lemma_val(shown(f.val)@);
        let i = match f.id { Some(i) => Some(shown(i)@), None => None };
        lemma_first_with(val(shown(f.val)@), "id"@, i, "val"@); lemma_first_with(val(shown(f.val)@), "id"@, i, "id"@);
    }
}
proof fn l_shading(x: RunProperty, p: RunProperty) requires settled(x), p.shading is None
    ensures next(p, RunProperty { shading: x.shading, ..p }, o_shading(x))
{
    reveal(o_shading); reveal(step); kinds(); broadcast use codec::shd; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("fill");
    if let Some(s) = x.shading {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(s.shd_type)@); let a2 = ats(a1, "color"@, s.color@); let a3 = ats(a2, "fill"@, s.fill@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2);
        reveal_with_fuel(shd_of, 5);
        assert(shd_of(a3) == s);
    }
}
proof fn l_text_border(x: RunProperty, p: RunProperty) requires settled(x), p.text_border is None
    ensures next(p, RunProperty { text_border: x.text_border, ..p }, o_text_border(x))
{
    reveal(o_text_border); reveal(step); kinds(); broadcast use codec::border, nums::usize_back_u32; reveal_strlit("val"); reveal_strlit("color"); reveal_strlit("sz"); reveal_strlit("space");
    if let Some(b) = x.text_border {
        let a0 = Seq::<At>::empty(); let a1 = ats(a0, "val"@, shown(b.border_type)@); let a2 = ats(a1, "sz"@, shown(b.size)@); let a3 = ats(a2, "space"@, shown(b.space)@); let a4 = ats(a3, "color"@, b.color@);
        assert(a1.drop_last() =~= a0); assert(a2.drop_last() =~= a1); assert(a3.drop_last() =~= a2); assert(a4.drop_last() =~= a3);
        reveal_with_fuel(last, 6);
        assert(a4[0] == a1[0] && a4[1] == a2[1] && a4[2] == a3[2]);
        assert(bdr_fine(a4)); assert(bdr_of(a4) == b);
    }
}
proof fn l_color(x: RunProperty, p: RunProperty) requires settled(x), p.color is None
    ensures next(p, RunProperty { color: x.color, ..p }, o_color(x))
{
    reveal(o_color); reveal(step); kinds(); broadcast use codec::theme; reveal_strlit("val"); reveal_strlit("themeColor"); reveal_strlit("themeShade"); reveal_strlit("themeTint");
    if let Some(c) = x.color {
        let a0 = val(c.val@); let a1 = with(a0, "themeColor"@, txt(c.theme_color)); let a2 = with(a1, "themeShade"@, txt(c.theme_shade)); let a3 = with(a2, "themeTint"@, txt(c.theme_tint));
        lemma_val(c.val@); assert(a0.skip(1) =~= Seq::<At>::empty()); reveal_with_fuel(first, 3);
        lemma_first_with(a0, "themeColor"@, txt(c.theme_color), "val"@); lemma_first_with(a0, "themeColor"@, txt(c.theme_color), "themeColor"@); lemma_first_with(a0, "themeColor"@, txt(c.theme_color), "themeShade"@); lemma_first_with(a0, "themeColor"@, txt(c.theme_color), "themeTint"@); lemma_first_with(a1, "themeShade"@, txt(c.theme_shade), "val"@); lemma_first_with(a1, "themeShade"@, txt(c.theme_shade), "themeColor"@); lemma_first_with(a1, "themeShade"@, txt(c.theme_shade), "themeShade"@); lemma_first_with(a1, "themeShade"@, txt(c.theme_shade), "themeTint"@); lemma_first_with(a2, "themeTint"@, txt(c.theme_tint), "val"@); lemma_first_with(a2, "themeTint"@, txt(c.theme_tint), "themeColor"@); lemma_first_with(a2, "themeTint"@, txt(c.theme_tint), "themeShade"@); lemma_first_with(a2, "themeTint"@, txt(c.theme_tint), "themeTint"@);
        assert(col(p, a3) == (RunProperty { color: x.color, ..p }));
    }
}
proof fn l_fonts(x: RunProperty, p: RunProperty) requires settled(x), p.fonts is None
    ensures next(p, RunProperty { fonts: x.fonts, ..p }, o_fonts(x))
{
    reveal(o_fonts); reveal(step); kinds(); reveal_strlit("ascii"); reveal_strlit("hAnsi"); reveal_strlit("cs"); reveal_strlit("eastAsia"); reveal_strlit("asciiTheme"); reveal_strlit("hAnsiTheme"); reveal_strlit("cstheme"); reveal_strlit("eastAsiaTheme"); reveal_strlit("hint");
    if let Some(f) = x.fonts {
        let a0 = Seq::<At>::empty();
        let a1 = with(a0, "ascii"@, txt(f.ascii)); lemma_last_with(a0, "ascii"@, txt(f.ascii), "ascii"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "hAnsi"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "cs"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "eastAsia"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "asciiTheme"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "hAnsiTheme"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "cstheme"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "eastAsiaTheme"@); lemma_last_with(a0, "ascii"@, txt(f.ascii), "hint"@);
        let a2 = with(a1, "hAnsi"@, txt(f.hi_ansi)); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "ascii"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "hAnsi"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "cs"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "eastAsia"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "asciiTheme"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "hAnsiTheme"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "cstheme"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "eastAsiaTheme"@); lemma_last_with(a1, "hAnsi"@, txt(f.hi_ansi), "hint"@);
        let a3 = with(a2, "cs"@, txt(f.cs)); lemma_last_with(a2, "cs"@, txt(f.cs), "ascii"@); lemma_last_with(a2, "cs"@, txt(f.cs), "hAnsi"@); lemma_last_with(a2, "cs"@, txt(f.cs), "cs"@); lemma_last_with(a2, "cs"@, txt(f.cs), "eastAsia"@); lemma_last_with(a2, "cs"@, txt(f.cs), "asciiTheme"@); lemma_last_with(a2, "cs"@, txt(f.cs), "hAnsiTheme"@); lemma_last_with(a2, "cs"@, txt(f.cs), "cstheme"@); lemma_last_with(a2, "cs"@, txt(f.cs), "eastAsiaTheme"@); lemma_last_with(a2, "cs"@, txt(f.cs), "hint"@);
        let a4 = with(a3, "eastAsia"@, txt(f.east_asia)); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "ascii"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "hAnsi"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "cs"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "eastAsia"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "asciiTheme"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "hAnsiTheme"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "cstheme"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "eastAsiaTheme"@); lemma_last_with(a3, "eastAsia"@, txt(f.east_asia), "hint"@);
        let a5 = with(a4, "asciiTheme"@, txt(f.ascii_theme)); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "ascii"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "hAnsi"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "cs"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "eastAsia"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "asciiTheme"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "hAnsiTheme"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "cstheme"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "eastAsiaTheme"@); lemma_last_with(a4, "asciiTheme"@, txt(f.ascii_theme), "hint"@);
        let a6 = with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme)); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "ascii"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "hAnsi"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "cs"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "eastAsia"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "asciiTheme"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "hAnsiTheme"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "cstheme"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "eastAsiaTheme"@); lemma_last_with(a5, "hAnsiTheme"@, txt(f.hi_ansi_theme), "hint"@);
        let a7 = with(a6, "cstheme"@, txt(f.cs_theme)); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "ascii"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "hAnsi"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "cs"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "eastAsia"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "asciiTheme"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "hAnsiTheme"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "cstheme"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "eastAsiaTheme"@); lemma_last_with(a6, "cstheme"@, txt(f.cs_theme), "hint"@);
        let a8 = with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme)); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "ascii"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "hAnsi"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "cs"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "eastAsia"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "asciiTheme"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "hAnsiTheme"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "cstheme"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "eastAsiaTheme"@); lemma_last_with(a7, "eastAsiaTheme"@, txt(f.east_asia_theme), "hint"@);
        let a9 = with(a8, "hint"@, txt(f.hint)); lemma_last_with(a8, "hint"@, txt(f.hint), "ascii"@); lemma_last_with(a8, "hint"@, txt(f.hint), "hAnsi"@); lemma_last_with(a8, "hint"@, txt(f.hint), "cs"@); lemma_last_with(a8, "hint"@, txt(f.hint), "eastAsia"@); lemma_last_with(a8, "hint"@, txt(f.hint), "asciiTheme"@); lemma_last_with(a8, "hint"@, txt(f.hint), "hAnsiTheme"@); lemma_last_with(a8, "hint"@, txt(f.hint), "cstheme"@); lemma_last_with(a8, "hint"@, txt(f.hint), "eastAsiaTheme"@); lemma_last_with(a8, "hint"@, txt(f.hint), "hint"@);
        assert(fonts_of(a9) == f);
    }
}
proof fn lemma_back(x: RunProperty)
    requires settled(x)
    ensures fold(no_rpr(), rpr_els(x)) == Some(x)
{
    let s0 = Seq::<El>::empty(); let p0 = no_rpr();
    let p1 = RunProperty { sz: x.sz, sz_cs: x.sz_cs, ..p0 }; let s1 = more(s0, o_sz(x)); l_sz(x, p0); lemma_next(p0, s0, p0, p1, o_sz(x));
    let s2 = more(s1, o_sz_cs(x)); l_sz_cs(x, p1); lemma_next(p0, s1, p1, p1, o_sz_cs(x));
    let p2 = RunProperty { color: x.color, ..p1 }; let s3 = more(s2, o_color(x)); l_color(x, p1); lemma_next(p0, s2, p1, p2, o_color(x));
    let p3 = RunProperty { bold: x.bold, bold_cs: x.bold_cs, ..p2 }; let s4 = more(s3, o_bold(x)); l_bold(x, p2); lemma_next(p0, s3, p2, p3, o_bold(x));
    let s5 = more(s4, o_bold_cs(x)); l_bold_cs(x, p3); lemma_next(p0, s4, p3, p3, o_bold_cs(x));
    let p4 = RunProperty { caps: x.caps, ..p3 }; let s6 = more(s5, o_caps(x)); l_caps(x, p3); lemma_next(p0, s5, p3, p4, o_caps(x));
    let p5 = RunProperty { italic: x.italic, italic_cs: x.italic_cs, ..p4 }; let s7 = more(s6, o_italic(x)); l_italic(x, p4); lemma_next(p0, s6, p4, p5, o_italic(x));
    let s8 = more(s7, o_italic_cs(x)); l_italic_cs(x, p5); lemma_next(p0, s7, p5, p5, o_italic_cs(x));
    let p6 = RunProperty { strike: x.strike, ..p5 }; let s9 = more(s8, o_strike(x)); l_strike(x, p5); lemma_next(p0, s8, p5, p6, o_strike(x));
    let p7 = RunProperty { dstrike: x.dstrike, ..p6 }; let s10 = more(s9, o_dstrike(x)); l_dstrike(x, p6); lemma_next(p0, s9, p6, p7, o_dstrike(x));
    let p8 = RunProperty { highlight: x.highlight, ..p7 }; let s11 = more(s10, o_highlight(x)); l_highlight(x, p7); lemma_next(p0, s10, p7, p8, o_highlight(x));
    let p9 = RunProperty { underline: x.underline, ..p8 }; let s12 = more(s11, o_underline(x)); l_underline(x, p8); lemma_next(p0, s11, p8, p9, o_underline(x));
    let p10 = RunProperty { vanish: x.vanish, ..p9 }; let s13 = more(s12, o_vanish(x)); l_vanish(x, p9); lemma_next(p0, s12, p9, p10, o_vanish(x));
    let p11 = RunProperty { spec_vanish: x.spec_vanish, ..p10 }; let s14 = more(s13, o_spec_vanish(x)); l_spec_vanish(x, p10); lemma_next(p0, s13, p10, p11, o_spec_vanish(x));
    let p12 = RunProperty { fonts: x.fonts, ..p11 }; let s15 = more(s14, o_fonts(x)); l_fonts(x, p11); lemma_next(p0, s14, p11, p12, o_fonts(x));
    let p13 = RunProperty { text_border: x.text_border, ..p12 }; let s16 = more(s15, o_text_border(x)); l_text_border(x, p12); lemma_next(p0, s15, p12, p13, o_text_border(x));
    let p14 = RunProperty { vert_align: x.vert_align, ..p13 }; let s17 = more(s16, o_vert_align(x)); l_vert_align(x, p13); lemma_next(p0, s16, p13, p14, o_vert_align(x));
    let p15 = RunProperty { character_spacing: x.character_spacing, ..p14 }; let s18 = more(s17, o_character_spacing(x)); l_character_spacing(x, p14); lemma_next(p0, s17, p14, p15, o_character_spacing(x));
    let p16 = RunProperty { fit_text: x.fit_text, ..p15 }; let s19 = more(s18, o_fit_text(x)); l_fit_text(x, p15); lemma_next(p0, s18, p15, p16, o_fit_text(x));
    let s20 = more(s19, o_stretch(x)); l_stretch(x, p16); lemma_next(p0, s19, p16, p16, o_stretch(x));
    let p17 = RunProperty { style: x.style, ..p16 }; let s21 = more(s20, o_style(x)); l_style(x, p16); lemma_next(p0, s20, p16, p17, o_style(x));
    let p18 = RunProperty { shading: x.shading, ..p17 }; let s22 = more(s21, o_shading(x)); l_shading(x, p17); lemma_next(p0, s21, p17, p18, o_shading(x));
    assert(p18 == x);
}
/// Run formatting that is written and then read is the same, and what follows it is read next.
pub proof fn theorem_run_formatting(x: RunProperty, log: Seq<Tok>, t: Seq<Tok>)
    requires settled(x)
    ensures rpr_onto(x, log).subrange(0, log.len() as int) == log, rpr_onto(x, log)[log.len() as int] == Tok::Open(El { n: "rPr"@, a: Seq::empty() }),
        run(dflt::<RunProperty>(), rpr_onto(x, log).skip(log.len() as int + 1) + t) == Some((x, t)),
{
    broadcast use dfl::d_rpr;
    let l = log.push(Tok::Open(El { n: "rPr"@, a: Seq::empty() })); let c = seq![Tok::Close("rPr"@)];
    lemma_onto(l, rpr_els(x)); lemma_back(x); lemma_run(no_rpr(), rpr_els(x), c + t); kinds();
    assert(rpr_onto(x, log) =~= l + flat(rpr_els(x)) + c);
    assert(rpr_onto(x, log).subrange(0, log.len() as int) =~= log);
    assert(rpr_onto(x, log).skip(log.len() as int + 1) + t =~= flat(rpr_els(x)) + (c + t));
    assert((c + t)[0] == Tok::Close("rPr"@)); assert((c + t).skip(1) =~= t);
}
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
//@fn escape/mod.rs::escape ext
//@| ensures r == escaped(text@),
//@end
//@include rp_read.rs
//@include rb_names.rs
//@include rp_names.rs
//@auto except=documents/elements/style.rs*
proof fn vx_probe() ensures false {}
fn main(){}
}
