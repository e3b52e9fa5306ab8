//@include prelude.rs
verus! {
//@include wr_pre.rs
//@include rb_spec.rs
//@include rp_spec.rs
//@include wr_head.rs
//@fn XMLBuilder::b
//@| ensures put(self, r, el_switch("b"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::b_cs
//@| ensures put(self, r, el_switch("bCs"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::i
//@| ensures put(self, r, el_switch("i"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::i_cs
//@| ensures put(self, r, el_switch("iCs"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::strike
//@| ensures put(self, r, el_switch("strike"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::dstrike
//@| ensures put(self, r, el_switch("dstrike"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::vanish
//@| ensures put(self, r, el_switch("vanish"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::spec_vanish
//@| ensures put(self, r, el_switch("specVanish"@, true)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::disable_bold
//@| ensures put(self, r, el_switch("b"@, false)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::disable_italic
//@| ensures put(self, r, el_switch("i"@, false)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::disable_strike
//@| ensures put(self, r, el_switch("strike"@, false)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::disable_dstrike
//@| ensures put(self, r, el_switch("dstrike"@, false)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::caps
//@| ensures put(self, r, el_val("caps"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::highlight
//@| ensures put(self, r, el_val("highlight"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::underline
//@| ensures put(self, r, el_val("u"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::vert_align
//@| ensures put(self, r, el_val("vertAlign"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::run_style
//@| ensures put(self, r, el_val("rStyle"@, val@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::sz
//@| ensures put(self, r, el_val("sz"@, shown(val)@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::sz_cs
//@| ensures put(self, r, el_val("szCs"@, shown(val)@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::spacing
//@| ensures put(self, r, el_val("spacing"@, shown(s)@)),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::w
//@| ensures put(self, r, el_val("w"@, shown(s)@)),
//@at start
//@| proof { names(); }
//@end
pub open spec fn ovs(s: Option<&str>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn ovr(s: Option<&String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
//@fn XMLBuilder::color_with_theme
//@| ensures put(self, r, El { n: "color"@, a: with(with(with(val0(val@), "themeColor"@, ovs(theme_color)), "themeShade"@, ovs(theme_shade)), "themeTint"@, ovs(theme_tint)) }),
//@at start
//@| proof { names(); }
//@end
pub open spec fn val0(v: Seq<char>) -> Seq<At> { val(v) }
//@fn XMLBuilder::run_fonts
//@| ensures put(self, r, El { n: "rFonts"@, a: with(with(with(with(with(with(with(with(with(Seq::empty(), "ascii"@, ovr(ascii)), "hAnsi"@, ovr(hi_ansi)), "cs"@, ovr(cs)), "eastAsia"@, ovr(east_asia)), "asciiTheme"@, ovr(ascii_theme)), "hAnsiTheme"@, ovr(hi_ansi_theme)), "cstheme"@, ovr(cs_theme)), "eastAsiaTheme"@, ovr(east_asia_theme)), "hint"@, ovr(hint)) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::text_border
//@| ensures put(self, r, El { n: "bdr"@, a: border_at(val, size, space, color@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::fit_text
//@| ensures put(self, r, El { n: "fitText"@, a: with(val0(shown(val)@), "id"@, match id { Some(i) => Some(shown(i)@), None => None }) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::shd
//@| ensures put(self, r, El { n: "shd"@, a: shd_at(arg0@, arg1@, arg2@) }),
//@at start
//@| proof { names(); }
//@end
//@fn XMLBuilder::open_run_property
//@| ensures r matches Ok(w) ==> w.log() == self.log().push(Tok::Open(El { n: "rPr"@, a: Seq::empty() })) && w.open().drop_last() == self.open() && w.open().len() > 0 && w.open().last() == "rPr"@,
//@at start
//@| proof { names(); }
//@end
pub open spec fn one(log: Seq<Tok>, e: El) -> Seq<Tok> { log.push(Tok::Open(e)).push(Tok::Close(e.n)) }
//@fn <Sz as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Sz {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("sz"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <SzCs as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for SzCs {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("szCs"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Color as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Color {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_color(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Bold as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Bold {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("b"@, self.val)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <BoldCs as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for BoldCs {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("bCs"@, true)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Caps as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Caps {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("caps"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Italic as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Italic {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("i"@, self.val)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <ItalicCs as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for ItalicCs {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("iCs"@, true)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Strike as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Strike {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("strike"@, self.val)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Dstrike as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Dstrike {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("dstrike"@, self.val)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Highlight as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Highlight {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("highlight"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Underline as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Underline {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("u"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Vanish as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Vanish {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("vanish"@, true)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <SpecVanish as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for SpecVanish {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_switch("specVanish"@, true)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <RunFonts as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for RunFonts {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_fonts(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <TextBorder as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for TextBorder {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_text_border(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <VertAlign as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for VertAlign {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("vertAlign"@, shown(self.val)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <CharacterSpacing as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for CharacterSpacing {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("spacing"@, shown(self.value)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <FitText as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for FitText {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_fit(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Stretch as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Stretch {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("w"@, shown(self.value)@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <RunStyle as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for RunStyle {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_val("rStyle"@, self.val@)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
//@fn <Shading as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.log() == self.onto(stream.log()) && w.open() == stream.open(),
//@end
impl BuildXML for Shading {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { one(log, el_shading(*self)) }
    fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { self.build_to_body(stream) }
}
// Tracked marks and positional tabs are outside; nothing is said about what is written for them.
pub uninterp spec fn other<T>(t: T, log: Seq<Tok>) -> Seq<Tok>;
impl BuildXML for Insert {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for Delete {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
impl BuildXML for PositionalTab {
    open spec fn onto(&self, log: Seq<Tok>) -> Seq<Tok> { other(*self, log) }
    #[verifier::external_body] fn build_to<W: Write>(&self, stream: EventWriter<W>) -> (r: Result<EventWriter<W>>) { unimplemented!() }
}
proof fn lemma_rpr(x: RunProperty, log: Seq<Tok>)
    ensures rpr_onto(x, log) == ({ let l = log.push(Tok::Open(El { n: "rPr"@, a: Seq::empty() }));
        let l = omore(l, o_sz(x));
        let l = omore(l, o_sz_cs(x));
        let l = omore(l, o_color(x));
        let l = omore(l, o_bold(x));
        let l = omore(l, o_bold_cs(x));
        let l = omore(l, o_caps(x));
        let l = omore(l, o_italic(x));
        let l = omore(l, o_italic_cs(x));
        let l = omore(l, o_strike(x));
        let l = omore(l, o_dstrike(x));
        let l = omore(l, o_highlight(x));
        let l = omore(l, o_underline(x));
        let l = omore(l, o_vanish(x));
        let l = omore(l, o_spec_vanish(x));
        let l = omore(l, o_fonts(x));
        let l = omore(l, o_text_border(x));
        let l = omore(l, o_vert_align(x));
        let l = omore(l, o_character_spacing(x));
        let l = omore(l, o_fit_text(x));
        let l = omore(l, o_stretch(x));
        let l = omore(l, o_style(x));
        let l = omore(l, o_shading(x));
        l.push(Tok::Close("rPr"@)) }),
{
    hide(more); hide(onto);
    let l = log.push(Tok::Open(El { n: "rPr"@, a: Seq::empty() }));
    let s = Seq::<El>::empty(); lemma_onto0(l);
    lemma_more(l, s, o_sz(x)); let s = more(s, o_sz(x));
    lemma_more(l, s, o_sz_cs(x)); let s = more(s, o_sz_cs(x));
    lemma_more(l, s, o_color(x)); let s = more(s, o_color(x));
    lemma_more(l, s, o_bold(x)); let s = more(s, o_bold(x));
    lemma_more(l, s, o_bold_cs(x)); let s = more(s, o_bold_cs(x));
    lemma_more(l, s, o_caps(x)); let s = more(s, o_caps(x));
    lemma_more(l, s, o_italic(x)); let s = more(s, o_italic(x));
    lemma_more(l, s, o_italic_cs(x)); let s = more(s, o_italic_cs(x));
    lemma_more(l, s, o_strike(x)); let s = more(s, o_strike(x));
    lemma_more(l, s, o_dstrike(x)); let s = more(s, o_dstrike(x));
    lemma_more(l, s, o_highlight(x)); let s = more(s, o_highlight(x));
    lemma_more(l, s, o_underline(x)); let s = more(s, o_underline(x));
    lemma_more(l, s, o_vanish(x)); let s = more(s, o_vanish(x));
    lemma_more(l, s, o_spec_vanish(x)); let s = more(s, o_spec_vanish(x));
    lemma_more(l, s, o_fonts(x)); let s = more(s, o_fonts(x));
    lemma_more(l, s, o_text_border(x)); let s = more(s, o_text_border(x));
    lemma_more(l, s, o_vert_align(x)); let s = more(s, o_vert_align(x));
    lemma_more(l, s, o_character_spacing(x)); let s = more(s, o_character_spacing(x));
    lemma_more(l, s, o_fit_text(x)); let s = more(s, o_fit_text(x));
    lemma_more(l, s, o_stretch(x)); let s = more(s, o_stretch(x));
    lemma_more(l, s, o_style(x)); let s = more(s, o_style(x));
    lemma_more(l, s, o_shading(x)); let s = more(s, o_shading(x));
}
proof fn lemma_kids(x: RunProperty)
    ensures forall |l: Seq<Tok>| x.ins is None ==> #[trigger] kid(x.ins, l) == l, forall |l: Seq<Tok>| x.del is None ==> #[trigger] kid(x.del, l) == l, forall |l: Seq<Tok>| x.positional_tab is None ==> #[trigger] kid(x.positional_tab, l) == l,
        forall |l: Seq<Tok>| #[trigger] kid(x.sz, l) == omore(l, o_sz(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.sz_cs, l) == omore(l, o_sz_cs(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.color, l) == omore(l, o_color(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.bold, l) == omore(l, o_bold(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.bold_cs, l) == omore(l, o_bold_cs(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.caps, l) == omore(l, o_caps(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.italic, l) == omore(l, o_italic(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.italic_cs, l) == omore(l, o_italic_cs(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.strike, l) == omore(l, o_strike(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.dstrike, l) == omore(l, o_dstrike(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.highlight, l) == omore(l, o_highlight(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.underline, l) == omore(l, o_underline(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.vanish, l) == omore(l, o_vanish(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.spec_vanish, l) == omore(l, o_spec_vanish(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.fonts, l) == omore(l, o_fonts(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.text_border, l) == omore(l, o_text_border(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.vert_align, l) == omore(l, o_vert_align(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.character_spacing, l) == omore(l, o_character_spacing(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.fit_text, l) == omore(l, o_fit_text(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.stretch, l) == omore(l, o_stretch(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.style, l) == omore(l, o_style(x)),
        forall |l: Seq<Tok>| #[trigger] kid(x.shading, l) == omore(l, o_shading(x)),
{ reveal(omore);
    assert forall |l: Seq<Tok>| #[trigger] kid(x.sz, l) == omore(l, o_sz(x)) by { reveal(kid); reveal(o_sz); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.sz_cs, l) == omore(l, o_sz_cs(x)) by { reveal(kid); reveal(o_sz_cs); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.color, l) == omore(l, o_color(x)) by { reveal(kid); reveal(o_color); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.bold, l) == omore(l, o_bold(x)) by { reveal(kid); reveal(o_bold); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.bold_cs, l) == omore(l, o_bold_cs(x)) by { reveal(kid); reveal(o_bold_cs); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.caps, l) == omore(l, o_caps(x)) by { reveal(kid); reveal(o_caps); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.italic, l) == omore(l, o_italic(x)) by { reveal(kid); reveal(o_italic); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.italic_cs, l) == omore(l, o_italic_cs(x)) by { reveal(kid); reveal(o_italic_cs); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.strike, l) == omore(l, o_strike(x)) by { reveal(kid); reveal(o_strike); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.dstrike, l) == omore(l, o_dstrike(x)) by { reveal(kid); reveal(o_dstrike); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.highlight, l) == omore(l, o_highlight(x)) by { reveal(kid); reveal(o_highlight); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.underline, l) == omore(l, o_underline(x)) by { reveal(kid); reveal(o_underline); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.vanish, l) == omore(l, o_vanish(x)) by { reveal(kid); reveal(o_vanish); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.spec_vanish, l) == omore(l, o_spec_vanish(x)) by { reveal(kid); reveal(o_spec_vanish); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.fonts, l) == omore(l, o_fonts(x)) by { reveal(kid); reveal(o_fonts); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.text_border, l) == omore(l, o_text_border(x)) by { reveal(kid); reveal(o_text_border); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.vert_align, l) == omore(l, o_vert_align(x)) by { reveal(kid); reveal(o_vert_align); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.character_spacing, l) == omore(l, o_character_spacing(x)) by { reveal(kid); reveal(o_character_spacing); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.fit_text, l) == omore(l, o_fit_text(x)) by { reveal(kid); reveal(o_fit_text); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.stretch, l) == omore(l, o_stretch(x)) by { reveal(kid); reveal(o_stretch); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.style, l) == omore(l, o_style(x)) by { reveal(kid); reveal(o_style); }
    assert forall |l: Seq<Tok>| #[trigger] kid(x.shading, l) == omore(l, o_shading(x)) by { reveal(kid); reveal(o_shading); }
    assert forall |l: Seq<Tok>| x.ins is None implies #[trigger] kid(x.ins, l) == l by { reveal(kid); }
    assert forall |l: Seq<Tok>| x.del is None implies #[trigger] kid(x.del, l) == l by { reveal(kid); }
    assert forall |l: Seq<Tok>| x.positional_tab is None implies #[trigger] kid(x.positional_tab, l) == l by { reveal(kid); }
}
//@fn <RunProperty as BuildXML>::build_to name=build_to_body
//@| ensures r matches Ok(w) ==> w.open() == stream.open() && (self.ins is None && self.del is None && self.positional_tab is None ==>
//@|     w.log() == rpr_onto(*self, stream.log())),
//@at start
//@| proof { names(); lemma_rpr(*self, stream.log()); lemma_kids(*self); }
//@end
//@include rp_write.rs
//@include rb_names.rs
//@include rp_names.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
