//@include rx_spec.rs
// Run formatting: the element for each part of it.
pub open spec fn el_color(c: Color) -> El { El { n: "color"@, a: with(with(with(val(c.val@), "themeColor"@, txt(c.theme_color)), "themeShade"@, txt(c.theme_shade)), "themeTint"@, txt(c.theme_tint)) } }
pub open spec fn el_fonts(f: RunFonts) -> El { El { n: "rFonts"@, a:
    with(with(with(with(with(with(with(with(with(Seq::empty(), "ascii"@, txt(f.ascii)), "hAnsi"@, txt(f.hi_ansi)), "cs"@, txt(f.cs)), "eastAsia"@, txt(f.east_asia)),
        "asciiTheme"@, txt(f.ascii_theme)), "hAnsiTheme"@, txt(f.hi_ansi_theme)), "cstheme"@, txt(f.cs_theme)), "eastAsiaTheme"@, txt(f.east_asia_theme)), "hint"@, txt(f.hint)) } }
pub open spec fn el_text_border(b: TextBorder) -> El { El { n: "bdr"@, a: border_at(b.border_type, b.size, b.space, b.color@) } }
pub open spec fn el_fit(f: FitText) -> El { El { n: "fitText"@, a: with(val(shown(f.val)@), "id"@, match f.id { Some(i) => Some(shown(i)@), None => None }) } }
#[verifier::opaque] pub open spec fn o_sz(x: RunProperty) -> Option<El> { match x.sz { Some(v) => Some(el_val("sz"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn o_sz_cs(x: RunProperty) -> Option<El> { match x.sz_cs { Some(v) => Some(el_val("szCs"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn o_color(x: RunProperty) -> Option<El> { match x.color { Some(v) => Some(el_color(v)), None => None } }
#[verifier::opaque] pub open spec fn o_bold(x: RunProperty) -> Option<El> { match x.bold { Some(v) => Some(el_switch("b"@, v.val)), None => None } }
#[verifier::opaque] pub open spec fn o_bold_cs(x: RunProperty) -> Option<El> { match x.bold_cs { Some(v) => Some(el_switch("bCs"@, true)), None => None } }
#[verifier::opaque] pub open spec fn o_caps(x: RunProperty) -> Option<El> { match x.caps { Some(v) => Some(el_val("caps"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn o_italic(x: RunProperty) -> Option<El> { match x.italic { Some(v) => Some(el_switch("i"@, v.val)), None => None } }
#[verifier::opaque] pub open spec fn o_italic_cs(x: RunProperty) -> Option<El> { match x.italic_cs { Some(v) => Some(el_switch("iCs"@, true)), None => None } }
#[verifier::opaque] pub open spec fn o_strike(x: RunProperty) -> Option<El> { match x.strike { Some(v) => Some(el_switch("strike"@, v.val)), None => None } }
#[verifier::opaque] pub open spec fn o_dstrike(x: RunProperty) -> Option<El> { match x.dstrike { Some(v) => Some(el_switch("dstrike"@, v.val)), None => None } }
#[verifier::opaque] pub open spec fn o_highlight(x: RunProperty) -> Option<El> { match x.highlight { Some(v) => Some(el_val("highlight"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn o_underline(x: RunProperty) -> Option<El> { match x.underline { Some(v) => Some(el_val("u"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn o_vanish(x: RunProperty) -> Option<El> { match x.vanish { Some(v) => Some(el_switch("vanish"@, true)), None => None } }
#[verifier::opaque] pub open spec fn o_spec_vanish(x: RunProperty) -> Option<El> { match x.spec_vanish { Some(v) => Some(el_switch("specVanish"@, true)), None => None } }
#[verifier::opaque] pub open spec fn o_fonts(x: RunProperty) -> Option<El> { match x.fonts { Some(v) => Some(el_fonts(v)), None => None } }
#[verifier::opaque] pub open spec fn o_text_border(x: RunProperty) -> Option<El> { match x.text_border { Some(v) => Some(el_text_border(v)), None => None } }
#[verifier::opaque] pub open spec fn o_vert_align(x: RunProperty) -> Option<El> { match x.vert_align { Some(v) => Some(el_val("vertAlign"@, shown(v.val)@)), None => None } }
#[verifier::opaque] pub open spec fn o_character_spacing(x: RunProperty) -> Option<El> { match x.character_spacing { Some(v) => Some(el_val("spacing"@, shown(v.value)@)), None => None } }
#[verifier::opaque] pub open spec fn o_fit_text(x: RunProperty) -> Option<El> { match x.fit_text { Some(v) => Some(el_fit(v)), None => None } }
#[verifier::opaque] pub open spec fn o_stretch(x: RunProperty) -> Option<El> { match x.stretch { Some(v) => Some(el_val("w"@, shown(v.value)@)), None => None } }
#[verifier::opaque] pub open spec fn o_style(x: RunProperty) -> Option<El> { match x.style { Some(v) => Some(el_val("rStyle"@, v.val@)), None => None } }
#[verifier::opaque] pub open spec fn o_shading(x: RunProperty) -> Option<El> { match x.shading { Some(v) => Some(el_shading(v)), None => None } }
/// The elements of run formatting without tracked marks and positional tabs, in order.
pub open spec fn rpr_els(x: RunProperty) -> Seq<El> {
    let s = Seq::<El>::empty();
    let s = more(s, o_sz(x));
    let s = more(s, o_sz_cs(x));
    let s = more(s, o_color(x));
    let s = more(s, o_bold(x));
    let s = more(s, o_bold_cs(x));
    let s = more(s, o_caps(x));
    let s = more(s, o_italic(x));
    let s = more(s, o_italic_cs(x));
    let s = more(s, o_strike(x));
    let s = more(s, o_dstrike(x));
    let s = more(s, o_highlight(x));
    let s = more(s, o_underline(x));
    let s = more(s, o_vanish(x));
    let s = more(s, o_spec_vanish(x));
    let s = more(s, o_fonts(x));
    let s = more(s, o_text_border(x));
    let s = more(s, o_vert_align(x));
    let s = more(s, o_character_spacing(x));
    let s = more(s, o_fit_text(x));
    let s = more(s, o_stretch(x));
    let s = more(s, o_style(x));
    let s = more(s, o_shading(x));
    s
}
pub open spec fn rpr_onto(x: RunProperty, log: Seq<Tok>) -> Seq<Tok> { onto(log.push(Tok::Open(El { n: "rPr"@, a: Seq::empty() })), rpr_els(x)).push(Tok::Close("rPr"@)) }
