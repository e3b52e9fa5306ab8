pub open spec fn sp_RunStyle_new(val: Seq<char>) -> RunStyle { RunStyle { val: escaped(val) } }
//@fn RunStyle::new r=out
//@| ensures out == sp_RunStyle_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_style(this: RunProperty, style_id: Seq<char>) -> RunProperty { RunProperty { style: Some(sp_RunStyle_new(style_id)), ..this } }
//@fn RunProperty::style r=out
//@| ensures out == sp_RunProperty_style(self, style_id@),
//@end
pub open spec fn sp_Bold_new() -> Bold { dflt::<Bold>() }
//@fn Bold::new r=out
//@| ensures out == sp_Bold_new(),
//@end
pub open spec fn sp_BoldCs_new() -> BoldCs { dflt::<BoldCs>() }
//@fn BoldCs::new r=out
//@| ensures out == sp_BoldCs_new(),
//@end
pub open spec fn sp_RunProperty_bold(this: RunProperty) -> RunProperty { RunProperty { bold: Some(sp_Bold_new()), bold_cs: Some(sp_BoldCs_new()), ..this } }
//@fn RunProperty::bold r=out
//@| ensures out == sp_RunProperty_bold(self),
//@end
pub open spec fn sp_Bold_disable(this: Bold) -> Bold { Bold { val: false, ..this } }
//@fn Bold::disable r=out
//@| ensures out == sp_Bold_disable(self),
//@end
pub open spec fn sp_BoldCs_disable(this: BoldCs) -> BoldCs { BoldCs { val: false, ..this } }
//@fn BoldCs::disable r=out
//@| ensures out == sp_BoldCs_disable(self),
//@end
pub open spec fn sp_RunProperty_disable_bold(this: RunProperty) -> RunProperty { RunProperty { bold: Some(sp_Bold_disable(sp_Bold_new())), bold_cs: Some(sp_BoldCs_disable(sp_BoldCs_new())), ..this } }
//@fn RunProperty::disable_bold r=out
//@| ensures out == sp_RunProperty_disable_bold(self),
//@end
pub open spec fn sp_Caps_new() -> Caps { dflt::<Caps>() }
//@fn Caps::new r=out
//@| ensures out == sp_Caps_new(),
//@end
pub open spec fn sp_RunProperty_caps(this: RunProperty) -> RunProperty { RunProperty { caps: Some(sp_Caps_new()), ..this } }
//@fn RunProperty::caps r=out
//@| ensures out == sp_RunProperty_caps(self),
//@end
pub open spec fn sp_Highlight_new(val: Seq<char>) -> Highlight { Highlight { val: strv(val) } }
//@fn Highlight::new r=out
//@| ensures out == sp_Highlight_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_highlight(this: RunProperty, color: Seq<char>) -> RunProperty { RunProperty { highlight: Some(sp_Highlight_new(color)), ..this } }
//@fn RunProperty::highlight r=out
//@| ensures out == sp_RunProperty_highlight(self, color.chars()),
//@end
pub open spec fn sp_Strike_new() -> Strike { dflt::<Strike>() }
//@fn Strike::new r=out
//@| ensures out == sp_Strike_new(),
//@end
pub open spec fn sp_RunProperty_strike(this: RunProperty) -> RunProperty { RunProperty { dstrike: None, strike: Some(sp_Strike_new()), ..this } }
//@fn RunProperty::strike r=out
//@| ensures out == sp_RunProperty_strike(self),
//@end
pub open spec fn sp_Dstrike_new() -> Dstrike { dflt::<Dstrike>() }
//@fn Dstrike::new r=out
//@| ensures out == sp_Dstrike_new(),
//@end
pub open spec fn sp_RunProperty_dstrike(this: RunProperty) -> RunProperty { RunProperty { dstrike: Some(sp_Dstrike_new()), strike: None, ..this } }
//@fn RunProperty::dstrike r=out
//@| ensures out == sp_RunProperty_dstrike(self),
//@end
pub open spec fn sp_VertAlign_new(val: VertAlignType) -> VertAlign { VertAlign { val: val } }
//@fn VertAlign::new r=out
//@| ensures out == sp_VertAlign_new(val),
//@end
pub open spec fn sp_RunProperty_vert_align(this: RunProperty, a: VertAlignType) -> RunProperty { RunProperty { vert_align: Some(sp_VertAlign_new(a)), ..this } }
//@fn RunProperty::vert_align r=out
//@| ensures out == sp_RunProperty_vert_align(self, a),
//@end
pub open spec fn sp_Color_new(val: Seq<char>) -> Color { Color { val: strv(val), theme_color: None, theme_shade: None, theme_tint: None } }
//@fn Color::new r=out
//@| ensures out == sp_Color_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_color(this: RunProperty, color: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_new(color)), ..this } }
//@fn RunProperty::color r=out
//@| ensures out == sp_RunProperty_color(self, color.chars()),
//@end
pub open spec fn sp_Color_theme_color(this: Color, theme_color: ThemeColor) -> Color { Color { theme_color: Some(shown(theme_color)), ..this } }
//@fn Color::theme_color r=out
//@| ensures out == sp_Color_theme_color(self, theme_color),
//@end
pub open spec fn sp_RunProperty_theme_color(this: RunProperty, theme_color: ThemeColor) -> RunProperty { RunProperty { color: Some(sp_Color_theme_color((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_color)), ..this } }
//@fn RunProperty::theme_color r=out
//@| ensures out == sp_RunProperty_theme_color(self, theme_color),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Color_theme_shade(this: Color, theme_shade: Seq<char>) -> Color { Color { theme_shade: Some(strv(theme_shade)), ..this } }
//@fn Color::theme_shade r=out
//@| ensures out == sp_Color_theme_shade(self, theme_shade.chars()),
//@end
pub open spec fn sp_RunProperty_theme_shade(this: RunProperty, theme_shade: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_theme_shade((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_shade)), ..this } }
//@fn RunProperty::theme_shade r=out
//@| ensures out == sp_RunProperty_theme_shade(self, theme_shade.chars()),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Color_theme_tint(this: Color, theme_tint: Seq<char>) -> Color { Color { theme_tint: Some(strv(theme_tint)), ..this } }
//@fn Color::theme_tint r=out
//@| ensures out == sp_Color_theme_tint(self, theme_tint.chars()),
//@end
pub open spec fn sp_RunProperty_theme_tint(this: RunProperty, theme_tint: Seq<char>) -> RunProperty { RunProperty { color: Some(sp_Color_theme_tint((match this.color { Some(x) => x, None => sp_Color_new("auto"@) }), theme_tint)), ..this } }
//@fn RunProperty::theme_tint r=out
//@| ensures out == sp_RunProperty_theme_tint(self, theme_tint.chars()),
//@closure 0
//@| -> (o: Color) ensures o == sp_Color_new("auto"@)
//@end
pub open spec fn sp_Sz_new(val: usize) -> Sz { Sz { val: val } }
//@fn Sz::new r=out
//@| ensures out == sp_Sz_new(val),
//@end
pub open spec fn sp_SzCs_new(val: usize) -> SzCs { SzCs { val: val } }
//@fn SzCs::new r=out
//@| ensures out == sp_SzCs_new(val),
//@end
pub open spec fn sp_RunProperty_size(this: RunProperty, size: usize) -> RunProperty { RunProperty { sz: Some(sp_Sz_new(size)), sz_cs: Some(sp_SzCs_new(size)), ..this } }
//@fn RunProperty::size r=out
//@| ensures out == sp_RunProperty_size(self, size),
//@end
pub open spec fn sp_CharacterSpacing_new(s: i32) -> CharacterSpacing { CharacterSpacing { value: s } }
//@fn CharacterSpacing::new r=out
//@| ensures out == sp_CharacterSpacing_new(s),
//@end
pub open spec fn sp_RunProperty_spacing(this: RunProperty, spacing: i32) -> RunProperty { RunProperty { character_spacing: Some(sp_CharacterSpacing_new(spacing)), ..this } }
//@fn RunProperty::spacing r=out
//@| ensures out == sp_RunProperty_spacing(self, spacing),
//@end
pub open spec fn sp_FitText_id(this: FitText, id: u32) -> FitText { FitText { id: Some(id), ..this } }
//@fn FitText::id r=out
//@| ensures out == sp_FitText_id(self, id),
//@end
pub open spec fn sp_FitText_new(val: usize) -> FitText { FitText { val: val, id: None } }
//@fn FitText::new r=out
//@| ensures out == sp_FitText_new(val),
//@end
pub open spec fn sp_RunProperty_fit_text(this: RunProperty, val: usize, id: Option<u32>) -> RunProperty { RunProperty { fit_text: Some((match id { Some(id) => sp_FitText_id(sp_FitText_new(val), id), None => sp_FitText_new(val) })), ..this } }
//@fn RunProperty::fit_text r=out
//@| ensures out == sp_RunProperty_fit_text(self, val, id),
//@end
pub open spec fn sp_RunProperty_fonts(this: RunProperty, font: RunFonts) -> RunProperty { RunProperty { fonts: Some(font), ..this } }
//@fn RunProperty::fonts r=out
//@| ensures out == sp_RunProperty_fonts(self, font),
//@end
pub open spec fn sp_Underline_new(val: Seq<char>) -> Underline { Underline { val: strv(val) } }
//@fn Underline::new r=out
//@| ensures out == sp_Underline_new(val.chars()),
//@end
pub open spec fn sp_RunProperty_underline(this: RunProperty, line_type: Seq<char>) -> RunProperty { RunProperty { underline: Some(sp_Underline_new(line_type)), ..this } }
//@fn RunProperty::underline r=out
//@| ensures out == sp_RunProperty_underline(self, line_type.chars()),
//@end
pub open spec fn sp_Italic_new() -> Italic { dflt::<Italic>() }
//@fn Italic::new r=out
//@| ensures out == sp_Italic_new(),
//@end
pub open spec fn sp_ItalicCs_new() -> ItalicCs { dflt::<ItalicCs>() }
//@fn ItalicCs::new r=out
//@| ensures out == sp_ItalicCs_new(),
//@end
pub open spec fn sp_RunProperty_italic(this: RunProperty) -> RunProperty { RunProperty { italic: Some(sp_Italic_new()), italic_cs: Some(sp_ItalicCs_new()), ..this } }
//@fn RunProperty::italic r=out
//@| ensures out == sp_RunProperty_italic(self),
//@end
pub open spec fn sp_Italic_disable(this: Italic) -> Italic { Italic { val: false, ..this } }
//@fn Italic::disable r=out
//@| ensures out == sp_Italic_disable(self),
//@end
pub open spec fn sp_ItalicCs_disable(this: ItalicCs) -> ItalicCs { ItalicCs { val: false, ..this } }
//@fn ItalicCs::disable r=out
//@| ensures out == sp_ItalicCs_disable(self),
//@end
pub open spec fn sp_RunProperty_disable_italic(this: RunProperty) -> RunProperty { RunProperty { italic: Some(sp_Italic_disable(sp_Italic_new())), italic_cs: Some(sp_ItalicCs_disable(sp_ItalicCs_new())), ..this } }
//@fn RunProperty::disable_italic r=out
//@| ensures out == sp_RunProperty_disable_italic(self),
//@end
pub open spec fn sp_RunProperty_shading(this: RunProperty, s: Shading) -> RunProperty { RunProperty { shading: Some(s), ..this } }
//@fn RunProperty::shading r=out
//@| ensures out == sp_RunProperty_shading(self, s),
//@end
pub open spec fn sp_Vanish_new() -> Vanish { Vanish {  } }
//@fn Vanish::new r=out
//@| ensures out == sp_Vanish_new(),
//@end
pub open spec fn sp_RunProperty_vanish(this: RunProperty) -> RunProperty { RunProperty { vanish: Some(sp_Vanish_new()), ..this } }
//@fn RunProperty::vanish r=out
//@| ensures out == sp_RunProperty_vanish(self),
//@end
pub open spec fn sp_SpecVanish_new() -> SpecVanish { SpecVanish {  } }
//@fn SpecVanish::new r=out
//@| ensures out == sp_SpecVanish_new(),
//@end
pub open spec fn sp_RunProperty_spec_vanish(this: RunProperty) -> RunProperty { RunProperty { spec_vanish: Some(sp_SpecVanish_new()), ..this } }
//@fn RunProperty::spec_vanish r=out
//@| ensures out == sp_RunProperty_spec_vanish(self),
//@end
pub open spec fn sp_RunProperty_text_border(this: RunProperty, b: TextBorder) -> RunProperty { RunProperty { text_border: Some(b), ..this } }
//@fn RunProperty::text_border r=out
//@| ensures out == sp_RunProperty_text_border(self, b),
//@end
pub open spec fn sp_RunProperty_insert(this: RunProperty, i: Insert) -> RunProperty { RunProperty { ins: Some(i), ..this } }
//@fn RunProperty::insert r=out
//@| ensures out == sp_RunProperty_insert(self, i),
//@end
pub open spec fn sp_RunProperty_delete(this: RunProperty, d: Delete) -> RunProperty { RunProperty { del: Some(d), ..this } }
//@fn RunProperty::delete r=out
//@| ensures out == sp_RunProperty_delete(self, d),
//@end
pub open spec fn sp_RunProperty_ptab(this: RunProperty, ptab: PositionalTab) -> RunProperty { RunProperty { positional_tab: Some(ptab), ..this } }
//@fn RunProperty::ptab r=out
//@| ensures out == sp_RunProperty_ptab(self, ptab),
//@end
pub open spec fn sp_RunFonts_ascii(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { ascii: Some(escaped(f)), ..this } }
//@fn RunFonts::ascii r=out
//@| ensures out == sp_RunFonts_ascii(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hi_ansi(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hi_ansi: Some(escaped(f)), ..this } }
//@fn RunFonts::hi_ansi r=out
//@| ensures out == sp_RunFonts_hi_ansi(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_east_asia(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { east_asia: Some(escaped(f)), ..this } }
//@fn RunFonts::east_asia r=out
//@| ensures out == sp_RunFonts_east_asia(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_cs(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { cs: Some(escaped(f)), ..this } }
//@fn RunFonts::cs r=out
//@| ensures out == sp_RunFonts_cs(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_ascii_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { ascii_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::ascii_theme r=out
//@| ensures out == sp_RunFonts_ascii_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hi_ansi_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hi_ansi_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::hi_ansi_theme r=out
//@| ensures out == sp_RunFonts_hi_ansi_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_east_asia_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { east_asia_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::east_asia_theme r=out
//@| ensures out == sp_RunFonts_east_asia_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_cs_theme(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { cs_theme: Some(escaped(f)), ..this } }
//@fn RunFonts::cs_theme r=out
//@| ensures out == sp_RunFonts_cs_theme(self, f.chars()),
//@end
pub open spec fn sp_RunFonts_hint(this: RunFonts, f: Seq<char>) -> RunFonts { RunFonts { hint: Some(escaped(f)), ..this } }
//@fn RunFonts::hint r=out
//@| ensures out == sp_RunFonts_hint(self, f.chars()),
//@end
pub open spec fn sp_TextBorder_color(this: TextBorder, color: Seq<char>) -> TextBorder { TextBorder { color: strv(color), ..this } }
//@fn TextBorder::color r=out
//@| ensures out == sp_TextBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TextBorder_size(this: TextBorder, size: usize) -> TextBorder { TextBorder { size: size, ..this } }
//@fn TextBorder::size r=out
//@| ensures out == sp_TextBorder_size(self, size),
//@end
pub open spec fn sp_TextBorder_space(this: TextBorder, space: usize) -> TextBorder { TextBorder { space: space, ..this } }
//@fn TextBorder::space r=out
//@| ensures out == sp_TextBorder_space(self, space),
//@end
pub open spec fn sp_TextBorder_border_type(this: TextBorder, border_type: BorderType) -> TextBorder { TextBorder { border_type: border_type, ..this } }
//@fn TextBorder::border_type r=out
//@| ensures out == sp_TextBorder_border_type(self, border_type),
//@end
pub open spec fn sp_Shading_color(this: Shading, color: Seq<char>) -> Shading { Shading { color: strv(color), ..this } }
//@fn Shading::color r=out
//@| ensures out == sp_Shading_color(self, color.chars()),
//@end
pub open spec fn sp_Shading_fill(this: Shading, fill: Seq<char>) -> Shading { Shading { fill: strv(fill), ..this } }
//@fn Shading::fill r=out
//@| ensures out == sp_Shading_fill(self, fill.chars()),
//@end
pub open spec fn sp_Shading_shd_type(this: Shading, shd_type: ShdType) -> Shading { Shading { shd_type: shd_type, ..this } }
//@fn Shading::shd_type r=out
//@| ensures out == sp_Shading_shd_type(self, shd_type),
//@end
pub open spec fn sp_Caps_disable(this: Caps) -> Caps { Caps { val: false, ..this } }
//@fn Caps::disable r=out
//@| ensures out == sp_Caps_disable(self),
//@end
pub open spec fn sp_Strike_disable(this: Strike) -> Strike { Strike { val: false, ..this } }
//@fn Strike::disable r=out
//@| ensures out == sp_Strike_disable(self),
//@end
pub open spec fn sp_Dstrike_disable(this: Dstrike) -> Dstrike { Dstrike { val: false, ..this } }
//@fn Dstrike::disable r=out
//@| ensures out == sp_Dstrike_disable(self),
//@end
pub open spec fn sp_Indent_new(start: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> Indent { Indent { start: start, start_chars: start_chars, end: end, special_indent: special_indent, hanging_chars: None, first_line_chars: None } }
//@fn Indent::new r=out
//@| ensures out == sp_Indent_new(start, special_indent, end, start_chars),
//@end
pub open spec fn sp_ParagraphProperty_indent(this: ParagraphProperty, left: Option<i32>, special_indent: Option<SpecialIndentType>, end: Option<i32>, start_chars: Option<i32>) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_new(left, special_indent, end, start_chars)), ..this } }
//@fn ParagraphProperty::indent r=out
//@| ensures out == sp_ParagraphProperty_indent(self, left, special_indent, end, start_chars),
//@end
pub open spec fn sp_Indent_hanging_chars(this: Indent, chars: i32) -> Indent { Indent { hanging_chars: Some(chars), ..this } }
//@fn Indent::hanging_chars r=out
//@| ensures out == sp_Indent_hanging_chars(self, chars),
//@end
pub open spec fn sp_ParagraphProperty_hanging_chars(this: ParagraphProperty, chars: i32) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_hanging_chars((match this.indent { Some(x) => x, None => sp_Indent_new(None, None, None, None) }), chars)), ..this } }
//@fn ParagraphProperty::hanging_chars r=out
//@| ensures out == sp_ParagraphProperty_hanging_chars(self, chars),
//@closure 0
//@| -> (o: Indent) ensures o == sp_Indent_new(None, None, None, None)
//@end
pub open spec fn sp_Indent_first_line_chars(this: Indent, chars: i32) -> Indent { Indent { first_line_chars: Some(chars), ..this } }
//@fn Indent::first_line_chars r=out
//@| ensures out == sp_Indent_first_line_chars(self, chars),
//@end
pub open spec fn sp_ParagraphProperty_first_line_chars(this: ParagraphProperty, chars: i32) -> ParagraphProperty { ParagraphProperty { indent: Some(sp_Indent_first_line_chars((match this.indent { Some(x) => x, None => sp_Indent_new(None, None, None, None) }), chars)), ..this } }
//@fn ParagraphProperty::first_line_chars r=out
//@| ensures out == sp_ParagraphProperty_first_line_chars(self, chars),
//@closure 0
//@| -> (o: Indent) ensures o == sp_Indent_new(None, None, None, None)
//@end
pub open spec fn sp_ParagraphProperty_line_spacing(this: ParagraphProperty, spacing: LineSpacing) -> ParagraphProperty { ParagraphProperty { line_spacing: Some(spacing), ..this } }
//@fn ParagraphProperty::line_spacing r=out
//@| ensures out == sp_ParagraphProperty_line_spacing(self, spacing),
//@end
pub open spec fn sp_Justification_new(val: Seq<char>) -> Justification { Justification { val: strv(val) } }
//@fn Justification::new r=out
//@| ensures out == sp_Justification_new(val.chars()),
//@end
pub open spec fn sp_ParagraphProperty_align(this: ParagraphProperty, alignment_type: AlignmentType) -> ParagraphProperty { ParagraphProperty { alignment: Some(sp_Justification_new(shown(alignment_type)@)), ..this } }
//@fn ParagraphProperty::align r=out
//@| ensures out == sp_ParagraphProperty_align(self, alignment_type),
//@end
pub open spec fn sp_TextAlignment_new(val: TextAlignmentType) -> TextAlignment { TextAlignment(val) }
//@fn TextAlignment::new r=out
//@| ensures out == sp_TextAlignment_new(val),
//@end
pub open spec fn sp_ParagraphProperty_text_alignment(this: ParagraphProperty, s: TextAlignmentType) -> ParagraphProperty { ParagraphProperty { text_alignment: Some(sp_TextAlignment_new(s)), ..this } }
//@fn ParagraphProperty::text_alignment r=out
//@| ensures out == sp_ParagraphProperty_text_alignment(self, s),
//@end
pub open spec fn sp_AdjustRightInd_new(val: isize) -> AdjustRightInd { AdjustRightInd(val) }
//@fn AdjustRightInd::new r=out
//@| ensures out == sp_AdjustRightInd_new(val),
//@end
pub open spec fn sp_ParagraphProperty_adjust_right_ind(this: ParagraphProperty, s: isize) -> ParagraphProperty { ParagraphProperty { adjust_right_ind: Some(sp_AdjustRightInd_new(s)), ..this } }
//@fn ParagraphProperty::adjust_right_ind r=out
//@| ensures out == sp_ParagraphProperty_adjust_right_ind(self, s),
//@end
pub open spec fn sp_ParagraphProperty_numbering_property(this: ParagraphProperty, np: NumberingProperty) -> ParagraphProperty { ParagraphProperty { numbering_property: Some(np), ..this } }
//@fn ParagraphProperty::numbering_property r=out
//@| ensures out == sp_ParagraphProperty_numbering_property(self, np),
//@end
pub open spec fn sp_ParagraphProperty_add_tab(this: ParagraphProperty, t: Tab) -> ParagraphProperty { ParagraphProperty { tabs: vecv(this.tabs@.push(t)), ..this } }
//@fn ParagraphProperty::add_tab r=out
//@| ensures out == sp_ParagraphProperty_add_tab(self, t),
//@|   out.tabs@ == self.tabs@.push(t),
//@end
pub open spec fn sp_LineSpacing_before(this: LineSpacing, before: u32) -> LineSpacing { LineSpacing { before: Some(before), ..this } }
//@fn LineSpacing::before r=out
//@| ensures out == sp_LineSpacing_before(self, before),
//@end
pub open spec fn sp_LineSpacing_after(this: LineSpacing, after: u32) -> LineSpacing { LineSpacing { after: Some(after), ..this } }
//@fn LineSpacing::after r=out
//@| ensures out == sp_LineSpacing_after(self, after),
//@end
pub open spec fn sp_LineSpacing_line(this: LineSpacing, line: i32) -> LineSpacing { LineSpacing { line: Some(line), ..this } }
//@fn LineSpacing::line r=out
//@| ensures out == sp_LineSpacing_line(self, line),
//@end
pub open spec fn sp_LineSpacing_line_rule(this: LineSpacing, t: LineSpacingType) -> LineSpacing { LineSpacing { line_rule: Some(t), ..this } }
//@fn LineSpacing::line_rule r=out
//@| ensures out == sp_LineSpacing_line_rule(self, t),
//@end
pub open spec fn sp_LineSpacing_before_lines(this: LineSpacing, before: u32) -> LineSpacing { LineSpacing { before_lines: Some(before), ..this } }
//@fn LineSpacing::before_lines r=out
//@| ensures out == sp_LineSpacing_before_lines(self, before),
//@end
pub open spec fn sp_LineSpacing_after_lines(this: LineSpacing, after: u32) -> LineSpacing { LineSpacing { after_lines: Some(after), ..this } }
//@fn LineSpacing::after_lines r=out
//@| ensures out == sp_LineSpacing_after_lines(self, after),
//@end
pub open spec fn sp_FrameProperty_wrap(this: FrameProperty, wrap: Seq<char>) -> FrameProperty { FrameProperty { wrap: Some(strv(wrap)), ..this } }
//@fn FrameProperty::wrap r=out
//@| ensures out == sp_FrameProperty_wrap(self, wrap.chars()),
//@end
pub open spec fn sp_FrameProperty_h_rule(this: FrameProperty, r: Seq<char>) -> FrameProperty { FrameProperty { h_rule: Some(strv(r)), ..this } }
//@fn FrameProperty::h_rule r=out
//@| ensures out == sp_FrameProperty_h_rule(self, r.chars()),
//@end
pub open spec fn sp_FrameProperty_h_anchor(this: FrameProperty, anchor: Seq<char>) -> FrameProperty { FrameProperty { h_anchor: Some(strv(anchor)), ..this } }
//@fn FrameProperty::h_anchor r=out
//@| ensures out == sp_FrameProperty_h_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_FrameProperty_v_anchor(this: FrameProperty, anchor: Seq<char>) -> FrameProperty { FrameProperty { v_anchor: Some(strv(anchor)), ..this } }
//@fn FrameProperty::v_anchor r=out
//@| ensures out == sp_FrameProperty_v_anchor(self, anchor.chars()),
//@end
pub open spec fn sp_FrameProperty_x_align(this: FrameProperty, align: Seq<char>) -> FrameProperty { FrameProperty { x_align: Some(strv(align)), ..this } }
//@fn FrameProperty::x_align r=out
//@| ensures out == sp_FrameProperty_x_align(self, align.chars()),
//@end
pub open spec fn sp_FrameProperty_y_align(this: FrameProperty, align: Seq<char>) -> FrameProperty { FrameProperty { y_align: Some(strv(align)), ..this } }
//@fn FrameProperty::y_align r=out
//@| ensures out == sp_FrameProperty_y_align(self, align.chars()),
//@end
pub open spec fn sp_FrameProperty_h_space(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { h_space: Some(x), ..this } }
//@fn FrameProperty::h_space r=out
//@| ensures out == sp_FrameProperty_h_space(self, x),
//@end
pub open spec fn sp_FrameProperty_v_space(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { v_space: Some(x), ..this } }
//@fn FrameProperty::v_space r=out
//@| ensures out == sp_FrameProperty_v_space(self, x),
//@end
pub open spec fn sp_FrameProperty_x(this: FrameProperty, x: i32) -> FrameProperty { FrameProperty { x: Some(x), ..this } }
//@fn FrameProperty::x r=out
//@| ensures out == sp_FrameProperty_x(self, x),
//@end
pub open spec fn sp_FrameProperty_y(this: FrameProperty, y: i32) -> FrameProperty { FrameProperty { y: Some(y), ..this } }
//@fn FrameProperty::y r=out
//@| ensures out == sp_FrameProperty_y(self, y),
//@end
pub open spec fn sp_FrameProperty_width(this: FrameProperty, n: u32) -> FrameProperty { FrameProperty { w: Some(n), ..this } }
//@fn FrameProperty::width r=out
//@| ensures out == sp_FrameProperty_width(self, n),
//@end
pub open spec fn sp_FrameProperty_height(this: FrameProperty, n: u32) -> FrameProperty { FrameProperty { h: Some(n), ..this } }
//@fn FrameProperty::height r=out
//@| ensures out == sp_FrameProperty_height(self, n),
//@end
pub open spec fn sp_Tab_new() -> Tab { dflt::<Tab>() }
//@fn Tab::new r=out
//@| ensures out == sp_Tab_new(),
//@end
pub open spec fn sp_Tab_val(this: Tab, v: TabValueType) -> Tab { Tab { val: Some(v), ..this } }
//@fn Tab::val r=out
//@| ensures out == sp_Tab_val(self, v),
//@end
pub open spec fn sp_Tab_leader(this: Tab, v: TabLeaderType) -> Tab { Tab { leader: Some(v), ..this } }
//@fn Tab::leader r=out
//@| ensures out == sp_Tab_leader(self, v),
//@end
pub open spec fn sp_Tab_pos(this: Tab, v: usize) -> Tab { Tab { pos: Some(v), ..this } }
//@fn Tab::pos r=out
//@| ensures out == sp_Tab_pos(self, v),
//@end
pub open spec fn sp_Tabs_add_tab(this: Tabs, t: Tab) -> Tabs { Tabs { tabs: vecv(this.tabs@.push(t)), ..this } }
//@fn Tabs::add_tab r=out
//@| ensures out == sp_Tabs_add_tab(self, t),
//@|   out.tabs@ == self.tabs@.push(t),
//@end
pub open spec fn sp_NumberingProperty_new() -> NumberingProperty { dflt::<NumberingProperty>() }
//@fn NumberingProperty::new r=out
//@| ensures out == sp_NumberingProperty_new(),
//@end
pub open spec fn sp_NumberingProperty_add_num(this: NumberingProperty, id: NumberingId, level: IndentLevel) -> NumberingProperty { NumberingProperty { id: Some(id), level: Some(level), ..this } }
//@fn NumberingProperty::add_num r=out
//@| ensures out == sp_NumberingProperty_add_num(self, id, level),
//@end
pub open spec fn sp_NumberingProperty_id(this: NumberingProperty, id: NumberingId) -> NumberingProperty { NumberingProperty { id: Some(id), ..this } }
//@fn NumberingProperty::id r=out
//@| ensures out == sp_NumberingProperty_id(self, id),
//@end
pub open spec fn sp_NumberingProperty_level(this: NumberingProperty, level: IndentLevel) -> NumberingProperty { NumberingProperty { level: Some(level), ..this } }
//@fn NumberingProperty::level r=out
//@| ensures out == sp_NumberingProperty_level(self, level),
//@end
