// Generated by tools/gen_commute.py from the specifications in builders_core.rs.
pub proof fn order_RunProperty_bold(s: RunProperty, b1_v: i32, b2_color: Seq<char>, b3_d: Delete, b8_font: RunFonts, b9_color: Seq<char>, b10_i: Insert, b12_ptab: PositionalTab, b13_s: Shading, b14_size: usize, b15_spacing: i32, b17_v: i32, b19_style_id: Seq<char>, b20_b: TextBorder, b21_theme_color: ThemeColor, b22_theme_shade: Seq<char>, b23_theme_tint: Seq<char>, b24_line_type: Seq<char>, b26_a: VertAlignType)
  ensures
    sp_RunProperty_caps(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_caps(s)),
    sp_RunProperty_character_spacing(sp_RunProperty_bold(s), b1_v) == sp_RunProperty_bold(sp_RunProperty_character_spacing(s, b1_v)),
    sp_RunProperty_color(sp_RunProperty_bold(s), b2_color) == sp_RunProperty_bold(sp_RunProperty_color(s, b2_color)),
    sp_RunProperty_delete(sp_RunProperty_bold(s), b3_d) == sp_RunProperty_bold(sp_RunProperty_delete(s, b3_d)),
    sp_RunProperty_disable_dstrike(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_disable_dstrike(s)),
    sp_RunProperty_disable_italic(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_disable_italic(s)),
    sp_RunProperty_disable_strike(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_disable_strike(s)),
    sp_RunProperty_dstrike(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_dstrike(s)),
    sp_RunProperty_fonts(sp_RunProperty_bold(s), b8_font) == sp_RunProperty_bold(sp_RunProperty_fonts(s, b8_font)),
    sp_RunProperty_highlight(sp_RunProperty_bold(s), b9_color) == sp_RunProperty_bold(sp_RunProperty_highlight(s, b9_color)),
    sp_RunProperty_insert(sp_RunProperty_bold(s), b10_i) == sp_RunProperty_bold(sp_RunProperty_insert(s, b10_i)),
    sp_RunProperty_italic(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_bold(s), b12_ptab) == sp_RunProperty_bold(sp_RunProperty_ptab(s, b12_ptab)),
    sp_RunProperty_shading(sp_RunProperty_bold(s), b13_s) == sp_RunProperty_bold(sp_RunProperty_shading(s, b13_s)),
    sp_RunProperty_size(sp_RunProperty_bold(s), b14_size) == sp_RunProperty_bold(sp_RunProperty_size(s, b14_size)),
    sp_RunProperty_spacing(sp_RunProperty_bold(s), b15_spacing) == sp_RunProperty_bold(sp_RunProperty_spacing(s, b15_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_bold(s), b17_v) == sp_RunProperty_bold(sp_RunProperty_stretch(s, b17_v)),
    sp_RunProperty_strike(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_bold(s), b19_style_id) == sp_RunProperty_bold(sp_RunProperty_style(s, b19_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_bold(s), b20_b) == sp_RunProperty_bold(sp_RunProperty_text_border(s, b20_b)),
    sp_RunProperty_theme_color(sp_RunProperty_bold(s), b21_theme_color) == sp_RunProperty_bold(sp_RunProperty_theme_color(s, b21_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_bold(s), b22_theme_shade) == sp_RunProperty_bold(sp_RunProperty_theme_shade(s, b22_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_bold(s), b23_theme_tint) == sp_RunProperty_bold(sp_RunProperty_theme_tint(s, b23_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_bold(s), b24_line_type) == sp_RunProperty_bold(sp_RunProperty_underline(s, b24_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_bold(s)) == sp_RunProperty_bold(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_bold(s), b26_a) == sp_RunProperty_bold(sp_RunProperty_vert_align(s, b26_a)),
{}
pub proof fn order_RunProperty_caps(s: RunProperty, b0_v: i32, b1_color: Seq<char>, b2_d: Delete, b8_font: RunFonts, b9_color: Seq<char>, b10_i: Insert, b12_ptab: PositionalTab, b13_s: Shading, b14_size: usize, b15_spacing: i32, b17_v: i32, b19_style_id: Seq<char>, b20_b: TextBorder, b21_theme_color: ThemeColor, b22_theme_shade: Seq<char>, b23_theme_tint: Seq<char>, b24_line_type: Seq<char>, b26_a: VertAlignType)
  ensures
    sp_RunProperty_character_spacing(sp_RunProperty_caps(s), b0_v) == sp_RunProperty_caps(sp_RunProperty_character_spacing(s, b0_v)),
    sp_RunProperty_color(sp_RunProperty_caps(s), b1_color) == sp_RunProperty_caps(sp_RunProperty_color(s, b1_color)),
    sp_RunProperty_delete(sp_RunProperty_caps(s), b2_d) == sp_RunProperty_caps(sp_RunProperty_delete(s, b2_d)),
    sp_RunProperty_disable_bold(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_disable_bold(s)),
    sp_RunProperty_disable_dstrike(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_disable_dstrike(s)),
    sp_RunProperty_disable_italic(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_disable_italic(s)),
    sp_RunProperty_disable_strike(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_disable_strike(s)),
    sp_RunProperty_dstrike(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_dstrike(s)),
    sp_RunProperty_fonts(sp_RunProperty_caps(s), b8_font) == sp_RunProperty_caps(sp_RunProperty_fonts(s, b8_font)),
    sp_RunProperty_highlight(sp_RunProperty_caps(s), b9_color) == sp_RunProperty_caps(sp_RunProperty_highlight(s, b9_color)),
    sp_RunProperty_insert(sp_RunProperty_caps(s), b10_i) == sp_RunProperty_caps(sp_RunProperty_insert(s, b10_i)),
    sp_RunProperty_italic(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_caps(s), b12_ptab) == sp_RunProperty_caps(sp_RunProperty_ptab(s, b12_ptab)),
    sp_RunProperty_shading(sp_RunProperty_caps(s), b13_s) == sp_RunProperty_caps(sp_RunProperty_shading(s, b13_s)),
    sp_RunProperty_size(sp_RunProperty_caps(s), b14_size) == sp_RunProperty_caps(sp_RunProperty_size(s, b14_size)),
    sp_RunProperty_spacing(sp_RunProperty_caps(s), b15_spacing) == sp_RunProperty_caps(sp_RunProperty_spacing(s, b15_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_caps(s), b17_v) == sp_RunProperty_caps(sp_RunProperty_stretch(s, b17_v)),
    sp_RunProperty_strike(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_caps(s), b19_style_id) == sp_RunProperty_caps(sp_RunProperty_style(s, b19_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_caps(s), b20_b) == sp_RunProperty_caps(sp_RunProperty_text_border(s, b20_b)),
    sp_RunProperty_theme_color(sp_RunProperty_caps(s), b21_theme_color) == sp_RunProperty_caps(sp_RunProperty_theme_color(s, b21_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_caps(s), b22_theme_shade) == sp_RunProperty_caps(sp_RunProperty_theme_shade(s, b22_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_caps(s), b23_theme_tint) == sp_RunProperty_caps(sp_RunProperty_theme_tint(s, b23_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_caps(s), b24_line_type) == sp_RunProperty_caps(sp_RunProperty_underline(s, b24_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_caps(s)) == sp_RunProperty_caps(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_caps(s), b26_a) == sp_RunProperty_caps(sp_RunProperty_vert_align(s, b26_a)),
{}
pub proof fn order_RunProperty_character_spacing(s: RunProperty, a_v: i32, b0_color: Seq<char>, b1_d: Delete, b7_font: RunFonts, b8_color: Seq<char>, b9_i: Insert, b11_ptab: PositionalTab, b12_s: Shading, b13_size: usize, b15_v: i32, b17_style_id: Seq<char>, b18_b: TextBorder, b19_theme_color: ThemeColor, b20_theme_shade: Seq<char>, b21_theme_tint: Seq<char>, b22_line_type: Seq<char>, b24_a: VertAlignType)
  ensures
    sp_RunProperty_color(sp_RunProperty_character_spacing(s, a_v), b0_color) == sp_RunProperty_character_spacing(sp_RunProperty_color(s, b0_color), a_v),
    sp_RunProperty_delete(sp_RunProperty_character_spacing(s, a_v), b1_d) == sp_RunProperty_character_spacing(sp_RunProperty_delete(s, b1_d), a_v),
    sp_RunProperty_disable_bold(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_disable_bold(s), a_v),
    sp_RunProperty_disable_dstrike(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_disable_dstrike(s), a_v),
    sp_RunProperty_disable_italic(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_disable_italic(s), a_v),
    sp_RunProperty_disable_strike(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_disable_strike(s), a_v),
    sp_RunProperty_dstrike(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_dstrike(s), a_v),
    sp_RunProperty_fonts(sp_RunProperty_character_spacing(s, a_v), b7_font) == sp_RunProperty_character_spacing(sp_RunProperty_fonts(s, b7_font), a_v),
    sp_RunProperty_highlight(sp_RunProperty_character_spacing(s, a_v), b8_color) == sp_RunProperty_character_spacing(sp_RunProperty_highlight(s, b8_color), a_v),
    sp_RunProperty_insert(sp_RunProperty_character_spacing(s, a_v), b9_i) == sp_RunProperty_character_spacing(sp_RunProperty_insert(s, b9_i), a_v),
    sp_RunProperty_italic(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_italic(s), a_v),
    sp_RunProperty_ptab(sp_RunProperty_character_spacing(s, a_v), b11_ptab) == sp_RunProperty_character_spacing(sp_RunProperty_ptab(s, b11_ptab), a_v),
    sp_RunProperty_shading(sp_RunProperty_character_spacing(s, a_v), b12_s) == sp_RunProperty_character_spacing(sp_RunProperty_shading(s, b12_s), a_v),
    sp_RunProperty_size(sp_RunProperty_character_spacing(s, a_v), b13_size) == sp_RunProperty_character_spacing(sp_RunProperty_size(s, b13_size), a_v),
    sp_RunProperty_spec_vanish(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_spec_vanish(s), a_v),
    sp_RunProperty_stretch(sp_RunProperty_character_spacing(s, a_v), b15_v) == sp_RunProperty_character_spacing(sp_RunProperty_stretch(s, b15_v), a_v),
    sp_RunProperty_strike(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_strike(s), a_v),
    sp_RunProperty_style(sp_RunProperty_character_spacing(s, a_v), b17_style_id) == sp_RunProperty_character_spacing(sp_RunProperty_style(s, b17_style_id), a_v),
    sp_RunProperty_text_border(sp_RunProperty_character_spacing(s, a_v), b18_b) == sp_RunProperty_character_spacing(sp_RunProperty_text_border(s, b18_b), a_v),
    sp_RunProperty_theme_color(sp_RunProperty_character_spacing(s, a_v), b19_theme_color) == sp_RunProperty_character_spacing(sp_RunProperty_theme_color(s, b19_theme_color), a_v),
    sp_RunProperty_theme_shade(sp_RunProperty_character_spacing(s, a_v), b20_theme_shade) == sp_RunProperty_character_spacing(sp_RunProperty_theme_shade(s, b20_theme_shade), a_v),
    sp_RunProperty_theme_tint(sp_RunProperty_character_spacing(s, a_v), b21_theme_tint) == sp_RunProperty_character_spacing(sp_RunProperty_theme_tint(s, b21_theme_tint), a_v),
    sp_RunProperty_underline(sp_RunProperty_character_spacing(s, a_v), b22_line_type) == sp_RunProperty_character_spacing(sp_RunProperty_underline(s, b22_line_type), a_v),
    sp_RunProperty_vanish(sp_RunProperty_character_spacing(s, a_v)) == sp_RunProperty_character_spacing(sp_RunProperty_vanish(s), a_v),
    sp_RunProperty_vert_align(sp_RunProperty_character_spacing(s, a_v), b24_a) == sp_RunProperty_character_spacing(sp_RunProperty_vert_align(s, b24_a), a_v),
{}
pub proof fn order_RunProperty_color(s: RunProperty, a_color: Seq<char>, b0_d: Delete, b6_font: RunFonts, b7_color: Seq<char>, b8_i: Insert, b10_ptab: PositionalTab, b11_s: Shading, b12_size: usize, b13_spacing: i32, b15_v: i32, b17_style_id: Seq<char>, b18_b: TextBorder, b19_line_type: Seq<char>, b21_a: VertAlignType)
  ensures
    sp_RunProperty_delete(sp_RunProperty_color(s, a_color), b0_d) == sp_RunProperty_color(sp_RunProperty_delete(s, b0_d), a_color),
    sp_RunProperty_disable_bold(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_disable_bold(s), a_color),
    sp_RunProperty_disable_dstrike(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_disable_dstrike(s), a_color),
    sp_RunProperty_disable_italic(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_disable_italic(s), a_color),
    sp_RunProperty_disable_strike(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_disable_strike(s), a_color),
    sp_RunProperty_dstrike(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_dstrike(s), a_color),
    sp_RunProperty_fonts(sp_RunProperty_color(s, a_color), b6_font) == sp_RunProperty_color(sp_RunProperty_fonts(s, b6_font), a_color),
    sp_RunProperty_highlight(sp_RunProperty_color(s, a_color), b7_color) == sp_RunProperty_color(sp_RunProperty_highlight(s, b7_color), a_color),
    sp_RunProperty_insert(sp_RunProperty_color(s, a_color), b8_i) == sp_RunProperty_color(sp_RunProperty_insert(s, b8_i), a_color),
    sp_RunProperty_italic(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_italic(s), a_color),
    sp_RunProperty_ptab(sp_RunProperty_color(s, a_color), b10_ptab) == sp_RunProperty_color(sp_RunProperty_ptab(s, b10_ptab), a_color),
    sp_RunProperty_shading(sp_RunProperty_color(s, a_color), b11_s) == sp_RunProperty_color(sp_RunProperty_shading(s, b11_s), a_color),
    sp_RunProperty_size(sp_RunProperty_color(s, a_color), b12_size) == sp_RunProperty_color(sp_RunProperty_size(s, b12_size), a_color),
    sp_RunProperty_spacing(sp_RunProperty_color(s, a_color), b13_spacing) == sp_RunProperty_color(sp_RunProperty_spacing(s, b13_spacing), a_color),
    sp_RunProperty_spec_vanish(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_spec_vanish(s), a_color),
    sp_RunProperty_stretch(sp_RunProperty_color(s, a_color), b15_v) == sp_RunProperty_color(sp_RunProperty_stretch(s, b15_v), a_color),
    sp_RunProperty_strike(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_strike(s), a_color),
    sp_RunProperty_style(sp_RunProperty_color(s, a_color), b17_style_id) == sp_RunProperty_color(sp_RunProperty_style(s, b17_style_id), a_color),
    sp_RunProperty_text_border(sp_RunProperty_color(s, a_color), b18_b) == sp_RunProperty_color(sp_RunProperty_text_border(s, b18_b), a_color),
    sp_RunProperty_underline(sp_RunProperty_color(s, a_color), b19_line_type) == sp_RunProperty_color(sp_RunProperty_underline(s, b19_line_type), a_color),
    sp_RunProperty_vanish(sp_RunProperty_color(s, a_color)) == sp_RunProperty_color(sp_RunProperty_vanish(s), a_color),
    sp_RunProperty_vert_align(sp_RunProperty_color(s, a_color), b21_a) == sp_RunProperty_color(sp_RunProperty_vert_align(s, b21_a), a_color),
{}
pub proof fn order_RunProperty_delete(s: RunProperty, a_d: Delete, b5_font: RunFonts, b6_color: Seq<char>, b7_i: Insert, b9_ptab: PositionalTab, b10_s: Shading, b11_size: usize, b12_spacing: i32, b14_v: i32, b16_style_id: Seq<char>, b17_b: TextBorder, b18_theme_color: ThemeColor, b19_theme_shade: Seq<char>, b20_theme_tint: Seq<char>, b21_line_type: Seq<char>, b23_a: VertAlignType)
  ensures
    sp_RunProperty_disable_bold(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_disable_bold(s), a_d),
    sp_RunProperty_disable_dstrike(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_disable_dstrike(s), a_d),
    sp_RunProperty_disable_italic(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_disable_italic(s), a_d),
    sp_RunProperty_disable_strike(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_disable_strike(s), a_d),
    sp_RunProperty_dstrike(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_dstrike(s), a_d),
    sp_RunProperty_fonts(sp_RunProperty_delete(s, a_d), b5_font) == sp_RunProperty_delete(sp_RunProperty_fonts(s, b5_font), a_d),
    sp_RunProperty_highlight(sp_RunProperty_delete(s, a_d), b6_color) == sp_RunProperty_delete(sp_RunProperty_highlight(s, b6_color), a_d),
    sp_RunProperty_insert(sp_RunProperty_delete(s, a_d), b7_i) == sp_RunProperty_delete(sp_RunProperty_insert(s, b7_i), a_d),
    sp_RunProperty_italic(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_italic(s), a_d),
    sp_RunProperty_ptab(sp_RunProperty_delete(s, a_d), b9_ptab) == sp_RunProperty_delete(sp_RunProperty_ptab(s, b9_ptab), a_d),
    sp_RunProperty_shading(sp_RunProperty_delete(s, a_d), b10_s) == sp_RunProperty_delete(sp_RunProperty_shading(s, b10_s), a_d),
    sp_RunProperty_size(sp_RunProperty_delete(s, a_d), b11_size) == sp_RunProperty_delete(sp_RunProperty_size(s, b11_size), a_d),
    sp_RunProperty_spacing(sp_RunProperty_delete(s, a_d), b12_spacing) == sp_RunProperty_delete(sp_RunProperty_spacing(s, b12_spacing), a_d),
    sp_RunProperty_spec_vanish(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_spec_vanish(s), a_d),
    sp_RunProperty_stretch(sp_RunProperty_delete(s, a_d), b14_v) == sp_RunProperty_delete(sp_RunProperty_stretch(s, b14_v), a_d),
    sp_RunProperty_strike(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_strike(s), a_d),
    sp_RunProperty_style(sp_RunProperty_delete(s, a_d), b16_style_id) == sp_RunProperty_delete(sp_RunProperty_style(s, b16_style_id), a_d),
    sp_RunProperty_text_border(sp_RunProperty_delete(s, a_d), b17_b) == sp_RunProperty_delete(sp_RunProperty_text_border(s, b17_b), a_d),
    sp_RunProperty_theme_color(sp_RunProperty_delete(s, a_d), b18_theme_color) == sp_RunProperty_delete(sp_RunProperty_theme_color(s, b18_theme_color), a_d),
    sp_RunProperty_theme_shade(sp_RunProperty_delete(s, a_d), b19_theme_shade) == sp_RunProperty_delete(sp_RunProperty_theme_shade(s, b19_theme_shade), a_d),
    sp_RunProperty_theme_tint(sp_RunProperty_delete(s, a_d), b20_theme_tint) == sp_RunProperty_delete(sp_RunProperty_theme_tint(s, b20_theme_tint), a_d),
    sp_RunProperty_underline(sp_RunProperty_delete(s, a_d), b21_line_type) == sp_RunProperty_delete(sp_RunProperty_underline(s, b21_line_type), a_d),
    sp_RunProperty_vanish(sp_RunProperty_delete(s, a_d)) == sp_RunProperty_delete(sp_RunProperty_vanish(s), a_d),
    sp_RunProperty_vert_align(sp_RunProperty_delete(s, a_d), b23_a) == sp_RunProperty_delete(sp_RunProperty_vert_align(s, b23_a), a_d),
{}
pub proof fn order_RunProperty_disable_bold(s: RunProperty, b4_font: RunFonts, b5_color: Seq<char>, b6_i: Insert, b8_ptab: PositionalTab, b9_s: Shading, b10_size: usize, b11_spacing: i32, b13_v: i32, b15_style_id: Seq<char>, b16_b: TextBorder, b17_theme_color: ThemeColor, b18_theme_shade: Seq<char>, b19_theme_tint: Seq<char>, b20_line_type: Seq<char>, b22_a: VertAlignType)
  ensures
    sp_RunProperty_disable_dstrike(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_disable_dstrike(s)),
    sp_RunProperty_disable_italic(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_disable_italic(s)),
    sp_RunProperty_disable_strike(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_disable_strike(s)),
    sp_RunProperty_dstrike(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_dstrike(s)),
    sp_RunProperty_fonts(sp_RunProperty_disable_bold(s), b4_font) == sp_RunProperty_disable_bold(sp_RunProperty_fonts(s, b4_font)),
    sp_RunProperty_highlight(sp_RunProperty_disable_bold(s), b5_color) == sp_RunProperty_disable_bold(sp_RunProperty_highlight(s, b5_color)),
    sp_RunProperty_insert(sp_RunProperty_disable_bold(s), b6_i) == sp_RunProperty_disable_bold(sp_RunProperty_insert(s, b6_i)),
    sp_RunProperty_italic(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_disable_bold(s), b8_ptab) == sp_RunProperty_disable_bold(sp_RunProperty_ptab(s, b8_ptab)),
    sp_RunProperty_shading(sp_RunProperty_disable_bold(s), b9_s) == sp_RunProperty_disable_bold(sp_RunProperty_shading(s, b9_s)),
    sp_RunProperty_size(sp_RunProperty_disable_bold(s), b10_size) == sp_RunProperty_disable_bold(sp_RunProperty_size(s, b10_size)),
    sp_RunProperty_spacing(sp_RunProperty_disable_bold(s), b11_spacing) == sp_RunProperty_disable_bold(sp_RunProperty_spacing(s, b11_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_disable_bold(s), b13_v) == sp_RunProperty_disable_bold(sp_RunProperty_stretch(s, b13_v)),
    sp_RunProperty_strike(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_disable_bold(s), b15_style_id) == sp_RunProperty_disable_bold(sp_RunProperty_style(s, b15_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_disable_bold(s), b16_b) == sp_RunProperty_disable_bold(sp_RunProperty_text_border(s, b16_b)),
    sp_RunProperty_theme_color(sp_RunProperty_disable_bold(s), b17_theme_color) == sp_RunProperty_disable_bold(sp_RunProperty_theme_color(s, b17_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_disable_bold(s), b18_theme_shade) == sp_RunProperty_disable_bold(sp_RunProperty_theme_shade(s, b18_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_disable_bold(s), b19_theme_tint) == sp_RunProperty_disable_bold(sp_RunProperty_theme_tint(s, b19_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_disable_bold(s), b20_line_type) == sp_RunProperty_disable_bold(sp_RunProperty_underline(s, b20_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_disable_bold(s)) == sp_RunProperty_disable_bold(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_disable_bold(s), b22_a) == sp_RunProperty_disable_bold(sp_RunProperty_vert_align(s, b22_a)),
{}
pub proof fn order_RunProperty_disable_dstrike(s: RunProperty, b2_font: RunFonts, b3_color: Seq<char>, b4_i: Insert, b6_ptab: PositionalTab, b7_s: Shading, b8_size: usize, b9_spacing: i32, b11_v: i32, b12_style_id: Seq<char>, b13_b: TextBorder, b14_theme_color: ThemeColor, b15_theme_shade: Seq<char>, b16_theme_tint: Seq<char>, b17_line_type: Seq<char>, b19_a: VertAlignType)
  ensures
    sp_RunProperty_disable_italic(sp_RunProperty_disable_dstrike(s)) == sp_RunProperty_disable_dstrike(sp_RunProperty_disable_italic(s)),
    sp_RunProperty_disable_strike(sp_RunProperty_disable_dstrike(s)) == sp_RunProperty_disable_dstrike(sp_RunProperty_disable_strike(s)),
    sp_RunProperty_fonts(sp_RunProperty_disable_dstrike(s), b2_font) == sp_RunProperty_disable_dstrike(sp_RunProperty_fonts(s, b2_font)),
    sp_RunProperty_highlight(sp_RunProperty_disable_dstrike(s), b3_color) == sp_RunProperty_disable_dstrike(sp_RunProperty_highlight(s, b3_color)),
    sp_RunProperty_insert(sp_RunProperty_disable_dstrike(s), b4_i) == sp_RunProperty_disable_dstrike(sp_RunProperty_insert(s, b4_i)),
    sp_RunProperty_italic(sp_RunProperty_disable_dstrike(s)) == sp_RunProperty_disable_dstrike(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_disable_dstrike(s), b6_ptab) == sp_RunProperty_disable_dstrike(sp_RunProperty_ptab(s, b6_ptab)),
    sp_RunProperty_shading(sp_RunProperty_disable_dstrike(s), b7_s) == sp_RunProperty_disable_dstrike(sp_RunProperty_shading(s, b7_s)),
    sp_RunProperty_size(sp_RunProperty_disable_dstrike(s), b8_size) == sp_RunProperty_disable_dstrike(sp_RunProperty_size(s, b8_size)),
    sp_RunProperty_spacing(sp_RunProperty_disable_dstrike(s), b9_spacing) == sp_RunProperty_disable_dstrike(sp_RunProperty_spacing(s, b9_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_disable_dstrike(s)) == sp_RunProperty_disable_dstrike(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_disable_dstrike(s), b11_v) == sp_RunProperty_disable_dstrike(sp_RunProperty_stretch(s, b11_v)),
    sp_RunProperty_style(sp_RunProperty_disable_dstrike(s), b12_style_id) == sp_RunProperty_disable_dstrike(sp_RunProperty_style(s, b12_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_disable_dstrike(s), b13_b) == sp_RunProperty_disable_dstrike(sp_RunProperty_text_border(s, b13_b)),
    sp_RunProperty_theme_color(sp_RunProperty_disable_dstrike(s), b14_theme_color) == sp_RunProperty_disable_dstrike(sp_RunProperty_theme_color(s, b14_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_disable_dstrike(s), b15_theme_shade) == sp_RunProperty_disable_dstrike(sp_RunProperty_theme_shade(s, b15_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_disable_dstrike(s), b16_theme_tint) == sp_RunProperty_disable_dstrike(sp_RunProperty_theme_tint(s, b16_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_disable_dstrike(s), b17_line_type) == sp_RunProperty_disable_dstrike(sp_RunProperty_underline(s, b17_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_disable_dstrike(s)) == sp_RunProperty_disable_dstrike(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_disable_dstrike(s), b19_a) == sp_RunProperty_disable_dstrike(sp_RunProperty_vert_align(s, b19_a)),
{}
pub proof fn order_RunProperty_disable_italic(s: RunProperty, b2_font: RunFonts, b3_color: Seq<char>, b4_i: Insert, b5_ptab: PositionalTab, b6_s: Shading, b7_size: usize, b8_spacing: i32, b10_v: i32, b12_style_id: Seq<char>, b13_b: TextBorder, b14_theme_color: ThemeColor, b15_theme_shade: Seq<char>, b16_theme_tint: Seq<char>, b17_line_type: Seq<char>, b19_a: VertAlignType)
  ensures
    sp_RunProperty_disable_strike(sp_RunProperty_disable_italic(s)) == sp_RunProperty_disable_italic(sp_RunProperty_disable_strike(s)),
    sp_RunProperty_dstrike(sp_RunProperty_disable_italic(s)) == sp_RunProperty_disable_italic(sp_RunProperty_dstrike(s)),
    sp_RunProperty_fonts(sp_RunProperty_disable_italic(s), b2_font) == sp_RunProperty_disable_italic(sp_RunProperty_fonts(s, b2_font)),
    sp_RunProperty_highlight(sp_RunProperty_disable_italic(s), b3_color) == sp_RunProperty_disable_italic(sp_RunProperty_highlight(s, b3_color)),
    sp_RunProperty_insert(sp_RunProperty_disable_italic(s), b4_i) == sp_RunProperty_disable_italic(sp_RunProperty_insert(s, b4_i)),
    sp_RunProperty_ptab(sp_RunProperty_disable_italic(s), b5_ptab) == sp_RunProperty_disable_italic(sp_RunProperty_ptab(s, b5_ptab)),
    sp_RunProperty_shading(sp_RunProperty_disable_italic(s), b6_s) == sp_RunProperty_disable_italic(sp_RunProperty_shading(s, b6_s)),
    sp_RunProperty_size(sp_RunProperty_disable_italic(s), b7_size) == sp_RunProperty_disable_italic(sp_RunProperty_size(s, b7_size)),
    sp_RunProperty_spacing(sp_RunProperty_disable_italic(s), b8_spacing) == sp_RunProperty_disable_italic(sp_RunProperty_spacing(s, b8_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_disable_italic(s)) == sp_RunProperty_disable_italic(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_disable_italic(s), b10_v) == sp_RunProperty_disable_italic(sp_RunProperty_stretch(s, b10_v)),
    sp_RunProperty_strike(sp_RunProperty_disable_italic(s)) == sp_RunProperty_disable_italic(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_disable_italic(s), b12_style_id) == sp_RunProperty_disable_italic(sp_RunProperty_style(s, b12_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_disable_italic(s), b13_b) == sp_RunProperty_disable_italic(sp_RunProperty_text_border(s, b13_b)),
    sp_RunProperty_theme_color(sp_RunProperty_disable_italic(s), b14_theme_color) == sp_RunProperty_disable_italic(sp_RunProperty_theme_color(s, b14_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_disable_italic(s), b15_theme_shade) == sp_RunProperty_disable_italic(sp_RunProperty_theme_shade(s, b15_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_disable_italic(s), b16_theme_tint) == sp_RunProperty_disable_italic(sp_RunProperty_theme_tint(s, b16_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_disable_italic(s), b17_line_type) == sp_RunProperty_disable_italic(sp_RunProperty_underline(s, b17_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_disable_italic(s)) == sp_RunProperty_disable_italic(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_disable_italic(s), b19_a) == sp_RunProperty_disable_italic(sp_RunProperty_vert_align(s, b19_a)),
{}
pub proof fn order_RunProperty_disable_strike(s: RunProperty, b0_font: RunFonts, b1_color: Seq<char>, b2_i: Insert, b4_ptab: PositionalTab, b5_s: Shading, b6_size: usize, b7_spacing: i32, b9_v: i32, b10_style_id: Seq<char>, b11_b: TextBorder, b12_theme_color: ThemeColor, b13_theme_shade: Seq<char>, b14_theme_tint: Seq<char>, b15_line_type: Seq<char>, b17_a: VertAlignType)
  ensures
    sp_RunProperty_fonts(sp_RunProperty_disable_strike(s), b0_font) == sp_RunProperty_disable_strike(sp_RunProperty_fonts(s, b0_font)),
    sp_RunProperty_highlight(sp_RunProperty_disable_strike(s), b1_color) == sp_RunProperty_disable_strike(sp_RunProperty_highlight(s, b1_color)),
    sp_RunProperty_insert(sp_RunProperty_disable_strike(s), b2_i) == sp_RunProperty_disable_strike(sp_RunProperty_insert(s, b2_i)),
    sp_RunProperty_italic(sp_RunProperty_disable_strike(s)) == sp_RunProperty_disable_strike(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_disable_strike(s), b4_ptab) == sp_RunProperty_disable_strike(sp_RunProperty_ptab(s, b4_ptab)),
    sp_RunProperty_shading(sp_RunProperty_disable_strike(s), b5_s) == sp_RunProperty_disable_strike(sp_RunProperty_shading(s, b5_s)),
    sp_RunProperty_size(sp_RunProperty_disable_strike(s), b6_size) == sp_RunProperty_disable_strike(sp_RunProperty_size(s, b6_size)),
    sp_RunProperty_spacing(sp_RunProperty_disable_strike(s), b7_spacing) == sp_RunProperty_disable_strike(sp_RunProperty_spacing(s, b7_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_disable_strike(s)) == sp_RunProperty_disable_strike(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_disable_strike(s), b9_v) == sp_RunProperty_disable_strike(sp_RunProperty_stretch(s, b9_v)),
    sp_RunProperty_style(sp_RunProperty_disable_strike(s), b10_style_id) == sp_RunProperty_disable_strike(sp_RunProperty_style(s, b10_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_disable_strike(s), b11_b) == sp_RunProperty_disable_strike(sp_RunProperty_text_border(s, b11_b)),
    sp_RunProperty_theme_color(sp_RunProperty_disable_strike(s), b12_theme_color) == sp_RunProperty_disable_strike(sp_RunProperty_theme_color(s, b12_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_disable_strike(s), b13_theme_shade) == sp_RunProperty_disable_strike(sp_RunProperty_theme_shade(s, b13_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_disable_strike(s), b14_theme_tint) == sp_RunProperty_disable_strike(sp_RunProperty_theme_tint(s, b14_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_disable_strike(s), b15_line_type) == sp_RunProperty_disable_strike(sp_RunProperty_underline(s, b15_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_disable_strike(s)) == sp_RunProperty_disable_strike(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_disable_strike(s), b17_a) == sp_RunProperty_disable_strike(sp_RunProperty_vert_align(s, b17_a)),
{}
pub proof fn order_RunProperty_dstrike(s: RunProperty, b0_font: RunFonts, b1_color: Seq<char>, b2_i: Insert, b4_ptab: PositionalTab, b5_s: Shading, b6_size: usize, b7_spacing: i32, b9_v: i32, b10_style_id: Seq<char>, b11_b: TextBorder, b12_theme_color: ThemeColor, b13_theme_shade: Seq<char>, b14_theme_tint: Seq<char>, b15_line_type: Seq<char>, b17_a: VertAlignType)
  ensures
    sp_RunProperty_fonts(sp_RunProperty_dstrike(s), b0_font) == sp_RunProperty_dstrike(sp_RunProperty_fonts(s, b0_font)),
    sp_RunProperty_highlight(sp_RunProperty_dstrike(s), b1_color) == sp_RunProperty_dstrike(sp_RunProperty_highlight(s, b1_color)),
    sp_RunProperty_insert(sp_RunProperty_dstrike(s), b2_i) == sp_RunProperty_dstrike(sp_RunProperty_insert(s, b2_i)),
    sp_RunProperty_italic(sp_RunProperty_dstrike(s)) == sp_RunProperty_dstrike(sp_RunProperty_italic(s)),
    sp_RunProperty_ptab(sp_RunProperty_dstrike(s), b4_ptab) == sp_RunProperty_dstrike(sp_RunProperty_ptab(s, b4_ptab)),
    sp_RunProperty_shading(sp_RunProperty_dstrike(s), b5_s) == sp_RunProperty_dstrike(sp_RunProperty_shading(s, b5_s)),
    sp_RunProperty_size(sp_RunProperty_dstrike(s), b6_size) == sp_RunProperty_dstrike(sp_RunProperty_size(s, b6_size)),
    sp_RunProperty_spacing(sp_RunProperty_dstrike(s), b7_spacing) == sp_RunProperty_dstrike(sp_RunProperty_spacing(s, b7_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_dstrike(s)) == sp_RunProperty_dstrike(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_dstrike(s), b9_v) == sp_RunProperty_dstrike(sp_RunProperty_stretch(s, b9_v)),
    sp_RunProperty_style(sp_RunProperty_dstrike(s), b10_style_id) == sp_RunProperty_dstrike(sp_RunProperty_style(s, b10_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_dstrike(s), b11_b) == sp_RunProperty_dstrike(sp_RunProperty_text_border(s, b11_b)),
    sp_RunProperty_theme_color(sp_RunProperty_dstrike(s), b12_theme_color) == sp_RunProperty_dstrike(sp_RunProperty_theme_color(s, b12_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_dstrike(s), b13_theme_shade) == sp_RunProperty_dstrike(sp_RunProperty_theme_shade(s, b13_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_dstrike(s), b14_theme_tint) == sp_RunProperty_dstrike(sp_RunProperty_theme_tint(s, b14_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_dstrike(s), b15_line_type) == sp_RunProperty_dstrike(sp_RunProperty_underline(s, b15_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_dstrike(s)) == sp_RunProperty_dstrike(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_dstrike(s), b17_a) == sp_RunProperty_dstrike(sp_RunProperty_vert_align(s, b17_a)),
{}
pub proof fn order_RunProperty_fonts(s: RunProperty, a_font: RunFonts, b0_color: Seq<char>, b1_i: Insert, b3_ptab: PositionalTab, b4_s: Shading, b5_size: usize, b6_spacing: i32, b8_v: i32, b10_style_id: Seq<char>, b11_b: TextBorder, b12_theme_color: ThemeColor, b13_theme_shade: Seq<char>, b14_theme_tint: Seq<char>, b15_line_type: Seq<char>, b17_a: VertAlignType)
  ensures
    sp_RunProperty_highlight(sp_RunProperty_fonts(s, a_font), b0_color) == sp_RunProperty_fonts(sp_RunProperty_highlight(s, b0_color), a_font),
    sp_RunProperty_insert(sp_RunProperty_fonts(s, a_font), b1_i) == sp_RunProperty_fonts(sp_RunProperty_insert(s, b1_i), a_font),
    sp_RunProperty_italic(sp_RunProperty_fonts(s, a_font)) == sp_RunProperty_fonts(sp_RunProperty_italic(s), a_font),
    sp_RunProperty_ptab(sp_RunProperty_fonts(s, a_font), b3_ptab) == sp_RunProperty_fonts(sp_RunProperty_ptab(s, b3_ptab), a_font),
    sp_RunProperty_shading(sp_RunProperty_fonts(s, a_font), b4_s) == sp_RunProperty_fonts(sp_RunProperty_shading(s, b4_s), a_font),
    sp_RunProperty_size(sp_RunProperty_fonts(s, a_font), b5_size) == sp_RunProperty_fonts(sp_RunProperty_size(s, b5_size), a_font),
    sp_RunProperty_spacing(sp_RunProperty_fonts(s, a_font), b6_spacing) == sp_RunProperty_fonts(sp_RunProperty_spacing(s, b6_spacing), a_font),
    sp_RunProperty_spec_vanish(sp_RunProperty_fonts(s, a_font)) == sp_RunProperty_fonts(sp_RunProperty_spec_vanish(s), a_font),
    sp_RunProperty_stretch(sp_RunProperty_fonts(s, a_font), b8_v) == sp_RunProperty_fonts(sp_RunProperty_stretch(s, b8_v), a_font),
    sp_RunProperty_strike(sp_RunProperty_fonts(s, a_font)) == sp_RunProperty_fonts(sp_RunProperty_strike(s), a_font),
    sp_RunProperty_style(sp_RunProperty_fonts(s, a_font), b10_style_id) == sp_RunProperty_fonts(sp_RunProperty_style(s, b10_style_id), a_font),
    sp_RunProperty_text_border(sp_RunProperty_fonts(s, a_font), b11_b) == sp_RunProperty_fonts(sp_RunProperty_text_border(s, b11_b), a_font),
    sp_RunProperty_theme_color(sp_RunProperty_fonts(s, a_font), b12_theme_color) == sp_RunProperty_fonts(sp_RunProperty_theme_color(s, b12_theme_color), a_font),
    sp_RunProperty_theme_shade(sp_RunProperty_fonts(s, a_font), b13_theme_shade) == sp_RunProperty_fonts(sp_RunProperty_theme_shade(s, b13_theme_shade), a_font),
    sp_RunProperty_theme_tint(sp_RunProperty_fonts(s, a_font), b14_theme_tint) == sp_RunProperty_fonts(sp_RunProperty_theme_tint(s, b14_theme_tint), a_font),
    sp_RunProperty_underline(sp_RunProperty_fonts(s, a_font), b15_line_type) == sp_RunProperty_fonts(sp_RunProperty_underline(s, b15_line_type), a_font),
    sp_RunProperty_vanish(sp_RunProperty_fonts(s, a_font)) == sp_RunProperty_fonts(sp_RunProperty_vanish(s), a_font),
    sp_RunProperty_vert_align(sp_RunProperty_fonts(s, a_font), b17_a) == sp_RunProperty_fonts(sp_RunProperty_vert_align(s, b17_a), a_font),
{}
pub proof fn order_RunProperty_highlight(s: RunProperty, a_color: Seq<char>, b0_i: Insert, b2_ptab: PositionalTab, b3_s: Shading, b4_size: usize, b5_spacing: i32, b7_v: i32, b9_style_id: Seq<char>, b10_b: TextBorder, b11_theme_color: ThemeColor, b12_theme_shade: Seq<char>, b13_theme_tint: Seq<char>, b14_line_type: Seq<char>, b16_a: VertAlignType)
  ensures
    sp_RunProperty_insert(sp_RunProperty_highlight(s, a_color), b0_i) == sp_RunProperty_highlight(sp_RunProperty_insert(s, b0_i), a_color),
    sp_RunProperty_italic(sp_RunProperty_highlight(s, a_color)) == sp_RunProperty_highlight(sp_RunProperty_italic(s), a_color),
    sp_RunProperty_ptab(sp_RunProperty_highlight(s, a_color), b2_ptab) == sp_RunProperty_highlight(sp_RunProperty_ptab(s, b2_ptab), a_color),
    sp_RunProperty_shading(sp_RunProperty_highlight(s, a_color), b3_s) == sp_RunProperty_highlight(sp_RunProperty_shading(s, b3_s), a_color),
    sp_RunProperty_size(sp_RunProperty_highlight(s, a_color), b4_size) == sp_RunProperty_highlight(sp_RunProperty_size(s, b4_size), a_color),
    sp_RunProperty_spacing(sp_RunProperty_highlight(s, a_color), b5_spacing) == sp_RunProperty_highlight(sp_RunProperty_spacing(s, b5_spacing), a_color),
    sp_RunProperty_spec_vanish(sp_RunProperty_highlight(s, a_color)) == sp_RunProperty_highlight(sp_RunProperty_spec_vanish(s), a_color),
    sp_RunProperty_stretch(sp_RunProperty_highlight(s, a_color), b7_v) == sp_RunProperty_highlight(sp_RunProperty_stretch(s, b7_v), a_color),
    sp_RunProperty_strike(sp_RunProperty_highlight(s, a_color)) == sp_RunProperty_highlight(sp_RunProperty_strike(s), a_color),
    sp_RunProperty_style(sp_RunProperty_highlight(s, a_color), b9_style_id) == sp_RunProperty_highlight(sp_RunProperty_style(s, b9_style_id), a_color),
    sp_RunProperty_text_border(sp_RunProperty_highlight(s, a_color), b10_b) == sp_RunProperty_highlight(sp_RunProperty_text_border(s, b10_b), a_color),
    sp_RunProperty_theme_color(sp_RunProperty_highlight(s, a_color), b11_theme_color) == sp_RunProperty_highlight(sp_RunProperty_theme_color(s, b11_theme_color), a_color),
    sp_RunProperty_theme_shade(sp_RunProperty_highlight(s, a_color), b12_theme_shade) == sp_RunProperty_highlight(sp_RunProperty_theme_shade(s, b12_theme_shade), a_color),
    sp_RunProperty_theme_tint(sp_RunProperty_highlight(s, a_color), b13_theme_tint) == sp_RunProperty_highlight(sp_RunProperty_theme_tint(s, b13_theme_tint), a_color),
    sp_RunProperty_underline(sp_RunProperty_highlight(s, a_color), b14_line_type) == sp_RunProperty_highlight(sp_RunProperty_underline(s, b14_line_type), a_color),
    sp_RunProperty_vanish(sp_RunProperty_highlight(s, a_color)) == sp_RunProperty_highlight(sp_RunProperty_vanish(s), a_color),
    sp_RunProperty_vert_align(sp_RunProperty_highlight(s, a_color), b16_a) == sp_RunProperty_highlight(sp_RunProperty_vert_align(s, b16_a), a_color),
{}
pub proof fn order_RunProperty_insert(s: RunProperty, a_i: Insert, b1_ptab: PositionalTab, b2_s: Shading, b3_size: usize, b4_spacing: i32, b6_v: i32, b8_style_id: Seq<char>, b9_b: TextBorder, b10_theme_color: ThemeColor, b11_theme_shade: Seq<char>, b12_theme_tint: Seq<char>, b13_line_type: Seq<char>, b15_a: VertAlignType)
  ensures
    sp_RunProperty_italic(sp_RunProperty_insert(s, a_i)) == sp_RunProperty_insert(sp_RunProperty_italic(s), a_i),
    sp_RunProperty_ptab(sp_RunProperty_insert(s, a_i), b1_ptab) == sp_RunProperty_insert(sp_RunProperty_ptab(s, b1_ptab), a_i),
    sp_RunProperty_shading(sp_RunProperty_insert(s, a_i), b2_s) == sp_RunProperty_insert(sp_RunProperty_shading(s, b2_s), a_i),
    sp_RunProperty_size(sp_RunProperty_insert(s, a_i), b3_size) == sp_RunProperty_insert(sp_RunProperty_size(s, b3_size), a_i),
    sp_RunProperty_spacing(sp_RunProperty_insert(s, a_i), b4_spacing) == sp_RunProperty_insert(sp_RunProperty_spacing(s, b4_spacing), a_i),
    sp_RunProperty_spec_vanish(sp_RunProperty_insert(s, a_i)) == sp_RunProperty_insert(sp_RunProperty_spec_vanish(s), a_i),
    sp_RunProperty_stretch(sp_RunProperty_insert(s, a_i), b6_v) == sp_RunProperty_insert(sp_RunProperty_stretch(s, b6_v), a_i),
    sp_RunProperty_strike(sp_RunProperty_insert(s, a_i)) == sp_RunProperty_insert(sp_RunProperty_strike(s), a_i),
    sp_RunProperty_style(sp_RunProperty_insert(s, a_i), b8_style_id) == sp_RunProperty_insert(sp_RunProperty_style(s, b8_style_id), a_i),
    sp_RunProperty_text_border(sp_RunProperty_insert(s, a_i), b9_b) == sp_RunProperty_insert(sp_RunProperty_text_border(s, b9_b), a_i),
    sp_RunProperty_theme_color(sp_RunProperty_insert(s, a_i), b10_theme_color) == sp_RunProperty_insert(sp_RunProperty_theme_color(s, b10_theme_color), a_i),
    sp_RunProperty_theme_shade(sp_RunProperty_insert(s, a_i), b11_theme_shade) == sp_RunProperty_insert(sp_RunProperty_theme_shade(s, b11_theme_shade), a_i),
    sp_RunProperty_theme_tint(sp_RunProperty_insert(s, a_i), b12_theme_tint) == sp_RunProperty_insert(sp_RunProperty_theme_tint(s, b12_theme_tint), a_i),
    sp_RunProperty_underline(sp_RunProperty_insert(s, a_i), b13_line_type) == sp_RunProperty_insert(sp_RunProperty_underline(s, b13_line_type), a_i),
    sp_RunProperty_vanish(sp_RunProperty_insert(s, a_i)) == sp_RunProperty_insert(sp_RunProperty_vanish(s), a_i),
    sp_RunProperty_vert_align(sp_RunProperty_insert(s, a_i), b15_a) == sp_RunProperty_insert(sp_RunProperty_vert_align(s, b15_a), a_i),
{}
pub proof fn order_RunProperty_italic(s: RunProperty, b0_ptab: PositionalTab, b1_s: Shading, b2_size: usize, b3_spacing: i32, b5_v: i32, b7_style_id: Seq<char>, b8_b: TextBorder, b9_theme_color: ThemeColor, b10_theme_shade: Seq<char>, b11_theme_tint: Seq<char>, b12_line_type: Seq<char>, b14_a: VertAlignType)
  ensures
    sp_RunProperty_ptab(sp_RunProperty_italic(s), b0_ptab) == sp_RunProperty_italic(sp_RunProperty_ptab(s, b0_ptab)),
    sp_RunProperty_shading(sp_RunProperty_italic(s), b1_s) == sp_RunProperty_italic(sp_RunProperty_shading(s, b1_s)),
    sp_RunProperty_size(sp_RunProperty_italic(s), b2_size) == sp_RunProperty_italic(sp_RunProperty_size(s, b2_size)),
    sp_RunProperty_spacing(sp_RunProperty_italic(s), b3_spacing) == sp_RunProperty_italic(sp_RunProperty_spacing(s, b3_spacing)),
    sp_RunProperty_spec_vanish(sp_RunProperty_italic(s)) == sp_RunProperty_italic(sp_RunProperty_spec_vanish(s)),
    sp_RunProperty_stretch(sp_RunProperty_italic(s), b5_v) == sp_RunProperty_italic(sp_RunProperty_stretch(s, b5_v)),
    sp_RunProperty_strike(sp_RunProperty_italic(s)) == sp_RunProperty_italic(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_italic(s), b7_style_id) == sp_RunProperty_italic(sp_RunProperty_style(s, b7_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_italic(s), b8_b) == sp_RunProperty_italic(sp_RunProperty_text_border(s, b8_b)),
    sp_RunProperty_theme_color(sp_RunProperty_italic(s), b9_theme_color) == sp_RunProperty_italic(sp_RunProperty_theme_color(s, b9_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_italic(s), b10_theme_shade) == sp_RunProperty_italic(sp_RunProperty_theme_shade(s, b10_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_italic(s), b11_theme_tint) == sp_RunProperty_italic(sp_RunProperty_theme_tint(s, b11_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_italic(s), b12_line_type) == sp_RunProperty_italic(sp_RunProperty_underline(s, b12_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_italic(s)) == sp_RunProperty_italic(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_italic(s), b14_a) == sp_RunProperty_italic(sp_RunProperty_vert_align(s, b14_a)),
{}
pub proof fn order_RunProperty_ptab(s: RunProperty, a_ptab: PositionalTab, b0_s: Shading, b1_size: usize, b2_spacing: i32, b4_v: i32, b6_style_id: Seq<char>, b7_b: TextBorder, b8_theme_color: ThemeColor, b9_theme_shade: Seq<char>, b10_theme_tint: Seq<char>, b11_line_type: Seq<char>, b13_a: VertAlignType)
  ensures
    sp_RunProperty_shading(sp_RunProperty_ptab(s, a_ptab), b0_s) == sp_RunProperty_ptab(sp_RunProperty_shading(s, b0_s), a_ptab),
    sp_RunProperty_size(sp_RunProperty_ptab(s, a_ptab), b1_size) == sp_RunProperty_ptab(sp_RunProperty_size(s, b1_size), a_ptab),
    sp_RunProperty_spacing(sp_RunProperty_ptab(s, a_ptab), b2_spacing) == sp_RunProperty_ptab(sp_RunProperty_spacing(s, b2_spacing), a_ptab),
    sp_RunProperty_spec_vanish(sp_RunProperty_ptab(s, a_ptab)) == sp_RunProperty_ptab(sp_RunProperty_spec_vanish(s), a_ptab),
    sp_RunProperty_stretch(sp_RunProperty_ptab(s, a_ptab), b4_v) == sp_RunProperty_ptab(sp_RunProperty_stretch(s, b4_v), a_ptab),
    sp_RunProperty_strike(sp_RunProperty_ptab(s, a_ptab)) == sp_RunProperty_ptab(sp_RunProperty_strike(s), a_ptab),
    sp_RunProperty_style(sp_RunProperty_ptab(s, a_ptab), b6_style_id) == sp_RunProperty_ptab(sp_RunProperty_style(s, b6_style_id), a_ptab),
    sp_RunProperty_text_border(sp_RunProperty_ptab(s, a_ptab), b7_b) == sp_RunProperty_ptab(sp_RunProperty_text_border(s, b7_b), a_ptab),
    sp_RunProperty_theme_color(sp_RunProperty_ptab(s, a_ptab), b8_theme_color) == sp_RunProperty_ptab(sp_RunProperty_theme_color(s, b8_theme_color), a_ptab),
    sp_RunProperty_theme_shade(sp_RunProperty_ptab(s, a_ptab), b9_theme_shade) == sp_RunProperty_ptab(sp_RunProperty_theme_shade(s, b9_theme_shade), a_ptab),
    sp_RunProperty_theme_tint(sp_RunProperty_ptab(s, a_ptab), b10_theme_tint) == sp_RunProperty_ptab(sp_RunProperty_theme_tint(s, b10_theme_tint), a_ptab),
    sp_RunProperty_underline(sp_RunProperty_ptab(s, a_ptab), b11_line_type) == sp_RunProperty_ptab(sp_RunProperty_underline(s, b11_line_type), a_ptab),
    sp_RunProperty_vanish(sp_RunProperty_ptab(s, a_ptab)) == sp_RunProperty_ptab(sp_RunProperty_vanish(s), a_ptab),
    sp_RunProperty_vert_align(sp_RunProperty_ptab(s, a_ptab), b13_a) == sp_RunProperty_ptab(sp_RunProperty_vert_align(s, b13_a), a_ptab),
{}
pub proof fn order_RunProperty_shading(s: RunProperty, a_s: Shading, b0_size: usize, b1_spacing: i32, b3_v: i32, b5_style_id: Seq<char>, b6_b: TextBorder, b7_theme_color: ThemeColor, b8_theme_shade: Seq<char>, b9_theme_tint: Seq<char>, b10_line_type: Seq<char>, b12_a: VertAlignType)
  ensures
    sp_RunProperty_size(sp_RunProperty_shading(s, a_s), b0_size) == sp_RunProperty_shading(sp_RunProperty_size(s, b0_size), a_s),
    sp_RunProperty_spacing(sp_RunProperty_shading(s, a_s), b1_spacing) == sp_RunProperty_shading(sp_RunProperty_spacing(s, b1_spacing), a_s),
    sp_RunProperty_spec_vanish(sp_RunProperty_shading(s, a_s)) == sp_RunProperty_shading(sp_RunProperty_spec_vanish(s), a_s),
    sp_RunProperty_stretch(sp_RunProperty_shading(s, a_s), b3_v) == sp_RunProperty_shading(sp_RunProperty_stretch(s, b3_v), a_s),
    sp_RunProperty_strike(sp_RunProperty_shading(s, a_s)) == sp_RunProperty_shading(sp_RunProperty_strike(s), a_s),
    sp_RunProperty_style(sp_RunProperty_shading(s, a_s), b5_style_id) == sp_RunProperty_shading(sp_RunProperty_style(s, b5_style_id), a_s),
    sp_RunProperty_text_border(sp_RunProperty_shading(s, a_s), b6_b) == sp_RunProperty_shading(sp_RunProperty_text_border(s, b6_b), a_s),
    sp_RunProperty_theme_color(sp_RunProperty_shading(s, a_s), b7_theme_color) == sp_RunProperty_shading(sp_RunProperty_theme_color(s, b7_theme_color), a_s),
    sp_RunProperty_theme_shade(sp_RunProperty_shading(s, a_s), b8_theme_shade) == sp_RunProperty_shading(sp_RunProperty_theme_shade(s, b8_theme_shade), a_s),
    sp_RunProperty_theme_tint(sp_RunProperty_shading(s, a_s), b9_theme_tint) == sp_RunProperty_shading(sp_RunProperty_theme_tint(s, b9_theme_tint), a_s),
    sp_RunProperty_underline(sp_RunProperty_shading(s, a_s), b10_line_type) == sp_RunProperty_shading(sp_RunProperty_underline(s, b10_line_type), a_s),
    sp_RunProperty_vanish(sp_RunProperty_shading(s, a_s)) == sp_RunProperty_shading(sp_RunProperty_vanish(s), a_s),
    sp_RunProperty_vert_align(sp_RunProperty_shading(s, a_s), b12_a) == sp_RunProperty_shading(sp_RunProperty_vert_align(s, b12_a), a_s),
{}
pub proof fn order_RunProperty_size(s: RunProperty, a_size: usize, b0_spacing: i32, b2_v: i32, b4_style_id: Seq<char>, b5_b: TextBorder, b6_theme_color: ThemeColor, b7_theme_shade: Seq<char>, b8_theme_tint: Seq<char>, b9_line_type: Seq<char>, b11_a: VertAlignType)
  ensures
    sp_RunProperty_spacing(sp_RunProperty_size(s, a_size), b0_spacing) == sp_RunProperty_size(sp_RunProperty_spacing(s, b0_spacing), a_size),
    sp_RunProperty_spec_vanish(sp_RunProperty_size(s, a_size)) == sp_RunProperty_size(sp_RunProperty_spec_vanish(s), a_size),
    sp_RunProperty_stretch(sp_RunProperty_size(s, a_size), b2_v) == sp_RunProperty_size(sp_RunProperty_stretch(s, b2_v), a_size),
    sp_RunProperty_strike(sp_RunProperty_size(s, a_size)) == sp_RunProperty_size(sp_RunProperty_strike(s), a_size),
    sp_RunProperty_style(sp_RunProperty_size(s, a_size), b4_style_id) == sp_RunProperty_size(sp_RunProperty_style(s, b4_style_id), a_size),
    sp_RunProperty_text_border(sp_RunProperty_size(s, a_size), b5_b) == sp_RunProperty_size(sp_RunProperty_text_border(s, b5_b), a_size),
    sp_RunProperty_theme_color(sp_RunProperty_size(s, a_size), b6_theme_color) == sp_RunProperty_size(sp_RunProperty_theme_color(s, b6_theme_color), a_size),
    sp_RunProperty_theme_shade(sp_RunProperty_size(s, a_size), b7_theme_shade) == sp_RunProperty_size(sp_RunProperty_theme_shade(s, b7_theme_shade), a_size),
    sp_RunProperty_theme_tint(sp_RunProperty_size(s, a_size), b8_theme_tint) == sp_RunProperty_size(sp_RunProperty_theme_tint(s, b8_theme_tint), a_size),
    sp_RunProperty_underline(sp_RunProperty_size(s, a_size), b9_line_type) == sp_RunProperty_size(sp_RunProperty_underline(s, b9_line_type), a_size),
    sp_RunProperty_vanish(sp_RunProperty_size(s, a_size)) == sp_RunProperty_size(sp_RunProperty_vanish(s), a_size),
    sp_RunProperty_vert_align(sp_RunProperty_size(s, a_size), b11_a) == sp_RunProperty_size(sp_RunProperty_vert_align(s, b11_a), a_size),
{}
pub proof fn order_RunProperty_spacing(s: RunProperty, a_spacing: i32, b1_v: i32, b3_style_id: Seq<char>, b4_b: TextBorder, b5_theme_color: ThemeColor, b6_theme_shade: Seq<char>, b7_theme_tint: Seq<char>, b8_line_type: Seq<char>, b10_a: VertAlignType)
  ensures
    sp_RunProperty_spec_vanish(sp_RunProperty_spacing(s, a_spacing)) == sp_RunProperty_spacing(sp_RunProperty_spec_vanish(s), a_spacing),
    sp_RunProperty_stretch(sp_RunProperty_spacing(s, a_spacing), b1_v) == sp_RunProperty_spacing(sp_RunProperty_stretch(s, b1_v), a_spacing),
    sp_RunProperty_strike(sp_RunProperty_spacing(s, a_spacing)) == sp_RunProperty_spacing(sp_RunProperty_strike(s), a_spacing),
    sp_RunProperty_style(sp_RunProperty_spacing(s, a_spacing), b3_style_id) == sp_RunProperty_spacing(sp_RunProperty_style(s, b3_style_id), a_spacing),
    sp_RunProperty_text_border(sp_RunProperty_spacing(s, a_spacing), b4_b) == sp_RunProperty_spacing(sp_RunProperty_text_border(s, b4_b), a_spacing),
    sp_RunProperty_theme_color(sp_RunProperty_spacing(s, a_spacing), b5_theme_color) == sp_RunProperty_spacing(sp_RunProperty_theme_color(s, b5_theme_color), a_spacing),
    sp_RunProperty_theme_shade(sp_RunProperty_spacing(s, a_spacing), b6_theme_shade) == sp_RunProperty_spacing(sp_RunProperty_theme_shade(s, b6_theme_shade), a_spacing),
    sp_RunProperty_theme_tint(sp_RunProperty_spacing(s, a_spacing), b7_theme_tint) == sp_RunProperty_spacing(sp_RunProperty_theme_tint(s, b7_theme_tint), a_spacing),
    sp_RunProperty_underline(sp_RunProperty_spacing(s, a_spacing), b8_line_type) == sp_RunProperty_spacing(sp_RunProperty_underline(s, b8_line_type), a_spacing),
    sp_RunProperty_vanish(sp_RunProperty_spacing(s, a_spacing)) == sp_RunProperty_spacing(sp_RunProperty_vanish(s), a_spacing),
    sp_RunProperty_vert_align(sp_RunProperty_spacing(s, a_spacing), b10_a) == sp_RunProperty_spacing(sp_RunProperty_vert_align(s, b10_a), a_spacing),
{}
pub proof fn order_RunProperty_spec_vanish(s: RunProperty, b0_v: i32, b2_style_id: Seq<char>, b3_b: TextBorder, b4_theme_color: ThemeColor, b5_theme_shade: Seq<char>, b6_theme_tint: Seq<char>, b7_line_type: Seq<char>, b9_a: VertAlignType)
  ensures
    sp_RunProperty_stretch(sp_RunProperty_spec_vanish(s), b0_v) == sp_RunProperty_spec_vanish(sp_RunProperty_stretch(s, b0_v)),
    sp_RunProperty_strike(sp_RunProperty_spec_vanish(s)) == sp_RunProperty_spec_vanish(sp_RunProperty_strike(s)),
    sp_RunProperty_style(sp_RunProperty_spec_vanish(s), b2_style_id) == sp_RunProperty_spec_vanish(sp_RunProperty_style(s, b2_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_spec_vanish(s), b3_b) == sp_RunProperty_spec_vanish(sp_RunProperty_text_border(s, b3_b)),
    sp_RunProperty_theme_color(sp_RunProperty_spec_vanish(s), b4_theme_color) == sp_RunProperty_spec_vanish(sp_RunProperty_theme_color(s, b4_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_spec_vanish(s), b5_theme_shade) == sp_RunProperty_spec_vanish(sp_RunProperty_theme_shade(s, b5_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_spec_vanish(s), b6_theme_tint) == sp_RunProperty_spec_vanish(sp_RunProperty_theme_tint(s, b6_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_spec_vanish(s), b7_line_type) == sp_RunProperty_spec_vanish(sp_RunProperty_underline(s, b7_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_spec_vanish(s)) == sp_RunProperty_spec_vanish(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_spec_vanish(s), b9_a) == sp_RunProperty_spec_vanish(sp_RunProperty_vert_align(s, b9_a)),
{}
pub proof fn order_RunProperty_stretch(s: RunProperty, a_v: i32, b1_style_id: Seq<char>, b2_b: TextBorder, b3_theme_color: ThemeColor, b4_theme_shade: Seq<char>, b5_theme_tint: Seq<char>, b6_line_type: Seq<char>, b8_a: VertAlignType)
  ensures
    sp_RunProperty_strike(sp_RunProperty_stretch(s, a_v)) == sp_RunProperty_stretch(sp_RunProperty_strike(s), a_v),
    sp_RunProperty_style(sp_RunProperty_stretch(s, a_v), b1_style_id) == sp_RunProperty_stretch(sp_RunProperty_style(s, b1_style_id), a_v),
    sp_RunProperty_text_border(sp_RunProperty_stretch(s, a_v), b2_b) == sp_RunProperty_stretch(sp_RunProperty_text_border(s, b2_b), a_v),
    sp_RunProperty_theme_color(sp_RunProperty_stretch(s, a_v), b3_theme_color) == sp_RunProperty_stretch(sp_RunProperty_theme_color(s, b3_theme_color), a_v),
    sp_RunProperty_theme_shade(sp_RunProperty_stretch(s, a_v), b4_theme_shade) == sp_RunProperty_stretch(sp_RunProperty_theme_shade(s, b4_theme_shade), a_v),
    sp_RunProperty_theme_tint(sp_RunProperty_stretch(s, a_v), b5_theme_tint) == sp_RunProperty_stretch(sp_RunProperty_theme_tint(s, b5_theme_tint), a_v),
    sp_RunProperty_underline(sp_RunProperty_stretch(s, a_v), b6_line_type) == sp_RunProperty_stretch(sp_RunProperty_underline(s, b6_line_type), a_v),
    sp_RunProperty_vanish(sp_RunProperty_stretch(s, a_v)) == sp_RunProperty_stretch(sp_RunProperty_vanish(s), a_v),
    sp_RunProperty_vert_align(sp_RunProperty_stretch(s, a_v), b8_a) == sp_RunProperty_stretch(sp_RunProperty_vert_align(s, b8_a), a_v),
{}
pub proof fn order_RunProperty_strike(s: RunProperty, b0_style_id: Seq<char>, b1_b: TextBorder, b2_theme_color: ThemeColor, b3_theme_shade: Seq<char>, b4_theme_tint: Seq<char>, b5_line_type: Seq<char>, b7_a: VertAlignType)
  ensures
    sp_RunProperty_style(sp_RunProperty_strike(s), b0_style_id) == sp_RunProperty_strike(sp_RunProperty_style(s, b0_style_id)),
    sp_RunProperty_text_border(sp_RunProperty_strike(s), b1_b) == sp_RunProperty_strike(sp_RunProperty_text_border(s, b1_b)),
    sp_RunProperty_theme_color(sp_RunProperty_strike(s), b2_theme_color) == sp_RunProperty_strike(sp_RunProperty_theme_color(s, b2_theme_color)),
    sp_RunProperty_theme_shade(sp_RunProperty_strike(s), b3_theme_shade) == sp_RunProperty_strike(sp_RunProperty_theme_shade(s, b3_theme_shade)),
    sp_RunProperty_theme_tint(sp_RunProperty_strike(s), b4_theme_tint) == sp_RunProperty_strike(sp_RunProperty_theme_tint(s, b4_theme_tint)),
    sp_RunProperty_underline(sp_RunProperty_strike(s), b5_line_type) == sp_RunProperty_strike(sp_RunProperty_underline(s, b5_line_type)),
    sp_RunProperty_vanish(sp_RunProperty_strike(s)) == sp_RunProperty_strike(sp_RunProperty_vanish(s)),
    sp_RunProperty_vert_align(sp_RunProperty_strike(s), b7_a) == sp_RunProperty_strike(sp_RunProperty_vert_align(s, b7_a)),
{}
pub proof fn order_RunProperty_style(s: RunProperty, a_style_id: Seq<char>, b0_b: TextBorder, b1_theme_color: ThemeColor, b2_theme_shade: Seq<char>, b3_theme_tint: Seq<char>, b4_line_type: Seq<char>, b6_a: VertAlignType)
  ensures
    sp_RunProperty_text_border(sp_RunProperty_style(s, a_style_id), b0_b) == sp_RunProperty_style(sp_RunProperty_text_border(s, b0_b), a_style_id),
    sp_RunProperty_theme_color(sp_RunProperty_style(s, a_style_id), b1_theme_color) == sp_RunProperty_style(sp_RunProperty_theme_color(s, b1_theme_color), a_style_id),
    sp_RunProperty_theme_shade(sp_RunProperty_style(s, a_style_id), b2_theme_shade) == sp_RunProperty_style(sp_RunProperty_theme_shade(s, b2_theme_shade), a_style_id),
    sp_RunProperty_theme_tint(sp_RunProperty_style(s, a_style_id), b3_theme_tint) == sp_RunProperty_style(sp_RunProperty_theme_tint(s, b3_theme_tint), a_style_id),
    sp_RunProperty_underline(sp_RunProperty_style(s, a_style_id), b4_line_type) == sp_RunProperty_style(sp_RunProperty_underline(s, b4_line_type), a_style_id),
    sp_RunProperty_vanish(sp_RunProperty_style(s, a_style_id)) == sp_RunProperty_style(sp_RunProperty_vanish(s), a_style_id),
    sp_RunProperty_vert_align(sp_RunProperty_style(s, a_style_id), b6_a) == sp_RunProperty_style(sp_RunProperty_vert_align(s, b6_a), a_style_id),
{}
pub proof fn order_RunProperty_text_border(s: RunProperty, a_b: TextBorder, b0_theme_color: ThemeColor, b1_theme_shade: Seq<char>, b2_theme_tint: Seq<char>, b3_line_type: Seq<char>, b5_a: VertAlignType)
  ensures
    sp_RunProperty_theme_color(sp_RunProperty_text_border(s, a_b), b0_theme_color) == sp_RunProperty_text_border(sp_RunProperty_theme_color(s, b0_theme_color), a_b),
    sp_RunProperty_theme_shade(sp_RunProperty_text_border(s, a_b), b1_theme_shade) == sp_RunProperty_text_border(sp_RunProperty_theme_shade(s, b1_theme_shade), a_b),
    sp_RunProperty_theme_tint(sp_RunProperty_text_border(s, a_b), b2_theme_tint) == sp_RunProperty_text_border(sp_RunProperty_theme_tint(s, b2_theme_tint), a_b),
    sp_RunProperty_underline(sp_RunProperty_text_border(s, a_b), b3_line_type) == sp_RunProperty_text_border(sp_RunProperty_underline(s, b3_line_type), a_b),
    sp_RunProperty_vanish(sp_RunProperty_text_border(s, a_b)) == sp_RunProperty_text_border(sp_RunProperty_vanish(s), a_b),
    sp_RunProperty_vert_align(sp_RunProperty_text_border(s, a_b), b5_a) == sp_RunProperty_text_border(sp_RunProperty_vert_align(s, b5_a), a_b),
{}
pub proof fn order_RunProperty_theme_color(s: RunProperty, a_theme_color: ThemeColor, b0_line_type: Seq<char>, b2_a: VertAlignType)
  ensures
    sp_RunProperty_underline(sp_RunProperty_theme_color(s, a_theme_color), b0_line_type) == sp_RunProperty_theme_color(sp_RunProperty_underline(s, b0_line_type), a_theme_color),
    sp_RunProperty_vanish(sp_RunProperty_theme_color(s, a_theme_color)) == sp_RunProperty_theme_color(sp_RunProperty_vanish(s), a_theme_color),
    sp_RunProperty_vert_align(sp_RunProperty_theme_color(s, a_theme_color), b2_a) == sp_RunProperty_theme_color(sp_RunProperty_vert_align(s, b2_a), a_theme_color),
{}
pub proof fn order_RunProperty_theme_shade(s: RunProperty, a_theme_shade: Seq<char>, b0_line_type: Seq<char>, b2_a: VertAlignType)
  ensures
    sp_RunProperty_underline(sp_RunProperty_theme_shade(s, a_theme_shade), b0_line_type) == sp_RunProperty_theme_shade(sp_RunProperty_underline(s, b0_line_type), a_theme_shade),
    sp_RunProperty_vanish(sp_RunProperty_theme_shade(s, a_theme_shade)) == sp_RunProperty_theme_shade(sp_RunProperty_vanish(s), a_theme_shade),
    sp_RunProperty_vert_align(sp_RunProperty_theme_shade(s, a_theme_shade), b2_a) == sp_RunProperty_theme_shade(sp_RunProperty_vert_align(s, b2_a), a_theme_shade),
{}
pub proof fn order_RunProperty_theme_tint(s: RunProperty, a_theme_tint: Seq<char>, b0_line_type: Seq<char>, b2_a: VertAlignType)
  ensures
    sp_RunProperty_underline(sp_RunProperty_theme_tint(s, a_theme_tint), b0_line_type) == sp_RunProperty_theme_tint(sp_RunProperty_underline(s, b0_line_type), a_theme_tint),
    sp_RunProperty_vanish(sp_RunProperty_theme_tint(s, a_theme_tint)) == sp_RunProperty_theme_tint(sp_RunProperty_vanish(s), a_theme_tint),
    sp_RunProperty_vert_align(sp_RunProperty_theme_tint(s, a_theme_tint), b2_a) == sp_RunProperty_theme_tint(sp_RunProperty_vert_align(s, b2_a), a_theme_tint),
{}
pub proof fn order_RunProperty_underline(s: RunProperty, a_line_type: Seq<char>, b1_a: VertAlignType)
  ensures
    sp_RunProperty_vanish(sp_RunProperty_underline(s, a_line_type)) == sp_RunProperty_underline(sp_RunProperty_vanish(s), a_line_type),
    sp_RunProperty_vert_align(sp_RunProperty_underline(s, a_line_type), b1_a) == sp_RunProperty_underline(sp_RunProperty_vert_align(s, b1_a), a_line_type),
{}
pub proof fn order_RunProperty_vanish(s: RunProperty, b0_a: VertAlignType)
  ensures
    sp_RunProperty_vert_align(sp_RunProperty_vanish(s), b0_a) == sp_RunProperty_vanish(sp_RunProperty_vert_align(s, b0_a)),
{}
pub proof fn order_ParagraphProperty_add_tab(s: ParagraphProperty, a_t: Tab, b0_s: isize, b1_alignment_type: AlignmentType, b2_v: bool, b3_spacing: i32, b4_position: ParagraphBorderPosition, b5_chars: i32, b6_s: FrameProperty, b7_chars: i32, b8_left: Option<i32>, b8_special_indent: Option<SpecialIndentType>, b8_end: Option<i32>, b8_start_chars: Option<i32>, b9_v: bool, b10_v: bool, b11_spacing: LineSpacing, b12_id: NumberingId, b12_level: IndentLevel, b13_np: NumberingProperty, b14_v: bool, b15_p: ParagraphPropertyChange, b16_s: RunProperty, b17_s: SectionProperty, b18_border: ParagraphBorder, b19_borders: ParagraphBorders, b20_s: Shading, b21_v: bool, b22_s: TextAlignmentType, b23_v: bool)
  ensures
    sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_add_tab(s, a_t), b0_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_adjust_right_ind(s, b0_s), a_t),
    sp_ParagraphProperty_align(sp_ParagraphProperty_add_tab(s, a_t), b1_alignment_type) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_align(s, b1_alignment_type), a_t),
    sp_ParagraphProperty_bidi(sp_ParagraphProperty_add_tab(s, a_t), b2_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_bidi(s, b2_v), a_t),
    sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_add_tab(s, a_t), b3_spacing) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_character_spacing(s, b3_spacing), a_t),
    sp_ParagraphProperty_clear_border(sp_ParagraphProperty_add_tab(s, a_t), b4_position) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_clear_border(s, b4_position), a_t),
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_add_tab(s, a_t), b5_chars) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_first_line_chars(s, b5_chars), a_t),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_add_tab(s, a_t), b6_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_frame_property(s, b6_s), a_t),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_add_tab(s, a_t), b7_chars) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_hanging_chars(s, b7_chars), a_t),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_add_tab(s, a_t), b8_left, b8_special_indent, b8_end, b8_start_chars) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_indent(s, b8_left, b8_special_indent, b8_end, b8_start_chars), a_t),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_add_tab(s, a_t), b9_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_keep_lines(s, b9_v), a_t),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_add_tab(s, a_t), b10_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_keep_next(s, b10_v), a_t),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_add_tab(s, a_t), b11_spacing) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_line_spacing(s, b11_spacing), a_t),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_add_tab(s, a_t), b12_id, b12_level) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_numbering(s, b12_id, b12_level), a_t),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_add_tab(s, a_t), b13_np) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_numbering_property(s, b13_np), a_t),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_add_tab(s, a_t), b14_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_page_break_before(s, b14_v), a_t),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_add_tab(s, a_t), b15_p) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_paragraph_property_change(s, b15_p), a_t),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_add_tab(s, a_t), b16_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_run_property(s, b16_s), a_t),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_add_tab(s, a_t), b17_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_section_property(s, b17_s), a_t),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_add_tab(s, a_t), b18_border) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_set_border(s, b18_border), a_t),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_add_tab(s, a_t), b19_borders) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_set_borders(s, b19_borders), a_t),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_add_tab(s, a_t), b20_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_shading(s, b20_s), a_t),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_add_tab(s, a_t), b21_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_snap_to_grid(s, b21_v), a_t),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_add_tab(s, a_t), b22_s) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_text_alignment(s, b22_s), a_t),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_add_tab(s, a_t), b23_v) == sp_ParagraphProperty_add_tab(sp_ParagraphProperty_widow_control(s, b23_v), a_t),
{}
pub proof fn order_ParagraphProperty_adjust_right_ind(s: ParagraphProperty, a_s: isize, b0_alignment_type: AlignmentType, b1_v: bool, b2_spacing: i32, b3_position: ParagraphBorderPosition, b4_chars: i32, b5_s: FrameProperty, b6_chars: i32, b7_left: Option<i32>, b7_special_indent: Option<SpecialIndentType>, b7_end: Option<i32>, b7_start_chars: Option<i32>, b8_v: bool, b9_v: bool, b10_spacing: LineSpacing, b11_id: NumberingId, b11_level: IndentLevel, b12_np: NumberingProperty, b13_v: bool, b14_p: ParagraphPropertyChange, b15_s: RunProperty, b16_s: SectionProperty, b17_border: ParagraphBorder, b18_borders: ParagraphBorders, b19_s: Shading, b20_v: bool, b21_s: TextAlignmentType, b22_v: bool)
  ensures
    sp_ParagraphProperty_align(sp_ParagraphProperty_adjust_right_ind(s, a_s), b0_alignment_type) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_align(s, b0_alignment_type), a_s),
    sp_ParagraphProperty_bidi(sp_ParagraphProperty_adjust_right_ind(s, a_s), b1_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_bidi(s, b1_v), a_s),
    sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_adjust_right_ind(s, a_s), b2_spacing) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_character_spacing(s, b2_spacing), a_s),
    sp_ParagraphProperty_clear_border(sp_ParagraphProperty_adjust_right_ind(s, a_s), b3_position) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_clear_border(s, b3_position), a_s),
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_adjust_right_ind(s, a_s), b4_chars) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_first_line_chars(s, b4_chars), a_s),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_adjust_right_ind(s, a_s), b5_s) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_frame_property(s, b5_s), a_s),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_adjust_right_ind(s, a_s), b6_chars) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_hanging_chars(s, b6_chars), a_s),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_adjust_right_ind(s, a_s), b7_left, b7_special_indent, b7_end, b7_start_chars) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_indent(s, b7_left, b7_special_indent, b7_end, b7_start_chars), a_s),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_adjust_right_ind(s, a_s), b8_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_keep_lines(s, b8_v), a_s),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_adjust_right_ind(s, a_s), b9_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_keep_next(s, b9_v), a_s),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_adjust_right_ind(s, a_s), b10_spacing) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_line_spacing(s, b10_spacing), a_s),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_adjust_right_ind(s, a_s), b11_id, b11_level) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_numbering(s, b11_id, b11_level), a_s),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_adjust_right_ind(s, a_s), b12_np) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_numbering_property(s, b12_np), a_s),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_adjust_right_ind(s, a_s), b13_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_page_break_before(s, b13_v), a_s),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_adjust_right_ind(s, a_s), b14_p) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_paragraph_property_change(s, b14_p), a_s),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_adjust_right_ind(s, a_s), b15_s) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_run_property(s, b15_s), a_s),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_adjust_right_ind(s, a_s), b16_s) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_section_property(s, b16_s), a_s),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_adjust_right_ind(s, a_s), b17_border) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_set_border(s, b17_border), a_s),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_adjust_right_ind(s, a_s), b18_borders) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_set_borders(s, b18_borders), a_s),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_adjust_right_ind(s, a_s), b19_s) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_shading(s, b19_s), a_s),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_adjust_right_ind(s, a_s), b20_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_snap_to_grid(s, b20_v), a_s),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_adjust_right_ind(s, a_s), b21_s) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_text_alignment(s, b21_s), a_s),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_adjust_right_ind(s, a_s), b22_v) == sp_ParagraphProperty_adjust_right_ind(sp_ParagraphProperty_widow_control(s, b22_v), a_s),
{}
pub proof fn order_ParagraphProperty_align(s: ParagraphProperty, a_alignment_type: AlignmentType, b0_v: bool, b1_spacing: i32, b2_position: ParagraphBorderPosition, b3_chars: i32, b4_s: FrameProperty, b5_chars: i32, b6_left: Option<i32>, b6_special_indent: Option<SpecialIndentType>, b6_end: Option<i32>, b6_start_chars: Option<i32>, b7_v: bool, b8_v: bool, b9_spacing: LineSpacing, b10_id: NumberingId, b10_level: IndentLevel, b11_np: NumberingProperty, b12_v: bool, b13_p: ParagraphPropertyChange, b14_s: RunProperty, b15_s: SectionProperty, b16_border: ParagraphBorder, b17_borders: ParagraphBorders, b18_s: Shading, b19_v: bool, b20_s: TextAlignmentType, b21_v: bool)
  ensures
    sp_ParagraphProperty_bidi(sp_ParagraphProperty_align(s, a_alignment_type), b0_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_bidi(s, b0_v), a_alignment_type),
    sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_align(s, a_alignment_type), b1_spacing) == sp_ParagraphProperty_align(sp_ParagraphProperty_character_spacing(s, b1_spacing), a_alignment_type),
    sp_ParagraphProperty_clear_border(sp_ParagraphProperty_align(s, a_alignment_type), b2_position) == sp_ParagraphProperty_align(sp_ParagraphProperty_clear_border(s, b2_position), a_alignment_type),
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_align(s, a_alignment_type), b3_chars) == sp_ParagraphProperty_align(sp_ParagraphProperty_first_line_chars(s, b3_chars), a_alignment_type),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_align(s, a_alignment_type), b4_s) == sp_ParagraphProperty_align(sp_ParagraphProperty_frame_property(s, b4_s), a_alignment_type),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_align(s, a_alignment_type), b5_chars) == sp_ParagraphProperty_align(sp_ParagraphProperty_hanging_chars(s, b5_chars), a_alignment_type),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_align(s, a_alignment_type), b6_left, b6_special_indent, b6_end, b6_start_chars) == sp_ParagraphProperty_align(sp_ParagraphProperty_indent(s, b6_left, b6_special_indent, b6_end, b6_start_chars), a_alignment_type),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_align(s, a_alignment_type), b7_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_keep_lines(s, b7_v), a_alignment_type),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_align(s, a_alignment_type), b8_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_keep_next(s, b8_v), a_alignment_type),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_align(s, a_alignment_type), b9_spacing) == sp_ParagraphProperty_align(sp_ParagraphProperty_line_spacing(s, b9_spacing), a_alignment_type),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_align(s, a_alignment_type), b10_id, b10_level) == sp_ParagraphProperty_align(sp_ParagraphProperty_numbering(s, b10_id, b10_level), a_alignment_type),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_align(s, a_alignment_type), b11_np) == sp_ParagraphProperty_align(sp_ParagraphProperty_numbering_property(s, b11_np), a_alignment_type),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_align(s, a_alignment_type), b12_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_page_break_before(s, b12_v), a_alignment_type),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_align(s, a_alignment_type), b13_p) == sp_ParagraphProperty_align(sp_ParagraphProperty_paragraph_property_change(s, b13_p), a_alignment_type),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_align(s, a_alignment_type), b14_s) == sp_ParagraphProperty_align(sp_ParagraphProperty_run_property(s, b14_s), a_alignment_type),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_align(s, a_alignment_type), b15_s) == sp_ParagraphProperty_align(sp_ParagraphProperty_section_property(s, b15_s), a_alignment_type),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_align(s, a_alignment_type), b16_border) == sp_ParagraphProperty_align(sp_ParagraphProperty_set_border(s, b16_border), a_alignment_type),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_align(s, a_alignment_type), b17_borders) == sp_ParagraphProperty_align(sp_ParagraphProperty_set_borders(s, b17_borders), a_alignment_type),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_align(s, a_alignment_type), b18_s) == sp_ParagraphProperty_align(sp_ParagraphProperty_shading(s, b18_s), a_alignment_type),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_align(s, a_alignment_type), b19_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_snap_to_grid(s, b19_v), a_alignment_type),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_align(s, a_alignment_type), b20_s) == sp_ParagraphProperty_align(sp_ParagraphProperty_text_alignment(s, b20_s), a_alignment_type),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_align(s, a_alignment_type), b21_v) == sp_ParagraphProperty_align(sp_ParagraphProperty_widow_control(s, b21_v), a_alignment_type),
{}
pub proof fn order_ParagraphProperty_bidi(s: ParagraphProperty, a_v: bool, b0_spacing: i32, b1_position: ParagraphBorderPosition, b2_chars: i32, b3_s: FrameProperty, b4_chars: i32, b5_left: Option<i32>, b5_special_indent: Option<SpecialIndentType>, b5_end: Option<i32>, b5_start_chars: Option<i32>, b6_v: bool, b7_v: bool, b8_spacing: LineSpacing, b9_id: NumberingId, b9_level: IndentLevel, b10_np: NumberingProperty, b11_v: bool, b12_p: ParagraphPropertyChange, b13_s: RunProperty, b14_s: SectionProperty, b15_border: ParagraphBorder, b16_borders: ParagraphBorders, b17_s: Shading, b18_v: bool, b19_s: TextAlignmentType, b20_v: bool)
  ensures
    sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_bidi(s, a_v), b0_spacing) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_character_spacing(s, b0_spacing), a_v),
    sp_ParagraphProperty_clear_border(sp_ParagraphProperty_bidi(s, a_v), b1_position) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_clear_border(s, b1_position), a_v),
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_bidi(s, a_v), b2_chars) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_first_line_chars(s, b2_chars), a_v),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_bidi(s, a_v), b3_s) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_frame_property(s, b3_s), a_v),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_bidi(s, a_v), b4_chars) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_hanging_chars(s, b4_chars), a_v),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_bidi(s, a_v), b5_left, b5_special_indent, b5_end, b5_start_chars) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_indent(s, b5_left, b5_special_indent, b5_end, b5_start_chars), a_v),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_bidi(s, a_v), b6_v) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_keep_lines(s, b6_v), a_v),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_bidi(s, a_v), b7_v) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_keep_next(s, b7_v), a_v),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_bidi(s, a_v), b8_spacing) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_line_spacing(s, b8_spacing), a_v),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_bidi(s, a_v), b9_id, b9_level) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_numbering(s, b9_id, b9_level), a_v),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_bidi(s, a_v), b10_np) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_numbering_property(s, b10_np), a_v),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_bidi(s, a_v), b11_v) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_page_break_before(s, b11_v), a_v),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_bidi(s, a_v), b12_p) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_paragraph_property_change(s, b12_p), a_v),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_bidi(s, a_v), b13_s) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_run_property(s, b13_s), a_v),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_bidi(s, a_v), b14_s) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_section_property(s, b14_s), a_v),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_bidi(s, a_v), b15_border) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_set_border(s, b15_border), a_v),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_bidi(s, a_v), b16_borders) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_set_borders(s, b16_borders), a_v),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_bidi(s, a_v), b17_s) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_shading(s, b17_s), a_v),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_bidi(s, a_v), b18_v) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_snap_to_grid(s, b18_v), a_v),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_bidi(s, a_v), b19_s) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_text_alignment(s, b19_s), a_v),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_bidi(s, a_v), b20_v) == sp_ParagraphProperty_bidi(sp_ParagraphProperty_widow_control(s, b20_v), a_v),
{}
pub proof fn order_ParagraphProperty_character_spacing(s: ParagraphProperty, a_spacing: i32, b0_position: ParagraphBorderPosition, b1_chars: i32, b2_s: FrameProperty, b3_chars: i32, b4_left: Option<i32>, b4_special_indent: Option<SpecialIndentType>, b4_end: Option<i32>, b4_start_chars: Option<i32>, b5_v: bool, b6_v: bool, b7_spacing: LineSpacing, b8_id: NumberingId, b8_level: IndentLevel, b9_np: NumberingProperty, b10_v: bool, b11_p: ParagraphPropertyChange, b12_s: SectionProperty, b13_border: ParagraphBorder, b14_borders: ParagraphBorders, b15_s: Shading, b16_v: bool, b17_s: TextAlignmentType, b18_v: bool)
  ensures
    sp_ParagraphProperty_clear_border(sp_ParagraphProperty_character_spacing(s, a_spacing), b0_position) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_clear_border(s, b0_position), a_spacing),
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_character_spacing(s, a_spacing), b1_chars) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_first_line_chars(s, b1_chars), a_spacing),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_character_spacing(s, a_spacing), b2_s) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_frame_property(s, b2_s), a_spacing),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_character_spacing(s, a_spacing), b3_chars) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_hanging_chars(s, b3_chars), a_spacing),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_character_spacing(s, a_spacing), b4_left, b4_special_indent, b4_end, b4_start_chars) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_indent(s, b4_left, b4_special_indent, b4_end, b4_start_chars), a_spacing),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_character_spacing(s, a_spacing), b5_v) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_keep_lines(s, b5_v), a_spacing),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_character_spacing(s, a_spacing), b6_v) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_keep_next(s, b6_v), a_spacing),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_character_spacing(s, a_spacing), b7_spacing) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_line_spacing(s, b7_spacing), a_spacing),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_character_spacing(s, a_spacing), b8_id, b8_level) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_numbering(s, b8_id, b8_level), a_spacing),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_character_spacing(s, a_spacing), b9_np) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_numbering_property(s, b9_np), a_spacing),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_character_spacing(s, a_spacing), b10_v) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_page_break_before(s, b10_v), a_spacing),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_character_spacing(s, a_spacing), b11_p) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_paragraph_property_change(s, b11_p), a_spacing),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_character_spacing(s, a_spacing), b12_s) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_section_property(s, b12_s), a_spacing),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_character_spacing(s, a_spacing), b13_border) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_set_border(s, b13_border), a_spacing),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_character_spacing(s, a_spacing), b14_borders) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_set_borders(s, b14_borders), a_spacing),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_character_spacing(s, a_spacing), b15_s) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_shading(s, b15_s), a_spacing),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_character_spacing(s, a_spacing), b16_v) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_snap_to_grid(s, b16_v), a_spacing),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_character_spacing(s, a_spacing), b17_s) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_text_alignment(s, b17_s), a_spacing),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_character_spacing(s, a_spacing), b18_v) == sp_ParagraphProperty_character_spacing(sp_ParagraphProperty_widow_control(s, b18_v), a_spacing),
{}
pub proof fn order_ParagraphProperty_clear_border(s: ParagraphProperty, a_position: ParagraphBorderPosition, b0_chars: i32, b1_s: FrameProperty, b2_chars: i32, b3_left: Option<i32>, b3_special_indent: Option<SpecialIndentType>, b3_end: Option<i32>, b3_start_chars: Option<i32>, b4_v: bool, b5_v: bool, b6_spacing: LineSpacing, b7_id: NumberingId, b7_level: IndentLevel, b8_np: NumberingProperty, b9_v: bool, b10_p: ParagraphPropertyChange, b11_s: RunProperty, b12_s: SectionProperty, b13_s: Shading, b14_v: bool, b15_s: TextAlignmentType, b16_v: bool)
  ensures
    sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_clear_border(s, a_position), b0_chars) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_first_line_chars(s, b0_chars), a_position),
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_clear_border(s, a_position), b1_s) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_frame_property(s, b1_s), a_position),
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_clear_border(s, a_position), b2_chars) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_hanging_chars(s, b2_chars), a_position),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_clear_border(s, a_position), b3_left, b3_special_indent, b3_end, b3_start_chars) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_indent(s, b3_left, b3_special_indent, b3_end, b3_start_chars), a_position),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_clear_border(s, a_position), b4_v) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_keep_lines(s, b4_v), a_position),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_clear_border(s, a_position), b5_v) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_keep_next(s, b5_v), a_position),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_clear_border(s, a_position), b6_spacing) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_line_spacing(s, b6_spacing), a_position),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_clear_border(s, a_position), b7_id, b7_level) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_numbering(s, b7_id, b7_level), a_position),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_clear_border(s, a_position), b8_np) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_numbering_property(s, b8_np), a_position),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_clear_border(s, a_position), b9_v) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_page_break_before(s, b9_v), a_position),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_clear_border(s, a_position), b10_p) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_paragraph_property_change(s, b10_p), a_position),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_clear_border(s, a_position), b11_s) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_run_property(s, b11_s), a_position),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_clear_border(s, a_position), b12_s) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_section_property(s, b12_s), a_position),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_clear_border(s, a_position), b13_s) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_shading(s, b13_s), a_position),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_clear_border(s, a_position), b14_v) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_snap_to_grid(s, b14_v), a_position),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_clear_border(s, a_position), b15_s) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_text_alignment(s, b15_s), a_position),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_clear_border(s, a_position), b16_v) == sp_ParagraphProperty_clear_border(sp_ParagraphProperty_widow_control(s, b16_v), a_position),
{}
pub proof fn order_ParagraphProperty_first_line_chars(s: ParagraphProperty, a_chars: i32, b0_s: FrameProperty, b1_v: bool, b2_v: bool, b3_spacing: LineSpacing, b4_id: NumberingId, b4_level: IndentLevel, b5_np: NumberingProperty, b6_v: bool, b7_p: ParagraphPropertyChange, b8_s: RunProperty, b9_s: SectionProperty, b10_border: ParagraphBorder, b11_borders: ParagraphBorders, b12_s: Shading, b13_v: bool, b14_s: TextAlignmentType, b15_v: bool)
  ensures
    sp_ParagraphProperty_frame_property(sp_ParagraphProperty_first_line_chars(s, a_chars), b0_s) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_frame_property(s, b0_s), a_chars),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_first_line_chars(s, a_chars), b1_v) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_keep_lines(s, b1_v), a_chars),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_first_line_chars(s, a_chars), b2_v) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_keep_next(s, b2_v), a_chars),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_first_line_chars(s, a_chars), b3_spacing) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_line_spacing(s, b3_spacing), a_chars),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_first_line_chars(s, a_chars), b4_id, b4_level) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_numbering(s, b4_id, b4_level), a_chars),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_first_line_chars(s, a_chars), b5_np) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_numbering_property(s, b5_np), a_chars),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_first_line_chars(s, a_chars), b6_v) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_page_break_before(s, b6_v), a_chars),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_first_line_chars(s, a_chars), b7_p) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_paragraph_property_change(s, b7_p), a_chars),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_first_line_chars(s, a_chars), b8_s) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_run_property(s, b8_s), a_chars),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_first_line_chars(s, a_chars), b9_s) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_section_property(s, b9_s), a_chars),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_first_line_chars(s, a_chars), b10_border) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_set_border(s, b10_border), a_chars),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_first_line_chars(s, a_chars), b11_borders) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_set_borders(s, b11_borders), a_chars),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_first_line_chars(s, a_chars), b12_s) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_shading(s, b12_s), a_chars),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_first_line_chars(s, a_chars), b13_v) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_snap_to_grid(s, b13_v), a_chars),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_first_line_chars(s, a_chars), b14_s) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_text_alignment(s, b14_s), a_chars),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_first_line_chars(s, a_chars), b15_v) == sp_ParagraphProperty_first_line_chars(sp_ParagraphProperty_widow_control(s, b15_v), a_chars),
{}
pub proof fn order_ParagraphProperty_frame_property(s: ParagraphProperty, a_s: FrameProperty, b0_chars: i32, b1_left: Option<i32>, b1_special_indent: Option<SpecialIndentType>, b1_end: Option<i32>, b1_start_chars: Option<i32>, b2_v: bool, b3_v: bool, b4_spacing: LineSpacing, b5_id: NumberingId, b5_level: IndentLevel, b6_np: NumberingProperty, b7_v: bool, b8_p: ParagraphPropertyChange, b9_s: RunProperty, b10_s: SectionProperty, b11_border: ParagraphBorder, b12_borders: ParagraphBorders, b13_s: Shading, b14_v: bool, b15_s: TextAlignmentType, b16_v: bool)
  ensures
    sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_frame_property(s, a_s), b0_chars) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_hanging_chars(s, b0_chars), a_s),
    sp_ParagraphProperty_indent(sp_ParagraphProperty_frame_property(s, a_s), b1_left, b1_special_indent, b1_end, b1_start_chars) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_indent(s, b1_left, b1_special_indent, b1_end, b1_start_chars), a_s),
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_frame_property(s, a_s), b2_v) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_keep_lines(s, b2_v), a_s),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_frame_property(s, a_s), b3_v) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_keep_next(s, b3_v), a_s),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_frame_property(s, a_s), b4_spacing) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_line_spacing(s, b4_spacing), a_s),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_frame_property(s, a_s), b5_id, b5_level) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_numbering(s, b5_id, b5_level), a_s),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_frame_property(s, a_s), b6_np) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_numbering_property(s, b6_np), a_s),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_frame_property(s, a_s), b7_v) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_page_break_before(s, b7_v), a_s),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_frame_property(s, a_s), b8_p) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_paragraph_property_change(s, b8_p), a_s),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_frame_property(s, a_s), b9_s) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_run_property(s, b9_s), a_s),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_frame_property(s, a_s), b10_s) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_section_property(s, b10_s), a_s),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_frame_property(s, a_s), b11_border) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_set_border(s, b11_border), a_s),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_frame_property(s, a_s), b12_borders) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_set_borders(s, b12_borders), a_s),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_frame_property(s, a_s), b13_s) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_shading(s, b13_s), a_s),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_frame_property(s, a_s), b14_v) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_snap_to_grid(s, b14_v), a_s),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_frame_property(s, a_s), b15_s) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_text_alignment(s, b15_s), a_s),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_frame_property(s, a_s), b16_v) == sp_ParagraphProperty_frame_property(sp_ParagraphProperty_widow_control(s, b16_v), a_s),
{}
pub proof fn order_ParagraphProperty_hanging_chars(s: ParagraphProperty, a_chars: i32, b0_v: bool, b1_v: bool, b2_spacing: LineSpacing, b3_id: NumberingId, b3_level: IndentLevel, b4_np: NumberingProperty, b5_v: bool, b6_p: ParagraphPropertyChange, b7_s: RunProperty, b8_s: SectionProperty, b9_border: ParagraphBorder, b10_borders: ParagraphBorders, b11_s: Shading, b12_v: bool, b13_s: TextAlignmentType, b14_v: bool)
  ensures
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_hanging_chars(s, a_chars), b0_v) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_keep_lines(s, b0_v), a_chars),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_hanging_chars(s, a_chars), b1_v) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_keep_next(s, b1_v), a_chars),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_hanging_chars(s, a_chars), b2_spacing) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_line_spacing(s, b2_spacing), a_chars),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_hanging_chars(s, a_chars), b3_id, b3_level) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_numbering(s, b3_id, b3_level), a_chars),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_hanging_chars(s, a_chars), b4_np) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_numbering_property(s, b4_np), a_chars),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_hanging_chars(s, a_chars), b5_v) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_page_break_before(s, b5_v), a_chars),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_hanging_chars(s, a_chars), b6_p) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_paragraph_property_change(s, b6_p), a_chars),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_hanging_chars(s, a_chars), b7_s) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_run_property(s, b7_s), a_chars),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_hanging_chars(s, a_chars), b8_s) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_section_property(s, b8_s), a_chars),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_hanging_chars(s, a_chars), b9_border) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_set_border(s, b9_border), a_chars),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_hanging_chars(s, a_chars), b10_borders) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_set_borders(s, b10_borders), a_chars),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_hanging_chars(s, a_chars), b11_s) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_shading(s, b11_s), a_chars),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_hanging_chars(s, a_chars), b12_v) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_snap_to_grid(s, b12_v), a_chars),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_hanging_chars(s, a_chars), b13_s) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_text_alignment(s, b13_s), a_chars),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_hanging_chars(s, a_chars), b14_v) == sp_ParagraphProperty_hanging_chars(sp_ParagraphProperty_widow_control(s, b14_v), a_chars),
{}
pub proof fn order_ParagraphProperty_indent(s: ParagraphProperty, a_left: Option<i32>, a_special_indent: Option<SpecialIndentType>, a_end: Option<i32>, a_start_chars: Option<i32>, b0_v: bool, b1_v: bool, b2_spacing: LineSpacing, b3_id: NumberingId, b3_level: IndentLevel, b4_np: NumberingProperty, b5_v: bool, b6_p: ParagraphPropertyChange, b7_s: RunProperty, b8_s: SectionProperty, b9_border: ParagraphBorder, b10_borders: ParagraphBorders, b11_s: Shading, b12_v: bool, b13_s: TextAlignmentType, b14_v: bool)
  ensures
    sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b0_v) == sp_ParagraphProperty_indent(sp_ParagraphProperty_keep_lines(s, b0_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b1_v) == sp_ParagraphProperty_indent(sp_ParagraphProperty_keep_next(s, b1_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b2_spacing) == sp_ParagraphProperty_indent(sp_ParagraphProperty_line_spacing(s, b2_spacing), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b3_id, b3_level) == sp_ParagraphProperty_indent(sp_ParagraphProperty_numbering(s, b3_id, b3_level), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b4_np) == sp_ParagraphProperty_indent(sp_ParagraphProperty_numbering_property(s, b4_np), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b5_v) == sp_ParagraphProperty_indent(sp_ParagraphProperty_page_break_before(s, b5_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b6_p) == sp_ParagraphProperty_indent(sp_ParagraphProperty_paragraph_property_change(s, b6_p), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b7_s) == sp_ParagraphProperty_indent(sp_ParagraphProperty_run_property(s, b7_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b8_s) == sp_ParagraphProperty_indent(sp_ParagraphProperty_section_property(s, b8_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b9_border) == sp_ParagraphProperty_indent(sp_ParagraphProperty_set_border(s, b9_border), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b10_borders) == sp_ParagraphProperty_indent(sp_ParagraphProperty_set_borders(s, b10_borders), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b11_s) == sp_ParagraphProperty_indent(sp_ParagraphProperty_shading(s, b11_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b12_v) == sp_ParagraphProperty_indent(sp_ParagraphProperty_snap_to_grid(s, b12_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b13_s) == sp_ParagraphProperty_indent(sp_ParagraphProperty_text_alignment(s, b13_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_indent(s, a_left, a_special_indent, a_end, a_start_chars), b14_v) == sp_ParagraphProperty_indent(sp_ParagraphProperty_widow_control(s, b14_v), a_left, a_special_indent, a_end, a_start_chars),
{}
pub proof fn order_ParagraphProperty_keep_lines(s: ParagraphProperty, a_v: bool, b0_v: bool, b1_spacing: LineSpacing, b2_id: NumberingId, b2_level: IndentLevel, b3_np: NumberingProperty, b4_v: bool, b5_p: ParagraphPropertyChange, b6_s: RunProperty, b7_s: SectionProperty, b8_border: ParagraphBorder, b9_borders: ParagraphBorders, b10_s: Shading, b11_v: bool, b12_s: TextAlignmentType, b13_v: bool)
  ensures
    sp_ParagraphProperty_keep_next(sp_ParagraphProperty_keep_lines(s, a_v), b0_v) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_keep_next(s, b0_v), a_v),
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_keep_lines(s, a_v), b1_spacing) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_line_spacing(s, b1_spacing), a_v),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_keep_lines(s, a_v), b2_id, b2_level) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_numbering(s, b2_id, b2_level), a_v),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_keep_lines(s, a_v), b3_np) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_numbering_property(s, b3_np), a_v),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_keep_lines(s, a_v), b4_v) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_page_break_before(s, b4_v), a_v),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_keep_lines(s, a_v), b5_p) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_paragraph_property_change(s, b5_p), a_v),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_keep_lines(s, a_v), b6_s) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_run_property(s, b6_s), a_v),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_keep_lines(s, a_v), b7_s) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_section_property(s, b7_s), a_v),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_keep_lines(s, a_v), b8_border) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_set_border(s, b8_border), a_v),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_keep_lines(s, a_v), b9_borders) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_set_borders(s, b9_borders), a_v),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_keep_lines(s, a_v), b10_s) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_shading(s, b10_s), a_v),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_keep_lines(s, a_v), b11_v) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_snap_to_grid(s, b11_v), a_v),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_keep_lines(s, a_v), b12_s) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_text_alignment(s, b12_s), a_v),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_keep_lines(s, a_v), b13_v) == sp_ParagraphProperty_keep_lines(sp_ParagraphProperty_widow_control(s, b13_v), a_v),
{}
pub proof fn order_ParagraphProperty_keep_next(s: ParagraphProperty, a_v: bool, b0_spacing: LineSpacing, b1_id: NumberingId, b1_level: IndentLevel, b2_np: NumberingProperty, b3_v: bool, b4_p: ParagraphPropertyChange, b5_s: RunProperty, b6_s: SectionProperty, b7_border: ParagraphBorder, b8_borders: ParagraphBorders, b9_s: Shading, b10_v: bool, b11_s: TextAlignmentType, b12_v: bool)
  ensures
    sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_keep_next(s, a_v), b0_spacing) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_line_spacing(s, b0_spacing), a_v),
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_keep_next(s, a_v), b1_id, b1_level) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_numbering(s, b1_id, b1_level), a_v),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_keep_next(s, a_v), b2_np) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_numbering_property(s, b2_np), a_v),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_keep_next(s, a_v), b3_v) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_page_break_before(s, b3_v), a_v),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_keep_next(s, a_v), b4_p) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_paragraph_property_change(s, b4_p), a_v),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_keep_next(s, a_v), b5_s) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_run_property(s, b5_s), a_v),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_keep_next(s, a_v), b6_s) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_section_property(s, b6_s), a_v),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_keep_next(s, a_v), b7_border) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_set_border(s, b7_border), a_v),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_keep_next(s, a_v), b8_borders) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_set_borders(s, b8_borders), a_v),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_keep_next(s, a_v), b9_s) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_shading(s, b9_s), a_v),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_keep_next(s, a_v), b10_v) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_snap_to_grid(s, b10_v), a_v),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_keep_next(s, a_v), b11_s) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_text_alignment(s, b11_s), a_v),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_keep_next(s, a_v), b12_v) == sp_ParagraphProperty_keep_next(sp_ParagraphProperty_widow_control(s, b12_v), a_v),
{}
pub proof fn order_ParagraphProperty_line_spacing(s: ParagraphProperty, a_spacing: LineSpacing, b0_id: NumberingId, b0_level: IndentLevel, b1_np: NumberingProperty, b2_v: bool, b3_p: ParagraphPropertyChange, b4_s: RunProperty, b5_s: SectionProperty, b6_border: ParagraphBorder, b7_borders: ParagraphBorders, b8_s: Shading, b9_v: bool, b10_s: TextAlignmentType, b11_v: bool)
  ensures
    sp_ParagraphProperty_numbering(sp_ParagraphProperty_line_spacing(s, a_spacing), b0_id, b0_level) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_numbering(s, b0_id, b0_level), a_spacing),
    sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_line_spacing(s, a_spacing), b1_np) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_numbering_property(s, b1_np), a_spacing),
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_line_spacing(s, a_spacing), b2_v) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_page_break_before(s, b2_v), a_spacing),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_line_spacing(s, a_spacing), b3_p) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_paragraph_property_change(s, b3_p), a_spacing),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_line_spacing(s, a_spacing), b4_s) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_run_property(s, b4_s), a_spacing),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_line_spacing(s, a_spacing), b5_s) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_section_property(s, b5_s), a_spacing),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_line_spacing(s, a_spacing), b6_border) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_set_border(s, b6_border), a_spacing),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_line_spacing(s, a_spacing), b7_borders) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_set_borders(s, b7_borders), a_spacing),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_line_spacing(s, a_spacing), b8_s) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_shading(s, b8_s), a_spacing),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_line_spacing(s, a_spacing), b9_v) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_snap_to_grid(s, b9_v), a_spacing),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_line_spacing(s, a_spacing), b10_s) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_text_alignment(s, b10_s), a_spacing),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_line_spacing(s, a_spacing), b11_v) == sp_ParagraphProperty_line_spacing(sp_ParagraphProperty_widow_control(s, b11_v), a_spacing),
{}
pub proof fn order_ParagraphProperty_numbering(s: ParagraphProperty, a_id: NumberingId, a_level: IndentLevel, b0_v: bool, b1_p: ParagraphPropertyChange, b2_s: RunProperty, b3_s: SectionProperty, b4_border: ParagraphBorder, b5_borders: ParagraphBorders, b6_s: Shading, b7_v: bool, b8_s: TextAlignmentType, b9_v: bool)
  ensures
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_numbering(s, a_id, a_level), b0_v) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_page_break_before(s, b0_v), a_id, a_level),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_numbering(s, a_id, a_level), b1_p) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_paragraph_property_change(s, b1_p), a_id, a_level),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_numbering(s, a_id, a_level), b2_s) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_run_property(s, b2_s), a_id, a_level),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_numbering(s, a_id, a_level), b3_s) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_section_property(s, b3_s), a_id, a_level),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_numbering(s, a_id, a_level), b4_border) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_set_border(s, b4_border), a_id, a_level),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_numbering(s, a_id, a_level), b5_borders) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_set_borders(s, b5_borders), a_id, a_level),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_numbering(s, a_id, a_level), b6_s) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_shading(s, b6_s), a_id, a_level),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_numbering(s, a_id, a_level), b7_v) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_snap_to_grid(s, b7_v), a_id, a_level),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_numbering(s, a_id, a_level), b8_s) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_text_alignment(s, b8_s), a_id, a_level),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_numbering(s, a_id, a_level), b9_v) == sp_ParagraphProperty_numbering(sp_ParagraphProperty_widow_control(s, b9_v), a_id, a_level),
{}
pub proof fn order_ParagraphProperty_numbering_property(s: ParagraphProperty, a_np: NumberingProperty, b0_v: bool, b1_p: ParagraphPropertyChange, b2_s: RunProperty, b3_s: SectionProperty, b4_border: ParagraphBorder, b5_borders: ParagraphBorders, b6_s: Shading, b7_v: bool, b8_s: TextAlignmentType, b9_v: bool)
  ensures
    sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_numbering_property(s, a_np), b0_v) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_page_break_before(s, b0_v), a_np),
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_numbering_property(s, a_np), b1_p) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_paragraph_property_change(s, b1_p), a_np),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_numbering_property(s, a_np), b2_s) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_run_property(s, b2_s), a_np),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_numbering_property(s, a_np), b3_s) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_section_property(s, b3_s), a_np),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_numbering_property(s, a_np), b4_border) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_set_border(s, b4_border), a_np),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_numbering_property(s, a_np), b5_borders) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_set_borders(s, b5_borders), a_np),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_numbering_property(s, a_np), b6_s) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_shading(s, b6_s), a_np),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_numbering_property(s, a_np), b7_v) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_snap_to_grid(s, b7_v), a_np),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_numbering_property(s, a_np), b8_s) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_text_alignment(s, b8_s), a_np),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_numbering_property(s, a_np), b9_v) == sp_ParagraphProperty_numbering_property(sp_ParagraphProperty_widow_control(s, b9_v), a_np),
{}
pub proof fn order_ParagraphProperty_page_break_before(s: ParagraphProperty, a_v: bool, b0_p: ParagraphPropertyChange, b1_s: RunProperty, b2_s: SectionProperty, b3_border: ParagraphBorder, b4_borders: ParagraphBorders, b5_s: Shading, b6_v: bool, b7_s: TextAlignmentType, b8_v: bool)
  ensures
    sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_page_break_before(s, a_v), b0_p) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_paragraph_property_change(s, b0_p), a_v),
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_page_break_before(s, a_v), b1_s) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_run_property(s, b1_s), a_v),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_page_break_before(s, a_v), b2_s) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_section_property(s, b2_s), a_v),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_page_break_before(s, a_v), b3_border) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_set_border(s, b3_border), a_v),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_page_break_before(s, a_v), b4_borders) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_set_borders(s, b4_borders), a_v),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_page_break_before(s, a_v), b5_s) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_shading(s, b5_s), a_v),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_page_break_before(s, a_v), b6_v) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_snap_to_grid(s, b6_v), a_v),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_page_break_before(s, a_v), b7_s) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_text_alignment(s, b7_s), a_v),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_page_break_before(s, a_v), b8_v) == sp_ParagraphProperty_page_break_before(sp_ParagraphProperty_widow_control(s, b8_v), a_v),
{}
pub proof fn order_ParagraphProperty_paragraph_property_change(s: ParagraphProperty, a_p: ParagraphPropertyChange, b0_s: RunProperty, b1_s: SectionProperty, b2_border: ParagraphBorder, b3_borders: ParagraphBorders, b4_s: Shading, b5_v: bool, b6_s: TextAlignmentType, b7_v: bool)
  ensures
    sp_ParagraphProperty_run_property(sp_ParagraphProperty_paragraph_property_change(s, a_p), b0_s) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_run_property(s, b0_s), a_p),
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_paragraph_property_change(s, a_p), b1_s) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_section_property(s, b1_s), a_p),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_paragraph_property_change(s, a_p), b2_border) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_set_border(s, b2_border), a_p),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_paragraph_property_change(s, a_p), b3_borders) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_set_borders(s, b3_borders), a_p),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_paragraph_property_change(s, a_p), b4_s) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_shading(s, b4_s), a_p),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_paragraph_property_change(s, a_p), b5_v) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_snap_to_grid(s, b5_v), a_p),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_paragraph_property_change(s, a_p), b6_s) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_text_alignment(s, b6_s), a_p),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_paragraph_property_change(s, a_p), b7_v) == sp_ParagraphProperty_paragraph_property_change(sp_ParagraphProperty_widow_control(s, b7_v), a_p),
{}
pub proof fn order_ParagraphProperty_run_property(s: ParagraphProperty, a_s: RunProperty, b0_s: SectionProperty, b1_border: ParagraphBorder, b2_borders: ParagraphBorders, b3_s: Shading, b4_v: bool, b5_s: TextAlignmentType, b6_v: bool)
  ensures
    sp_ParagraphProperty_section_property(sp_ParagraphProperty_run_property(s, a_s), b0_s) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_section_property(s, b0_s), a_s),
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_run_property(s, a_s), b1_border) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_set_border(s, b1_border), a_s),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_run_property(s, a_s), b2_borders) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_set_borders(s, b2_borders), a_s),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_run_property(s, a_s), b3_s) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_shading(s, b3_s), a_s),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_run_property(s, a_s), b4_v) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_snap_to_grid(s, b4_v), a_s),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_run_property(s, a_s), b5_s) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_text_alignment(s, b5_s), a_s),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_run_property(s, a_s), b6_v) == sp_ParagraphProperty_run_property(sp_ParagraphProperty_widow_control(s, b6_v), a_s),
{}
pub proof fn order_ParagraphProperty_section_property(s: ParagraphProperty, a_s: SectionProperty, b0_border: ParagraphBorder, b1_borders: ParagraphBorders, b2_s: Shading, b3_v: bool, b4_s: TextAlignmentType, b5_v: bool)
  ensures
    sp_ParagraphProperty_set_border(sp_ParagraphProperty_section_property(s, a_s), b0_border) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_set_border(s, b0_border), a_s),
    sp_ParagraphProperty_set_borders(sp_ParagraphProperty_section_property(s, a_s), b1_borders) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_set_borders(s, b1_borders), a_s),
    sp_ParagraphProperty_shading(sp_ParagraphProperty_section_property(s, a_s), b2_s) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_shading(s, b2_s), a_s),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_section_property(s, a_s), b3_v) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_snap_to_grid(s, b3_v), a_s),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_section_property(s, a_s), b4_s) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_text_alignment(s, b4_s), a_s),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_section_property(s, a_s), b5_v) == sp_ParagraphProperty_section_property(sp_ParagraphProperty_widow_control(s, b5_v), a_s),
{}
pub proof fn order_ParagraphProperty_set_border(s: ParagraphProperty, a_border: ParagraphBorder, b0_s: Shading, b1_v: bool, b2_s: TextAlignmentType, b3_v: bool)
  ensures
    sp_ParagraphProperty_shading(sp_ParagraphProperty_set_border(s, a_border), b0_s) == sp_ParagraphProperty_set_border(sp_ParagraphProperty_shading(s, b0_s), a_border),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_set_border(s, a_border), b1_v) == sp_ParagraphProperty_set_border(sp_ParagraphProperty_snap_to_grid(s, b1_v), a_border),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_set_border(s, a_border), b2_s) == sp_ParagraphProperty_set_border(sp_ParagraphProperty_text_alignment(s, b2_s), a_border),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_set_border(s, a_border), b3_v) == sp_ParagraphProperty_set_border(sp_ParagraphProperty_widow_control(s, b3_v), a_border),
{}
pub proof fn order_ParagraphProperty_set_borders(s: ParagraphProperty, a_borders: ParagraphBorders, b0_s: Shading, b1_v: bool, b2_s: TextAlignmentType, b3_v: bool)
  ensures
    sp_ParagraphProperty_shading(sp_ParagraphProperty_set_borders(s, a_borders), b0_s) == sp_ParagraphProperty_set_borders(sp_ParagraphProperty_shading(s, b0_s), a_borders),
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_set_borders(s, a_borders), b1_v) == sp_ParagraphProperty_set_borders(sp_ParagraphProperty_snap_to_grid(s, b1_v), a_borders),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_set_borders(s, a_borders), b2_s) == sp_ParagraphProperty_set_borders(sp_ParagraphProperty_text_alignment(s, b2_s), a_borders),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_set_borders(s, a_borders), b3_v) == sp_ParagraphProperty_set_borders(sp_ParagraphProperty_widow_control(s, b3_v), a_borders),
{}
pub proof fn order_ParagraphProperty_shading(s: ParagraphProperty, a_s: Shading, b0_v: bool, b1_s: TextAlignmentType, b2_v: bool)
  ensures
    sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_shading(s, a_s), b0_v) == sp_ParagraphProperty_shading(sp_ParagraphProperty_snap_to_grid(s, b0_v), a_s),
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_shading(s, a_s), b1_s) == sp_ParagraphProperty_shading(sp_ParagraphProperty_text_alignment(s, b1_s), a_s),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_shading(s, a_s), b2_v) == sp_ParagraphProperty_shading(sp_ParagraphProperty_widow_control(s, b2_v), a_s),
{}
pub proof fn order_ParagraphProperty_snap_to_grid(s: ParagraphProperty, a_v: bool, b0_s: TextAlignmentType, b1_v: bool)
  ensures
    sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_snap_to_grid(s, a_v), b0_s) == sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_text_alignment(s, b0_s), a_v),
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_snap_to_grid(s, a_v), b1_v) == sp_ParagraphProperty_snap_to_grid(sp_ParagraphProperty_widow_control(s, b1_v), a_v),
{}
pub proof fn order_ParagraphProperty_text_alignment(s: ParagraphProperty, a_s: TextAlignmentType, b0_v: bool)
  ensures
    sp_ParagraphProperty_widow_control(sp_ParagraphProperty_text_alignment(s, a_s), b0_v) == sp_ParagraphProperty_text_alignment(sp_ParagraphProperty_widow_control(s, b0_v), a_s),
{}
pub proof fn order_TableProperty_align(s: TableProperty, a_v: TableAlignmentType, b1_position: TableBorderPosition, b2_v: i32, b3_t: TableLayoutType, b4_p: TablePositionProperty, b5_border: TableBorder, b6_borders: TableBorders, b7_margins: TableCellMargins, b8_s: Seq<char>, b9_v: usize, b9_t: WidthType)
  ensures
    sp_TableProperty_clear_all_border(sp_TableProperty_align(s, a_v)) == sp_TableProperty_align(sp_TableProperty_clear_all_border(s), a_v),
    sp_TableProperty_clear_border(sp_TableProperty_align(s, a_v), b1_position) == sp_TableProperty_align(sp_TableProperty_clear_border(s, b1_position), a_v),
    sp_TableProperty_indent(sp_TableProperty_align(s, a_v), b2_v) == sp_TableProperty_align(sp_TableProperty_indent(s, b2_v), a_v),
    sp_TableProperty_layout(sp_TableProperty_align(s, a_v), b3_t) == sp_TableProperty_align(sp_TableProperty_layout(s, b3_t), a_v),
    sp_TableProperty_position(sp_TableProperty_align(s, a_v), b4_p) == sp_TableProperty_align(sp_TableProperty_position(s, b4_p), a_v),
    sp_TableProperty_set_border(sp_TableProperty_align(s, a_v), b5_border) == sp_TableProperty_align(sp_TableProperty_set_border(s, b5_border), a_v),
    sp_TableProperty_set_borders(sp_TableProperty_align(s, a_v), b6_borders) == sp_TableProperty_align(sp_TableProperty_set_borders(s, b6_borders), a_v),
    sp_TableProperty_set_margins(sp_TableProperty_align(s, a_v), b7_margins) == sp_TableProperty_align(sp_TableProperty_set_margins(s, b7_margins), a_v),
    sp_TableProperty_style(sp_TableProperty_align(s, a_v), b8_s) == sp_TableProperty_align(sp_TableProperty_style(s, b8_s), a_v),
    sp_TableProperty_width(sp_TableProperty_align(s, a_v), b9_v, b9_t) == sp_TableProperty_align(sp_TableProperty_width(s, b9_v, b9_t), a_v),
{}
pub proof fn order_TableProperty_clear_all_border(s: TableProperty, b0_v: i32, b1_t: TableLayoutType, b2_p: TablePositionProperty, b3_margins: TableCellMargins, b4_s: Seq<char>, b5_v: usize, b5_t: WidthType)
  ensures
    sp_TableProperty_indent(sp_TableProperty_clear_all_border(s), b0_v) == sp_TableProperty_clear_all_border(sp_TableProperty_indent(s, b0_v)),
    sp_TableProperty_layout(sp_TableProperty_clear_all_border(s), b1_t) == sp_TableProperty_clear_all_border(sp_TableProperty_layout(s, b1_t)),
    sp_TableProperty_position(sp_TableProperty_clear_all_border(s), b2_p) == sp_TableProperty_clear_all_border(sp_TableProperty_position(s, b2_p)),
    sp_TableProperty_set_margins(sp_TableProperty_clear_all_border(s), b3_margins) == sp_TableProperty_clear_all_border(sp_TableProperty_set_margins(s, b3_margins)),
    sp_TableProperty_style(sp_TableProperty_clear_all_border(s), b4_s) == sp_TableProperty_clear_all_border(sp_TableProperty_style(s, b4_s)),
    sp_TableProperty_width(sp_TableProperty_clear_all_border(s), b5_v, b5_t) == sp_TableProperty_clear_all_border(sp_TableProperty_width(s, b5_v, b5_t)),
{}
pub proof fn order_TableProperty_clear_border(s: TableProperty, a_position: TableBorderPosition, b0_v: i32, b1_t: TableLayoutType, b2_p: TablePositionProperty, b3_margins: TableCellMargins, b4_s: Seq<char>, b5_v: usize, b5_t: WidthType)
  ensures
    sp_TableProperty_indent(sp_TableProperty_clear_border(s, a_position), b0_v) == sp_TableProperty_clear_border(sp_TableProperty_indent(s, b0_v), a_position),
    sp_TableProperty_layout(sp_TableProperty_clear_border(s, a_position), b1_t) == sp_TableProperty_clear_border(sp_TableProperty_layout(s, b1_t), a_position),
    sp_TableProperty_position(sp_TableProperty_clear_border(s, a_position), b2_p) == sp_TableProperty_clear_border(sp_TableProperty_position(s, b2_p), a_position),
    sp_TableProperty_set_margins(sp_TableProperty_clear_border(s, a_position), b3_margins) == sp_TableProperty_clear_border(sp_TableProperty_set_margins(s, b3_margins), a_position),
    sp_TableProperty_style(sp_TableProperty_clear_border(s, a_position), b4_s) == sp_TableProperty_clear_border(sp_TableProperty_style(s, b4_s), a_position),
    sp_TableProperty_width(sp_TableProperty_clear_border(s, a_position), b5_v, b5_t) == sp_TableProperty_clear_border(sp_TableProperty_width(s, b5_v, b5_t), a_position),
{}
pub proof fn order_TableProperty_indent(s: TableProperty, a_v: i32, b0_t: TableLayoutType, b1_p: TablePositionProperty, b2_border: TableBorder, b3_borders: TableBorders, b4_margins: TableCellMargins, b5_s: Seq<char>, b6_v: usize, b6_t: WidthType)
  ensures
    sp_TableProperty_layout(sp_TableProperty_indent(s, a_v), b0_t) == sp_TableProperty_indent(sp_TableProperty_layout(s, b0_t), a_v),
    sp_TableProperty_position(sp_TableProperty_indent(s, a_v), b1_p) == sp_TableProperty_indent(sp_TableProperty_position(s, b1_p), a_v),
    sp_TableProperty_set_border(sp_TableProperty_indent(s, a_v), b2_border) == sp_TableProperty_indent(sp_TableProperty_set_border(s, b2_border), a_v),
    sp_TableProperty_set_borders(sp_TableProperty_indent(s, a_v), b3_borders) == sp_TableProperty_indent(sp_TableProperty_set_borders(s, b3_borders), a_v),
    sp_TableProperty_set_margins(sp_TableProperty_indent(s, a_v), b4_margins) == sp_TableProperty_indent(sp_TableProperty_set_margins(s, b4_margins), a_v),
    sp_TableProperty_style(sp_TableProperty_indent(s, a_v), b5_s) == sp_TableProperty_indent(sp_TableProperty_style(s, b5_s), a_v),
    sp_TableProperty_width(sp_TableProperty_indent(s, a_v), b6_v, b6_t) == sp_TableProperty_indent(sp_TableProperty_width(s, b6_v, b6_t), a_v),
{}
pub proof fn order_TableProperty_layout(s: TableProperty, a_t: TableLayoutType, b0_p: TablePositionProperty, b1_border: TableBorder, b2_borders: TableBorders, b3_margins: TableCellMargins, b4_s: Seq<char>, b5_v: usize, b5_t: WidthType)
  ensures
    sp_TableProperty_position(sp_TableProperty_layout(s, a_t), b0_p) == sp_TableProperty_layout(sp_TableProperty_position(s, b0_p), a_t),
    sp_TableProperty_set_border(sp_TableProperty_layout(s, a_t), b1_border) == sp_TableProperty_layout(sp_TableProperty_set_border(s, b1_border), a_t),
    sp_TableProperty_set_borders(sp_TableProperty_layout(s, a_t), b2_borders) == sp_TableProperty_layout(sp_TableProperty_set_borders(s, b2_borders), a_t),
    sp_TableProperty_set_margins(sp_TableProperty_layout(s, a_t), b3_margins) == sp_TableProperty_layout(sp_TableProperty_set_margins(s, b3_margins), a_t),
    sp_TableProperty_style(sp_TableProperty_layout(s, a_t), b4_s) == sp_TableProperty_layout(sp_TableProperty_style(s, b4_s), a_t),
    sp_TableProperty_width(sp_TableProperty_layout(s, a_t), b5_v, b5_t) == sp_TableProperty_layout(sp_TableProperty_width(s, b5_v, b5_t), a_t),
{}
pub proof fn order_TableProperty_position(s: TableProperty, a_p: TablePositionProperty, b0_border: TableBorder, b1_borders: TableBorders, b2_margins: TableCellMargins, b3_s: Seq<char>, b4_v: usize, b4_t: WidthType)
  ensures
    sp_TableProperty_set_border(sp_TableProperty_position(s, a_p), b0_border) == sp_TableProperty_position(sp_TableProperty_set_border(s, b0_border), a_p),
    sp_TableProperty_set_borders(sp_TableProperty_position(s, a_p), b1_borders) == sp_TableProperty_position(sp_TableProperty_set_borders(s, b1_borders), a_p),
    sp_TableProperty_set_margins(sp_TableProperty_position(s, a_p), b2_margins) == sp_TableProperty_position(sp_TableProperty_set_margins(s, b2_margins), a_p),
    sp_TableProperty_style(sp_TableProperty_position(s, a_p), b3_s) == sp_TableProperty_position(sp_TableProperty_style(s, b3_s), a_p),
    sp_TableProperty_width(sp_TableProperty_position(s, a_p), b4_v, b4_t) == sp_TableProperty_position(sp_TableProperty_width(s, b4_v, b4_t), a_p),
{}
pub proof fn order_TableProperty_set_border(s: TableProperty, a_border: TableBorder, b0_margins: TableCellMargins, b1_s: Seq<char>, b2_v: usize, b2_t: WidthType)
  ensures
    sp_TableProperty_set_margins(sp_TableProperty_set_border(s, a_border), b0_margins) == sp_TableProperty_set_border(sp_TableProperty_set_margins(s, b0_margins), a_border),
    sp_TableProperty_style(sp_TableProperty_set_border(s, a_border), b1_s) == sp_TableProperty_set_border(sp_TableProperty_style(s, b1_s), a_border),
    sp_TableProperty_width(sp_TableProperty_set_border(s, a_border), b2_v, b2_t) == sp_TableProperty_set_border(sp_TableProperty_width(s, b2_v, b2_t), a_border),
{}
pub proof fn order_TableProperty_set_borders(s: TableProperty, a_borders: TableBorders, b0_margins: TableCellMargins, b1_s: Seq<char>, b2_v: usize, b2_t: WidthType)
  ensures
    sp_TableProperty_set_margins(sp_TableProperty_set_borders(s, a_borders), b0_margins) == sp_TableProperty_set_borders(sp_TableProperty_set_margins(s, b0_margins), a_borders),
    sp_TableProperty_style(sp_TableProperty_set_borders(s, a_borders), b1_s) == sp_TableProperty_set_borders(sp_TableProperty_style(s, b1_s), a_borders),
    sp_TableProperty_width(sp_TableProperty_set_borders(s, a_borders), b2_v, b2_t) == sp_TableProperty_set_borders(sp_TableProperty_width(s, b2_v, b2_t), a_borders),
{}
pub proof fn order_TableProperty_set_margins(s: TableProperty, a_margins: TableCellMargins, b0_s: Seq<char>, b1_v: usize, b1_t: WidthType)
  ensures
    sp_TableProperty_style(sp_TableProperty_set_margins(s, a_margins), b0_s) == sp_TableProperty_set_margins(sp_TableProperty_style(s, b0_s), a_margins),
    sp_TableProperty_width(sp_TableProperty_set_margins(s, a_margins), b1_v, b1_t) == sp_TableProperty_set_margins(sp_TableProperty_width(s, b1_v, b1_t), a_margins),
{}
pub proof fn order_TableProperty_style(s: TableProperty, a_s: Seq<char>, b0_v: usize, b0_t: WidthType)
  ensures
    sp_TableProperty_width(sp_TableProperty_style(s, a_s), b0_v, b0_t) == sp_TableProperty_style(sp_TableProperty_width(s, b0_v, b0_t), a_s),
{}
pub proof fn order_TableCellProperty_clear_border(s: TableCellProperty, a_position: TableCellBorderPosition, b0_v: usize, b1_margins: CellMargins, b2_s: Shading, b3_t: TextDirectionType, b4_t: VAlignType, b5_t: VMergeType, b6_v: usize, b6_t: WidthType)
  ensures
    sp_TableCellProperty_grid_span(sp_TableCellProperty_clear_border(s, a_position), b0_v) == sp_TableCellProperty_clear_border(sp_TableCellProperty_grid_span(s, b0_v), a_position),
    sp_TableCellProperty_margins(sp_TableCellProperty_clear_border(s, a_position), b1_margins) == sp_TableCellProperty_clear_border(sp_TableCellProperty_margins(s, b1_margins), a_position),
    sp_TableCellProperty_shading(sp_TableCellProperty_clear_border(s, a_position), b2_s) == sp_TableCellProperty_clear_border(sp_TableCellProperty_shading(s, b2_s), a_position),
    sp_TableCellProperty_text_direction(sp_TableCellProperty_clear_border(s, a_position), b3_t) == sp_TableCellProperty_clear_border(sp_TableCellProperty_text_direction(s, b3_t), a_position),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_clear_border(s, a_position), b4_t) == sp_TableCellProperty_clear_border(sp_TableCellProperty_vertical_align(s, b4_t), a_position),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_clear_border(s, a_position), b5_t) == sp_TableCellProperty_clear_border(sp_TableCellProperty_vertical_merge(s, b5_t), a_position),
    sp_TableCellProperty_width(sp_TableCellProperty_clear_border(s, a_position), b6_v, b6_t) == sp_TableCellProperty_clear_border(sp_TableCellProperty_width(s, b6_v, b6_t), a_position),
{}
pub proof fn order_TableCellProperty_grid_span(s: TableCellProperty, a_v: usize, b0_margins: CellMargins, b1_border: TableCellBorder, b2_borders: TableCellBorders, b3_s: Shading, b4_t: TextDirectionType, b5_t: VAlignType, b6_t: VMergeType, b7_v: usize, b7_t: WidthType)
  ensures
    sp_TableCellProperty_margins(sp_TableCellProperty_grid_span(s, a_v), b0_margins) == sp_TableCellProperty_grid_span(sp_TableCellProperty_margins(s, b0_margins), a_v),
    sp_TableCellProperty_set_border(sp_TableCellProperty_grid_span(s, a_v), b1_border) == sp_TableCellProperty_grid_span(sp_TableCellProperty_set_border(s, b1_border), a_v),
    sp_TableCellProperty_set_borders(sp_TableCellProperty_grid_span(s, a_v), b2_borders) == sp_TableCellProperty_grid_span(sp_TableCellProperty_set_borders(s, b2_borders), a_v),
    sp_TableCellProperty_shading(sp_TableCellProperty_grid_span(s, a_v), b3_s) == sp_TableCellProperty_grid_span(sp_TableCellProperty_shading(s, b3_s), a_v),
    sp_TableCellProperty_text_direction(sp_TableCellProperty_grid_span(s, a_v), b4_t) == sp_TableCellProperty_grid_span(sp_TableCellProperty_text_direction(s, b4_t), a_v),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_grid_span(s, a_v), b5_t) == sp_TableCellProperty_grid_span(sp_TableCellProperty_vertical_align(s, b5_t), a_v),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_grid_span(s, a_v), b6_t) == sp_TableCellProperty_grid_span(sp_TableCellProperty_vertical_merge(s, b6_t), a_v),
    sp_TableCellProperty_width(sp_TableCellProperty_grid_span(s, a_v), b7_v, b7_t) == sp_TableCellProperty_grid_span(sp_TableCellProperty_width(s, b7_v, b7_t), a_v),
{}
pub proof fn order_TableCellProperty_margins(s: TableCellProperty, a_margins: CellMargins, b0_border: TableCellBorder, b1_borders: TableCellBorders, b2_s: Shading, b3_t: TextDirectionType, b4_t: VAlignType, b5_t: VMergeType, b6_v: usize, b6_t: WidthType)
  ensures
    sp_TableCellProperty_set_border(sp_TableCellProperty_margins(s, a_margins), b0_border) == sp_TableCellProperty_margins(sp_TableCellProperty_set_border(s, b0_border), a_margins),
    sp_TableCellProperty_set_borders(sp_TableCellProperty_margins(s, a_margins), b1_borders) == sp_TableCellProperty_margins(sp_TableCellProperty_set_borders(s, b1_borders), a_margins),
    sp_TableCellProperty_shading(sp_TableCellProperty_margins(s, a_margins), b2_s) == sp_TableCellProperty_margins(sp_TableCellProperty_shading(s, b2_s), a_margins),
    sp_TableCellProperty_text_direction(sp_TableCellProperty_margins(s, a_margins), b3_t) == sp_TableCellProperty_margins(sp_TableCellProperty_text_direction(s, b3_t), a_margins),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_margins(s, a_margins), b4_t) == sp_TableCellProperty_margins(sp_TableCellProperty_vertical_align(s, b4_t), a_margins),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_margins(s, a_margins), b5_t) == sp_TableCellProperty_margins(sp_TableCellProperty_vertical_merge(s, b5_t), a_margins),
    sp_TableCellProperty_width(sp_TableCellProperty_margins(s, a_margins), b6_v, b6_t) == sp_TableCellProperty_margins(sp_TableCellProperty_width(s, b6_v, b6_t), a_margins),
{}
pub proof fn order_TableCellProperty_set_border(s: TableCellProperty, a_border: TableCellBorder, b0_s: Shading, b1_t: TextDirectionType, b2_t: VAlignType, b3_t: VMergeType, b4_v: usize, b4_t: WidthType)
  ensures
    sp_TableCellProperty_shading(sp_TableCellProperty_set_border(s, a_border), b0_s) == sp_TableCellProperty_set_border(sp_TableCellProperty_shading(s, b0_s), a_border),
    sp_TableCellProperty_text_direction(sp_TableCellProperty_set_border(s, a_border), b1_t) == sp_TableCellProperty_set_border(sp_TableCellProperty_text_direction(s, b1_t), a_border),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_set_border(s, a_border), b2_t) == sp_TableCellProperty_set_border(sp_TableCellProperty_vertical_align(s, b2_t), a_border),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_set_border(s, a_border), b3_t) == sp_TableCellProperty_set_border(sp_TableCellProperty_vertical_merge(s, b3_t), a_border),
    sp_TableCellProperty_width(sp_TableCellProperty_set_border(s, a_border), b4_v, b4_t) == sp_TableCellProperty_set_border(sp_TableCellProperty_width(s, b4_v, b4_t), a_border),
{}
pub proof fn order_TableCellProperty_set_borders(s: TableCellProperty, a_borders: TableCellBorders, b0_s: Shading, b1_t: TextDirectionType, b2_t: VAlignType, b3_t: VMergeType, b4_v: usize, b4_t: WidthType)
  ensures
    sp_TableCellProperty_shading(sp_TableCellProperty_set_borders(s, a_borders), b0_s) == sp_TableCellProperty_set_borders(sp_TableCellProperty_shading(s, b0_s), a_borders),
    sp_TableCellProperty_text_direction(sp_TableCellProperty_set_borders(s, a_borders), b1_t) == sp_TableCellProperty_set_borders(sp_TableCellProperty_text_direction(s, b1_t), a_borders),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_set_borders(s, a_borders), b2_t) == sp_TableCellProperty_set_borders(sp_TableCellProperty_vertical_align(s, b2_t), a_borders),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_set_borders(s, a_borders), b3_t) == sp_TableCellProperty_set_borders(sp_TableCellProperty_vertical_merge(s, b3_t), a_borders),
    sp_TableCellProperty_width(sp_TableCellProperty_set_borders(s, a_borders), b4_v, b4_t) == sp_TableCellProperty_set_borders(sp_TableCellProperty_width(s, b4_v, b4_t), a_borders),
{}
pub proof fn order_TableCellProperty_shading(s: TableCellProperty, a_s: Shading, b0_t: TextDirectionType, b1_t: VAlignType, b2_t: VMergeType, b3_v: usize, b3_t: WidthType)
  ensures
    sp_TableCellProperty_text_direction(sp_TableCellProperty_shading(s, a_s), b0_t) == sp_TableCellProperty_shading(sp_TableCellProperty_text_direction(s, b0_t), a_s),
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_shading(s, a_s), b1_t) == sp_TableCellProperty_shading(sp_TableCellProperty_vertical_align(s, b1_t), a_s),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_shading(s, a_s), b2_t) == sp_TableCellProperty_shading(sp_TableCellProperty_vertical_merge(s, b2_t), a_s),
    sp_TableCellProperty_width(sp_TableCellProperty_shading(s, a_s), b3_v, b3_t) == sp_TableCellProperty_shading(sp_TableCellProperty_width(s, b3_v, b3_t), a_s),
{}
pub proof fn order_TableCellProperty_text_direction(s: TableCellProperty, a_t: TextDirectionType, b0_t: VAlignType, b1_t: VMergeType, b2_v: usize, b2_t: WidthType)
  ensures
    sp_TableCellProperty_vertical_align(sp_TableCellProperty_text_direction(s, a_t), b0_t) == sp_TableCellProperty_text_direction(sp_TableCellProperty_vertical_align(s, b0_t), a_t),
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_text_direction(s, a_t), b1_t) == sp_TableCellProperty_text_direction(sp_TableCellProperty_vertical_merge(s, b1_t), a_t),
    sp_TableCellProperty_width(sp_TableCellProperty_text_direction(s, a_t), b2_v, b2_t) == sp_TableCellProperty_text_direction(sp_TableCellProperty_width(s, b2_v, b2_t), a_t),
{}
pub proof fn order_TableCellProperty_vertical_align(s: TableCellProperty, a_t: VAlignType, b0_t: VMergeType, b1_v: usize, b1_t: WidthType)
  ensures
    sp_TableCellProperty_vertical_merge(sp_TableCellProperty_vertical_align(s, a_t), b0_t) == sp_TableCellProperty_vertical_align(sp_TableCellProperty_vertical_merge(s, b0_t), a_t),
    sp_TableCellProperty_width(sp_TableCellProperty_vertical_align(s, a_t), b1_v, b1_t) == sp_TableCellProperty_vertical_align(sp_TableCellProperty_width(s, b1_v, b1_t), a_t),
{}
pub proof fn order_TableCellProperty_vertical_merge(s: TableCellProperty, a_t: VMergeType, b0_v: usize, b0_t: WidthType)
  ensures
    sp_TableCellProperty_width(sp_TableCellProperty_vertical_merge(s, a_t), b0_v, b0_t) == sp_TableCellProperty_vertical_merge(sp_TableCellProperty_width(s, b0_v, b0_t), a_t),
{}
pub proof fn order_TableRowProperty_cant_split(s: TableRowProperty, b0_d: Delete, b1_after: u32, b2_before: u32, b3_r: HeightRule, b4_i: Insert, b5_h: f32, b6_w: f32, b7_w: f32)
  ensures
    sp_TableRowProperty_delete(sp_TableRowProperty_cant_split(s), b0_d) == sp_TableRowProperty_cant_split(sp_TableRowProperty_delete(s, b0_d)),
    sp_TableRowProperty_grid_after(sp_TableRowProperty_cant_split(s), b1_after) == sp_TableRowProperty_cant_split(sp_TableRowProperty_grid_after(s, b1_after)),
    sp_TableRowProperty_grid_before(sp_TableRowProperty_cant_split(s), b2_before) == sp_TableRowProperty_cant_split(sp_TableRowProperty_grid_before(s, b2_before)),
    sp_TableRowProperty_height_rule(sp_TableRowProperty_cant_split(s), b3_r) == sp_TableRowProperty_cant_split(sp_TableRowProperty_height_rule(s, b3_r)),
    sp_TableRowProperty_insert(sp_TableRowProperty_cant_split(s), b4_i) == sp_TableRowProperty_cant_split(sp_TableRowProperty_insert(s, b4_i)),
    sp_TableRowProperty_row_height(sp_TableRowProperty_cant_split(s), b5_h) == sp_TableRowProperty_cant_split(sp_TableRowProperty_row_height(s, b5_h)),
    sp_TableRowProperty_width_after(sp_TableRowProperty_cant_split(s), b6_w) == sp_TableRowProperty_cant_split(sp_TableRowProperty_width_after(s, b6_w)),
    sp_TableRowProperty_width_before(sp_TableRowProperty_cant_split(s), b7_w) == sp_TableRowProperty_cant_split(sp_TableRowProperty_width_before(s, b7_w)),
{}
pub proof fn order_TableRowProperty_delete(s: TableRowProperty, a_d: Delete, b0_after: u32, b1_before: u32, b2_r: HeightRule, b3_i: Insert, b4_h: f32, b5_w: f32, b6_w: f32)
  ensures
    sp_TableRowProperty_grid_after(sp_TableRowProperty_delete(s, a_d), b0_after) == sp_TableRowProperty_delete(sp_TableRowProperty_grid_after(s, b0_after), a_d),
    sp_TableRowProperty_grid_before(sp_TableRowProperty_delete(s, a_d), b1_before) == sp_TableRowProperty_delete(sp_TableRowProperty_grid_before(s, b1_before), a_d),
    sp_TableRowProperty_height_rule(sp_TableRowProperty_delete(s, a_d), b2_r) == sp_TableRowProperty_delete(sp_TableRowProperty_height_rule(s, b2_r), a_d),
    sp_TableRowProperty_insert(sp_TableRowProperty_delete(s, a_d), b3_i) == sp_TableRowProperty_delete(sp_TableRowProperty_insert(s, b3_i), a_d),
    sp_TableRowProperty_row_height(sp_TableRowProperty_delete(s, a_d), b4_h) == sp_TableRowProperty_delete(sp_TableRowProperty_row_height(s, b4_h), a_d),
    sp_TableRowProperty_width_after(sp_TableRowProperty_delete(s, a_d), b5_w) == sp_TableRowProperty_delete(sp_TableRowProperty_width_after(s, b5_w), a_d),
    sp_TableRowProperty_width_before(sp_TableRowProperty_delete(s, a_d), b6_w) == sp_TableRowProperty_delete(sp_TableRowProperty_width_before(s, b6_w), a_d),
{}
pub proof fn order_TableRowProperty_grid_after(s: TableRowProperty, a_after: u32, b0_before: u32, b1_r: HeightRule, b2_i: Insert, b3_h: f32, b4_w: f32, b5_w: f32)
  ensures
    sp_TableRowProperty_grid_before(sp_TableRowProperty_grid_after(s, a_after), b0_before) == sp_TableRowProperty_grid_after(sp_TableRowProperty_grid_before(s, b0_before), a_after),
    sp_TableRowProperty_height_rule(sp_TableRowProperty_grid_after(s, a_after), b1_r) == sp_TableRowProperty_grid_after(sp_TableRowProperty_height_rule(s, b1_r), a_after),
    sp_TableRowProperty_insert(sp_TableRowProperty_grid_after(s, a_after), b2_i) == sp_TableRowProperty_grid_after(sp_TableRowProperty_insert(s, b2_i), a_after),
    sp_TableRowProperty_row_height(sp_TableRowProperty_grid_after(s, a_after), b3_h) == sp_TableRowProperty_grid_after(sp_TableRowProperty_row_height(s, b3_h), a_after),
    sp_TableRowProperty_width_after(sp_TableRowProperty_grid_after(s, a_after), b4_w) == sp_TableRowProperty_grid_after(sp_TableRowProperty_width_after(s, b4_w), a_after),
    sp_TableRowProperty_width_before(sp_TableRowProperty_grid_after(s, a_after), b5_w) == sp_TableRowProperty_grid_after(sp_TableRowProperty_width_before(s, b5_w), a_after),
{}
pub proof fn order_TableRowProperty_grid_before(s: TableRowProperty, a_before: u32, b0_r: HeightRule, b1_i: Insert, b2_h: f32, b3_w: f32, b4_w: f32)
  ensures
    sp_TableRowProperty_height_rule(sp_TableRowProperty_grid_before(s, a_before), b0_r) == sp_TableRowProperty_grid_before(sp_TableRowProperty_height_rule(s, b0_r), a_before),
    sp_TableRowProperty_insert(sp_TableRowProperty_grid_before(s, a_before), b1_i) == sp_TableRowProperty_grid_before(sp_TableRowProperty_insert(s, b1_i), a_before),
    sp_TableRowProperty_row_height(sp_TableRowProperty_grid_before(s, a_before), b2_h) == sp_TableRowProperty_grid_before(sp_TableRowProperty_row_height(s, b2_h), a_before),
    sp_TableRowProperty_width_after(sp_TableRowProperty_grid_before(s, a_before), b3_w) == sp_TableRowProperty_grid_before(sp_TableRowProperty_width_after(s, b3_w), a_before),
    sp_TableRowProperty_width_before(sp_TableRowProperty_grid_before(s, a_before), b4_w) == sp_TableRowProperty_grid_before(sp_TableRowProperty_width_before(s, b4_w), a_before),
{}
pub proof fn order_TableRowProperty_height_rule(s: TableRowProperty, a_r: HeightRule, b0_i: Insert, b1_h: f32, b2_w: f32, b3_w: f32)
  ensures
    sp_TableRowProperty_insert(sp_TableRowProperty_height_rule(s, a_r), b0_i) == sp_TableRowProperty_height_rule(sp_TableRowProperty_insert(s, b0_i), a_r),
    sp_TableRowProperty_row_height(sp_TableRowProperty_height_rule(s, a_r), b1_h) == sp_TableRowProperty_height_rule(sp_TableRowProperty_row_height(s, b1_h), a_r),
    sp_TableRowProperty_width_after(sp_TableRowProperty_height_rule(s, a_r), b2_w) == sp_TableRowProperty_height_rule(sp_TableRowProperty_width_after(s, b2_w), a_r),
    sp_TableRowProperty_width_before(sp_TableRowProperty_height_rule(s, a_r), b3_w) == sp_TableRowProperty_height_rule(sp_TableRowProperty_width_before(s, b3_w), a_r),
{}
pub proof fn order_TableRowProperty_insert(s: TableRowProperty, a_i: Insert, b0_h: f32, b1_w: f32, b2_w: f32)
  ensures
    sp_TableRowProperty_row_height(sp_TableRowProperty_insert(s, a_i), b0_h) == sp_TableRowProperty_insert(sp_TableRowProperty_row_height(s, b0_h), a_i),
    sp_TableRowProperty_width_after(sp_TableRowProperty_insert(s, a_i), b1_w) == sp_TableRowProperty_insert(sp_TableRowProperty_width_after(s, b1_w), a_i),
    sp_TableRowProperty_width_before(sp_TableRowProperty_insert(s, a_i), b2_w) == sp_TableRowProperty_insert(sp_TableRowProperty_width_before(s, b2_w), a_i),
{}
pub proof fn order_TableRowProperty_row_height(s: TableRowProperty, a_h: f32, b0_w: f32, b1_w: f32)
  ensures
    sp_TableRowProperty_width_after(sp_TableRowProperty_row_height(s, a_h), b0_w) == sp_TableRowProperty_row_height(sp_TableRowProperty_width_after(s, b0_w), a_h),
    sp_TableRowProperty_width_before(sp_TableRowProperty_row_height(s, a_h), b1_w) == sp_TableRowProperty_row_height(sp_TableRowProperty_width_before(s, b1_w), a_h),
{}
pub proof fn order_TableRowProperty_width_after(s: TableRowProperty, a_w: f32, b0_w: f32)
  ensures
    sp_TableRowProperty_width_before(sp_TableRowProperty_width_after(s, a_w), b0_w) == sp_TableRowProperty_width_after(sp_TableRowProperty_width_before(s, b0_w), a_w),
{}
pub proof fn order_SectionProperty_doc_grid(s: SectionProperty, a_doc_grid: DocGrid, b0_h: Footer, b0_rid: Seq<char>, b1_h: Header, b1_rid: Seq<char>, b2_h: Footer, b2_rid: Seq<char>, b3_h: Footer, b3_rid: Seq<char>, b4_h: Header, b4_rid: Seq<char>, b5_h: Header, b5_rid: Seq<char>, b6_h: Footer, b6_rid: Seq<char>, b7_h: Header, b7_rid: Seq<char>, b8_margin: PageMargin, b9_h: PageNumType, b10_o: PageOrientationType, b11_size: PageSize, b12_direction: String)
  ensures
    sp_SectionProperty_even_footer(sp_SectionProperty_doc_grid(s, a_doc_grid), b0_h, b0_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_even_footer(s, b0_h, b0_rid), a_doc_grid),
    sp_SectionProperty_even_header(sp_SectionProperty_doc_grid(s, a_doc_grid), b1_h, b1_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_even_header(s, b1_h, b1_rid), a_doc_grid),
    sp_SectionProperty_first_footer(sp_SectionProperty_doc_grid(s, a_doc_grid), b2_h, b2_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_first_footer(s, b2_h, b2_rid), a_doc_grid),
    sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_doc_grid(s, a_doc_grid), b3_h, b3_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_first_footer_without_title_pg(s, b3_h, b3_rid), a_doc_grid),
    sp_SectionProperty_first_header(sp_SectionProperty_doc_grid(s, a_doc_grid), b4_h, b4_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_first_header(s, b4_h, b4_rid), a_doc_grid),
    sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_doc_grid(s, a_doc_grid), b5_h, b5_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_first_header_without_title_pg(s, b5_h, b5_rid), a_doc_grid),
    sp_SectionProperty_footer(sp_SectionProperty_doc_grid(s, a_doc_grid), b6_h, b6_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_footer(s, b6_h, b6_rid), a_doc_grid),
    sp_SectionProperty_header(sp_SectionProperty_doc_grid(s, a_doc_grid), b7_h, b7_rid) == sp_SectionProperty_doc_grid(sp_SectionProperty_header(s, b7_h, b7_rid), a_doc_grid),
    sp_SectionProperty_page_margin(sp_SectionProperty_doc_grid(s, a_doc_grid), b8_margin) == sp_SectionProperty_doc_grid(sp_SectionProperty_page_margin(s, b8_margin), a_doc_grid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_doc_grid(s, a_doc_grid), b9_h) == sp_SectionProperty_doc_grid(sp_SectionProperty_page_num_type(s, b9_h), a_doc_grid),
    sp_SectionProperty_page_orient(sp_SectionProperty_doc_grid(s, a_doc_grid), b10_o) == sp_SectionProperty_doc_grid(sp_SectionProperty_page_orient(s, b10_o), a_doc_grid),
    sp_SectionProperty_page_size(sp_SectionProperty_doc_grid(s, a_doc_grid), b11_size) == sp_SectionProperty_doc_grid(sp_SectionProperty_page_size(s, b11_size), a_doc_grid),
    sp_SectionProperty_text_direction(sp_SectionProperty_doc_grid(s, a_doc_grid), b12_direction) == sp_SectionProperty_doc_grid(sp_SectionProperty_text_direction(s, b12_direction), a_doc_grid),
    sp_SectionProperty_title_pg(sp_SectionProperty_doc_grid(s, a_doc_grid)) == sp_SectionProperty_doc_grid(sp_SectionProperty_title_pg(s), a_doc_grid),
{}
pub proof fn order_SectionProperty_even_footer(s: SectionProperty, a_h: Footer, a_rid: Seq<char>, b0_h: Header, b0_rid: Seq<char>, b1_h: Footer, b1_rid: Seq<char>, b2_h: Footer, b2_rid: Seq<char>, b3_h: Header, b3_rid: Seq<char>, b4_h: Header, b4_rid: Seq<char>, b5_h: Footer, b5_rid: Seq<char>, b6_h: Header, b6_rid: Seq<char>, b7_margin: PageMargin, b8_h: PageNumType, b9_o: PageOrientationType, b10_size: PageSize, b11_direction: String)
  ensures
    sp_SectionProperty_even_header(sp_SectionProperty_even_footer(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_even_header(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_first_footer(sp_SectionProperty_even_footer(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_first_footer(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_even_footer(s, a_h, a_rid), b2_h, b2_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_first_footer_without_title_pg(s, b2_h, b2_rid), a_h, a_rid),
    sp_SectionProperty_first_header(sp_SectionProperty_even_footer(s, a_h, a_rid), b3_h, b3_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_first_header(s, b3_h, b3_rid), a_h, a_rid),
    sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_even_footer(s, a_h, a_rid), b4_h, b4_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_first_header_without_title_pg(s, b4_h, b4_rid), a_h, a_rid),
    sp_SectionProperty_footer(sp_SectionProperty_even_footer(s, a_h, a_rid), b5_h, b5_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_footer(s, b5_h, b5_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_even_footer(s, a_h, a_rid), b6_h, b6_rid) == sp_SectionProperty_even_footer(sp_SectionProperty_header(s, b6_h, b6_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_even_footer(s, a_h, a_rid), b7_margin) == sp_SectionProperty_even_footer(sp_SectionProperty_page_margin(s, b7_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_even_footer(s, a_h, a_rid), b8_h) == sp_SectionProperty_even_footer(sp_SectionProperty_page_num_type(s, b8_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_even_footer(s, a_h, a_rid), b9_o) == sp_SectionProperty_even_footer(sp_SectionProperty_page_orient(s, b9_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_even_footer(s, a_h, a_rid), b10_size) == sp_SectionProperty_even_footer(sp_SectionProperty_page_size(s, b10_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_even_footer(s, a_h, a_rid), b11_direction) == sp_SectionProperty_even_footer(sp_SectionProperty_text_direction(s, b11_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_even_footer(s, a_h, a_rid)) == sp_SectionProperty_even_footer(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_even_header(s: SectionProperty, a_h: Header, a_rid: Seq<char>, b0_h: Footer, b0_rid: Seq<char>, b1_h: Footer, b1_rid: Seq<char>, b2_h: Header, b2_rid: Seq<char>, b3_h: Header, b3_rid: Seq<char>, b4_h: Footer, b4_rid: Seq<char>, b5_h: Header, b5_rid: Seq<char>, b6_margin: PageMargin, b7_h: PageNumType, b8_o: PageOrientationType, b9_size: PageSize, b10_direction: String)
  ensures
    sp_SectionProperty_first_footer(sp_SectionProperty_even_header(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_even_header(sp_SectionProperty_first_footer(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_even_header(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_even_header(sp_SectionProperty_first_footer_without_title_pg(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_first_header(sp_SectionProperty_even_header(s, a_h, a_rid), b2_h, b2_rid) == sp_SectionProperty_even_header(sp_SectionProperty_first_header(s, b2_h, b2_rid), a_h, a_rid),
    sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_even_header(s, a_h, a_rid), b3_h, b3_rid) == sp_SectionProperty_even_header(sp_SectionProperty_first_header_without_title_pg(s, b3_h, b3_rid), a_h, a_rid),
    sp_SectionProperty_footer(sp_SectionProperty_even_header(s, a_h, a_rid), b4_h, b4_rid) == sp_SectionProperty_even_header(sp_SectionProperty_footer(s, b4_h, b4_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_even_header(s, a_h, a_rid), b5_h, b5_rid) == sp_SectionProperty_even_header(sp_SectionProperty_header(s, b5_h, b5_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_even_header(s, a_h, a_rid), b6_margin) == sp_SectionProperty_even_header(sp_SectionProperty_page_margin(s, b6_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_even_header(s, a_h, a_rid), b7_h) == sp_SectionProperty_even_header(sp_SectionProperty_page_num_type(s, b7_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_even_header(s, a_h, a_rid), b8_o) == sp_SectionProperty_even_header(sp_SectionProperty_page_orient(s, b8_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_even_header(s, a_h, a_rid), b9_size) == sp_SectionProperty_even_header(sp_SectionProperty_page_size(s, b9_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_even_header(s, a_h, a_rid), b10_direction) == sp_SectionProperty_even_header(sp_SectionProperty_text_direction(s, b10_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_even_header(s, a_h, a_rid)) == sp_SectionProperty_even_header(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_first_footer(s: SectionProperty, a_h: Footer, a_rid: Seq<char>, b0_h: Header, b0_rid: Seq<char>, b1_h: Footer, b1_rid: Seq<char>, b2_h: Header, b2_rid: Seq<char>, b3_margin: PageMargin, b4_h: PageNumType, b5_o: PageOrientationType, b6_size: PageSize, b7_direction: String)
  ensures
    sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_first_footer(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_first_footer(sp_SectionProperty_first_header_without_title_pg(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_footer(sp_SectionProperty_first_footer(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_first_footer(sp_SectionProperty_footer(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_first_footer(s, a_h, a_rid), b2_h, b2_rid) == sp_SectionProperty_first_footer(sp_SectionProperty_header(s, b2_h, b2_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_first_footer(s, a_h, a_rid), b3_margin) == sp_SectionProperty_first_footer(sp_SectionProperty_page_margin(s, b3_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_first_footer(s, a_h, a_rid), b4_h) == sp_SectionProperty_first_footer(sp_SectionProperty_page_num_type(s, b4_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_first_footer(s, a_h, a_rid), b5_o) == sp_SectionProperty_first_footer(sp_SectionProperty_page_orient(s, b5_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_first_footer(s, a_h, a_rid), b6_size) == sp_SectionProperty_first_footer(sp_SectionProperty_page_size(s, b6_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_first_footer(s, a_h, a_rid), b7_direction) == sp_SectionProperty_first_footer(sp_SectionProperty_text_direction(s, b7_direction), a_h, a_rid),
{}
pub proof fn order_SectionProperty_first_footer_without_title_pg(s: SectionProperty, a_h: Footer, a_rid: Seq<char>, b0_h: Header, b0_rid: Seq<char>, b1_h: Header, b1_rid: Seq<char>, b2_h: Footer, b2_rid: Seq<char>, b3_h: Header, b3_rid: Seq<char>, b4_margin: PageMargin, b5_h: PageNumType, b6_o: PageOrientationType, b7_size: PageSize, b8_direction: String)
  ensures
    sp_SectionProperty_first_header(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_first_header(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_first_header_without_title_pg(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_footer(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b2_h, b2_rid) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_footer(s, b2_h, b2_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b3_h, b3_rid) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_header(s, b3_h, b3_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b4_margin) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_page_margin(s, b4_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b5_h) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_page_num_type(s, b5_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b6_o) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_page_orient(s, b6_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b7_size) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_page_size(s, b7_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid), b8_direction) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_text_direction(s, b8_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_first_footer_without_title_pg(s, a_h, a_rid)) == sp_SectionProperty_first_footer_without_title_pg(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_first_header(s: SectionProperty, a_h: Header, a_rid: Seq<char>, b0_h: Footer, b0_rid: Seq<char>, b1_h: Header, b1_rid: Seq<char>, b2_margin: PageMargin, b3_h: PageNumType, b4_o: PageOrientationType, b5_size: PageSize, b6_direction: String)
  ensures
    sp_SectionProperty_footer(sp_SectionProperty_first_header(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_first_header(sp_SectionProperty_footer(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_first_header(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_first_header(sp_SectionProperty_header(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_first_header(s, a_h, a_rid), b2_margin) == sp_SectionProperty_first_header(sp_SectionProperty_page_margin(s, b2_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_first_header(s, a_h, a_rid), b3_h) == sp_SectionProperty_first_header(sp_SectionProperty_page_num_type(s, b3_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_first_header(s, a_h, a_rid), b4_o) == sp_SectionProperty_first_header(sp_SectionProperty_page_orient(s, b4_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_first_header(s, a_h, a_rid), b5_size) == sp_SectionProperty_first_header(sp_SectionProperty_page_size(s, b5_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_first_header(s, a_h, a_rid), b6_direction) == sp_SectionProperty_first_header(sp_SectionProperty_text_direction(s, b6_direction), a_h, a_rid),
{}
pub proof fn order_SectionProperty_first_header_without_title_pg(s: SectionProperty, a_h: Header, a_rid: Seq<char>, b0_h: Footer, b0_rid: Seq<char>, b1_h: Header, b1_rid: Seq<char>, b2_margin: PageMargin, b3_h: PageNumType, b4_o: PageOrientationType, b5_size: PageSize, b6_direction: String)
  ensures
    sp_SectionProperty_footer(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_footer(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_header(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b1_h, b1_rid) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_header(s, b1_h, b1_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b2_margin) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_page_margin(s, b2_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b3_h) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_page_num_type(s, b3_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b4_o) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_page_orient(s, b4_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b5_size) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_page_size(s, b5_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid), b6_direction) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_text_direction(s, b6_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_first_header_without_title_pg(s, a_h, a_rid)) == sp_SectionProperty_first_header_without_title_pg(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_footer(s: SectionProperty, a_h: Footer, a_rid: Seq<char>, b0_h: Header, b0_rid: Seq<char>, b1_margin: PageMargin, b2_h: PageNumType, b3_o: PageOrientationType, b4_size: PageSize, b5_direction: String)
  ensures
    sp_SectionProperty_header(sp_SectionProperty_footer(s, a_h, a_rid), b0_h, b0_rid) == sp_SectionProperty_footer(sp_SectionProperty_header(s, b0_h, b0_rid), a_h, a_rid),
    sp_SectionProperty_page_margin(sp_SectionProperty_footer(s, a_h, a_rid), b1_margin) == sp_SectionProperty_footer(sp_SectionProperty_page_margin(s, b1_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_footer(s, a_h, a_rid), b2_h) == sp_SectionProperty_footer(sp_SectionProperty_page_num_type(s, b2_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_footer(s, a_h, a_rid), b3_o) == sp_SectionProperty_footer(sp_SectionProperty_page_orient(s, b3_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_footer(s, a_h, a_rid), b4_size) == sp_SectionProperty_footer(sp_SectionProperty_page_size(s, b4_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_footer(s, a_h, a_rid), b5_direction) == sp_SectionProperty_footer(sp_SectionProperty_text_direction(s, b5_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_footer(s, a_h, a_rid)) == sp_SectionProperty_footer(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_header(s: SectionProperty, a_h: Header, a_rid: Seq<char>, b0_margin: PageMargin, b1_h: PageNumType, b2_o: PageOrientationType, b3_size: PageSize, b4_direction: String)
  ensures
    sp_SectionProperty_page_margin(sp_SectionProperty_header(s, a_h, a_rid), b0_margin) == sp_SectionProperty_header(sp_SectionProperty_page_margin(s, b0_margin), a_h, a_rid),
    sp_SectionProperty_page_num_type(sp_SectionProperty_header(s, a_h, a_rid), b1_h) == sp_SectionProperty_header(sp_SectionProperty_page_num_type(s, b1_h), a_h, a_rid),
    sp_SectionProperty_page_orient(sp_SectionProperty_header(s, a_h, a_rid), b2_o) == sp_SectionProperty_header(sp_SectionProperty_page_orient(s, b2_o), a_h, a_rid),
    sp_SectionProperty_page_size(sp_SectionProperty_header(s, a_h, a_rid), b3_size) == sp_SectionProperty_header(sp_SectionProperty_page_size(s, b3_size), a_h, a_rid),
    sp_SectionProperty_text_direction(sp_SectionProperty_header(s, a_h, a_rid), b4_direction) == sp_SectionProperty_header(sp_SectionProperty_text_direction(s, b4_direction), a_h, a_rid),
    sp_SectionProperty_title_pg(sp_SectionProperty_header(s, a_h, a_rid)) == sp_SectionProperty_header(sp_SectionProperty_title_pg(s), a_h, a_rid),
{}
pub proof fn order_SectionProperty_page_margin(s: SectionProperty, a_margin: PageMargin, b0_h: PageNumType, b1_o: PageOrientationType, b2_size: PageSize, b3_direction: String)
  ensures
    sp_SectionProperty_page_num_type(sp_SectionProperty_page_margin(s, a_margin), b0_h) == sp_SectionProperty_page_margin(sp_SectionProperty_page_num_type(s, b0_h), a_margin),
    sp_SectionProperty_page_orient(sp_SectionProperty_page_margin(s, a_margin), b1_o) == sp_SectionProperty_page_margin(sp_SectionProperty_page_orient(s, b1_o), a_margin),
    sp_SectionProperty_page_size(sp_SectionProperty_page_margin(s, a_margin), b2_size) == sp_SectionProperty_page_margin(sp_SectionProperty_page_size(s, b2_size), a_margin),
    sp_SectionProperty_text_direction(sp_SectionProperty_page_margin(s, a_margin), b3_direction) == sp_SectionProperty_page_margin(sp_SectionProperty_text_direction(s, b3_direction), a_margin),
    sp_SectionProperty_title_pg(sp_SectionProperty_page_margin(s, a_margin)) == sp_SectionProperty_page_margin(sp_SectionProperty_title_pg(s), a_margin),
{}
pub proof fn order_SectionProperty_page_num_type(s: SectionProperty, a_h: PageNumType, b0_o: PageOrientationType, b1_size: PageSize, b2_direction: String)
  ensures
    sp_SectionProperty_page_orient(sp_SectionProperty_page_num_type(s, a_h), b0_o) == sp_SectionProperty_page_num_type(sp_SectionProperty_page_orient(s, b0_o), a_h),
    sp_SectionProperty_page_size(sp_SectionProperty_page_num_type(s, a_h), b1_size) == sp_SectionProperty_page_num_type(sp_SectionProperty_page_size(s, b1_size), a_h),
    sp_SectionProperty_text_direction(sp_SectionProperty_page_num_type(s, a_h), b2_direction) == sp_SectionProperty_page_num_type(sp_SectionProperty_text_direction(s, b2_direction), a_h),
    sp_SectionProperty_title_pg(sp_SectionProperty_page_num_type(s, a_h)) == sp_SectionProperty_page_num_type(sp_SectionProperty_title_pg(s), a_h),
{}
pub proof fn order_SectionProperty_page_orient(s: SectionProperty, a_o: PageOrientationType, b0_direction: String)
  ensures
    sp_SectionProperty_text_direction(sp_SectionProperty_page_orient(s, a_o), b0_direction) == sp_SectionProperty_page_orient(sp_SectionProperty_text_direction(s, b0_direction), a_o),
    sp_SectionProperty_title_pg(sp_SectionProperty_page_orient(s, a_o)) == sp_SectionProperty_page_orient(sp_SectionProperty_title_pg(s), a_o),
{}
pub proof fn order_SectionProperty_page_size(s: SectionProperty, a_size: PageSize, b0_direction: String)
  ensures
    sp_SectionProperty_text_direction(sp_SectionProperty_page_size(s, a_size), b0_direction) == sp_SectionProperty_page_size(sp_SectionProperty_text_direction(s, b0_direction), a_size),
    sp_SectionProperty_title_pg(sp_SectionProperty_page_size(s, a_size)) == sp_SectionProperty_page_size(sp_SectionProperty_title_pg(s), a_size),
{}
pub proof fn order_SectionProperty_text_direction(s: SectionProperty, a_direction: String)
  ensures
    sp_SectionProperty_title_pg(sp_SectionProperty_text_direction(s, a_direction)) == sp_SectionProperty_text_direction(sp_SectionProperty_title_pg(s), a_direction),
{}
pub proof fn order_FrameProperty_h_anchor(s: FrameProperty, a_anchor: Seq<char>, b0_r: Seq<char>, b1_x: i32, b2_n: u32, b3_anchor: Seq<char>, b4_x: i32, b5_n: u32, b6_wrap: Seq<char>, b7_x: i32, b8_align: Seq<char>, b9_y: i32, b10_align: Seq<char>)
  ensures
    sp_FrameProperty_h_rule(sp_FrameProperty_h_anchor(s, a_anchor), b0_r) == sp_FrameProperty_h_anchor(sp_FrameProperty_h_rule(s, b0_r), a_anchor),
    sp_FrameProperty_h_space(sp_FrameProperty_h_anchor(s, a_anchor), b1_x) == sp_FrameProperty_h_anchor(sp_FrameProperty_h_space(s, b1_x), a_anchor),
    sp_FrameProperty_height(sp_FrameProperty_h_anchor(s, a_anchor), b2_n) == sp_FrameProperty_h_anchor(sp_FrameProperty_height(s, b2_n), a_anchor),
    sp_FrameProperty_v_anchor(sp_FrameProperty_h_anchor(s, a_anchor), b3_anchor) == sp_FrameProperty_h_anchor(sp_FrameProperty_v_anchor(s, b3_anchor), a_anchor),
    sp_FrameProperty_v_space(sp_FrameProperty_h_anchor(s, a_anchor), b4_x) == sp_FrameProperty_h_anchor(sp_FrameProperty_v_space(s, b4_x), a_anchor),
    sp_FrameProperty_width(sp_FrameProperty_h_anchor(s, a_anchor), b5_n) == sp_FrameProperty_h_anchor(sp_FrameProperty_width(s, b5_n), a_anchor),
    sp_FrameProperty_wrap(sp_FrameProperty_h_anchor(s, a_anchor), b6_wrap) == sp_FrameProperty_h_anchor(sp_FrameProperty_wrap(s, b6_wrap), a_anchor),
    sp_FrameProperty_x(sp_FrameProperty_h_anchor(s, a_anchor), b7_x) == sp_FrameProperty_h_anchor(sp_FrameProperty_x(s, b7_x), a_anchor),
    sp_FrameProperty_x_align(sp_FrameProperty_h_anchor(s, a_anchor), b8_align) == sp_FrameProperty_h_anchor(sp_FrameProperty_x_align(s, b8_align), a_anchor),
    sp_FrameProperty_y(sp_FrameProperty_h_anchor(s, a_anchor), b9_y) == sp_FrameProperty_h_anchor(sp_FrameProperty_y(s, b9_y), a_anchor),
    sp_FrameProperty_y_align(sp_FrameProperty_h_anchor(s, a_anchor), b10_align) == sp_FrameProperty_h_anchor(sp_FrameProperty_y_align(s, b10_align), a_anchor),
{}
pub proof fn order_FrameProperty_h_rule(s: FrameProperty, a_r: Seq<char>, b0_x: i32, b1_n: u32, b2_anchor: Seq<char>, b3_x: i32, b4_n: u32, b5_wrap: Seq<char>, b6_x: i32, b7_align: Seq<char>, b8_y: i32, b9_align: Seq<char>)
  ensures
    sp_FrameProperty_h_space(sp_FrameProperty_h_rule(s, a_r), b0_x) == sp_FrameProperty_h_rule(sp_FrameProperty_h_space(s, b0_x), a_r),
    sp_FrameProperty_height(sp_FrameProperty_h_rule(s, a_r), b1_n) == sp_FrameProperty_h_rule(sp_FrameProperty_height(s, b1_n), a_r),
    sp_FrameProperty_v_anchor(sp_FrameProperty_h_rule(s, a_r), b2_anchor) == sp_FrameProperty_h_rule(sp_FrameProperty_v_anchor(s, b2_anchor), a_r),
    sp_FrameProperty_v_space(sp_FrameProperty_h_rule(s, a_r), b3_x) == sp_FrameProperty_h_rule(sp_FrameProperty_v_space(s, b3_x), a_r),
    sp_FrameProperty_width(sp_FrameProperty_h_rule(s, a_r), b4_n) == sp_FrameProperty_h_rule(sp_FrameProperty_width(s, b4_n), a_r),
    sp_FrameProperty_wrap(sp_FrameProperty_h_rule(s, a_r), b5_wrap) == sp_FrameProperty_h_rule(sp_FrameProperty_wrap(s, b5_wrap), a_r),
    sp_FrameProperty_x(sp_FrameProperty_h_rule(s, a_r), b6_x) == sp_FrameProperty_h_rule(sp_FrameProperty_x(s, b6_x), a_r),
    sp_FrameProperty_x_align(sp_FrameProperty_h_rule(s, a_r), b7_align) == sp_FrameProperty_h_rule(sp_FrameProperty_x_align(s, b7_align), a_r),
    sp_FrameProperty_y(sp_FrameProperty_h_rule(s, a_r), b8_y) == sp_FrameProperty_h_rule(sp_FrameProperty_y(s, b8_y), a_r),
    sp_FrameProperty_y_align(sp_FrameProperty_h_rule(s, a_r), b9_align) == sp_FrameProperty_h_rule(sp_FrameProperty_y_align(s, b9_align), a_r),
{}
pub proof fn order_FrameProperty_h_space(s: FrameProperty, a_x: i32, b0_n: u32, b1_anchor: Seq<char>, b2_x: i32, b3_n: u32, b4_wrap: Seq<char>, b5_x: i32, b6_align: Seq<char>, b7_y: i32, b8_align: Seq<char>)
  ensures
    sp_FrameProperty_height(sp_FrameProperty_h_space(s, a_x), b0_n) == sp_FrameProperty_h_space(sp_FrameProperty_height(s, b0_n), a_x),
    sp_FrameProperty_v_anchor(sp_FrameProperty_h_space(s, a_x), b1_anchor) == sp_FrameProperty_h_space(sp_FrameProperty_v_anchor(s, b1_anchor), a_x),
    sp_FrameProperty_v_space(sp_FrameProperty_h_space(s, a_x), b2_x) == sp_FrameProperty_h_space(sp_FrameProperty_v_space(s, b2_x), a_x),
    sp_FrameProperty_width(sp_FrameProperty_h_space(s, a_x), b3_n) == sp_FrameProperty_h_space(sp_FrameProperty_width(s, b3_n), a_x),
    sp_FrameProperty_wrap(sp_FrameProperty_h_space(s, a_x), b4_wrap) == sp_FrameProperty_h_space(sp_FrameProperty_wrap(s, b4_wrap), a_x),
    sp_FrameProperty_x(sp_FrameProperty_h_space(s, a_x), b5_x) == sp_FrameProperty_h_space(sp_FrameProperty_x(s, b5_x), a_x),
    sp_FrameProperty_x_align(sp_FrameProperty_h_space(s, a_x), b6_align) == sp_FrameProperty_h_space(sp_FrameProperty_x_align(s, b6_align), a_x),
    sp_FrameProperty_y(sp_FrameProperty_h_space(s, a_x), b7_y) == sp_FrameProperty_h_space(sp_FrameProperty_y(s, b7_y), a_x),
    sp_FrameProperty_y_align(sp_FrameProperty_h_space(s, a_x), b8_align) == sp_FrameProperty_h_space(sp_FrameProperty_y_align(s, b8_align), a_x),
{}
pub proof fn order_FrameProperty_height(s: FrameProperty, a_n: u32, b0_anchor: Seq<char>, b1_x: i32, b2_n: u32, b3_wrap: Seq<char>, b4_x: i32, b5_align: Seq<char>, b6_y: i32, b7_align: Seq<char>)
  ensures
    sp_FrameProperty_v_anchor(sp_FrameProperty_height(s, a_n), b0_anchor) == sp_FrameProperty_height(sp_FrameProperty_v_anchor(s, b0_anchor), a_n),
    sp_FrameProperty_v_space(sp_FrameProperty_height(s, a_n), b1_x) == sp_FrameProperty_height(sp_FrameProperty_v_space(s, b1_x), a_n),
    sp_FrameProperty_width(sp_FrameProperty_height(s, a_n), b2_n) == sp_FrameProperty_height(sp_FrameProperty_width(s, b2_n), a_n),
    sp_FrameProperty_wrap(sp_FrameProperty_height(s, a_n), b3_wrap) == sp_FrameProperty_height(sp_FrameProperty_wrap(s, b3_wrap), a_n),
    sp_FrameProperty_x(sp_FrameProperty_height(s, a_n), b4_x) == sp_FrameProperty_height(sp_FrameProperty_x(s, b4_x), a_n),
    sp_FrameProperty_x_align(sp_FrameProperty_height(s, a_n), b5_align) == sp_FrameProperty_height(sp_FrameProperty_x_align(s, b5_align), a_n),
    sp_FrameProperty_y(sp_FrameProperty_height(s, a_n), b6_y) == sp_FrameProperty_height(sp_FrameProperty_y(s, b6_y), a_n),
    sp_FrameProperty_y_align(sp_FrameProperty_height(s, a_n), b7_align) == sp_FrameProperty_height(sp_FrameProperty_y_align(s, b7_align), a_n),
{}
pub proof fn order_FrameProperty_v_anchor(s: FrameProperty, a_anchor: Seq<char>, b0_x: i32, b1_n: u32, b2_wrap: Seq<char>, b3_x: i32, b4_align: Seq<char>, b5_y: i32, b6_align: Seq<char>)
  ensures
    sp_FrameProperty_v_space(sp_FrameProperty_v_anchor(s, a_anchor), b0_x) == sp_FrameProperty_v_anchor(sp_FrameProperty_v_space(s, b0_x), a_anchor),
    sp_FrameProperty_width(sp_FrameProperty_v_anchor(s, a_anchor), b1_n) == sp_FrameProperty_v_anchor(sp_FrameProperty_width(s, b1_n), a_anchor),
    sp_FrameProperty_wrap(sp_FrameProperty_v_anchor(s, a_anchor), b2_wrap) == sp_FrameProperty_v_anchor(sp_FrameProperty_wrap(s, b2_wrap), a_anchor),
    sp_FrameProperty_x(sp_FrameProperty_v_anchor(s, a_anchor), b3_x) == sp_FrameProperty_v_anchor(sp_FrameProperty_x(s, b3_x), a_anchor),
    sp_FrameProperty_x_align(sp_FrameProperty_v_anchor(s, a_anchor), b4_align) == sp_FrameProperty_v_anchor(sp_FrameProperty_x_align(s, b4_align), a_anchor),
    sp_FrameProperty_y(sp_FrameProperty_v_anchor(s, a_anchor), b5_y) == sp_FrameProperty_v_anchor(sp_FrameProperty_y(s, b5_y), a_anchor),
    sp_FrameProperty_y_align(sp_FrameProperty_v_anchor(s, a_anchor), b6_align) == sp_FrameProperty_v_anchor(sp_FrameProperty_y_align(s, b6_align), a_anchor),
{}
pub proof fn order_FrameProperty_v_space(s: FrameProperty, a_x: i32, b0_n: u32, b1_wrap: Seq<char>, b2_x: i32, b3_align: Seq<char>, b4_y: i32, b5_align: Seq<char>)
  ensures
    sp_FrameProperty_width(sp_FrameProperty_v_space(s, a_x), b0_n) == sp_FrameProperty_v_space(sp_FrameProperty_width(s, b0_n), a_x),
    sp_FrameProperty_wrap(sp_FrameProperty_v_space(s, a_x), b1_wrap) == sp_FrameProperty_v_space(sp_FrameProperty_wrap(s, b1_wrap), a_x),
    sp_FrameProperty_x(sp_FrameProperty_v_space(s, a_x), b2_x) == sp_FrameProperty_v_space(sp_FrameProperty_x(s, b2_x), a_x),
    sp_FrameProperty_x_align(sp_FrameProperty_v_space(s, a_x), b3_align) == sp_FrameProperty_v_space(sp_FrameProperty_x_align(s, b3_align), a_x),
    sp_FrameProperty_y(sp_FrameProperty_v_space(s, a_x), b4_y) == sp_FrameProperty_v_space(sp_FrameProperty_y(s, b4_y), a_x),
    sp_FrameProperty_y_align(sp_FrameProperty_v_space(s, a_x), b5_align) == sp_FrameProperty_v_space(sp_FrameProperty_y_align(s, b5_align), a_x),
{}
pub proof fn order_FrameProperty_width(s: FrameProperty, a_n: u32, b0_wrap: Seq<char>, b1_x: i32, b2_align: Seq<char>, b3_y: i32, b4_align: Seq<char>)
  ensures
    sp_FrameProperty_wrap(sp_FrameProperty_width(s, a_n), b0_wrap) == sp_FrameProperty_width(sp_FrameProperty_wrap(s, b0_wrap), a_n),
    sp_FrameProperty_x(sp_FrameProperty_width(s, a_n), b1_x) == sp_FrameProperty_width(sp_FrameProperty_x(s, b1_x), a_n),
    sp_FrameProperty_x_align(sp_FrameProperty_width(s, a_n), b2_align) == sp_FrameProperty_width(sp_FrameProperty_x_align(s, b2_align), a_n),
    sp_FrameProperty_y(sp_FrameProperty_width(s, a_n), b3_y) == sp_FrameProperty_width(sp_FrameProperty_y(s, b3_y), a_n),
    sp_FrameProperty_y_align(sp_FrameProperty_width(s, a_n), b4_align) == sp_FrameProperty_width(sp_FrameProperty_y_align(s, b4_align), a_n),
{}
pub proof fn order_FrameProperty_wrap(s: FrameProperty, a_wrap: Seq<char>, b0_x: i32, b1_align: Seq<char>, b2_y: i32, b3_align: Seq<char>)
  ensures
    sp_FrameProperty_x(sp_FrameProperty_wrap(s, a_wrap), b0_x) == sp_FrameProperty_wrap(sp_FrameProperty_x(s, b0_x), a_wrap),
    sp_FrameProperty_x_align(sp_FrameProperty_wrap(s, a_wrap), b1_align) == sp_FrameProperty_wrap(sp_FrameProperty_x_align(s, b1_align), a_wrap),
    sp_FrameProperty_y(sp_FrameProperty_wrap(s, a_wrap), b2_y) == sp_FrameProperty_wrap(sp_FrameProperty_y(s, b2_y), a_wrap),
    sp_FrameProperty_y_align(sp_FrameProperty_wrap(s, a_wrap), b3_align) == sp_FrameProperty_wrap(sp_FrameProperty_y_align(s, b3_align), a_wrap),
{}
pub proof fn order_FrameProperty_x(s: FrameProperty, a_x: i32, b0_align: Seq<char>, b1_y: i32, b2_align: Seq<char>)
  ensures
    sp_FrameProperty_x_align(sp_FrameProperty_x(s, a_x), b0_align) == sp_FrameProperty_x(sp_FrameProperty_x_align(s, b0_align), a_x),
    sp_FrameProperty_y(sp_FrameProperty_x(s, a_x), b1_y) == sp_FrameProperty_x(sp_FrameProperty_y(s, b1_y), a_x),
    sp_FrameProperty_y_align(sp_FrameProperty_x(s, a_x), b2_align) == sp_FrameProperty_x(sp_FrameProperty_y_align(s, b2_align), a_x),
{}
pub proof fn order_FrameProperty_x_align(s: FrameProperty, a_align: Seq<char>, b0_y: i32, b1_align: Seq<char>)
  ensures
    sp_FrameProperty_y(sp_FrameProperty_x_align(s, a_align), b0_y) == sp_FrameProperty_x_align(sp_FrameProperty_y(s, b0_y), a_align),
    sp_FrameProperty_y_align(sp_FrameProperty_x_align(s, a_align), b1_align) == sp_FrameProperty_x_align(sp_FrameProperty_y_align(s, b1_align), a_align),
{}
pub proof fn order_FrameProperty_y(s: FrameProperty, a_y: i32, b0_align: Seq<char>)
  ensures
    sp_FrameProperty_y_align(sp_FrameProperty_y(s, a_y), b0_align) == sp_FrameProperty_y(sp_FrameProperty_y_align(s, b0_align), a_y),
{}
pub proof fn order_RunFonts_ascii(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>, b3_f: Seq<char>, b4_f: Seq<char>, b5_f: Seq<char>, b6_f: Seq<char>, b7_f: Seq<char>)
  ensures
    sp_RunFonts_ascii_theme(sp_RunFonts_ascii(s, a_f), b0_f) == sp_RunFonts_ascii(sp_RunFonts_ascii_theme(s, b0_f), a_f),
    sp_RunFonts_cs(sp_RunFonts_ascii(s, a_f), b1_f) == sp_RunFonts_ascii(sp_RunFonts_cs(s, b1_f), a_f),
    sp_RunFonts_cs_theme(sp_RunFonts_ascii(s, a_f), b2_f) == sp_RunFonts_ascii(sp_RunFonts_cs_theme(s, b2_f), a_f),
    sp_RunFonts_east_asia(sp_RunFonts_ascii(s, a_f), b3_f) == sp_RunFonts_ascii(sp_RunFonts_east_asia(s, b3_f), a_f),
    sp_RunFonts_east_asia_theme(sp_RunFonts_ascii(s, a_f), b4_f) == sp_RunFonts_ascii(sp_RunFonts_east_asia_theme(s, b4_f), a_f),
    sp_RunFonts_hi_ansi(sp_RunFonts_ascii(s, a_f), b5_f) == sp_RunFonts_ascii(sp_RunFonts_hi_ansi(s, b5_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_ascii(s, a_f), b6_f) == sp_RunFonts_ascii(sp_RunFonts_hi_ansi_theme(s, b6_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_ascii(s, a_f), b7_f) == sp_RunFonts_ascii(sp_RunFonts_hint(s, b7_f), a_f),
{}
pub proof fn order_RunFonts_ascii_theme(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>, b3_f: Seq<char>, b4_f: Seq<char>, b5_f: Seq<char>, b6_f: Seq<char>)
  ensures
    sp_RunFonts_cs(sp_RunFonts_ascii_theme(s, a_f), b0_f) == sp_RunFonts_ascii_theme(sp_RunFonts_cs(s, b0_f), a_f),
    sp_RunFonts_cs_theme(sp_RunFonts_ascii_theme(s, a_f), b1_f) == sp_RunFonts_ascii_theme(sp_RunFonts_cs_theme(s, b1_f), a_f),
    sp_RunFonts_east_asia(sp_RunFonts_ascii_theme(s, a_f), b2_f) == sp_RunFonts_ascii_theme(sp_RunFonts_east_asia(s, b2_f), a_f),
    sp_RunFonts_east_asia_theme(sp_RunFonts_ascii_theme(s, a_f), b3_f) == sp_RunFonts_ascii_theme(sp_RunFonts_east_asia_theme(s, b3_f), a_f),
    sp_RunFonts_hi_ansi(sp_RunFonts_ascii_theme(s, a_f), b4_f) == sp_RunFonts_ascii_theme(sp_RunFonts_hi_ansi(s, b4_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_ascii_theme(s, a_f), b5_f) == sp_RunFonts_ascii_theme(sp_RunFonts_hi_ansi_theme(s, b5_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_ascii_theme(s, a_f), b6_f) == sp_RunFonts_ascii_theme(sp_RunFonts_hint(s, b6_f), a_f),
{}
pub proof fn order_RunFonts_cs(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>, b3_f: Seq<char>, b4_f: Seq<char>, b5_f: Seq<char>)
  ensures
    sp_RunFonts_cs_theme(sp_RunFonts_cs(s, a_f), b0_f) == sp_RunFonts_cs(sp_RunFonts_cs_theme(s, b0_f), a_f),
    sp_RunFonts_east_asia(sp_RunFonts_cs(s, a_f), b1_f) == sp_RunFonts_cs(sp_RunFonts_east_asia(s, b1_f), a_f),
    sp_RunFonts_east_asia_theme(sp_RunFonts_cs(s, a_f), b2_f) == sp_RunFonts_cs(sp_RunFonts_east_asia_theme(s, b2_f), a_f),
    sp_RunFonts_hi_ansi(sp_RunFonts_cs(s, a_f), b3_f) == sp_RunFonts_cs(sp_RunFonts_hi_ansi(s, b3_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_cs(s, a_f), b4_f) == sp_RunFonts_cs(sp_RunFonts_hi_ansi_theme(s, b4_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_cs(s, a_f), b5_f) == sp_RunFonts_cs(sp_RunFonts_hint(s, b5_f), a_f),
{}
pub proof fn order_RunFonts_cs_theme(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>, b3_f: Seq<char>, b4_f: Seq<char>)
  ensures
    sp_RunFonts_east_asia(sp_RunFonts_cs_theme(s, a_f), b0_f) == sp_RunFonts_cs_theme(sp_RunFonts_east_asia(s, b0_f), a_f),
    sp_RunFonts_east_asia_theme(sp_RunFonts_cs_theme(s, a_f), b1_f) == sp_RunFonts_cs_theme(sp_RunFonts_east_asia_theme(s, b1_f), a_f),
    sp_RunFonts_hi_ansi(sp_RunFonts_cs_theme(s, a_f), b2_f) == sp_RunFonts_cs_theme(sp_RunFonts_hi_ansi(s, b2_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_cs_theme(s, a_f), b3_f) == sp_RunFonts_cs_theme(sp_RunFonts_hi_ansi_theme(s, b3_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_cs_theme(s, a_f), b4_f) == sp_RunFonts_cs_theme(sp_RunFonts_hint(s, b4_f), a_f),
{}
pub proof fn order_RunFonts_east_asia(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>, b3_f: Seq<char>)
  ensures
    sp_RunFonts_east_asia_theme(sp_RunFonts_east_asia(s, a_f), b0_f) == sp_RunFonts_east_asia(sp_RunFonts_east_asia_theme(s, b0_f), a_f),
    sp_RunFonts_hi_ansi(sp_RunFonts_east_asia(s, a_f), b1_f) == sp_RunFonts_east_asia(sp_RunFonts_hi_ansi(s, b1_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_east_asia(s, a_f), b2_f) == sp_RunFonts_east_asia(sp_RunFonts_hi_ansi_theme(s, b2_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_east_asia(s, a_f), b3_f) == sp_RunFonts_east_asia(sp_RunFonts_hint(s, b3_f), a_f),
{}
pub proof fn order_RunFonts_east_asia_theme(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>, b2_f: Seq<char>)
  ensures
    sp_RunFonts_hi_ansi(sp_RunFonts_east_asia_theme(s, a_f), b0_f) == sp_RunFonts_east_asia_theme(sp_RunFonts_hi_ansi(s, b0_f), a_f),
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_east_asia_theme(s, a_f), b1_f) == sp_RunFonts_east_asia_theme(sp_RunFonts_hi_ansi_theme(s, b1_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_east_asia_theme(s, a_f), b2_f) == sp_RunFonts_east_asia_theme(sp_RunFonts_hint(s, b2_f), a_f),
{}
pub proof fn order_RunFonts_hi_ansi(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>, b1_f: Seq<char>)
  ensures
    sp_RunFonts_hi_ansi_theme(sp_RunFonts_hi_ansi(s, a_f), b0_f) == sp_RunFonts_hi_ansi(sp_RunFonts_hi_ansi_theme(s, b0_f), a_f),
    sp_RunFonts_hint(sp_RunFonts_hi_ansi(s, a_f), b1_f) == sp_RunFonts_hi_ansi(sp_RunFonts_hint(s, b1_f), a_f),
{}
pub proof fn order_RunFonts_hi_ansi_theme(s: RunFonts, a_f: Seq<char>, b0_f: Seq<char>)
  ensures
    sp_RunFonts_hint(sp_RunFonts_hi_ansi_theme(s, a_f), b0_f) == sp_RunFonts_hi_ansi_theme(sp_RunFonts_hint(s, b0_f), a_f),
{}
pub proof fn order_LineSpacing_after(s: LineSpacing, a_after: u32, b0_after: u32, b1_before: u32, b2_before: u32, b3_line: i32, b4_t: LineSpacingType)
  ensures
    sp_LineSpacing_after_lines(sp_LineSpacing_after(s, a_after), b0_after) == sp_LineSpacing_after(sp_LineSpacing_after_lines(s, b0_after), a_after),
    sp_LineSpacing_before(sp_LineSpacing_after(s, a_after), b1_before) == sp_LineSpacing_after(sp_LineSpacing_before(s, b1_before), a_after),
    sp_LineSpacing_before_lines(sp_LineSpacing_after(s, a_after), b2_before) == sp_LineSpacing_after(sp_LineSpacing_before_lines(s, b2_before), a_after),
    sp_LineSpacing_line(sp_LineSpacing_after(s, a_after), b3_line) == sp_LineSpacing_after(sp_LineSpacing_line(s, b3_line), a_after),
    sp_LineSpacing_line_rule(sp_LineSpacing_after(s, a_after), b4_t) == sp_LineSpacing_after(sp_LineSpacing_line_rule(s, b4_t), a_after),
{}
pub proof fn order_LineSpacing_after_lines(s: LineSpacing, a_after: u32, b0_before: u32, b1_before: u32, b2_line: i32, b3_t: LineSpacingType)
  ensures
    sp_LineSpacing_before(sp_LineSpacing_after_lines(s, a_after), b0_before) == sp_LineSpacing_after_lines(sp_LineSpacing_before(s, b0_before), a_after),
    sp_LineSpacing_before_lines(sp_LineSpacing_after_lines(s, a_after), b1_before) == sp_LineSpacing_after_lines(sp_LineSpacing_before_lines(s, b1_before), a_after),
    sp_LineSpacing_line(sp_LineSpacing_after_lines(s, a_after), b2_line) == sp_LineSpacing_after_lines(sp_LineSpacing_line(s, b2_line), a_after),
    sp_LineSpacing_line_rule(sp_LineSpacing_after_lines(s, a_after), b3_t) == sp_LineSpacing_after_lines(sp_LineSpacing_line_rule(s, b3_t), a_after),
{}
pub proof fn order_LineSpacing_before(s: LineSpacing, a_before: u32, b0_before: u32, b1_line: i32, b2_t: LineSpacingType)
  ensures
    sp_LineSpacing_before_lines(sp_LineSpacing_before(s, a_before), b0_before) == sp_LineSpacing_before(sp_LineSpacing_before_lines(s, b0_before), a_before),
    sp_LineSpacing_line(sp_LineSpacing_before(s, a_before), b1_line) == sp_LineSpacing_before(sp_LineSpacing_line(s, b1_line), a_before),
    sp_LineSpacing_line_rule(sp_LineSpacing_before(s, a_before), b2_t) == sp_LineSpacing_before(sp_LineSpacing_line_rule(s, b2_t), a_before),
{}
pub proof fn order_LineSpacing_before_lines(s: LineSpacing, a_before: u32, b0_line: i32, b1_t: LineSpacingType)
  ensures
    sp_LineSpacing_line(sp_LineSpacing_before_lines(s, a_before), b0_line) == sp_LineSpacing_before_lines(sp_LineSpacing_line(s, b0_line), a_before),
    sp_LineSpacing_line_rule(sp_LineSpacing_before_lines(s, a_before), b1_t) == sp_LineSpacing_before_lines(sp_LineSpacing_line_rule(s, b1_t), a_before),
{}
pub proof fn order_LineSpacing_line(s: LineSpacing, a_line: i32, b0_t: LineSpacingType)
  ensures
    sp_LineSpacing_line_rule(sp_LineSpacing_line(s, a_line), b0_t) == sp_LineSpacing_line(sp_LineSpacing_line_rule(s, b0_t), a_line),
{}
pub proof fn order_Pic_dist_b(s: Pic, a_v: i32, b0_v: i32, b1_v: i32, b2_v: i32, b4_id: Seq<char>, b5_x: i32, b6_y: i32, b8_pos: DrawingPosition, b9_pos: DrawingPosition, b10_t: RelativeFromHType, b11_t: RelativeFromVType, b12_v: u32, b13_deg: u16, b14_v: bool, b15_w_emu: u32, b15_h_emu: u32)
  ensures
    sp_Pic_dist_l(sp_Pic_dist_b(s, a_v), b0_v) == sp_Pic_dist_b(sp_Pic_dist_l(s, b0_v), a_v),
    sp_Pic_dist_r(sp_Pic_dist_b(s, a_v), b1_v) == sp_Pic_dist_b(sp_Pic_dist_r(s, b1_v), a_v),
    sp_Pic_dist_t(sp_Pic_dist_b(s, a_v), b2_v) == sp_Pic_dist_b(sp_Pic_dist_t(s, b2_v), a_v),
    sp_Pic_floating(sp_Pic_dist_b(s, a_v)) == sp_Pic_dist_b(sp_Pic_floating(s), a_v),
    sp_Pic_id(sp_Pic_dist_b(s, a_v), b4_id) == sp_Pic_dist_b(sp_Pic_id(s, b4_id), a_v),
    sp_Pic_offset_x(sp_Pic_dist_b(s, a_v), b5_x) == sp_Pic_dist_b(sp_Pic_offset_x(s, b5_x), a_v),
    sp_Pic_offset_y(sp_Pic_dist_b(s, a_v), b6_y) == sp_Pic_dist_b(sp_Pic_offset_y(s, b6_y), a_v),
    sp_Pic_overlapping(sp_Pic_dist_b(s, a_v)) == sp_Pic_dist_b(sp_Pic_overlapping(s), a_v),
    sp_Pic_position_h(sp_Pic_dist_b(s, a_v), b8_pos) == sp_Pic_dist_b(sp_Pic_position_h(s, b8_pos), a_v),
    sp_Pic_position_v(sp_Pic_dist_b(s, a_v), b9_pos) == sp_Pic_dist_b(sp_Pic_position_v(s, b9_pos), a_v),
    sp_Pic_relative_from_h(sp_Pic_dist_b(s, a_v), b10_t) == sp_Pic_dist_b(sp_Pic_relative_from_h(s, b10_t), a_v),
    sp_Pic_relative_from_v(sp_Pic_dist_b(s, a_v), b11_t) == sp_Pic_dist_b(sp_Pic_relative_from_v(s, b11_t), a_v),
    sp_Pic_relative_height(sp_Pic_dist_b(s, a_v), b12_v) == sp_Pic_dist_b(sp_Pic_relative_height(s, b12_v), a_v),
    sp_Pic_rotate(sp_Pic_dist_b(s, a_v), b13_deg) == sp_Pic_dist_b(sp_Pic_rotate(s, b13_deg), a_v),
    sp_Pic_simple_pos(sp_Pic_dist_b(s, a_v), b14_v) == sp_Pic_dist_b(sp_Pic_simple_pos(s, b14_v), a_v),
    sp_Pic_size(sp_Pic_dist_b(s, a_v), b15_w_emu, b15_h_emu) == sp_Pic_dist_b(sp_Pic_size(s, b15_w_emu, b15_h_emu), a_v),
{}
pub proof fn order_Pic_dist_l(s: Pic, a_v: i32, b0_v: i32, b1_v: i32, b3_id: Seq<char>, b4_x: i32, b5_y: i32, b7_pos: DrawingPosition, b8_pos: DrawingPosition, b9_t: RelativeFromHType, b10_t: RelativeFromVType, b11_v: u32, b12_deg: u16, b13_v: bool, b14_w_emu: u32, b14_h_emu: u32)
  ensures
    sp_Pic_dist_r(sp_Pic_dist_l(s, a_v), b0_v) == sp_Pic_dist_l(sp_Pic_dist_r(s, b0_v), a_v),
    sp_Pic_dist_t(sp_Pic_dist_l(s, a_v), b1_v) == sp_Pic_dist_l(sp_Pic_dist_t(s, b1_v), a_v),
    sp_Pic_floating(sp_Pic_dist_l(s, a_v)) == sp_Pic_dist_l(sp_Pic_floating(s), a_v),
    sp_Pic_id(sp_Pic_dist_l(s, a_v), b3_id) == sp_Pic_dist_l(sp_Pic_id(s, b3_id), a_v),
    sp_Pic_offset_x(sp_Pic_dist_l(s, a_v), b4_x) == sp_Pic_dist_l(sp_Pic_offset_x(s, b4_x), a_v),
    sp_Pic_offset_y(sp_Pic_dist_l(s, a_v), b5_y) == sp_Pic_dist_l(sp_Pic_offset_y(s, b5_y), a_v),
    sp_Pic_overlapping(sp_Pic_dist_l(s, a_v)) == sp_Pic_dist_l(sp_Pic_overlapping(s), a_v),
    sp_Pic_position_h(sp_Pic_dist_l(s, a_v), b7_pos) == sp_Pic_dist_l(sp_Pic_position_h(s, b7_pos), a_v),
    sp_Pic_position_v(sp_Pic_dist_l(s, a_v), b8_pos) == sp_Pic_dist_l(sp_Pic_position_v(s, b8_pos), a_v),
    sp_Pic_relative_from_h(sp_Pic_dist_l(s, a_v), b9_t) == sp_Pic_dist_l(sp_Pic_relative_from_h(s, b9_t), a_v),
    sp_Pic_relative_from_v(sp_Pic_dist_l(s, a_v), b10_t) == sp_Pic_dist_l(sp_Pic_relative_from_v(s, b10_t), a_v),
    sp_Pic_relative_height(sp_Pic_dist_l(s, a_v), b11_v) == sp_Pic_dist_l(sp_Pic_relative_height(s, b11_v), a_v),
    sp_Pic_rotate(sp_Pic_dist_l(s, a_v), b12_deg) == sp_Pic_dist_l(sp_Pic_rotate(s, b12_deg), a_v),
    sp_Pic_simple_pos(sp_Pic_dist_l(s, a_v), b13_v) == sp_Pic_dist_l(sp_Pic_simple_pos(s, b13_v), a_v),
    sp_Pic_size(sp_Pic_dist_l(s, a_v), b14_w_emu, b14_h_emu) == sp_Pic_dist_l(sp_Pic_size(s, b14_w_emu, b14_h_emu), a_v),
{}
pub proof fn order_Pic_dist_r(s: Pic, a_v: i32, b0_v: i32, b2_id: Seq<char>, b3_x: i32, b4_y: i32, b6_pos: DrawingPosition, b7_pos: DrawingPosition, b8_t: RelativeFromHType, b9_t: RelativeFromVType, b10_v: u32, b11_deg: u16, b12_v: bool, b13_w_emu: u32, b13_h_emu: u32)
  ensures
    sp_Pic_dist_t(sp_Pic_dist_r(s, a_v), b0_v) == sp_Pic_dist_r(sp_Pic_dist_t(s, b0_v), a_v),
    sp_Pic_floating(sp_Pic_dist_r(s, a_v)) == sp_Pic_dist_r(sp_Pic_floating(s), a_v),
    sp_Pic_id(sp_Pic_dist_r(s, a_v), b2_id) == sp_Pic_dist_r(sp_Pic_id(s, b2_id), a_v),
    sp_Pic_offset_x(sp_Pic_dist_r(s, a_v), b3_x) == sp_Pic_dist_r(sp_Pic_offset_x(s, b3_x), a_v),
    sp_Pic_offset_y(sp_Pic_dist_r(s, a_v), b4_y) == sp_Pic_dist_r(sp_Pic_offset_y(s, b4_y), a_v),
    sp_Pic_overlapping(sp_Pic_dist_r(s, a_v)) == sp_Pic_dist_r(sp_Pic_overlapping(s), a_v),
    sp_Pic_position_h(sp_Pic_dist_r(s, a_v), b6_pos) == sp_Pic_dist_r(sp_Pic_position_h(s, b6_pos), a_v),
    sp_Pic_position_v(sp_Pic_dist_r(s, a_v), b7_pos) == sp_Pic_dist_r(sp_Pic_position_v(s, b7_pos), a_v),
    sp_Pic_relative_from_h(sp_Pic_dist_r(s, a_v), b8_t) == sp_Pic_dist_r(sp_Pic_relative_from_h(s, b8_t), a_v),
    sp_Pic_relative_from_v(sp_Pic_dist_r(s, a_v), b9_t) == sp_Pic_dist_r(sp_Pic_relative_from_v(s, b9_t), a_v),
    sp_Pic_relative_height(sp_Pic_dist_r(s, a_v), b10_v) == sp_Pic_dist_r(sp_Pic_relative_height(s, b10_v), a_v),
    sp_Pic_rotate(sp_Pic_dist_r(s, a_v), b11_deg) == sp_Pic_dist_r(sp_Pic_rotate(s, b11_deg), a_v),
    sp_Pic_simple_pos(sp_Pic_dist_r(s, a_v), b12_v) == sp_Pic_dist_r(sp_Pic_simple_pos(s, b12_v), a_v),
    sp_Pic_size(sp_Pic_dist_r(s, a_v), b13_w_emu, b13_h_emu) == sp_Pic_dist_r(sp_Pic_size(s, b13_w_emu, b13_h_emu), a_v),
{}
pub proof fn order_Pic_dist_t(s: Pic, a_v: i32, b1_id: Seq<char>, b2_x: i32, b3_y: i32, b5_pos: DrawingPosition, b6_pos: DrawingPosition, b7_t: RelativeFromHType, b8_t: RelativeFromVType, b9_v: u32, b10_deg: u16, b11_v: bool, b12_w_emu: u32, b12_h_emu: u32)
  ensures
    sp_Pic_floating(sp_Pic_dist_t(s, a_v)) == sp_Pic_dist_t(sp_Pic_floating(s), a_v),
    sp_Pic_id(sp_Pic_dist_t(s, a_v), b1_id) == sp_Pic_dist_t(sp_Pic_id(s, b1_id), a_v),
    sp_Pic_offset_x(sp_Pic_dist_t(s, a_v), b2_x) == sp_Pic_dist_t(sp_Pic_offset_x(s, b2_x), a_v),
    sp_Pic_offset_y(sp_Pic_dist_t(s, a_v), b3_y) == sp_Pic_dist_t(sp_Pic_offset_y(s, b3_y), a_v),
    sp_Pic_overlapping(sp_Pic_dist_t(s, a_v)) == sp_Pic_dist_t(sp_Pic_overlapping(s), a_v),
    sp_Pic_position_h(sp_Pic_dist_t(s, a_v), b5_pos) == sp_Pic_dist_t(sp_Pic_position_h(s, b5_pos), a_v),
    sp_Pic_position_v(sp_Pic_dist_t(s, a_v), b6_pos) == sp_Pic_dist_t(sp_Pic_position_v(s, b6_pos), a_v),
    sp_Pic_relative_from_h(sp_Pic_dist_t(s, a_v), b7_t) == sp_Pic_dist_t(sp_Pic_relative_from_h(s, b7_t), a_v),
    sp_Pic_relative_from_v(sp_Pic_dist_t(s, a_v), b8_t) == sp_Pic_dist_t(sp_Pic_relative_from_v(s, b8_t), a_v),
    sp_Pic_relative_height(sp_Pic_dist_t(s, a_v), b9_v) == sp_Pic_dist_t(sp_Pic_relative_height(s, b9_v), a_v),
    sp_Pic_rotate(sp_Pic_dist_t(s, a_v), b10_deg) == sp_Pic_dist_t(sp_Pic_rotate(s, b10_deg), a_v),
    sp_Pic_simple_pos(sp_Pic_dist_t(s, a_v), b11_v) == sp_Pic_dist_t(sp_Pic_simple_pos(s, b11_v), a_v),
    sp_Pic_size(sp_Pic_dist_t(s, a_v), b12_w_emu, b12_h_emu) == sp_Pic_dist_t(sp_Pic_size(s, b12_w_emu, b12_h_emu), a_v),
{}
pub proof fn order_Pic_floating(s: Pic, b0_id: Seq<char>, b1_x: i32, b2_y: i32, b4_pos: DrawingPosition, b5_pos: DrawingPosition, b6_t: RelativeFromHType, b7_t: RelativeFromVType, b8_v: u32, b9_deg: u16, b10_v: bool, b11_w_emu: u32, b11_h_emu: u32)
  ensures
    sp_Pic_id(sp_Pic_floating(s), b0_id) == sp_Pic_floating(sp_Pic_id(s, b0_id)),
    sp_Pic_offset_x(sp_Pic_floating(s), b1_x) == sp_Pic_floating(sp_Pic_offset_x(s, b1_x)),
    sp_Pic_offset_y(sp_Pic_floating(s), b2_y) == sp_Pic_floating(sp_Pic_offset_y(s, b2_y)),
    sp_Pic_overlapping(sp_Pic_floating(s)) == sp_Pic_floating(sp_Pic_overlapping(s)),
    sp_Pic_position_h(sp_Pic_floating(s), b4_pos) == sp_Pic_floating(sp_Pic_position_h(s, b4_pos)),
    sp_Pic_position_v(sp_Pic_floating(s), b5_pos) == sp_Pic_floating(sp_Pic_position_v(s, b5_pos)),
    sp_Pic_relative_from_h(sp_Pic_floating(s), b6_t) == sp_Pic_floating(sp_Pic_relative_from_h(s, b6_t)),
    sp_Pic_relative_from_v(sp_Pic_floating(s), b7_t) == sp_Pic_floating(sp_Pic_relative_from_v(s, b7_t)),
    sp_Pic_relative_height(sp_Pic_floating(s), b8_v) == sp_Pic_floating(sp_Pic_relative_height(s, b8_v)),
    sp_Pic_rotate(sp_Pic_floating(s), b9_deg) == sp_Pic_floating(sp_Pic_rotate(s, b9_deg)),
    sp_Pic_simple_pos(sp_Pic_floating(s), b10_v) == sp_Pic_floating(sp_Pic_simple_pos(s, b10_v)),
    sp_Pic_size(sp_Pic_floating(s), b11_w_emu, b11_h_emu) == sp_Pic_floating(sp_Pic_size(s, b11_w_emu, b11_h_emu)),
{}
pub proof fn order_Pic_id(s: Pic, a_id: Seq<char>, b0_x: i32, b1_y: i32, b3_pos: DrawingPosition, b4_pos: DrawingPosition, b5_t: RelativeFromHType, b6_t: RelativeFromVType, b7_v: u32, b8_deg: u16, b9_v: bool, b10_w_emu: u32, b10_h_emu: u32)
  ensures
    sp_Pic_offset_x(sp_Pic_id(s, a_id), b0_x) == sp_Pic_id(sp_Pic_offset_x(s, b0_x), a_id),
    sp_Pic_offset_y(sp_Pic_id(s, a_id), b1_y) == sp_Pic_id(sp_Pic_offset_y(s, b1_y), a_id),
    sp_Pic_overlapping(sp_Pic_id(s, a_id)) == sp_Pic_id(sp_Pic_overlapping(s), a_id),
    sp_Pic_position_h(sp_Pic_id(s, a_id), b3_pos) == sp_Pic_id(sp_Pic_position_h(s, b3_pos), a_id),
    sp_Pic_position_v(sp_Pic_id(s, a_id), b4_pos) == sp_Pic_id(sp_Pic_position_v(s, b4_pos), a_id),
    sp_Pic_relative_from_h(sp_Pic_id(s, a_id), b5_t) == sp_Pic_id(sp_Pic_relative_from_h(s, b5_t), a_id),
    sp_Pic_relative_from_v(sp_Pic_id(s, a_id), b6_t) == sp_Pic_id(sp_Pic_relative_from_v(s, b6_t), a_id),
    sp_Pic_relative_height(sp_Pic_id(s, a_id), b7_v) == sp_Pic_id(sp_Pic_relative_height(s, b7_v), a_id),
    sp_Pic_rotate(sp_Pic_id(s, a_id), b8_deg) == sp_Pic_id(sp_Pic_rotate(s, b8_deg), a_id),
    sp_Pic_simple_pos(sp_Pic_id(s, a_id), b9_v) == sp_Pic_id(sp_Pic_simple_pos(s, b9_v), a_id),
    sp_Pic_size(sp_Pic_id(s, a_id), b10_w_emu, b10_h_emu) == sp_Pic_id(sp_Pic_size(s, b10_w_emu, b10_h_emu), a_id),
{}
pub proof fn order_Pic_offset_x(s: Pic, a_x: i32, b0_y: i32, b2_pos: DrawingPosition, b3_t: RelativeFromHType, b4_t: RelativeFromVType, b5_v: u32, b6_deg: u16, b7_v: bool, b8_w_emu: u32, b8_h_emu: u32)
  ensures
    sp_Pic_offset_y(sp_Pic_offset_x(s, a_x), b0_y) == sp_Pic_offset_x(sp_Pic_offset_y(s, b0_y), a_x),
    sp_Pic_overlapping(sp_Pic_offset_x(s, a_x)) == sp_Pic_offset_x(sp_Pic_overlapping(s), a_x),
    sp_Pic_position_v(sp_Pic_offset_x(s, a_x), b2_pos) == sp_Pic_offset_x(sp_Pic_position_v(s, b2_pos), a_x),
    sp_Pic_relative_from_h(sp_Pic_offset_x(s, a_x), b3_t) == sp_Pic_offset_x(sp_Pic_relative_from_h(s, b3_t), a_x),
    sp_Pic_relative_from_v(sp_Pic_offset_x(s, a_x), b4_t) == sp_Pic_offset_x(sp_Pic_relative_from_v(s, b4_t), a_x),
    sp_Pic_relative_height(sp_Pic_offset_x(s, a_x), b5_v) == sp_Pic_offset_x(sp_Pic_relative_height(s, b5_v), a_x),
    sp_Pic_rotate(sp_Pic_offset_x(s, a_x), b6_deg) == sp_Pic_offset_x(sp_Pic_rotate(s, b6_deg), a_x),
    sp_Pic_simple_pos(sp_Pic_offset_x(s, a_x), b7_v) == sp_Pic_offset_x(sp_Pic_simple_pos(s, b7_v), a_x),
    sp_Pic_size(sp_Pic_offset_x(s, a_x), b8_w_emu, b8_h_emu) == sp_Pic_offset_x(sp_Pic_size(s, b8_w_emu, b8_h_emu), a_x),
{}
pub proof fn order_Pic_offset_y(s: Pic, a_y: i32, b1_pos: DrawingPosition, b2_t: RelativeFromHType, b3_t: RelativeFromVType, b4_v: u32, b5_deg: u16, b6_v: bool, b7_w_emu: u32, b7_h_emu: u32)
  ensures
    sp_Pic_overlapping(sp_Pic_offset_y(s, a_y)) == sp_Pic_offset_y(sp_Pic_overlapping(s), a_y),
    sp_Pic_position_h(sp_Pic_offset_y(s, a_y), b1_pos) == sp_Pic_offset_y(sp_Pic_position_h(s, b1_pos), a_y),
    sp_Pic_relative_from_h(sp_Pic_offset_y(s, a_y), b2_t) == sp_Pic_offset_y(sp_Pic_relative_from_h(s, b2_t), a_y),
    sp_Pic_relative_from_v(sp_Pic_offset_y(s, a_y), b3_t) == sp_Pic_offset_y(sp_Pic_relative_from_v(s, b3_t), a_y),
    sp_Pic_relative_height(sp_Pic_offset_y(s, a_y), b4_v) == sp_Pic_offset_y(sp_Pic_relative_height(s, b4_v), a_y),
    sp_Pic_rotate(sp_Pic_offset_y(s, a_y), b5_deg) == sp_Pic_offset_y(sp_Pic_rotate(s, b5_deg), a_y),
    sp_Pic_simple_pos(sp_Pic_offset_y(s, a_y), b6_v) == sp_Pic_offset_y(sp_Pic_simple_pos(s, b6_v), a_y),
    sp_Pic_size(sp_Pic_offset_y(s, a_y), b7_w_emu, b7_h_emu) == sp_Pic_offset_y(sp_Pic_size(s, b7_w_emu, b7_h_emu), a_y),
{}
pub proof fn order_Pic_overlapping(s: Pic, b0_pos: DrawingPosition, b1_pos: DrawingPosition, b2_t: RelativeFromHType, b3_t: RelativeFromVType, b4_v: u32, b5_deg: u16, b6_v: bool, b7_w_emu: u32, b7_h_emu: u32)
  ensures
    sp_Pic_position_h(sp_Pic_overlapping(s), b0_pos) == sp_Pic_overlapping(sp_Pic_position_h(s, b0_pos)),
    sp_Pic_position_v(sp_Pic_overlapping(s), b1_pos) == sp_Pic_overlapping(sp_Pic_position_v(s, b1_pos)),
    sp_Pic_relative_from_h(sp_Pic_overlapping(s), b2_t) == sp_Pic_overlapping(sp_Pic_relative_from_h(s, b2_t)),
    sp_Pic_relative_from_v(sp_Pic_overlapping(s), b3_t) == sp_Pic_overlapping(sp_Pic_relative_from_v(s, b3_t)),
    sp_Pic_relative_height(sp_Pic_overlapping(s), b4_v) == sp_Pic_overlapping(sp_Pic_relative_height(s, b4_v)),
    sp_Pic_rotate(sp_Pic_overlapping(s), b5_deg) == sp_Pic_overlapping(sp_Pic_rotate(s, b5_deg)),
    sp_Pic_simple_pos(sp_Pic_overlapping(s), b6_v) == sp_Pic_overlapping(sp_Pic_simple_pos(s, b6_v)),
    sp_Pic_size(sp_Pic_overlapping(s), b7_w_emu, b7_h_emu) == sp_Pic_overlapping(sp_Pic_size(s, b7_w_emu, b7_h_emu)),
{}
pub proof fn order_Pic_position_h(s: Pic, a_pos: DrawingPosition, b0_pos: DrawingPosition, b1_t: RelativeFromHType, b2_t: RelativeFromVType, b3_v: u32, b4_deg: u16, b5_v: bool, b6_w_emu: u32, b6_h_emu: u32)
  ensures
    sp_Pic_position_v(sp_Pic_position_h(s, a_pos), b0_pos) == sp_Pic_position_h(sp_Pic_position_v(s, b0_pos), a_pos),
    sp_Pic_relative_from_h(sp_Pic_position_h(s, a_pos), b1_t) == sp_Pic_position_h(sp_Pic_relative_from_h(s, b1_t), a_pos),
    sp_Pic_relative_from_v(sp_Pic_position_h(s, a_pos), b2_t) == sp_Pic_position_h(sp_Pic_relative_from_v(s, b2_t), a_pos),
    sp_Pic_relative_height(sp_Pic_position_h(s, a_pos), b3_v) == sp_Pic_position_h(sp_Pic_relative_height(s, b3_v), a_pos),
    sp_Pic_rotate(sp_Pic_position_h(s, a_pos), b4_deg) == sp_Pic_position_h(sp_Pic_rotate(s, b4_deg), a_pos),
    sp_Pic_simple_pos(sp_Pic_position_h(s, a_pos), b5_v) == sp_Pic_position_h(sp_Pic_simple_pos(s, b5_v), a_pos),
    sp_Pic_size(sp_Pic_position_h(s, a_pos), b6_w_emu, b6_h_emu) == sp_Pic_position_h(sp_Pic_size(s, b6_w_emu, b6_h_emu), a_pos),
{}
pub proof fn order_Pic_position_v(s: Pic, a_pos: DrawingPosition, b0_t: RelativeFromHType, b1_t: RelativeFromVType, b2_v: u32, b3_deg: u16, b4_v: bool, b5_w_emu: u32, b5_h_emu: u32)
  ensures
    sp_Pic_relative_from_h(sp_Pic_position_v(s, a_pos), b0_t) == sp_Pic_position_v(sp_Pic_relative_from_h(s, b0_t), a_pos),
    sp_Pic_relative_from_v(sp_Pic_position_v(s, a_pos), b1_t) == sp_Pic_position_v(sp_Pic_relative_from_v(s, b1_t), a_pos),
    sp_Pic_relative_height(sp_Pic_position_v(s, a_pos), b2_v) == sp_Pic_position_v(sp_Pic_relative_height(s, b2_v), a_pos),
    sp_Pic_rotate(sp_Pic_position_v(s, a_pos), b3_deg) == sp_Pic_position_v(sp_Pic_rotate(s, b3_deg), a_pos),
    sp_Pic_simple_pos(sp_Pic_position_v(s, a_pos), b4_v) == sp_Pic_position_v(sp_Pic_simple_pos(s, b4_v), a_pos),
    sp_Pic_size(sp_Pic_position_v(s, a_pos), b5_w_emu, b5_h_emu) == sp_Pic_position_v(sp_Pic_size(s, b5_w_emu, b5_h_emu), a_pos),
{}
pub proof fn order_Pic_relative_from_h(s: Pic, a_t: RelativeFromHType, b0_t: RelativeFromVType, b1_v: u32, b2_deg: u16, b3_v: bool, b4_w_emu: u32, b4_h_emu: u32)
  ensures
    sp_Pic_relative_from_v(sp_Pic_relative_from_h(s, a_t), b0_t) == sp_Pic_relative_from_h(sp_Pic_relative_from_v(s, b0_t), a_t),
    sp_Pic_relative_height(sp_Pic_relative_from_h(s, a_t), b1_v) == sp_Pic_relative_from_h(sp_Pic_relative_height(s, b1_v), a_t),
    sp_Pic_rotate(sp_Pic_relative_from_h(s, a_t), b2_deg) == sp_Pic_relative_from_h(sp_Pic_rotate(s, b2_deg), a_t),
    sp_Pic_simple_pos(sp_Pic_relative_from_h(s, a_t), b3_v) == sp_Pic_relative_from_h(sp_Pic_simple_pos(s, b3_v), a_t),
    sp_Pic_size(sp_Pic_relative_from_h(s, a_t), b4_w_emu, b4_h_emu) == sp_Pic_relative_from_h(sp_Pic_size(s, b4_w_emu, b4_h_emu), a_t),
{}
pub proof fn order_Pic_relative_from_v(s: Pic, a_t: RelativeFromVType, b0_v: u32, b1_deg: u16, b2_v: bool, b3_w_emu: u32, b3_h_emu: u32)
  ensures
    sp_Pic_relative_height(sp_Pic_relative_from_v(s, a_t), b0_v) == sp_Pic_relative_from_v(sp_Pic_relative_height(s, b0_v), a_t),
    sp_Pic_rotate(sp_Pic_relative_from_v(s, a_t), b1_deg) == sp_Pic_relative_from_v(sp_Pic_rotate(s, b1_deg), a_t),
    sp_Pic_simple_pos(sp_Pic_relative_from_v(s, a_t), b2_v) == sp_Pic_relative_from_v(sp_Pic_simple_pos(s, b2_v), a_t),
    sp_Pic_size(sp_Pic_relative_from_v(s, a_t), b3_w_emu, b3_h_emu) == sp_Pic_relative_from_v(sp_Pic_size(s, b3_w_emu, b3_h_emu), a_t),
{}
pub proof fn order_Pic_relative_height(s: Pic, a_v: u32, b0_deg: u16, b1_v: bool, b2_w_emu: u32, b2_h_emu: u32)
  ensures
    sp_Pic_rotate(sp_Pic_relative_height(s, a_v), b0_deg) == sp_Pic_relative_height(sp_Pic_rotate(s, b0_deg), a_v),
    sp_Pic_simple_pos(sp_Pic_relative_height(s, a_v), b1_v) == sp_Pic_relative_height(sp_Pic_simple_pos(s, b1_v), a_v),
    sp_Pic_size(sp_Pic_relative_height(s, a_v), b2_w_emu, b2_h_emu) == sp_Pic_relative_height(sp_Pic_size(s, b2_w_emu, b2_h_emu), a_v),
{}
pub proof fn order_Pic_rotate(s: Pic, a_deg: u16, b0_v: bool, b1_w_emu: u32, b1_h_emu: u32)
  ensures
    sp_Pic_simple_pos(sp_Pic_rotate(s, a_deg), b0_v) == sp_Pic_rotate(sp_Pic_simple_pos(s, b0_v), a_deg),
    sp_Pic_size(sp_Pic_rotate(s, a_deg), b1_w_emu, b1_h_emu) == sp_Pic_rotate(sp_Pic_size(s, b1_w_emu, b1_h_emu), a_deg),
{}
pub proof fn order_Pic_simple_pos(s: Pic, a_v: bool, b0_w_emu: u32, b0_h_emu: u32)
  ensures
    sp_Pic_size(sp_Pic_simple_pos(s, a_v), b0_w_emu, b0_h_emu) == sp_Pic_simple_pos(sp_Pic_size(s, b0_w_emu, b0_h_emu), a_v),
{}
pub proof fn order_Run_add_break(s: Run, a_break_type: BreakType, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_bold(s), a_break_type),
    sp_Run_character_spacing(sp_Run_add_break(s, a_break_type), b1_v) == sp_Run_add_break(sp_Run_character_spacing(s, b1_v), a_break_type),
    sp_Run_color(sp_Run_add_break(s, a_break_type), b2_color) == sp_Run_add_break(sp_Run_color(s, b2_color), a_break_type),
    sp_Run_disable_bold(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_disable_bold(s), a_break_type),
    sp_Run_disable_italic(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_disable_italic(s), a_break_type),
    sp_Run_dstrike(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_dstrike(s), a_break_type),
    sp_Run_fonts(sp_Run_add_break(s, a_break_type), b6_f) == sp_Run_add_break(sp_Run_fonts(s, b6_f), a_break_type),
    sp_Run_highlight(sp_Run_add_break(s, a_break_type), b7_color) == sp_Run_add_break(sp_Run_highlight(s, b7_color), a_break_type),
    sp_Run_italic(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_italic(s), a_break_type),
    sp_Run_set_property(sp_Run_add_break(s, a_break_type), b9_p) == sp_Run_add_break(sp_Run_set_property(s, b9_p), a_break_type),
    sp_Run_shading(sp_Run_add_break(s, a_break_type), b10_shading) == sp_Run_add_break(sp_Run_shading(s, b10_shading), a_break_type),
    sp_Run_size(sp_Run_add_break(s, a_break_type), b11_size) == sp_Run_add_break(sp_Run_size(s, b11_size), a_break_type),
    sp_Run_stretch(sp_Run_add_break(s, a_break_type), b12_v) == sp_Run_add_break(sp_Run_stretch(s, b12_v), a_break_type),
    sp_Run_strike(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_strike(s), a_break_type),
    sp_Run_style(sp_Run_add_break(s, a_break_type), b14_style_id) == sp_Run_add_break(sp_Run_style(s, b14_style_id), a_break_type),
    sp_Run_text_border(sp_Run_add_break(s, a_break_type), b15_b) == sp_Run_add_break(sp_Run_text_border(s, b15_b), a_break_type),
    sp_Run_theme_color(sp_Run_add_break(s, a_break_type), b16_theme_color) == sp_Run_add_break(sp_Run_theme_color(s, b16_theme_color), a_break_type),
    sp_Run_theme_shade(sp_Run_add_break(s, a_break_type), b17_theme_shade) == sp_Run_add_break(sp_Run_theme_shade(s, b17_theme_shade), a_break_type),
    sp_Run_theme_tint(sp_Run_add_break(s, a_break_type), b18_theme_tint) == sp_Run_add_break(sp_Run_theme_tint(s, b18_theme_tint), a_break_type),
    sp_Run_underline(sp_Run_add_break(s, a_break_type), b19_line_type) == sp_Run_add_break(sp_Run_underline(s, b19_line_type), a_break_type),
    sp_Run_vanish(sp_Run_add_break(s, a_break_type)) == sp_Run_add_break(sp_Run_vanish(s), a_break_type),
{}
pub proof fn order_Run_add_carriage_return(s: Run, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_bold(s)),
    sp_Run_character_spacing(sp_Run_add_carriage_return(s), b1_v) == sp_Run_add_carriage_return(sp_Run_character_spacing(s, b1_v)),
    sp_Run_color(sp_Run_add_carriage_return(s), b2_color) == sp_Run_add_carriage_return(sp_Run_color(s, b2_color)),
    sp_Run_disable_bold(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_disable_bold(s)),
    sp_Run_disable_italic(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_disable_italic(s)),
    sp_Run_dstrike(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_dstrike(s)),
    sp_Run_fonts(sp_Run_add_carriage_return(s), b6_f) == sp_Run_add_carriage_return(sp_Run_fonts(s, b6_f)),
    sp_Run_highlight(sp_Run_add_carriage_return(s), b7_color) == sp_Run_add_carriage_return(sp_Run_highlight(s, b7_color)),
    sp_Run_italic(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_italic(s)),
    sp_Run_set_property(sp_Run_add_carriage_return(s), b9_p) == sp_Run_add_carriage_return(sp_Run_set_property(s, b9_p)),
    sp_Run_shading(sp_Run_add_carriage_return(s), b10_shading) == sp_Run_add_carriage_return(sp_Run_shading(s, b10_shading)),
    sp_Run_size(sp_Run_add_carriage_return(s), b11_size) == sp_Run_add_carriage_return(sp_Run_size(s, b11_size)),
    sp_Run_stretch(sp_Run_add_carriage_return(s), b12_v) == sp_Run_add_carriage_return(sp_Run_stretch(s, b12_v)),
    sp_Run_strike(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_strike(s)),
    sp_Run_style(sp_Run_add_carriage_return(s), b14_style_id) == sp_Run_add_carriage_return(sp_Run_style(s, b14_style_id)),
    sp_Run_text_border(sp_Run_add_carriage_return(s), b15_b) == sp_Run_add_carriage_return(sp_Run_text_border(s, b15_b)),
    sp_Run_theme_color(sp_Run_add_carriage_return(s), b16_theme_color) == sp_Run_add_carriage_return(sp_Run_theme_color(s, b16_theme_color)),
    sp_Run_theme_shade(sp_Run_add_carriage_return(s), b17_theme_shade) == sp_Run_add_carriage_return(sp_Run_theme_shade(s, b17_theme_shade)),
    sp_Run_theme_tint(sp_Run_add_carriage_return(s), b18_theme_tint) == sp_Run_add_carriage_return(sp_Run_theme_tint(s, b18_theme_tint)),
    sp_Run_underline(sp_Run_add_carriage_return(s), b19_line_type) == sp_Run_add_carriage_return(sp_Run_underline(s, b19_line_type)),
    sp_Run_vanish(sp_Run_add_carriage_return(s)) == sp_Run_add_carriage_return(sp_Run_vanish(s)),
{}
pub proof fn order_Run_add_delete_instr_text(s: Run, a_i: DeleteInstrText, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_bold(s), a_i),
    sp_Run_character_spacing(sp_Run_add_delete_instr_text(s, a_i), b1_v) == sp_Run_add_delete_instr_text(sp_Run_character_spacing(s, b1_v), a_i),
    sp_Run_color(sp_Run_add_delete_instr_text(s, a_i), b2_color) == sp_Run_add_delete_instr_text(sp_Run_color(s, b2_color), a_i),
    sp_Run_disable_bold(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_disable_bold(s), a_i),
    sp_Run_disable_italic(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_disable_italic(s), a_i),
    sp_Run_dstrike(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_dstrike(s), a_i),
    sp_Run_fonts(sp_Run_add_delete_instr_text(s, a_i), b6_f) == sp_Run_add_delete_instr_text(sp_Run_fonts(s, b6_f), a_i),
    sp_Run_highlight(sp_Run_add_delete_instr_text(s, a_i), b7_color) == sp_Run_add_delete_instr_text(sp_Run_highlight(s, b7_color), a_i),
    sp_Run_italic(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_italic(s), a_i),
    sp_Run_set_property(sp_Run_add_delete_instr_text(s, a_i), b9_p) == sp_Run_add_delete_instr_text(sp_Run_set_property(s, b9_p), a_i),
    sp_Run_shading(sp_Run_add_delete_instr_text(s, a_i), b10_shading) == sp_Run_add_delete_instr_text(sp_Run_shading(s, b10_shading), a_i),
    sp_Run_size(sp_Run_add_delete_instr_text(s, a_i), b11_size) == sp_Run_add_delete_instr_text(sp_Run_size(s, b11_size), a_i),
    sp_Run_stretch(sp_Run_add_delete_instr_text(s, a_i), b12_v) == sp_Run_add_delete_instr_text(sp_Run_stretch(s, b12_v), a_i),
    sp_Run_strike(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_strike(s), a_i),
    sp_Run_style(sp_Run_add_delete_instr_text(s, a_i), b14_style_id) == sp_Run_add_delete_instr_text(sp_Run_style(s, b14_style_id), a_i),
    sp_Run_text_border(sp_Run_add_delete_instr_text(s, a_i), b15_b) == sp_Run_add_delete_instr_text(sp_Run_text_border(s, b15_b), a_i),
    sp_Run_theme_color(sp_Run_add_delete_instr_text(s, a_i), b16_theme_color) == sp_Run_add_delete_instr_text(sp_Run_theme_color(s, b16_theme_color), a_i),
    sp_Run_theme_shade(sp_Run_add_delete_instr_text(s, a_i), b17_theme_shade) == sp_Run_add_delete_instr_text(sp_Run_theme_shade(s, b17_theme_shade), a_i),
    sp_Run_theme_tint(sp_Run_add_delete_instr_text(s, a_i), b18_theme_tint) == sp_Run_add_delete_instr_text(sp_Run_theme_tint(s, b18_theme_tint), a_i),
    sp_Run_underline(sp_Run_add_delete_instr_text(s, a_i), b19_line_type) == sp_Run_add_delete_instr_text(sp_Run_underline(s, b19_line_type), a_i),
    sp_Run_vanish(sp_Run_add_delete_instr_text(s, a_i)) == sp_Run_add_delete_instr_text(sp_Run_vanish(s), a_i),
{}
pub proof fn order_Run_add_drawing(s: Run, a_d: Drawing, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_bold(s), a_d),
    sp_Run_character_spacing(sp_Run_add_drawing(s, a_d), b1_v) == sp_Run_add_drawing(sp_Run_character_spacing(s, b1_v), a_d),
    sp_Run_color(sp_Run_add_drawing(s, a_d), b2_color) == sp_Run_add_drawing(sp_Run_color(s, b2_color), a_d),
    sp_Run_disable_bold(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_disable_bold(s), a_d),
    sp_Run_disable_italic(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_disable_italic(s), a_d),
    sp_Run_dstrike(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_dstrike(s), a_d),
    sp_Run_fonts(sp_Run_add_drawing(s, a_d), b6_f) == sp_Run_add_drawing(sp_Run_fonts(s, b6_f), a_d),
    sp_Run_highlight(sp_Run_add_drawing(s, a_d), b7_color) == sp_Run_add_drawing(sp_Run_highlight(s, b7_color), a_d),
    sp_Run_italic(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_italic(s), a_d),
    sp_Run_set_property(sp_Run_add_drawing(s, a_d), b9_p) == sp_Run_add_drawing(sp_Run_set_property(s, b9_p), a_d),
    sp_Run_shading(sp_Run_add_drawing(s, a_d), b10_shading) == sp_Run_add_drawing(sp_Run_shading(s, b10_shading), a_d),
    sp_Run_size(sp_Run_add_drawing(s, a_d), b11_size) == sp_Run_add_drawing(sp_Run_size(s, b11_size), a_d),
    sp_Run_stretch(sp_Run_add_drawing(s, a_d), b12_v) == sp_Run_add_drawing(sp_Run_stretch(s, b12_v), a_d),
    sp_Run_strike(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_strike(s), a_d),
    sp_Run_style(sp_Run_add_drawing(s, a_d), b14_style_id) == sp_Run_add_drawing(sp_Run_style(s, b14_style_id), a_d),
    sp_Run_text_border(sp_Run_add_drawing(s, a_d), b15_b) == sp_Run_add_drawing(sp_Run_text_border(s, b15_b), a_d),
    sp_Run_theme_color(sp_Run_add_drawing(s, a_d), b16_theme_color) == sp_Run_add_drawing(sp_Run_theme_color(s, b16_theme_color), a_d),
    sp_Run_theme_shade(sp_Run_add_drawing(s, a_d), b17_theme_shade) == sp_Run_add_drawing(sp_Run_theme_shade(s, b17_theme_shade), a_d),
    sp_Run_theme_tint(sp_Run_add_drawing(s, a_d), b18_theme_tint) == sp_Run_add_drawing(sp_Run_theme_tint(s, b18_theme_tint), a_d),
    sp_Run_underline(sp_Run_add_drawing(s, a_d), b19_line_type) == sp_Run_add_drawing(sp_Run_underline(s, b19_line_type), a_d),
    sp_Run_vanish(sp_Run_add_drawing(s, a_d)) == sp_Run_add_drawing(sp_Run_vanish(s), a_d),
{}
pub proof fn order_Run_add_field_char(s: Run, a_t: FieldCharType, a_dirty: bool, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_bold(s), a_t, a_dirty),
    sp_Run_character_spacing(sp_Run_add_field_char(s, a_t, a_dirty), b1_v) == sp_Run_add_field_char(sp_Run_character_spacing(s, b1_v), a_t, a_dirty),
    sp_Run_color(sp_Run_add_field_char(s, a_t, a_dirty), b2_color) == sp_Run_add_field_char(sp_Run_color(s, b2_color), a_t, a_dirty),
    sp_Run_disable_bold(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_disable_bold(s), a_t, a_dirty),
    sp_Run_disable_italic(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_disable_italic(s), a_t, a_dirty),
    sp_Run_dstrike(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_dstrike(s), a_t, a_dirty),
    sp_Run_fonts(sp_Run_add_field_char(s, a_t, a_dirty), b6_f) == sp_Run_add_field_char(sp_Run_fonts(s, b6_f), a_t, a_dirty),
    sp_Run_highlight(sp_Run_add_field_char(s, a_t, a_dirty), b7_color) == sp_Run_add_field_char(sp_Run_highlight(s, b7_color), a_t, a_dirty),
    sp_Run_italic(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_italic(s), a_t, a_dirty),
    sp_Run_set_property(sp_Run_add_field_char(s, a_t, a_dirty), b9_p) == sp_Run_add_field_char(sp_Run_set_property(s, b9_p), a_t, a_dirty),
    sp_Run_shading(sp_Run_add_field_char(s, a_t, a_dirty), b10_shading) == sp_Run_add_field_char(sp_Run_shading(s, b10_shading), a_t, a_dirty),
    sp_Run_size(sp_Run_add_field_char(s, a_t, a_dirty), b11_size) == sp_Run_add_field_char(sp_Run_size(s, b11_size), a_t, a_dirty),
    sp_Run_stretch(sp_Run_add_field_char(s, a_t, a_dirty), b12_v) == sp_Run_add_field_char(sp_Run_stretch(s, b12_v), a_t, a_dirty),
    sp_Run_strike(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_strike(s), a_t, a_dirty),
    sp_Run_style(sp_Run_add_field_char(s, a_t, a_dirty), b14_style_id) == sp_Run_add_field_char(sp_Run_style(s, b14_style_id), a_t, a_dirty),
    sp_Run_text_border(sp_Run_add_field_char(s, a_t, a_dirty), b15_b) == sp_Run_add_field_char(sp_Run_text_border(s, b15_b), a_t, a_dirty),
    sp_Run_theme_color(sp_Run_add_field_char(s, a_t, a_dirty), b16_theme_color) == sp_Run_add_field_char(sp_Run_theme_color(s, b16_theme_color), a_t, a_dirty),
    sp_Run_theme_shade(sp_Run_add_field_char(s, a_t, a_dirty), b17_theme_shade) == sp_Run_add_field_char(sp_Run_theme_shade(s, b17_theme_shade), a_t, a_dirty),
    sp_Run_theme_tint(sp_Run_add_field_char(s, a_t, a_dirty), b18_theme_tint) == sp_Run_add_field_char(sp_Run_theme_tint(s, b18_theme_tint), a_t, a_dirty),
    sp_Run_underline(sp_Run_add_field_char(s, a_t, a_dirty), b19_line_type) == sp_Run_add_field_char(sp_Run_underline(s, b19_line_type), a_t, a_dirty),
    sp_Run_vanish(sp_Run_add_field_char(s, a_t, a_dirty)) == sp_Run_add_field_char(sp_Run_vanish(s), a_t, a_dirty),
{}
pub proof fn order_Run_add_image(s: Run, a_pic: Pic, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_bold(s), a_pic),
    sp_Run_character_spacing(sp_Run_add_image(s, a_pic), b1_v) == sp_Run_add_image(sp_Run_character_spacing(s, b1_v), a_pic),
    sp_Run_color(sp_Run_add_image(s, a_pic), b2_color) == sp_Run_add_image(sp_Run_color(s, b2_color), a_pic),
    sp_Run_disable_bold(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_disable_bold(s), a_pic),
    sp_Run_disable_italic(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_disable_italic(s), a_pic),
    sp_Run_dstrike(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_dstrike(s), a_pic),
    sp_Run_fonts(sp_Run_add_image(s, a_pic), b6_f) == sp_Run_add_image(sp_Run_fonts(s, b6_f), a_pic),
    sp_Run_highlight(sp_Run_add_image(s, a_pic), b7_color) == sp_Run_add_image(sp_Run_highlight(s, b7_color), a_pic),
    sp_Run_italic(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_italic(s), a_pic),
    sp_Run_set_property(sp_Run_add_image(s, a_pic), b9_p) == sp_Run_add_image(sp_Run_set_property(s, b9_p), a_pic),
    sp_Run_shading(sp_Run_add_image(s, a_pic), b10_shading) == sp_Run_add_image(sp_Run_shading(s, b10_shading), a_pic),
    sp_Run_size(sp_Run_add_image(s, a_pic), b11_size) == sp_Run_add_image(sp_Run_size(s, b11_size), a_pic),
    sp_Run_stretch(sp_Run_add_image(s, a_pic), b12_v) == sp_Run_add_image(sp_Run_stretch(s, b12_v), a_pic),
    sp_Run_strike(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_strike(s), a_pic),
    sp_Run_style(sp_Run_add_image(s, a_pic), b14_style_id) == sp_Run_add_image(sp_Run_style(s, b14_style_id), a_pic),
    sp_Run_text_border(sp_Run_add_image(s, a_pic), b15_b) == sp_Run_add_image(sp_Run_text_border(s, b15_b), a_pic),
    sp_Run_theme_color(sp_Run_add_image(s, a_pic), b16_theme_color) == sp_Run_add_image(sp_Run_theme_color(s, b16_theme_color), a_pic),
    sp_Run_theme_shade(sp_Run_add_image(s, a_pic), b17_theme_shade) == sp_Run_add_image(sp_Run_theme_shade(s, b17_theme_shade), a_pic),
    sp_Run_theme_tint(sp_Run_add_image(s, a_pic), b18_theme_tint) == sp_Run_add_image(sp_Run_theme_tint(s, b18_theme_tint), a_pic),
    sp_Run_underline(sp_Run_add_image(s, a_pic), b19_line_type) == sp_Run_add_image(sp_Run_underline(s, b19_line_type), a_pic),
    sp_Run_vanish(sp_Run_add_image(s, a_pic)) == sp_Run_add_image(sp_Run_vanish(s), a_pic),
{}
pub proof fn order_Run_add_instr_text(s: Run, a_i: InstrText, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_bold(s), a_i),
    sp_Run_character_spacing(sp_Run_add_instr_text(s, a_i), b1_v) == sp_Run_add_instr_text(sp_Run_character_spacing(s, b1_v), a_i),
    sp_Run_color(sp_Run_add_instr_text(s, a_i), b2_color) == sp_Run_add_instr_text(sp_Run_color(s, b2_color), a_i),
    sp_Run_disable_bold(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_disable_bold(s), a_i),
    sp_Run_disable_italic(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_disable_italic(s), a_i),
    sp_Run_dstrike(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_dstrike(s), a_i),
    sp_Run_fonts(sp_Run_add_instr_text(s, a_i), b6_f) == sp_Run_add_instr_text(sp_Run_fonts(s, b6_f), a_i),
    sp_Run_highlight(sp_Run_add_instr_text(s, a_i), b7_color) == sp_Run_add_instr_text(sp_Run_highlight(s, b7_color), a_i),
    sp_Run_italic(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_italic(s), a_i),
    sp_Run_set_property(sp_Run_add_instr_text(s, a_i), b9_p) == sp_Run_add_instr_text(sp_Run_set_property(s, b9_p), a_i),
    sp_Run_shading(sp_Run_add_instr_text(s, a_i), b10_shading) == sp_Run_add_instr_text(sp_Run_shading(s, b10_shading), a_i),
    sp_Run_size(sp_Run_add_instr_text(s, a_i), b11_size) == sp_Run_add_instr_text(sp_Run_size(s, b11_size), a_i),
    sp_Run_stretch(sp_Run_add_instr_text(s, a_i), b12_v) == sp_Run_add_instr_text(sp_Run_stretch(s, b12_v), a_i),
    sp_Run_strike(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_strike(s), a_i),
    sp_Run_style(sp_Run_add_instr_text(s, a_i), b14_style_id) == sp_Run_add_instr_text(sp_Run_style(s, b14_style_id), a_i),
    sp_Run_text_border(sp_Run_add_instr_text(s, a_i), b15_b) == sp_Run_add_instr_text(sp_Run_text_border(s, b15_b), a_i),
    sp_Run_theme_color(sp_Run_add_instr_text(s, a_i), b16_theme_color) == sp_Run_add_instr_text(sp_Run_theme_color(s, b16_theme_color), a_i),
    sp_Run_theme_shade(sp_Run_add_instr_text(s, a_i), b17_theme_shade) == sp_Run_add_instr_text(sp_Run_theme_shade(s, b17_theme_shade), a_i),
    sp_Run_theme_tint(sp_Run_add_instr_text(s, a_i), b18_theme_tint) == sp_Run_add_instr_text(sp_Run_theme_tint(s, b18_theme_tint), a_i),
    sp_Run_underline(sp_Run_add_instr_text(s, a_i), b19_line_type) == sp_Run_add_instr_text(sp_Run_underline(s, b19_line_type), a_i),
    sp_Run_vanish(sp_Run_add_instr_text(s, a_i)) == sp_Run_add_instr_text(sp_Run_vanish(s), a_i),
{}
pub proof fn order_Run_add_ptab(s: Run, a_ptab: PositionalTab, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_bold(s), a_ptab),
    sp_Run_character_spacing(sp_Run_add_ptab(s, a_ptab), b1_v) == sp_Run_add_ptab(sp_Run_character_spacing(s, b1_v), a_ptab),
    sp_Run_color(sp_Run_add_ptab(s, a_ptab), b2_color) == sp_Run_add_ptab(sp_Run_color(s, b2_color), a_ptab),
    sp_Run_disable_bold(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_disable_bold(s), a_ptab),
    sp_Run_disable_italic(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_disable_italic(s), a_ptab),
    sp_Run_dstrike(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_dstrike(s), a_ptab),
    sp_Run_fonts(sp_Run_add_ptab(s, a_ptab), b6_f) == sp_Run_add_ptab(sp_Run_fonts(s, b6_f), a_ptab),
    sp_Run_highlight(sp_Run_add_ptab(s, a_ptab), b7_color) == sp_Run_add_ptab(sp_Run_highlight(s, b7_color), a_ptab),
    sp_Run_italic(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_italic(s), a_ptab),
    sp_Run_set_property(sp_Run_add_ptab(s, a_ptab), b9_p) == sp_Run_add_ptab(sp_Run_set_property(s, b9_p), a_ptab),
    sp_Run_shading(sp_Run_add_ptab(s, a_ptab), b10_shading) == sp_Run_add_ptab(sp_Run_shading(s, b10_shading), a_ptab),
    sp_Run_size(sp_Run_add_ptab(s, a_ptab), b11_size) == sp_Run_add_ptab(sp_Run_size(s, b11_size), a_ptab),
    sp_Run_stretch(sp_Run_add_ptab(s, a_ptab), b12_v) == sp_Run_add_ptab(sp_Run_stretch(s, b12_v), a_ptab),
    sp_Run_strike(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_strike(s), a_ptab),
    sp_Run_style(sp_Run_add_ptab(s, a_ptab), b14_style_id) == sp_Run_add_ptab(sp_Run_style(s, b14_style_id), a_ptab),
    sp_Run_text_border(sp_Run_add_ptab(s, a_ptab), b15_b) == sp_Run_add_ptab(sp_Run_text_border(s, b15_b), a_ptab),
    sp_Run_theme_color(sp_Run_add_ptab(s, a_ptab), b16_theme_color) == sp_Run_add_ptab(sp_Run_theme_color(s, b16_theme_color), a_ptab),
    sp_Run_theme_shade(sp_Run_add_ptab(s, a_ptab), b17_theme_shade) == sp_Run_add_ptab(sp_Run_theme_shade(s, b17_theme_shade), a_ptab),
    sp_Run_theme_tint(sp_Run_add_ptab(s, a_ptab), b18_theme_tint) == sp_Run_add_ptab(sp_Run_theme_tint(s, b18_theme_tint), a_ptab),
    sp_Run_underline(sp_Run_add_ptab(s, a_ptab), b19_line_type) == sp_Run_add_ptab(sp_Run_underline(s, b19_line_type), a_ptab),
    sp_Run_vanish(sp_Run_add_ptab(s, a_ptab)) == sp_Run_add_ptab(sp_Run_vanish(s), a_ptab),
{}
pub proof fn order_Run_add_sym(s: Run, a_sym: Sym, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_bold(s), a_sym),
    sp_Run_character_spacing(sp_Run_add_sym(s, a_sym), b1_v) == sp_Run_add_sym(sp_Run_character_spacing(s, b1_v), a_sym),
    sp_Run_color(sp_Run_add_sym(s, a_sym), b2_color) == sp_Run_add_sym(sp_Run_color(s, b2_color), a_sym),
    sp_Run_disable_bold(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_disable_bold(s), a_sym),
    sp_Run_disable_italic(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_disable_italic(s), a_sym),
    sp_Run_dstrike(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_dstrike(s), a_sym),
    sp_Run_fonts(sp_Run_add_sym(s, a_sym), b6_f) == sp_Run_add_sym(sp_Run_fonts(s, b6_f), a_sym),
    sp_Run_highlight(sp_Run_add_sym(s, a_sym), b7_color) == sp_Run_add_sym(sp_Run_highlight(s, b7_color), a_sym),
    sp_Run_italic(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_italic(s), a_sym),
    sp_Run_set_property(sp_Run_add_sym(s, a_sym), b9_p) == sp_Run_add_sym(sp_Run_set_property(s, b9_p), a_sym),
    sp_Run_shading(sp_Run_add_sym(s, a_sym), b10_shading) == sp_Run_add_sym(sp_Run_shading(s, b10_shading), a_sym),
    sp_Run_size(sp_Run_add_sym(s, a_sym), b11_size) == sp_Run_add_sym(sp_Run_size(s, b11_size), a_sym),
    sp_Run_stretch(sp_Run_add_sym(s, a_sym), b12_v) == sp_Run_add_sym(sp_Run_stretch(s, b12_v), a_sym),
    sp_Run_strike(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_strike(s), a_sym),
    sp_Run_style(sp_Run_add_sym(s, a_sym), b14_style_id) == sp_Run_add_sym(sp_Run_style(s, b14_style_id), a_sym),
    sp_Run_text_border(sp_Run_add_sym(s, a_sym), b15_b) == sp_Run_add_sym(sp_Run_text_border(s, b15_b), a_sym),
    sp_Run_theme_color(sp_Run_add_sym(s, a_sym), b16_theme_color) == sp_Run_add_sym(sp_Run_theme_color(s, b16_theme_color), a_sym),
    sp_Run_theme_shade(sp_Run_add_sym(s, a_sym), b17_theme_shade) == sp_Run_add_sym(sp_Run_theme_shade(s, b17_theme_shade), a_sym),
    sp_Run_theme_tint(sp_Run_add_sym(s, a_sym), b18_theme_tint) == sp_Run_add_sym(sp_Run_theme_tint(s, b18_theme_tint), a_sym),
    sp_Run_underline(sp_Run_add_sym(s, a_sym), b19_line_type) == sp_Run_add_sym(sp_Run_underline(s, b19_line_type), a_sym),
    sp_Run_vanish(sp_Run_add_sym(s, a_sym)) == sp_Run_add_sym(sp_Run_vanish(s), a_sym),
{}
pub proof fn order_Run_add_tab(s: Run, b1_v: i32, b2_color: Seq<char>, b6_f: RunFonts, b7_color: Seq<char>, b9_p: RunProperty, b10_shading: Shading, b11_size: usize, b12_v: i32, b14_style_id: Seq<char>, b15_b: TextBorder, b16_theme_color: ThemeColor, b17_theme_shade: Seq<char>, b18_theme_tint: Seq<char>, b19_line_type: Seq<char>)
  ensures
    sp_Run_bold(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_bold(s)),
    sp_Run_character_spacing(sp_Run_add_tab(s), b1_v) == sp_Run_add_tab(sp_Run_character_spacing(s, b1_v)),
    sp_Run_color(sp_Run_add_tab(s), b2_color) == sp_Run_add_tab(sp_Run_color(s, b2_color)),
    sp_Run_disable_bold(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_disable_bold(s)),
    sp_Run_disable_italic(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_disable_italic(s)),
    sp_Run_dstrike(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_dstrike(s)),
    sp_Run_fonts(sp_Run_add_tab(s), b6_f) == sp_Run_add_tab(sp_Run_fonts(s, b6_f)),
    sp_Run_highlight(sp_Run_add_tab(s), b7_color) == sp_Run_add_tab(sp_Run_highlight(s, b7_color)),
    sp_Run_italic(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_italic(s)),
    sp_Run_set_property(sp_Run_add_tab(s), b9_p) == sp_Run_add_tab(sp_Run_set_property(s, b9_p)),
    sp_Run_shading(sp_Run_add_tab(s), b10_shading) == sp_Run_add_tab(sp_Run_shading(s, b10_shading)),
    sp_Run_size(sp_Run_add_tab(s), b11_size) == sp_Run_add_tab(sp_Run_size(s, b11_size)),
    sp_Run_stretch(sp_Run_add_tab(s), b12_v) == sp_Run_add_tab(sp_Run_stretch(s, b12_v)),
    sp_Run_strike(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_strike(s)),
    sp_Run_style(sp_Run_add_tab(s), b14_style_id) == sp_Run_add_tab(sp_Run_style(s, b14_style_id)),
    sp_Run_text_border(sp_Run_add_tab(s), b15_b) == sp_Run_add_tab(sp_Run_text_border(s, b15_b)),
    sp_Run_theme_color(sp_Run_add_tab(s), b16_theme_color) == sp_Run_add_tab(sp_Run_theme_color(s, b16_theme_color)),
    sp_Run_theme_shade(sp_Run_add_tab(s), b17_theme_shade) == sp_Run_add_tab(sp_Run_theme_shade(s, b17_theme_shade)),
    sp_Run_theme_tint(sp_Run_add_tab(s), b18_theme_tint) == sp_Run_add_tab(sp_Run_theme_tint(s, b18_theme_tint)),
    sp_Run_underline(sp_Run_add_tab(s), b19_line_type) == sp_Run_add_tab(sp_Run_underline(s, b19_line_type)),
    sp_Run_vanish(sp_Run_add_tab(s)) == sp_Run_add_tab(sp_Run_vanish(s)),
{}
pub proof fn order_Run_bold(s: Run, b0_v: i32, b1_color: Seq<char>, b4_f: RunFonts, b5_color: Seq<char>, b7_shading: Shading, b8_size: usize, b9_v: i32, b11_style_id: Seq<char>, b12_b: TextBorder, b13_theme_color: ThemeColor, b14_theme_shade: Seq<char>, b15_theme_tint: Seq<char>, b16_line_type: Seq<char>)
  ensures
    sp_Run_character_spacing(sp_Run_bold(s), b0_v) == sp_Run_bold(sp_Run_character_spacing(s, b0_v)),
    sp_Run_color(sp_Run_bold(s), b1_color) == sp_Run_bold(sp_Run_color(s, b1_color)),
    sp_Run_disable_italic(sp_Run_bold(s)) == sp_Run_bold(sp_Run_disable_italic(s)),
    sp_Run_dstrike(sp_Run_bold(s)) == sp_Run_bold(sp_Run_dstrike(s)),
    sp_Run_fonts(sp_Run_bold(s), b4_f) == sp_Run_bold(sp_Run_fonts(s, b4_f)),
    sp_Run_highlight(sp_Run_bold(s), b5_color) == sp_Run_bold(sp_Run_highlight(s, b5_color)),
    sp_Run_italic(sp_Run_bold(s)) == sp_Run_bold(sp_Run_italic(s)),
    sp_Run_shading(sp_Run_bold(s), b7_shading) == sp_Run_bold(sp_Run_shading(s, b7_shading)),
    sp_Run_size(sp_Run_bold(s), b8_size) == sp_Run_bold(sp_Run_size(s, b8_size)),
    sp_Run_stretch(sp_Run_bold(s), b9_v) == sp_Run_bold(sp_Run_stretch(s, b9_v)),
    sp_Run_strike(sp_Run_bold(s)) == sp_Run_bold(sp_Run_strike(s)),
    sp_Run_style(sp_Run_bold(s), b11_style_id) == sp_Run_bold(sp_Run_style(s, b11_style_id)),
    sp_Run_text_border(sp_Run_bold(s), b12_b) == sp_Run_bold(sp_Run_text_border(s, b12_b)),
    sp_Run_theme_color(sp_Run_bold(s), b13_theme_color) == sp_Run_bold(sp_Run_theme_color(s, b13_theme_color)),
    sp_Run_theme_shade(sp_Run_bold(s), b14_theme_shade) == sp_Run_bold(sp_Run_theme_shade(s, b14_theme_shade)),
    sp_Run_theme_tint(sp_Run_bold(s), b15_theme_tint) == sp_Run_bold(sp_Run_theme_tint(s, b15_theme_tint)),
    sp_Run_underline(sp_Run_bold(s), b16_line_type) == sp_Run_bold(sp_Run_underline(s, b16_line_type)),
    sp_Run_vanish(sp_Run_bold(s)) == sp_Run_bold(sp_Run_vanish(s)),
{}
pub proof fn order_Run_character_spacing(s: Run, a_v: i32, b0_color: Seq<char>, b4_f: RunFonts, b5_color: Seq<char>, b7_shading: Shading, b8_size: usize, b9_v: i32, b11_style_id: Seq<char>, b12_b: TextBorder, b13_theme_color: ThemeColor, b14_theme_shade: Seq<char>, b15_theme_tint: Seq<char>, b16_line_type: Seq<char>)
  ensures
    sp_Run_color(sp_Run_character_spacing(s, a_v), b0_color) == sp_Run_character_spacing(sp_Run_color(s, b0_color), a_v),
    sp_Run_disable_bold(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_disable_bold(s), a_v),
    sp_Run_disable_italic(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_disable_italic(s), a_v),
    sp_Run_dstrike(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_dstrike(s), a_v),
    sp_Run_fonts(sp_Run_character_spacing(s, a_v), b4_f) == sp_Run_character_spacing(sp_Run_fonts(s, b4_f), a_v),
    sp_Run_highlight(sp_Run_character_spacing(s, a_v), b5_color) == sp_Run_character_spacing(sp_Run_highlight(s, b5_color), a_v),
    sp_Run_italic(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_italic(s), a_v),
    sp_Run_shading(sp_Run_character_spacing(s, a_v), b7_shading) == sp_Run_character_spacing(sp_Run_shading(s, b7_shading), a_v),
    sp_Run_size(sp_Run_character_spacing(s, a_v), b8_size) == sp_Run_character_spacing(sp_Run_size(s, b8_size), a_v),
    sp_Run_stretch(sp_Run_character_spacing(s, a_v), b9_v) == sp_Run_character_spacing(sp_Run_stretch(s, b9_v), a_v),
    sp_Run_strike(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_strike(s), a_v),
    sp_Run_style(sp_Run_character_spacing(s, a_v), b11_style_id) == sp_Run_character_spacing(sp_Run_style(s, b11_style_id), a_v),
    sp_Run_text_border(sp_Run_character_spacing(s, a_v), b12_b) == sp_Run_character_spacing(sp_Run_text_border(s, b12_b), a_v),
    sp_Run_theme_color(sp_Run_character_spacing(s, a_v), b13_theme_color) == sp_Run_character_spacing(sp_Run_theme_color(s, b13_theme_color), a_v),
    sp_Run_theme_shade(sp_Run_character_spacing(s, a_v), b14_theme_shade) == sp_Run_character_spacing(sp_Run_theme_shade(s, b14_theme_shade), a_v),
    sp_Run_theme_tint(sp_Run_character_spacing(s, a_v), b15_theme_tint) == sp_Run_character_spacing(sp_Run_theme_tint(s, b15_theme_tint), a_v),
    sp_Run_underline(sp_Run_character_spacing(s, a_v), b16_line_type) == sp_Run_character_spacing(sp_Run_underline(s, b16_line_type), a_v),
    sp_Run_vanish(sp_Run_character_spacing(s, a_v)) == sp_Run_character_spacing(sp_Run_vanish(s), a_v),
{}
pub proof fn order_Run_color(s: Run, a_color: Seq<char>, b3_f: RunFonts, b4_color: Seq<char>, b6_shading: Shading, b7_size: usize, b8_v: i32, b10_style_id: Seq<char>, b11_b: TextBorder, b12_line_type: Seq<char>)
  ensures
    sp_Run_disable_bold(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_disable_bold(s), a_color),
    sp_Run_disable_italic(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_disable_italic(s), a_color),
    sp_Run_dstrike(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_dstrike(s), a_color),
    sp_Run_fonts(sp_Run_color(s, a_color), b3_f) == sp_Run_color(sp_Run_fonts(s, b3_f), a_color),
    sp_Run_highlight(sp_Run_color(s, a_color), b4_color) == sp_Run_color(sp_Run_highlight(s, b4_color), a_color),
    sp_Run_italic(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_italic(s), a_color),
    sp_Run_shading(sp_Run_color(s, a_color), b6_shading) == sp_Run_color(sp_Run_shading(s, b6_shading), a_color),
    sp_Run_size(sp_Run_color(s, a_color), b7_size) == sp_Run_color(sp_Run_size(s, b7_size), a_color),
    sp_Run_stretch(sp_Run_color(s, a_color), b8_v) == sp_Run_color(sp_Run_stretch(s, b8_v), a_color),
    sp_Run_strike(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_strike(s), a_color),
    sp_Run_style(sp_Run_color(s, a_color), b10_style_id) == sp_Run_color(sp_Run_style(s, b10_style_id), a_color),
    sp_Run_text_border(sp_Run_color(s, a_color), b11_b) == sp_Run_color(sp_Run_text_border(s, b11_b), a_color),
    sp_Run_underline(sp_Run_color(s, a_color), b12_line_type) == sp_Run_color(sp_Run_underline(s, b12_line_type), a_color),
    sp_Run_vanish(sp_Run_color(s, a_color)) == sp_Run_color(sp_Run_vanish(s), a_color),
{}
pub proof fn order_Run_disable_bold(s: Run, b2_f: RunFonts, b3_color: Seq<char>, b5_shading: Shading, b6_size: usize, b7_v: i32, b9_style_id: Seq<char>, b10_b: TextBorder, b11_theme_color: ThemeColor, b12_theme_shade: Seq<char>, b13_theme_tint: Seq<char>, b14_line_type: Seq<char>)
  ensures
    sp_Run_disable_italic(sp_Run_disable_bold(s)) == sp_Run_disable_bold(sp_Run_disable_italic(s)),
    sp_Run_dstrike(sp_Run_disable_bold(s)) == sp_Run_disable_bold(sp_Run_dstrike(s)),
    sp_Run_fonts(sp_Run_disable_bold(s), b2_f) == sp_Run_disable_bold(sp_Run_fonts(s, b2_f)),
    sp_Run_highlight(sp_Run_disable_bold(s), b3_color) == sp_Run_disable_bold(sp_Run_highlight(s, b3_color)),
    sp_Run_italic(sp_Run_disable_bold(s)) == sp_Run_disable_bold(sp_Run_italic(s)),
    sp_Run_shading(sp_Run_disable_bold(s), b5_shading) == sp_Run_disable_bold(sp_Run_shading(s, b5_shading)),
    sp_Run_size(sp_Run_disable_bold(s), b6_size) == sp_Run_disable_bold(sp_Run_size(s, b6_size)),
    sp_Run_stretch(sp_Run_disable_bold(s), b7_v) == sp_Run_disable_bold(sp_Run_stretch(s, b7_v)),
    sp_Run_strike(sp_Run_disable_bold(s)) == sp_Run_disable_bold(sp_Run_strike(s)),
    sp_Run_style(sp_Run_disable_bold(s), b9_style_id) == sp_Run_disable_bold(sp_Run_style(s, b9_style_id)),
    sp_Run_text_border(sp_Run_disable_bold(s), b10_b) == sp_Run_disable_bold(sp_Run_text_border(s, b10_b)),
    sp_Run_theme_color(sp_Run_disable_bold(s), b11_theme_color) == sp_Run_disable_bold(sp_Run_theme_color(s, b11_theme_color)),
    sp_Run_theme_shade(sp_Run_disable_bold(s), b12_theme_shade) == sp_Run_disable_bold(sp_Run_theme_shade(s, b12_theme_shade)),
    sp_Run_theme_tint(sp_Run_disable_bold(s), b13_theme_tint) == sp_Run_disable_bold(sp_Run_theme_tint(s, b13_theme_tint)),
    sp_Run_underline(sp_Run_disable_bold(s), b14_line_type) == sp_Run_disable_bold(sp_Run_underline(s, b14_line_type)),
    sp_Run_vanish(sp_Run_disable_bold(s)) == sp_Run_disable_bold(sp_Run_vanish(s)),
{}
pub proof fn order_Run_disable_italic(s: Run, b1_f: RunFonts, b2_color: Seq<char>, b3_shading: Shading, b4_size: usize, b5_v: i32, b7_style_id: Seq<char>, b8_b: TextBorder, b9_theme_color: ThemeColor, b10_theme_shade: Seq<char>, b11_theme_tint: Seq<char>, b12_line_type: Seq<char>)
  ensures
    sp_Run_dstrike(sp_Run_disable_italic(s)) == sp_Run_disable_italic(sp_Run_dstrike(s)),
    sp_Run_fonts(sp_Run_disable_italic(s), b1_f) == sp_Run_disable_italic(sp_Run_fonts(s, b1_f)),
    sp_Run_highlight(sp_Run_disable_italic(s), b2_color) == sp_Run_disable_italic(sp_Run_highlight(s, b2_color)),
    sp_Run_shading(sp_Run_disable_italic(s), b3_shading) == sp_Run_disable_italic(sp_Run_shading(s, b3_shading)),
    sp_Run_size(sp_Run_disable_italic(s), b4_size) == sp_Run_disable_italic(sp_Run_size(s, b4_size)),
    sp_Run_stretch(sp_Run_disable_italic(s), b5_v) == sp_Run_disable_italic(sp_Run_stretch(s, b5_v)),
    sp_Run_strike(sp_Run_disable_italic(s)) == sp_Run_disable_italic(sp_Run_strike(s)),
    sp_Run_style(sp_Run_disable_italic(s), b7_style_id) == sp_Run_disable_italic(sp_Run_style(s, b7_style_id)),
    sp_Run_text_border(sp_Run_disable_italic(s), b8_b) == sp_Run_disable_italic(sp_Run_text_border(s, b8_b)),
    sp_Run_theme_color(sp_Run_disable_italic(s), b9_theme_color) == sp_Run_disable_italic(sp_Run_theme_color(s, b9_theme_color)),
    sp_Run_theme_shade(sp_Run_disable_italic(s), b10_theme_shade) == sp_Run_disable_italic(sp_Run_theme_shade(s, b10_theme_shade)),
    sp_Run_theme_tint(sp_Run_disable_italic(s), b11_theme_tint) == sp_Run_disable_italic(sp_Run_theme_tint(s, b11_theme_tint)),
    sp_Run_underline(sp_Run_disable_italic(s), b12_line_type) == sp_Run_disable_italic(sp_Run_underline(s, b12_line_type)),
    sp_Run_vanish(sp_Run_disable_italic(s)) == sp_Run_disable_italic(sp_Run_vanish(s)),
{}
pub proof fn order_Run_dstrike(s: Run, b0_f: RunFonts, b1_color: Seq<char>, b3_shading: Shading, b4_size: usize, b5_v: i32, b6_style_id: Seq<char>, b7_b: TextBorder, b8_theme_color: ThemeColor, b9_theme_shade: Seq<char>, b10_theme_tint: Seq<char>, b11_line_type: Seq<char>)
  ensures
    sp_Run_fonts(sp_Run_dstrike(s), b0_f) == sp_Run_dstrike(sp_Run_fonts(s, b0_f)),
    sp_Run_highlight(sp_Run_dstrike(s), b1_color) == sp_Run_dstrike(sp_Run_highlight(s, b1_color)),
    sp_Run_italic(sp_Run_dstrike(s)) == sp_Run_dstrike(sp_Run_italic(s)),
    sp_Run_shading(sp_Run_dstrike(s), b3_shading) == sp_Run_dstrike(sp_Run_shading(s, b3_shading)),
    sp_Run_size(sp_Run_dstrike(s), b4_size) == sp_Run_dstrike(sp_Run_size(s, b4_size)),
    sp_Run_stretch(sp_Run_dstrike(s), b5_v) == sp_Run_dstrike(sp_Run_stretch(s, b5_v)),
    sp_Run_style(sp_Run_dstrike(s), b6_style_id) == sp_Run_dstrike(sp_Run_style(s, b6_style_id)),
    sp_Run_text_border(sp_Run_dstrike(s), b7_b) == sp_Run_dstrike(sp_Run_text_border(s, b7_b)),
    sp_Run_theme_color(sp_Run_dstrike(s), b8_theme_color) == sp_Run_dstrike(sp_Run_theme_color(s, b8_theme_color)),
    sp_Run_theme_shade(sp_Run_dstrike(s), b9_theme_shade) == sp_Run_dstrike(sp_Run_theme_shade(s, b9_theme_shade)),
    sp_Run_theme_tint(sp_Run_dstrike(s), b10_theme_tint) == sp_Run_dstrike(sp_Run_theme_tint(s, b10_theme_tint)),
    sp_Run_underline(sp_Run_dstrike(s), b11_line_type) == sp_Run_dstrike(sp_Run_underline(s, b11_line_type)),
    sp_Run_vanish(sp_Run_dstrike(s)) == sp_Run_dstrike(sp_Run_vanish(s)),
{}
pub proof fn order_Run_fonts(s: Run, a_f: RunFonts, b0_color: Seq<char>, b2_shading: Shading, b3_size: usize, b4_v: i32, b6_style_id: Seq<char>, b7_b: TextBorder, b8_theme_color: ThemeColor, b9_theme_shade: Seq<char>, b10_theme_tint: Seq<char>, b11_line_type: Seq<char>)
  ensures
    sp_Run_highlight(sp_Run_fonts(s, a_f), b0_color) == sp_Run_fonts(sp_Run_highlight(s, b0_color), a_f),
    sp_Run_italic(sp_Run_fonts(s, a_f)) == sp_Run_fonts(sp_Run_italic(s), a_f),
    sp_Run_shading(sp_Run_fonts(s, a_f), b2_shading) == sp_Run_fonts(sp_Run_shading(s, b2_shading), a_f),
    sp_Run_size(sp_Run_fonts(s, a_f), b3_size) == sp_Run_fonts(sp_Run_size(s, b3_size), a_f),
    sp_Run_stretch(sp_Run_fonts(s, a_f), b4_v) == sp_Run_fonts(sp_Run_stretch(s, b4_v), a_f),
    sp_Run_strike(sp_Run_fonts(s, a_f)) == sp_Run_fonts(sp_Run_strike(s), a_f),
    sp_Run_style(sp_Run_fonts(s, a_f), b6_style_id) == sp_Run_fonts(sp_Run_style(s, b6_style_id), a_f),
    sp_Run_text_border(sp_Run_fonts(s, a_f), b7_b) == sp_Run_fonts(sp_Run_text_border(s, b7_b), a_f),
    sp_Run_theme_color(sp_Run_fonts(s, a_f), b8_theme_color) == sp_Run_fonts(sp_Run_theme_color(s, b8_theme_color), a_f),
    sp_Run_theme_shade(sp_Run_fonts(s, a_f), b9_theme_shade) == sp_Run_fonts(sp_Run_theme_shade(s, b9_theme_shade), a_f),
    sp_Run_theme_tint(sp_Run_fonts(s, a_f), b10_theme_tint) == sp_Run_fonts(sp_Run_theme_tint(s, b10_theme_tint), a_f),
    sp_Run_underline(sp_Run_fonts(s, a_f), b11_line_type) == sp_Run_fonts(sp_Run_underline(s, b11_line_type), a_f),
    sp_Run_vanish(sp_Run_fonts(s, a_f)) == sp_Run_fonts(sp_Run_vanish(s), a_f),
{}
pub proof fn order_Run_highlight(s: Run, a_color: Seq<char>, b1_shading: Shading, b2_size: usize, b3_v: i32, b5_style_id: Seq<char>, b6_b: TextBorder, b7_theme_color: ThemeColor, b8_theme_shade: Seq<char>, b9_theme_tint: Seq<char>, b10_line_type: Seq<char>)
  ensures
    sp_Run_italic(sp_Run_highlight(s, a_color)) == sp_Run_highlight(sp_Run_italic(s), a_color),
    sp_Run_shading(sp_Run_highlight(s, a_color), b1_shading) == sp_Run_highlight(sp_Run_shading(s, b1_shading), a_color),
    sp_Run_size(sp_Run_highlight(s, a_color), b2_size) == sp_Run_highlight(sp_Run_size(s, b2_size), a_color),
    sp_Run_stretch(sp_Run_highlight(s, a_color), b3_v) == sp_Run_highlight(sp_Run_stretch(s, b3_v), a_color),
    sp_Run_strike(sp_Run_highlight(s, a_color)) == sp_Run_highlight(sp_Run_strike(s), a_color),
    sp_Run_style(sp_Run_highlight(s, a_color), b5_style_id) == sp_Run_highlight(sp_Run_style(s, b5_style_id), a_color),
    sp_Run_text_border(sp_Run_highlight(s, a_color), b6_b) == sp_Run_highlight(sp_Run_text_border(s, b6_b), a_color),
    sp_Run_theme_color(sp_Run_highlight(s, a_color), b7_theme_color) == sp_Run_highlight(sp_Run_theme_color(s, b7_theme_color), a_color),
    sp_Run_theme_shade(sp_Run_highlight(s, a_color), b8_theme_shade) == sp_Run_highlight(sp_Run_theme_shade(s, b8_theme_shade), a_color),
    sp_Run_theme_tint(sp_Run_highlight(s, a_color), b9_theme_tint) == sp_Run_highlight(sp_Run_theme_tint(s, b9_theme_tint), a_color),
    sp_Run_underline(sp_Run_highlight(s, a_color), b10_line_type) == sp_Run_highlight(sp_Run_underline(s, b10_line_type), a_color),
    sp_Run_vanish(sp_Run_highlight(s, a_color)) == sp_Run_highlight(sp_Run_vanish(s), a_color),
{}
pub proof fn order_Run_italic(s: Run, b0_shading: Shading, b1_size: usize, b2_v: i32, b4_style_id: Seq<char>, b5_b: TextBorder, b6_theme_color: ThemeColor, b7_theme_shade: Seq<char>, b8_theme_tint: Seq<char>, b9_line_type: Seq<char>)
  ensures
    sp_Run_shading(sp_Run_italic(s), b0_shading) == sp_Run_italic(sp_Run_shading(s, b0_shading)),
    sp_Run_size(sp_Run_italic(s), b1_size) == sp_Run_italic(sp_Run_size(s, b1_size)),
    sp_Run_stretch(sp_Run_italic(s), b2_v) == sp_Run_italic(sp_Run_stretch(s, b2_v)),
    sp_Run_strike(sp_Run_italic(s)) == sp_Run_italic(sp_Run_strike(s)),
    sp_Run_style(sp_Run_italic(s), b4_style_id) == sp_Run_italic(sp_Run_style(s, b4_style_id)),
    sp_Run_text_border(sp_Run_italic(s), b5_b) == sp_Run_italic(sp_Run_text_border(s, b5_b)),
    sp_Run_theme_color(sp_Run_italic(s), b6_theme_color) == sp_Run_italic(sp_Run_theme_color(s, b6_theme_color)),
    sp_Run_theme_shade(sp_Run_italic(s), b7_theme_shade) == sp_Run_italic(sp_Run_theme_shade(s, b7_theme_shade)),
    sp_Run_theme_tint(sp_Run_italic(s), b8_theme_tint) == sp_Run_italic(sp_Run_theme_tint(s, b8_theme_tint)),
    sp_Run_underline(sp_Run_italic(s), b9_line_type) == sp_Run_italic(sp_Run_underline(s, b9_line_type)),
    sp_Run_vanish(sp_Run_italic(s)) == sp_Run_italic(sp_Run_vanish(s)),
{}
pub proof fn order_Run_shading(s: Run, a_shading: Shading, b0_size: usize, b1_v: i32, b3_style_id: Seq<char>, b4_b: TextBorder, b5_theme_color: ThemeColor, b6_theme_shade: Seq<char>, b7_theme_tint: Seq<char>, b8_line_type: Seq<char>)
  ensures
    sp_Run_size(sp_Run_shading(s, a_shading), b0_size) == sp_Run_shading(sp_Run_size(s, b0_size), a_shading),
    sp_Run_stretch(sp_Run_shading(s, a_shading), b1_v) == sp_Run_shading(sp_Run_stretch(s, b1_v), a_shading),
    sp_Run_strike(sp_Run_shading(s, a_shading)) == sp_Run_shading(sp_Run_strike(s), a_shading),
    sp_Run_style(sp_Run_shading(s, a_shading), b3_style_id) == sp_Run_shading(sp_Run_style(s, b3_style_id), a_shading),
    sp_Run_text_border(sp_Run_shading(s, a_shading), b4_b) == sp_Run_shading(sp_Run_text_border(s, b4_b), a_shading),
    sp_Run_theme_color(sp_Run_shading(s, a_shading), b5_theme_color) == sp_Run_shading(sp_Run_theme_color(s, b5_theme_color), a_shading),
    sp_Run_theme_shade(sp_Run_shading(s, a_shading), b6_theme_shade) == sp_Run_shading(sp_Run_theme_shade(s, b6_theme_shade), a_shading),
    sp_Run_theme_tint(sp_Run_shading(s, a_shading), b7_theme_tint) == sp_Run_shading(sp_Run_theme_tint(s, b7_theme_tint), a_shading),
    sp_Run_underline(sp_Run_shading(s, a_shading), b8_line_type) == sp_Run_shading(sp_Run_underline(s, b8_line_type), a_shading),
    sp_Run_vanish(sp_Run_shading(s, a_shading)) == sp_Run_shading(sp_Run_vanish(s), a_shading),
{}
pub proof fn order_Run_size(s: Run, a_size: usize, b0_v: i32, b2_style_id: Seq<char>, b3_b: TextBorder, b4_theme_color: ThemeColor, b5_theme_shade: Seq<char>, b6_theme_tint: Seq<char>, b7_line_type: Seq<char>)
  ensures
    sp_Run_stretch(sp_Run_size(s, a_size), b0_v) == sp_Run_size(sp_Run_stretch(s, b0_v), a_size),
    sp_Run_strike(sp_Run_size(s, a_size)) == sp_Run_size(sp_Run_strike(s), a_size),
    sp_Run_style(sp_Run_size(s, a_size), b2_style_id) == sp_Run_size(sp_Run_style(s, b2_style_id), a_size),
    sp_Run_text_border(sp_Run_size(s, a_size), b3_b) == sp_Run_size(sp_Run_text_border(s, b3_b), a_size),
    sp_Run_theme_color(sp_Run_size(s, a_size), b4_theme_color) == sp_Run_size(sp_Run_theme_color(s, b4_theme_color), a_size),
    sp_Run_theme_shade(sp_Run_size(s, a_size), b5_theme_shade) == sp_Run_size(sp_Run_theme_shade(s, b5_theme_shade), a_size),
    sp_Run_theme_tint(sp_Run_size(s, a_size), b6_theme_tint) == sp_Run_size(sp_Run_theme_tint(s, b6_theme_tint), a_size),
    sp_Run_underline(sp_Run_size(s, a_size), b7_line_type) == sp_Run_size(sp_Run_underline(s, b7_line_type), a_size),
    sp_Run_vanish(sp_Run_size(s, a_size)) == sp_Run_size(sp_Run_vanish(s), a_size),
{}
pub proof fn order_Run_stretch(s: Run, a_v: i32, b1_style_id: Seq<char>, b2_b: TextBorder, b3_theme_color: ThemeColor, b4_theme_shade: Seq<char>, b5_theme_tint: Seq<char>, b6_line_type: Seq<char>)
  ensures
    sp_Run_strike(sp_Run_stretch(s, a_v)) == sp_Run_stretch(sp_Run_strike(s), a_v),
    sp_Run_style(sp_Run_stretch(s, a_v), b1_style_id) == sp_Run_stretch(sp_Run_style(s, b1_style_id), a_v),
    sp_Run_text_border(sp_Run_stretch(s, a_v), b2_b) == sp_Run_stretch(sp_Run_text_border(s, b2_b), a_v),
    sp_Run_theme_color(sp_Run_stretch(s, a_v), b3_theme_color) == sp_Run_stretch(sp_Run_theme_color(s, b3_theme_color), a_v),
    sp_Run_theme_shade(sp_Run_stretch(s, a_v), b4_theme_shade) == sp_Run_stretch(sp_Run_theme_shade(s, b4_theme_shade), a_v),
    sp_Run_theme_tint(sp_Run_stretch(s, a_v), b5_theme_tint) == sp_Run_stretch(sp_Run_theme_tint(s, b5_theme_tint), a_v),
    sp_Run_underline(sp_Run_stretch(s, a_v), b6_line_type) == sp_Run_stretch(sp_Run_underline(s, b6_line_type), a_v),
    sp_Run_vanish(sp_Run_stretch(s, a_v)) == sp_Run_stretch(sp_Run_vanish(s), a_v),
{}
pub proof fn order_Run_strike(s: Run, b0_style_id: Seq<char>, b1_b: TextBorder, b2_theme_color: ThemeColor, b3_theme_shade: Seq<char>, b4_theme_tint: Seq<char>, b5_line_type: Seq<char>)
  ensures
    sp_Run_style(sp_Run_strike(s), b0_style_id) == sp_Run_strike(sp_Run_style(s, b0_style_id)),
    sp_Run_text_border(sp_Run_strike(s), b1_b) == sp_Run_strike(sp_Run_text_border(s, b1_b)),
    sp_Run_theme_color(sp_Run_strike(s), b2_theme_color) == sp_Run_strike(sp_Run_theme_color(s, b2_theme_color)),
    sp_Run_theme_shade(sp_Run_strike(s), b3_theme_shade) == sp_Run_strike(sp_Run_theme_shade(s, b3_theme_shade)),
    sp_Run_theme_tint(sp_Run_strike(s), b4_theme_tint) == sp_Run_strike(sp_Run_theme_tint(s, b4_theme_tint)),
    sp_Run_underline(sp_Run_strike(s), b5_line_type) == sp_Run_strike(sp_Run_underline(s, b5_line_type)),
    sp_Run_vanish(sp_Run_strike(s)) == sp_Run_strike(sp_Run_vanish(s)),
{}
pub proof fn order_Run_style(s: Run, a_style_id: Seq<char>, b0_b: TextBorder, b1_theme_color: ThemeColor, b2_theme_shade: Seq<char>, b3_theme_tint: Seq<char>, b4_line_type: Seq<char>)
  ensures
    sp_Run_text_border(sp_Run_style(s, a_style_id), b0_b) == sp_Run_style(sp_Run_text_border(s, b0_b), a_style_id),
    sp_Run_theme_color(sp_Run_style(s, a_style_id), b1_theme_color) == sp_Run_style(sp_Run_theme_color(s, b1_theme_color), a_style_id),
    sp_Run_theme_shade(sp_Run_style(s, a_style_id), b2_theme_shade) == sp_Run_style(sp_Run_theme_shade(s, b2_theme_shade), a_style_id),
    sp_Run_theme_tint(sp_Run_style(s, a_style_id), b3_theme_tint) == sp_Run_style(sp_Run_theme_tint(s, b3_theme_tint), a_style_id),
    sp_Run_underline(sp_Run_style(s, a_style_id), b4_line_type) == sp_Run_style(sp_Run_underline(s, b4_line_type), a_style_id),
    sp_Run_vanish(sp_Run_style(s, a_style_id)) == sp_Run_style(sp_Run_vanish(s), a_style_id),
{}
pub proof fn order_Run_text_border(s: Run, a_b: TextBorder, b0_theme_color: ThemeColor, b1_theme_shade: Seq<char>, b2_theme_tint: Seq<char>, b3_line_type: Seq<char>)
  ensures
    sp_Run_theme_color(sp_Run_text_border(s, a_b), b0_theme_color) == sp_Run_text_border(sp_Run_theme_color(s, b0_theme_color), a_b),
    sp_Run_theme_shade(sp_Run_text_border(s, a_b), b1_theme_shade) == sp_Run_text_border(sp_Run_theme_shade(s, b1_theme_shade), a_b),
    sp_Run_theme_tint(sp_Run_text_border(s, a_b), b2_theme_tint) == sp_Run_text_border(sp_Run_theme_tint(s, b2_theme_tint), a_b),
    sp_Run_underline(sp_Run_text_border(s, a_b), b3_line_type) == sp_Run_text_border(sp_Run_underline(s, b3_line_type), a_b),
    sp_Run_vanish(sp_Run_text_border(s, a_b)) == sp_Run_text_border(sp_Run_vanish(s), a_b),
{}
pub proof fn order_Run_theme_color(s: Run, a_theme_color: ThemeColor, b0_line_type: Seq<char>)
  ensures
    sp_Run_underline(sp_Run_theme_color(s, a_theme_color), b0_line_type) == sp_Run_theme_color(sp_Run_underline(s, b0_line_type), a_theme_color),
    sp_Run_vanish(sp_Run_theme_color(s, a_theme_color)) == sp_Run_theme_color(sp_Run_vanish(s), a_theme_color),
{}
pub proof fn order_Run_theme_shade(s: Run, a_theme_shade: Seq<char>, b0_line_type: Seq<char>)
  ensures
    sp_Run_underline(sp_Run_theme_shade(s, a_theme_shade), b0_line_type) == sp_Run_theme_shade(sp_Run_underline(s, b0_line_type), a_theme_shade),
    sp_Run_vanish(sp_Run_theme_shade(s, a_theme_shade)) == sp_Run_theme_shade(sp_Run_vanish(s), a_theme_shade),
{}
pub proof fn order_Run_theme_tint(s: Run, a_theme_tint: Seq<char>, b0_line_type: Seq<char>)
  ensures
    sp_Run_underline(sp_Run_theme_tint(s, a_theme_tint), b0_line_type) == sp_Run_theme_tint(sp_Run_underline(s, b0_line_type), a_theme_tint),
    sp_Run_vanish(sp_Run_theme_tint(s, a_theme_tint)) == sp_Run_theme_tint(sp_Run_vanish(s), a_theme_tint),
{}
pub proof fn order_Run_underline(s: Run, a_line_type: Seq<char>)
  ensures
    sp_Run_vanish(sp_Run_underline(s, a_line_type)) == sp_Run_underline(sp_Run_vanish(s), a_line_type),
{}
pub proof fn order_Paragraph_add_bookmark_end(s: Paragraph, a_id: usize, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_bookmark_end(s, a_id), b0_t) == sp_Paragraph_add_bookmark_end(sp_Paragraph_add_tab(s, b0_t), a_id),
    sp_Paragraph_align(sp_Paragraph_add_bookmark_end(s, a_id), b1_alignment_type) == sp_Paragraph_add_bookmark_end(sp_Paragraph_align(s, b1_alignment_type), a_id),
    sp_Paragraph_bold(sp_Paragraph_add_bookmark_end(s, a_id)) == sp_Paragraph_add_bookmark_end(sp_Paragraph_bold(s), a_id),
    sp_Paragraph_character_spacing(sp_Paragraph_add_bookmark_end(s, a_id), b3_spacing) == sp_Paragraph_add_bookmark_end(sp_Paragraph_character_spacing(s, b3_spacing), a_id),
    sp_Paragraph_color(sp_Paragraph_add_bookmark_end(s, a_id), b4_c) == sp_Paragraph_add_bookmark_end(sp_Paragraph_color(s, b4_c), a_id),
    sp_Paragraph_delete(sp_Paragraph_add_bookmark_end(s, a_id), b5_author, b5_date) == sp_Paragraph_add_bookmark_end(sp_Paragraph_delete(s, b5_author, b5_date), a_id),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_bookmark_end(s, a_id), b6_chars) == sp_Paragraph_add_bookmark_end(sp_Paragraph_first_line_chars(s, b6_chars), a_id),
    sp_Paragraph_fonts(sp_Paragraph_add_bookmark_end(s, a_id), b7_f) == sp_Paragraph_add_bookmark_end(sp_Paragraph_fonts(s, b7_f), a_id),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_bookmark_end(s, a_id), b8_chars) == sp_Paragraph_add_bookmark_end(sp_Paragraph_hanging_chars(s, b8_chars), a_id),
    sp_Paragraph_id(sp_Paragraph_add_bookmark_end(s, a_id), b9_id) == sp_Paragraph_add_bookmark_end(sp_Paragraph_id(s, b9_id), a_id),
    sp_Paragraph_indent(sp_Paragraph_add_bookmark_end(s, a_id), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_bookmark_end(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_id),
    sp_Paragraph_insert(sp_Paragraph_add_bookmark_end(s, a_id), b11_author, b11_date) == sp_Paragraph_add_bookmark_end(sp_Paragraph_insert(s, b11_author, b11_date), a_id),
    sp_Paragraph_italic(sp_Paragraph_add_bookmark_end(s, a_id)) == sp_Paragraph_add_bookmark_end(sp_Paragraph_italic(s), a_id),
    sp_Paragraph_keep_lines(sp_Paragraph_add_bookmark_end(s, a_id), b13_v) == sp_Paragraph_add_bookmark_end(sp_Paragraph_keep_lines(s, b13_v), a_id),
    sp_Paragraph_keep_next(sp_Paragraph_add_bookmark_end(s, a_id), b14_v) == sp_Paragraph_add_bookmark_end(sp_Paragraph_keep_next(s, b14_v), a_id),
    sp_Paragraph_line_spacing(sp_Paragraph_add_bookmark_end(s, a_id), b15_spacing) == sp_Paragraph_add_bookmark_end(sp_Paragraph_line_spacing(s, b15_spacing), a_id),
    sp_Paragraph_numbering(sp_Paragraph_add_bookmark_end(s, a_id), b16_id, b16_level) == sp_Paragraph_add_bookmark_end(sp_Paragraph_numbering(s, b16_id, b16_level), a_id),
    sp_Paragraph_page_break_before(sp_Paragraph_add_bookmark_end(s, a_id), b17_v) == sp_Paragraph_add_bookmark_end(sp_Paragraph_page_break_before(s, b17_v), a_id),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_bookmark_end(s, a_id), b18_p) == sp_Paragraph_add_bookmark_end(sp_Paragraph_paragraph_property(s, b18_p), a_id),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_bookmark_end(s, a_id), b19_p) == sp_Paragraph_add_bookmark_end(sp_Paragraph_paragraph_property_change(s, b19_p), a_id),
    sp_Paragraph_run_property(sp_Paragraph_add_bookmark_end(s, a_id), b20_p) == sp_Paragraph_add_bookmark_end(sp_Paragraph_run_property(s, b20_p), a_id),
    sp_Paragraph_section_property(sp_Paragraph_add_bookmark_end(s, a_id), b21_s) == sp_Paragraph_add_bookmark_end(sp_Paragraph_section_property(s, b21_s), a_id),
    sp_Paragraph_set_borders(sp_Paragraph_add_bookmark_end(s, a_id), b22_borders) == sp_Paragraph_add_bookmark_end(sp_Paragraph_set_borders(s, b22_borders), a_id),
    sp_Paragraph_size(sp_Paragraph_add_bookmark_end(s, a_id), b23_size) == sp_Paragraph_add_bookmark_end(sp_Paragraph_size(s, b23_size), a_id),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_bookmark_end(s, a_id), b24_v) == sp_Paragraph_add_bookmark_end(sp_Paragraph_snap_to_grid(s, b24_v), a_id),
    sp_Paragraph_widow_control(sp_Paragraph_add_bookmark_end(s, a_id), b25_v) == sp_Paragraph_add_bookmark_end(sp_Paragraph_widow_control(s, b25_v), a_id),
{}
pub proof fn order_Paragraph_add_bookmark_start(s: Paragraph, a_id: usize, a_name: Seq<char>, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b0_t) == sp_Paragraph_add_bookmark_start(sp_Paragraph_add_tab(s, b0_t), a_id, a_name),
    sp_Paragraph_align(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b1_alignment_type) == sp_Paragraph_add_bookmark_start(sp_Paragraph_align(s, b1_alignment_type), a_id, a_name),
    sp_Paragraph_bold(sp_Paragraph_add_bookmark_start(s, a_id, a_name)) == sp_Paragraph_add_bookmark_start(sp_Paragraph_bold(s), a_id, a_name),
    sp_Paragraph_character_spacing(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b3_spacing) == sp_Paragraph_add_bookmark_start(sp_Paragraph_character_spacing(s, b3_spacing), a_id, a_name),
    sp_Paragraph_color(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b4_c) == sp_Paragraph_add_bookmark_start(sp_Paragraph_color(s, b4_c), a_id, a_name),
    sp_Paragraph_delete(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b5_author, b5_date) == sp_Paragraph_add_bookmark_start(sp_Paragraph_delete(s, b5_author, b5_date), a_id, a_name),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b6_chars) == sp_Paragraph_add_bookmark_start(sp_Paragraph_first_line_chars(s, b6_chars), a_id, a_name),
    sp_Paragraph_fonts(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b7_f) == sp_Paragraph_add_bookmark_start(sp_Paragraph_fonts(s, b7_f), a_id, a_name),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b8_chars) == sp_Paragraph_add_bookmark_start(sp_Paragraph_hanging_chars(s, b8_chars), a_id, a_name),
    sp_Paragraph_id(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b9_id) == sp_Paragraph_add_bookmark_start(sp_Paragraph_id(s, b9_id), a_id, a_name),
    sp_Paragraph_indent(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_bookmark_start(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_id, a_name),
    sp_Paragraph_insert(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b11_author, b11_date) == sp_Paragraph_add_bookmark_start(sp_Paragraph_insert(s, b11_author, b11_date), a_id, a_name),
    sp_Paragraph_italic(sp_Paragraph_add_bookmark_start(s, a_id, a_name)) == sp_Paragraph_add_bookmark_start(sp_Paragraph_italic(s), a_id, a_name),
    sp_Paragraph_keep_lines(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b13_v) == sp_Paragraph_add_bookmark_start(sp_Paragraph_keep_lines(s, b13_v), a_id, a_name),
    sp_Paragraph_keep_next(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b14_v) == sp_Paragraph_add_bookmark_start(sp_Paragraph_keep_next(s, b14_v), a_id, a_name),
    sp_Paragraph_line_spacing(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b15_spacing) == sp_Paragraph_add_bookmark_start(sp_Paragraph_line_spacing(s, b15_spacing), a_id, a_name),
    sp_Paragraph_numbering(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b16_id, b16_level) == sp_Paragraph_add_bookmark_start(sp_Paragraph_numbering(s, b16_id, b16_level), a_id, a_name),
    sp_Paragraph_page_break_before(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b17_v) == sp_Paragraph_add_bookmark_start(sp_Paragraph_page_break_before(s, b17_v), a_id, a_name),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b18_p) == sp_Paragraph_add_bookmark_start(sp_Paragraph_paragraph_property(s, b18_p), a_id, a_name),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b19_p) == sp_Paragraph_add_bookmark_start(sp_Paragraph_paragraph_property_change(s, b19_p), a_id, a_name),
    sp_Paragraph_run_property(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b20_p) == sp_Paragraph_add_bookmark_start(sp_Paragraph_run_property(s, b20_p), a_id, a_name),
    sp_Paragraph_section_property(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b21_s) == sp_Paragraph_add_bookmark_start(sp_Paragraph_section_property(s, b21_s), a_id, a_name),
    sp_Paragraph_set_borders(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b22_borders) == sp_Paragraph_add_bookmark_start(sp_Paragraph_set_borders(s, b22_borders), a_id, a_name),
    sp_Paragraph_size(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b23_size) == sp_Paragraph_add_bookmark_start(sp_Paragraph_size(s, b23_size), a_id, a_name),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b24_v) == sp_Paragraph_add_bookmark_start(sp_Paragraph_snap_to_grid(s, b24_v), a_id, a_name),
    sp_Paragraph_widow_control(sp_Paragraph_add_bookmark_start(s, a_id, a_name), b25_v) == sp_Paragraph_add_bookmark_start(sp_Paragraph_widow_control(s, b25_v), a_id, a_name),
{}
pub proof fn order_Paragraph_add_comment_end(s: Paragraph, a_id: usize, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_comment_end(s, a_id), b0_t) == sp_Paragraph_add_comment_end(sp_Paragraph_add_tab(s, b0_t), a_id),
    sp_Paragraph_align(sp_Paragraph_add_comment_end(s, a_id), b1_alignment_type) == sp_Paragraph_add_comment_end(sp_Paragraph_align(s, b1_alignment_type), a_id),
    sp_Paragraph_bold(sp_Paragraph_add_comment_end(s, a_id)) == sp_Paragraph_add_comment_end(sp_Paragraph_bold(s), a_id),
    sp_Paragraph_character_spacing(sp_Paragraph_add_comment_end(s, a_id), b3_spacing) == sp_Paragraph_add_comment_end(sp_Paragraph_character_spacing(s, b3_spacing), a_id),
    sp_Paragraph_color(sp_Paragraph_add_comment_end(s, a_id), b4_c) == sp_Paragraph_add_comment_end(sp_Paragraph_color(s, b4_c), a_id),
    sp_Paragraph_delete(sp_Paragraph_add_comment_end(s, a_id), b5_author, b5_date) == sp_Paragraph_add_comment_end(sp_Paragraph_delete(s, b5_author, b5_date), a_id),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_comment_end(s, a_id), b6_chars) == sp_Paragraph_add_comment_end(sp_Paragraph_first_line_chars(s, b6_chars), a_id),
    sp_Paragraph_fonts(sp_Paragraph_add_comment_end(s, a_id), b7_f) == sp_Paragraph_add_comment_end(sp_Paragraph_fonts(s, b7_f), a_id),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_comment_end(s, a_id), b8_chars) == sp_Paragraph_add_comment_end(sp_Paragraph_hanging_chars(s, b8_chars), a_id),
    sp_Paragraph_id(sp_Paragraph_add_comment_end(s, a_id), b9_id) == sp_Paragraph_add_comment_end(sp_Paragraph_id(s, b9_id), a_id),
    sp_Paragraph_indent(sp_Paragraph_add_comment_end(s, a_id), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_comment_end(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_id),
    sp_Paragraph_insert(sp_Paragraph_add_comment_end(s, a_id), b11_author, b11_date) == sp_Paragraph_add_comment_end(sp_Paragraph_insert(s, b11_author, b11_date), a_id),
    sp_Paragraph_italic(sp_Paragraph_add_comment_end(s, a_id)) == sp_Paragraph_add_comment_end(sp_Paragraph_italic(s), a_id),
    sp_Paragraph_keep_lines(sp_Paragraph_add_comment_end(s, a_id), b13_v) == sp_Paragraph_add_comment_end(sp_Paragraph_keep_lines(s, b13_v), a_id),
    sp_Paragraph_keep_next(sp_Paragraph_add_comment_end(s, a_id), b14_v) == sp_Paragraph_add_comment_end(sp_Paragraph_keep_next(s, b14_v), a_id),
    sp_Paragraph_line_spacing(sp_Paragraph_add_comment_end(s, a_id), b15_spacing) == sp_Paragraph_add_comment_end(sp_Paragraph_line_spacing(s, b15_spacing), a_id),
    sp_Paragraph_numbering(sp_Paragraph_add_comment_end(s, a_id), b16_id, b16_level) == sp_Paragraph_add_comment_end(sp_Paragraph_numbering(s, b16_id, b16_level), a_id),
    sp_Paragraph_page_break_before(sp_Paragraph_add_comment_end(s, a_id), b17_v) == sp_Paragraph_add_comment_end(sp_Paragraph_page_break_before(s, b17_v), a_id),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_comment_end(s, a_id), b18_p) == sp_Paragraph_add_comment_end(sp_Paragraph_paragraph_property(s, b18_p), a_id),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_comment_end(s, a_id), b19_p) == sp_Paragraph_add_comment_end(sp_Paragraph_paragraph_property_change(s, b19_p), a_id),
    sp_Paragraph_run_property(sp_Paragraph_add_comment_end(s, a_id), b20_p) == sp_Paragraph_add_comment_end(sp_Paragraph_run_property(s, b20_p), a_id),
    sp_Paragraph_section_property(sp_Paragraph_add_comment_end(s, a_id), b21_s) == sp_Paragraph_add_comment_end(sp_Paragraph_section_property(s, b21_s), a_id),
    sp_Paragraph_set_borders(sp_Paragraph_add_comment_end(s, a_id), b22_borders) == sp_Paragraph_add_comment_end(sp_Paragraph_set_borders(s, b22_borders), a_id),
    sp_Paragraph_size(sp_Paragraph_add_comment_end(s, a_id), b23_size) == sp_Paragraph_add_comment_end(sp_Paragraph_size(s, b23_size), a_id),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_comment_end(s, a_id), b24_v) == sp_Paragraph_add_comment_end(sp_Paragraph_snap_to_grid(s, b24_v), a_id),
    sp_Paragraph_widow_control(sp_Paragraph_add_comment_end(s, a_id), b25_v) == sp_Paragraph_add_comment_end(sp_Paragraph_widow_control(s, b25_v), a_id),
{}
pub proof fn order_Paragraph_add_comment_start(s: Paragraph, a_comment: Comment, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_comment_start(s, a_comment), b0_t) == sp_Paragraph_add_comment_start(sp_Paragraph_add_tab(s, b0_t), a_comment),
    sp_Paragraph_align(sp_Paragraph_add_comment_start(s, a_comment), b1_alignment_type) == sp_Paragraph_add_comment_start(sp_Paragraph_align(s, b1_alignment_type), a_comment),
    sp_Paragraph_bold(sp_Paragraph_add_comment_start(s, a_comment)) == sp_Paragraph_add_comment_start(sp_Paragraph_bold(s), a_comment),
    sp_Paragraph_character_spacing(sp_Paragraph_add_comment_start(s, a_comment), b3_spacing) == sp_Paragraph_add_comment_start(sp_Paragraph_character_spacing(s, b3_spacing), a_comment),
    sp_Paragraph_color(sp_Paragraph_add_comment_start(s, a_comment), b4_c) == sp_Paragraph_add_comment_start(sp_Paragraph_color(s, b4_c), a_comment),
    sp_Paragraph_delete(sp_Paragraph_add_comment_start(s, a_comment), b5_author, b5_date) == sp_Paragraph_add_comment_start(sp_Paragraph_delete(s, b5_author, b5_date), a_comment),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_comment_start(s, a_comment), b6_chars) == sp_Paragraph_add_comment_start(sp_Paragraph_first_line_chars(s, b6_chars), a_comment),
    sp_Paragraph_fonts(sp_Paragraph_add_comment_start(s, a_comment), b7_f) == sp_Paragraph_add_comment_start(sp_Paragraph_fonts(s, b7_f), a_comment),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_comment_start(s, a_comment), b8_chars) == sp_Paragraph_add_comment_start(sp_Paragraph_hanging_chars(s, b8_chars), a_comment),
    sp_Paragraph_id(sp_Paragraph_add_comment_start(s, a_comment), b9_id) == sp_Paragraph_add_comment_start(sp_Paragraph_id(s, b9_id), a_comment),
    sp_Paragraph_indent(sp_Paragraph_add_comment_start(s, a_comment), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_comment_start(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_comment),
    sp_Paragraph_insert(sp_Paragraph_add_comment_start(s, a_comment), b11_author, b11_date) == sp_Paragraph_add_comment_start(sp_Paragraph_insert(s, b11_author, b11_date), a_comment),
    sp_Paragraph_italic(sp_Paragraph_add_comment_start(s, a_comment)) == sp_Paragraph_add_comment_start(sp_Paragraph_italic(s), a_comment),
    sp_Paragraph_keep_lines(sp_Paragraph_add_comment_start(s, a_comment), b13_v) == sp_Paragraph_add_comment_start(sp_Paragraph_keep_lines(s, b13_v), a_comment),
    sp_Paragraph_keep_next(sp_Paragraph_add_comment_start(s, a_comment), b14_v) == sp_Paragraph_add_comment_start(sp_Paragraph_keep_next(s, b14_v), a_comment),
    sp_Paragraph_line_spacing(sp_Paragraph_add_comment_start(s, a_comment), b15_spacing) == sp_Paragraph_add_comment_start(sp_Paragraph_line_spacing(s, b15_spacing), a_comment),
    sp_Paragraph_numbering(sp_Paragraph_add_comment_start(s, a_comment), b16_id, b16_level) == sp_Paragraph_add_comment_start(sp_Paragraph_numbering(s, b16_id, b16_level), a_comment),
    sp_Paragraph_page_break_before(sp_Paragraph_add_comment_start(s, a_comment), b17_v) == sp_Paragraph_add_comment_start(sp_Paragraph_page_break_before(s, b17_v), a_comment),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_comment_start(s, a_comment), b18_p) == sp_Paragraph_add_comment_start(sp_Paragraph_paragraph_property(s, b18_p), a_comment),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_comment_start(s, a_comment), b19_p) == sp_Paragraph_add_comment_start(sp_Paragraph_paragraph_property_change(s, b19_p), a_comment),
    sp_Paragraph_run_property(sp_Paragraph_add_comment_start(s, a_comment), b20_p) == sp_Paragraph_add_comment_start(sp_Paragraph_run_property(s, b20_p), a_comment),
    sp_Paragraph_section_property(sp_Paragraph_add_comment_start(s, a_comment), b21_s) == sp_Paragraph_add_comment_start(sp_Paragraph_section_property(s, b21_s), a_comment),
    sp_Paragraph_set_borders(sp_Paragraph_add_comment_start(s, a_comment), b22_borders) == sp_Paragraph_add_comment_start(sp_Paragraph_set_borders(s, b22_borders), a_comment),
    sp_Paragraph_size(sp_Paragraph_add_comment_start(s, a_comment), b23_size) == sp_Paragraph_add_comment_start(sp_Paragraph_size(s, b23_size), a_comment),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_comment_start(s, a_comment), b24_v) == sp_Paragraph_add_comment_start(sp_Paragraph_snap_to_grid(s, b24_v), a_comment),
    sp_Paragraph_widow_control(sp_Paragraph_add_comment_start(s, a_comment), b25_v) == sp_Paragraph_add_comment_start(sp_Paragraph_widow_control(s, b25_v), a_comment),
{}
pub proof fn order_Paragraph_add_delete(s: Paragraph, a_delete: Delete, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_delete(s, a_delete), b0_t) == sp_Paragraph_add_delete(sp_Paragraph_add_tab(s, b0_t), a_delete),
    sp_Paragraph_align(sp_Paragraph_add_delete(s, a_delete), b1_alignment_type) == sp_Paragraph_add_delete(sp_Paragraph_align(s, b1_alignment_type), a_delete),
    sp_Paragraph_bold(sp_Paragraph_add_delete(s, a_delete)) == sp_Paragraph_add_delete(sp_Paragraph_bold(s), a_delete),
    sp_Paragraph_character_spacing(sp_Paragraph_add_delete(s, a_delete), b3_spacing) == sp_Paragraph_add_delete(sp_Paragraph_character_spacing(s, b3_spacing), a_delete),
    sp_Paragraph_color(sp_Paragraph_add_delete(s, a_delete), b4_c) == sp_Paragraph_add_delete(sp_Paragraph_color(s, b4_c), a_delete),
    sp_Paragraph_delete(sp_Paragraph_add_delete(s, a_delete), b5_author, b5_date) == sp_Paragraph_add_delete(sp_Paragraph_delete(s, b5_author, b5_date), a_delete),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_delete(s, a_delete), b6_chars) == sp_Paragraph_add_delete(sp_Paragraph_first_line_chars(s, b6_chars), a_delete),
    sp_Paragraph_fonts(sp_Paragraph_add_delete(s, a_delete), b7_f) == sp_Paragraph_add_delete(sp_Paragraph_fonts(s, b7_f), a_delete),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_delete(s, a_delete), b8_chars) == sp_Paragraph_add_delete(sp_Paragraph_hanging_chars(s, b8_chars), a_delete),
    sp_Paragraph_id(sp_Paragraph_add_delete(s, a_delete), b9_id) == sp_Paragraph_add_delete(sp_Paragraph_id(s, b9_id), a_delete),
    sp_Paragraph_indent(sp_Paragraph_add_delete(s, a_delete), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_delete(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_delete),
    sp_Paragraph_insert(sp_Paragraph_add_delete(s, a_delete), b11_author, b11_date) == sp_Paragraph_add_delete(sp_Paragraph_insert(s, b11_author, b11_date), a_delete),
    sp_Paragraph_italic(sp_Paragraph_add_delete(s, a_delete)) == sp_Paragraph_add_delete(sp_Paragraph_italic(s), a_delete),
    sp_Paragraph_keep_lines(sp_Paragraph_add_delete(s, a_delete), b13_v) == sp_Paragraph_add_delete(sp_Paragraph_keep_lines(s, b13_v), a_delete),
    sp_Paragraph_keep_next(sp_Paragraph_add_delete(s, a_delete), b14_v) == sp_Paragraph_add_delete(sp_Paragraph_keep_next(s, b14_v), a_delete),
    sp_Paragraph_line_spacing(sp_Paragraph_add_delete(s, a_delete), b15_spacing) == sp_Paragraph_add_delete(sp_Paragraph_line_spacing(s, b15_spacing), a_delete),
    sp_Paragraph_numbering(sp_Paragraph_add_delete(s, a_delete), b16_id, b16_level) == sp_Paragraph_add_delete(sp_Paragraph_numbering(s, b16_id, b16_level), a_delete),
    sp_Paragraph_page_break_before(sp_Paragraph_add_delete(s, a_delete), b17_v) == sp_Paragraph_add_delete(sp_Paragraph_page_break_before(s, b17_v), a_delete),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_delete(s, a_delete), b18_p) == sp_Paragraph_add_delete(sp_Paragraph_paragraph_property(s, b18_p), a_delete),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_delete(s, a_delete), b19_p) == sp_Paragraph_add_delete(sp_Paragraph_paragraph_property_change(s, b19_p), a_delete),
    sp_Paragraph_run_property(sp_Paragraph_add_delete(s, a_delete), b20_p) == sp_Paragraph_add_delete(sp_Paragraph_run_property(s, b20_p), a_delete),
    sp_Paragraph_section_property(sp_Paragraph_add_delete(s, a_delete), b21_s) == sp_Paragraph_add_delete(sp_Paragraph_section_property(s, b21_s), a_delete),
    sp_Paragraph_set_borders(sp_Paragraph_add_delete(s, a_delete), b22_borders) == sp_Paragraph_add_delete(sp_Paragraph_set_borders(s, b22_borders), a_delete),
    sp_Paragraph_size(sp_Paragraph_add_delete(s, a_delete), b23_size) == sp_Paragraph_add_delete(sp_Paragraph_size(s, b23_size), a_delete),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_delete(s, a_delete), b24_v) == sp_Paragraph_add_delete(sp_Paragraph_snap_to_grid(s, b24_v), a_delete),
    sp_Paragraph_widow_control(sp_Paragraph_add_delete(s, a_delete), b25_v) == sp_Paragraph_add_delete(sp_Paragraph_widow_control(s, b25_v), a_delete),
{}
pub proof fn order_Paragraph_add_hyperlink(s: Paragraph, a_link: Hyperlink, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_hyperlink(s, a_link), b0_t) == sp_Paragraph_add_hyperlink(sp_Paragraph_add_tab(s, b0_t), a_link),
    sp_Paragraph_align(sp_Paragraph_add_hyperlink(s, a_link), b1_alignment_type) == sp_Paragraph_add_hyperlink(sp_Paragraph_align(s, b1_alignment_type), a_link),
    sp_Paragraph_bold(sp_Paragraph_add_hyperlink(s, a_link)) == sp_Paragraph_add_hyperlink(sp_Paragraph_bold(s), a_link),
    sp_Paragraph_character_spacing(sp_Paragraph_add_hyperlink(s, a_link), b3_spacing) == sp_Paragraph_add_hyperlink(sp_Paragraph_character_spacing(s, b3_spacing), a_link),
    sp_Paragraph_color(sp_Paragraph_add_hyperlink(s, a_link), b4_c) == sp_Paragraph_add_hyperlink(sp_Paragraph_color(s, b4_c), a_link),
    sp_Paragraph_delete(sp_Paragraph_add_hyperlink(s, a_link), b5_author, b5_date) == sp_Paragraph_add_hyperlink(sp_Paragraph_delete(s, b5_author, b5_date), a_link),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_hyperlink(s, a_link), b6_chars) == sp_Paragraph_add_hyperlink(sp_Paragraph_first_line_chars(s, b6_chars), a_link),
    sp_Paragraph_fonts(sp_Paragraph_add_hyperlink(s, a_link), b7_f) == sp_Paragraph_add_hyperlink(sp_Paragraph_fonts(s, b7_f), a_link),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_hyperlink(s, a_link), b8_chars) == sp_Paragraph_add_hyperlink(sp_Paragraph_hanging_chars(s, b8_chars), a_link),
    sp_Paragraph_id(sp_Paragraph_add_hyperlink(s, a_link), b9_id) == sp_Paragraph_add_hyperlink(sp_Paragraph_id(s, b9_id), a_link),
    sp_Paragraph_indent(sp_Paragraph_add_hyperlink(s, a_link), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_hyperlink(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_link),
    sp_Paragraph_insert(sp_Paragraph_add_hyperlink(s, a_link), b11_author, b11_date) == sp_Paragraph_add_hyperlink(sp_Paragraph_insert(s, b11_author, b11_date), a_link),
    sp_Paragraph_italic(sp_Paragraph_add_hyperlink(s, a_link)) == sp_Paragraph_add_hyperlink(sp_Paragraph_italic(s), a_link),
    sp_Paragraph_keep_lines(sp_Paragraph_add_hyperlink(s, a_link), b13_v) == sp_Paragraph_add_hyperlink(sp_Paragraph_keep_lines(s, b13_v), a_link),
    sp_Paragraph_keep_next(sp_Paragraph_add_hyperlink(s, a_link), b14_v) == sp_Paragraph_add_hyperlink(sp_Paragraph_keep_next(s, b14_v), a_link),
    sp_Paragraph_line_spacing(sp_Paragraph_add_hyperlink(s, a_link), b15_spacing) == sp_Paragraph_add_hyperlink(sp_Paragraph_line_spacing(s, b15_spacing), a_link),
    sp_Paragraph_numbering(sp_Paragraph_add_hyperlink(s, a_link), b16_id, b16_level) == sp_Paragraph_add_hyperlink(sp_Paragraph_numbering(s, b16_id, b16_level), a_link),
    sp_Paragraph_page_break_before(sp_Paragraph_add_hyperlink(s, a_link), b17_v) == sp_Paragraph_add_hyperlink(sp_Paragraph_page_break_before(s, b17_v), a_link),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_hyperlink(s, a_link), b18_p) == sp_Paragraph_add_hyperlink(sp_Paragraph_paragraph_property(s, b18_p), a_link),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_hyperlink(s, a_link), b19_p) == sp_Paragraph_add_hyperlink(sp_Paragraph_paragraph_property_change(s, b19_p), a_link),
    sp_Paragraph_run_property(sp_Paragraph_add_hyperlink(s, a_link), b20_p) == sp_Paragraph_add_hyperlink(sp_Paragraph_run_property(s, b20_p), a_link),
    sp_Paragraph_section_property(sp_Paragraph_add_hyperlink(s, a_link), b21_s) == sp_Paragraph_add_hyperlink(sp_Paragraph_section_property(s, b21_s), a_link),
    sp_Paragraph_set_borders(sp_Paragraph_add_hyperlink(s, a_link), b22_borders) == sp_Paragraph_add_hyperlink(sp_Paragraph_set_borders(s, b22_borders), a_link),
    sp_Paragraph_size(sp_Paragraph_add_hyperlink(s, a_link), b23_size) == sp_Paragraph_add_hyperlink(sp_Paragraph_size(s, b23_size), a_link),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_hyperlink(s, a_link), b24_v) == sp_Paragraph_add_hyperlink(sp_Paragraph_snap_to_grid(s, b24_v), a_link),
    sp_Paragraph_widow_control(sp_Paragraph_add_hyperlink(s, a_link), b25_v) == sp_Paragraph_add_hyperlink(sp_Paragraph_widow_control(s, b25_v), a_link),
{}
pub proof fn order_Paragraph_add_insert(s: Paragraph, a_insert: Insert, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_insert(s, a_insert), b0_t) == sp_Paragraph_add_insert(sp_Paragraph_add_tab(s, b0_t), a_insert),
    sp_Paragraph_align(sp_Paragraph_add_insert(s, a_insert), b1_alignment_type) == sp_Paragraph_add_insert(sp_Paragraph_align(s, b1_alignment_type), a_insert),
    sp_Paragraph_bold(sp_Paragraph_add_insert(s, a_insert)) == sp_Paragraph_add_insert(sp_Paragraph_bold(s), a_insert),
    sp_Paragraph_character_spacing(sp_Paragraph_add_insert(s, a_insert), b3_spacing) == sp_Paragraph_add_insert(sp_Paragraph_character_spacing(s, b3_spacing), a_insert),
    sp_Paragraph_color(sp_Paragraph_add_insert(s, a_insert), b4_c) == sp_Paragraph_add_insert(sp_Paragraph_color(s, b4_c), a_insert),
    sp_Paragraph_delete(sp_Paragraph_add_insert(s, a_insert), b5_author, b5_date) == sp_Paragraph_add_insert(sp_Paragraph_delete(s, b5_author, b5_date), a_insert),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_insert(s, a_insert), b6_chars) == sp_Paragraph_add_insert(sp_Paragraph_first_line_chars(s, b6_chars), a_insert),
    sp_Paragraph_fonts(sp_Paragraph_add_insert(s, a_insert), b7_f) == sp_Paragraph_add_insert(sp_Paragraph_fonts(s, b7_f), a_insert),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_insert(s, a_insert), b8_chars) == sp_Paragraph_add_insert(sp_Paragraph_hanging_chars(s, b8_chars), a_insert),
    sp_Paragraph_id(sp_Paragraph_add_insert(s, a_insert), b9_id) == sp_Paragraph_add_insert(sp_Paragraph_id(s, b9_id), a_insert),
    sp_Paragraph_indent(sp_Paragraph_add_insert(s, a_insert), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_insert(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_insert),
    sp_Paragraph_insert(sp_Paragraph_add_insert(s, a_insert), b11_author, b11_date) == sp_Paragraph_add_insert(sp_Paragraph_insert(s, b11_author, b11_date), a_insert),
    sp_Paragraph_italic(sp_Paragraph_add_insert(s, a_insert)) == sp_Paragraph_add_insert(sp_Paragraph_italic(s), a_insert),
    sp_Paragraph_keep_lines(sp_Paragraph_add_insert(s, a_insert), b13_v) == sp_Paragraph_add_insert(sp_Paragraph_keep_lines(s, b13_v), a_insert),
    sp_Paragraph_keep_next(sp_Paragraph_add_insert(s, a_insert), b14_v) == sp_Paragraph_add_insert(sp_Paragraph_keep_next(s, b14_v), a_insert),
    sp_Paragraph_line_spacing(sp_Paragraph_add_insert(s, a_insert), b15_spacing) == sp_Paragraph_add_insert(sp_Paragraph_line_spacing(s, b15_spacing), a_insert),
    sp_Paragraph_numbering(sp_Paragraph_add_insert(s, a_insert), b16_id, b16_level) == sp_Paragraph_add_insert(sp_Paragraph_numbering(s, b16_id, b16_level), a_insert),
    sp_Paragraph_page_break_before(sp_Paragraph_add_insert(s, a_insert), b17_v) == sp_Paragraph_add_insert(sp_Paragraph_page_break_before(s, b17_v), a_insert),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_insert(s, a_insert), b18_p) == sp_Paragraph_add_insert(sp_Paragraph_paragraph_property(s, b18_p), a_insert),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_insert(s, a_insert), b19_p) == sp_Paragraph_add_insert(sp_Paragraph_paragraph_property_change(s, b19_p), a_insert),
    sp_Paragraph_run_property(sp_Paragraph_add_insert(s, a_insert), b20_p) == sp_Paragraph_add_insert(sp_Paragraph_run_property(s, b20_p), a_insert),
    sp_Paragraph_section_property(sp_Paragraph_add_insert(s, a_insert), b21_s) == sp_Paragraph_add_insert(sp_Paragraph_section_property(s, b21_s), a_insert),
    sp_Paragraph_set_borders(sp_Paragraph_add_insert(s, a_insert), b22_borders) == sp_Paragraph_add_insert(sp_Paragraph_set_borders(s, b22_borders), a_insert),
    sp_Paragraph_size(sp_Paragraph_add_insert(s, a_insert), b23_size) == sp_Paragraph_add_insert(sp_Paragraph_size(s, b23_size), a_insert),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_insert(s, a_insert), b24_v) == sp_Paragraph_add_insert(sp_Paragraph_snap_to_grid(s, b24_v), a_insert),
    sp_Paragraph_widow_control(sp_Paragraph_add_insert(s, a_insert), b25_v) == sp_Paragraph_add_insert(sp_Paragraph_widow_control(s, b25_v), a_insert),
{}
pub proof fn order_Paragraph_add_move_from(s: Paragraph, a_move_from: MoveFrom, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_move_from(s, a_move_from), b0_t) == sp_Paragraph_add_move_from(sp_Paragraph_add_tab(s, b0_t), a_move_from),
    sp_Paragraph_align(sp_Paragraph_add_move_from(s, a_move_from), b1_alignment_type) == sp_Paragraph_add_move_from(sp_Paragraph_align(s, b1_alignment_type), a_move_from),
    sp_Paragraph_bold(sp_Paragraph_add_move_from(s, a_move_from)) == sp_Paragraph_add_move_from(sp_Paragraph_bold(s), a_move_from),
    sp_Paragraph_character_spacing(sp_Paragraph_add_move_from(s, a_move_from), b3_spacing) == sp_Paragraph_add_move_from(sp_Paragraph_character_spacing(s, b3_spacing), a_move_from),
    sp_Paragraph_color(sp_Paragraph_add_move_from(s, a_move_from), b4_c) == sp_Paragraph_add_move_from(sp_Paragraph_color(s, b4_c), a_move_from),
    sp_Paragraph_delete(sp_Paragraph_add_move_from(s, a_move_from), b5_author, b5_date) == sp_Paragraph_add_move_from(sp_Paragraph_delete(s, b5_author, b5_date), a_move_from),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_move_from(s, a_move_from), b6_chars) == sp_Paragraph_add_move_from(sp_Paragraph_first_line_chars(s, b6_chars), a_move_from),
    sp_Paragraph_fonts(sp_Paragraph_add_move_from(s, a_move_from), b7_f) == sp_Paragraph_add_move_from(sp_Paragraph_fonts(s, b7_f), a_move_from),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_move_from(s, a_move_from), b8_chars) == sp_Paragraph_add_move_from(sp_Paragraph_hanging_chars(s, b8_chars), a_move_from),
    sp_Paragraph_id(sp_Paragraph_add_move_from(s, a_move_from), b9_id) == sp_Paragraph_add_move_from(sp_Paragraph_id(s, b9_id), a_move_from),
    sp_Paragraph_indent(sp_Paragraph_add_move_from(s, a_move_from), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_move_from(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_move_from),
    sp_Paragraph_insert(sp_Paragraph_add_move_from(s, a_move_from), b11_author, b11_date) == sp_Paragraph_add_move_from(sp_Paragraph_insert(s, b11_author, b11_date), a_move_from),
    sp_Paragraph_italic(sp_Paragraph_add_move_from(s, a_move_from)) == sp_Paragraph_add_move_from(sp_Paragraph_italic(s), a_move_from),
    sp_Paragraph_keep_lines(sp_Paragraph_add_move_from(s, a_move_from), b13_v) == sp_Paragraph_add_move_from(sp_Paragraph_keep_lines(s, b13_v), a_move_from),
    sp_Paragraph_keep_next(sp_Paragraph_add_move_from(s, a_move_from), b14_v) == sp_Paragraph_add_move_from(sp_Paragraph_keep_next(s, b14_v), a_move_from),
    sp_Paragraph_line_spacing(sp_Paragraph_add_move_from(s, a_move_from), b15_spacing) == sp_Paragraph_add_move_from(sp_Paragraph_line_spacing(s, b15_spacing), a_move_from),
    sp_Paragraph_numbering(sp_Paragraph_add_move_from(s, a_move_from), b16_id, b16_level) == sp_Paragraph_add_move_from(sp_Paragraph_numbering(s, b16_id, b16_level), a_move_from),
    sp_Paragraph_page_break_before(sp_Paragraph_add_move_from(s, a_move_from), b17_v) == sp_Paragraph_add_move_from(sp_Paragraph_page_break_before(s, b17_v), a_move_from),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_move_from(s, a_move_from), b18_p) == sp_Paragraph_add_move_from(sp_Paragraph_paragraph_property(s, b18_p), a_move_from),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_move_from(s, a_move_from), b19_p) == sp_Paragraph_add_move_from(sp_Paragraph_paragraph_property_change(s, b19_p), a_move_from),
    sp_Paragraph_run_property(sp_Paragraph_add_move_from(s, a_move_from), b20_p) == sp_Paragraph_add_move_from(sp_Paragraph_run_property(s, b20_p), a_move_from),
    sp_Paragraph_section_property(sp_Paragraph_add_move_from(s, a_move_from), b21_s) == sp_Paragraph_add_move_from(sp_Paragraph_section_property(s, b21_s), a_move_from),
    sp_Paragraph_set_borders(sp_Paragraph_add_move_from(s, a_move_from), b22_borders) == sp_Paragraph_add_move_from(sp_Paragraph_set_borders(s, b22_borders), a_move_from),
    sp_Paragraph_size(sp_Paragraph_add_move_from(s, a_move_from), b23_size) == sp_Paragraph_add_move_from(sp_Paragraph_size(s, b23_size), a_move_from),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_move_from(s, a_move_from), b24_v) == sp_Paragraph_add_move_from(sp_Paragraph_snap_to_grid(s, b24_v), a_move_from),
    sp_Paragraph_widow_control(sp_Paragraph_add_move_from(s, a_move_from), b25_v) == sp_Paragraph_add_move_from(sp_Paragraph_widow_control(s, b25_v), a_move_from),
{}
pub proof fn order_Paragraph_add_move_to(s: Paragraph, a_move_to: MoveTo, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_move_to(s, a_move_to), b0_t) == sp_Paragraph_add_move_to(sp_Paragraph_add_tab(s, b0_t), a_move_to),
    sp_Paragraph_align(sp_Paragraph_add_move_to(s, a_move_to), b1_alignment_type) == sp_Paragraph_add_move_to(sp_Paragraph_align(s, b1_alignment_type), a_move_to),
    sp_Paragraph_bold(sp_Paragraph_add_move_to(s, a_move_to)) == sp_Paragraph_add_move_to(sp_Paragraph_bold(s), a_move_to),
    sp_Paragraph_character_spacing(sp_Paragraph_add_move_to(s, a_move_to), b3_spacing) == sp_Paragraph_add_move_to(sp_Paragraph_character_spacing(s, b3_spacing), a_move_to),
    sp_Paragraph_color(sp_Paragraph_add_move_to(s, a_move_to), b4_c) == sp_Paragraph_add_move_to(sp_Paragraph_color(s, b4_c), a_move_to),
    sp_Paragraph_delete(sp_Paragraph_add_move_to(s, a_move_to), b5_author, b5_date) == sp_Paragraph_add_move_to(sp_Paragraph_delete(s, b5_author, b5_date), a_move_to),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_move_to(s, a_move_to), b6_chars) == sp_Paragraph_add_move_to(sp_Paragraph_first_line_chars(s, b6_chars), a_move_to),
    sp_Paragraph_fonts(sp_Paragraph_add_move_to(s, a_move_to), b7_f) == sp_Paragraph_add_move_to(sp_Paragraph_fonts(s, b7_f), a_move_to),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_move_to(s, a_move_to), b8_chars) == sp_Paragraph_add_move_to(sp_Paragraph_hanging_chars(s, b8_chars), a_move_to),
    sp_Paragraph_id(sp_Paragraph_add_move_to(s, a_move_to), b9_id) == sp_Paragraph_add_move_to(sp_Paragraph_id(s, b9_id), a_move_to),
    sp_Paragraph_indent(sp_Paragraph_add_move_to(s, a_move_to), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_move_to(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_move_to),
    sp_Paragraph_insert(sp_Paragraph_add_move_to(s, a_move_to), b11_author, b11_date) == sp_Paragraph_add_move_to(sp_Paragraph_insert(s, b11_author, b11_date), a_move_to),
    sp_Paragraph_italic(sp_Paragraph_add_move_to(s, a_move_to)) == sp_Paragraph_add_move_to(sp_Paragraph_italic(s), a_move_to),
    sp_Paragraph_keep_lines(sp_Paragraph_add_move_to(s, a_move_to), b13_v) == sp_Paragraph_add_move_to(sp_Paragraph_keep_lines(s, b13_v), a_move_to),
    sp_Paragraph_keep_next(sp_Paragraph_add_move_to(s, a_move_to), b14_v) == sp_Paragraph_add_move_to(sp_Paragraph_keep_next(s, b14_v), a_move_to),
    sp_Paragraph_line_spacing(sp_Paragraph_add_move_to(s, a_move_to), b15_spacing) == sp_Paragraph_add_move_to(sp_Paragraph_line_spacing(s, b15_spacing), a_move_to),
    sp_Paragraph_numbering(sp_Paragraph_add_move_to(s, a_move_to), b16_id, b16_level) == sp_Paragraph_add_move_to(sp_Paragraph_numbering(s, b16_id, b16_level), a_move_to),
    sp_Paragraph_page_break_before(sp_Paragraph_add_move_to(s, a_move_to), b17_v) == sp_Paragraph_add_move_to(sp_Paragraph_page_break_before(s, b17_v), a_move_to),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_move_to(s, a_move_to), b18_p) == sp_Paragraph_add_move_to(sp_Paragraph_paragraph_property(s, b18_p), a_move_to),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_move_to(s, a_move_to), b19_p) == sp_Paragraph_add_move_to(sp_Paragraph_paragraph_property_change(s, b19_p), a_move_to),
    sp_Paragraph_run_property(sp_Paragraph_add_move_to(s, a_move_to), b20_p) == sp_Paragraph_add_move_to(sp_Paragraph_run_property(s, b20_p), a_move_to),
    sp_Paragraph_section_property(sp_Paragraph_add_move_to(s, a_move_to), b21_s) == sp_Paragraph_add_move_to(sp_Paragraph_section_property(s, b21_s), a_move_to),
    sp_Paragraph_set_borders(sp_Paragraph_add_move_to(s, a_move_to), b22_borders) == sp_Paragraph_add_move_to(sp_Paragraph_set_borders(s, b22_borders), a_move_to),
    sp_Paragraph_size(sp_Paragraph_add_move_to(s, a_move_to), b23_size) == sp_Paragraph_add_move_to(sp_Paragraph_size(s, b23_size), a_move_to),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_move_to(s, a_move_to), b24_v) == sp_Paragraph_add_move_to(sp_Paragraph_snap_to_grid(s, b24_v), a_move_to),
    sp_Paragraph_widow_control(sp_Paragraph_add_move_to(s, a_move_to), b25_v) == sp_Paragraph_add_move_to(sp_Paragraph_widow_control(s, b25_v), a_move_to),
{}
pub proof fn order_Paragraph_add_num_pages(s: Paragraph, a_p: NumPages, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_num_pages(s, a_p), b0_t) == sp_Paragraph_add_num_pages(sp_Paragraph_add_tab(s, b0_t), a_p),
    sp_Paragraph_align(sp_Paragraph_add_num_pages(s, a_p), b1_alignment_type) == sp_Paragraph_add_num_pages(sp_Paragraph_align(s, b1_alignment_type), a_p),
    sp_Paragraph_bold(sp_Paragraph_add_num_pages(s, a_p)) == sp_Paragraph_add_num_pages(sp_Paragraph_bold(s), a_p),
    sp_Paragraph_character_spacing(sp_Paragraph_add_num_pages(s, a_p), b3_spacing) == sp_Paragraph_add_num_pages(sp_Paragraph_character_spacing(s, b3_spacing), a_p),
    sp_Paragraph_color(sp_Paragraph_add_num_pages(s, a_p), b4_c) == sp_Paragraph_add_num_pages(sp_Paragraph_color(s, b4_c), a_p),
    sp_Paragraph_delete(sp_Paragraph_add_num_pages(s, a_p), b5_author, b5_date) == sp_Paragraph_add_num_pages(sp_Paragraph_delete(s, b5_author, b5_date), a_p),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_num_pages(s, a_p), b6_chars) == sp_Paragraph_add_num_pages(sp_Paragraph_first_line_chars(s, b6_chars), a_p),
    sp_Paragraph_fonts(sp_Paragraph_add_num_pages(s, a_p), b7_f) == sp_Paragraph_add_num_pages(sp_Paragraph_fonts(s, b7_f), a_p),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_num_pages(s, a_p), b8_chars) == sp_Paragraph_add_num_pages(sp_Paragraph_hanging_chars(s, b8_chars), a_p),
    sp_Paragraph_id(sp_Paragraph_add_num_pages(s, a_p), b9_id) == sp_Paragraph_add_num_pages(sp_Paragraph_id(s, b9_id), a_p),
    sp_Paragraph_indent(sp_Paragraph_add_num_pages(s, a_p), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_num_pages(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_p),
    sp_Paragraph_insert(sp_Paragraph_add_num_pages(s, a_p), b11_author, b11_date) == sp_Paragraph_add_num_pages(sp_Paragraph_insert(s, b11_author, b11_date), a_p),
    sp_Paragraph_italic(sp_Paragraph_add_num_pages(s, a_p)) == sp_Paragraph_add_num_pages(sp_Paragraph_italic(s), a_p),
    sp_Paragraph_keep_lines(sp_Paragraph_add_num_pages(s, a_p), b13_v) == sp_Paragraph_add_num_pages(sp_Paragraph_keep_lines(s, b13_v), a_p),
    sp_Paragraph_keep_next(sp_Paragraph_add_num_pages(s, a_p), b14_v) == sp_Paragraph_add_num_pages(sp_Paragraph_keep_next(s, b14_v), a_p),
    sp_Paragraph_line_spacing(sp_Paragraph_add_num_pages(s, a_p), b15_spacing) == sp_Paragraph_add_num_pages(sp_Paragraph_line_spacing(s, b15_spacing), a_p),
    sp_Paragraph_numbering(sp_Paragraph_add_num_pages(s, a_p), b16_id, b16_level) == sp_Paragraph_add_num_pages(sp_Paragraph_numbering(s, b16_id, b16_level), a_p),
    sp_Paragraph_page_break_before(sp_Paragraph_add_num_pages(s, a_p), b17_v) == sp_Paragraph_add_num_pages(sp_Paragraph_page_break_before(s, b17_v), a_p),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_num_pages(s, a_p), b18_p) == sp_Paragraph_add_num_pages(sp_Paragraph_paragraph_property(s, b18_p), a_p),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_num_pages(s, a_p), b19_p) == sp_Paragraph_add_num_pages(sp_Paragraph_paragraph_property_change(s, b19_p), a_p),
    sp_Paragraph_run_property(sp_Paragraph_add_num_pages(s, a_p), b20_p) == sp_Paragraph_add_num_pages(sp_Paragraph_run_property(s, b20_p), a_p),
    sp_Paragraph_section_property(sp_Paragraph_add_num_pages(s, a_p), b21_s) == sp_Paragraph_add_num_pages(sp_Paragraph_section_property(s, b21_s), a_p),
    sp_Paragraph_set_borders(sp_Paragraph_add_num_pages(s, a_p), b22_borders) == sp_Paragraph_add_num_pages(sp_Paragraph_set_borders(s, b22_borders), a_p),
    sp_Paragraph_size(sp_Paragraph_add_num_pages(s, a_p), b23_size) == sp_Paragraph_add_num_pages(sp_Paragraph_size(s, b23_size), a_p),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_num_pages(s, a_p), b24_v) == sp_Paragraph_add_num_pages(sp_Paragraph_snap_to_grid(s, b24_v), a_p),
    sp_Paragraph_widow_control(sp_Paragraph_add_num_pages(s, a_p), b25_v) == sp_Paragraph_add_num_pages(sp_Paragraph_widow_control(s, b25_v), a_p),
{}
pub proof fn order_Paragraph_add_page_num(s: Paragraph, a_p: PageNum, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_page_num(s, a_p), b0_t) == sp_Paragraph_add_page_num(sp_Paragraph_add_tab(s, b0_t), a_p),
    sp_Paragraph_align(sp_Paragraph_add_page_num(s, a_p), b1_alignment_type) == sp_Paragraph_add_page_num(sp_Paragraph_align(s, b1_alignment_type), a_p),
    sp_Paragraph_bold(sp_Paragraph_add_page_num(s, a_p)) == sp_Paragraph_add_page_num(sp_Paragraph_bold(s), a_p),
    sp_Paragraph_character_spacing(sp_Paragraph_add_page_num(s, a_p), b3_spacing) == sp_Paragraph_add_page_num(sp_Paragraph_character_spacing(s, b3_spacing), a_p),
    sp_Paragraph_color(sp_Paragraph_add_page_num(s, a_p), b4_c) == sp_Paragraph_add_page_num(sp_Paragraph_color(s, b4_c), a_p),
    sp_Paragraph_delete(sp_Paragraph_add_page_num(s, a_p), b5_author, b5_date) == sp_Paragraph_add_page_num(sp_Paragraph_delete(s, b5_author, b5_date), a_p),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_page_num(s, a_p), b6_chars) == sp_Paragraph_add_page_num(sp_Paragraph_first_line_chars(s, b6_chars), a_p),
    sp_Paragraph_fonts(sp_Paragraph_add_page_num(s, a_p), b7_f) == sp_Paragraph_add_page_num(sp_Paragraph_fonts(s, b7_f), a_p),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_page_num(s, a_p), b8_chars) == sp_Paragraph_add_page_num(sp_Paragraph_hanging_chars(s, b8_chars), a_p),
    sp_Paragraph_id(sp_Paragraph_add_page_num(s, a_p), b9_id) == sp_Paragraph_add_page_num(sp_Paragraph_id(s, b9_id), a_p),
    sp_Paragraph_indent(sp_Paragraph_add_page_num(s, a_p), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_page_num(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_p),
    sp_Paragraph_insert(sp_Paragraph_add_page_num(s, a_p), b11_author, b11_date) == sp_Paragraph_add_page_num(sp_Paragraph_insert(s, b11_author, b11_date), a_p),
    sp_Paragraph_italic(sp_Paragraph_add_page_num(s, a_p)) == sp_Paragraph_add_page_num(sp_Paragraph_italic(s), a_p),
    sp_Paragraph_keep_lines(sp_Paragraph_add_page_num(s, a_p), b13_v) == sp_Paragraph_add_page_num(sp_Paragraph_keep_lines(s, b13_v), a_p),
    sp_Paragraph_keep_next(sp_Paragraph_add_page_num(s, a_p), b14_v) == sp_Paragraph_add_page_num(sp_Paragraph_keep_next(s, b14_v), a_p),
    sp_Paragraph_line_spacing(sp_Paragraph_add_page_num(s, a_p), b15_spacing) == sp_Paragraph_add_page_num(sp_Paragraph_line_spacing(s, b15_spacing), a_p),
    sp_Paragraph_numbering(sp_Paragraph_add_page_num(s, a_p), b16_id, b16_level) == sp_Paragraph_add_page_num(sp_Paragraph_numbering(s, b16_id, b16_level), a_p),
    sp_Paragraph_page_break_before(sp_Paragraph_add_page_num(s, a_p), b17_v) == sp_Paragraph_add_page_num(sp_Paragraph_page_break_before(s, b17_v), a_p),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_page_num(s, a_p), b18_p) == sp_Paragraph_add_page_num(sp_Paragraph_paragraph_property(s, b18_p), a_p),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_page_num(s, a_p), b19_p) == sp_Paragraph_add_page_num(sp_Paragraph_paragraph_property_change(s, b19_p), a_p),
    sp_Paragraph_run_property(sp_Paragraph_add_page_num(s, a_p), b20_p) == sp_Paragraph_add_page_num(sp_Paragraph_run_property(s, b20_p), a_p),
    sp_Paragraph_section_property(sp_Paragraph_add_page_num(s, a_p), b21_s) == sp_Paragraph_add_page_num(sp_Paragraph_section_property(s, b21_s), a_p),
    sp_Paragraph_set_borders(sp_Paragraph_add_page_num(s, a_p), b22_borders) == sp_Paragraph_add_page_num(sp_Paragraph_set_borders(s, b22_borders), a_p),
    sp_Paragraph_size(sp_Paragraph_add_page_num(s, a_p), b23_size) == sp_Paragraph_add_page_num(sp_Paragraph_size(s, b23_size), a_p),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_page_num(s, a_p), b24_v) == sp_Paragraph_add_page_num(sp_Paragraph_snap_to_grid(s, b24_v), a_p),
    sp_Paragraph_widow_control(sp_Paragraph_add_page_num(s, a_p), b25_v) == sp_Paragraph_add_page_num(sp_Paragraph_widow_control(s, b25_v), a_p),
{}
pub proof fn order_Paragraph_add_run(s: Paragraph, a_run: Run, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_run(s, a_run), b0_t) == sp_Paragraph_add_run(sp_Paragraph_add_tab(s, b0_t), a_run),
    sp_Paragraph_align(sp_Paragraph_add_run(s, a_run), b1_alignment_type) == sp_Paragraph_add_run(sp_Paragraph_align(s, b1_alignment_type), a_run),
    sp_Paragraph_bold(sp_Paragraph_add_run(s, a_run)) == sp_Paragraph_add_run(sp_Paragraph_bold(s), a_run),
    sp_Paragraph_character_spacing(sp_Paragraph_add_run(s, a_run), b3_spacing) == sp_Paragraph_add_run(sp_Paragraph_character_spacing(s, b3_spacing), a_run),
    sp_Paragraph_color(sp_Paragraph_add_run(s, a_run), b4_c) == sp_Paragraph_add_run(sp_Paragraph_color(s, b4_c), a_run),
    sp_Paragraph_delete(sp_Paragraph_add_run(s, a_run), b5_author, b5_date) == sp_Paragraph_add_run(sp_Paragraph_delete(s, b5_author, b5_date), a_run),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_run(s, a_run), b6_chars) == sp_Paragraph_add_run(sp_Paragraph_first_line_chars(s, b6_chars), a_run),
    sp_Paragraph_fonts(sp_Paragraph_add_run(s, a_run), b7_f) == sp_Paragraph_add_run(sp_Paragraph_fonts(s, b7_f), a_run),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_run(s, a_run), b8_chars) == sp_Paragraph_add_run(sp_Paragraph_hanging_chars(s, b8_chars), a_run),
    sp_Paragraph_id(sp_Paragraph_add_run(s, a_run), b9_id) == sp_Paragraph_add_run(sp_Paragraph_id(s, b9_id), a_run),
    sp_Paragraph_indent(sp_Paragraph_add_run(s, a_run), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_run(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_run),
    sp_Paragraph_insert(sp_Paragraph_add_run(s, a_run), b11_author, b11_date) == sp_Paragraph_add_run(sp_Paragraph_insert(s, b11_author, b11_date), a_run),
    sp_Paragraph_italic(sp_Paragraph_add_run(s, a_run)) == sp_Paragraph_add_run(sp_Paragraph_italic(s), a_run),
    sp_Paragraph_keep_lines(sp_Paragraph_add_run(s, a_run), b13_v) == sp_Paragraph_add_run(sp_Paragraph_keep_lines(s, b13_v), a_run),
    sp_Paragraph_keep_next(sp_Paragraph_add_run(s, a_run), b14_v) == sp_Paragraph_add_run(sp_Paragraph_keep_next(s, b14_v), a_run),
    sp_Paragraph_line_spacing(sp_Paragraph_add_run(s, a_run), b15_spacing) == sp_Paragraph_add_run(sp_Paragraph_line_spacing(s, b15_spacing), a_run),
    sp_Paragraph_numbering(sp_Paragraph_add_run(s, a_run), b16_id, b16_level) == sp_Paragraph_add_run(sp_Paragraph_numbering(s, b16_id, b16_level), a_run),
    sp_Paragraph_page_break_before(sp_Paragraph_add_run(s, a_run), b17_v) == sp_Paragraph_add_run(sp_Paragraph_page_break_before(s, b17_v), a_run),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_run(s, a_run), b18_p) == sp_Paragraph_add_run(sp_Paragraph_paragraph_property(s, b18_p), a_run),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_run(s, a_run), b19_p) == sp_Paragraph_add_run(sp_Paragraph_paragraph_property_change(s, b19_p), a_run),
    sp_Paragraph_run_property(sp_Paragraph_add_run(s, a_run), b20_p) == sp_Paragraph_add_run(sp_Paragraph_run_property(s, b20_p), a_run),
    sp_Paragraph_section_property(sp_Paragraph_add_run(s, a_run), b21_s) == sp_Paragraph_add_run(sp_Paragraph_section_property(s, b21_s), a_run),
    sp_Paragraph_set_borders(sp_Paragraph_add_run(s, a_run), b22_borders) == sp_Paragraph_add_run(sp_Paragraph_set_borders(s, b22_borders), a_run),
    sp_Paragraph_size(sp_Paragraph_add_run(s, a_run), b23_size) == sp_Paragraph_add_run(sp_Paragraph_size(s, b23_size), a_run),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_run(s, a_run), b24_v) == sp_Paragraph_add_run(sp_Paragraph_snap_to_grid(s, b24_v), a_run),
    sp_Paragraph_widow_control(sp_Paragraph_add_run(s, a_run), b25_v) == sp_Paragraph_add_run(sp_Paragraph_widow_control(s, b25_v), a_run),
{}
pub proof fn order_Paragraph_add_structured_data_tag(s: Paragraph, a_t: StructuredDataTag, b0_t: Tab, b1_alignment_type: AlignmentType, b3_spacing: i32, b4_c: Seq<char>, b5_author: Seq<char>, b5_date: Seq<char>, b6_chars: i32, b7_f: RunFonts, b8_chars: i32, b9_id: Seq<char>, b10_left: Option<i32>, b10_special_indent: Option<SpecialIndentType>, b10_end: Option<i32>, b10_start_chars: Option<i32>, b11_author: Seq<char>, b11_date: Seq<char>, b13_v: bool, b14_v: bool, b15_spacing: LineSpacing, b16_id: NumberingId, b16_level: IndentLevel, b17_v: bool, b18_p: ParagraphProperty, b19_p: ParagraphPropertyChange, b20_p: RunProperty, b21_s: SectionProperty, b22_borders: ParagraphBorders, b23_size: usize, b24_v: bool, b25_v: bool)
  ensures
    sp_Paragraph_add_tab(sp_Paragraph_add_structured_data_tag(s, a_t), b0_t) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_add_tab(s, b0_t), a_t),
    sp_Paragraph_align(sp_Paragraph_add_structured_data_tag(s, a_t), b1_alignment_type) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_align(s, b1_alignment_type), a_t),
    sp_Paragraph_bold(sp_Paragraph_add_structured_data_tag(s, a_t)) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_bold(s), a_t),
    sp_Paragraph_character_spacing(sp_Paragraph_add_structured_data_tag(s, a_t), b3_spacing) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_character_spacing(s, b3_spacing), a_t),
    sp_Paragraph_color(sp_Paragraph_add_structured_data_tag(s, a_t), b4_c) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_color(s, b4_c), a_t),
    sp_Paragraph_delete(sp_Paragraph_add_structured_data_tag(s, a_t), b5_author, b5_date) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_delete(s, b5_author, b5_date), a_t),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_structured_data_tag(s, a_t), b6_chars) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_first_line_chars(s, b6_chars), a_t),
    sp_Paragraph_fonts(sp_Paragraph_add_structured_data_tag(s, a_t), b7_f) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_fonts(s, b7_f), a_t),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_structured_data_tag(s, a_t), b8_chars) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_hanging_chars(s, b8_chars), a_t),
    sp_Paragraph_id(sp_Paragraph_add_structured_data_tag(s, a_t), b9_id) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_id(s, b9_id), a_t),
    sp_Paragraph_indent(sp_Paragraph_add_structured_data_tag(s, a_t), b10_left, b10_special_indent, b10_end, b10_start_chars) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_indent(s, b10_left, b10_special_indent, b10_end, b10_start_chars), a_t),
    sp_Paragraph_insert(sp_Paragraph_add_structured_data_tag(s, a_t), b11_author, b11_date) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_insert(s, b11_author, b11_date), a_t),
    sp_Paragraph_italic(sp_Paragraph_add_structured_data_tag(s, a_t)) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_italic(s), a_t),
    sp_Paragraph_keep_lines(sp_Paragraph_add_structured_data_tag(s, a_t), b13_v) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_keep_lines(s, b13_v), a_t),
    sp_Paragraph_keep_next(sp_Paragraph_add_structured_data_tag(s, a_t), b14_v) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_keep_next(s, b14_v), a_t),
    sp_Paragraph_line_spacing(sp_Paragraph_add_structured_data_tag(s, a_t), b15_spacing) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_line_spacing(s, b15_spacing), a_t),
    sp_Paragraph_numbering(sp_Paragraph_add_structured_data_tag(s, a_t), b16_id, b16_level) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_numbering(s, b16_id, b16_level), a_t),
    sp_Paragraph_page_break_before(sp_Paragraph_add_structured_data_tag(s, a_t), b17_v) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_page_break_before(s, b17_v), a_t),
    sp_Paragraph_paragraph_property(sp_Paragraph_add_structured_data_tag(s, a_t), b18_p) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_paragraph_property(s, b18_p), a_t),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_structured_data_tag(s, a_t), b19_p) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_paragraph_property_change(s, b19_p), a_t),
    sp_Paragraph_run_property(sp_Paragraph_add_structured_data_tag(s, a_t), b20_p) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_run_property(s, b20_p), a_t),
    sp_Paragraph_section_property(sp_Paragraph_add_structured_data_tag(s, a_t), b21_s) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_section_property(s, b21_s), a_t),
    sp_Paragraph_set_borders(sp_Paragraph_add_structured_data_tag(s, a_t), b22_borders) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_set_borders(s, b22_borders), a_t),
    sp_Paragraph_size(sp_Paragraph_add_structured_data_tag(s, a_t), b23_size) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_size(s, b23_size), a_t),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_structured_data_tag(s, a_t), b24_v) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_snap_to_grid(s, b24_v), a_t),
    sp_Paragraph_widow_control(sp_Paragraph_add_structured_data_tag(s, a_t), b25_v) == sp_Paragraph_add_structured_data_tag(sp_Paragraph_widow_control(s, b25_v), a_t),
{}
pub proof fn order_Paragraph_add_tab(s: Paragraph, a_t: Tab, b0_alignment_type: AlignmentType, b1_spacing: i32, b2_chars: i32, b3_chars: i32, b4_id: Seq<char>, b5_left: Option<i32>, b5_special_indent: Option<SpecialIndentType>, b5_end: Option<i32>, b5_start_chars: Option<i32>, b6_v: bool, b7_v: bool, b8_spacing: LineSpacing, b9_id: NumberingId, b9_level: IndentLevel, b10_v: bool, b11_p: ParagraphPropertyChange, b12_s: SectionProperty, b13_borders: ParagraphBorders, b14_v: bool, b15_v: bool)
  ensures
    sp_Paragraph_align(sp_Paragraph_add_tab(s, a_t), b0_alignment_type) == sp_Paragraph_add_tab(sp_Paragraph_align(s, b0_alignment_type), a_t),
    sp_Paragraph_character_spacing(sp_Paragraph_add_tab(s, a_t), b1_spacing) == sp_Paragraph_add_tab(sp_Paragraph_character_spacing(s, b1_spacing), a_t),
    sp_Paragraph_first_line_chars(sp_Paragraph_add_tab(s, a_t), b2_chars) == sp_Paragraph_add_tab(sp_Paragraph_first_line_chars(s, b2_chars), a_t),
    sp_Paragraph_hanging_chars(sp_Paragraph_add_tab(s, a_t), b3_chars) == sp_Paragraph_add_tab(sp_Paragraph_hanging_chars(s, b3_chars), a_t),
    sp_Paragraph_id(sp_Paragraph_add_tab(s, a_t), b4_id) == sp_Paragraph_add_tab(sp_Paragraph_id(s, b4_id), a_t),
    sp_Paragraph_indent(sp_Paragraph_add_tab(s, a_t), b5_left, b5_special_indent, b5_end, b5_start_chars) == sp_Paragraph_add_tab(sp_Paragraph_indent(s, b5_left, b5_special_indent, b5_end, b5_start_chars), a_t),
    sp_Paragraph_keep_lines(sp_Paragraph_add_tab(s, a_t), b6_v) == sp_Paragraph_add_tab(sp_Paragraph_keep_lines(s, b6_v), a_t),
    sp_Paragraph_keep_next(sp_Paragraph_add_tab(s, a_t), b7_v) == sp_Paragraph_add_tab(sp_Paragraph_keep_next(s, b7_v), a_t),
    sp_Paragraph_line_spacing(sp_Paragraph_add_tab(s, a_t), b8_spacing) == sp_Paragraph_add_tab(sp_Paragraph_line_spacing(s, b8_spacing), a_t),
    sp_Paragraph_numbering(sp_Paragraph_add_tab(s, a_t), b9_id, b9_level) == sp_Paragraph_add_tab(sp_Paragraph_numbering(s, b9_id, b9_level), a_t),
    sp_Paragraph_page_break_before(sp_Paragraph_add_tab(s, a_t), b10_v) == sp_Paragraph_add_tab(sp_Paragraph_page_break_before(s, b10_v), a_t),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_add_tab(s, a_t), b11_p) == sp_Paragraph_add_tab(sp_Paragraph_paragraph_property_change(s, b11_p), a_t),
    sp_Paragraph_section_property(sp_Paragraph_add_tab(s, a_t), b12_s) == sp_Paragraph_add_tab(sp_Paragraph_section_property(s, b12_s), a_t),
    sp_Paragraph_set_borders(sp_Paragraph_add_tab(s, a_t), b13_borders) == sp_Paragraph_add_tab(sp_Paragraph_set_borders(s, b13_borders), a_t),
    sp_Paragraph_snap_to_grid(sp_Paragraph_add_tab(s, a_t), b14_v) == sp_Paragraph_add_tab(sp_Paragraph_snap_to_grid(s, b14_v), a_t),
    sp_Paragraph_widow_control(sp_Paragraph_add_tab(s, a_t), b15_v) == sp_Paragraph_add_tab(sp_Paragraph_widow_control(s, b15_v), a_t),
{}
pub proof fn order_Paragraph_align(s: Paragraph, a_alignment_type: AlignmentType, b0_spacing: i32, b1_chars: i32, b2_chars: i32, b3_id: Seq<char>, b4_left: Option<i32>, b4_special_indent: Option<SpecialIndentType>, b4_end: Option<i32>, b4_start_chars: Option<i32>, b5_v: bool, b6_v: bool, b7_spacing: LineSpacing, b8_id: NumberingId, b8_level: IndentLevel, b9_v: bool, b10_p: ParagraphPropertyChange, b11_s: SectionProperty, b12_borders: ParagraphBorders, b13_v: bool, b14_v: bool)
  ensures
    sp_Paragraph_character_spacing(sp_Paragraph_align(s, a_alignment_type), b0_spacing) == sp_Paragraph_align(sp_Paragraph_character_spacing(s, b0_spacing), a_alignment_type),
    sp_Paragraph_first_line_chars(sp_Paragraph_align(s, a_alignment_type), b1_chars) == sp_Paragraph_align(sp_Paragraph_first_line_chars(s, b1_chars), a_alignment_type),
    sp_Paragraph_hanging_chars(sp_Paragraph_align(s, a_alignment_type), b2_chars) == sp_Paragraph_align(sp_Paragraph_hanging_chars(s, b2_chars), a_alignment_type),
    sp_Paragraph_id(sp_Paragraph_align(s, a_alignment_type), b3_id) == sp_Paragraph_align(sp_Paragraph_id(s, b3_id), a_alignment_type),
    sp_Paragraph_indent(sp_Paragraph_align(s, a_alignment_type), b4_left, b4_special_indent, b4_end, b4_start_chars) == sp_Paragraph_align(sp_Paragraph_indent(s, b4_left, b4_special_indent, b4_end, b4_start_chars), a_alignment_type),
    sp_Paragraph_keep_lines(sp_Paragraph_align(s, a_alignment_type), b5_v) == sp_Paragraph_align(sp_Paragraph_keep_lines(s, b5_v), a_alignment_type),
    sp_Paragraph_keep_next(sp_Paragraph_align(s, a_alignment_type), b6_v) == sp_Paragraph_align(sp_Paragraph_keep_next(s, b6_v), a_alignment_type),
    sp_Paragraph_line_spacing(sp_Paragraph_align(s, a_alignment_type), b7_spacing) == sp_Paragraph_align(sp_Paragraph_line_spacing(s, b7_spacing), a_alignment_type),
    sp_Paragraph_numbering(sp_Paragraph_align(s, a_alignment_type), b8_id, b8_level) == sp_Paragraph_align(sp_Paragraph_numbering(s, b8_id, b8_level), a_alignment_type),
    sp_Paragraph_page_break_before(sp_Paragraph_align(s, a_alignment_type), b9_v) == sp_Paragraph_align(sp_Paragraph_page_break_before(s, b9_v), a_alignment_type),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_align(s, a_alignment_type), b10_p) == sp_Paragraph_align(sp_Paragraph_paragraph_property_change(s, b10_p), a_alignment_type),
    sp_Paragraph_section_property(sp_Paragraph_align(s, a_alignment_type), b11_s) == sp_Paragraph_align(sp_Paragraph_section_property(s, b11_s), a_alignment_type),
    sp_Paragraph_set_borders(sp_Paragraph_align(s, a_alignment_type), b12_borders) == sp_Paragraph_align(sp_Paragraph_set_borders(s, b12_borders), a_alignment_type),
    sp_Paragraph_snap_to_grid(sp_Paragraph_align(s, a_alignment_type), b13_v) == sp_Paragraph_align(sp_Paragraph_snap_to_grid(s, b13_v), a_alignment_type),
    sp_Paragraph_widow_control(sp_Paragraph_align(s, a_alignment_type), b14_v) == sp_Paragraph_align(sp_Paragraph_widow_control(s, b14_v), a_alignment_type),
{}
pub proof fn order_Paragraph_bold(s: Paragraph, b0_id: Seq<char>)
  ensures
    sp_Paragraph_id(sp_Paragraph_bold(s), b0_id) == sp_Paragraph_bold(sp_Paragraph_id(s, b0_id)),
{}
pub proof fn order_Paragraph_character_spacing(s: Paragraph, a_spacing: i32, b0_chars: i32, b1_chars: i32, b2_id: Seq<char>, b3_left: Option<i32>, b3_special_indent: Option<SpecialIndentType>, b3_end: Option<i32>, b3_start_chars: Option<i32>, b4_v: bool, b5_v: bool, b6_spacing: LineSpacing, b7_id: NumberingId, b7_level: IndentLevel, b8_v: bool, b9_p: ParagraphPropertyChange, b10_s: SectionProperty, b11_borders: ParagraphBorders, b12_v: bool, b13_v: bool)
  ensures
    sp_Paragraph_first_line_chars(sp_Paragraph_character_spacing(s, a_spacing), b0_chars) == sp_Paragraph_character_spacing(sp_Paragraph_first_line_chars(s, b0_chars), a_spacing),
    sp_Paragraph_hanging_chars(sp_Paragraph_character_spacing(s, a_spacing), b1_chars) == sp_Paragraph_character_spacing(sp_Paragraph_hanging_chars(s, b1_chars), a_spacing),
    sp_Paragraph_id(sp_Paragraph_character_spacing(s, a_spacing), b2_id) == sp_Paragraph_character_spacing(sp_Paragraph_id(s, b2_id), a_spacing),
    sp_Paragraph_indent(sp_Paragraph_character_spacing(s, a_spacing), b3_left, b3_special_indent, b3_end, b3_start_chars) == sp_Paragraph_character_spacing(sp_Paragraph_indent(s, b3_left, b3_special_indent, b3_end, b3_start_chars), a_spacing),
    sp_Paragraph_keep_lines(sp_Paragraph_character_spacing(s, a_spacing), b4_v) == sp_Paragraph_character_spacing(sp_Paragraph_keep_lines(s, b4_v), a_spacing),
    sp_Paragraph_keep_next(sp_Paragraph_character_spacing(s, a_spacing), b5_v) == sp_Paragraph_character_spacing(sp_Paragraph_keep_next(s, b5_v), a_spacing),
    sp_Paragraph_line_spacing(sp_Paragraph_character_spacing(s, a_spacing), b6_spacing) == sp_Paragraph_character_spacing(sp_Paragraph_line_spacing(s, b6_spacing), a_spacing),
    sp_Paragraph_numbering(sp_Paragraph_character_spacing(s, a_spacing), b7_id, b7_level) == sp_Paragraph_character_spacing(sp_Paragraph_numbering(s, b7_id, b7_level), a_spacing),
    sp_Paragraph_page_break_before(sp_Paragraph_character_spacing(s, a_spacing), b8_v) == sp_Paragraph_character_spacing(sp_Paragraph_page_break_before(s, b8_v), a_spacing),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_character_spacing(s, a_spacing), b9_p) == sp_Paragraph_character_spacing(sp_Paragraph_paragraph_property_change(s, b9_p), a_spacing),
    sp_Paragraph_section_property(sp_Paragraph_character_spacing(s, a_spacing), b10_s) == sp_Paragraph_character_spacing(sp_Paragraph_section_property(s, b10_s), a_spacing),
    sp_Paragraph_set_borders(sp_Paragraph_character_spacing(s, a_spacing), b11_borders) == sp_Paragraph_character_spacing(sp_Paragraph_set_borders(s, b11_borders), a_spacing),
    sp_Paragraph_snap_to_grid(sp_Paragraph_character_spacing(s, a_spacing), b12_v) == sp_Paragraph_character_spacing(sp_Paragraph_snap_to_grid(s, b12_v), a_spacing),
    sp_Paragraph_widow_control(sp_Paragraph_character_spacing(s, a_spacing), b13_v) == sp_Paragraph_character_spacing(sp_Paragraph_widow_control(s, b13_v), a_spacing),
{}
pub proof fn order_Paragraph_color(s: Paragraph, a_c: Seq<char>, b0_id: Seq<char>)
  ensures
    sp_Paragraph_id(sp_Paragraph_color(s, a_c), b0_id) == sp_Paragraph_color(sp_Paragraph_id(s, b0_id), a_c),
{}
pub proof fn order_Paragraph_delete(s: Paragraph, a_author: Seq<char>, a_date: Seq<char>, b0_id: Seq<char>)
  ensures
    sp_Paragraph_id(sp_Paragraph_delete(s, a_author, a_date), b0_id) == sp_Paragraph_delete(sp_Paragraph_id(s, b0_id), a_author, a_date),
{}
pub proof fn order_Paragraph_first_line_chars(s: Paragraph, a_chars: i32, b0_id: Seq<char>, b1_v: bool, b2_v: bool, b3_spacing: LineSpacing, b4_id: NumberingId, b4_level: IndentLevel, b5_v: bool, b6_p: ParagraphPropertyChange, b7_s: SectionProperty, b8_borders: ParagraphBorders, b9_v: bool, b10_v: bool)
  ensures
    sp_Paragraph_id(sp_Paragraph_first_line_chars(s, a_chars), b0_id) == sp_Paragraph_first_line_chars(sp_Paragraph_id(s, b0_id), a_chars),
    sp_Paragraph_keep_lines(sp_Paragraph_first_line_chars(s, a_chars), b1_v) == sp_Paragraph_first_line_chars(sp_Paragraph_keep_lines(s, b1_v), a_chars),
    sp_Paragraph_keep_next(sp_Paragraph_first_line_chars(s, a_chars), b2_v) == sp_Paragraph_first_line_chars(sp_Paragraph_keep_next(s, b2_v), a_chars),
    sp_Paragraph_line_spacing(sp_Paragraph_first_line_chars(s, a_chars), b3_spacing) == sp_Paragraph_first_line_chars(sp_Paragraph_line_spacing(s, b3_spacing), a_chars),
    sp_Paragraph_numbering(sp_Paragraph_first_line_chars(s, a_chars), b4_id, b4_level) == sp_Paragraph_first_line_chars(sp_Paragraph_numbering(s, b4_id, b4_level), a_chars),
    sp_Paragraph_page_break_before(sp_Paragraph_first_line_chars(s, a_chars), b5_v) == sp_Paragraph_first_line_chars(sp_Paragraph_page_break_before(s, b5_v), a_chars),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_first_line_chars(s, a_chars), b6_p) == sp_Paragraph_first_line_chars(sp_Paragraph_paragraph_property_change(s, b6_p), a_chars),
    sp_Paragraph_section_property(sp_Paragraph_first_line_chars(s, a_chars), b7_s) == sp_Paragraph_first_line_chars(sp_Paragraph_section_property(s, b7_s), a_chars),
    sp_Paragraph_set_borders(sp_Paragraph_first_line_chars(s, a_chars), b8_borders) == sp_Paragraph_first_line_chars(sp_Paragraph_set_borders(s, b8_borders), a_chars),
    sp_Paragraph_snap_to_grid(sp_Paragraph_first_line_chars(s, a_chars), b9_v) == sp_Paragraph_first_line_chars(sp_Paragraph_snap_to_grid(s, b9_v), a_chars),
    sp_Paragraph_widow_control(sp_Paragraph_first_line_chars(s, a_chars), b10_v) == sp_Paragraph_first_line_chars(sp_Paragraph_widow_control(s, b10_v), a_chars),
{}
pub proof fn order_Paragraph_fonts(s: Paragraph, a_f: RunFonts, b0_id: Seq<char>)
  ensures
    sp_Paragraph_id(sp_Paragraph_fonts(s, a_f), b0_id) == sp_Paragraph_fonts(sp_Paragraph_id(s, b0_id), a_f),
{}
pub proof fn order_Paragraph_hanging_chars(s: Paragraph, a_chars: i32, b0_id: Seq<char>, b1_v: bool, b2_v: bool, b3_spacing: LineSpacing, b4_id: NumberingId, b4_level: IndentLevel, b5_v: bool, b6_p: ParagraphPropertyChange, b7_s: SectionProperty, b8_borders: ParagraphBorders, b9_v: bool, b10_v: bool)
  ensures
    sp_Paragraph_id(sp_Paragraph_hanging_chars(s, a_chars), b0_id) == sp_Paragraph_hanging_chars(sp_Paragraph_id(s, b0_id), a_chars),
    sp_Paragraph_keep_lines(sp_Paragraph_hanging_chars(s, a_chars), b1_v) == sp_Paragraph_hanging_chars(sp_Paragraph_keep_lines(s, b1_v), a_chars),
    sp_Paragraph_keep_next(sp_Paragraph_hanging_chars(s, a_chars), b2_v) == sp_Paragraph_hanging_chars(sp_Paragraph_keep_next(s, b2_v), a_chars),
    sp_Paragraph_line_spacing(sp_Paragraph_hanging_chars(s, a_chars), b3_spacing) == sp_Paragraph_hanging_chars(sp_Paragraph_line_spacing(s, b3_spacing), a_chars),
    sp_Paragraph_numbering(sp_Paragraph_hanging_chars(s, a_chars), b4_id, b4_level) == sp_Paragraph_hanging_chars(sp_Paragraph_numbering(s, b4_id, b4_level), a_chars),
    sp_Paragraph_page_break_before(sp_Paragraph_hanging_chars(s, a_chars), b5_v) == sp_Paragraph_hanging_chars(sp_Paragraph_page_break_before(s, b5_v), a_chars),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_hanging_chars(s, a_chars), b6_p) == sp_Paragraph_hanging_chars(sp_Paragraph_paragraph_property_change(s, b6_p), a_chars),
    sp_Paragraph_section_property(sp_Paragraph_hanging_chars(s, a_chars), b7_s) == sp_Paragraph_hanging_chars(sp_Paragraph_section_property(s, b7_s), a_chars),
    sp_Paragraph_set_borders(sp_Paragraph_hanging_chars(s, a_chars), b8_borders) == sp_Paragraph_hanging_chars(sp_Paragraph_set_borders(s, b8_borders), a_chars),
    sp_Paragraph_snap_to_grid(sp_Paragraph_hanging_chars(s, a_chars), b9_v) == sp_Paragraph_hanging_chars(sp_Paragraph_snap_to_grid(s, b9_v), a_chars),
    sp_Paragraph_widow_control(sp_Paragraph_hanging_chars(s, a_chars), b10_v) == sp_Paragraph_hanging_chars(sp_Paragraph_widow_control(s, b10_v), a_chars),
{}
pub proof fn order_Paragraph_id(s: Paragraph, a_id: Seq<char>, b0_left: Option<i32>, b0_special_indent: Option<SpecialIndentType>, b0_end: Option<i32>, b0_start_chars: Option<i32>, b1_author: Seq<char>, b1_date: Seq<char>, b3_v: bool, b4_v: bool, b5_spacing: LineSpacing, b6_id: NumberingId, b6_level: IndentLevel, b7_v: bool, b8_p: ParagraphProperty, b9_p: ParagraphPropertyChange, b10_p: RunProperty, b11_s: SectionProperty, b12_borders: ParagraphBorders, b13_size: usize, b14_v: bool, b15_v: bool)
  ensures
    sp_Paragraph_indent(sp_Paragraph_id(s, a_id), b0_left, b0_special_indent, b0_end, b0_start_chars) == sp_Paragraph_id(sp_Paragraph_indent(s, b0_left, b0_special_indent, b0_end, b0_start_chars), a_id),
    sp_Paragraph_insert(sp_Paragraph_id(s, a_id), b1_author, b1_date) == sp_Paragraph_id(sp_Paragraph_insert(s, b1_author, b1_date), a_id),
    sp_Paragraph_italic(sp_Paragraph_id(s, a_id)) == sp_Paragraph_id(sp_Paragraph_italic(s), a_id),
    sp_Paragraph_keep_lines(sp_Paragraph_id(s, a_id), b3_v) == sp_Paragraph_id(sp_Paragraph_keep_lines(s, b3_v), a_id),
    sp_Paragraph_keep_next(sp_Paragraph_id(s, a_id), b4_v) == sp_Paragraph_id(sp_Paragraph_keep_next(s, b4_v), a_id),
    sp_Paragraph_line_spacing(sp_Paragraph_id(s, a_id), b5_spacing) == sp_Paragraph_id(sp_Paragraph_line_spacing(s, b5_spacing), a_id),
    sp_Paragraph_numbering(sp_Paragraph_id(s, a_id), b6_id, b6_level) == sp_Paragraph_id(sp_Paragraph_numbering(s, b6_id, b6_level), a_id),
    sp_Paragraph_page_break_before(sp_Paragraph_id(s, a_id), b7_v) == sp_Paragraph_id(sp_Paragraph_page_break_before(s, b7_v), a_id),
    sp_Paragraph_paragraph_property(sp_Paragraph_id(s, a_id), b8_p) == sp_Paragraph_id(sp_Paragraph_paragraph_property(s, b8_p), a_id),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_id(s, a_id), b9_p) == sp_Paragraph_id(sp_Paragraph_paragraph_property_change(s, b9_p), a_id),
    sp_Paragraph_run_property(sp_Paragraph_id(s, a_id), b10_p) == sp_Paragraph_id(sp_Paragraph_run_property(s, b10_p), a_id),
    sp_Paragraph_section_property(sp_Paragraph_id(s, a_id), b11_s) == sp_Paragraph_id(sp_Paragraph_section_property(s, b11_s), a_id),
    sp_Paragraph_set_borders(sp_Paragraph_id(s, a_id), b12_borders) == sp_Paragraph_id(sp_Paragraph_set_borders(s, b12_borders), a_id),
    sp_Paragraph_size(sp_Paragraph_id(s, a_id), b13_size) == sp_Paragraph_id(sp_Paragraph_size(s, b13_size), a_id),
    sp_Paragraph_snap_to_grid(sp_Paragraph_id(s, a_id), b14_v) == sp_Paragraph_id(sp_Paragraph_snap_to_grid(s, b14_v), a_id),
    sp_Paragraph_widow_control(sp_Paragraph_id(s, a_id), b15_v) == sp_Paragraph_id(sp_Paragraph_widow_control(s, b15_v), a_id),
{}
pub proof fn order_Paragraph_indent(s: Paragraph, a_left: Option<i32>, a_special_indent: Option<SpecialIndentType>, a_end: Option<i32>, a_start_chars: Option<i32>, b0_v: bool, b1_v: bool, b2_spacing: LineSpacing, b3_id: NumberingId, b3_level: IndentLevel, b4_v: bool, b5_p: ParagraphPropertyChange, b6_s: SectionProperty, b7_borders: ParagraphBorders, b8_v: bool, b9_v: bool)
  ensures
    sp_Paragraph_keep_lines(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b0_v) == sp_Paragraph_indent(sp_Paragraph_keep_lines(s, b0_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_keep_next(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b1_v) == sp_Paragraph_indent(sp_Paragraph_keep_next(s, b1_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_line_spacing(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b2_spacing) == sp_Paragraph_indent(sp_Paragraph_line_spacing(s, b2_spacing), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_numbering(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b3_id, b3_level) == sp_Paragraph_indent(sp_Paragraph_numbering(s, b3_id, b3_level), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_page_break_before(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b4_v) == sp_Paragraph_indent(sp_Paragraph_page_break_before(s, b4_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b5_p) == sp_Paragraph_indent(sp_Paragraph_paragraph_property_change(s, b5_p), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_section_property(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b6_s) == sp_Paragraph_indent(sp_Paragraph_section_property(s, b6_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_set_borders(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b7_borders) == sp_Paragraph_indent(sp_Paragraph_set_borders(s, b7_borders), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_snap_to_grid(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b8_v) == sp_Paragraph_indent(sp_Paragraph_snap_to_grid(s, b8_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Paragraph_widow_control(sp_Paragraph_indent(s, a_left, a_special_indent, a_end, a_start_chars), b9_v) == sp_Paragraph_indent(sp_Paragraph_widow_control(s, b9_v), a_left, a_special_indent, a_end, a_start_chars),
{}
pub proof fn order_Paragraph_keep_lines(s: Paragraph, a_v: bool, b0_v: bool, b1_spacing: LineSpacing, b2_id: NumberingId, b2_level: IndentLevel, b3_v: bool, b4_p: ParagraphPropertyChange, b5_s: SectionProperty, b6_borders: ParagraphBorders, b7_v: bool, b8_v: bool)
  ensures
    sp_Paragraph_keep_next(sp_Paragraph_keep_lines(s, a_v), b0_v) == sp_Paragraph_keep_lines(sp_Paragraph_keep_next(s, b0_v), a_v),
    sp_Paragraph_line_spacing(sp_Paragraph_keep_lines(s, a_v), b1_spacing) == sp_Paragraph_keep_lines(sp_Paragraph_line_spacing(s, b1_spacing), a_v),
    sp_Paragraph_numbering(sp_Paragraph_keep_lines(s, a_v), b2_id, b2_level) == sp_Paragraph_keep_lines(sp_Paragraph_numbering(s, b2_id, b2_level), a_v),
    sp_Paragraph_page_break_before(sp_Paragraph_keep_lines(s, a_v), b3_v) == sp_Paragraph_keep_lines(sp_Paragraph_page_break_before(s, b3_v), a_v),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_keep_lines(s, a_v), b4_p) == sp_Paragraph_keep_lines(sp_Paragraph_paragraph_property_change(s, b4_p), a_v),
    sp_Paragraph_section_property(sp_Paragraph_keep_lines(s, a_v), b5_s) == sp_Paragraph_keep_lines(sp_Paragraph_section_property(s, b5_s), a_v),
    sp_Paragraph_set_borders(sp_Paragraph_keep_lines(s, a_v), b6_borders) == sp_Paragraph_keep_lines(sp_Paragraph_set_borders(s, b6_borders), a_v),
    sp_Paragraph_snap_to_grid(sp_Paragraph_keep_lines(s, a_v), b7_v) == sp_Paragraph_keep_lines(sp_Paragraph_snap_to_grid(s, b7_v), a_v),
    sp_Paragraph_widow_control(sp_Paragraph_keep_lines(s, a_v), b8_v) == sp_Paragraph_keep_lines(sp_Paragraph_widow_control(s, b8_v), a_v),
{}
pub proof fn order_Paragraph_keep_next(s: Paragraph, a_v: bool, b0_spacing: LineSpacing, b1_id: NumberingId, b1_level: IndentLevel, b2_v: bool, b3_p: ParagraphPropertyChange, b4_s: SectionProperty, b5_borders: ParagraphBorders, b6_v: bool, b7_v: bool)
  ensures
    sp_Paragraph_line_spacing(sp_Paragraph_keep_next(s, a_v), b0_spacing) == sp_Paragraph_keep_next(sp_Paragraph_line_spacing(s, b0_spacing), a_v),
    sp_Paragraph_numbering(sp_Paragraph_keep_next(s, a_v), b1_id, b1_level) == sp_Paragraph_keep_next(sp_Paragraph_numbering(s, b1_id, b1_level), a_v),
    sp_Paragraph_page_break_before(sp_Paragraph_keep_next(s, a_v), b2_v) == sp_Paragraph_keep_next(sp_Paragraph_page_break_before(s, b2_v), a_v),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_keep_next(s, a_v), b3_p) == sp_Paragraph_keep_next(sp_Paragraph_paragraph_property_change(s, b3_p), a_v),
    sp_Paragraph_section_property(sp_Paragraph_keep_next(s, a_v), b4_s) == sp_Paragraph_keep_next(sp_Paragraph_section_property(s, b4_s), a_v),
    sp_Paragraph_set_borders(sp_Paragraph_keep_next(s, a_v), b5_borders) == sp_Paragraph_keep_next(sp_Paragraph_set_borders(s, b5_borders), a_v),
    sp_Paragraph_snap_to_grid(sp_Paragraph_keep_next(s, a_v), b6_v) == sp_Paragraph_keep_next(sp_Paragraph_snap_to_grid(s, b6_v), a_v),
    sp_Paragraph_widow_control(sp_Paragraph_keep_next(s, a_v), b7_v) == sp_Paragraph_keep_next(sp_Paragraph_widow_control(s, b7_v), a_v),
{}
pub proof fn order_Paragraph_line_spacing(s: Paragraph, a_spacing: LineSpacing, b0_id: NumberingId, b0_level: IndentLevel, b1_v: bool, b2_p: ParagraphPropertyChange, b3_s: SectionProperty, b4_borders: ParagraphBorders, b5_v: bool, b6_v: bool)
  ensures
    sp_Paragraph_numbering(sp_Paragraph_line_spacing(s, a_spacing), b0_id, b0_level) == sp_Paragraph_line_spacing(sp_Paragraph_numbering(s, b0_id, b0_level), a_spacing),
    sp_Paragraph_page_break_before(sp_Paragraph_line_spacing(s, a_spacing), b1_v) == sp_Paragraph_line_spacing(sp_Paragraph_page_break_before(s, b1_v), a_spacing),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_line_spacing(s, a_spacing), b2_p) == sp_Paragraph_line_spacing(sp_Paragraph_paragraph_property_change(s, b2_p), a_spacing),
    sp_Paragraph_section_property(sp_Paragraph_line_spacing(s, a_spacing), b3_s) == sp_Paragraph_line_spacing(sp_Paragraph_section_property(s, b3_s), a_spacing),
    sp_Paragraph_set_borders(sp_Paragraph_line_spacing(s, a_spacing), b4_borders) == sp_Paragraph_line_spacing(sp_Paragraph_set_borders(s, b4_borders), a_spacing),
    sp_Paragraph_snap_to_grid(sp_Paragraph_line_spacing(s, a_spacing), b5_v) == sp_Paragraph_line_spacing(sp_Paragraph_snap_to_grid(s, b5_v), a_spacing),
    sp_Paragraph_widow_control(sp_Paragraph_line_spacing(s, a_spacing), b6_v) == sp_Paragraph_line_spacing(sp_Paragraph_widow_control(s, b6_v), a_spacing),
{}
pub proof fn order_Paragraph_numbering(s: Paragraph, a_id: NumberingId, a_level: IndentLevel, b0_v: bool, b1_p: ParagraphPropertyChange, b2_s: SectionProperty, b3_borders: ParagraphBorders, b4_v: bool, b5_v: bool)
  ensures
    sp_Paragraph_page_break_before(sp_Paragraph_numbering(s, a_id, a_level), b0_v) == sp_Paragraph_numbering(sp_Paragraph_page_break_before(s, b0_v), a_id, a_level),
    sp_Paragraph_paragraph_property_change(sp_Paragraph_numbering(s, a_id, a_level), b1_p) == sp_Paragraph_numbering(sp_Paragraph_paragraph_property_change(s, b1_p), a_id, a_level),
    sp_Paragraph_section_property(sp_Paragraph_numbering(s, a_id, a_level), b2_s) == sp_Paragraph_numbering(sp_Paragraph_section_property(s, b2_s), a_id, a_level),
    sp_Paragraph_set_borders(sp_Paragraph_numbering(s, a_id, a_level), b3_borders) == sp_Paragraph_numbering(sp_Paragraph_set_borders(s, b3_borders), a_id, a_level),
    sp_Paragraph_snap_to_grid(sp_Paragraph_numbering(s, a_id, a_level), b4_v) == sp_Paragraph_numbering(sp_Paragraph_snap_to_grid(s, b4_v), a_id, a_level),
    sp_Paragraph_widow_control(sp_Paragraph_numbering(s, a_id, a_level), b5_v) == sp_Paragraph_numbering(sp_Paragraph_widow_control(s, b5_v), a_id, a_level),
{}
pub proof fn order_Paragraph_page_break_before(s: Paragraph, a_v: bool, b0_p: ParagraphPropertyChange, b1_s: SectionProperty, b2_borders: ParagraphBorders, b3_v: bool, b4_v: bool)
  ensures
    sp_Paragraph_paragraph_property_change(sp_Paragraph_page_break_before(s, a_v), b0_p) == sp_Paragraph_page_break_before(sp_Paragraph_paragraph_property_change(s, b0_p), a_v),
    sp_Paragraph_section_property(sp_Paragraph_page_break_before(s, a_v), b1_s) == sp_Paragraph_page_break_before(sp_Paragraph_section_property(s, b1_s), a_v),
    sp_Paragraph_set_borders(sp_Paragraph_page_break_before(s, a_v), b2_borders) == sp_Paragraph_page_break_before(sp_Paragraph_set_borders(s, b2_borders), a_v),
    sp_Paragraph_snap_to_grid(sp_Paragraph_page_break_before(s, a_v), b3_v) == sp_Paragraph_page_break_before(sp_Paragraph_snap_to_grid(s, b3_v), a_v),
    sp_Paragraph_widow_control(sp_Paragraph_page_break_before(s, a_v), b4_v) == sp_Paragraph_page_break_before(sp_Paragraph_widow_control(s, b4_v), a_v),
{}
pub proof fn order_Paragraph_paragraph_property_change(s: Paragraph, a_p: ParagraphPropertyChange, b0_s: SectionProperty, b1_borders: ParagraphBorders, b2_v: bool, b3_v: bool)
  ensures
    sp_Paragraph_section_property(sp_Paragraph_paragraph_property_change(s, a_p), b0_s) == sp_Paragraph_paragraph_property_change(sp_Paragraph_section_property(s, b0_s), a_p),
    sp_Paragraph_set_borders(sp_Paragraph_paragraph_property_change(s, a_p), b1_borders) == sp_Paragraph_paragraph_property_change(sp_Paragraph_set_borders(s, b1_borders), a_p),
    sp_Paragraph_snap_to_grid(sp_Paragraph_paragraph_property_change(s, a_p), b2_v) == sp_Paragraph_paragraph_property_change(sp_Paragraph_snap_to_grid(s, b2_v), a_p),
    sp_Paragraph_widow_control(sp_Paragraph_paragraph_property_change(s, a_p), b3_v) == sp_Paragraph_paragraph_property_change(sp_Paragraph_widow_control(s, b3_v), a_p),
{}
pub proof fn order_Paragraph_section_property(s: Paragraph, a_s: SectionProperty, b0_borders: ParagraphBorders, b1_v: bool, b2_v: bool)
  ensures
    sp_Paragraph_set_borders(sp_Paragraph_section_property(s, a_s), b0_borders) == sp_Paragraph_section_property(sp_Paragraph_set_borders(s, b0_borders), a_s),
    sp_Paragraph_snap_to_grid(sp_Paragraph_section_property(s, a_s), b1_v) == sp_Paragraph_section_property(sp_Paragraph_snap_to_grid(s, b1_v), a_s),
    sp_Paragraph_widow_control(sp_Paragraph_section_property(s, a_s), b2_v) == sp_Paragraph_section_property(sp_Paragraph_widow_control(s, b2_v), a_s),
{}
pub proof fn order_Paragraph_set_borders(s: Paragraph, a_borders: ParagraphBorders, b0_v: bool, b1_v: bool)
  ensures
    sp_Paragraph_snap_to_grid(sp_Paragraph_set_borders(s, a_borders), b0_v) == sp_Paragraph_set_borders(sp_Paragraph_snap_to_grid(s, b0_v), a_borders),
    sp_Paragraph_widow_control(sp_Paragraph_set_borders(s, a_borders), b1_v) == sp_Paragraph_set_borders(sp_Paragraph_widow_control(s, b1_v), a_borders),
{}
pub proof fn order_Paragraph_snap_to_grid(s: Paragraph, a_v: bool, b0_v: bool)
  ensures
    sp_Paragraph_widow_control(sp_Paragraph_snap_to_grid(s, a_v), b0_v) == sp_Paragraph_snap_to_grid(sp_Paragraph_widow_control(s, b0_v), a_v),
{}
pub proof fn order_Table_add_row(s: Table, a_row: TableRow, b0_v: TableAlignmentType, b2_position: TableBorderPosition, b3_v: i32, b4_t: TableLayoutType, b5_margins: TableCellMargins, b6_p: TablePositionProperty, b7_border: TableBorder, b8_borders: TableBorders, b9_grid: Vec<usize>, b10_s: Seq<char>, b11_w: usize, b11_t: WidthType)
  ensures
    sp_Table_align(sp_Table_add_row(s, a_row), b0_v) == sp_Table_add_row(sp_Table_align(s, b0_v), a_row),
    sp_Table_clear_all_border(sp_Table_add_row(s, a_row)) == sp_Table_add_row(sp_Table_clear_all_border(s), a_row),
    sp_Table_clear_border(sp_Table_add_row(s, a_row), b2_position) == sp_Table_add_row(sp_Table_clear_border(s, b2_position), a_row),
    sp_Table_indent(sp_Table_add_row(s, a_row), b3_v) == sp_Table_add_row(sp_Table_indent(s, b3_v), a_row),
    sp_Table_layout(sp_Table_add_row(s, a_row), b4_t) == sp_Table_add_row(sp_Table_layout(s, b4_t), a_row),
    sp_Table_margins(sp_Table_add_row(s, a_row), b5_margins) == sp_Table_add_row(sp_Table_margins(s, b5_margins), a_row),
    sp_Table_position(sp_Table_add_row(s, a_row), b6_p) == sp_Table_add_row(sp_Table_position(s, b6_p), a_row),
    sp_Table_set_border(sp_Table_add_row(s, a_row), b7_border) == sp_Table_add_row(sp_Table_set_border(s, b7_border), a_row),
    sp_Table_set_borders(sp_Table_add_row(s, a_row), b8_borders) == sp_Table_add_row(sp_Table_set_borders(s, b8_borders), a_row),
    sp_Table_set_grid(sp_Table_add_row(s, a_row), b9_grid) == sp_Table_add_row(sp_Table_set_grid(s, b9_grid), a_row),
    sp_Table_style(sp_Table_add_row(s, a_row), b10_s) == sp_Table_add_row(sp_Table_style(s, b10_s), a_row),
    sp_Table_width(sp_Table_add_row(s, a_row), b11_w, b11_t) == sp_Table_add_row(sp_Table_width(s, b11_w, b11_t), a_row),
{}
pub proof fn order_Table_align(s: Table, a_v: TableAlignmentType, b1_position: TableBorderPosition, b2_v: i32, b3_t: TableLayoutType, b4_margins: TableCellMargins, b5_p: TablePositionProperty, b6_border: TableBorder, b7_borders: TableBorders, b8_grid: Vec<usize>, b9_s: Seq<char>, b10_w: usize, b10_t: WidthType)
  ensures
    sp_Table_clear_all_border(sp_Table_align(s, a_v)) == sp_Table_align(sp_Table_clear_all_border(s), a_v),
    sp_Table_clear_border(sp_Table_align(s, a_v), b1_position) == sp_Table_align(sp_Table_clear_border(s, b1_position), a_v),
    sp_Table_indent(sp_Table_align(s, a_v), b2_v) == sp_Table_align(sp_Table_indent(s, b2_v), a_v),
    sp_Table_layout(sp_Table_align(s, a_v), b3_t) == sp_Table_align(sp_Table_layout(s, b3_t), a_v),
    sp_Table_margins(sp_Table_align(s, a_v), b4_margins) == sp_Table_align(sp_Table_margins(s, b4_margins), a_v),
    sp_Table_position(sp_Table_align(s, a_v), b5_p) == sp_Table_align(sp_Table_position(s, b5_p), a_v),
    sp_Table_set_border(sp_Table_align(s, a_v), b6_border) == sp_Table_align(sp_Table_set_border(s, b6_border), a_v),
    sp_Table_set_borders(sp_Table_align(s, a_v), b7_borders) == sp_Table_align(sp_Table_set_borders(s, b7_borders), a_v),
    sp_Table_set_grid(sp_Table_align(s, a_v), b8_grid) == sp_Table_align(sp_Table_set_grid(s, b8_grid), a_v),
    sp_Table_style(sp_Table_align(s, a_v), b9_s) == sp_Table_align(sp_Table_style(s, b9_s), a_v),
    sp_Table_width(sp_Table_align(s, a_v), b10_w, b10_t) == sp_Table_align(sp_Table_width(s, b10_w, b10_t), a_v),
{}
pub proof fn order_Table_clear_all_border(s: Table, b0_v: i32, b1_t: TableLayoutType, b2_margins: TableCellMargins, b3_p: TablePositionProperty, b4_grid: Vec<usize>, b5_s: Seq<char>, b6_w: usize, b6_t: WidthType)
  ensures
    sp_Table_indent(sp_Table_clear_all_border(s), b0_v) == sp_Table_clear_all_border(sp_Table_indent(s, b0_v)),
    sp_Table_layout(sp_Table_clear_all_border(s), b1_t) == sp_Table_clear_all_border(sp_Table_layout(s, b1_t)),
    sp_Table_margins(sp_Table_clear_all_border(s), b2_margins) == sp_Table_clear_all_border(sp_Table_margins(s, b2_margins)),
    sp_Table_position(sp_Table_clear_all_border(s), b3_p) == sp_Table_clear_all_border(sp_Table_position(s, b3_p)),
    sp_Table_set_grid(sp_Table_clear_all_border(s), b4_grid) == sp_Table_clear_all_border(sp_Table_set_grid(s, b4_grid)),
    sp_Table_style(sp_Table_clear_all_border(s), b5_s) == sp_Table_clear_all_border(sp_Table_style(s, b5_s)),
    sp_Table_width(sp_Table_clear_all_border(s), b6_w, b6_t) == sp_Table_clear_all_border(sp_Table_width(s, b6_w, b6_t)),
{}
pub proof fn order_Table_clear_border(s: Table, a_position: TableBorderPosition, b0_v: i32, b1_t: TableLayoutType, b2_margins: TableCellMargins, b3_p: TablePositionProperty, b4_grid: Vec<usize>, b5_s: Seq<char>, b6_w: usize, b6_t: WidthType)
  ensures
    sp_Table_indent(sp_Table_clear_border(s, a_position), b0_v) == sp_Table_clear_border(sp_Table_indent(s, b0_v), a_position),
    sp_Table_layout(sp_Table_clear_border(s, a_position), b1_t) == sp_Table_clear_border(sp_Table_layout(s, b1_t), a_position),
    sp_Table_margins(sp_Table_clear_border(s, a_position), b2_margins) == sp_Table_clear_border(sp_Table_margins(s, b2_margins), a_position),
    sp_Table_position(sp_Table_clear_border(s, a_position), b3_p) == sp_Table_clear_border(sp_Table_position(s, b3_p), a_position),
    sp_Table_set_grid(sp_Table_clear_border(s, a_position), b4_grid) == sp_Table_clear_border(sp_Table_set_grid(s, b4_grid), a_position),
    sp_Table_style(sp_Table_clear_border(s, a_position), b5_s) == sp_Table_clear_border(sp_Table_style(s, b5_s), a_position),
    sp_Table_width(sp_Table_clear_border(s, a_position), b6_w, b6_t) == sp_Table_clear_border(sp_Table_width(s, b6_w, b6_t), a_position),
{}
pub proof fn order_Table_indent(s: Table, a_v: i32, b0_t: TableLayoutType, b1_margins: TableCellMargins, b2_p: TablePositionProperty, b3_border: TableBorder, b4_borders: TableBorders, b5_grid: Vec<usize>, b6_s: Seq<char>, b7_w: usize, b7_t: WidthType)
  ensures
    sp_Table_layout(sp_Table_indent(s, a_v), b0_t) == sp_Table_indent(sp_Table_layout(s, b0_t), a_v),
    sp_Table_margins(sp_Table_indent(s, a_v), b1_margins) == sp_Table_indent(sp_Table_margins(s, b1_margins), a_v),
    sp_Table_position(sp_Table_indent(s, a_v), b2_p) == sp_Table_indent(sp_Table_position(s, b2_p), a_v),
    sp_Table_set_border(sp_Table_indent(s, a_v), b3_border) == sp_Table_indent(sp_Table_set_border(s, b3_border), a_v),
    sp_Table_set_borders(sp_Table_indent(s, a_v), b4_borders) == sp_Table_indent(sp_Table_set_borders(s, b4_borders), a_v),
    sp_Table_set_grid(sp_Table_indent(s, a_v), b5_grid) == sp_Table_indent(sp_Table_set_grid(s, b5_grid), a_v),
    sp_Table_style(sp_Table_indent(s, a_v), b6_s) == sp_Table_indent(sp_Table_style(s, b6_s), a_v),
    sp_Table_width(sp_Table_indent(s, a_v), b7_w, b7_t) == sp_Table_indent(sp_Table_width(s, b7_w, b7_t), a_v),
{}
pub proof fn order_Table_layout(s: Table, a_t: TableLayoutType, b0_margins: TableCellMargins, b1_p: TablePositionProperty, b2_border: TableBorder, b3_borders: TableBorders, b4_grid: Vec<usize>, b5_s: Seq<char>, b6_w: usize, b6_t: WidthType)
  ensures
    sp_Table_margins(sp_Table_layout(s, a_t), b0_margins) == sp_Table_layout(sp_Table_margins(s, b0_margins), a_t),
    sp_Table_position(sp_Table_layout(s, a_t), b1_p) == sp_Table_layout(sp_Table_position(s, b1_p), a_t),
    sp_Table_set_border(sp_Table_layout(s, a_t), b2_border) == sp_Table_layout(sp_Table_set_border(s, b2_border), a_t),
    sp_Table_set_borders(sp_Table_layout(s, a_t), b3_borders) == sp_Table_layout(sp_Table_set_borders(s, b3_borders), a_t),
    sp_Table_set_grid(sp_Table_layout(s, a_t), b4_grid) == sp_Table_layout(sp_Table_set_grid(s, b4_grid), a_t),
    sp_Table_style(sp_Table_layout(s, a_t), b5_s) == sp_Table_layout(sp_Table_style(s, b5_s), a_t),
    sp_Table_width(sp_Table_layout(s, a_t), b6_w, b6_t) == sp_Table_layout(sp_Table_width(s, b6_w, b6_t), a_t),
{}
pub proof fn order_Table_margins(s: Table, a_margins: TableCellMargins, b0_p: TablePositionProperty, b1_border: TableBorder, b2_borders: TableBorders, b3_grid: Vec<usize>, b4_s: Seq<char>, b5_w: usize, b5_t: WidthType)
  ensures
    sp_Table_position(sp_Table_margins(s, a_margins), b0_p) == sp_Table_margins(sp_Table_position(s, b0_p), a_margins),
    sp_Table_set_border(sp_Table_margins(s, a_margins), b1_border) == sp_Table_margins(sp_Table_set_border(s, b1_border), a_margins),
    sp_Table_set_borders(sp_Table_margins(s, a_margins), b2_borders) == sp_Table_margins(sp_Table_set_borders(s, b2_borders), a_margins),
    sp_Table_set_grid(sp_Table_margins(s, a_margins), b3_grid) == sp_Table_margins(sp_Table_set_grid(s, b3_grid), a_margins),
    sp_Table_style(sp_Table_margins(s, a_margins), b4_s) == sp_Table_margins(sp_Table_style(s, b4_s), a_margins),
    sp_Table_width(sp_Table_margins(s, a_margins), b5_w, b5_t) == sp_Table_margins(sp_Table_width(s, b5_w, b5_t), a_margins),
{}
pub proof fn order_Table_position(s: Table, a_p: TablePositionProperty, b0_border: TableBorder, b1_borders: TableBorders, b2_grid: Vec<usize>, b3_s: Seq<char>, b4_w: usize, b4_t: WidthType)
  ensures
    sp_Table_set_border(sp_Table_position(s, a_p), b0_border) == sp_Table_position(sp_Table_set_border(s, b0_border), a_p),
    sp_Table_set_borders(sp_Table_position(s, a_p), b1_borders) == sp_Table_position(sp_Table_set_borders(s, b1_borders), a_p),
    sp_Table_set_grid(sp_Table_position(s, a_p), b2_grid) == sp_Table_position(sp_Table_set_grid(s, b2_grid), a_p),
    sp_Table_style(sp_Table_position(s, a_p), b3_s) == sp_Table_position(sp_Table_style(s, b3_s), a_p),
    sp_Table_width(sp_Table_position(s, a_p), b4_w, b4_t) == sp_Table_position(sp_Table_width(s, b4_w, b4_t), a_p),
{}
pub proof fn order_Table_set_border(s: Table, a_border: TableBorder, b0_grid: Vec<usize>, b1_s: Seq<char>, b2_w: usize, b2_t: WidthType)
  ensures
    sp_Table_set_grid(sp_Table_set_border(s, a_border), b0_grid) == sp_Table_set_border(sp_Table_set_grid(s, b0_grid), a_border),
    sp_Table_style(sp_Table_set_border(s, a_border), b1_s) == sp_Table_set_border(sp_Table_style(s, b1_s), a_border),
    sp_Table_width(sp_Table_set_border(s, a_border), b2_w, b2_t) == sp_Table_set_border(sp_Table_width(s, b2_w, b2_t), a_border),
{}
pub proof fn order_Table_set_borders(s: Table, a_borders: TableBorders, b0_grid: Vec<usize>, b1_s: Seq<char>, b2_w: usize, b2_t: WidthType)
  ensures
    sp_Table_set_grid(sp_Table_set_borders(s, a_borders), b0_grid) == sp_Table_set_borders(sp_Table_set_grid(s, b0_grid), a_borders),
    sp_Table_style(sp_Table_set_borders(s, a_borders), b1_s) == sp_Table_set_borders(sp_Table_style(s, b1_s), a_borders),
    sp_Table_width(sp_Table_set_borders(s, a_borders), b2_w, b2_t) == sp_Table_set_borders(sp_Table_width(s, b2_w, b2_t), a_borders),
{}
pub proof fn order_Table_set_grid(s: Table, a_grid: Vec<usize>, b0_s: Seq<char>, b1_w: usize, b1_t: WidthType)
  ensures
    sp_Table_style(sp_Table_set_grid(s, a_grid), b0_s) == sp_Table_set_grid(sp_Table_style(s, b0_s), a_grid),
    sp_Table_width(sp_Table_set_grid(s, a_grid), b1_w, b1_t) == sp_Table_set_grid(sp_Table_width(s, b1_w, b1_t), a_grid),
{}
pub proof fn order_Table_style(s: Table, a_s: Seq<char>, b0_w: usize, b0_t: WidthType)
  ensures
    sp_Table_width(sp_Table_style(s, a_s), b0_w, b0_t) == sp_Table_style(sp_Table_width(s, b0_w, b0_t), a_s),
{}
pub proof fn order_TableRow_cant_split(s: TableRow, b0_d: Delete, b1_grid_after: u32, b2_grid_before: u32, b3_r: HeightRule, b4_i: Insert, b5_h: f32, b6_w: f32, b7_w: f32)
  ensures
    sp_TableRow_delete(sp_TableRow_cant_split(s), b0_d) == sp_TableRow_cant_split(sp_TableRow_delete(s, b0_d)),
    sp_TableRow_grid_after(sp_TableRow_cant_split(s), b1_grid_after) == sp_TableRow_cant_split(sp_TableRow_grid_after(s, b1_grid_after)),
    sp_TableRow_grid_before(sp_TableRow_cant_split(s), b2_grid_before) == sp_TableRow_cant_split(sp_TableRow_grid_before(s, b2_grid_before)),
    sp_TableRow_height_rule(sp_TableRow_cant_split(s), b3_r) == sp_TableRow_cant_split(sp_TableRow_height_rule(s, b3_r)),
    sp_TableRow_insert(sp_TableRow_cant_split(s), b4_i) == sp_TableRow_cant_split(sp_TableRow_insert(s, b4_i)),
    sp_TableRow_row_height(sp_TableRow_cant_split(s), b5_h) == sp_TableRow_cant_split(sp_TableRow_row_height(s, b5_h)),
    sp_TableRow_width_after(sp_TableRow_cant_split(s), b6_w) == sp_TableRow_cant_split(sp_TableRow_width_after(s, b6_w)),
    sp_TableRow_width_before(sp_TableRow_cant_split(s), b7_w) == sp_TableRow_cant_split(sp_TableRow_width_before(s, b7_w)),
{}
pub proof fn order_TableRow_delete(s: TableRow, a_d: Delete, b0_grid_after: u32, b1_grid_before: u32, b2_r: HeightRule, b3_i: Insert, b4_h: f32, b5_w: f32, b6_w: f32)
  ensures
    sp_TableRow_grid_after(sp_TableRow_delete(s, a_d), b0_grid_after) == sp_TableRow_delete(sp_TableRow_grid_after(s, b0_grid_after), a_d),
    sp_TableRow_grid_before(sp_TableRow_delete(s, a_d), b1_grid_before) == sp_TableRow_delete(sp_TableRow_grid_before(s, b1_grid_before), a_d),
    sp_TableRow_height_rule(sp_TableRow_delete(s, a_d), b2_r) == sp_TableRow_delete(sp_TableRow_height_rule(s, b2_r), a_d),
    sp_TableRow_insert(sp_TableRow_delete(s, a_d), b3_i) == sp_TableRow_delete(sp_TableRow_insert(s, b3_i), a_d),
    sp_TableRow_row_height(sp_TableRow_delete(s, a_d), b4_h) == sp_TableRow_delete(sp_TableRow_row_height(s, b4_h), a_d),
    sp_TableRow_width_after(sp_TableRow_delete(s, a_d), b5_w) == sp_TableRow_delete(sp_TableRow_width_after(s, b5_w), a_d),
    sp_TableRow_width_before(sp_TableRow_delete(s, a_d), b6_w) == sp_TableRow_delete(sp_TableRow_width_before(s, b6_w), a_d),
{}
pub proof fn order_TableRow_grid_after(s: TableRow, a_grid_after: u32, b0_grid_before: u32, b1_r: HeightRule, b2_i: Insert, b3_h: f32, b4_w: f32, b5_w: f32)
  ensures
    sp_TableRow_grid_before(sp_TableRow_grid_after(s, a_grid_after), b0_grid_before) == sp_TableRow_grid_after(sp_TableRow_grid_before(s, b0_grid_before), a_grid_after),
    sp_TableRow_height_rule(sp_TableRow_grid_after(s, a_grid_after), b1_r) == sp_TableRow_grid_after(sp_TableRow_height_rule(s, b1_r), a_grid_after),
    sp_TableRow_insert(sp_TableRow_grid_after(s, a_grid_after), b2_i) == sp_TableRow_grid_after(sp_TableRow_insert(s, b2_i), a_grid_after),
    sp_TableRow_row_height(sp_TableRow_grid_after(s, a_grid_after), b3_h) == sp_TableRow_grid_after(sp_TableRow_row_height(s, b3_h), a_grid_after),
    sp_TableRow_width_after(sp_TableRow_grid_after(s, a_grid_after), b4_w) == sp_TableRow_grid_after(sp_TableRow_width_after(s, b4_w), a_grid_after),
    sp_TableRow_width_before(sp_TableRow_grid_after(s, a_grid_after), b5_w) == sp_TableRow_grid_after(sp_TableRow_width_before(s, b5_w), a_grid_after),
{}
pub proof fn order_TableRow_grid_before(s: TableRow, a_grid_before: u32, b0_r: HeightRule, b1_i: Insert, b2_h: f32, b3_w: f32, b4_w: f32)
  ensures
    sp_TableRow_height_rule(sp_TableRow_grid_before(s, a_grid_before), b0_r) == sp_TableRow_grid_before(sp_TableRow_height_rule(s, b0_r), a_grid_before),
    sp_TableRow_insert(sp_TableRow_grid_before(s, a_grid_before), b1_i) == sp_TableRow_grid_before(sp_TableRow_insert(s, b1_i), a_grid_before),
    sp_TableRow_row_height(sp_TableRow_grid_before(s, a_grid_before), b2_h) == sp_TableRow_grid_before(sp_TableRow_row_height(s, b2_h), a_grid_before),
    sp_TableRow_width_after(sp_TableRow_grid_before(s, a_grid_before), b3_w) == sp_TableRow_grid_before(sp_TableRow_width_after(s, b3_w), a_grid_before),
    sp_TableRow_width_before(sp_TableRow_grid_before(s, a_grid_before), b4_w) == sp_TableRow_grid_before(sp_TableRow_width_before(s, b4_w), a_grid_before),
{}
pub proof fn order_TableRow_height_rule(s: TableRow, a_r: HeightRule, b0_i: Insert, b1_h: f32, b2_w: f32, b3_w: f32)
  ensures
    sp_TableRow_insert(sp_TableRow_height_rule(s, a_r), b0_i) == sp_TableRow_height_rule(sp_TableRow_insert(s, b0_i), a_r),
    sp_TableRow_row_height(sp_TableRow_height_rule(s, a_r), b1_h) == sp_TableRow_height_rule(sp_TableRow_row_height(s, b1_h), a_r),
    sp_TableRow_width_after(sp_TableRow_height_rule(s, a_r), b2_w) == sp_TableRow_height_rule(sp_TableRow_width_after(s, b2_w), a_r),
    sp_TableRow_width_before(sp_TableRow_height_rule(s, a_r), b3_w) == sp_TableRow_height_rule(sp_TableRow_width_before(s, b3_w), a_r),
{}
pub proof fn order_TableRow_insert(s: TableRow, a_i: Insert, b0_h: f32, b1_w: f32, b2_w: f32)
  ensures
    sp_TableRow_row_height(sp_TableRow_insert(s, a_i), b0_h) == sp_TableRow_insert(sp_TableRow_row_height(s, b0_h), a_i),
    sp_TableRow_width_after(sp_TableRow_insert(s, a_i), b1_w) == sp_TableRow_insert(sp_TableRow_width_after(s, b1_w), a_i),
    sp_TableRow_width_before(sp_TableRow_insert(s, a_i), b2_w) == sp_TableRow_insert(sp_TableRow_width_before(s, b2_w), a_i),
{}
pub proof fn order_TableRow_row_height(s: TableRow, a_h: f32, b0_w: f32, b1_w: f32)
  ensures
    sp_TableRow_width_after(sp_TableRow_row_height(s, a_h), b0_w) == sp_TableRow_row_height(sp_TableRow_width_after(s, b0_w), a_h),
    sp_TableRow_width_before(sp_TableRow_row_height(s, a_h), b1_w) == sp_TableRow_row_height(sp_TableRow_width_before(s, b1_w), a_h),
{}
pub proof fn order_TableRow_width_after(s: TableRow, a_w: f32, b0_w: f32)
  ensures
    sp_TableRow_width_before(sp_TableRow_width_after(s, a_w), b0_w) == sp_TableRow_width_after(sp_TableRow_width_before(s, b0_w), a_w),
{}
pub proof fn order_TableCell_add_paragraph(s: TableCell, a_p: Paragraph, b0_position: TableCellBorderPosition, b1_v: usize, b2_border: TableCellBorder, b3_borders: TableCellBorders, b4_s: Shading, b5_t: TextDirectionType, b6_t: VAlignType, b7_t: VMergeType, b8_v: usize, b8_t: WidthType)
  ensures
    sp_TableCell_clear_border(sp_TableCell_add_paragraph(s, a_p), b0_position) == sp_TableCell_add_paragraph(sp_TableCell_clear_border(s, b0_position), a_p),
    sp_TableCell_grid_span(sp_TableCell_add_paragraph(s, a_p), b1_v) == sp_TableCell_add_paragraph(sp_TableCell_grid_span(s, b1_v), a_p),
    sp_TableCell_set_border(sp_TableCell_add_paragraph(s, a_p), b2_border) == sp_TableCell_add_paragraph(sp_TableCell_set_border(s, b2_border), a_p),
    sp_TableCell_set_borders(sp_TableCell_add_paragraph(s, a_p), b3_borders) == sp_TableCell_add_paragraph(sp_TableCell_set_borders(s, b3_borders), a_p),
    sp_TableCell_shading(sp_TableCell_add_paragraph(s, a_p), b4_s) == sp_TableCell_add_paragraph(sp_TableCell_shading(s, b4_s), a_p),
    sp_TableCell_text_direction(sp_TableCell_add_paragraph(s, a_p), b5_t) == sp_TableCell_add_paragraph(sp_TableCell_text_direction(s, b5_t), a_p),
    sp_TableCell_vertical_align(sp_TableCell_add_paragraph(s, a_p), b6_t) == sp_TableCell_add_paragraph(sp_TableCell_vertical_align(s, b6_t), a_p),
    sp_TableCell_vertical_merge(sp_TableCell_add_paragraph(s, a_p), b7_t) == sp_TableCell_add_paragraph(sp_TableCell_vertical_merge(s, b7_t), a_p),
    sp_TableCell_width(sp_TableCell_add_paragraph(s, a_p), b8_v, b8_t) == sp_TableCell_add_paragraph(sp_TableCell_width(s, b8_v, b8_t), a_p),
{}
pub proof fn order_TableCell_add_structured_data_tag(s: TableCell, a_t: StructuredDataTag, b0_position: TableCellBorderPosition, b1_v: usize, b2_border: TableCellBorder, b3_borders: TableCellBorders, b4_s: Shading, b5_t: TextDirectionType, b6_t: VAlignType, b7_t: VMergeType, b8_v: usize, b8_t: WidthType)
  ensures
    sp_TableCell_clear_border(sp_TableCell_add_structured_data_tag(s, a_t), b0_position) == sp_TableCell_add_structured_data_tag(sp_TableCell_clear_border(s, b0_position), a_t),
    sp_TableCell_grid_span(sp_TableCell_add_structured_data_tag(s, a_t), b1_v) == sp_TableCell_add_structured_data_tag(sp_TableCell_grid_span(s, b1_v), a_t),
    sp_TableCell_set_border(sp_TableCell_add_structured_data_tag(s, a_t), b2_border) == sp_TableCell_add_structured_data_tag(sp_TableCell_set_border(s, b2_border), a_t),
    sp_TableCell_set_borders(sp_TableCell_add_structured_data_tag(s, a_t), b3_borders) == sp_TableCell_add_structured_data_tag(sp_TableCell_set_borders(s, b3_borders), a_t),
    sp_TableCell_shading(sp_TableCell_add_structured_data_tag(s, a_t), b4_s) == sp_TableCell_add_structured_data_tag(sp_TableCell_shading(s, b4_s), a_t),
    sp_TableCell_text_direction(sp_TableCell_add_structured_data_tag(s, a_t), b5_t) == sp_TableCell_add_structured_data_tag(sp_TableCell_text_direction(s, b5_t), a_t),
    sp_TableCell_vertical_align(sp_TableCell_add_structured_data_tag(s, a_t), b6_t) == sp_TableCell_add_structured_data_tag(sp_TableCell_vertical_align(s, b6_t), a_t),
    sp_TableCell_vertical_merge(sp_TableCell_add_structured_data_tag(s, a_t), b7_t) == sp_TableCell_add_structured_data_tag(sp_TableCell_vertical_merge(s, b7_t), a_t),
    sp_TableCell_width(sp_TableCell_add_structured_data_tag(s, a_t), b8_v, b8_t) == sp_TableCell_add_structured_data_tag(sp_TableCell_width(s, b8_v, b8_t), a_t),
{}
pub proof fn order_TableCell_add_table(s: TableCell, a_t: Table, b0_position: TableCellBorderPosition, b1_v: usize, b2_border: TableCellBorder, b3_borders: TableCellBorders, b4_s: Shading, b5_t: TextDirectionType, b6_t: VAlignType, b7_t: VMergeType, b8_v: usize, b8_t: WidthType)
  ensures
    sp_TableCell_clear_border(sp_TableCell_add_table(s, a_t), b0_position) == sp_TableCell_add_table(sp_TableCell_clear_border(s, b0_position), a_t),
    sp_TableCell_grid_span(sp_TableCell_add_table(s, a_t), b1_v) == sp_TableCell_add_table(sp_TableCell_grid_span(s, b1_v), a_t),
    sp_TableCell_set_border(sp_TableCell_add_table(s, a_t), b2_border) == sp_TableCell_add_table(sp_TableCell_set_border(s, b2_border), a_t),
    sp_TableCell_set_borders(sp_TableCell_add_table(s, a_t), b3_borders) == sp_TableCell_add_table(sp_TableCell_set_borders(s, b3_borders), a_t),
    sp_TableCell_shading(sp_TableCell_add_table(s, a_t), b4_s) == sp_TableCell_add_table(sp_TableCell_shading(s, b4_s), a_t),
    sp_TableCell_text_direction(sp_TableCell_add_table(s, a_t), b5_t) == sp_TableCell_add_table(sp_TableCell_text_direction(s, b5_t), a_t),
    sp_TableCell_vertical_align(sp_TableCell_add_table(s, a_t), b6_t) == sp_TableCell_add_table(sp_TableCell_vertical_align(s, b6_t), a_t),
    sp_TableCell_vertical_merge(sp_TableCell_add_table(s, a_t), b7_t) == sp_TableCell_add_table(sp_TableCell_vertical_merge(s, b7_t), a_t),
    sp_TableCell_width(sp_TableCell_add_table(s, a_t), b8_v, b8_t) == sp_TableCell_add_table(sp_TableCell_width(s, b8_v, b8_t), a_t),
{}
pub proof fn order_TableCell_add_table_of_contents(s: TableCell, a_t: TableOfContents, b0_position: TableCellBorderPosition, b1_v: usize, b2_border: TableCellBorder, b3_borders: TableCellBorders, b4_s: Shading, b5_t: TextDirectionType, b6_t: VAlignType, b7_t: VMergeType, b8_v: usize, b8_t: WidthType)
  ensures
    sp_TableCell_clear_border(sp_TableCell_add_table_of_contents(s, a_t), b0_position) == sp_TableCell_add_table_of_contents(sp_TableCell_clear_border(s, b0_position), a_t),
    sp_TableCell_grid_span(sp_TableCell_add_table_of_contents(s, a_t), b1_v) == sp_TableCell_add_table_of_contents(sp_TableCell_grid_span(s, b1_v), a_t),
    sp_TableCell_set_border(sp_TableCell_add_table_of_contents(s, a_t), b2_border) == sp_TableCell_add_table_of_contents(sp_TableCell_set_border(s, b2_border), a_t),
    sp_TableCell_set_borders(sp_TableCell_add_table_of_contents(s, a_t), b3_borders) == sp_TableCell_add_table_of_contents(sp_TableCell_set_borders(s, b3_borders), a_t),
    sp_TableCell_shading(sp_TableCell_add_table_of_contents(s, a_t), b4_s) == sp_TableCell_add_table_of_contents(sp_TableCell_shading(s, b4_s), a_t),
    sp_TableCell_text_direction(sp_TableCell_add_table_of_contents(s, a_t), b5_t) == sp_TableCell_add_table_of_contents(sp_TableCell_text_direction(s, b5_t), a_t),
    sp_TableCell_vertical_align(sp_TableCell_add_table_of_contents(s, a_t), b6_t) == sp_TableCell_add_table_of_contents(sp_TableCell_vertical_align(s, b6_t), a_t),
    sp_TableCell_vertical_merge(sp_TableCell_add_table_of_contents(s, a_t), b7_t) == sp_TableCell_add_table_of_contents(sp_TableCell_vertical_merge(s, b7_t), a_t),
    sp_TableCell_width(sp_TableCell_add_table_of_contents(s, a_t), b8_v, b8_t) == sp_TableCell_add_table_of_contents(sp_TableCell_width(s, b8_v, b8_t), a_t),
{}
pub proof fn order_TableCell_clear_border(s: TableCell, a_position: TableCellBorderPosition, b0_v: usize, b1_s: Shading, b2_t: TextDirectionType, b3_t: VAlignType, b4_t: VMergeType, b5_v: usize, b5_t: WidthType)
  ensures
    sp_TableCell_grid_span(sp_TableCell_clear_border(s, a_position), b0_v) == sp_TableCell_clear_border(sp_TableCell_grid_span(s, b0_v), a_position),
    sp_TableCell_shading(sp_TableCell_clear_border(s, a_position), b1_s) == sp_TableCell_clear_border(sp_TableCell_shading(s, b1_s), a_position),
    sp_TableCell_text_direction(sp_TableCell_clear_border(s, a_position), b2_t) == sp_TableCell_clear_border(sp_TableCell_text_direction(s, b2_t), a_position),
    sp_TableCell_vertical_align(sp_TableCell_clear_border(s, a_position), b3_t) == sp_TableCell_clear_border(sp_TableCell_vertical_align(s, b3_t), a_position),
    sp_TableCell_vertical_merge(sp_TableCell_clear_border(s, a_position), b4_t) == sp_TableCell_clear_border(sp_TableCell_vertical_merge(s, b4_t), a_position),
    sp_TableCell_width(sp_TableCell_clear_border(s, a_position), b5_v, b5_t) == sp_TableCell_clear_border(sp_TableCell_width(s, b5_v, b5_t), a_position),
{}
pub proof fn order_TableCell_grid_span(s: TableCell, a_v: usize, b0_border: TableCellBorder, b1_borders: TableCellBorders, b2_s: Shading, b3_t: TextDirectionType, b4_t: VAlignType, b5_t: VMergeType, b6_v: usize, b6_t: WidthType)
  ensures
    sp_TableCell_set_border(sp_TableCell_grid_span(s, a_v), b0_border) == sp_TableCell_grid_span(sp_TableCell_set_border(s, b0_border), a_v),
    sp_TableCell_set_borders(sp_TableCell_grid_span(s, a_v), b1_borders) == sp_TableCell_grid_span(sp_TableCell_set_borders(s, b1_borders), a_v),
    sp_TableCell_shading(sp_TableCell_grid_span(s, a_v), b2_s) == sp_TableCell_grid_span(sp_TableCell_shading(s, b2_s), a_v),
    sp_TableCell_text_direction(sp_TableCell_grid_span(s, a_v), b3_t) == sp_TableCell_grid_span(sp_TableCell_text_direction(s, b3_t), a_v),
    sp_TableCell_vertical_align(sp_TableCell_grid_span(s, a_v), b4_t) == sp_TableCell_grid_span(sp_TableCell_vertical_align(s, b4_t), a_v),
    sp_TableCell_vertical_merge(sp_TableCell_grid_span(s, a_v), b5_t) == sp_TableCell_grid_span(sp_TableCell_vertical_merge(s, b5_t), a_v),
    sp_TableCell_width(sp_TableCell_grid_span(s, a_v), b6_v, b6_t) == sp_TableCell_grid_span(sp_TableCell_width(s, b6_v, b6_t), a_v),
{}
pub proof fn order_TableCell_set_border(s: TableCell, a_border: TableCellBorder, b0_s: Shading, b1_t: TextDirectionType, b2_t: VAlignType, b3_t: VMergeType, b4_v: usize, b4_t: WidthType)
  ensures
    sp_TableCell_shading(sp_TableCell_set_border(s, a_border), b0_s) == sp_TableCell_set_border(sp_TableCell_shading(s, b0_s), a_border),
    sp_TableCell_text_direction(sp_TableCell_set_border(s, a_border), b1_t) == sp_TableCell_set_border(sp_TableCell_text_direction(s, b1_t), a_border),
    sp_TableCell_vertical_align(sp_TableCell_set_border(s, a_border), b2_t) == sp_TableCell_set_border(sp_TableCell_vertical_align(s, b2_t), a_border),
    sp_TableCell_vertical_merge(sp_TableCell_set_border(s, a_border), b3_t) == sp_TableCell_set_border(sp_TableCell_vertical_merge(s, b3_t), a_border),
    sp_TableCell_width(sp_TableCell_set_border(s, a_border), b4_v, b4_t) == sp_TableCell_set_border(sp_TableCell_width(s, b4_v, b4_t), a_border),
{}
pub proof fn order_TableCell_set_borders(s: TableCell, a_borders: TableCellBorders, b0_s: Shading, b1_t: TextDirectionType, b2_t: VAlignType, b3_t: VMergeType, b4_v: usize, b4_t: WidthType)
  ensures
    sp_TableCell_shading(sp_TableCell_set_borders(s, a_borders), b0_s) == sp_TableCell_set_borders(sp_TableCell_shading(s, b0_s), a_borders),
    sp_TableCell_text_direction(sp_TableCell_set_borders(s, a_borders), b1_t) == sp_TableCell_set_borders(sp_TableCell_text_direction(s, b1_t), a_borders),
    sp_TableCell_vertical_align(sp_TableCell_set_borders(s, a_borders), b2_t) == sp_TableCell_set_borders(sp_TableCell_vertical_align(s, b2_t), a_borders),
    sp_TableCell_vertical_merge(sp_TableCell_set_borders(s, a_borders), b3_t) == sp_TableCell_set_borders(sp_TableCell_vertical_merge(s, b3_t), a_borders),
    sp_TableCell_width(sp_TableCell_set_borders(s, a_borders), b4_v, b4_t) == sp_TableCell_set_borders(sp_TableCell_width(s, b4_v, b4_t), a_borders),
{}
pub proof fn order_TableCell_shading(s: TableCell, a_s: Shading, b0_t: TextDirectionType, b1_t: VAlignType, b2_t: VMergeType, b3_v: usize, b3_t: WidthType)
  ensures
    sp_TableCell_text_direction(sp_TableCell_shading(s, a_s), b0_t) == sp_TableCell_shading(sp_TableCell_text_direction(s, b0_t), a_s),
    sp_TableCell_vertical_align(sp_TableCell_shading(s, a_s), b1_t) == sp_TableCell_shading(sp_TableCell_vertical_align(s, b1_t), a_s),
    sp_TableCell_vertical_merge(sp_TableCell_shading(s, a_s), b2_t) == sp_TableCell_shading(sp_TableCell_vertical_merge(s, b2_t), a_s),
    sp_TableCell_width(sp_TableCell_shading(s, a_s), b3_v, b3_t) == sp_TableCell_shading(sp_TableCell_width(s, b3_v, b3_t), a_s),
{}
pub proof fn order_TableCell_text_direction(s: TableCell, a_t: TextDirectionType, b0_t: VAlignType, b1_t: VMergeType, b2_v: usize, b2_t: WidthType)
  ensures
    sp_TableCell_vertical_align(sp_TableCell_text_direction(s, a_t), b0_t) == sp_TableCell_text_direction(sp_TableCell_vertical_align(s, b0_t), a_t),
    sp_TableCell_vertical_merge(sp_TableCell_text_direction(s, a_t), b1_t) == sp_TableCell_text_direction(sp_TableCell_vertical_merge(s, b1_t), a_t),
    sp_TableCell_width(sp_TableCell_text_direction(s, a_t), b2_v, b2_t) == sp_TableCell_text_direction(sp_TableCell_width(s, b2_v, b2_t), a_t),
{}
pub proof fn order_TableCell_vertical_align(s: TableCell, a_t: VAlignType, b0_t: VMergeType, b1_v: usize, b1_t: WidthType)
  ensures
    sp_TableCell_vertical_merge(sp_TableCell_vertical_align(s, a_t), b0_t) == sp_TableCell_vertical_align(sp_TableCell_vertical_merge(s, b0_t), a_t),
    sp_TableCell_width(sp_TableCell_vertical_align(s, a_t), b1_v, b1_t) == sp_TableCell_vertical_align(sp_TableCell_width(s, b1_v, b1_t), a_t),
{}
pub proof fn order_TableCell_vertical_merge(s: TableCell, a_t: VMergeType, b0_v: usize, b0_t: WidthType)
  ensures
    sp_TableCell_width(sp_TableCell_vertical_merge(s, a_t), b0_v, b0_t) == sp_TableCell_vertical_merge(sp_TableCell_width(s, b0_v, b0_t), a_t),
{}
pub proof fn order_Section_add_bookmark_end(s: Section, a_id: usize, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_bookmark_end(s, a_id), b0_footer) == sp_Section_add_bookmark_end(sp_Section_even_footer(s, b0_footer), a_id),
    sp_Section_even_header(sp_Section_add_bookmark_end(s, a_id), b1_header) == sp_Section_add_bookmark_end(sp_Section_even_header(s, b1_header), a_id),
    sp_Section_first_footer(sp_Section_add_bookmark_end(s, a_id), b2_footer) == sp_Section_add_bookmark_end(sp_Section_first_footer(s, b2_footer), a_id),
    sp_Section_first_header(sp_Section_add_bookmark_end(s, a_id), b3_header) == sp_Section_add_bookmark_end(sp_Section_first_header(s, b3_header), a_id),
    sp_Section_footer(sp_Section_add_bookmark_end(s, a_id), b4_footer) == sp_Section_add_bookmark_end(sp_Section_footer(s, b4_footer), a_id),
    sp_Section_header(sp_Section_add_bookmark_end(s, a_id), b5_header) == sp_Section_add_bookmark_end(sp_Section_header(s, b5_header), a_id),
{}
pub proof fn order_Section_add_bookmark_start(s: Section, a_id: usize, a_name: Seq<char>, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_bookmark_start(s, a_id, a_name), b0_footer) == sp_Section_add_bookmark_start(sp_Section_even_footer(s, b0_footer), a_id, a_name),
    sp_Section_even_header(sp_Section_add_bookmark_start(s, a_id, a_name), b1_header) == sp_Section_add_bookmark_start(sp_Section_even_header(s, b1_header), a_id, a_name),
    sp_Section_first_footer(sp_Section_add_bookmark_start(s, a_id, a_name), b2_footer) == sp_Section_add_bookmark_start(sp_Section_first_footer(s, b2_footer), a_id, a_name),
    sp_Section_first_header(sp_Section_add_bookmark_start(s, a_id, a_name), b3_header) == sp_Section_add_bookmark_start(sp_Section_first_header(s, b3_header), a_id, a_name),
    sp_Section_footer(sp_Section_add_bookmark_start(s, a_id, a_name), b4_footer) == sp_Section_add_bookmark_start(sp_Section_footer(s, b4_footer), a_id, a_name),
    sp_Section_header(sp_Section_add_bookmark_start(s, a_id, a_name), b5_header) == sp_Section_add_bookmark_start(sp_Section_header(s, b5_header), a_id, a_name),
{}
pub proof fn order_Section_add_comment_end(s: Section, a_id: usize, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_comment_end(s, a_id), b0_footer) == sp_Section_add_comment_end(sp_Section_even_footer(s, b0_footer), a_id),
    sp_Section_even_header(sp_Section_add_comment_end(s, a_id), b1_header) == sp_Section_add_comment_end(sp_Section_even_header(s, b1_header), a_id),
    sp_Section_first_footer(sp_Section_add_comment_end(s, a_id), b2_footer) == sp_Section_add_comment_end(sp_Section_first_footer(s, b2_footer), a_id),
    sp_Section_first_header(sp_Section_add_comment_end(s, a_id), b3_header) == sp_Section_add_comment_end(sp_Section_first_header(s, b3_header), a_id),
    sp_Section_footer(sp_Section_add_comment_end(s, a_id), b4_footer) == sp_Section_add_comment_end(sp_Section_footer(s, b4_footer), a_id),
    sp_Section_header(sp_Section_add_comment_end(s, a_id), b5_header) == sp_Section_add_comment_end(sp_Section_header(s, b5_header), a_id),
{}
pub proof fn order_Section_add_comment_start(s: Section, a_comment: Comment, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_comment_start(s, a_comment), b0_footer) == sp_Section_add_comment_start(sp_Section_even_footer(s, b0_footer), a_comment),
    sp_Section_even_header(sp_Section_add_comment_start(s, a_comment), b1_header) == sp_Section_add_comment_start(sp_Section_even_header(s, b1_header), a_comment),
    sp_Section_first_footer(sp_Section_add_comment_start(s, a_comment), b2_footer) == sp_Section_add_comment_start(sp_Section_first_footer(s, b2_footer), a_comment),
    sp_Section_first_header(sp_Section_add_comment_start(s, a_comment), b3_header) == sp_Section_add_comment_start(sp_Section_first_header(s, b3_header), a_comment),
    sp_Section_footer(sp_Section_add_comment_start(s, a_comment), b4_footer) == sp_Section_add_comment_start(sp_Section_footer(s, b4_footer), a_comment),
    sp_Section_header(sp_Section_add_comment_start(s, a_comment), b5_header) == sp_Section_add_comment_start(sp_Section_header(s, b5_header), a_comment),
{}
pub proof fn order_Section_add_paragraph(s: Section, a_p: Paragraph, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_paragraph(s, a_p), b0_footer) == sp_Section_add_paragraph(sp_Section_even_footer(s, b0_footer), a_p),
    sp_Section_even_header(sp_Section_add_paragraph(s, a_p), b1_header) == sp_Section_add_paragraph(sp_Section_even_header(s, b1_header), a_p),
    sp_Section_first_footer(sp_Section_add_paragraph(s, a_p), b2_footer) == sp_Section_add_paragraph(sp_Section_first_footer(s, b2_footer), a_p),
    sp_Section_first_header(sp_Section_add_paragraph(s, a_p), b3_header) == sp_Section_add_paragraph(sp_Section_first_header(s, b3_header), a_p),
    sp_Section_footer(sp_Section_add_paragraph(s, a_p), b4_footer) == sp_Section_add_paragraph(sp_Section_footer(s, b4_footer), a_p),
    sp_Section_header(sp_Section_add_paragraph(s, a_p), b5_header) == sp_Section_add_paragraph(sp_Section_header(s, b5_header), a_p),
{}
pub proof fn order_Section_add_table(s: Section, a_t: Table, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header, b4_footer: Footer, b5_header: Header)
  ensures
    sp_Section_even_footer(sp_Section_add_table(s, a_t), b0_footer) == sp_Section_add_table(sp_Section_even_footer(s, b0_footer), a_t),
    sp_Section_even_header(sp_Section_add_table(s, a_t), b1_header) == sp_Section_add_table(sp_Section_even_header(s, b1_header), a_t),
    sp_Section_first_footer(sp_Section_add_table(s, a_t), b2_footer) == sp_Section_add_table(sp_Section_first_footer(s, b2_footer), a_t),
    sp_Section_first_header(sp_Section_add_table(s, a_t), b3_header) == sp_Section_add_table(sp_Section_first_header(s, b3_header), a_t),
    sp_Section_footer(sp_Section_add_table(s, a_t), b4_footer) == sp_Section_add_table(sp_Section_footer(s, b4_footer), a_t),
    sp_Section_header(sp_Section_add_table(s, a_t), b5_header) == sp_Section_add_table(sp_Section_header(s, b5_header), a_t),
{}
pub proof fn order_Section_even_footer(s: Section, a_footer: Footer, b0_header: Header, b1_footer: Footer, b2_header: Header, b3_footer: Footer, b4_header: Header)
  ensures
    sp_Section_even_header(sp_Section_even_footer(s, a_footer), b0_header) == sp_Section_even_footer(sp_Section_even_header(s, b0_header), a_footer),
    sp_Section_first_footer(sp_Section_even_footer(s, a_footer), b1_footer) == sp_Section_even_footer(sp_Section_first_footer(s, b1_footer), a_footer),
    sp_Section_first_header(sp_Section_even_footer(s, a_footer), b2_header) == sp_Section_even_footer(sp_Section_first_header(s, b2_header), a_footer),
    sp_Section_footer(sp_Section_even_footer(s, a_footer), b3_footer) == sp_Section_even_footer(sp_Section_footer(s, b3_footer), a_footer),
    sp_Section_header(sp_Section_even_footer(s, a_footer), b4_header) == sp_Section_even_footer(sp_Section_header(s, b4_header), a_footer),
{}
pub proof fn order_Section_even_header(s: Section, a_header: Header, b0_footer: Footer, b1_header: Header, b2_footer: Footer, b3_header: Header)
  ensures
    sp_Section_first_footer(sp_Section_even_header(s, a_header), b0_footer) == sp_Section_even_header(sp_Section_first_footer(s, b0_footer), a_header),
    sp_Section_first_header(sp_Section_even_header(s, a_header), b1_header) == sp_Section_even_header(sp_Section_first_header(s, b1_header), a_header),
    sp_Section_footer(sp_Section_even_header(s, a_header), b2_footer) == sp_Section_even_header(sp_Section_footer(s, b2_footer), a_header),
    sp_Section_header(sp_Section_even_header(s, a_header), b3_header) == sp_Section_even_header(sp_Section_header(s, b3_header), a_header),
{}
pub proof fn order_Section_first_footer(s: Section, a_footer: Footer, b0_header: Header, b1_footer: Footer, b2_header: Header)
  ensures
    sp_Section_first_header(sp_Section_first_footer(s, a_footer), b0_header) == sp_Section_first_footer(sp_Section_first_header(s, b0_header), a_footer),
    sp_Section_footer(sp_Section_first_footer(s, a_footer), b1_footer) == sp_Section_first_footer(sp_Section_footer(s, b1_footer), a_footer),
    sp_Section_header(sp_Section_first_footer(s, a_footer), b2_header) == sp_Section_first_footer(sp_Section_header(s, b2_header), a_footer),
{}
pub proof fn order_Section_first_header(s: Section, a_header: Header, b0_footer: Footer, b1_header: Header)
  ensures
    sp_Section_footer(sp_Section_first_header(s, a_header), b0_footer) == sp_Section_first_header(sp_Section_footer(s, b0_footer), a_header),
    sp_Section_header(sp_Section_first_header(s, a_header), b1_header) == sp_Section_first_header(sp_Section_header(s, b1_header), a_header),
{}
pub proof fn order_Section_footer(s: Section, a_footer: Footer, b0_header: Header)
  ensures
    sp_Section_header(sp_Section_footer(s, a_footer), b0_header) == sp_Section_footer(sp_Section_header(s, b0_header), a_footer),
{}
pub proof fn order_Style_align(s: Style, a_alignment_type: AlignmentType, b0_base: Seq<char>, b3_position: TableBorderPosition, b4_color: Seq<char>, b5_chars: i32, b6_f: RunFonts, b7_chars: i32, b8_color: Seq<char>, b9_left: Option<i32>, b9_special_indent: Option<SpecialIndentType>, b9_end: Option<i32>, b9_start_chars: Option<i32>, b11_t: TableLayoutType, b12_spacing: LineSpacing, b13_link: Seq<char>, b14_margins: TableCellMargins, b15_name: Seq<char>, b16_next: Seq<char>, b17_q_format: bool, b19_border: TableBorder, b20_borders: TableBorders, b21_shading: Shading, b22_size: usize, b23_v: bool, b24_s: Seq<char>, b25_v: TableAlignmentType, b26_p: TableCellProperty, b27_v: i32, b28_p: TableProperty, b29_alignment_type: TextAlignmentType, b30_b: TextBorder, b31_theme_color: ThemeColor, b32_theme_shade: Seq<char>, b33_theme_tint: Seq<char>, b34_ui_priority: usize, b35_line_type: Seq<char>, b38_w: usize, b38_t: WidthType)
  ensures
    sp_Style_based_on(sp_Style_align(s, a_alignment_type), b0_base) == sp_Style_align(sp_Style_based_on(s, b0_base), a_alignment_type),
    sp_Style_bold(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_bold(s), a_alignment_type),
    sp_Style_clear_all_border(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_clear_all_border(s), a_alignment_type),
    sp_Style_clear_border(sp_Style_align(s, a_alignment_type), b3_position) == sp_Style_align(sp_Style_clear_border(s, b3_position), a_alignment_type),
    sp_Style_color(sp_Style_align(s, a_alignment_type), b4_color) == sp_Style_align(sp_Style_color(s, b4_color), a_alignment_type),
    sp_Style_first_line_chars(sp_Style_align(s, a_alignment_type), b5_chars) == sp_Style_align(sp_Style_first_line_chars(s, b5_chars), a_alignment_type),
    sp_Style_fonts(sp_Style_align(s, a_alignment_type), b6_f) == sp_Style_align(sp_Style_fonts(s, b6_f), a_alignment_type),
    sp_Style_hanging_chars(sp_Style_align(s, a_alignment_type), b7_chars) == sp_Style_align(sp_Style_hanging_chars(s, b7_chars), a_alignment_type),
    sp_Style_highlight(sp_Style_align(s, a_alignment_type), b8_color) == sp_Style_align(sp_Style_highlight(s, b8_color), a_alignment_type),
    sp_Style_indent(sp_Style_align(s, a_alignment_type), b9_left, b9_special_indent, b9_end, b9_start_chars) == sp_Style_align(sp_Style_indent(s, b9_left, b9_special_indent, b9_end, b9_start_chars), a_alignment_type),
    sp_Style_italic(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_italic(s), a_alignment_type),
    sp_Style_layout(sp_Style_align(s, a_alignment_type), b11_t) == sp_Style_align(sp_Style_layout(s, b11_t), a_alignment_type),
    sp_Style_line_spacing(sp_Style_align(s, a_alignment_type), b12_spacing) == sp_Style_align(sp_Style_line_spacing(s, b12_spacing), a_alignment_type),
    sp_Style_link(sp_Style_align(s, a_alignment_type), b13_link) == sp_Style_align(sp_Style_link(s, b13_link), a_alignment_type),
    sp_Style_margins(sp_Style_align(s, a_alignment_type), b14_margins) == sp_Style_align(sp_Style_margins(s, b14_margins), a_alignment_type),
    sp_Style_name(sp_Style_align(s, a_alignment_type), b15_name) == sp_Style_align(sp_Style_name(s, b15_name), a_alignment_type),
    sp_Style_next(sp_Style_align(s, a_alignment_type), b16_next) == sp_Style_align(sp_Style_next(s, b16_next), a_alignment_type),
    sp_Style_q_format(sp_Style_align(s, a_alignment_type), b17_q_format) == sp_Style_align(sp_Style_q_format(s, b17_q_format), a_alignment_type),
    sp_Style_semi_hidden(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_semi_hidden(s), a_alignment_type),
    sp_Style_set_border(sp_Style_align(s, a_alignment_type), b19_border) == sp_Style_align(sp_Style_set_border(s, b19_border), a_alignment_type),
    sp_Style_set_borders(sp_Style_align(s, a_alignment_type), b20_borders) == sp_Style_align(sp_Style_set_borders(s, b20_borders), a_alignment_type),
    sp_Style_shading(sp_Style_align(s, a_alignment_type), b21_shading) == sp_Style_align(sp_Style_shading(s, b21_shading), a_alignment_type),
    sp_Style_size(sp_Style_align(s, a_alignment_type), b22_size) == sp_Style_align(sp_Style_size(s, b22_size), a_alignment_type),
    sp_Style_snap_to_grid(sp_Style_align(s, a_alignment_type), b23_v) == sp_Style_align(sp_Style_snap_to_grid(s, b23_v), a_alignment_type),
    sp_Style_style(sp_Style_align(s, a_alignment_type), b24_s) == sp_Style_align(sp_Style_style(s, b24_s), a_alignment_type),
    sp_Style_table_align(sp_Style_align(s, a_alignment_type), b25_v) == sp_Style_align(sp_Style_table_align(s, b25_v), a_alignment_type),
    sp_Style_table_cell_property(sp_Style_align(s, a_alignment_type), b26_p) == sp_Style_align(sp_Style_table_cell_property(s, b26_p), a_alignment_type),
    sp_Style_table_indent(sp_Style_align(s, a_alignment_type), b27_v) == sp_Style_align(sp_Style_table_indent(s, b27_v), a_alignment_type),
    sp_Style_table_property(sp_Style_align(s, a_alignment_type), b28_p) == sp_Style_align(sp_Style_table_property(s, b28_p), a_alignment_type),
    sp_Style_text_alignment(sp_Style_align(s, a_alignment_type), b29_alignment_type) == sp_Style_align(sp_Style_text_alignment(s, b29_alignment_type), a_alignment_type),
    sp_Style_text_border(sp_Style_align(s, a_alignment_type), b30_b) == sp_Style_align(sp_Style_text_border(s, b30_b), a_alignment_type),
    sp_Style_theme_color(sp_Style_align(s, a_alignment_type), b31_theme_color) == sp_Style_align(sp_Style_theme_color(s, b31_theme_color), a_alignment_type),
    sp_Style_theme_shade(sp_Style_align(s, a_alignment_type), b32_theme_shade) == sp_Style_align(sp_Style_theme_shade(s, b32_theme_shade), a_alignment_type),
    sp_Style_theme_tint(sp_Style_align(s, a_alignment_type), b33_theme_tint) == sp_Style_align(sp_Style_theme_tint(s, b33_theme_tint), a_alignment_type),
    sp_Style_ui_priority(sp_Style_align(s, a_alignment_type), b34_ui_priority) == sp_Style_align(sp_Style_ui_priority(s, b34_ui_priority), a_alignment_type),
    sp_Style_underline(sp_Style_align(s, a_alignment_type), b35_line_type) == sp_Style_align(sp_Style_underline(s, b35_line_type), a_alignment_type),
    sp_Style_unhide_when_used(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_unhide_when_used(s), a_alignment_type),
    sp_Style_vanish(sp_Style_align(s, a_alignment_type)) == sp_Style_align(sp_Style_vanish(s), a_alignment_type),
    sp_Style_width(sp_Style_align(s, a_alignment_type), b38_w, b38_t) == sp_Style_align(sp_Style_width(s, b38_w, b38_t), a_alignment_type),
{}
pub proof fn order_Style_based_on(s: Style, a_base: Seq<char>, b2_position: TableBorderPosition, b3_color: Seq<char>, b4_chars: i32, b5_f: RunFonts, b6_chars: i32, b7_color: Seq<char>, b8_left: Option<i32>, b8_special_indent: Option<SpecialIndentType>, b8_end: Option<i32>, b8_start_chars: Option<i32>, b10_t: TableLayoutType, b11_spacing: LineSpacing, b12_link: Seq<char>, b13_margins: TableCellMargins, b14_name: Seq<char>, b15_next: Seq<char>, b16_q_format: bool, b18_border: TableBorder, b19_borders: TableBorders, b20_shading: Shading, b21_size: usize, b22_v: bool, b23_s: Seq<char>, b24_v: TableAlignmentType, b25_p: TableCellProperty, b26_v: i32, b27_p: TableProperty, b28_alignment_type: TextAlignmentType, b29_b: TextBorder, b30_theme_color: ThemeColor, b31_theme_shade: Seq<char>, b32_theme_tint: Seq<char>, b33_ui_priority: usize, b34_line_type: Seq<char>, b37_w: usize, b37_t: WidthType)
  ensures
    sp_Style_bold(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_bold(s), a_base),
    sp_Style_clear_all_border(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_clear_all_border(s), a_base),
    sp_Style_clear_border(sp_Style_based_on(s, a_base), b2_position) == sp_Style_based_on(sp_Style_clear_border(s, b2_position), a_base),
    sp_Style_color(sp_Style_based_on(s, a_base), b3_color) == sp_Style_based_on(sp_Style_color(s, b3_color), a_base),
    sp_Style_first_line_chars(sp_Style_based_on(s, a_base), b4_chars) == sp_Style_based_on(sp_Style_first_line_chars(s, b4_chars), a_base),
    sp_Style_fonts(sp_Style_based_on(s, a_base), b5_f) == sp_Style_based_on(sp_Style_fonts(s, b5_f), a_base),
    sp_Style_hanging_chars(sp_Style_based_on(s, a_base), b6_chars) == sp_Style_based_on(sp_Style_hanging_chars(s, b6_chars), a_base),
    sp_Style_highlight(sp_Style_based_on(s, a_base), b7_color) == sp_Style_based_on(sp_Style_highlight(s, b7_color), a_base),
    sp_Style_indent(sp_Style_based_on(s, a_base), b8_left, b8_special_indent, b8_end, b8_start_chars) == sp_Style_based_on(sp_Style_indent(s, b8_left, b8_special_indent, b8_end, b8_start_chars), a_base),
    sp_Style_italic(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_italic(s), a_base),
    sp_Style_layout(sp_Style_based_on(s, a_base), b10_t) == sp_Style_based_on(sp_Style_layout(s, b10_t), a_base),
    sp_Style_line_spacing(sp_Style_based_on(s, a_base), b11_spacing) == sp_Style_based_on(sp_Style_line_spacing(s, b11_spacing), a_base),
    sp_Style_link(sp_Style_based_on(s, a_base), b12_link) == sp_Style_based_on(sp_Style_link(s, b12_link), a_base),
    sp_Style_margins(sp_Style_based_on(s, a_base), b13_margins) == sp_Style_based_on(sp_Style_margins(s, b13_margins), a_base),
    sp_Style_name(sp_Style_based_on(s, a_base), b14_name) == sp_Style_based_on(sp_Style_name(s, b14_name), a_base),
    sp_Style_next(sp_Style_based_on(s, a_base), b15_next) == sp_Style_based_on(sp_Style_next(s, b15_next), a_base),
    sp_Style_q_format(sp_Style_based_on(s, a_base), b16_q_format) == sp_Style_based_on(sp_Style_q_format(s, b16_q_format), a_base),
    sp_Style_semi_hidden(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_semi_hidden(s), a_base),
    sp_Style_set_border(sp_Style_based_on(s, a_base), b18_border) == sp_Style_based_on(sp_Style_set_border(s, b18_border), a_base),
    sp_Style_set_borders(sp_Style_based_on(s, a_base), b19_borders) == sp_Style_based_on(sp_Style_set_borders(s, b19_borders), a_base),
    sp_Style_shading(sp_Style_based_on(s, a_base), b20_shading) == sp_Style_based_on(sp_Style_shading(s, b20_shading), a_base),
    sp_Style_size(sp_Style_based_on(s, a_base), b21_size) == sp_Style_based_on(sp_Style_size(s, b21_size), a_base),
    sp_Style_snap_to_grid(sp_Style_based_on(s, a_base), b22_v) == sp_Style_based_on(sp_Style_snap_to_grid(s, b22_v), a_base),
    sp_Style_style(sp_Style_based_on(s, a_base), b23_s) == sp_Style_based_on(sp_Style_style(s, b23_s), a_base),
    sp_Style_table_align(sp_Style_based_on(s, a_base), b24_v) == sp_Style_based_on(sp_Style_table_align(s, b24_v), a_base),
    sp_Style_table_cell_property(sp_Style_based_on(s, a_base), b25_p) == sp_Style_based_on(sp_Style_table_cell_property(s, b25_p), a_base),
    sp_Style_table_indent(sp_Style_based_on(s, a_base), b26_v) == sp_Style_based_on(sp_Style_table_indent(s, b26_v), a_base),
    sp_Style_table_property(sp_Style_based_on(s, a_base), b27_p) == sp_Style_based_on(sp_Style_table_property(s, b27_p), a_base),
    sp_Style_text_alignment(sp_Style_based_on(s, a_base), b28_alignment_type) == sp_Style_based_on(sp_Style_text_alignment(s, b28_alignment_type), a_base),
    sp_Style_text_border(sp_Style_based_on(s, a_base), b29_b) == sp_Style_based_on(sp_Style_text_border(s, b29_b), a_base),
    sp_Style_theme_color(sp_Style_based_on(s, a_base), b30_theme_color) == sp_Style_based_on(sp_Style_theme_color(s, b30_theme_color), a_base),
    sp_Style_theme_shade(sp_Style_based_on(s, a_base), b31_theme_shade) == sp_Style_based_on(sp_Style_theme_shade(s, b31_theme_shade), a_base),
    sp_Style_theme_tint(sp_Style_based_on(s, a_base), b32_theme_tint) == sp_Style_based_on(sp_Style_theme_tint(s, b32_theme_tint), a_base),
    sp_Style_ui_priority(sp_Style_based_on(s, a_base), b33_ui_priority) == sp_Style_based_on(sp_Style_ui_priority(s, b33_ui_priority), a_base),
    sp_Style_underline(sp_Style_based_on(s, a_base), b34_line_type) == sp_Style_based_on(sp_Style_underline(s, b34_line_type), a_base),
    sp_Style_unhide_when_used(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_unhide_when_used(s), a_base),
    sp_Style_vanish(sp_Style_based_on(s, a_base)) == sp_Style_based_on(sp_Style_vanish(s), a_base),
    sp_Style_width(sp_Style_based_on(s, a_base), b37_w, b37_t) == sp_Style_based_on(sp_Style_width(s, b37_w, b37_t), a_base),
{}
pub proof fn order_Style_bold(s: Style, b1_position: TableBorderPosition, b2_color: Seq<char>, b3_chars: i32, b4_f: RunFonts, b5_chars: i32, b6_color: Seq<char>, b7_left: Option<i32>, b7_special_indent: Option<SpecialIndentType>, b7_end: Option<i32>, b7_start_chars: Option<i32>, b9_t: TableLayoutType, b10_spacing: LineSpacing, b11_link: Seq<char>, b12_margins: TableCellMargins, b13_name: Seq<char>, b14_next: Seq<char>, b15_q_format: bool, b17_border: TableBorder, b18_borders: TableBorders, b19_shading: Shading, b20_size: usize, b21_v: bool, b22_s: Seq<char>, b23_v: TableAlignmentType, b24_p: TableCellProperty, b25_v: i32, b26_p: TableProperty, b27_alignment_type: TextAlignmentType, b28_b: TextBorder, b29_theme_color: ThemeColor, b30_theme_shade: Seq<char>, b31_theme_tint: Seq<char>, b32_ui_priority: usize, b33_line_type: Seq<char>, b36_w: usize, b36_t: WidthType)
  ensures
    sp_Style_clear_all_border(sp_Style_bold(s)) == sp_Style_bold(sp_Style_clear_all_border(s)),
    sp_Style_clear_border(sp_Style_bold(s), b1_position) == sp_Style_bold(sp_Style_clear_border(s, b1_position)),
    sp_Style_color(sp_Style_bold(s), b2_color) == sp_Style_bold(sp_Style_color(s, b2_color)),
    sp_Style_first_line_chars(sp_Style_bold(s), b3_chars) == sp_Style_bold(sp_Style_first_line_chars(s, b3_chars)),
    sp_Style_fonts(sp_Style_bold(s), b4_f) == sp_Style_bold(sp_Style_fonts(s, b4_f)),
    sp_Style_hanging_chars(sp_Style_bold(s), b5_chars) == sp_Style_bold(sp_Style_hanging_chars(s, b5_chars)),
    sp_Style_highlight(sp_Style_bold(s), b6_color) == sp_Style_bold(sp_Style_highlight(s, b6_color)),
    sp_Style_indent(sp_Style_bold(s), b7_left, b7_special_indent, b7_end, b7_start_chars) == sp_Style_bold(sp_Style_indent(s, b7_left, b7_special_indent, b7_end, b7_start_chars)),
    sp_Style_italic(sp_Style_bold(s)) == sp_Style_bold(sp_Style_italic(s)),
    sp_Style_layout(sp_Style_bold(s), b9_t) == sp_Style_bold(sp_Style_layout(s, b9_t)),
    sp_Style_line_spacing(sp_Style_bold(s), b10_spacing) == sp_Style_bold(sp_Style_line_spacing(s, b10_spacing)),
    sp_Style_link(sp_Style_bold(s), b11_link) == sp_Style_bold(sp_Style_link(s, b11_link)),
    sp_Style_margins(sp_Style_bold(s), b12_margins) == sp_Style_bold(sp_Style_margins(s, b12_margins)),
    sp_Style_name(sp_Style_bold(s), b13_name) == sp_Style_bold(sp_Style_name(s, b13_name)),
    sp_Style_next(sp_Style_bold(s), b14_next) == sp_Style_bold(sp_Style_next(s, b14_next)),
    sp_Style_q_format(sp_Style_bold(s), b15_q_format) == sp_Style_bold(sp_Style_q_format(s, b15_q_format)),
    sp_Style_semi_hidden(sp_Style_bold(s)) == sp_Style_bold(sp_Style_semi_hidden(s)),
    sp_Style_set_border(sp_Style_bold(s), b17_border) == sp_Style_bold(sp_Style_set_border(s, b17_border)),
    sp_Style_set_borders(sp_Style_bold(s), b18_borders) == sp_Style_bold(sp_Style_set_borders(s, b18_borders)),
    sp_Style_shading(sp_Style_bold(s), b19_shading) == sp_Style_bold(sp_Style_shading(s, b19_shading)),
    sp_Style_size(sp_Style_bold(s), b20_size) == sp_Style_bold(sp_Style_size(s, b20_size)),
    sp_Style_snap_to_grid(sp_Style_bold(s), b21_v) == sp_Style_bold(sp_Style_snap_to_grid(s, b21_v)),
    sp_Style_style(sp_Style_bold(s), b22_s) == sp_Style_bold(sp_Style_style(s, b22_s)),
    sp_Style_table_align(sp_Style_bold(s), b23_v) == sp_Style_bold(sp_Style_table_align(s, b23_v)),
    sp_Style_table_cell_property(sp_Style_bold(s), b24_p) == sp_Style_bold(sp_Style_table_cell_property(s, b24_p)),
    sp_Style_table_indent(sp_Style_bold(s), b25_v) == sp_Style_bold(sp_Style_table_indent(s, b25_v)),
    sp_Style_table_property(sp_Style_bold(s), b26_p) == sp_Style_bold(sp_Style_table_property(s, b26_p)),
    sp_Style_text_alignment(sp_Style_bold(s), b27_alignment_type) == sp_Style_bold(sp_Style_text_alignment(s, b27_alignment_type)),
    sp_Style_text_border(sp_Style_bold(s), b28_b) == sp_Style_bold(sp_Style_text_border(s, b28_b)),
    sp_Style_theme_color(sp_Style_bold(s), b29_theme_color) == sp_Style_bold(sp_Style_theme_color(s, b29_theme_color)),
    sp_Style_theme_shade(sp_Style_bold(s), b30_theme_shade) == sp_Style_bold(sp_Style_theme_shade(s, b30_theme_shade)),
    sp_Style_theme_tint(sp_Style_bold(s), b31_theme_tint) == sp_Style_bold(sp_Style_theme_tint(s, b31_theme_tint)),
    sp_Style_ui_priority(sp_Style_bold(s), b32_ui_priority) == sp_Style_bold(sp_Style_ui_priority(s, b32_ui_priority)),
    sp_Style_underline(sp_Style_bold(s), b33_line_type) == sp_Style_bold(sp_Style_underline(s, b33_line_type)),
    sp_Style_unhide_when_used(sp_Style_bold(s)) == sp_Style_bold(sp_Style_unhide_when_used(s)),
    sp_Style_vanish(sp_Style_bold(s)) == sp_Style_bold(sp_Style_vanish(s)),
    sp_Style_width(sp_Style_bold(s), b36_w, b36_t) == sp_Style_bold(sp_Style_width(s, b36_w, b36_t)),
{}
pub proof fn order_Style_clear_all_border(s: Style, b0_color: Seq<char>, b1_chars: i32, b2_f: RunFonts, b3_chars: i32, b4_color: Seq<char>, b5_left: Option<i32>, b5_special_indent: Option<SpecialIndentType>, b5_end: Option<i32>, b5_start_chars: Option<i32>, b7_t: TableLayoutType, b8_spacing: LineSpacing, b9_link: Seq<char>, b10_margins: TableCellMargins, b11_name: Seq<char>, b12_next: Seq<char>, b13_q_format: bool, b15_shading: Shading, b16_size: usize, b17_v: bool, b18_s: Seq<char>, b19_v: TableAlignmentType, b20_p: TableCellProperty, b21_v: i32, b22_alignment_type: TextAlignmentType, b23_b: TextBorder, b24_theme_color: ThemeColor, b25_theme_shade: Seq<char>, b26_theme_tint: Seq<char>, b27_ui_priority: usize, b28_line_type: Seq<char>, b31_w: usize, b31_t: WidthType)
  ensures
    sp_Style_color(sp_Style_clear_all_border(s), b0_color) == sp_Style_clear_all_border(sp_Style_color(s, b0_color)),
    sp_Style_first_line_chars(sp_Style_clear_all_border(s), b1_chars) == sp_Style_clear_all_border(sp_Style_first_line_chars(s, b1_chars)),
    sp_Style_fonts(sp_Style_clear_all_border(s), b2_f) == sp_Style_clear_all_border(sp_Style_fonts(s, b2_f)),
    sp_Style_hanging_chars(sp_Style_clear_all_border(s), b3_chars) == sp_Style_clear_all_border(sp_Style_hanging_chars(s, b3_chars)),
    sp_Style_highlight(sp_Style_clear_all_border(s), b4_color) == sp_Style_clear_all_border(sp_Style_highlight(s, b4_color)),
    sp_Style_indent(sp_Style_clear_all_border(s), b5_left, b5_special_indent, b5_end, b5_start_chars) == sp_Style_clear_all_border(sp_Style_indent(s, b5_left, b5_special_indent, b5_end, b5_start_chars)),
    sp_Style_italic(sp_Style_clear_all_border(s)) == sp_Style_clear_all_border(sp_Style_italic(s)),
    sp_Style_layout(sp_Style_clear_all_border(s), b7_t) == sp_Style_clear_all_border(sp_Style_layout(s, b7_t)),
    sp_Style_line_spacing(sp_Style_clear_all_border(s), b8_spacing) == sp_Style_clear_all_border(sp_Style_line_spacing(s, b8_spacing)),
    sp_Style_link(sp_Style_clear_all_border(s), b9_link) == sp_Style_clear_all_border(sp_Style_link(s, b9_link)),
    sp_Style_margins(sp_Style_clear_all_border(s), b10_margins) == sp_Style_clear_all_border(sp_Style_margins(s, b10_margins)),
    sp_Style_name(sp_Style_clear_all_border(s), b11_name) == sp_Style_clear_all_border(sp_Style_name(s, b11_name)),
    sp_Style_next(sp_Style_clear_all_border(s), b12_next) == sp_Style_clear_all_border(sp_Style_next(s, b12_next)),
    sp_Style_q_format(sp_Style_clear_all_border(s), b13_q_format) == sp_Style_clear_all_border(sp_Style_q_format(s, b13_q_format)),
    sp_Style_semi_hidden(sp_Style_clear_all_border(s)) == sp_Style_clear_all_border(sp_Style_semi_hidden(s)),
    sp_Style_shading(sp_Style_clear_all_border(s), b15_shading) == sp_Style_clear_all_border(sp_Style_shading(s, b15_shading)),
    sp_Style_size(sp_Style_clear_all_border(s), b16_size) == sp_Style_clear_all_border(sp_Style_size(s, b16_size)),
    sp_Style_snap_to_grid(sp_Style_clear_all_border(s), b17_v) == sp_Style_clear_all_border(sp_Style_snap_to_grid(s, b17_v)),
    sp_Style_style(sp_Style_clear_all_border(s), b18_s) == sp_Style_clear_all_border(sp_Style_style(s, b18_s)),
    sp_Style_table_align(sp_Style_clear_all_border(s), b19_v) == sp_Style_clear_all_border(sp_Style_table_align(s, b19_v)),
    sp_Style_table_cell_property(sp_Style_clear_all_border(s), b20_p) == sp_Style_clear_all_border(sp_Style_table_cell_property(s, b20_p)),
    sp_Style_table_indent(sp_Style_clear_all_border(s), b21_v) == sp_Style_clear_all_border(sp_Style_table_indent(s, b21_v)),
    sp_Style_text_alignment(sp_Style_clear_all_border(s), b22_alignment_type) == sp_Style_clear_all_border(sp_Style_text_alignment(s, b22_alignment_type)),
    sp_Style_text_border(sp_Style_clear_all_border(s), b23_b) == sp_Style_clear_all_border(sp_Style_text_border(s, b23_b)),
    sp_Style_theme_color(sp_Style_clear_all_border(s), b24_theme_color) == sp_Style_clear_all_border(sp_Style_theme_color(s, b24_theme_color)),
    sp_Style_theme_shade(sp_Style_clear_all_border(s), b25_theme_shade) == sp_Style_clear_all_border(sp_Style_theme_shade(s, b25_theme_shade)),
    sp_Style_theme_tint(sp_Style_clear_all_border(s), b26_theme_tint) == sp_Style_clear_all_border(sp_Style_theme_tint(s, b26_theme_tint)),
    sp_Style_ui_priority(sp_Style_clear_all_border(s), b27_ui_priority) == sp_Style_clear_all_border(sp_Style_ui_priority(s, b27_ui_priority)),
    sp_Style_underline(sp_Style_clear_all_border(s), b28_line_type) == sp_Style_clear_all_border(sp_Style_underline(s, b28_line_type)),
    sp_Style_unhide_when_used(sp_Style_clear_all_border(s)) == sp_Style_clear_all_border(sp_Style_unhide_when_used(s)),
    sp_Style_vanish(sp_Style_clear_all_border(s)) == sp_Style_clear_all_border(sp_Style_vanish(s)),
    sp_Style_width(sp_Style_clear_all_border(s), b31_w, b31_t) == sp_Style_clear_all_border(sp_Style_width(s, b31_w, b31_t)),
{}
pub proof fn order_Style_clear_border(s: Style, a_position: TableBorderPosition, b0_color: Seq<char>, b1_chars: i32, b2_f: RunFonts, b3_chars: i32, b4_color: Seq<char>, b5_left: Option<i32>, b5_special_indent: Option<SpecialIndentType>, b5_end: Option<i32>, b5_start_chars: Option<i32>, b7_t: TableLayoutType, b8_spacing: LineSpacing, b9_link: Seq<char>, b10_margins: TableCellMargins, b11_name: Seq<char>, b12_next: Seq<char>, b13_q_format: bool, b15_shading: Shading, b16_size: usize, b17_v: bool, b18_s: Seq<char>, b19_v: TableAlignmentType, b20_p: TableCellProperty, b21_v: i32, b22_alignment_type: TextAlignmentType, b23_b: TextBorder, b24_theme_color: ThemeColor, b25_theme_shade: Seq<char>, b26_theme_tint: Seq<char>, b27_ui_priority: usize, b28_line_type: Seq<char>, b31_w: usize, b31_t: WidthType)
  ensures
    sp_Style_color(sp_Style_clear_border(s, a_position), b0_color) == sp_Style_clear_border(sp_Style_color(s, b0_color), a_position),
    sp_Style_first_line_chars(sp_Style_clear_border(s, a_position), b1_chars) == sp_Style_clear_border(sp_Style_first_line_chars(s, b1_chars), a_position),
    sp_Style_fonts(sp_Style_clear_border(s, a_position), b2_f) == sp_Style_clear_border(sp_Style_fonts(s, b2_f), a_position),
    sp_Style_hanging_chars(sp_Style_clear_border(s, a_position), b3_chars) == sp_Style_clear_border(sp_Style_hanging_chars(s, b3_chars), a_position),
    sp_Style_highlight(sp_Style_clear_border(s, a_position), b4_color) == sp_Style_clear_border(sp_Style_highlight(s, b4_color), a_position),
    sp_Style_indent(sp_Style_clear_border(s, a_position), b5_left, b5_special_indent, b5_end, b5_start_chars) == sp_Style_clear_border(sp_Style_indent(s, b5_left, b5_special_indent, b5_end, b5_start_chars), a_position),
    sp_Style_italic(sp_Style_clear_border(s, a_position)) == sp_Style_clear_border(sp_Style_italic(s), a_position),
    sp_Style_layout(sp_Style_clear_border(s, a_position), b7_t) == sp_Style_clear_border(sp_Style_layout(s, b7_t), a_position),
    sp_Style_line_spacing(sp_Style_clear_border(s, a_position), b8_spacing) == sp_Style_clear_border(sp_Style_line_spacing(s, b8_spacing), a_position),
    sp_Style_link(sp_Style_clear_border(s, a_position), b9_link) == sp_Style_clear_border(sp_Style_link(s, b9_link), a_position),
    sp_Style_margins(sp_Style_clear_border(s, a_position), b10_margins) == sp_Style_clear_border(sp_Style_margins(s, b10_margins), a_position),
    sp_Style_name(sp_Style_clear_border(s, a_position), b11_name) == sp_Style_clear_border(sp_Style_name(s, b11_name), a_position),
    sp_Style_next(sp_Style_clear_border(s, a_position), b12_next) == sp_Style_clear_border(sp_Style_next(s, b12_next), a_position),
    sp_Style_q_format(sp_Style_clear_border(s, a_position), b13_q_format) == sp_Style_clear_border(sp_Style_q_format(s, b13_q_format), a_position),
    sp_Style_semi_hidden(sp_Style_clear_border(s, a_position)) == sp_Style_clear_border(sp_Style_semi_hidden(s), a_position),
    sp_Style_shading(sp_Style_clear_border(s, a_position), b15_shading) == sp_Style_clear_border(sp_Style_shading(s, b15_shading), a_position),
    sp_Style_size(sp_Style_clear_border(s, a_position), b16_size) == sp_Style_clear_border(sp_Style_size(s, b16_size), a_position),
    sp_Style_snap_to_grid(sp_Style_clear_border(s, a_position), b17_v) == sp_Style_clear_border(sp_Style_snap_to_grid(s, b17_v), a_position),
    sp_Style_style(sp_Style_clear_border(s, a_position), b18_s) == sp_Style_clear_border(sp_Style_style(s, b18_s), a_position),
    sp_Style_table_align(sp_Style_clear_border(s, a_position), b19_v) == sp_Style_clear_border(sp_Style_table_align(s, b19_v), a_position),
    sp_Style_table_cell_property(sp_Style_clear_border(s, a_position), b20_p) == sp_Style_clear_border(sp_Style_table_cell_property(s, b20_p), a_position),
    sp_Style_table_indent(sp_Style_clear_border(s, a_position), b21_v) == sp_Style_clear_border(sp_Style_table_indent(s, b21_v), a_position),
    sp_Style_text_alignment(sp_Style_clear_border(s, a_position), b22_alignment_type) == sp_Style_clear_border(sp_Style_text_alignment(s, b22_alignment_type), a_position),
    sp_Style_text_border(sp_Style_clear_border(s, a_position), b23_b) == sp_Style_clear_border(sp_Style_text_border(s, b23_b), a_position),
    sp_Style_theme_color(sp_Style_clear_border(s, a_position), b24_theme_color) == sp_Style_clear_border(sp_Style_theme_color(s, b24_theme_color), a_position),
    sp_Style_theme_shade(sp_Style_clear_border(s, a_position), b25_theme_shade) == sp_Style_clear_border(sp_Style_theme_shade(s, b25_theme_shade), a_position),
    sp_Style_theme_tint(sp_Style_clear_border(s, a_position), b26_theme_tint) == sp_Style_clear_border(sp_Style_theme_tint(s, b26_theme_tint), a_position),
    sp_Style_ui_priority(sp_Style_clear_border(s, a_position), b27_ui_priority) == sp_Style_clear_border(sp_Style_ui_priority(s, b27_ui_priority), a_position),
    sp_Style_underline(sp_Style_clear_border(s, a_position), b28_line_type) == sp_Style_clear_border(sp_Style_underline(s, b28_line_type), a_position),
    sp_Style_unhide_when_used(sp_Style_clear_border(s, a_position)) == sp_Style_clear_border(sp_Style_unhide_when_used(s), a_position),
    sp_Style_vanish(sp_Style_clear_border(s, a_position)) == sp_Style_clear_border(sp_Style_vanish(s), a_position),
    sp_Style_width(sp_Style_clear_border(s, a_position), b31_w, b31_t) == sp_Style_clear_border(sp_Style_width(s, b31_w, b31_t), a_position),
{}
pub proof fn order_Style_color(s: Style, a_color: Seq<char>, b0_chars: i32, b1_f: RunFonts, b2_chars: i32, b3_color: Seq<char>, b4_left: Option<i32>, b4_special_indent: Option<SpecialIndentType>, b4_end: Option<i32>, b4_start_chars: Option<i32>, b6_t: TableLayoutType, b7_spacing: LineSpacing, b8_link: Seq<char>, b9_margins: TableCellMargins, b10_name: Seq<char>, b11_next: Seq<char>, b12_q_format: bool, b14_border: TableBorder, b15_borders: TableBorders, b16_shading: Shading, b17_size: usize, b18_v: bool, b19_s: Seq<char>, b20_v: TableAlignmentType, b21_p: TableCellProperty, b22_v: i32, b23_p: TableProperty, b24_alignment_type: TextAlignmentType, b25_b: TextBorder, b26_ui_priority: usize, b27_line_type: Seq<char>, b30_w: usize, b30_t: WidthType)
  ensures
    sp_Style_first_line_chars(sp_Style_color(s, a_color), b0_chars) == sp_Style_color(sp_Style_first_line_chars(s, b0_chars), a_color),
    sp_Style_fonts(sp_Style_color(s, a_color), b1_f) == sp_Style_color(sp_Style_fonts(s, b1_f), a_color),
    sp_Style_hanging_chars(sp_Style_color(s, a_color), b2_chars) == sp_Style_color(sp_Style_hanging_chars(s, b2_chars), a_color),
    sp_Style_highlight(sp_Style_color(s, a_color), b3_color) == sp_Style_color(sp_Style_highlight(s, b3_color), a_color),
    sp_Style_indent(sp_Style_color(s, a_color), b4_left, b4_special_indent, b4_end, b4_start_chars) == sp_Style_color(sp_Style_indent(s, b4_left, b4_special_indent, b4_end, b4_start_chars), a_color),
    sp_Style_italic(sp_Style_color(s, a_color)) == sp_Style_color(sp_Style_italic(s), a_color),
    sp_Style_layout(sp_Style_color(s, a_color), b6_t) == sp_Style_color(sp_Style_layout(s, b6_t), a_color),
    sp_Style_line_spacing(sp_Style_color(s, a_color), b7_spacing) == sp_Style_color(sp_Style_line_spacing(s, b7_spacing), a_color),
    sp_Style_link(sp_Style_color(s, a_color), b8_link) == sp_Style_color(sp_Style_link(s, b8_link), a_color),
    sp_Style_margins(sp_Style_color(s, a_color), b9_margins) == sp_Style_color(sp_Style_margins(s, b9_margins), a_color),
    sp_Style_name(sp_Style_color(s, a_color), b10_name) == sp_Style_color(sp_Style_name(s, b10_name), a_color),
    sp_Style_next(sp_Style_color(s, a_color), b11_next) == sp_Style_color(sp_Style_next(s, b11_next), a_color),
    sp_Style_q_format(sp_Style_color(s, a_color), b12_q_format) == sp_Style_color(sp_Style_q_format(s, b12_q_format), a_color),
    sp_Style_semi_hidden(sp_Style_color(s, a_color)) == sp_Style_color(sp_Style_semi_hidden(s), a_color),
    sp_Style_set_border(sp_Style_color(s, a_color), b14_border) == sp_Style_color(sp_Style_set_border(s, b14_border), a_color),
    sp_Style_set_borders(sp_Style_color(s, a_color), b15_borders) == sp_Style_color(sp_Style_set_borders(s, b15_borders), a_color),
    sp_Style_shading(sp_Style_color(s, a_color), b16_shading) == sp_Style_color(sp_Style_shading(s, b16_shading), a_color),
    sp_Style_size(sp_Style_color(s, a_color), b17_size) == sp_Style_color(sp_Style_size(s, b17_size), a_color),
    sp_Style_snap_to_grid(sp_Style_color(s, a_color), b18_v) == sp_Style_color(sp_Style_snap_to_grid(s, b18_v), a_color),
    sp_Style_style(sp_Style_color(s, a_color), b19_s) == sp_Style_color(sp_Style_style(s, b19_s), a_color),
    sp_Style_table_align(sp_Style_color(s, a_color), b20_v) == sp_Style_color(sp_Style_table_align(s, b20_v), a_color),
    sp_Style_table_cell_property(sp_Style_color(s, a_color), b21_p) == sp_Style_color(sp_Style_table_cell_property(s, b21_p), a_color),
    sp_Style_table_indent(sp_Style_color(s, a_color), b22_v) == sp_Style_color(sp_Style_table_indent(s, b22_v), a_color),
    sp_Style_table_property(sp_Style_color(s, a_color), b23_p) == sp_Style_color(sp_Style_table_property(s, b23_p), a_color),
    sp_Style_text_alignment(sp_Style_color(s, a_color), b24_alignment_type) == sp_Style_color(sp_Style_text_alignment(s, b24_alignment_type), a_color),
    sp_Style_text_border(sp_Style_color(s, a_color), b25_b) == sp_Style_color(sp_Style_text_border(s, b25_b), a_color),
    sp_Style_ui_priority(sp_Style_color(s, a_color), b26_ui_priority) == sp_Style_color(sp_Style_ui_priority(s, b26_ui_priority), a_color),
    sp_Style_underline(sp_Style_color(s, a_color), b27_line_type) == sp_Style_color(sp_Style_underline(s, b27_line_type), a_color),
    sp_Style_unhide_when_used(sp_Style_color(s, a_color)) == sp_Style_color(sp_Style_unhide_when_used(s), a_color),
    sp_Style_vanish(sp_Style_color(s, a_color)) == sp_Style_color(sp_Style_vanish(s), a_color),
    sp_Style_width(sp_Style_color(s, a_color), b30_w, b30_t) == sp_Style_color(sp_Style_width(s, b30_w, b30_t), a_color),
{}
pub proof fn order_Style_first_line_chars(s: Style, a_chars: i32, b0_f: RunFonts, b1_color: Seq<char>, b3_t: TableLayoutType, b4_spacing: LineSpacing, b5_link: Seq<char>, b6_margins: TableCellMargins, b7_name: Seq<char>, b8_next: Seq<char>, b9_q_format: bool, b11_border: TableBorder, b12_borders: TableBorders, b13_shading: Shading, b14_size: usize, b15_v: bool, b16_s: Seq<char>, b17_v: TableAlignmentType, b18_p: TableCellProperty, b19_v: i32, b20_p: TableProperty, b21_alignment_type: TextAlignmentType, b22_b: TextBorder, b23_theme_color: ThemeColor, b24_theme_shade: Seq<char>, b25_theme_tint: Seq<char>, b26_ui_priority: usize, b27_line_type: Seq<char>, b30_w: usize, b30_t: WidthType)
  ensures
    sp_Style_fonts(sp_Style_first_line_chars(s, a_chars), b0_f) == sp_Style_first_line_chars(sp_Style_fonts(s, b0_f), a_chars),
    sp_Style_highlight(sp_Style_first_line_chars(s, a_chars), b1_color) == sp_Style_first_line_chars(sp_Style_highlight(s, b1_color), a_chars),
    sp_Style_italic(sp_Style_first_line_chars(s, a_chars)) == sp_Style_first_line_chars(sp_Style_italic(s), a_chars),
    sp_Style_layout(sp_Style_first_line_chars(s, a_chars), b3_t) == sp_Style_first_line_chars(sp_Style_layout(s, b3_t), a_chars),
    sp_Style_line_spacing(sp_Style_first_line_chars(s, a_chars), b4_spacing) == sp_Style_first_line_chars(sp_Style_line_spacing(s, b4_spacing), a_chars),
    sp_Style_link(sp_Style_first_line_chars(s, a_chars), b5_link) == sp_Style_first_line_chars(sp_Style_link(s, b5_link), a_chars),
    sp_Style_margins(sp_Style_first_line_chars(s, a_chars), b6_margins) == sp_Style_first_line_chars(sp_Style_margins(s, b6_margins), a_chars),
    sp_Style_name(sp_Style_first_line_chars(s, a_chars), b7_name) == sp_Style_first_line_chars(sp_Style_name(s, b7_name), a_chars),
    sp_Style_next(sp_Style_first_line_chars(s, a_chars), b8_next) == sp_Style_first_line_chars(sp_Style_next(s, b8_next), a_chars),
    sp_Style_q_format(sp_Style_first_line_chars(s, a_chars), b9_q_format) == sp_Style_first_line_chars(sp_Style_q_format(s, b9_q_format), a_chars),
    sp_Style_semi_hidden(sp_Style_first_line_chars(s, a_chars)) == sp_Style_first_line_chars(sp_Style_semi_hidden(s), a_chars),
    sp_Style_set_border(sp_Style_first_line_chars(s, a_chars), b11_border) == sp_Style_first_line_chars(sp_Style_set_border(s, b11_border), a_chars),
    sp_Style_set_borders(sp_Style_first_line_chars(s, a_chars), b12_borders) == sp_Style_first_line_chars(sp_Style_set_borders(s, b12_borders), a_chars),
    sp_Style_shading(sp_Style_first_line_chars(s, a_chars), b13_shading) == sp_Style_first_line_chars(sp_Style_shading(s, b13_shading), a_chars),
    sp_Style_size(sp_Style_first_line_chars(s, a_chars), b14_size) == sp_Style_first_line_chars(sp_Style_size(s, b14_size), a_chars),
    sp_Style_snap_to_grid(sp_Style_first_line_chars(s, a_chars), b15_v) == sp_Style_first_line_chars(sp_Style_snap_to_grid(s, b15_v), a_chars),
    sp_Style_style(sp_Style_first_line_chars(s, a_chars), b16_s) == sp_Style_first_line_chars(sp_Style_style(s, b16_s), a_chars),
    sp_Style_table_align(sp_Style_first_line_chars(s, a_chars), b17_v) == sp_Style_first_line_chars(sp_Style_table_align(s, b17_v), a_chars),
    sp_Style_table_cell_property(sp_Style_first_line_chars(s, a_chars), b18_p) == sp_Style_first_line_chars(sp_Style_table_cell_property(s, b18_p), a_chars),
    sp_Style_table_indent(sp_Style_first_line_chars(s, a_chars), b19_v) == sp_Style_first_line_chars(sp_Style_table_indent(s, b19_v), a_chars),
    sp_Style_table_property(sp_Style_first_line_chars(s, a_chars), b20_p) == sp_Style_first_line_chars(sp_Style_table_property(s, b20_p), a_chars),
    sp_Style_text_alignment(sp_Style_first_line_chars(s, a_chars), b21_alignment_type) == sp_Style_first_line_chars(sp_Style_text_alignment(s, b21_alignment_type), a_chars),
    sp_Style_text_border(sp_Style_first_line_chars(s, a_chars), b22_b) == sp_Style_first_line_chars(sp_Style_text_border(s, b22_b), a_chars),
    sp_Style_theme_color(sp_Style_first_line_chars(s, a_chars), b23_theme_color) == sp_Style_first_line_chars(sp_Style_theme_color(s, b23_theme_color), a_chars),
    sp_Style_theme_shade(sp_Style_first_line_chars(s, a_chars), b24_theme_shade) == sp_Style_first_line_chars(sp_Style_theme_shade(s, b24_theme_shade), a_chars),
    sp_Style_theme_tint(sp_Style_first_line_chars(s, a_chars), b25_theme_tint) == sp_Style_first_line_chars(sp_Style_theme_tint(s, b25_theme_tint), a_chars),
    sp_Style_ui_priority(sp_Style_first_line_chars(s, a_chars), b26_ui_priority) == sp_Style_first_line_chars(sp_Style_ui_priority(s, b26_ui_priority), a_chars),
    sp_Style_underline(sp_Style_first_line_chars(s, a_chars), b27_line_type) == sp_Style_first_line_chars(sp_Style_underline(s, b27_line_type), a_chars),
    sp_Style_unhide_when_used(sp_Style_first_line_chars(s, a_chars)) == sp_Style_first_line_chars(sp_Style_unhide_when_used(s), a_chars),
    sp_Style_vanish(sp_Style_first_line_chars(s, a_chars)) == sp_Style_first_line_chars(sp_Style_vanish(s), a_chars),
    sp_Style_width(sp_Style_first_line_chars(s, a_chars), b30_w, b30_t) == sp_Style_first_line_chars(sp_Style_width(s, b30_w, b30_t), a_chars),
{}
pub proof fn order_Style_fonts(s: Style, a_f: RunFonts, b0_chars: i32, b1_color: Seq<char>, b2_left: Option<i32>, b2_special_indent: Option<SpecialIndentType>, b2_end: Option<i32>, b2_start_chars: Option<i32>, b4_t: TableLayoutType, b5_spacing: LineSpacing, b6_link: Seq<char>, b7_margins: TableCellMargins, b8_name: Seq<char>, b9_next: Seq<char>, b10_q_format: bool, b12_border: TableBorder, b13_borders: TableBorders, b14_shading: Shading, b15_size: usize, b16_v: bool, b17_s: Seq<char>, b18_v: TableAlignmentType, b19_p: TableCellProperty, b20_v: i32, b21_p: TableProperty, b22_alignment_type: TextAlignmentType, b23_b: TextBorder, b24_theme_color: ThemeColor, b25_theme_shade: Seq<char>, b26_theme_tint: Seq<char>, b27_ui_priority: usize, b28_line_type: Seq<char>, b31_w: usize, b31_t: WidthType)
  ensures
    sp_Style_hanging_chars(sp_Style_fonts(s, a_f), b0_chars) == sp_Style_fonts(sp_Style_hanging_chars(s, b0_chars), a_f),
    sp_Style_highlight(sp_Style_fonts(s, a_f), b1_color) == sp_Style_fonts(sp_Style_highlight(s, b1_color), a_f),
    sp_Style_indent(sp_Style_fonts(s, a_f), b2_left, b2_special_indent, b2_end, b2_start_chars) == sp_Style_fonts(sp_Style_indent(s, b2_left, b2_special_indent, b2_end, b2_start_chars), a_f),
    sp_Style_italic(sp_Style_fonts(s, a_f)) == sp_Style_fonts(sp_Style_italic(s), a_f),
    sp_Style_layout(sp_Style_fonts(s, a_f), b4_t) == sp_Style_fonts(sp_Style_layout(s, b4_t), a_f),
    sp_Style_line_spacing(sp_Style_fonts(s, a_f), b5_spacing) == sp_Style_fonts(sp_Style_line_spacing(s, b5_spacing), a_f),
    sp_Style_link(sp_Style_fonts(s, a_f), b6_link) == sp_Style_fonts(sp_Style_link(s, b6_link), a_f),
    sp_Style_margins(sp_Style_fonts(s, a_f), b7_margins) == sp_Style_fonts(sp_Style_margins(s, b7_margins), a_f),
    sp_Style_name(sp_Style_fonts(s, a_f), b8_name) == sp_Style_fonts(sp_Style_name(s, b8_name), a_f),
    sp_Style_next(sp_Style_fonts(s, a_f), b9_next) == sp_Style_fonts(sp_Style_next(s, b9_next), a_f),
    sp_Style_q_format(sp_Style_fonts(s, a_f), b10_q_format) == sp_Style_fonts(sp_Style_q_format(s, b10_q_format), a_f),
    sp_Style_semi_hidden(sp_Style_fonts(s, a_f)) == sp_Style_fonts(sp_Style_semi_hidden(s), a_f),
    sp_Style_set_border(sp_Style_fonts(s, a_f), b12_border) == sp_Style_fonts(sp_Style_set_border(s, b12_border), a_f),
    sp_Style_set_borders(sp_Style_fonts(s, a_f), b13_borders) == sp_Style_fonts(sp_Style_set_borders(s, b13_borders), a_f),
    sp_Style_shading(sp_Style_fonts(s, a_f), b14_shading) == sp_Style_fonts(sp_Style_shading(s, b14_shading), a_f),
    sp_Style_size(sp_Style_fonts(s, a_f), b15_size) == sp_Style_fonts(sp_Style_size(s, b15_size), a_f),
    sp_Style_snap_to_grid(sp_Style_fonts(s, a_f), b16_v) == sp_Style_fonts(sp_Style_snap_to_grid(s, b16_v), a_f),
    sp_Style_style(sp_Style_fonts(s, a_f), b17_s) == sp_Style_fonts(sp_Style_style(s, b17_s), a_f),
    sp_Style_table_align(sp_Style_fonts(s, a_f), b18_v) == sp_Style_fonts(sp_Style_table_align(s, b18_v), a_f),
    sp_Style_table_cell_property(sp_Style_fonts(s, a_f), b19_p) == sp_Style_fonts(sp_Style_table_cell_property(s, b19_p), a_f),
    sp_Style_table_indent(sp_Style_fonts(s, a_f), b20_v) == sp_Style_fonts(sp_Style_table_indent(s, b20_v), a_f),
    sp_Style_table_property(sp_Style_fonts(s, a_f), b21_p) == sp_Style_fonts(sp_Style_table_property(s, b21_p), a_f),
    sp_Style_text_alignment(sp_Style_fonts(s, a_f), b22_alignment_type) == sp_Style_fonts(sp_Style_text_alignment(s, b22_alignment_type), a_f),
    sp_Style_text_border(sp_Style_fonts(s, a_f), b23_b) == sp_Style_fonts(sp_Style_text_border(s, b23_b), a_f),
    sp_Style_theme_color(sp_Style_fonts(s, a_f), b24_theme_color) == sp_Style_fonts(sp_Style_theme_color(s, b24_theme_color), a_f),
    sp_Style_theme_shade(sp_Style_fonts(s, a_f), b25_theme_shade) == sp_Style_fonts(sp_Style_theme_shade(s, b25_theme_shade), a_f),
    sp_Style_theme_tint(sp_Style_fonts(s, a_f), b26_theme_tint) == sp_Style_fonts(sp_Style_theme_tint(s, b26_theme_tint), a_f),
    sp_Style_ui_priority(sp_Style_fonts(s, a_f), b27_ui_priority) == sp_Style_fonts(sp_Style_ui_priority(s, b27_ui_priority), a_f),
    sp_Style_underline(sp_Style_fonts(s, a_f), b28_line_type) == sp_Style_fonts(sp_Style_underline(s, b28_line_type), a_f),
    sp_Style_unhide_when_used(sp_Style_fonts(s, a_f)) == sp_Style_fonts(sp_Style_unhide_when_used(s), a_f),
    sp_Style_vanish(sp_Style_fonts(s, a_f)) == sp_Style_fonts(sp_Style_vanish(s), a_f),
    sp_Style_width(sp_Style_fonts(s, a_f), b31_w, b31_t) == sp_Style_fonts(sp_Style_width(s, b31_w, b31_t), a_f),
{}
pub proof fn order_Style_hanging_chars(s: Style, a_chars: i32, b0_color: Seq<char>, b2_t: TableLayoutType, b3_spacing: LineSpacing, b4_link: Seq<char>, b5_margins: TableCellMargins, b6_name: Seq<char>, b7_next: Seq<char>, b8_q_format: bool, b10_border: TableBorder, b11_borders: TableBorders, b12_shading: Shading, b13_size: usize, b14_v: bool, b15_s: Seq<char>, b16_v: TableAlignmentType, b17_p: TableCellProperty, b18_v: i32, b19_p: TableProperty, b20_alignment_type: TextAlignmentType, b21_b: TextBorder, b22_theme_color: ThemeColor, b23_theme_shade: Seq<char>, b24_theme_tint: Seq<char>, b25_ui_priority: usize, b26_line_type: Seq<char>, b29_w: usize, b29_t: WidthType)
  ensures
    sp_Style_highlight(sp_Style_hanging_chars(s, a_chars), b0_color) == sp_Style_hanging_chars(sp_Style_highlight(s, b0_color), a_chars),
    sp_Style_italic(sp_Style_hanging_chars(s, a_chars)) == sp_Style_hanging_chars(sp_Style_italic(s), a_chars),
    sp_Style_layout(sp_Style_hanging_chars(s, a_chars), b2_t) == sp_Style_hanging_chars(sp_Style_layout(s, b2_t), a_chars),
    sp_Style_line_spacing(sp_Style_hanging_chars(s, a_chars), b3_spacing) == sp_Style_hanging_chars(sp_Style_line_spacing(s, b3_spacing), a_chars),
    sp_Style_link(sp_Style_hanging_chars(s, a_chars), b4_link) == sp_Style_hanging_chars(sp_Style_link(s, b4_link), a_chars),
    sp_Style_margins(sp_Style_hanging_chars(s, a_chars), b5_margins) == sp_Style_hanging_chars(sp_Style_margins(s, b5_margins), a_chars),
    sp_Style_name(sp_Style_hanging_chars(s, a_chars), b6_name) == sp_Style_hanging_chars(sp_Style_name(s, b6_name), a_chars),
    sp_Style_next(sp_Style_hanging_chars(s, a_chars), b7_next) == sp_Style_hanging_chars(sp_Style_next(s, b7_next), a_chars),
    sp_Style_q_format(sp_Style_hanging_chars(s, a_chars), b8_q_format) == sp_Style_hanging_chars(sp_Style_q_format(s, b8_q_format), a_chars),
    sp_Style_semi_hidden(sp_Style_hanging_chars(s, a_chars)) == sp_Style_hanging_chars(sp_Style_semi_hidden(s), a_chars),
    sp_Style_set_border(sp_Style_hanging_chars(s, a_chars), b10_border) == sp_Style_hanging_chars(sp_Style_set_border(s, b10_border), a_chars),
    sp_Style_set_borders(sp_Style_hanging_chars(s, a_chars), b11_borders) == sp_Style_hanging_chars(sp_Style_set_borders(s, b11_borders), a_chars),
    sp_Style_shading(sp_Style_hanging_chars(s, a_chars), b12_shading) == sp_Style_hanging_chars(sp_Style_shading(s, b12_shading), a_chars),
    sp_Style_size(sp_Style_hanging_chars(s, a_chars), b13_size) == sp_Style_hanging_chars(sp_Style_size(s, b13_size), a_chars),
    sp_Style_snap_to_grid(sp_Style_hanging_chars(s, a_chars), b14_v) == sp_Style_hanging_chars(sp_Style_snap_to_grid(s, b14_v), a_chars),
    sp_Style_style(sp_Style_hanging_chars(s, a_chars), b15_s) == sp_Style_hanging_chars(sp_Style_style(s, b15_s), a_chars),
    sp_Style_table_align(sp_Style_hanging_chars(s, a_chars), b16_v) == sp_Style_hanging_chars(sp_Style_table_align(s, b16_v), a_chars),
    sp_Style_table_cell_property(sp_Style_hanging_chars(s, a_chars), b17_p) == sp_Style_hanging_chars(sp_Style_table_cell_property(s, b17_p), a_chars),
    sp_Style_table_indent(sp_Style_hanging_chars(s, a_chars), b18_v) == sp_Style_hanging_chars(sp_Style_table_indent(s, b18_v), a_chars),
    sp_Style_table_property(sp_Style_hanging_chars(s, a_chars), b19_p) == sp_Style_hanging_chars(sp_Style_table_property(s, b19_p), a_chars),
    sp_Style_text_alignment(sp_Style_hanging_chars(s, a_chars), b20_alignment_type) == sp_Style_hanging_chars(sp_Style_text_alignment(s, b20_alignment_type), a_chars),
    sp_Style_text_border(sp_Style_hanging_chars(s, a_chars), b21_b) == sp_Style_hanging_chars(sp_Style_text_border(s, b21_b), a_chars),
    sp_Style_theme_color(sp_Style_hanging_chars(s, a_chars), b22_theme_color) == sp_Style_hanging_chars(sp_Style_theme_color(s, b22_theme_color), a_chars),
    sp_Style_theme_shade(sp_Style_hanging_chars(s, a_chars), b23_theme_shade) == sp_Style_hanging_chars(sp_Style_theme_shade(s, b23_theme_shade), a_chars),
    sp_Style_theme_tint(sp_Style_hanging_chars(s, a_chars), b24_theme_tint) == sp_Style_hanging_chars(sp_Style_theme_tint(s, b24_theme_tint), a_chars),
    sp_Style_ui_priority(sp_Style_hanging_chars(s, a_chars), b25_ui_priority) == sp_Style_hanging_chars(sp_Style_ui_priority(s, b25_ui_priority), a_chars),
    sp_Style_underline(sp_Style_hanging_chars(s, a_chars), b26_line_type) == sp_Style_hanging_chars(sp_Style_underline(s, b26_line_type), a_chars),
    sp_Style_unhide_when_used(sp_Style_hanging_chars(s, a_chars)) == sp_Style_hanging_chars(sp_Style_unhide_when_used(s), a_chars),
    sp_Style_vanish(sp_Style_hanging_chars(s, a_chars)) == sp_Style_hanging_chars(sp_Style_vanish(s), a_chars),
    sp_Style_width(sp_Style_hanging_chars(s, a_chars), b29_w, b29_t) == sp_Style_hanging_chars(sp_Style_width(s, b29_w, b29_t), a_chars),
{}
pub proof fn order_Style_highlight(s: Style, a_color: Seq<char>, b0_left: Option<i32>, b0_special_indent: Option<SpecialIndentType>, b0_end: Option<i32>, b0_start_chars: Option<i32>, b2_t: TableLayoutType, b3_spacing: LineSpacing, b4_link: Seq<char>, b5_margins: TableCellMargins, b6_name: Seq<char>, b7_next: Seq<char>, b8_q_format: bool, b10_border: TableBorder, b11_borders: TableBorders, b12_shading: Shading, b13_size: usize, b14_v: bool, b15_s: Seq<char>, b16_v: TableAlignmentType, b17_p: TableCellProperty, b18_v: i32, b19_p: TableProperty, b20_alignment_type: TextAlignmentType, b21_b: TextBorder, b22_theme_color: ThemeColor, b23_theme_shade: Seq<char>, b24_theme_tint: Seq<char>, b25_ui_priority: usize, b26_line_type: Seq<char>, b29_w: usize, b29_t: WidthType)
  ensures
    sp_Style_indent(sp_Style_highlight(s, a_color), b0_left, b0_special_indent, b0_end, b0_start_chars) == sp_Style_highlight(sp_Style_indent(s, b0_left, b0_special_indent, b0_end, b0_start_chars), a_color),
    sp_Style_italic(sp_Style_highlight(s, a_color)) == sp_Style_highlight(sp_Style_italic(s), a_color),
    sp_Style_layout(sp_Style_highlight(s, a_color), b2_t) == sp_Style_highlight(sp_Style_layout(s, b2_t), a_color),
    sp_Style_line_spacing(sp_Style_highlight(s, a_color), b3_spacing) == sp_Style_highlight(sp_Style_line_spacing(s, b3_spacing), a_color),
    sp_Style_link(sp_Style_highlight(s, a_color), b4_link) == sp_Style_highlight(sp_Style_link(s, b4_link), a_color),
    sp_Style_margins(sp_Style_highlight(s, a_color), b5_margins) == sp_Style_highlight(sp_Style_margins(s, b5_margins), a_color),
    sp_Style_name(sp_Style_highlight(s, a_color), b6_name) == sp_Style_highlight(sp_Style_name(s, b6_name), a_color),
    sp_Style_next(sp_Style_highlight(s, a_color), b7_next) == sp_Style_highlight(sp_Style_next(s, b7_next), a_color),
    sp_Style_q_format(sp_Style_highlight(s, a_color), b8_q_format) == sp_Style_highlight(sp_Style_q_format(s, b8_q_format), a_color),
    sp_Style_semi_hidden(sp_Style_highlight(s, a_color)) == sp_Style_highlight(sp_Style_semi_hidden(s), a_color),
    sp_Style_set_border(sp_Style_highlight(s, a_color), b10_border) == sp_Style_highlight(sp_Style_set_border(s, b10_border), a_color),
    sp_Style_set_borders(sp_Style_highlight(s, a_color), b11_borders) == sp_Style_highlight(sp_Style_set_borders(s, b11_borders), a_color),
    sp_Style_shading(sp_Style_highlight(s, a_color), b12_shading) == sp_Style_highlight(sp_Style_shading(s, b12_shading), a_color),
    sp_Style_size(sp_Style_highlight(s, a_color), b13_size) == sp_Style_highlight(sp_Style_size(s, b13_size), a_color),
    sp_Style_snap_to_grid(sp_Style_highlight(s, a_color), b14_v) == sp_Style_highlight(sp_Style_snap_to_grid(s, b14_v), a_color),
    sp_Style_style(sp_Style_highlight(s, a_color), b15_s) == sp_Style_highlight(sp_Style_style(s, b15_s), a_color),
    sp_Style_table_align(sp_Style_highlight(s, a_color), b16_v) == sp_Style_highlight(sp_Style_table_align(s, b16_v), a_color),
    sp_Style_table_cell_property(sp_Style_highlight(s, a_color), b17_p) == sp_Style_highlight(sp_Style_table_cell_property(s, b17_p), a_color),
    sp_Style_table_indent(sp_Style_highlight(s, a_color), b18_v) == sp_Style_highlight(sp_Style_table_indent(s, b18_v), a_color),
    sp_Style_table_property(sp_Style_highlight(s, a_color), b19_p) == sp_Style_highlight(sp_Style_table_property(s, b19_p), a_color),
    sp_Style_text_alignment(sp_Style_highlight(s, a_color), b20_alignment_type) == sp_Style_highlight(sp_Style_text_alignment(s, b20_alignment_type), a_color),
    sp_Style_text_border(sp_Style_highlight(s, a_color), b21_b) == sp_Style_highlight(sp_Style_text_border(s, b21_b), a_color),
    sp_Style_theme_color(sp_Style_highlight(s, a_color), b22_theme_color) == sp_Style_highlight(sp_Style_theme_color(s, b22_theme_color), a_color),
    sp_Style_theme_shade(sp_Style_highlight(s, a_color), b23_theme_shade) == sp_Style_highlight(sp_Style_theme_shade(s, b23_theme_shade), a_color),
    sp_Style_theme_tint(sp_Style_highlight(s, a_color), b24_theme_tint) == sp_Style_highlight(sp_Style_theme_tint(s, b24_theme_tint), a_color),
    sp_Style_ui_priority(sp_Style_highlight(s, a_color), b25_ui_priority) == sp_Style_highlight(sp_Style_ui_priority(s, b25_ui_priority), a_color),
    sp_Style_underline(sp_Style_highlight(s, a_color), b26_line_type) == sp_Style_highlight(sp_Style_underline(s, b26_line_type), a_color),
    sp_Style_unhide_when_used(sp_Style_highlight(s, a_color)) == sp_Style_highlight(sp_Style_unhide_when_used(s), a_color),
    sp_Style_vanish(sp_Style_highlight(s, a_color)) == sp_Style_highlight(sp_Style_vanish(s), a_color),
    sp_Style_width(sp_Style_highlight(s, a_color), b29_w, b29_t) == sp_Style_highlight(sp_Style_width(s, b29_w, b29_t), a_color),
{}
pub proof fn order_Style_indent(s: Style, a_left: Option<i32>, a_special_indent: Option<SpecialIndentType>, a_end: Option<i32>, a_start_chars: Option<i32>, b1_t: TableLayoutType, b2_spacing: LineSpacing, b3_link: Seq<char>, b4_margins: TableCellMargins, b5_name: Seq<char>, b6_next: Seq<char>, b7_q_format: bool, b9_border: TableBorder, b10_borders: TableBorders, b11_shading: Shading, b12_size: usize, b13_v: bool, b14_s: Seq<char>, b15_v: TableAlignmentType, b16_p: TableCellProperty, b17_v: i32, b18_p: TableProperty, b19_alignment_type: TextAlignmentType, b20_b: TextBorder, b21_theme_color: ThemeColor, b22_theme_shade: Seq<char>, b23_theme_tint: Seq<char>, b24_ui_priority: usize, b25_line_type: Seq<char>, b28_w: usize, b28_t: WidthType)
  ensures
    sp_Style_italic(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Style_indent(sp_Style_italic(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_layout(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b1_t) == sp_Style_indent(sp_Style_layout(s, b1_t), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_line_spacing(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b2_spacing) == sp_Style_indent(sp_Style_line_spacing(s, b2_spacing), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_link(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b3_link) == sp_Style_indent(sp_Style_link(s, b3_link), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_margins(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b4_margins) == sp_Style_indent(sp_Style_margins(s, b4_margins), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_name(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b5_name) == sp_Style_indent(sp_Style_name(s, b5_name), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_next(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b6_next) == sp_Style_indent(sp_Style_next(s, b6_next), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_q_format(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b7_q_format) == sp_Style_indent(sp_Style_q_format(s, b7_q_format), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_semi_hidden(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Style_indent(sp_Style_semi_hidden(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_set_border(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b9_border) == sp_Style_indent(sp_Style_set_border(s, b9_border), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_set_borders(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b10_borders) == sp_Style_indent(sp_Style_set_borders(s, b10_borders), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_shading(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b11_shading) == sp_Style_indent(sp_Style_shading(s, b11_shading), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_size(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b12_size) == sp_Style_indent(sp_Style_size(s, b12_size), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_snap_to_grid(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b13_v) == sp_Style_indent(sp_Style_snap_to_grid(s, b13_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_style(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b14_s) == sp_Style_indent(sp_Style_style(s, b14_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_table_align(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b15_v) == sp_Style_indent(sp_Style_table_align(s, b15_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_table_cell_property(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b16_p) == sp_Style_indent(sp_Style_table_cell_property(s, b16_p), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_table_indent(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b17_v) == sp_Style_indent(sp_Style_table_indent(s, b17_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_table_property(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b18_p) == sp_Style_indent(sp_Style_table_property(s, b18_p), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_text_alignment(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b19_alignment_type) == sp_Style_indent(sp_Style_text_alignment(s, b19_alignment_type), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_text_border(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b20_b) == sp_Style_indent(sp_Style_text_border(s, b20_b), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_theme_color(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b21_theme_color) == sp_Style_indent(sp_Style_theme_color(s, b21_theme_color), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_theme_shade(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b22_theme_shade) == sp_Style_indent(sp_Style_theme_shade(s, b22_theme_shade), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_theme_tint(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b23_theme_tint) == sp_Style_indent(sp_Style_theme_tint(s, b23_theme_tint), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_ui_priority(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b24_ui_priority) == sp_Style_indent(sp_Style_ui_priority(s, b24_ui_priority), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_underline(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b25_line_type) == sp_Style_indent(sp_Style_underline(s, b25_line_type), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_unhide_when_used(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Style_indent(sp_Style_unhide_when_used(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_vanish(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Style_indent(sp_Style_vanish(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Style_width(sp_Style_indent(s, a_left, a_special_indent, a_end, a_start_chars), b28_w, b28_t) == sp_Style_indent(sp_Style_width(s, b28_w, b28_t), a_left, a_special_indent, a_end, a_start_chars),
{}
pub proof fn order_Style_italic(s: Style, b0_t: TableLayoutType, b1_spacing: LineSpacing, b2_link: Seq<char>, b3_margins: TableCellMargins, b4_name: Seq<char>, b5_next: Seq<char>, b6_q_format: bool, b8_border: TableBorder, b9_borders: TableBorders, b10_shading: Shading, b11_size: usize, b12_v: bool, b13_s: Seq<char>, b14_v: TableAlignmentType, b15_p: TableCellProperty, b16_v: i32, b17_p: TableProperty, b18_alignment_type: TextAlignmentType, b19_b: TextBorder, b20_theme_color: ThemeColor, b21_theme_shade: Seq<char>, b22_theme_tint: Seq<char>, b23_ui_priority: usize, b24_line_type: Seq<char>, b27_w: usize, b27_t: WidthType)
  ensures
    sp_Style_layout(sp_Style_italic(s), b0_t) == sp_Style_italic(sp_Style_layout(s, b0_t)),
    sp_Style_line_spacing(sp_Style_italic(s), b1_spacing) == sp_Style_italic(sp_Style_line_spacing(s, b1_spacing)),
    sp_Style_link(sp_Style_italic(s), b2_link) == sp_Style_italic(sp_Style_link(s, b2_link)),
    sp_Style_margins(sp_Style_italic(s), b3_margins) == sp_Style_italic(sp_Style_margins(s, b3_margins)),
    sp_Style_name(sp_Style_italic(s), b4_name) == sp_Style_italic(sp_Style_name(s, b4_name)),
    sp_Style_next(sp_Style_italic(s), b5_next) == sp_Style_italic(sp_Style_next(s, b5_next)),
    sp_Style_q_format(sp_Style_italic(s), b6_q_format) == sp_Style_italic(sp_Style_q_format(s, b6_q_format)),
    sp_Style_semi_hidden(sp_Style_italic(s)) == sp_Style_italic(sp_Style_semi_hidden(s)),
    sp_Style_set_border(sp_Style_italic(s), b8_border) == sp_Style_italic(sp_Style_set_border(s, b8_border)),
    sp_Style_set_borders(sp_Style_italic(s), b9_borders) == sp_Style_italic(sp_Style_set_borders(s, b9_borders)),
    sp_Style_shading(sp_Style_italic(s), b10_shading) == sp_Style_italic(sp_Style_shading(s, b10_shading)),
    sp_Style_size(sp_Style_italic(s), b11_size) == sp_Style_italic(sp_Style_size(s, b11_size)),
    sp_Style_snap_to_grid(sp_Style_italic(s), b12_v) == sp_Style_italic(sp_Style_snap_to_grid(s, b12_v)),
    sp_Style_style(sp_Style_italic(s), b13_s) == sp_Style_italic(sp_Style_style(s, b13_s)),
    sp_Style_table_align(sp_Style_italic(s), b14_v) == sp_Style_italic(sp_Style_table_align(s, b14_v)),
    sp_Style_table_cell_property(sp_Style_italic(s), b15_p) == sp_Style_italic(sp_Style_table_cell_property(s, b15_p)),
    sp_Style_table_indent(sp_Style_italic(s), b16_v) == sp_Style_italic(sp_Style_table_indent(s, b16_v)),
    sp_Style_table_property(sp_Style_italic(s), b17_p) == sp_Style_italic(sp_Style_table_property(s, b17_p)),
    sp_Style_text_alignment(sp_Style_italic(s), b18_alignment_type) == sp_Style_italic(sp_Style_text_alignment(s, b18_alignment_type)),
    sp_Style_text_border(sp_Style_italic(s), b19_b) == sp_Style_italic(sp_Style_text_border(s, b19_b)),
    sp_Style_theme_color(sp_Style_italic(s), b20_theme_color) == sp_Style_italic(sp_Style_theme_color(s, b20_theme_color)),
    sp_Style_theme_shade(sp_Style_italic(s), b21_theme_shade) == sp_Style_italic(sp_Style_theme_shade(s, b21_theme_shade)),
    sp_Style_theme_tint(sp_Style_italic(s), b22_theme_tint) == sp_Style_italic(sp_Style_theme_tint(s, b22_theme_tint)),
    sp_Style_ui_priority(sp_Style_italic(s), b23_ui_priority) == sp_Style_italic(sp_Style_ui_priority(s, b23_ui_priority)),
    sp_Style_underline(sp_Style_italic(s), b24_line_type) == sp_Style_italic(sp_Style_underline(s, b24_line_type)),
    sp_Style_unhide_when_used(sp_Style_italic(s)) == sp_Style_italic(sp_Style_unhide_when_used(s)),
    sp_Style_vanish(sp_Style_italic(s)) == sp_Style_italic(sp_Style_vanish(s)),
    sp_Style_width(sp_Style_italic(s), b27_w, b27_t) == sp_Style_italic(sp_Style_width(s, b27_w, b27_t)),
{}
pub proof fn order_Style_layout(s: Style, a_t: TableLayoutType, b0_spacing: LineSpacing, b1_link: Seq<char>, b2_margins: TableCellMargins, b3_name: Seq<char>, b4_next: Seq<char>, b5_q_format: bool, b7_border: TableBorder, b8_borders: TableBorders, b9_shading: Shading, b10_size: usize, b11_v: bool, b12_s: Seq<char>, b13_v: TableAlignmentType, b14_p: TableCellProperty, b15_v: i32, b16_alignment_type: TextAlignmentType, b17_b: TextBorder, b18_theme_color: ThemeColor, b19_theme_shade: Seq<char>, b20_theme_tint: Seq<char>, b21_ui_priority: usize, b22_line_type: Seq<char>, b25_w: usize, b25_t: WidthType)
  ensures
    sp_Style_line_spacing(sp_Style_layout(s, a_t), b0_spacing) == sp_Style_layout(sp_Style_line_spacing(s, b0_spacing), a_t),
    sp_Style_link(sp_Style_layout(s, a_t), b1_link) == sp_Style_layout(sp_Style_link(s, b1_link), a_t),
    sp_Style_margins(sp_Style_layout(s, a_t), b2_margins) == sp_Style_layout(sp_Style_margins(s, b2_margins), a_t),
    sp_Style_name(sp_Style_layout(s, a_t), b3_name) == sp_Style_layout(sp_Style_name(s, b3_name), a_t),
    sp_Style_next(sp_Style_layout(s, a_t), b4_next) == sp_Style_layout(sp_Style_next(s, b4_next), a_t),
    sp_Style_q_format(sp_Style_layout(s, a_t), b5_q_format) == sp_Style_layout(sp_Style_q_format(s, b5_q_format), a_t),
    sp_Style_semi_hidden(sp_Style_layout(s, a_t)) == sp_Style_layout(sp_Style_semi_hidden(s), a_t),
    sp_Style_set_border(sp_Style_layout(s, a_t), b7_border) == sp_Style_layout(sp_Style_set_border(s, b7_border), a_t),
    sp_Style_set_borders(sp_Style_layout(s, a_t), b8_borders) == sp_Style_layout(sp_Style_set_borders(s, b8_borders), a_t),
    sp_Style_shading(sp_Style_layout(s, a_t), b9_shading) == sp_Style_layout(sp_Style_shading(s, b9_shading), a_t),
    sp_Style_size(sp_Style_layout(s, a_t), b10_size) == sp_Style_layout(sp_Style_size(s, b10_size), a_t),
    sp_Style_snap_to_grid(sp_Style_layout(s, a_t), b11_v) == sp_Style_layout(sp_Style_snap_to_grid(s, b11_v), a_t),
    sp_Style_style(sp_Style_layout(s, a_t), b12_s) == sp_Style_layout(sp_Style_style(s, b12_s), a_t),
    sp_Style_table_align(sp_Style_layout(s, a_t), b13_v) == sp_Style_layout(sp_Style_table_align(s, b13_v), a_t),
    sp_Style_table_cell_property(sp_Style_layout(s, a_t), b14_p) == sp_Style_layout(sp_Style_table_cell_property(s, b14_p), a_t),
    sp_Style_table_indent(sp_Style_layout(s, a_t), b15_v) == sp_Style_layout(sp_Style_table_indent(s, b15_v), a_t),
    sp_Style_text_alignment(sp_Style_layout(s, a_t), b16_alignment_type) == sp_Style_layout(sp_Style_text_alignment(s, b16_alignment_type), a_t),
    sp_Style_text_border(sp_Style_layout(s, a_t), b17_b) == sp_Style_layout(sp_Style_text_border(s, b17_b), a_t),
    sp_Style_theme_color(sp_Style_layout(s, a_t), b18_theme_color) == sp_Style_layout(sp_Style_theme_color(s, b18_theme_color), a_t),
    sp_Style_theme_shade(sp_Style_layout(s, a_t), b19_theme_shade) == sp_Style_layout(sp_Style_theme_shade(s, b19_theme_shade), a_t),
    sp_Style_theme_tint(sp_Style_layout(s, a_t), b20_theme_tint) == sp_Style_layout(sp_Style_theme_tint(s, b20_theme_tint), a_t),
    sp_Style_ui_priority(sp_Style_layout(s, a_t), b21_ui_priority) == sp_Style_layout(sp_Style_ui_priority(s, b21_ui_priority), a_t),
    sp_Style_underline(sp_Style_layout(s, a_t), b22_line_type) == sp_Style_layout(sp_Style_underline(s, b22_line_type), a_t),
    sp_Style_unhide_when_used(sp_Style_layout(s, a_t)) == sp_Style_layout(sp_Style_unhide_when_used(s), a_t),
    sp_Style_vanish(sp_Style_layout(s, a_t)) == sp_Style_layout(sp_Style_vanish(s), a_t),
    sp_Style_width(sp_Style_layout(s, a_t), b25_w, b25_t) == sp_Style_layout(sp_Style_width(s, b25_w, b25_t), a_t),
{}
pub proof fn order_Style_line_spacing(s: Style, a_spacing: LineSpacing, b0_link: Seq<char>, b1_margins: TableCellMargins, b2_name: Seq<char>, b3_next: Seq<char>, b4_q_format: bool, b6_border: TableBorder, b7_borders: TableBorders, b8_shading: Shading, b9_size: usize, b10_v: bool, b11_s: Seq<char>, b12_v: TableAlignmentType, b13_p: TableCellProperty, b14_v: i32, b15_p: TableProperty, b16_alignment_type: TextAlignmentType, b17_b: TextBorder, b18_theme_color: ThemeColor, b19_theme_shade: Seq<char>, b20_theme_tint: Seq<char>, b21_ui_priority: usize, b22_line_type: Seq<char>, b25_w: usize, b25_t: WidthType)
  ensures
    sp_Style_link(sp_Style_line_spacing(s, a_spacing), b0_link) == sp_Style_line_spacing(sp_Style_link(s, b0_link), a_spacing),
    sp_Style_margins(sp_Style_line_spacing(s, a_spacing), b1_margins) == sp_Style_line_spacing(sp_Style_margins(s, b1_margins), a_spacing),
    sp_Style_name(sp_Style_line_spacing(s, a_spacing), b2_name) == sp_Style_line_spacing(sp_Style_name(s, b2_name), a_spacing),
    sp_Style_next(sp_Style_line_spacing(s, a_spacing), b3_next) == sp_Style_line_spacing(sp_Style_next(s, b3_next), a_spacing),
    sp_Style_q_format(sp_Style_line_spacing(s, a_spacing), b4_q_format) == sp_Style_line_spacing(sp_Style_q_format(s, b4_q_format), a_spacing),
    sp_Style_semi_hidden(sp_Style_line_spacing(s, a_spacing)) == sp_Style_line_spacing(sp_Style_semi_hidden(s), a_spacing),
    sp_Style_set_border(sp_Style_line_spacing(s, a_spacing), b6_border) == sp_Style_line_spacing(sp_Style_set_border(s, b6_border), a_spacing),
    sp_Style_set_borders(sp_Style_line_spacing(s, a_spacing), b7_borders) == sp_Style_line_spacing(sp_Style_set_borders(s, b7_borders), a_spacing),
    sp_Style_shading(sp_Style_line_spacing(s, a_spacing), b8_shading) == sp_Style_line_spacing(sp_Style_shading(s, b8_shading), a_spacing),
    sp_Style_size(sp_Style_line_spacing(s, a_spacing), b9_size) == sp_Style_line_spacing(sp_Style_size(s, b9_size), a_spacing),
    sp_Style_snap_to_grid(sp_Style_line_spacing(s, a_spacing), b10_v) == sp_Style_line_spacing(sp_Style_snap_to_grid(s, b10_v), a_spacing),
    sp_Style_style(sp_Style_line_spacing(s, a_spacing), b11_s) == sp_Style_line_spacing(sp_Style_style(s, b11_s), a_spacing),
    sp_Style_table_align(sp_Style_line_spacing(s, a_spacing), b12_v) == sp_Style_line_spacing(sp_Style_table_align(s, b12_v), a_spacing),
    sp_Style_table_cell_property(sp_Style_line_spacing(s, a_spacing), b13_p) == sp_Style_line_spacing(sp_Style_table_cell_property(s, b13_p), a_spacing),
    sp_Style_table_indent(sp_Style_line_spacing(s, a_spacing), b14_v) == sp_Style_line_spacing(sp_Style_table_indent(s, b14_v), a_spacing),
    sp_Style_table_property(sp_Style_line_spacing(s, a_spacing), b15_p) == sp_Style_line_spacing(sp_Style_table_property(s, b15_p), a_spacing),
    sp_Style_text_alignment(sp_Style_line_spacing(s, a_spacing), b16_alignment_type) == sp_Style_line_spacing(sp_Style_text_alignment(s, b16_alignment_type), a_spacing),
    sp_Style_text_border(sp_Style_line_spacing(s, a_spacing), b17_b) == sp_Style_line_spacing(sp_Style_text_border(s, b17_b), a_spacing),
    sp_Style_theme_color(sp_Style_line_spacing(s, a_spacing), b18_theme_color) == sp_Style_line_spacing(sp_Style_theme_color(s, b18_theme_color), a_spacing),
    sp_Style_theme_shade(sp_Style_line_spacing(s, a_spacing), b19_theme_shade) == sp_Style_line_spacing(sp_Style_theme_shade(s, b19_theme_shade), a_spacing),
    sp_Style_theme_tint(sp_Style_line_spacing(s, a_spacing), b20_theme_tint) == sp_Style_line_spacing(sp_Style_theme_tint(s, b20_theme_tint), a_spacing),
    sp_Style_ui_priority(sp_Style_line_spacing(s, a_spacing), b21_ui_priority) == sp_Style_line_spacing(sp_Style_ui_priority(s, b21_ui_priority), a_spacing),
    sp_Style_underline(sp_Style_line_spacing(s, a_spacing), b22_line_type) == sp_Style_line_spacing(sp_Style_underline(s, b22_line_type), a_spacing),
    sp_Style_unhide_when_used(sp_Style_line_spacing(s, a_spacing)) == sp_Style_line_spacing(sp_Style_unhide_when_used(s), a_spacing),
    sp_Style_vanish(sp_Style_line_spacing(s, a_spacing)) == sp_Style_line_spacing(sp_Style_vanish(s), a_spacing),
    sp_Style_width(sp_Style_line_spacing(s, a_spacing), b25_w, b25_t) == sp_Style_line_spacing(sp_Style_width(s, b25_w, b25_t), a_spacing),
{}
pub proof fn order_Style_link(s: Style, a_link: Seq<char>, b0_margins: TableCellMargins, b1_name: Seq<char>, b2_next: Seq<char>, b3_q_format: bool, b5_border: TableBorder, b6_borders: TableBorders, b7_shading: Shading, b8_size: usize, b9_v: bool, b10_s: Seq<char>, b11_v: TableAlignmentType, b12_p: TableCellProperty, b13_v: i32, b14_p: TableProperty, b15_alignment_type: TextAlignmentType, b16_b: TextBorder, b17_theme_color: ThemeColor, b18_theme_shade: Seq<char>, b19_theme_tint: Seq<char>, b20_ui_priority: usize, b21_line_type: Seq<char>, b24_w: usize, b24_t: WidthType)
  ensures
    sp_Style_margins(sp_Style_link(s, a_link), b0_margins) == sp_Style_link(sp_Style_margins(s, b0_margins), a_link),
    sp_Style_name(sp_Style_link(s, a_link), b1_name) == sp_Style_link(sp_Style_name(s, b1_name), a_link),
    sp_Style_next(sp_Style_link(s, a_link), b2_next) == sp_Style_link(sp_Style_next(s, b2_next), a_link),
    sp_Style_q_format(sp_Style_link(s, a_link), b3_q_format) == sp_Style_link(sp_Style_q_format(s, b3_q_format), a_link),
    sp_Style_semi_hidden(sp_Style_link(s, a_link)) == sp_Style_link(sp_Style_semi_hidden(s), a_link),
    sp_Style_set_border(sp_Style_link(s, a_link), b5_border) == sp_Style_link(sp_Style_set_border(s, b5_border), a_link),
    sp_Style_set_borders(sp_Style_link(s, a_link), b6_borders) == sp_Style_link(sp_Style_set_borders(s, b6_borders), a_link),
    sp_Style_shading(sp_Style_link(s, a_link), b7_shading) == sp_Style_link(sp_Style_shading(s, b7_shading), a_link),
    sp_Style_size(sp_Style_link(s, a_link), b8_size) == sp_Style_link(sp_Style_size(s, b8_size), a_link),
    sp_Style_snap_to_grid(sp_Style_link(s, a_link), b9_v) == sp_Style_link(sp_Style_snap_to_grid(s, b9_v), a_link),
    sp_Style_style(sp_Style_link(s, a_link), b10_s) == sp_Style_link(sp_Style_style(s, b10_s), a_link),
    sp_Style_table_align(sp_Style_link(s, a_link), b11_v) == sp_Style_link(sp_Style_table_align(s, b11_v), a_link),
    sp_Style_table_cell_property(sp_Style_link(s, a_link), b12_p) == sp_Style_link(sp_Style_table_cell_property(s, b12_p), a_link),
    sp_Style_table_indent(sp_Style_link(s, a_link), b13_v) == sp_Style_link(sp_Style_table_indent(s, b13_v), a_link),
    sp_Style_table_property(sp_Style_link(s, a_link), b14_p) == sp_Style_link(sp_Style_table_property(s, b14_p), a_link),
    sp_Style_text_alignment(sp_Style_link(s, a_link), b15_alignment_type) == sp_Style_link(sp_Style_text_alignment(s, b15_alignment_type), a_link),
    sp_Style_text_border(sp_Style_link(s, a_link), b16_b) == sp_Style_link(sp_Style_text_border(s, b16_b), a_link),
    sp_Style_theme_color(sp_Style_link(s, a_link), b17_theme_color) == sp_Style_link(sp_Style_theme_color(s, b17_theme_color), a_link),
    sp_Style_theme_shade(sp_Style_link(s, a_link), b18_theme_shade) == sp_Style_link(sp_Style_theme_shade(s, b18_theme_shade), a_link),
    sp_Style_theme_tint(sp_Style_link(s, a_link), b19_theme_tint) == sp_Style_link(sp_Style_theme_tint(s, b19_theme_tint), a_link),
    sp_Style_ui_priority(sp_Style_link(s, a_link), b20_ui_priority) == sp_Style_link(sp_Style_ui_priority(s, b20_ui_priority), a_link),
    sp_Style_underline(sp_Style_link(s, a_link), b21_line_type) == sp_Style_link(sp_Style_underline(s, b21_line_type), a_link),
    sp_Style_unhide_when_used(sp_Style_link(s, a_link)) == sp_Style_link(sp_Style_unhide_when_used(s), a_link),
    sp_Style_vanish(sp_Style_link(s, a_link)) == sp_Style_link(sp_Style_vanish(s), a_link),
    sp_Style_width(sp_Style_link(s, a_link), b24_w, b24_t) == sp_Style_link(sp_Style_width(s, b24_w, b24_t), a_link),
{}
pub proof fn order_Style_margins(s: Style, a_margins: TableCellMargins, b0_name: Seq<char>, b1_next: Seq<char>, b2_q_format: bool, b4_border: TableBorder, b5_borders: TableBorders, b6_shading: Shading, b7_size: usize, b8_v: bool, b9_s: Seq<char>, b10_v: TableAlignmentType, b11_p: TableCellProperty, b12_v: i32, b13_alignment_type: TextAlignmentType, b14_b: TextBorder, b15_theme_color: ThemeColor, b16_theme_shade: Seq<char>, b17_theme_tint: Seq<char>, b18_ui_priority: usize, b19_line_type: Seq<char>, b22_w: usize, b22_t: WidthType)
  ensures
    sp_Style_name(sp_Style_margins(s, a_margins), b0_name) == sp_Style_margins(sp_Style_name(s, b0_name), a_margins),
    sp_Style_next(sp_Style_margins(s, a_margins), b1_next) == sp_Style_margins(sp_Style_next(s, b1_next), a_margins),
    sp_Style_q_format(sp_Style_margins(s, a_margins), b2_q_format) == sp_Style_margins(sp_Style_q_format(s, b2_q_format), a_margins),
    sp_Style_semi_hidden(sp_Style_margins(s, a_margins)) == sp_Style_margins(sp_Style_semi_hidden(s), a_margins),
    sp_Style_set_border(sp_Style_margins(s, a_margins), b4_border) == sp_Style_margins(sp_Style_set_border(s, b4_border), a_margins),
    sp_Style_set_borders(sp_Style_margins(s, a_margins), b5_borders) == sp_Style_margins(sp_Style_set_borders(s, b5_borders), a_margins),
    sp_Style_shading(sp_Style_margins(s, a_margins), b6_shading) == sp_Style_margins(sp_Style_shading(s, b6_shading), a_margins),
    sp_Style_size(sp_Style_margins(s, a_margins), b7_size) == sp_Style_margins(sp_Style_size(s, b7_size), a_margins),
    sp_Style_snap_to_grid(sp_Style_margins(s, a_margins), b8_v) == sp_Style_margins(sp_Style_snap_to_grid(s, b8_v), a_margins),
    sp_Style_style(sp_Style_margins(s, a_margins), b9_s) == sp_Style_margins(sp_Style_style(s, b9_s), a_margins),
    sp_Style_table_align(sp_Style_margins(s, a_margins), b10_v) == sp_Style_margins(sp_Style_table_align(s, b10_v), a_margins),
    sp_Style_table_cell_property(sp_Style_margins(s, a_margins), b11_p) == sp_Style_margins(sp_Style_table_cell_property(s, b11_p), a_margins),
    sp_Style_table_indent(sp_Style_margins(s, a_margins), b12_v) == sp_Style_margins(sp_Style_table_indent(s, b12_v), a_margins),
    sp_Style_text_alignment(sp_Style_margins(s, a_margins), b13_alignment_type) == sp_Style_margins(sp_Style_text_alignment(s, b13_alignment_type), a_margins),
    sp_Style_text_border(sp_Style_margins(s, a_margins), b14_b) == sp_Style_margins(sp_Style_text_border(s, b14_b), a_margins),
    sp_Style_theme_color(sp_Style_margins(s, a_margins), b15_theme_color) == sp_Style_margins(sp_Style_theme_color(s, b15_theme_color), a_margins),
    sp_Style_theme_shade(sp_Style_margins(s, a_margins), b16_theme_shade) == sp_Style_margins(sp_Style_theme_shade(s, b16_theme_shade), a_margins),
    sp_Style_theme_tint(sp_Style_margins(s, a_margins), b17_theme_tint) == sp_Style_margins(sp_Style_theme_tint(s, b17_theme_tint), a_margins),
    sp_Style_ui_priority(sp_Style_margins(s, a_margins), b18_ui_priority) == sp_Style_margins(sp_Style_ui_priority(s, b18_ui_priority), a_margins),
    sp_Style_underline(sp_Style_margins(s, a_margins), b19_line_type) == sp_Style_margins(sp_Style_underline(s, b19_line_type), a_margins),
    sp_Style_unhide_when_used(sp_Style_margins(s, a_margins)) == sp_Style_margins(sp_Style_unhide_when_used(s), a_margins),
    sp_Style_vanish(sp_Style_margins(s, a_margins)) == sp_Style_margins(sp_Style_vanish(s), a_margins),
    sp_Style_width(sp_Style_margins(s, a_margins), b22_w, b22_t) == sp_Style_margins(sp_Style_width(s, b22_w, b22_t), a_margins),
{}
pub proof fn order_Style_name(s: Style, a_name: Seq<char>, b0_next: Seq<char>, b1_q_format: bool, b3_border: TableBorder, b4_borders: TableBorders, b5_shading: Shading, b6_size: usize, b7_v: bool, b8_s: Seq<char>, b9_v: TableAlignmentType, b10_p: TableCellProperty, b11_v: i32, b12_p: TableProperty, b13_alignment_type: TextAlignmentType, b14_b: TextBorder, b15_theme_color: ThemeColor, b16_theme_shade: Seq<char>, b17_theme_tint: Seq<char>, b18_ui_priority: usize, b19_line_type: Seq<char>, b22_w: usize, b22_t: WidthType)
  ensures
    sp_Style_next(sp_Style_name(s, a_name), b0_next) == sp_Style_name(sp_Style_next(s, b0_next), a_name),
    sp_Style_q_format(sp_Style_name(s, a_name), b1_q_format) == sp_Style_name(sp_Style_q_format(s, b1_q_format), a_name),
    sp_Style_semi_hidden(sp_Style_name(s, a_name)) == sp_Style_name(sp_Style_semi_hidden(s), a_name),
    sp_Style_set_border(sp_Style_name(s, a_name), b3_border) == sp_Style_name(sp_Style_set_border(s, b3_border), a_name),
    sp_Style_set_borders(sp_Style_name(s, a_name), b4_borders) == sp_Style_name(sp_Style_set_borders(s, b4_borders), a_name),
    sp_Style_shading(sp_Style_name(s, a_name), b5_shading) == sp_Style_name(sp_Style_shading(s, b5_shading), a_name),
    sp_Style_size(sp_Style_name(s, a_name), b6_size) == sp_Style_name(sp_Style_size(s, b6_size), a_name),
    sp_Style_snap_to_grid(sp_Style_name(s, a_name), b7_v) == sp_Style_name(sp_Style_snap_to_grid(s, b7_v), a_name),
    sp_Style_style(sp_Style_name(s, a_name), b8_s) == sp_Style_name(sp_Style_style(s, b8_s), a_name),
    sp_Style_table_align(sp_Style_name(s, a_name), b9_v) == sp_Style_name(sp_Style_table_align(s, b9_v), a_name),
    sp_Style_table_cell_property(sp_Style_name(s, a_name), b10_p) == sp_Style_name(sp_Style_table_cell_property(s, b10_p), a_name),
    sp_Style_table_indent(sp_Style_name(s, a_name), b11_v) == sp_Style_name(sp_Style_table_indent(s, b11_v), a_name),
    sp_Style_table_property(sp_Style_name(s, a_name), b12_p) == sp_Style_name(sp_Style_table_property(s, b12_p), a_name),
    sp_Style_text_alignment(sp_Style_name(s, a_name), b13_alignment_type) == sp_Style_name(sp_Style_text_alignment(s, b13_alignment_type), a_name),
    sp_Style_text_border(sp_Style_name(s, a_name), b14_b) == sp_Style_name(sp_Style_text_border(s, b14_b), a_name),
    sp_Style_theme_color(sp_Style_name(s, a_name), b15_theme_color) == sp_Style_name(sp_Style_theme_color(s, b15_theme_color), a_name),
    sp_Style_theme_shade(sp_Style_name(s, a_name), b16_theme_shade) == sp_Style_name(sp_Style_theme_shade(s, b16_theme_shade), a_name),
    sp_Style_theme_tint(sp_Style_name(s, a_name), b17_theme_tint) == sp_Style_name(sp_Style_theme_tint(s, b17_theme_tint), a_name),
    sp_Style_ui_priority(sp_Style_name(s, a_name), b18_ui_priority) == sp_Style_name(sp_Style_ui_priority(s, b18_ui_priority), a_name),
    sp_Style_underline(sp_Style_name(s, a_name), b19_line_type) == sp_Style_name(sp_Style_underline(s, b19_line_type), a_name),
    sp_Style_unhide_when_used(sp_Style_name(s, a_name)) == sp_Style_name(sp_Style_unhide_when_used(s), a_name),
    sp_Style_vanish(sp_Style_name(s, a_name)) == sp_Style_name(sp_Style_vanish(s), a_name),
    sp_Style_width(sp_Style_name(s, a_name), b22_w, b22_t) == sp_Style_name(sp_Style_width(s, b22_w, b22_t), a_name),
{}
pub proof fn order_Style_next(s: Style, a_next: Seq<char>, b0_q_format: bool, b2_border: TableBorder, b3_borders: TableBorders, b4_shading: Shading, b5_size: usize, b6_v: bool, b7_s: Seq<char>, b8_v: TableAlignmentType, b9_p: TableCellProperty, b10_v: i32, b11_p: TableProperty, b12_alignment_type: TextAlignmentType, b13_b: TextBorder, b14_theme_color: ThemeColor, b15_theme_shade: Seq<char>, b16_theme_tint: Seq<char>, b17_ui_priority: usize, b18_line_type: Seq<char>, b21_w: usize, b21_t: WidthType)
  ensures
    sp_Style_q_format(sp_Style_next(s, a_next), b0_q_format) == sp_Style_next(sp_Style_q_format(s, b0_q_format), a_next),
    sp_Style_semi_hidden(sp_Style_next(s, a_next)) == sp_Style_next(sp_Style_semi_hidden(s), a_next),
    sp_Style_set_border(sp_Style_next(s, a_next), b2_border) == sp_Style_next(sp_Style_set_border(s, b2_border), a_next),
    sp_Style_set_borders(sp_Style_next(s, a_next), b3_borders) == sp_Style_next(sp_Style_set_borders(s, b3_borders), a_next),
    sp_Style_shading(sp_Style_next(s, a_next), b4_shading) == sp_Style_next(sp_Style_shading(s, b4_shading), a_next),
    sp_Style_size(sp_Style_next(s, a_next), b5_size) == sp_Style_next(sp_Style_size(s, b5_size), a_next),
    sp_Style_snap_to_grid(sp_Style_next(s, a_next), b6_v) == sp_Style_next(sp_Style_snap_to_grid(s, b6_v), a_next),
    sp_Style_style(sp_Style_next(s, a_next), b7_s) == sp_Style_next(sp_Style_style(s, b7_s), a_next),
    sp_Style_table_align(sp_Style_next(s, a_next), b8_v) == sp_Style_next(sp_Style_table_align(s, b8_v), a_next),
    sp_Style_table_cell_property(sp_Style_next(s, a_next), b9_p) == sp_Style_next(sp_Style_table_cell_property(s, b9_p), a_next),
    sp_Style_table_indent(sp_Style_next(s, a_next), b10_v) == sp_Style_next(sp_Style_table_indent(s, b10_v), a_next),
    sp_Style_table_property(sp_Style_next(s, a_next), b11_p) == sp_Style_next(sp_Style_table_property(s, b11_p), a_next),
    sp_Style_text_alignment(sp_Style_next(s, a_next), b12_alignment_type) == sp_Style_next(sp_Style_text_alignment(s, b12_alignment_type), a_next),
    sp_Style_text_border(sp_Style_next(s, a_next), b13_b) == sp_Style_next(sp_Style_text_border(s, b13_b), a_next),
    sp_Style_theme_color(sp_Style_next(s, a_next), b14_theme_color) == sp_Style_next(sp_Style_theme_color(s, b14_theme_color), a_next),
    sp_Style_theme_shade(sp_Style_next(s, a_next), b15_theme_shade) == sp_Style_next(sp_Style_theme_shade(s, b15_theme_shade), a_next),
    sp_Style_theme_tint(sp_Style_next(s, a_next), b16_theme_tint) == sp_Style_next(sp_Style_theme_tint(s, b16_theme_tint), a_next),
    sp_Style_ui_priority(sp_Style_next(s, a_next), b17_ui_priority) == sp_Style_next(sp_Style_ui_priority(s, b17_ui_priority), a_next),
    sp_Style_underline(sp_Style_next(s, a_next), b18_line_type) == sp_Style_next(sp_Style_underline(s, b18_line_type), a_next),
    sp_Style_unhide_when_used(sp_Style_next(s, a_next)) == sp_Style_next(sp_Style_unhide_when_used(s), a_next),
    sp_Style_vanish(sp_Style_next(s, a_next)) == sp_Style_next(sp_Style_vanish(s), a_next),
    sp_Style_width(sp_Style_next(s, a_next), b21_w, b21_t) == sp_Style_next(sp_Style_width(s, b21_w, b21_t), a_next),
{}
pub proof fn order_Style_q_format(s: Style, a_q_format: bool, b1_border: TableBorder, b2_borders: TableBorders, b3_shading: Shading, b4_size: usize, b5_v: bool, b6_s: Seq<char>, b7_v: TableAlignmentType, b8_p: TableCellProperty, b9_v: i32, b10_p: TableProperty, b11_alignment_type: TextAlignmentType, b12_b: TextBorder, b13_theme_color: ThemeColor, b14_theme_shade: Seq<char>, b15_theme_tint: Seq<char>, b16_ui_priority: usize, b17_line_type: Seq<char>, b20_w: usize, b20_t: WidthType)
  ensures
    sp_Style_semi_hidden(sp_Style_q_format(s, a_q_format)) == sp_Style_q_format(sp_Style_semi_hidden(s), a_q_format),
    sp_Style_set_border(sp_Style_q_format(s, a_q_format), b1_border) == sp_Style_q_format(sp_Style_set_border(s, b1_border), a_q_format),
    sp_Style_set_borders(sp_Style_q_format(s, a_q_format), b2_borders) == sp_Style_q_format(sp_Style_set_borders(s, b2_borders), a_q_format),
    sp_Style_shading(sp_Style_q_format(s, a_q_format), b3_shading) == sp_Style_q_format(sp_Style_shading(s, b3_shading), a_q_format),
    sp_Style_size(sp_Style_q_format(s, a_q_format), b4_size) == sp_Style_q_format(sp_Style_size(s, b4_size), a_q_format),
    sp_Style_snap_to_grid(sp_Style_q_format(s, a_q_format), b5_v) == sp_Style_q_format(sp_Style_snap_to_grid(s, b5_v), a_q_format),
    sp_Style_style(sp_Style_q_format(s, a_q_format), b6_s) == sp_Style_q_format(sp_Style_style(s, b6_s), a_q_format),
    sp_Style_table_align(sp_Style_q_format(s, a_q_format), b7_v) == sp_Style_q_format(sp_Style_table_align(s, b7_v), a_q_format),
    sp_Style_table_cell_property(sp_Style_q_format(s, a_q_format), b8_p) == sp_Style_q_format(sp_Style_table_cell_property(s, b8_p), a_q_format),
    sp_Style_table_indent(sp_Style_q_format(s, a_q_format), b9_v) == sp_Style_q_format(sp_Style_table_indent(s, b9_v), a_q_format),
    sp_Style_table_property(sp_Style_q_format(s, a_q_format), b10_p) == sp_Style_q_format(sp_Style_table_property(s, b10_p), a_q_format),
    sp_Style_text_alignment(sp_Style_q_format(s, a_q_format), b11_alignment_type) == sp_Style_q_format(sp_Style_text_alignment(s, b11_alignment_type), a_q_format),
    sp_Style_text_border(sp_Style_q_format(s, a_q_format), b12_b) == sp_Style_q_format(sp_Style_text_border(s, b12_b), a_q_format),
    sp_Style_theme_color(sp_Style_q_format(s, a_q_format), b13_theme_color) == sp_Style_q_format(sp_Style_theme_color(s, b13_theme_color), a_q_format),
    sp_Style_theme_shade(sp_Style_q_format(s, a_q_format), b14_theme_shade) == sp_Style_q_format(sp_Style_theme_shade(s, b14_theme_shade), a_q_format),
    sp_Style_theme_tint(sp_Style_q_format(s, a_q_format), b15_theme_tint) == sp_Style_q_format(sp_Style_theme_tint(s, b15_theme_tint), a_q_format),
    sp_Style_ui_priority(sp_Style_q_format(s, a_q_format), b16_ui_priority) == sp_Style_q_format(sp_Style_ui_priority(s, b16_ui_priority), a_q_format),
    sp_Style_underline(sp_Style_q_format(s, a_q_format), b17_line_type) == sp_Style_q_format(sp_Style_underline(s, b17_line_type), a_q_format),
    sp_Style_unhide_when_used(sp_Style_q_format(s, a_q_format)) == sp_Style_q_format(sp_Style_unhide_when_used(s), a_q_format),
    sp_Style_vanish(sp_Style_q_format(s, a_q_format)) == sp_Style_q_format(sp_Style_vanish(s), a_q_format),
    sp_Style_width(sp_Style_q_format(s, a_q_format), b20_w, b20_t) == sp_Style_q_format(sp_Style_width(s, b20_w, b20_t), a_q_format),
{}
pub proof fn order_Style_semi_hidden(s: Style, b0_border: TableBorder, b1_borders: TableBorders, b2_shading: Shading, b3_size: usize, b4_v: bool, b5_s: Seq<char>, b6_v: TableAlignmentType, b7_p: TableCellProperty, b8_v: i32, b9_p: TableProperty, b10_alignment_type: TextAlignmentType, b11_b: TextBorder, b12_theme_color: ThemeColor, b13_theme_shade: Seq<char>, b14_theme_tint: Seq<char>, b15_ui_priority: usize, b16_line_type: Seq<char>, b19_w: usize, b19_t: WidthType)
  ensures
    sp_Style_set_border(sp_Style_semi_hidden(s), b0_border) == sp_Style_semi_hidden(sp_Style_set_border(s, b0_border)),
    sp_Style_set_borders(sp_Style_semi_hidden(s), b1_borders) == sp_Style_semi_hidden(sp_Style_set_borders(s, b1_borders)),
    sp_Style_shading(sp_Style_semi_hidden(s), b2_shading) == sp_Style_semi_hidden(sp_Style_shading(s, b2_shading)),
    sp_Style_size(sp_Style_semi_hidden(s), b3_size) == sp_Style_semi_hidden(sp_Style_size(s, b3_size)),
    sp_Style_snap_to_grid(sp_Style_semi_hidden(s), b4_v) == sp_Style_semi_hidden(sp_Style_snap_to_grid(s, b4_v)),
    sp_Style_style(sp_Style_semi_hidden(s), b5_s) == sp_Style_semi_hidden(sp_Style_style(s, b5_s)),
    sp_Style_table_align(sp_Style_semi_hidden(s), b6_v) == sp_Style_semi_hidden(sp_Style_table_align(s, b6_v)),
    sp_Style_table_cell_property(sp_Style_semi_hidden(s), b7_p) == sp_Style_semi_hidden(sp_Style_table_cell_property(s, b7_p)),
    sp_Style_table_indent(sp_Style_semi_hidden(s), b8_v) == sp_Style_semi_hidden(sp_Style_table_indent(s, b8_v)),
    sp_Style_table_property(sp_Style_semi_hidden(s), b9_p) == sp_Style_semi_hidden(sp_Style_table_property(s, b9_p)),
    sp_Style_text_alignment(sp_Style_semi_hidden(s), b10_alignment_type) == sp_Style_semi_hidden(sp_Style_text_alignment(s, b10_alignment_type)),
    sp_Style_text_border(sp_Style_semi_hidden(s), b11_b) == sp_Style_semi_hidden(sp_Style_text_border(s, b11_b)),
    sp_Style_theme_color(sp_Style_semi_hidden(s), b12_theme_color) == sp_Style_semi_hidden(sp_Style_theme_color(s, b12_theme_color)),
    sp_Style_theme_shade(sp_Style_semi_hidden(s), b13_theme_shade) == sp_Style_semi_hidden(sp_Style_theme_shade(s, b13_theme_shade)),
    sp_Style_theme_tint(sp_Style_semi_hidden(s), b14_theme_tint) == sp_Style_semi_hidden(sp_Style_theme_tint(s, b14_theme_tint)),
    sp_Style_ui_priority(sp_Style_semi_hidden(s), b15_ui_priority) == sp_Style_semi_hidden(sp_Style_ui_priority(s, b15_ui_priority)),
    sp_Style_underline(sp_Style_semi_hidden(s), b16_line_type) == sp_Style_semi_hidden(sp_Style_underline(s, b16_line_type)),
    sp_Style_unhide_when_used(sp_Style_semi_hidden(s)) == sp_Style_semi_hidden(sp_Style_unhide_when_used(s)),
    sp_Style_vanish(sp_Style_semi_hidden(s)) == sp_Style_semi_hidden(sp_Style_vanish(s)),
    sp_Style_width(sp_Style_semi_hidden(s), b19_w, b19_t) == sp_Style_semi_hidden(sp_Style_width(s, b19_w, b19_t)),
{}
pub proof fn order_Style_set_border(s: Style, a_border: TableBorder, b0_shading: Shading, b1_size: usize, b2_v: bool, b3_s: Seq<char>, b4_v: TableAlignmentType, b5_p: TableCellProperty, b6_v: i32, b7_alignment_type: TextAlignmentType, b8_b: TextBorder, b9_theme_color: ThemeColor, b10_theme_shade: Seq<char>, b11_theme_tint: Seq<char>, b12_ui_priority: usize, b13_line_type: Seq<char>, b16_w: usize, b16_t: WidthType)
  ensures
    sp_Style_shading(sp_Style_set_border(s, a_border), b0_shading) == sp_Style_set_border(sp_Style_shading(s, b0_shading), a_border),
    sp_Style_size(sp_Style_set_border(s, a_border), b1_size) == sp_Style_set_border(sp_Style_size(s, b1_size), a_border),
    sp_Style_snap_to_grid(sp_Style_set_border(s, a_border), b2_v) == sp_Style_set_border(sp_Style_snap_to_grid(s, b2_v), a_border),
    sp_Style_style(sp_Style_set_border(s, a_border), b3_s) == sp_Style_set_border(sp_Style_style(s, b3_s), a_border),
    sp_Style_table_align(sp_Style_set_border(s, a_border), b4_v) == sp_Style_set_border(sp_Style_table_align(s, b4_v), a_border),
    sp_Style_table_cell_property(sp_Style_set_border(s, a_border), b5_p) == sp_Style_set_border(sp_Style_table_cell_property(s, b5_p), a_border),
    sp_Style_table_indent(sp_Style_set_border(s, a_border), b6_v) == sp_Style_set_border(sp_Style_table_indent(s, b6_v), a_border),
    sp_Style_text_alignment(sp_Style_set_border(s, a_border), b7_alignment_type) == sp_Style_set_border(sp_Style_text_alignment(s, b7_alignment_type), a_border),
    sp_Style_text_border(sp_Style_set_border(s, a_border), b8_b) == sp_Style_set_border(sp_Style_text_border(s, b8_b), a_border),
    sp_Style_theme_color(sp_Style_set_border(s, a_border), b9_theme_color) == sp_Style_set_border(sp_Style_theme_color(s, b9_theme_color), a_border),
    sp_Style_theme_shade(sp_Style_set_border(s, a_border), b10_theme_shade) == sp_Style_set_border(sp_Style_theme_shade(s, b10_theme_shade), a_border),
    sp_Style_theme_tint(sp_Style_set_border(s, a_border), b11_theme_tint) == sp_Style_set_border(sp_Style_theme_tint(s, b11_theme_tint), a_border),
    sp_Style_ui_priority(sp_Style_set_border(s, a_border), b12_ui_priority) == sp_Style_set_border(sp_Style_ui_priority(s, b12_ui_priority), a_border),
    sp_Style_underline(sp_Style_set_border(s, a_border), b13_line_type) == sp_Style_set_border(sp_Style_underline(s, b13_line_type), a_border),
    sp_Style_unhide_when_used(sp_Style_set_border(s, a_border)) == sp_Style_set_border(sp_Style_unhide_when_used(s), a_border),
    sp_Style_vanish(sp_Style_set_border(s, a_border)) == sp_Style_set_border(sp_Style_vanish(s), a_border),
    sp_Style_width(sp_Style_set_border(s, a_border), b16_w, b16_t) == sp_Style_set_border(sp_Style_width(s, b16_w, b16_t), a_border),
{}
pub proof fn order_Style_set_borders(s: Style, a_borders: TableBorders, b0_shading: Shading, b1_size: usize, b2_v: bool, b3_s: Seq<char>, b4_v: TableAlignmentType, b5_p: TableCellProperty, b6_v: i32, b7_alignment_type: TextAlignmentType, b8_b: TextBorder, b9_theme_color: ThemeColor, b10_theme_shade: Seq<char>, b11_theme_tint: Seq<char>, b12_ui_priority: usize, b13_line_type: Seq<char>, b16_w: usize, b16_t: WidthType)
  ensures
    sp_Style_shading(sp_Style_set_borders(s, a_borders), b0_shading) == sp_Style_set_borders(sp_Style_shading(s, b0_shading), a_borders),
    sp_Style_size(sp_Style_set_borders(s, a_borders), b1_size) == sp_Style_set_borders(sp_Style_size(s, b1_size), a_borders),
    sp_Style_snap_to_grid(sp_Style_set_borders(s, a_borders), b2_v) == sp_Style_set_borders(sp_Style_snap_to_grid(s, b2_v), a_borders),
    sp_Style_style(sp_Style_set_borders(s, a_borders), b3_s) == sp_Style_set_borders(sp_Style_style(s, b3_s), a_borders),
    sp_Style_table_align(sp_Style_set_borders(s, a_borders), b4_v) == sp_Style_set_borders(sp_Style_table_align(s, b4_v), a_borders),
    sp_Style_table_cell_property(sp_Style_set_borders(s, a_borders), b5_p) == sp_Style_set_borders(sp_Style_table_cell_property(s, b5_p), a_borders),
    sp_Style_table_indent(sp_Style_set_borders(s, a_borders), b6_v) == sp_Style_set_borders(sp_Style_table_indent(s, b6_v), a_borders),
    sp_Style_text_alignment(sp_Style_set_borders(s, a_borders), b7_alignment_type) == sp_Style_set_borders(sp_Style_text_alignment(s, b7_alignment_type), a_borders),
    sp_Style_text_border(sp_Style_set_borders(s, a_borders), b8_b) == sp_Style_set_borders(sp_Style_text_border(s, b8_b), a_borders),
    sp_Style_theme_color(sp_Style_set_borders(s, a_borders), b9_theme_color) == sp_Style_set_borders(sp_Style_theme_color(s, b9_theme_color), a_borders),
    sp_Style_theme_shade(sp_Style_set_borders(s, a_borders), b10_theme_shade) == sp_Style_set_borders(sp_Style_theme_shade(s, b10_theme_shade), a_borders),
    sp_Style_theme_tint(sp_Style_set_borders(s, a_borders), b11_theme_tint) == sp_Style_set_borders(sp_Style_theme_tint(s, b11_theme_tint), a_borders),
    sp_Style_ui_priority(sp_Style_set_borders(s, a_borders), b12_ui_priority) == sp_Style_set_borders(sp_Style_ui_priority(s, b12_ui_priority), a_borders),
    sp_Style_underline(sp_Style_set_borders(s, a_borders), b13_line_type) == sp_Style_set_borders(sp_Style_underline(s, b13_line_type), a_borders),
    sp_Style_unhide_when_used(sp_Style_set_borders(s, a_borders)) == sp_Style_set_borders(sp_Style_unhide_when_used(s), a_borders),
    sp_Style_vanish(sp_Style_set_borders(s, a_borders)) == sp_Style_set_borders(sp_Style_vanish(s), a_borders),
    sp_Style_width(sp_Style_set_borders(s, a_borders), b16_w, b16_t) == sp_Style_set_borders(sp_Style_width(s, b16_w, b16_t), a_borders),
{}
pub proof fn order_Style_shading(s: Style, a_shading: Shading, b0_size: usize, b1_v: bool, b2_s: Seq<char>, b3_v: TableAlignmentType, b4_p: TableCellProperty, b5_v: i32, b6_p: TableProperty, b7_alignment_type: TextAlignmentType, b8_b: TextBorder, b9_theme_color: ThemeColor, b10_theme_shade: Seq<char>, b11_theme_tint: Seq<char>, b12_ui_priority: usize, b13_line_type: Seq<char>, b16_w: usize, b16_t: WidthType)
  ensures
    sp_Style_size(sp_Style_shading(s, a_shading), b0_size) == sp_Style_shading(sp_Style_size(s, b0_size), a_shading),
    sp_Style_snap_to_grid(sp_Style_shading(s, a_shading), b1_v) == sp_Style_shading(sp_Style_snap_to_grid(s, b1_v), a_shading),
    sp_Style_style(sp_Style_shading(s, a_shading), b2_s) == sp_Style_shading(sp_Style_style(s, b2_s), a_shading),
    sp_Style_table_align(sp_Style_shading(s, a_shading), b3_v) == sp_Style_shading(sp_Style_table_align(s, b3_v), a_shading),
    sp_Style_table_cell_property(sp_Style_shading(s, a_shading), b4_p) == sp_Style_shading(sp_Style_table_cell_property(s, b4_p), a_shading),
    sp_Style_table_indent(sp_Style_shading(s, a_shading), b5_v) == sp_Style_shading(sp_Style_table_indent(s, b5_v), a_shading),
    sp_Style_table_property(sp_Style_shading(s, a_shading), b6_p) == sp_Style_shading(sp_Style_table_property(s, b6_p), a_shading),
    sp_Style_text_alignment(sp_Style_shading(s, a_shading), b7_alignment_type) == sp_Style_shading(sp_Style_text_alignment(s, b7_alignment_type), a_shading),
    sp_Style_text_border(sp_Style_shading(s, a_shading), b8_b) == sp_Style_shading(sp_Style_text_border(s, b8_b), a_shading),
    sp_Style_theme_color(sp_Style_shading(s, a_shading), b9_theme_color) == sp_Style_shading(sp_Style_theme_color(s, b9_theme_color), a_shading),
    sp_Style_theme_shade(sp_Style_shading(s, a_shading), b10_theme_shade) == sp_Style_shading(sp_Style_theme_shade(s, b10_theme_shade), a_shading),
    sp_Style_theme_tint(sp_Style_shading(s, a_shading), b11_theme_tint) == sp_Style_shading(sp_Style_theme_tint(s, b11_theme_tint), a_shading),
    sp_Style_ui_priority(sp_Style_shading(s, a_shading), b12_ui_priority) == sp_Style_shading(sp_Style_ui_priority(s, b12_ui_priority), a_shading),
    sp_Style_underline(sp_Style_shading(s, a_shading), b13_line_type) == sp_Style_shading(sp_Style_underline(s, b13_line_type), a_shading),
    sp_Style_unhide_when_used(sp_Style_shading(s, a_shading)) == sp_Style_shading(sp_Style_unhide_when_used(s), a_shading),
    sp_Style_vanish(sp_Style_shading(s, a_shading)) == sp_Style_shading(sp_Style_vanish(s), a_shading),
    sp_Style_width(sp_Style_shading(s, a_shading), b16_w, b16_t) == sp_Style_shading(sp_Style_width(s, b16_w, b16_t), a_shading),
{}
pub proof fn order_Style_size(s: Style, a_size: usize, b0_v: bool, b1_s: Seq<char>, b2_v: TableAlignmentType, b3_p: TableCellProperty, b4_v: i32, b5_p: TableProperty, b6_alignment_type: TextAlignmentType, b7_b: TextBorder, b8_theme_color: ThemeColor, b9_theme_shade: Seq<char>, b10_theme_tint: Seq<char>, b11_ui_priority: usize, b12_line_type: Seq<char>, b15_w: usize, b15_t: WidthType)
  ensures
    sp_Style_snap_to_grid(sp_Style_size(s, a_size), b0_v) == sp_Style_size(sp_Style_snap_to_grid(s, b0_v), a_size),
    sp_Style_style(sp_Style_size(s, a_size), b1_s) == sp_Style_size(sp_Style_style(s, b1_s), a_size),
    sp_Style_table_align(sp_Style_size(s, a_size), b2_v) == sp_Style_size(sp_Style_table_align(s, b2_v), a_size),
    sp_Style_table_cell_property(sp_Style_size(s, a_size), b3_p) == sp_Style_size(sp_Style_table_cell_property(s, b3_p), a_size),
    sp_Style_table_indent(sp_Style_size(s, a_size), b4_v) == sp_Style_size(sp_Style_table_indent(s, b4_v), a_size),
    sp_Style_table_property(sp_Style_size(s, a_size), b5_p) == sp_Style_size(sp_Style_table_property(s, b5_p), a_size),
    sp_Style_text_alignment(sp_Style_size(s, a_size), b6_alignment_type) == sp_Style_size(sp_Style_text_alignment(s, b6_alignment_type), a_size),
    sp_Style_text_border(sp_Style_size(s, a_size), b7_b) == sp_Style_size(sp_Style_text_border(s, b7_b), a_size),
    sp_Style_theme_color(sp_Style_size(s, a_size), b8_theme_color) == sp_Style_size(sp_Style_theme_color(s, b8_theme_color), a_size),
    sp_Style_theme_shade(sp_Style_size(s, a_size), b9_theme_shade) == sp_Style_size(sp_Style_theme_shade(s, b9_theme_shade), a_size),
    sp_Style_theme_tint(sp_Style_size(s, a_size), b10_theme_tint) == sp_Style_size(sp_Style_theme_tint(s, b10_theme_tint), a_size),
    sp_Style_ui_priority(sp_Style_size(s, a_size), b11_ui_priority) == sp_Style_size(sp_Style_ui_priority(s, b11_ui_priority), a_size),
    sp_Style_underline(sp_Style_size(s, a_size), b12_line_type) == sp_Style_size(sp_Style_underline(s, b12_line_type), a_size),
    sp_Style_unhide_when_used(sp_Style_size(s, a_size)) == sp_Style_size(sp_Style_unhide_when_used(s), a_size),
    sp_Style_vanish(sp_Style_size(s, a_size)) == sp_Style_size(sp_Style_vanish(s), a_size),
    sp_Style_width(sp_Style_size(s, a_size), b15_w, b15_t) == sp_Style_size(sp_Style_width(s, b15_w, b15_t), a_size),
{}
pub proof fn order_Style_snap_to_grid(s: Style, a_v: bool, b0_s: Seq<char>, b1_v: TableAlignmentType, b2_p: TableCellProperty, b3_v: i32, b4_p: TableProperty, b5_alignment_type: TextAlignmentType, b6_b: TextBorder, b7_theme_color: ThemeColor, b8_theme_shade: Seq<char>, b9_theme_tint: Seq<char>, b10_ui_priority: usize, b11_line_type: Seq<char>, b14_w: usize, b14_t: WidthType)
  ensures
    sp_Style_style(sp_Style_snap_to_grid(s, a_v), b0_s) == sp_Style_snap_to_grid(sp_Style_style(s, b0_s), a_v),
    sp_Style_table_align(sp_Style_snap_to_grid(s, a_v), b1_v) == sp_Style_snap_to_grid(sp_Style_table_align(s, b1_v), a_v),
    sp_Style_table_cell_property(sp_Style_snap_to_grid(s, a_v), b2_p) == sp_Style_snap_to_grid(sp_Style_table_cell_property(s, b2_p), a_v),
    sp_Style_table_indent(sp_Style_snap_to_grid(s, a_v), b3_v) == sp_Style_snap_to_grid(sp_Style_table_indent(s, b3_v), a_v),
    sp_Style_table_property(sp_Style_snap_to_grid(s, a_v), b4_p) == sp_Style_snap_to_grid(sp_Style_table_property(s, b4_p), a_v),
    sp_Style_text_alignment(sp_Style_snap_to_grid(s, a_v), b5_alignment_type) == sp_Style_snap_to_grid(sp_Style_text_alignment(s, b5_alignment_type), a_v),
    sp_Style_text_border(sp_Style_snap_to_grid(s, a_v), b6_b) == sp_Style_snap_to_grid(sp_Style_text_border(s, b6_b), a_v),
    sp_Style_theme_color(sp_Style_snap_to_grid(s, a_v), b7_theme_color) == sp_Style_snap_to_grid(sp_Style_theme_color(s, b7_theme_color), a_v),
    sp_Style_theme_shade(sp_Style_snap_to_grid(s, a_v), b8_theme_shade) == sp_Style_snap_to_grid(sp_Style_theme_shade(s, b8_theme_shade), a_v),
    sp_Style_theme_tint(sp_Style_snap_to_grid(s, a_v), b9_theme_tint) == sp_Style_snap_to_grid(sp_Style_theme_tint(s, b9_theme_tint), a_v),
    sp_Style_ui_priority(sp_Style_snap_to_grid(s, a_v), b10_ui_priority) == sp_Style_snap_to_grid(sp_Style_ui_priority(s, b10_ui_priority), a_v),
    sp_Style_underline(sp_Style_snap_to_grid(s, a_v), b11_line_type) == sp_Style_snap_to_grid(sp_Style_underline(s, b11_line_type), a_v),
    sp_Style_unhide_when_used(sp_Style_snap_to_grid(s, a_v)) == sp_Style_snap_to_grid(sp_Style_unhide_when_used(s), a_v),
    sp_Style_vanish(sp_Style_snap_to_grid(s, a_v)) == sp_Style_snap_to_grid(sp_Style_vanish(s), a_v),
    sp_Style_width(sp_Style_snap_to_grid(s, a_v), b14_w, b14_t) == sp_Style_snap_to_grid(sp_Style_width(s, b14_w, b14_t), a_v),
{}
pub proof fn order_Style_style(s: Style, a_s: Seq<char>, b0_v: TableAlignmentType, b1_p: TableCellProperty, b2_v: i32, b3_alignment_type: TextAlignmentType, b4_b: TextBorder, b5_theme_color: ThemeColor, b6_theme_shade: Seq<char>, b7_theme_tint: Seq<char>, b8_ui_priority: usize, b9_line_type: Seq<char>, b12_w: usize, b12_t: WidthType)
  ensures
    sp_Style_table_align(sp_Style_style(s, a_s), b0_v) == sp_Style_style(sp_Style_table_align(s, b0_v), a_s),
    sp_Style_table_cell_property(sp_Style_style(s, a_s), b1_p) == sp_Style_style(sp_Style_table_cell_property(s, b1_p), a_s),
    sp_Style_table_indent(sp_Style_style(s, a_s), b2_v) == sp_Style_style(sp_Style_table_indent(s, b2_v), a_s),
    sp_Style_text_alignment(sp_Style_style(s, a_s), b3_alignment_type) == sp_Style_style(sp_Style_text_alignment(s, b3_alignment_type), a_s),
    sp_Style_text_border(sp_Style_style(s, a_s), b4_b) == sp_Style_style(sp_Style_text_border(s, b4_b), a_s),
    sp_Style_theme_color(sp_Style_style(s, a_s), b5_theme_color) == sp_Style_style(sp_Style_theme_color(s, b5_theme_color), a_s),
    sp_Style_theme_shade(sp_Style_style(s, a_s), b6_theme_shade) == sp_Style_style(sp_Style_theme_shade(s, b6_theme_shade), a_s),
    sp_Style_theme_tint(sp_Style_style(s, a_s), b7_theme_tint) == sp_Style_style(sp_Style_theme_tint(s, b7_theme_tint), a_s),
    sp_Style_ui_priority(sp_Style_style(s, a_s), b8_ui_priority) == sp_Style_style(sp_Style_ui_priority(s, b8_ui_priority), a_s),
    sp_Style_underline(sp_Style_style(s, a_s), b9_line_type) == sp_Style_style(sp_Style_underline(s, b9_line_type), a_s),
    sp_Style_unhide_when_used(sp_Style_style(s, a_s)) == sp_Style_style(sp_Style_unhide_when_used(s), a_s),
    sp_Style_vanish(sp_Style_style(s, a_s)) == sp_Style_style(sp_Style_vanish(s), a_s),
    sp_Style_width(sp_Style_style(s, a_s), b12_w, b12_t) == sp_Style_style(sp_Style_width(s, b12_w, b12_t), a_s),
{}
pub proof fn order_Style_table_align(s: Style, a_v: TableAlignmentType, b0_p: TableCellProperty, b1_v: i32, b2_alignment_type: TextAlignmentType, b3_b: TextBorder, b4_theme_color: ThemeColor, b5_theme_shade: Seq<char>, b6_theme_tint: Seq<char>, b7_ui_priority: usize, b8_line_type: Seq<char>, b11_w: usize, b11_t: WidthType)
  ensures
    sp_Style_table_cell_property(sp_Style_table_align(s, a_v), b0_p) == sp_Style_table_align(sp_Style_table_cell_property(s, b0_p), a_v),
    sp_Style_table_indent(sp_Style_table_align(s, a_v), b1_v) == sp_Style_table_align(sp_Style_table_indent(s, b1_v), a_v),
    sp_Style_text_alignment(sp_Style_table_align(s, a_v), b2_alignment_type) == sp_Style_table_align(sp_Style_text_alignment(s, b2_alignment_type), a_v),
    sp_Style_text_border(sp_Style_table_align(s, a_v), b3_b) == sp_Style_table_align(sp_Style_text_border(s, b3_b), a_v),
    sp_Style_theme_color(sp_Style_table_align(s, a_v), b4_theme_color) == sp_Style_table_align(sp_Style_theme_color(s, b4_theme_color), a_v),
    sp_Style_theme_shade(sp_Style_table_align(s, a_v), b5_theme_shade) == sp_Style_table_align(sp_Style_theme_shade(s, b5_theme_shade), a_v),
    sp_Style_theme_tint(sp_Style_table_align(s, a_v), b6_theme_tint) == sp_Style_table_align(sp_Style_theme_tint(s, b6_theme_tint), a_v),
    sp_Style_ui_priority(sp_Style_table_align(s, a_v), b7_ui_priority) == sp_Style_table_align(sp_Style_ui_priority(s, b7_ui_priority), a_v),
    sp_Style_underline(sp_Style_table_align(s, a_v), b8_line_type) == sp_Style_table_align(sp_Style_underline(s, b8_line_type), a_v),
    sp_Style_unhide_when_used(sp_Style_table_align(s, a_v)) == sp_Style_table_align(sp_Style_unhide_when_used(s), a_v),
    sp_Style_vanish(sp_Style_table_align(s, a_v)) == sp_Style_table_align(sp_Style_vanish(s), a_v),
    sp_Style_width(sp_Style_table_align(s, a_v), b11_w, b11_t) == sp_Style_table_align(sp_Style_width(s, b11_w, b11_t), a_v),
{}
pub proof fn order_Style_table_cell_property(s: Style, a_p: TableCellProperty, b0_v: i32, b1_p: TableProperty, b2_alignment_type: TextAlignmentType, b3_b: TextBorder, b4_theme_color: ThemeColor, b5_theme_shade: Seq<char>, b6_theme_tint: Seq<char>, b7_ui_priority: usize, b8_line_type: Seq<char>, b11_w: usize, b11_t: WidthType)
  ensures
    sp_Style_table_indent(sp_Style_table_cell_property(s, a_p), b0_v) == sp_Style_table_cell_property(sp_Style_table_indent(s, b0_v), a_p),
    sp_Style_table_property(sp_Style_table_cell_property(s, a_p), b1_p) == sp_Style_table_cell_property(sp_Style_table_property(s, b1_p), a_p),
    sp_Style_text_alignment(sp_Style_table_cell_property(s, a_p), b2_alignment_type) == sp_Style_table_cell_property(sp_Style_text_alignment(s, b2_alignment_type), a_p),
    sp_Style_text_border(sp_Style_table_cell_property(s, a_p), b3_b) == sp_Style_table_cell_property(sp_Style_text_border(s, b3_b), a_p),
    sp_Style_theme_color(sp_Style_table_cell_property(s, a_p), b4_theme_color) == sp_Style_table_cell_property(sp_Style_theme_color(s, b4_theme_color), a_p),
    sp_Style_theme_shade(sp_Style_table_cell_property(s, a_p), b5_theme_shade) == sp_Style_table_cell_property(sp_Style_theme_shade(s, b5_theme_shade), a_p),
    sp_Style_theme_tint(sp_Style_table_cell_property(s, a_p), b6_theme_tint) == sp_Style_table_cell_property(sp_Style_theme_tint(s, b6_theme_tint), a_p),
    sp_Style_ui_priority(sp_Style_table_cell_property(s, a_p), b7_ui_priority) == sp_Style_table_cell_property(sp_Style_ui_priority(s, b7_ui_priority), a_p),
    sp_Style_underline(sp_Style_table_cell_property(s, a_p), b8_line_type) == sp_Style_table_cell_property(sp_Style_underline(s, b8_line_type), a_p),
    sp_Style_unhide_when_used(sp_Style_table_cell_property(s, a_p)) == sp_Style_table_cell_property(sp_Style_unhide_when_used(s), a_p),
    sp_Style_vanish(sp_Style_table_cell_property(s, a_p)) == sp_Style_table_cell_property(sp_Style_vanish(s), a_p),
    sp_Style_width(sp_Style_table_cell_property(s, a_p), b11_w, b11_t) == sp_Style_table_cell_property(sp_Style_width(s, b11_w, b11_t), a_p),
{}
pub proof fn order_Style_table_indent(s: Style, a_v: i32, b0_alignment_type: TextAlignmentType, b1_b: TextBorder, b2_theme_color: ThemeColor, b3_theme_shade: Seq<char>, b4_theme_tint: Seq<char>, b5_ui_priority: usize, b6_line_type: Seq<char>, b9_w: usize, b9_t: WidthType)
  ensures
    sp_Style_text_alignment(sp_Style_table_indent(s, a_v), b0_alignment_type) == sp_Style_table_indent(sp_Style_text_alignment(s, b0_alignment_type), a_v),
    sp_Style_text_border(sp_Style_table_indent(s, a_v), b1_b) == sp_Style_table_indent(sp_Style_text_border(s, b1_b), a_v),
    sp_Style_theme_color(sp_Style_table_indent(s, a_v), b2_theme_color) == sp_Style_table_indent(sp_Style_theme_color(s, b2_theme_color), a_v),
    sp_Style_theme_shade(sp_Style_table_indent(s, a_v), b3_theme_shade) == sp_Style_table_indent(sp_Style_theme_shade(s, b3_theme_shade), a_v),
    sp_Style_theme_tint(sp_Style_table_indent(s, a_v), b4_theme_tint) == sp_Style_table_indent(sp_Style_theme_tint(s, b4_theme_tint), a_v),
    sp_Style_ui_priority(sp_Style_table_indent(s, a_v), b5_ui_priority) == sp_Style_table_indent(sp_Style_ui_priority(s, b5_ui_priority), a_v),
    sp_Style_underline(sp_Style_table_indent(s, a_v), b6_line_type) == sp_Style_table_indent(sp_Style_underline(s, b6_line_type), a_v),
    sp_Style_unhide_when_used(sp_Style_table_indent(s, a_v)) == sp_Style_table_indent(sp_Style_unhide_when_used(s), a_v),
    sp_Style_vanish(sp_Style_table_indent(s, a_v)) == sp_Style_table_indent(sp_Style_vanish(s), a_v),
    sp_Style_width(sp_Style_table_indent(s, a_v), b9_w, b9_t) == sp_Style_table_indent(sp_Style_width(s, b9_w, b9_t), a_v),
{}
pub proof fn order_Style_table_property(s: Style, a_p: TableProperty, b0_alignment_type: TextAlignmentType, b1_b: TextBorder, b2_theme_color: ThemeColor, b3_theme_shade: Seq<char>, b4_theme_tint: Seq<char>, b5_ui_priority: usize, b6_line_type: Seq<char>)
  ensures
    sp_Style_text_alignment(sp_Style_table_property(s, a_p), b0_alignment_type) == sp_Style_table_property(sp_Style_text_alignment(s, b0_alignment_type), a_p),
    sp_Style_text_border(sp_Style_table_property(s, a_p), b1_b) == sp_Style_table_property(sp_Style_text_border(s, b1_b), a_p),
    sp_Style_theme_color(sp_Style_table_property(s, a_p), b2_theme_color) == sp_Style_table_property(sp_Style_theme_color(s, b2_theme_color), a_p),
    sp_Style_theme_shade(sp_Style_table_property(s, a_p), b3_theme_shade) == sp_Style_table_property(sp_Style_theme_shade(s, b3_theme_shade), a_p),
    sp_Style_theme_tint(sp_Style_table_property(s, a_p), b4_theme_tint) == sp_Style_table_property(sp_Style_theme_tint(s, b4_theme_tint), a_p),
    sp_Style_ui_priority(sp_Style_table_property(s, a_p), b5_ui_priority) == sp_Style_table_property(sp_Style_ui_priority(s, b5_ui_priority), a_p),
    sp_Style_underline(sp_Style_table_property(s, a_p), b6_line_type) == sp_Style_table_property(sp_Style_underline(s, b6_line_type), a_p),
    sp_Style_unhide_when_used(sp_Style_table_property(s, a_p)) == sp_Style_table_property(sp_Style_unhide_when_used(s), a_p),
    sp_Style_vanish(sp_Style_table_property(s, a_p)) == sp_Style_table_property(sp_Style_vanish(s), a_p),
{}
pub proof fn order_Style_text_alignment(s: Style, a_alignment_type: TextAlignmentType, b0_b: TextBorder, b1_theme_color: ThemeColor, b2_theme_shade: Seq<char>, b3_theme_tint: Seq<char>, b4_ui_priority: usize, b5_line_type: Seq<char>, b8_w: usize, b8_t: WidthType)
  ensures
    sp_Style_text_border(sp_Style_text_alignment(s, a_alignment_type), b0_b) == sp_Style_text_alignment(sp_Style_text_border(s, b0_b), a_alignment_type),
    sp_Style_theme_color(sp_Style_text_alignment(s, a_alignment_type), b1_theme_color) == sp_Style_text_alignment(sp_Style_theme_color(s, b1_theme_color), a_alignment_type),
    sp_Style_theme_shade(sp_Style_text_alignment(s, a_alignment_type), b2_theme_shade) == sp_Style_text_alignment(sp_Style_theme_shade(s, b2_theme_shade), a_alignment_type),
    sp_Style_theme_tint(sp_Style_text_alignment(s, a_alignment_type), b3_theme_tint) == sp_Style_text_alignment(sp_Style_theme_tint(s, b3_theme_tint), a_alignment_type),
    sp_Style_ui_priority(sp_Style_text_alignment(s, a_alignment_type), b4_ui_priority) == sp_Style_text_alignment(sp_Style_ui_priority(s, b4_ui_priority), a_alignment_type),
    sp_Style_underline(sp_Style_text_alignment(s, a_alignment_type), b5_line_type) == sp_Style_text_alignment(sp_Style_underline(s, b5_line_type), a_alignment_type),
    sp_Style_unhide_when_used(sp_Style_text_alignment(s, a_alignment_type)) == sp_Style_text_alignment(sp_Style_unhide_when_used(s), a_alignment_type),
    sp_Style_vanish(sp_Style_text_alignment(s, a_alignment_type)) == sp_Style_text_alignment(sp_Style_vanish(s), a_alignment_type),
    sp_Style_width(sp_Style_text_alignment(s, a_alignment_type), b8_w, b8_t) == sp_Style_text_alignment(sp_Style_width(s, b8_w, b8_t), a_alignment_type),
{}
pub proof fn order_Style_text_border(s: Style, a_b: TextBorder, b0_theme_color: ThemeColor, b1_theme_shade: Seq<char>, b2_theme_tint: Seq<char>, b3_ui_priority: usize, b4_line_type: Seq<char>, b7_w: usize, b7_t: WidthType)
  ensures
    sp_Style_theme_color(sp_Style_text_border(s, a_b), b0_theme_color) == sp_Style_text_border(sp_Style_theme_color(s, b0_theme_color), a_b),
    sp_Style_theme_shade(sp_Style_text_border(s, a_b), b1_theme_shade) == sp_Style_text_border(sp_Style_theme_shade(s, b1_theme_shade), a_b),
    sp_Style_theme_tint(sp_Style_text_border(s, a_b), b2_theme_tint) == sp_Style_text_border(sp_Style_theme_tint(s, b2_theme_tint), a_b),
    sp_Style_ui_priority(sp_Style_text_border(s, a_b), b3_ui_priority) == sp_Style_text_border(sp_Style_ui_priority(s, b3_ui_priority), a_b),
    sp_Style_underline(sp_Style_text_border(s, a_b), b4_line_type) == sp_Style_text_border(sp_Style_underline(s, b4_line_type), a_b),
    sp_Style_unhide_when_used(sp_Style_text_border(s, a_b)) == sp_Style_text_border(sp_Style_unhide_when_used(s), a_b),
    sp_Style_vanish(sp_Style_text_border(s, a_b)) == sp_Style_text_border(sp_Style_vanish(s), a_b),
    sp_Style_width(sp_Style_text_border(s, a_b), b7_w, b7_t) == sp_Style_text_border(sp_Style_width(s, b7_w, b7_t), a_b),
{}
pub proof fn order_Style_theme_color(s: Style, a_theme_color: ThemeColor, b0_ui_priority: usize, b1_line_type: Seq<char>, b4_w: usize, b4_t: WidthType)
  ensures
    sp_Style_ui_priority(sp_Style_theme_color(s, a_theme_color), b0_ui_priority) == sp_Style_theme_color(sp_Style_ui_priority(s, b0_ui_priority), a_theme_color),
    sp_Style_underline(sp_Style_theme_color(s, a_theme_color), b1_line_type) == sp_Style_theme_color(sp_Style_underline(s, b1_line_type), a_theme_color),
    sp_Style_unhide_when_used(sp_Style_theme_color(s, a_theme_color)) == sp_Style_theme_color(sp_Style_unhide_when_used(s), a_theme_color),
    sp_Style_vanish(sp_Style_theme_color(s, a_theme_color)) == sp_Style_theme_color(sp_Style_vanish(s), a_theme_color),
    sp_Style_width(sp_Style_theme_color(s, a_theme_color), b4_w, b4_t) == sp_Style_theme_color(sp_Style_width(s, b4_w, b4_t), a_theme_color),
{}
pub proof fn order_Style_theme_shade(s: Style, a_theme_shade: Seq<char>, b0_ui_priority: usize, b1_line_type: Seq<char>, b4_w: usize, b4_t: WidthType)
  ensures
    sp_Style_ui_priority(sp_Style_theme_shade(s, a_theme_shade), b0_ui_priority) == sp_Style_theme_shade(sp_Style_ui_priority(s, b0_ui_priority), a_theme_shade),
    sp_Style_underline(sp_Style_theme_shade(s, a_theme_shade), b1_line_type) == sp_Style_theme_shade(sp_Style_underline(s, b1_line_type), a_theme_shade),
    sp_Style_unhide_when_used(sp_Style_theme_shade(s, a_theme_shade)) == sp_Style_theme_shade(sp_Style_unhide_when_used(s), a_theme_shade),
    sp_Style_vanish(sp_Style_theme_shade(s, a_theme_shade)) == sp_Style_theme_shade(sp_Style_vanish(s), a_theme_shade),
    sp_Style_width(sp_Style_theme_shade(s, a_theme_shade), b4_w, b4_t) == sp_Style_theme_shade(sp_Style_width(s, b4_w, b4_t), a_theme_shade),
{}
pub proof fn order_Style_theme_tint(s: Style, a_theme_tint: Seq<char>, b0_ui_priority: usize, b1_line_type: Seq<char>, b4_w: usize, b4_t: WidthType)
  ensures
    sp_Style_ui_priority(sp_Style_theme_tint(s, a_theme_tint), b0_ui_priority) == sp_Style_theme_tint(sp_Style_ui_priority(s, b0_ui_priority), a_theme_tint),
    sp_Style_underline(sp_Style_theme_tint(s, a_theme_tint), b1_line_type) == sp_Style_theme_tint(sp_Style_underline(s, b1_line_type), a_theme_tint),
    sp_Style_unhide_when_used(sp_Style_theme_tint(s, a_theme_tint)) == sp_Style_theme_tint(sp_Style_unhide_when_used(s), a_theme_tint),
    sp_Style_vanish(sp_Style_theme_tint(s, a_theme_tint)) == sp_Style_theme_tint(sp_Style_vanish(s), a_theme_tint),
    sp_Style_width(sp_Style_theme_tint(s, a_theme_tint), b4_w, b4_t) == sp_Style_theme_tint(sp_Style_width(s, b4_w, b4_t), a_theme_tint),
{}
pub proof fn order_Style_ui_priority(s: Style, a_ui_priority: usize, b0_line_type: Seq<char>, b3_w: usize, b3_t: WidthType)
  ensures
    sp_Style_underline(sp_Style_ui_priority(s, a_ui_priority), b0_line_type) == sp_Style_ui_priority(sp_Style_underline(s, b0_line_type), a_ui_priority),
    sp_Style_unhide_when_used(sp_Style_ui_priority(s, a_ui_priority)) == sp_Style_ui_priority(sp_Style_unhide_when_used(s), a_ui_priority),
    sp_Style_vanish(sp_Style_ui_priority(s, a_ui_priority)) == sp_Style_ui_priority(sp_Style_vanish(s), a_ui_priority),
    sp_Style_width(sp_Style_ui_priority(s, a_ui_priority), b3_w, b3_t) == sp_Style_ui_priority(sp_Style_width(s, b3_w, b3_t), a_ui_priority),
{}
pub proof fn order_Style_underline(s: Style, a_line_type: Seq<char>, b2_w: usize, b2_t: WidthType)
  ensures
    sp_Style_unhide_when_used(sp_Style_underline(s, a_line_type)) == sp_Style_underline(sp_Style_unhide_when_used(s), a_line_type),
    sp_Style_vanish(sp_Style_underline(s, a_line_type)) == sp_Style_underline(sp_Style_vanish(s), a_line_type),
    sp_Style_width(sp_Style_underline(s, a_line_type), b2_w, b2_t) == sp_Style_underline(sp_Style_width(s, b2_w, b2_t), a_line_type),
{}
pub proof fn order_Style_unhide_when_used(s: Style, b1_w: usize, b1_t: WidthType)
  ensures
    sp_Style_vanish(sp_Style_unhide_when_used(s)) == sp_Style_unhide_when_used(sp_Style_vanish(s)),
    sp_Style_width(sp_Style_unhide_when_used(s), b1_w, b1_t) == sp_Style_unhide_when_used(sp_Style_width(s, b1_w, b1_t)),
{}
pub proof fn order_Style_vanish(s: Style, b0_w: usize, b0_t: WidthType)
  ensures
    sp_Style_width(sp_Style_vanish(s), b0_w, b0_t) == sp_Style_vanish(sp_Style_width(s, b0_w, b0_t)),
{}
pub proof fn order_Level_bold(s: Level, b0_color: Seq<char>, b5_f: RunFonts, b6_color: Seq<char>, b7_left: Option<i32>, b7_special_indent: Option<SpecialIndentType>, b7_end: Option<i32>, b7_start_chars: Option<i32>, b10_v: u32, b11_size: usize, b12_v: i32, b14_s: LevelSuffixType, b15_line_type: Seq<char>)
  ensures
    sp_Level_color(sp_Level_bold(s), b0_color) == sp_Level_bold(sp_Level_color(s, b0_color)),
    sp_Level_disable_dstrike(sp_Level_bold(s)) == sp_Level_bold(sp_Level_disable_dstrike(s)),
    sp_Level_disable_italic(sp_Level_bold(s)) == sp_Level_bold(sp_Level_disable_italic(s)),
    sp_Level_disable_strike(sp_Level_bold(s)) == sp_Level_bold(sp_Level_disable_strike(s)),
    sp_Level_dstrike(sp_Level_bold(s)) == sp_Level_bold(sp_Level_dstrike(s)),
    sp_Level_fonts(sp_Level_bold(s), b5_f) == sp_Level_bold(sp_Level_fonts(s, b5_f)),
    sp_Level_highlight(sp_Level_bold(s), b6_color) == sp_Level_bold(sp_Level_highlight(s, b6_color)),
    sp_Level_indent(sp_Level_bold(s), b7_left, b7_special_indent, b7_end, b7_start_chars) == sp_Level_bold(sp_Level_indent(s, b7_left, b7_special_indent, b7_end, b7_start_chars)),
    sp_Level_is_lgl(sp_Level_bold(s)) == sp_Level_bold(sp_Level_is_lgl(s)),
    sp_Level_italic(sp_Level_bold(s)) == sp_Level_bold(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_bold(s), b10_v) == sp_Level_bold(sp_Level_level_restart(s, b10_v)),
    sp_Level_size(sp_Level_bold(s), b11_size) == sp_Level_bold(sp_Level_size(s, b11_size)),
    sp_Level_spacing(sp_Level_bold(s), b12_v) == sp_Level_bold(sp_Level_spacing(s, b12_v)),
    sp_Level_strike(sp_Level_bold(s)) == sp_Level_bold(sp_Level_strike(s)),
    sp_Level_suffix(sp_Level_bold(s), b14_s) == sp_Level_bold(sp_Level_suffix(s, b14_s)),
    sp_Level_underline(sp_Level_bold(s), b15_line_type) == sp_Level_bold(sp_Level_underline(s, b15_line_type)),
    sp_Level_vanish(sp_Level_bold(s)) == sp_Level_bold(sp_Level_vanish(s)),
{}
pub proof fn order_Level_color(s: Level, a_color: Seq<char>, b5_f: RunFonts, b6_color: Seq<char>, b7_left: Option<i32>, b7_special_indent: Option<SpecialIndentType>, b7_end: Option<i32>, b7_start_chars: Option<i32>, b10_v: u32, b11_size: usize, b12_v: i32, b14_s: LevelSuffixType, b15_line_type: Seq<char>)
  ensures
    sp_Level_disable_bold(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_disable_bold(s), a_color),
    sp_Level_disable_dstrike(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_disable_dstrike(s), a_color),
    sp_Level_disable_italic(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_disable_italic(s), a_color),
    sp_Level_disable_strike(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_disable_strike(s), a_color),
    sp_Level_dstrike(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_dstrike(s), a_color),
    sp_Level_fonts(sp_Level_color(s, a_color), b5_f) == sp_Level_color(sp_Level_fonts(s, b5_f), a_color),
    sp_Level_highlight(sp_Level_color(s, a_color), b6_color) == sp_Level_color(sp_Level_highlight(s, b6_color), a_color),
    sp_Level_indent(sp_Level_color(s, a_color), b7_left, b7_special_indent, b7_end, b7_start_chars) == sp_Level_color(sp_Level_indent(s, b7_left, b7_special_indent, b7_end, b7_start_chars), a_color),
    sp_Level_is_lgl(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_is_lgl(s), a_color),
    sp_Level_italic(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_italic(s), a_color),
    sp_Level_level_restart(sp_Level_color(s, a_color), b10_v) == sp_Level_color(sp_Level_level_restart(s, b10_v), a_color),
    sp_Level_size(sp_Level_color(s, a_color), b11_size) == sp_Level_color(sp_Level_size(s, b11_size), a_color),
    sp_Level_spacing(sp_Level_color(s, a_color), b12_v) == sp_Level_color(sp_Level_spacing(s, b12_v), a_color),
    sp_Level_strike(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_strike(s), a_color),
    sp_Level_suffix(sp_Level_color(s, a_color), b14_s) == sp_Level_color(sp_Level_suffix(s, b14_s), a_color),
    sp_Level_underline(sp_Level_color(s, a_color), b15_line_type) == sp_Level_color(sp_Level_underline(s, b15_line_type), a_color),
    sp_Level_vanish(sp_Level_color(s, a_color)) == sp_Level_color(sp_Level_vanish(s), a_color),
{}
pub proof fn order_Level_disable_bold(s: Level, b4_f: RunFonts, b5_color: Seq<char>, b6_left: Option<i32>, b6_special_indent: Option<SpecialIndentType>, b6_end: Option<i32>, b6_start_chars: Option<i32>, b9_v: u32, b10_size: usize, b11_v: i32, b13_s: LevelSuffixType, b14_line_type: Seq<char>)
  ensures
    sp_Level_disable_dstrike(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_disable_dstrike(s)),
    sp_Level_disable_italic(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_disable_italic(s)),
    sp_Level_disable_strike(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_disable_strike(s)),
    sp_Level_dstrike(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_dstrike(s)),
    sp_Level_fonts(sp_Level_disable_bold(s), b4_f) == sp_Level_disable_bold(sp_Level_fonts(s, b4_f)),
    sp_Level_highlight(sp_Level_disable_bold(s), b5_color) == sp_Level_disable_bold(sp_Level_highlight(s, b5_color)),
    sp_Level_indent(sp_Level_disable_bold(s), b6_left, b6_special_indent, b6_end, b6_start_chars) == sp_Level_disable_bold(sp_Level_indent(s, b6_left, b6_special_indent, b6_end, b6_start_chars)),
    sp_Level_is_lgl(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_is_lgl(s)),
    sp_Level_italic(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_disable_bold(s), b9_v) == sp_Level_disable_bold(sp_Level_level_restart(s, b9_v)),
    sp_Level_size(sp_Level_disable_bold(s), b10_size) == sp_Level_disable_bold(sp_Level_size(s, b10_size)),
    sp_Level_spacing(sp_Level_disable_bold(s), b11_v) == sp_Level_disable_bold(sp_Level_spacing(s, b11_v)),
    sp_Level_strike(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_strike(s)),
    sp_Level_suffix(sp_Level_disable_bold(s), b13_s) == sp_Level_disable_bold(sp_Level_suffix(s, b13_s)),
    sp_Level_underline(sp_Level_disable_bold(s), b14_line_type) == sp_Level_disable_bold(sp_Level_underline(s, b14_line_type)),
    sp_Level_vanish(sp_Level_disable_bold(s)) == sp_Level_disable_bold(sp_Level_vanish(s)),
{}
pub proof fn order_Level_disable_dstrike(s: Level, b2_f: RunFonts, b3_color: Seq<char>, b4_left: Option<i32>, b4_special_indent: Option<SpecialIndentType>, b4_end: Option<i32>, b4_start_chars: Option<i32>, b7_v: u32, b8_size: usize, b9_v: i32, b10_s: LevelSuffixType, b11_line_type: Seq<char>)
  ensures
    sp_Level_disable_italic(sp_Level_disable_dstrike(s)) == sp_Level_disable_dstrike(sp_Level_disable_italic(s)),
    sp_Level_disable_strike(sp_Level_disable_dstrike(s)) == sp_Level_disable_dstrike(sp_Level_disable_strike(s)),
    sp_Level_fonts(sp_Level_disable_dstrike(s), b2_f) == sp_Level_disable_dstrike(sp_Level_fonts(s, b2_f)),
    sp_Level_highlight(sp_Level_disable_dstrike(s), b3_color) == sp_Level_disable_dstrike(sp_Level_highlight(s, b3_color)),
    sp_Level_indent(sp_Level_disable_dstrike(s), b4_left, b4_special_indent, b4_end, b4_start_chars) == sp_Level_disable_dstrike(sp_Level_indent(s, b4_left, b4_special_indent, b4_end, b4_start_chars)),
    sp_Level_is_lgl(sp_Level_disable_dstrike(s)) == sp_Level_disable_dstrike(sp_Level_is_lgl(s)),
    sp_Level_italic(sp_Level_disable_dstrike(s)) == sp_Level_disable_dstrike(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_disable_dstrike(s), b7_v) == sp_Level_disable_dstrike(sp_Level_level_restart(s, b7_v)),
    sp_Level_size(sp_Level_disable_dstrike(s), b8_size) == sp_Level_disable_dstrike(sp_Level_size(s, b8_size)),
    sp_Level_spacing(sp_Level_disable_dstrike(s), b9_v) == sp_Level_disable_dstrike(sp_Level_spacing(s, b9_v)),
    sp_Level_suffix(sp_Level_disable_dstrike(s), b10_s) == sp_Level_disable_dstrike(sp_Level_suffix(s, b10_s)),
    sp_Level_underline(sp_Level_disable_dstrike(s), b11_line_type) == sp_Level_disable_dstrike(sp_Level_underline(s, b11_line_type)),
    sp_Level_vanish(sp_Level_disable_dstrike(s)) == sp_Level_disable_dstrike(sp_Level_vanish(s)),
{}
pub proof fn order_Level_disable_italic(s: Level, b2_f: RunFonts, b3_color: Seq<char>, b4_left: Option<i32>, b4_special_indent: Option<SpecialIndentType>, b4_end: Option<i32>, b4_start_chars: Option<i32>, b6_v: u32, b7_size: usize, b8_v: i32, b10_s: LevelSuffixType, b11_line_type: Seq<char>)
  ensures
    sp_Level_disable_strike(sp_Level_disable_italic(s)) == sp_Level_disable_italic(sp_Level_disable_strike(s)),
    sp_Level_dstrike(sp_Level_disable_italic(s)) == sp_Level_disable_italic(sp_Level_dstrike(s)),
    sp_Level_fonts(sp_Level_disable_italic(s), b2_f) == sp_Level_disable_italic(sp_Level_fonts(s, b2_f)),
    sp_Level_highlight(sp_Level_disable_italic(s), b3_color) == sp_Level_disable_italic(sp_Level_highlight(s, b3_color)),
    sp_Level_indent(sp_Level_disable_italic(s), b4_left, b4_special_indent, b4_end, b4_start_chars) == sp_Level_disable_italic(sp_Level_indent(s, b4_left, b4_special_indent, b4_end, b4_start_chars)),
    sp_Level_is_lgl(sp_Level_disable_italic(s)) == sp_Level_disable_italic(sp_Level_is_lgl(s)),
    sp_Level_level_restart(sp_Level_disable_italic(s), b6_v) == sp_Level_disable_italic(sp_Level_level_restart(s, b6_v)),
    sp_Level_size(sp_Level_disable_italic(s), b7_size) == sp_Level_disable_italic(sp_Level_size(s, b7_size)),
    sp_Level_spacing(sp_Level_disable_italic(s), b8_v) == sp_Level_disable_italic(sp_Level_spacing(s, b8_v)),
    sp_Level_strike(sp_Level_disable_italic(s)) == sp_Level_disable_italic(sp_Level_strike(s)),
    sp_Level_suffix(sp_Level_disable_italic(s), b10_s) == sp_Level_disable_italic(sp_Level_suffix(s, b10_s)),
    sp_Level_underline(sp_Level_disable_italic(s), b11_line_type) == sp_Level_disable_italic(sp_Level_underline(s, b11_line_type)),
    sp_Level_vanish(sp_Level_disable_italic(s)) == sp_Level_disable_italic(sp_Level_vanish(s)),
{}
pub proof fn order_Level_disable_strike(s: Level, b0_f: RunFonts, b1_color: Seq<char>, b2_left: Option<i32>, b2_special_indent: Option<SpecialIndentType>, b2_end: Option<i32>, b2_start_chars: Option<i32>, b5_v: u32, b6_size: usize, b7_v: i32, b8_s: LevelSuffixType, b9_line_type: Seq<char>)
  ensures
    sp_Level_fonts(sp_Level_disable_strike(s), b0_f) == sp_Level_disable_strike(sp_Level_fonts(s, b0_f)),
    sp_Level_highlight(sp_Level_disable_strike(s), b1_color) == sp_Level_disable_strike(sp_Level_highlight(s, b1_color)),
    sp_Level_indent(sp_Level_disable_strike(s), b2_left, b2_special_indent, b2_end, b2_start_chars) == sp_Level_disable_strike(sp_Level_indent(s, b2_left, b2_special_indent, b2_end, b2_start_chars)),
    sp_Level_is_lgl(sp_Level_disable_strike(s)) == sp_Level_disable_strike(sp_Level_is_lgl(s)),
    sp_Level_italic(sp_Level_disable_strike(s)) == sp_Level_disable_strike(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_disable_strike(s), b5_v) == sp_Level_disable_strike(sp_Level_level_restart(s, b5_v)),
    sp_Level_size(sp_Level_disable_strike(s), b6_size) == sp_Level_disable_strike(sp_Level_size(s, b6_size)),
    sp_Level_spacing(sp_Level_disable_strike(s), b7_v) == sp_Level_disable_strike(sp_Level_spacing(s, b7_v)),
    sp_Level_suffix(sp_Level_disable_strike(s), b8_s) == sp_Level_disable_strike(sp_Level_suffix(s, b8_s)),
    sp_Level_underline(sp_Level_disable_strike(s), b9_line_type) == sp_Level_disable_strike(sp_Level_underline(s, b9_line_type)),
    sp_Level_vanish(sp_Level_disable_strike(s)) == sp_Level_disable_strike(sp_Level_vanish(s)),
{}
pub proof fn order_Level_dstrike(s: Level, b0_f: RunFonts, b1_color: Seq<char>, b2_left: Option<i32>, b2_special_indent: Option<SpecialIndentType>, b2_end: Option<i32>, b2_start_chars: Option<i32>, b5_v: u32, b6_size: usize, b7_v: i32, b8_s: LevelSuffixType, b9_line_type: Seq<char>)
  ensures
    sp_Level_fonts(sp_Level_dstrike(s), b0_f) == sp_Level_dstrike(sp_Level_fonts(s, b0_f)),
    sp_Level_highlight(sp_Level_dstrike(s), b1_color) == sp_Level_dstrike(sp_Level_highlight(s, b1_color)),
    sp_Level_indent(sp_Level_dstrike(s), b2_left, b2_special_indent, b2_end, b2_start_chars) == sp_Level_dstrike(sp_Level_indent(s, b2_left, b2_special_indent, b2_end, b2_start_chars)),
    sp_Level_is_lgl(sp_Level_dstrike(s)) == sp_Level_dstrike(sp_Level_is_lgl(s)),
    sp_Level_italic(sp_Level_dstrike(s)) == sp_Level_dstrike(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_dstrike(s), b5_v) == sp_Level_dstrike(sp_Level_level_restart(s, b5_v)),
    sp_Level_size(sp_Level_dstrike(s), b6_size) == sp_Level_dstrike(sp_Level_size(s, b6_size)),
    sp_Level_spacing(sp_Level_dstrike(s), b7_v) == sp_Level_dstrike(sp_Level_spacing(s, b7_v)),
    sp_Level_suffix(sp_Level_dstrike(s), b8_s) == sp_Level_dstrike(sp_Level_suffix(s, b8_s)),
    sp_Level_underline(sp_Level_dstrike(s), b9_line_type) == sp_Level_dstrike(sp_Level_underline(s, b9_line_type)),
    sp_Level_vanish(sp_Level_dstrike(s)) == sp_Level_dstrike(sp_Level_vanish(s)),
{}
pub proof fn order_Level_fonts(s: Level, a_f: RunFonts, b0_color: Seq<char>, b1_left: Option<i32>, b1_special_indent: Option<SpecialIndentType>, b1_end: Option<i32>, b1_start_chars: Option<i32>, b4_v: u32, b5_size: usize, b6_v: i32, b8_s: LevelSuffixType, b9_line_type: Seq<char>)
  ensures
    sp_Level_highlight(sp_Level_fonts(s, a_f), b0_color) == sp_Level_fonts(sp_Level_highlight(s, b0_color), a_f),
    sp_Level_indent(sp_Level_fonts(s, a_f), b1_left, b1_special_indent, b1_end, b1_start_chars) == sp_Level_fonts(sp_Level_indent(s, b1_left, b1_special_indent, b1_end, b1_start_chars), a_f),
    sp_Level_is_lgl(sp_Level_fonts(s, a_f)) == sp_Level_fonts(sp_Level_is_lgl(s), a_f),
    sp_Level_italic(sp_Level_fonts(s, a_f)) == sp_Level_fonts(sp_Level_italic(s), a_f),
    sp_Level_level_restart(sp_Level_fonts(s, a_f), b4_v) == sp_Level_fonts(sp_Level_level_restart(s, b4_v), a_f),
    sp_Level_size(sp_Level_fonts(s, a_f), b5_size) == sp_Level_fonts(sp_Level_size(s, b5_size), a_f),
    sp_Level_spacing(sp_Level_fonts(s, a_f), b6_v) == sp_Level_fonts(sp_Level_spacing(s, b6_v), a_f),
    sp_Level_strike(sp_Level_fonts(s, a_f)) == sp_Level_fonts(sp_Level_strike(s), a_f),
    sp_Level_suffix(sp_Level_fonts(s, a_f), b8_s) == sp_Level_fonts(sp_Level_suffix(s, b8_s), a_f),
    sp_Level_underline(sp_Level_fonts(s, a_f), b9_line_type) == sp_Level_fonts(sp_Level_underline(s, b9_line_type), a_f),
    sp_Level_vanish(sp_Level_fonts(s, a_f)) == sp_Level_fonts(sp_Level_vanish(s), a_f),
{}
pub proof fn order_Level_highlight(s: Level, a_color: Seq<char>, b0_left: Option<i32>, b0_special_indent: Option<SpecialIndentType>, b0_end: Option<i32>, b0_start_chars: Option<i32>, b3_v: u32, b4_size: usize, b5_v: i32, b7_s: LevelSuffixType, b8_line_type: Seq<char>)
  ensures
    sp_Level_indent(sp_Level_highlight(s, a_color), b0_left, b0_special_indent, b0_end, b0_start_chars) == sp_Level_highlight(sp_Level_indent(s, b0_left, b0_special_indent, b0_end, b0_start_chars), a_color),
    sp_Level_is_lgl(sp_Level_highlight(s, a_color)) == sp_Level_highlight(sp_Level_is_lgl(s), a_color),
    sp_Level_italic(sp_Level_highlight(s, a_color)) == sp_Level_highlight(sp_Level_italic(s), a_color),
    sp_Level_level_restart(sp_Level_highlight(s, a_color), b3_v) == sp_Level_highlight(sp_Level_level_restart(s, b3_v), a_color),
    sp_Level_size(sp_Level_highlight(s, a_color), b4_size) == sp_Level_highlight(sp_Level_size(s, b4_size), a_color),
    sp_Level_spacing(sp_Level_highlight(s, a_color), b5_v) == sp_Level_highlight(sp_Level_spacing(s, b5_v), a_color),
    sp_Level_strike(sp_Level_highlight(s, a_color)) == sp_Level_highlight(sp_Level_strike(s), a_color),
    sp_Level_suffix(sp_Level_highlight(s, a_color), b7_s) == sp_Level_highlight(sp_Level_suffix(s, b7_s), a_color),
    sp_Level_underline(sp_Level_highlight(s, a_color), b8_line_type) == sp_Level_highlight(sp_Level_underline(s, b8_line_type), a_color),
    sp_Level_vanish(sp_Level_highlight(s, a_color)) == sp_Level_highlight(sp_Level_vanish(s), a_color),
{}
pub proof fn order_Level_indent(s: Level, a_left: Option<i32>, a_special_indent: Option<SpecialIndentType>, a_end: Option<i32>, a_start_chars: Option<i32>, b2_v: u32, b3_size: usize, b4_v: i32, b6_s: LevelSuffixType, b7_line_type: Seq<char>)
  ensures
    sp_Level_is_lgl(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Level_indent(sp_Level_is_lgl(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_italic(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Level_indent(sp_Level_italic(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_level_restart(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars), b2_v) == sp_Level_indent(sp_Level_level_restart(s, b2_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_size(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars), b3_size) == sp_Level_indent(sp_Level_size(s, b3_size), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_spacing(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars), b4_v) == sp_Level_indent(sp_Level_spacing(s, b4_v), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_strike(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Level_indent(sp_Level_strike(s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_suffix(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars), b6_s) == sp_Level_indent(sp_Level_suffix(s, b6_s), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_underline(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars), b7_line_type) == sp_Level_indent(sp_Level_underline(s, b7_line_type), a_left, a_special_indent, a_end, a_start_chars),
    sp_Level_vanish(sp_Level_indent(s, a_left, a_special_indent, a_end, a_start_chars)) == sp_Level_indent(sp_Level_vanish(s), a_left, a_special_indent, a_end, a_start_chars),
{}
pub proof fn order_Level_is_lgl(s: Level, b1_v: u32, b2_size: usize, b3_v: i32, b5_s: LevelSuffixType, b6_line_type: Seq<char>)
  ensures
    sp_Level_italic(sp_Level_is_lgl(s)) == sp_Level_is_lgl(sp_Level_italic(s)),
    sp_Level_level_restart(sp_Level_is_lgl(s), b1_v) == sp_Level_is_lgl(sp_Level_level_restart(s, b1_v)),
    sp_Level_size(sp_Level_is_lgl(s), b2_size) == sp_Level_is_lgl(sp_Level_size(s, b2_size)),
    sp_Level_spacing(sp_Level_is_lgl(s), b3_v) == sp_Level_is_lgl(sp_Level_spacing(s, b3_v)),
    sp_Level_strike(sp_Level_is_lgl(s)) == sp_Level_is_lgl(sp_Level_strike(s)),
    sp_Level_suffix(sp_Level_is_lgl(s), b5_s) == sp_Level_is_lgl(sp_Level_suffix(s, b5_s)),
    sp_Level_underline(sp_Level_is_lgl(s), b6_line_type) == sp_Level_is_lgl(sp_Level_underline(s, b6_line_type)),
    sp_Level_vanish(sp_Level_is_lgl(s)) == sp_Level_is_lgl(sp_Level_vanish(s)),
{}
pub proof fn order_Level_italic(s: Level, b0_v: u32, b1_size: usize, b2_v: i32, b4_s: LevelSuffixType, b5_line_type: Seq<char>)
  ensures
    sp_Level_level_restart(sp_Level_italic(s), b0_v) == sp_Level_italic(sp_Level_level_restart(s, b0_v)),
    sp_Level_size(sp_Level_italic(s), b1_size) == sp_Level_italic(sp_Level_size(s, b1_size)),
    sp_Level_spacing(sp_Level_italic(s), b2_v) == sp_Level_italic(sp_Level_spacing(s, b2_v)),
    sp_Level_strike(sp_Level_italic(s)) == sp_Level_italic(sp_Level_strike(s)),
    sp_Level_suffix(sp_Level_italic(s), b4_s) == sp_Level_italic(sp_Level_suffix(s, b4_s)),
    sp_Level_underline(sp_Level_italic(s), b5_line_type) == sp_Level_italic(sp_Level_underline(s, b5_line_type)),
    sp_Level_vanish(sp_Level_italic(s)) == sp_Level_italic(sp_Level_vanish(s)),
{}
pub proof fn order_Level_level_restart(s: Level, a_v: u32, b0_size: usize, b1_v: i32, b3_s: LevelSuffixType, b4_line_type: Seq<char>)
  ensures
    sp_Level_size(sp_Level_level_restart(s, a_v), b0_size) == sp_Level_level_restart(sp_Level_size(s, b0_size), a_v),
    sp_Level_spacing(sp_Level_level_restart(s, a_v), b1_v) == sp_Level_level_restart(sp_Level_spacing(s, b1_v), a_v),
    sp_Level_strike(sp_Level_level_restart(s, a_v)) == sp_Level_level_restart(sp_Level_strike(s), a_v),
    sp_Level_suffix(sp_Level_level_restart(s, a_v), b3_s) == sp_Level_level_restart(sp_Level_suffix(s, b3_s), a_v),
    sp_Level_underline(sp_Level_level_restart(s, a_v), b4_line_type) == sp_Level_level_restart(sp_Level_underline(s, b4_line_type), a_v),
    sp_Level_vanish(sp_Level_level_restart(s, a_v)) == sp_Level_level_restart(sp_Level_vanish(s), a_v),
{}
pub proof fn order_Level_size(s: Level, a_size: usize, b0_v: i32, b2_s: LevelSuffixType, b3_line_type: Seq<char>)
  ensures
    sp_Level_spacing(sp_Level_size(s, a_size), b0_v) == sp_Level_size(sp_Level_spacing(s, b0_v), a_size),
    sp_Level_strike(sp_Level_size(s, a_size)) == sp_Level_size(sp_Level_strike(s), a_size),
    sp_Level_suffix(sp_Level_size(s, a_size), b2_s) == sp_Level_size(sp_Level_suffix(s, b2_s), a_size),
    sp_Level_underline(sp_Level_size(s, a_size), b3_line_type) == sp_Level_size(sp_Level_underline(s, b3_line_type), a_size),
    sp_Level_vanish(sp_Level_size(s, a_size)) == sp_Level_size(sp_Level_vanish(s), a_size),
{}
pub proof fn order_Level_spacing(s: Level, a_v: i32, b1_s: LevelSuffixType, b2_line_type: Seq<char>)
  ensures
    sp_Level_strike(sp_Level_spacing(s, a_v)) == sp_Level_spacing(sp_Level_strike(s), a_v),
    sp_Level_suffix(sp_Level_spacing(s, a_v), b1_s) == sp_Level_spacing(sp_Level_suffix(s, b1_s), a_v),
    sp_Level_underline(sp_Level_spacing(s, a_v), b2_line_type) == sp_Level_spacing(sp_Level_underline(s, b2_line_type), a_v),
    sp_Level_vanish(sp_Level_spacing(s, a_v)) == sp_Level_spacing(sp_Level_vanish(s), a_v),
{}
pub proof fn order_Level_strike(s: Level, b0_s: LevelSuffixType, b1_line_type: Seq<char>)
  ensures
    sp_Level_suffix(sp_Level_strike(s), b0_s) == sp_Level_strike(sp_Level_suffix(s, b0_s)),
    sp_Level_underline(sp_Level_strike(s), b1_line_type) == sp_Level_strike(sp_Level_underline(s, b1_line_type)),
    sp_Level_vanish(sp_Level_strike(s)) == sp_Level_strike(sp_Level_vanish(s)),
{}
pub proof fn order_Level_suffix(s: Level, a_s: LevelSuffixType, b0_line_type: Seq<char>)
  ensures
    sp_Level_underline(sp_Level_suffix(s, a_s), b0_line_type) == sp_Level_suffix(sp_Level_underline(s, b0_line_type), a_s),
    sp_Level_vanish(sp_Level_suffix(s, a_s)) == sp_Level_suffix(sp_Level_vanish(s), a_s),
{}
pub proof fn order_Level_underline(s: Level, a_line_type: Seq<char>)
  ensures
    sp_Level_vanish(sp_Level_underline(s, a_line_type)) == sp_Level_underline(sp_Level_vanish(s), a_line_type),
{}
