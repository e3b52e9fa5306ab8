#!/usr/bin/env python3
"""Writes units/readback_core.rs: the builder contracts (of units/builders_core.rs) the readers lean on."""
import re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(here + '/units/builders_core.rs').read()
specs, blocks = {}, {}
for m in re.finditer(r'^pub open spec fn (sp_\w+)\(.*$', text, re.M):
    specs[m.group(1)] = m.group(0)
for m in re.finditer(r'^//@fn (\S+)[^\n]*\n(?://@[^\n]*\n)*?//@end$', text, re.M):
    blocks[m.group(1)] = m.group(0)
WANT = '''RunProperty::style RunProperty::bold RunProperty::disable_bold RunProperty::caps RunProperty::highlight RunProperty::strike
RunProperty::dstrike RunProperty::vert_align RunProperty::color RunProperty::theme_color RunProperty::theme_shade RunProperty::theme_tint
RunProperty::size RunProperty::spacing RunProperty::fit_text RunProperty::fonts RunProperty::underline RunProperty::italic
RunProperty::disable_italic RunProperty::shading RunProperty::vanish RunProperty::spec_vanish RunProperty::text_border RunProperty::insert
RunProperty::delete RunProperty::ptab RunFonts::ascii RunFonts::hi_ansi RunFonts::east_asia RunFonts::cs RunFonts::ascii_theme
RunFonts::hi_ansi_theme RunFonts::east_asia_theme RunFonts::cs_theme RunFonts::hint TextBorder::color TextBorder::size TextBorder::space
TextBorder::border_type Shading::color Shading::fill Shading::shd_type Caps::new Caps::disable Strike::new Strike::disable Dstrike::new
Dstrike::disable ParagraphProperty::indent ParagraphProperty::hanging_chars ParagraphProperty::first_line_chars ParagraphProperty::line_spacing
ParagraphProperty::align ParagraphProperty::text_alignment ParagraphProperty::adjust_right_ind ParagraphProperty::numbering_property ParagraphProperty::add_tab
LineSpacing::before LineSpacing::after LineSpacing::line LineSpacing::line_rule LineSpacing::before_lines LineSpacing::after_lines
FrameProperty::wrap FrameProperty::h_rule FrameProperty::h_anchor FrameProperty::v_anchor FrameProperty::x_align FrameProperty::y_align
FrameProperty::h_space FrameProperty::v_space FrameProperty::x FrameProperty::y FrameProperty::width FrameProperty::height
Tab::new Tab::val Tab::leader Tab::pos Tabs::add_tab NumberingProperty::new NumberingProperty::add_num NumberingProperty::id NumberingProperty::level'''.split()
done_s, done_b, out = set(), set(), []
def need(spec):
    if spec in done_s or spec not in specs: return
    done_s.add(spec)
    for s in re.findall(r'\bsp_\w+', specs[spec]): need(s)
    out.append(specs[spec])
    key = spec[3:].replace('_', '::', 1)
    if key in blocks: block(key)
def block(key):
    if key in done_b: return
    done_b.add(key)
    for s in re.findall(r'\bsp_\w+', blocks[key]): need(s)
    out.append(blocks[key])
for w in WANT:
    if w not in blocks: print('no contract for', w); continue
    block(w)
open(here + '/units/readback_core.rs', 'w').write('\n'.join(out) + '\n')
NAMES = '''sz szCs color b bCs caps i iCs strike dstrike highlight u vanish specVanish rFonts bdr vertAlign spacing fitText w rStyle shd rPr val
themeColor themeShade themeTint ascii hAnsi cs eastAsia asciiTheme hAnsiTheme cstheme eastAsiaTheme hint space fill id'''.split()
def names(lst, fn='names'):
    o = ['/// What the names written look like without their prefix.', 'pub proof fn %s()' % fn, '    ensures']
    o += ['        local("w:%s"@) == "%s"@,' % (n, n) for n in lst]
    o += ['{']
    o += ['    reveal_strlit("w:%s"); reveal_strlit("%s"); assert(local("w:%s"@) =~= "%s"@);' % (n, n, n, n) for n in lst]
    return '\n'.join(o + ['}']) + '\n'
open(here + '/units/rb_names.rs', 'w').write(names(NAMES))
PNAMES = '''pPr pStyle jc textAlignment widowControl outlineLvl adjustRightInd ilvl numId snapToGrid keepNext keepLines pageBreakBefore ind left right
leftChars firstLine hanging before after beforeLines afterLines line lineRule framePr wrap hRule hAnchor vAnchor xAlign yAlign x y hSpace vSpace h tab leader pos
tabs numPr'''.split()
open(here + '/units/rp_names.rs', 'w').write(names(PNAMES, 'names_p'))
