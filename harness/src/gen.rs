//! Random documents assembled through the public builder API, with a record of what was put where.
use crate::rng::Rng;
use docx_rs::*;

#[derive(Clone, Debug)]
pub struct Opt {
    pub wild: bool,
    /// tracked changes without content, and blank deleted text
    pub empties: bool,
    pub images: bool,
    pub comments: bool,
    /// comment markers among the children of a run
    pub run_comments: bool,
    pub links: bool,
    pub numbering: bool,
    pub headers: bool,
    pub sections: bool,
    pub toc: bool,
    pub sdt: bool,
    pub footnotes: bool,
    pub revisions: bool,
    pub bookmarks: bool,
    pub extras: bool,
    pub props: bool,
    pub ids: bool,
    pub tables: bool,
    pub styles: bool,
    pub blocks: usize,
    /// ids of pictures and links that collide with each other and with ids the library uses
    pub clash: bool,
    pub many_images: bool,
    /// section properties on paragraphs
    pub psect: bool,
    /// pictures in footnotes, pictures and links in comments
    pub aux_media: bool,
    /// content controls among the children of a paragraph or hyperlink
    pub isdt: bool,
    /// texts that spell out an entity
    pub entities: bool,
    /// page number fields among the children of a paragraph
    pub page_fields: bool,
}

impl Opt {
    pub fn all() -> Opt {
        Opt {
            wild: false, empties: false, images: true, comments: true, run_comments: true, links: true, numbering: true, headers: true, sections: true,
            toc: true, sdt: true, footnotes: true, revisions: true, bookmarks: true, extras: true, props: true,
            ids: false, tables: true, styles: true, blocks: 5, clash: false, many_images: false, psect: true,
            aux_media: false, isdt: true, entities: true, page_fields: true,
        }
    }
    pub fn none() -> Opt {
        Opt {
            wild: false, empties: false, images: false, comments: false, run_comments: false, links: false, numbering: false, headers: false,
            sections: false, toc: false, sdt: false, footnotes: false, revisions: false, bookmarks: false,
            extras: false, props: false, ids: false, tables: false, styles: false, blocks: 5, clash: false,
            many_images: false, psect: false, aux_media: false, isdt: true, entities: true, page_fields: true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct CommentFact {
    pub id: usize,
    pub author: String,
    pub date: String,
    /// texts of its paragraphs, in order
    pub texts: Vec<String>,
    pub tables: usize,
    pub parent: Option<usize>,
    pub place: String,
}

#[derive(Clone, Debug)]
pub struct HdrFact {
    /// index of the section (explicit sections in order, then usize::MAX for the document's own)
    pub section: usize,
    pub header: bool,
    pub kind: &'static str,
    pub marker: String,
}

#[derive(Default, Clone, Debug)]
pub struct Facts {
    /// run texts in document order of construction, with their place
    pub texts: Vec<(String, String)>,
    pub images: Vec<(u32, Vec<u8>, String)>,
    pub comments: Vec<CommentFact>,
    pub links: Vec<(String, String, String)>,
    pub numbered: Vec<(usize, usize, String)>,
    pub hdrs: Vec<HdrFact>,
    pub footnotes: Vec<(usize, String)>,
    pub num_defs: Vec<(usize, usize)>,
    pub abs_defs: Vec<(usize, Vec<usize>)>,
    /// level overrides: numbering id, level, start value
    pub overrides: Vec<(usize, usize, usize)>,
    pub title_pg: Vec<usize>,
    pub sections: usize,
    pub custom_items: Vec<(String, String)>,
    pub doc_vars: Vec<(String, String)>,
    pub custom_props: Vec<(String, String)>,
    /// paragraphs the caller made: id, marker text, place
    pub paras: Vec<(String, String, String)>,
    /// markers of headers and footers that were replaced by a later call
    pub replaced: Vec<String>,
    pub even_asked: bool,
    pub taskpanes: bool,
    pub web_extensions: usize,
}

pub struct Gen {
    pub r: Rng,
    pub o: Opt,
    pub n: usize,
    pub f: Facts,
    pub log: String,
    pub place: Vec<&'static str>,
    pub open_comments: Vec<usize>,
    pub known_comments: Vec<usize>,
    pub in_comment: bool,
    depth: usize,
    again: bool,
}

const WILD: &[&str] = &[
    "&", "<", ">", "\"", "'", "&amp;", "&lt;", "]]>", "<w:p/>", "&#38;", "é", "漢字", "🦀", "--", "\\", "%", "=", "/", "&quot;", "<!--", "\u{85}", "\u{a0}", "&&", "a&b;c",
];

/// Ids that collide with those the library gives out itself.
const THEMES: &[&str] = &["minorHAnsi", "majorHAnsi", "minorEastAsia", "majorEastAsia", "minorBidi", "majorBidi"];
const ANCHORS: &[&str] = &["page", "margin", "text"];
const ALIGNS: &[AlignmentType] = &[AlignmentType::Both, AlignmentType::Center, AlignmentType::Distribute, AlignmentType::Start, AlignmentType::End, AlignmentType::Left, AlignmentType::Right, AlignmentType::Justified];
const CLASH: &[&str] = &[
    "rId1", "rId2", "rId3", "rId4", "rId5", "rId6", "rIdHeader1", "rIdFooter1", "rIdHeader2", "x", "x_2", "x_3", "x_2_2", "headerx", "footerx", "rIdCustomXml1",
];

macro_rules! maybe {
    ($g:expr, $pct:expr, $v:ident => $e:expr) => {
        if $g.r.chance($pct) {
            $v = $e;
        }
    };
}

impl Gen {
    pub fn new(seed: u64, o: Opt) -> Gen {
        Gen {
            r: Rng::new(seed), o, n: 0, f: Facts::default(), log: String::new(), place: vec![], open_comments: vec![],
            known_comments: vec![], in_comment: false, depth: 0, again: false,
        }
    }
    fn l(&mut self, s: String) {
        for _ in 0..self.place.len() {
            self.log.push_str("  ");
        }
        self.log.push_str(&s);
        self.log.push('\n');
    }
    fn path(&self) -> String {
        self.place.join("/")
    }
    pub fn serial(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    /// a unique text
    pub fn text(&mut self, tag: &str) -> String {
        let n = self.serial();
        let mut s = format!("{tag}{n}");
        if self.o.wild {
            for _ in 0..self.r.below(5) {
                let w = *self.r.pick(WILD);
                s.push_str(if !self.o.entities && w.ends_with(';') { "&" } else { w });
                if self.r.chance(40) {
                    s.push_str("x");
                }
            }
        } else if self.r.chance(30) {
            s.push_str(" w");
        }
        s.push_str(".");
        s
    }
    pub fn hex(&mut self) -> String {
        format!("{:06X}", self.r.below(0xFFFFFF))
    }
    fn num(&mut self) -> i32 {
        match self.r.below(6) {
            0 => 0,
            1 => 1,
            2 => -(self.r.below(2000) as i32),
            3 if self.r.chance(25) => 65_000 + self.r.below(900_000) as i32,
            _ => self.r.below(5000) as i32,
        }
    }
    fn unum(&mut self) -> usize {
        match self.r.below(5) {
            0 => 0,
            1 => 1,
            2 if self.r.chance(25) => 65_000 + self.r.below(900_000),
            _ => self.r.below(5000),
        }
    }
    pub fn border_type(&mut self) -> BorderType {
        *self.r.pick(&[BorderType::Nil, BorderType::None, BorderType::Single, BorderType::Thick, BorderType::Double, BorderType::Dotted, BorderType::Dashed, BorderType::DotDash, BorderType::DotDotDash, BorderType::Triple, BorderType::ThinThickSmallGap, BorderType::ThickThinSmallGap, BorderType::ThinThickThinSmallGap, BorderType::ThinThickMediumGap, BorderType::ThickThinMediumGap, BorderType::ThinThickThinMediumGap, BorderType::ThinThickLargeGap, BorderType::ThickThinLargeGap, BorderType::ThinThickThinLargeGap, BorderType::Wave, BorderType::DoubleWave, BorderType::DashSmallGap, BorderType::DashDotStroked, BorderType::ThreeDEmboss, BorderType::ThreeDEngrave, BorderType::Outset, BorderType::Inset, BorderType::Apples, BorderType::ArchedScallops, BorderType::BabyPacifier, BorderType::BabyRattle])
    }
    pub fn width_type(&mut self) -> WidthType {
        *self.r.pick(&[WidthType::Dxa, WidthType::Auto, WidthType::Pct, WidthType::Nil])
    }
    pub fn shading(&mut self) -> Shading {
        let t = *self.r.pick(&[ShdType::Nil, ShdType::Clear, ShdType::Solid, ShdType::HorzStripe, ShdType::VertStripe, ShdType::ReverseDiagStripe, ShdType::DiagStripe, ShdType::HorzCross, ShdType::DiagCross, ShdType::ThinHorzStripe, ShdType::ThinVertStripe, ShdType::ThinReverseDiagStripe, ShdType::ThinDiagStripe, ShdType::ThinHorzCross, ShdType::ThinDiagCross, ShdType::Pct5, ShdType::Pct10, ShdType::Pct12, ShdType::Pct15, ShdType::Pct20, ShdType::Pct25, ShdType::Pct30, ShdType::Pct35, ShdType::Pct37, ShdType::Pct40, ShdType::Pct45, ShdType::Pct50, ShdType::Pct55, ShdType::Pct60, ShdType::Pct62, ShdType::Pct65, ShdType::Pct70, ShdType::Pct75, ShdType::Pct80, ShdType::Pct85, ShdType::Pct87, ShdType::Pct90, ShdType::Pct95]);
        let (a, b) = (self.hex(), self.hex());
        Shading::new().color(a).fill(b).shd_type(t)
    }
    pub fn fonts(&mut self) -> RunFonts {
        let mut f = RunFonts::new();
        let t = |g: &mut Gen| if g.o.wild { g.text("Font") } else { g.r.pick(&["Arial", "Times", "MS Gothic"]).to_string() };
        if self.r.chance(60) { let x = t(self); f = f.ascii(x); }
        if self.r.chance(40) { let x = t(self); f = f.hi_ansi(x); }
        if self.r.chance(30) { let x = t(self); f = f.east_asia(x); }
        if self.r.chance(30) { let x = t(self); f = f.cs(x); }
        if self.r.chance(20) { let v = *self.r.pick(THEMES); f = f.ascii_theme(v); }
        if self.r.chance(20) { let v = *self.r.pick(THEMES); f = f.hi_ansi_theme(v); }
        if self.r.chance(20) { let v = *self.r.pick(THEMES); f = f.east_asia_theme(v); }
        if self.r.chance(20) { let v = *self.r.pick(THEMES); f = f.cs_theme(v); }
        if self.r.chance(20) { let v = *self.r.pick(&["eastAsia", "cs", "default"]); f = f.hint(v); }
        f
    }
    pub fn text_border(&mut self) -> TextBorder {
        let (t, a, b, c) = (self.border_type(), self.unum(), self.unum(), self.hex());
        TextBorder::new().border_type(t).size(a).space(b).color(c)
    }
    pub fn run_property(&mut self) -> RunProperty {
        let mut p = RunProperty::new();
        maybe!(self, 15, p => p.style(&self.sid()));
        maybe!(self, 25, p => { let v = self.unum(); p.size(v) });
        maybe!(self, 15, p => { let v = self.num(); p.spacing(v) });
        maybe!(self, 25, p => { let v = self.hex(); p.color(v) });
        maybe!(self, 8, p => p.theme_color(*self.r.pick(&[ThemeColor::Dark1, ThemeColor::Light1, ThemeColor::Dark2, ThemeColor::Light2, ThemeColor::Accent1, ThemeColor::Accent2, ThemeColor::Accent3, ThemeColor::Accent4, ThemeColor::Accent5, ThemeColor::Accent6, ThemeColor::Hyperlink, ThemeColor::FollowedHyperlink, ThemeColor::None, ThemeColor::Background1, ThemeColor::Text1, ThemeColor::Background2, ThemeColor::Text2])));
        maybe!(self, 8, p => { let v = format!("{:02X}", self.r.below(256)); p.theme_shade(v) });
        maybe!(self, 8, p => { let v = format!("{:02X}", self.r.below(256)); p.theme_tint(v) });
        maybe!(self, 15, p => p.highlight(*self.r.pick(&["yellow", "green", "cyan", "black", "darkBlue", "none", "lightGray"])));
        maybe!(self, 15, p => p.vert_align(*self.r.pick(&[VertAlignType::SuperScript, VertAlignType::SubScript, VertAlignType::Baseline])));
        maybe!(self, 25, p => p.bold());
        maybe!(self, 10, p => p.disable_bold());
        maybe!(self, 10, p => p.caps());
        maybe!(self, 25, p => p.italic());
        maybe!(self, 10, p => p.disable_italic());
        maybe!(self, 15, p => p.strike());
        maybe!(self, 8, p => p.disable_strike());
        maybe!(self, 15, p => p.dstrike());
        maybe!(self, 8, p => p.disable_dstrike());
        maybe!(self, 20, p => p.underline(*self.r.pick(&["single", "double", "dotted", "none", "words", "wavyDouble", "dashLongHeavy"])));
        maybe!(self, 10, p => p.vanish());
        maybe!(self, 10, p => p.spec_vanish());
        maybe!(self, 20, p => { let f = self.fonts(); p.fonts(f) });
        maybe!(self, 10, p => { let v = self.num(); p.character_spacing(v) });
        maybe!(self, 10, p => { let v = self.r.range(1, 600) as i32; p.stretch(v) });
        maybe!(self, 8, p => { let v = self.unum(); p.fit_text(v, if v % 2 == 0 { None } else { Some(v as u32) }) });
        maybe!(self, 10, p => { let b = self.text_border(); p.text_border(b) });
        maybe!(self, 10, p => { let s = self.shading(); p.shading(s) });
        if self.o.revisions {
            maybe!(self, 5, p => { let (a, d) = self.who(); p.delete(Delete::new().author(a).date(d)) });
            maybe!(self, 5, p => { let (a, d) = self.who(); p.insert(Insert::new_with_empty().author(a).date(d)) });
        }
        p
    }
    pub fn sid(&mut self) -> String {
        if self.o.wild { self.text("Sty") } else { self.r.pick(&["Heading1", "Normal", "Quote", "X1"]).to_string() }
    }
    pub fn who(&mut self) -> (String, String) {
        let a = self.text("Auth");
        (a, format!("20{:02}-01-01T00:00:00Z", self.r.below(30)))
    }
    pub fn line_spacing(&mut self) -> LineSpacing {
        let mut s = LineSpacing::new();
        maybe!(self, 50, s => { let v = self.unum() as u32; s.before(v) });
        maybe!(self, 50, s => { let v = self.unum() as u32; s.after(v) });
        maybe!(self, 25, s => { let v = self.unum() as u32; s.before_lines(v) });
        maybe!(self, 25, s => { let v = self.unum() as u32; s.after_lines(v) });
        maybe!(self, 40, s => { let v = self.unum() as i32; s.line(v) });
        maybe!(self, 40, s => s.line_rule(*self.r.pick(&[LineSpacingType::Auto, LineSpacingType::Exact, LineSpacingType::AtLeast])));
        s
    }
    pub fn indent_args(&mut self) -> (Option<i32>, Option<SpecialIndentType>, Option<i32>, Option<i32>) {
        let a = if self.r.chance(70) { Some(self.num()) } else { None };
        let b = match self.r.below(3) { 0 => Some(SpecialIndentType::FirstLine(self.unum() as i32)), 1 => Some(SpecialIndentType::Hanging(self.unum() as i32)), _ => None };
        let c = if self.r.chance(40) { Some(self.num()) } else { None };
        let d = if self.r.chance(30) { Some(self.num()) } else { None };
        (a, b, c, d)
    }
    pub fn borders(&mut self) -> ParagraphBorders {
        let mut b = ParagraphBorders::with_empty();
        for pos in [ParagraphBorderPosition::Top, ParagraphBorderPosition::Left, ParagraphBorderPosition::Bottom, ParagraphBorderPosition::Right, ParagraphBorderPosition::Between, ParagraphBorderPosition::Bar] {
            if self.r.chance(40) {
                let (t, s, p, c) = (self.border_type(), self.unum(), self.unum(), self.hex());
                b = b.set(ParagraphBorder::new(pos).val(t).size(s).space(p).color(c));
            }
        }
        b
    }
    pub fn tab(&mut self) -> Tab {
        let v = *self.r.pick(&[TabValueType::Bar, TabValueType::Center, TabValueType::Clear, TabValueType::Decimal, TabValueType::End, TabValueType::Right, TabValueType::Num, TabValueType::Start, TabValueType::Left]);
        let l = *self.r.pick(&[TabLeaderType::Dot, TabLeaderType::Heavy, TabLeaderType::Hyphen, TabLeaderType::MiddleDot, TabLeaderType::None, TabLeaderType::Underscore]);
        let p = self.unum();
        Tab::new().val(v).leader(l).pos(p)
    }
    pub fn para_property(&mut self, p: Paragraph) -> Paragraph {
        let mut p = p;
        maybe!(self, 20, p => p.align(*self.r.pick(ALIGNS)));
        maybe!(self, 20, p => p.style(&self.sid()));
        maybe!(self, 15, p => { let (a, b, c, d) = self.indent_args(); p.indent(a, b, c, d) });
        maybe!(self, 15, p => { let s = self.line_spacing(); p.line_spacing(s) });
        maybe!(self, 8, p => p.snap_to_grid(self.r.chance(50)));
        maybe!(self, 8, p => p.keep_next(self.r.chance(50)));
        maybe!(self, 8, p => p.keep_lines(self.r.chance(50)));
        maybe!(self, 8, p => p.page_break_before(self.r.chance(50)));
        maybe!(self, 8, p => p.widow_control(self.r.chance(50)));
        maybe!(self, 8, p => p.outline_lvl(self.r.below(10)));
        maybe!(self, 12, p => { let t = self.tab(); p.add_tab(t) });
        maybe!(self, 8, p => { let v = self.num(); p.hanging_chars(v) });
        maybe!(self, 8, p => { let v = self.num(); p.first_line_chars(v) });
        maybe!(self, 8, p => { let v = self.unum(); p.size(v) });
        maybe!(self, 8, p => p.bold());
        maybe!(self, 8, p => p.italic());
        maybe!(self, 10, p => { let r = self.run_property(); p.run_property(r) });
        maybe!(self, 8, p => { let v = self.num(); p.character_spacing(v) });
        maybe!(self, 8, p => { let b = self.borders(); p.set_borders(b) });
        if self.r.chance(12) {
            p.property = self.para_prop();
            if let Some(n) = p.property.numbering_property.clone() {
                // placed through the property group: remember it like any other numbered paragraph
                if let (Some(i), Some(l)) = (n.id, n.level) { p.property.numbering_property = None; let path = self.path(); self.f.numbered.push((i.id, l.val, path)); p = p.numbering(i, l); }
            }
        }
        if self.o.sections && self.o.psect { maybe!(self, 2, p => { let s = self.section_property(); p.section_property(s) }); }
        if self.o.revisions {
            maybe!(self, 4, p => { let (a, d) = self.who(); p.delete(a, d) });
            maybe!(self, 4, p => { let (a, d) = self.who(); p.insert(a, d) });
            maybe!(self, 5, p => { let (a, d) = self.who(); p.paragraph_property_change(ParagraphPropertyChange::new().author(a).date(d).property(ParagraphProperty::new().align(*self.r.pick(ALIGNS)))) });
        }
        maybe!(self, 4, p => { let (a, b, c) = (*self.r.pick(&["around", "auto", "none", "through"]), *self.r.pick(ANCHORS), *self.r.pick(ANCHORS)); p.wrap(a).v_anchor(b).h_anchor(c) });
        maybe!(self, 4, p => { let (a, b) = (self.num(), self.num()); p.frame_x(a).frame_y(b) });
        maybe!(self, 4, p => { let (a, b) = (self.unum() as u32, self.unum() as u32); p.frame_width(a).frame_height(b) });
        maybe!(self, 3, p => { let (a, b, c) = (*self.r.pick(&["exact", "atLeast", "auto"]), *self.r.pick(&["center", "left", "outside"]), *self.r.pick(&["top", "bottom", "inline"])); p.h_rule(a).x_align(b).y_align(c) });
        p
    }
    pub fn png(&mut self) -> Vec<u8> {
        let mut v = vec![137, 80, 78, 71, 13, 10, 26, 10];
        for _ in 0..(8 + self.r.below(8)) {
            v.push(self.r.below(4) as u8);
        }
        v
    }
    pub fn pic(&mut self) -> Pic {
        let w = 1000 + self.serial() as u32;
        // repeat earlier bytes now and then
        let bytes = if !self.f.images.is_empty() && self.r.chance(30) { self.r.pick(&self.f.images).1.clone() } else { self.png() };
        let mut p = Pic::new_with_dimensions(bytes.clone(), 3, 4).size(w, 77);
        if self.o.clash && self.r.chance(50) {
            p = p.id(*self.r.pick(CLASH));
        } else if self.r.chance(30) {
            let id = format!("rIdImage{}", 900 + self.r.below(3));
            p = p.id(id);
        }
        maybe!(self, 20, p => p.floating());
        maybe!(self, 10, p => p.overlapping());
        maybe!(self, 15, p => { let v = self.unum() as i32; p.offset_x(v) });
        maybe!(self, 15, p => { let v = self.unum() as i32; p.offset_y(v) });
        maybe!(self, 10, p => { let v = self.r.below(360) as u16; p.rotate(v) });
        maybe!(self, 10, p => p.position_h(DrawingPosition::Align(*self.r.pick(&[PicAlign::Left, PicAlign::Right, PicAlign::Center]))));
        maybe!(self, 10, p => p.position_v(DrawingPosition::Align(*self.r.pick(&[PicAlign::Top, PicAlign::Bottom, PicAlign::Center]))));
        maybe!(self, 10, p => p.relative_from_h(*self.r.pick(&[RelativeFromHType::Character, RelativeFromHType::Column, RelativeFromHType::InsideMargin, RelativeFromHType::LeftMargin, RelativeFromHType::Margin, RelativeFromHType::OutsizeMargin, RelativeFromHType::Page, RelativeFromHType::RightMargin])));
        maybe!(self, 10, p => p.relative_from_v(*self.r.pick(&[RelativeFromVType::BottomMargin, RelativeFromVType::InsideMargin, RelativeFromVType::Line, RelativeFromVType::Margin, RelativeFromVType::OutsizeMargin, RelativeFromVType::Page, RelativeFromVType::Paragraph, RelativeFromVType::TopMargin])));
        maybe!(self, 10, p => { let v = self.unum() as i32; p.dist_t(v).dist_b(v + 1).dist_l(v + 2).dist_r(v + 3) });
        let path = self.path();
        self.l(format!("pic cx={w} bytes={:?} id={}", bytes, p.id));
        self.f.images.push((w, bytes, path));
        p
    }
    pub fn run(&mut self) -> Run {
        let mut r = Run::new();
        let k = 1 + self.r.below(3);
        self.place.push("r");
        if self.o.props && self.r.chance(45) {
            r.run_property = self.run_property();
        }
        for _ in 0..k {
            match self.r.below(if self.o.many_images { 14 } else { 22 }) {
                0 => { r = r.add_tab(); self.l("tab".into()); }
                1 => { let b = *self.r.pick(&[BreakType::Page, BreakType::Column, BreakType::TextWrapping]); self.l(format!("break {b:?}")); r = r.add_break(b); }
                2 if self.o.images => { let p = self.pic(); r = r.add_image(p); }
                3 | 10 | 11 if self.o.images && (self.o.many_images || self.r.chance(30)) => { let p = self.pic(); r = r.add_image(p); }
                4 if self.o.footnotes && !self.in_comment && self.depth < 3 && self.place.iter().all(|p| *p != "footnote" && *p != "header" && *p != "footer") => {
                    self.place.push("footnote");
                    self.depth += 1;
                    let mut fnote = Footnote::new();
                    let id = fnote.id();
                    self.l(format!("footnote {id}"));
                    let save = self.o.clone();
                    self.o.comments = false;
                    self.o.links = false;
                    self.o.images = save.images && save.aux_media;
                    let mk = self.text("FN");
                    let p = self.np(&mk);
                    fnote.add_content(p);
                    if self.r.chance(40) { let p = self.para(); fnote.add_content(p); }
                    self.o = save;
                    self.f.footnotes.push((id, mk));
                    self.depth -= 1;
                    self.place.pop();
                    r = r.add_footnote_reference(fnote);
                }
                5 if self.o.extras => { let (f, c) = (*self.r.pick(&["Wingdings", "Symbol"]), format!("F0{:02X}", self.r.below(256))); r = r.add_sym(Sym::new(f, c)); self.l("sym".into()); }
                6 if self.o.extras => { r = r.add_carriage_return(); self.l("cr".into()); }
                7 if self.o.extras => { let (a, b, c) = (*self.r.pick(&[PositionalTabAlignmentType::Center, PositionalTabAlignmentType::Left, PositionalTabAlignmentType::Right]), *self.r.pick(&[PositionalTabRelativeTo::Margin, PositionalTabRelativeTo::Indent]), *self.r.pick(&[TabLeaderType::Dot, TabLeaderType::Heavy, TabLeaderType::Hyphen, TabLeaderType::MiddleDot, TabLeaderType::None, TabLeaderType::Underscore])); r = r.add_ptab(PositionalTab::new(a, b, c)); }
                8 if self.o.extras => { let t = self.text("TC"); r = r.add_tc(InstrTC::new(t).level(1 + self.r.below(9))); }
                9 if self.o.extras => { let dirty = self.r.chance(50); let (mid, end) = (self.o.empties && self.r.chance(30), self.o.empties && self.r.chance(30)); r = r.add_field_char(FieldCharType::Begin, dirty).add_instr_text(InstrText::PAGE(InstrPAGE::new())).add_field_char(FieldCharType::Separate, mid).add_text("1").add_field_char(FieldCharType::End, end); }
                12 if self.o.run_comments && self.comment_here() && self.r.chance(15) => {
                    let c = self.comment();
                    let id = c.id();
                    r.children.push(RunChild::CommentStart(Box::new(CommentRangeStart::new(c))));
                    let t = self.text("T");
                    let path = self.path();
                    self.f.texts.push((t.clone(), path));
                    r = r.add_text(t);
                    r.children.push(RunChild::CommentEnd(CommentRangeEnd::new(id)));
                }
                _ => {
                    let t = self.text("T");
                    self.l(format!("text {t:?}"));
                    let path = self.path();
                    self.f.texts.push((t.clone(), path));
                    r = r.add_text(t);
                }
            }
        }
        self.place.pop();
        r
    }
    fn comment_here(&self) -> bool {
        self.o.comments && !self.in_comment && self.place.iter().all(|p| *p != "header" && *p != "footer" && *p != "footnote" && *p != "comment")
    }
    /// a plain paragraph holding the given text, with an id of its own now and then
    pub fn np(&mut self, text: &str) -> Paragraph {
        let mut p = Paragraph::new();
        if self.o.ids && self.r.chance(70) {
            let i = self.pid();
            p = p.id(i);
        }
        let path = self.path();
        self.f.texts.push((text.to_string(), path.clone()));
        self.f.paras.push((p.id.clone(), text.to_string(), path));
        p.add_run(Run::new().add_text(text))
    }
    fn del_run(&mut self) -> Run {
        let t = if self.o.empties && self.r.chance(15) { " ".repeat(1 + self.r.below(5) as usize) } else { self.text("D") };
        self.l(format!("delText {t:?}"));
        let path = self.path();
        self.f.texts.push((t.clone(), path));
        Run::new().add_delete_text(t)
    }
    pub fn insert(&mut self) -> Insert {
        let (a, d) = self.who();
        self.place.push("ins");
        self.l(format!("ins {a:?}"));
        let mut i = Insert::new_with_empty().author(a).date(d);
        let none = self.o.empties && self.r.chance(12);
        for _ in 0..(if none { 0 } else { 1 + self.r.below(2) }) {
            if self.r.chance(25) { let del = self.delete(); i = i.add_delete(del); } else { let r = self.run(); i = i.add_run(r); }
        }
        if self.comment_here() && self.r.chance(15) {
            let c = self.comment();
            let id = c.id();
            let r = self.run();
            i = i.add_comment_start(c).add_run(r).add_comment_end(id);
        }
        self.place.pop();
        i
    }
    pub fn delete(&mut self) -> Delete {
        let (a, d) = self.who();
        self.place.push("del");
        self.l(format!("del {a:?}"));
        let mut x = Delete::new().author(a).date(d);
        if !(self.o.empties && self.r.chance(12)) { let r = self.del_run(); x = x.add_run(r); }
        if self.o.images && self.r.chance(15) { let p = self.pic(); x = x.add_run(Run::new().add_image(p)); }
        if self.comment_here() && self.r.chance(15) {
            let c = self.comment();
            let id = c.id();
            let r = self.del_run();
            x = x.add_comment_start(c).add_run(r).add_comment_end(id);
        }
        self.place.pop();
        x
    }
    pub fn comment(&mut self) -> Comment {
        let id = 100 + self.serial();
        let (a, d) = self.who();
        let parent = if !self.known_comments.is_empty() && self.r.chance(40) { Some(*self.r.pick(&self.known_comments)) } else { None };
        self.l(format!("comment {id} parent {parent:?} {a:?}"));
        let mut c = Comment::new(id).author(&a).date(&d);
        self.in_comment = true;
        self.place.push("comment");
        let (mut texts, mut tables) = (vec![], 0);
        let k = if self.r.chance(70) { 1 } else { 1 + self.r.below(3) };
        for j in 0..k {
            if self.o.tables && k > 1 && self.r.chance(20) {
                let t = self.text("CT");
                let p = self.np(&t);
                c = c.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p)])]));
                tables += 1;
                if j + 1 < k { continue; }
            }
            let t = self.text("C");
            self.l(format!("comment paragraph {t:?}"));
            let mut p = self.np(&t);
            if self.o.numbering && self.r.chance(10) {
                let (nid, lv) = self.num_ref();
                p = p.numbering(NumberingId::new(nid), IndentLevel::new(lv));
            }
            if self.o.aux_media && self.o.images && self.r.chance(20) { let i = self.pic(); p = p.add_run(Run::new().add_image(i)); }
            if self.o.aux_media && self.o.links && self.r.chance(20) { let h = self.link(); p = p.add_hyperlink(h); }
            c = c.add_paragraph(p);
            texts.push(t);
        }
        self.place.pop();
        self.in_comment = false;
        if let Some(q) = parent { c = c.parent_comment_id(q); }
        let place = self.path();
        self.f.comments.push(CommentFact { id, author: a, date: d, texts, tables, parent, place });
        self.known_comments.push(id);
        c
    }
    fn num_ref(&mut self) -> (usize, usize) {
        let (id, lv) = (1 + self.r.below(4), self.r.below(3));
        let path = self.path();
        self.l(format!("numbering {id} {lv}"));
        self.f.numbered.push((id, lv, path));
        (id, lv)
    }
    pub fn pid(&mut self) -> String {
        // a small pool so that duplicates happen
        if self.r.chance(4) { return String::new(); }
        format!("{:08x}", match self.r.below(4) { 0 => self.r.below(30) + 1, 1 => 0x7fff_fff0 + self.r.below(10), _ => self.r.below(0x7000_0000) + 1 })
    }
    pub fn link(&mut self) -> Hyperlink {
        let ext = self.r.chance(70);
        let n = self.serial();
        let mut url = if ext { format!("http://x.test/{n}?a=1") } else { format!("bm{n}") };
        if ext && (self.o.wild || self.r.chance(40)) { url.push_str("&b=<2>\""); }
        self.place.push("a");
        self.l(format!("hyperlink {url:?}"));
        let mut h = Hyperlink::new(url.clone(), if ext { HyperlinkType::External } else { HyperlinkType::Anchor });
        if let HyperlinkData::External { rid, .. } = &mut h.link {
            if self.o.clash && self.r.chance(40) { *rid = self.r.pick(CLASH).to_string(); }
        }
        if self.o.empties && self.r.chance(30) { let id = self.serial() as usize; h = if self.r.chance(50) { h.add_bookmark_end(id) } else { h.add_bookmark_start(id, format!("h{id}")) }; }
        let mk = self.text("L");
        let path = self.path();
        self.f.texts.push((mk.clone(), path.clone()));
        h = h.add_run(Run::new().add_text(mk.clone()));
        if ext { self.f.links.push((mk, url, path)); }
        if self.o.empties && self.r.chance(20) { let id = self.serial() as usize; h = h.add_bookmark_end(id); }
        if self.r.chance(25) { let r = self.run(); h = h.add_run(r); }
        if self.o.revisions && self.r.chance(10) { let i = self.insert(); h = h.add_insert(i); }
        if self.o.revisions && self.r.chance(10) { let i = self.delete(); h = h.add_delete(i); }
        if self.o.sdt && self.o.isdt && self.depth < 3 && self.r.chance(8) { let i = self.sdt_inline(); h = h.add_structured_data_tag(i); }
        if self.comment_here() && self.r.chance(20) {
            let c = self.comment();
            let id = c.id();
            h = h.add_comment_start(c);
            let r = self.run();
            h = h.add_run(r).add_comment_end(id);
        }
        self.place.pop();
        h
    }
    pub fn para(&mut self) -> Paragraph {
        self.place.push("p");
        self.l("paragraph".into());
        let mut p = Paragraph::new();
        if self.o.ids {
            if self.r.chance(70) { let i = self.pid(); self.l(format!("id {i}")); p = p.id(i); }
            let mk = self.text("PM");
            let path = self.path();
            self.l(format!("marker {mk:?}"));
            self.f.paras.push((p.id.clone(), mk.clone(), path.clone()));
            self.f.texts.push((mk.clone(), path));
            p = p.add_run(Run::new().add_text(mk));
        }
        if self.o.props && self.r.chance(60) { p = self.para_property(p); }
        if self.o.numbering && self.r.chance(20) {
            let (id, lv) = self.num_ref();
            p = p.numbering(NumberingId::new(id), IndentLevel::new(lv));
        }
        for _ in 0..self.r.below(4) {
            match self.r.below(12) {
                0 if self.o.links => { let h = self.link(); p = p.add_hyperlink(h); }
                1 if self.o.revisions => { let i = self.insert(); p = p.add_insert(i); }
                2 if self.o.revisions => { let d = self.delete(); p = p.add_delete(d); }
                3 if self.o.bookmarks => {
                    let id = self.serial();
                    let nm = if self.o.wild { self.text("b") } else { format!("b{id}") };
                    p = p.add_bookmark_start(id, nm);
                    let r = self.run();
                    p = p.add_run(r).add_bookmark_end(id);
                }
                4 if self.comment_here() => {
                    let c = self.comment();
                    let id = c.id();
                    p = p.add_comment_start(c);
                    let r = self.run();
                    p = p.add_run(r).add_comment_end(id);
                }
                5 if self.o.sdt && self.o.isdt && self.depth < 3 => { let t = self.sdt_inline(); p = p.add_structured_data_tag(t); }
                6 if self.o.revisions && self.r.chance(40) => {
                    let (a, d) = self.who();
                    self.place.push("moveFrom");
                    let mut m = MoveFrom::new().author(a).date(d);
                    if !(self.o.empties && self.r.chance(25)) { let r = self.del_run(); m = m.add_run(r); }
                    if self.o.images && self.r.chance(20) { let x = self.pic(); m = m.add_run(Run::new().add_image(x)); }
                    if self.comment_here() && self.r.chance(25) {
                        let c = self.comment();
                        let id = c.id();
                        let r = self.del_run();
                        m = m.add_comment_start(c).add_run(r).add_comment_end(id);
                    }
                    self.place.pop();
                    p = p.add_move_from(m);
                }
                7 if self.o.revisions && self.r.chance(40) => {
                    let (a, d) = self.who();
                    self.place.push("moveTo");
                    let mut m = MoveTo::new_with_empty().author(a).date(d);
                    if !(self.o.empties && self.r.chance(25)) { let r = self.run(); m = m.add_run(r); }
                    if self.r.chance(25) { let x = self.delete(); m = m.add_delete(x); }
                    if self.comment_here() && self.r.chance(25) {
                        let c = self.comment();
                        let id = c.id();
                        let r = self.run();
                        m = m.add_comment_start(c).add_run(r).add_comment_end(id);
                    }
                    self.place.pop();
                    p = p.add_move_to(m);
                }
                8 if self.o.extras && self.o.page_fields && self.r.chance(30) => { p = p.add_page_num(PageNum::new()); }
                9 if self.o.extras && self.o.page_fields && self.r.chance(30) => { p = p.add_num_pages(NumPages::new()); }
                _ => { let r = self.run(); p = p.add_run(r); }
            }
        }
        self.place.pop();
        p
    }
    pub fn cell(&mut self) -> TableCell {
        let mut c = TableCell::new();
        self.place.push("tc");
        if self.o.props {
            if self.r.chance(15) { c.property = self.cell_prop(); }
            maybe!(self, 20, c => { let (v, t) = (self.unum(), self.width_type()); c.width(v, t) });
            maybe!(self, 10, c => { let v = 1 + self.r.below(3); c.grid_span(v) });
            maybe!(self, 10, c => c.vertical_merge(*self.r.pick(&[VMergeType::Continue, VMergeType::Restart])));
            maybe!(self, 10, c => c.vertical_align(*self.r.pick(&[VAlignType::Top, VAlignType::Center, VAlignType::Bottom])));
            maybe!(self, 10, c => c.text_direction(*self.r.pick(&[TextDirectionType::Lr, TextDirectionType::LrV, TextDirectionType::Rl, TextDirectionType::RlV, TextDirectionType::Tb, TextDirectionType::TbV, TextDirectionType::TbRlV, TextDirectionType::TbRl, TextDirectionType::BtLr, TextDirectionType::LrTbV])));
            maybe!(self, 15, c => { let s = self.shading(); c.shading(s) });
            maybe!(self, 15, c => {
                let mut b = TableCellBorders::with_empty();
                for pos in [TableCellBorderPosition::Top, TableCellBorderPosition::Left, TableCellBorderPosition::Bottom, TableCellBorderPosition::Right, TableCellBorderPosition::InsideH, TableCellBorderPosition::InsideV, TableCellBorderPosition::Tl2br, TableCellBorderPosition::Tr2bl] {
                    if self.r.chance(40) { let (t, s, col) = (self.border_type(), self.unum(), self.hex()); b = b.set(TableCellBorder::new(pos).border_type(t).size(s).color(col)); }
                }
                c.set_borders(b)
            });
        }
        for _ in 0..self.r.below(3) {
            match self.r.below(8) {
                0 if self.depth < 3 => { let t = self.table(); c = c.add_table(t); let p = self.para(); c = c.add_paragraph(p); }
                1 if self.o.sdt && self.depth < 3 => { let s = self.sdt(); c = c.add_structured_data_tag(s); }
                2 if self.o.toc && self.depth < 2 && self.r.chance(30) => { let t = self.toc(); c = c.add_table_of_contents(t); let p = self.para(); c = c.add_paragraph(p); }
                _ => { let p = self.para(); c = c.add_paragraph(p); }
            }
        }
        self.place.pop();
        c
    }
    pub fn table(&mut self) -> Table {
        self.depth += 1;
        self.place.push("tbl");
        self.l("table".into());
        let mut t = Table::new(vec![]);
        if self.o.props {
            maybe!(self, 15, t => { let v = self.num(); t.indent(v) });
            maybe!(self, 15, t => t.align(*self.r.pick(&[TableAlignmentType::Center, TableAlignmentType::Left, TableAlignmentType::Right])));
            maybe!(self, 15, t => { let v = self.sid(); t.style(v) });
            maybe!(self, 15, t => t.layout(*self.r.pick(&[TableLayoutType::Fixed, TableLayoutType::Autofit])));
            maybe!(self, 15, t => { let (v, w) = (self.unum(), self.width_type()); t.width(v, w) });
            maybe!(self, 15, t => { let m = { let (a, b, c, d) = (self.unum(), self.unum(), self.unum(), self.unum()); TableCellMargins::new().margin(a, b, c, d) }; t.margins(m) });
            maybe!(self, 15, t => t.clear_all_border());
            maybe!(self, 8, t => { let (a, b) = (self.num(), self.num()); t.position(TablePositionProperty::new().left_from_text(a).position_x(b).vertical_anchor(*self.r.pick(ANCHORS)).horizontal_anchor(*self.r.pick(ANCHORS))) });
            if self.r.chance(12) { t.property = self.table_prop(); }
            maybe!(self, 15, t => { let (b, s, c) = (self.border_type(), self.unum(), self.hex()); t.set_border(TableBorder::new(match self.r.below(6) { 0 => TableBorderPosition::Left, 1 => TableBorderPosition::Bottom, 2 => TableBorderPosition::Right, 3 => TableBorderPosition::InsideH, 4 => TableBorderPosition::InsideV, _ => TableBorderPosition::Top }).border_type(b).size(s).color(c)) });
        }
        let cols = 1 + self.r.below(2);
        maybe!(self, 60, t => { let g = (0..cols).map(|_| self.unum()).collect(); t.set_grid(g) });
        for _ in 0..(1 + self.r.below(2)) {
            self.place.push("tr");
            self.l("row".into());
            let cells = (0..cols).map(|_| self.cell()).collect();
            let mut row = TableRow::new(cells);
            if self.o.props {
                maybe!(self, 10, row => { let v = 1 + self.r.below(300) as u32; row.row_height(v as f32) });
                maybe!(self, 10, row => row.height_rule(*self.r.pick(&[HeightRule::Auto, HeightRule::AtLeast, HeightRule::Exact])));
                maybe!(self, 8, row => row.cant_split());
                maybe!(self, 6, row => { let v = self.r.below(4) as u32; row.grid_after(v) });
                maybe!(self, 6, row => { let v = self.r.below(4) as u32; row.grid_before(v) });
                maybe!(self, 6, row => { let v = self.r.below(500) as f32; row.width_after(v) });
                maybe!(self, 6, row => { let v = self.r.below(500) as f32; row.width_before(v) });
            }
            if self.o.revisions {
                maybe!(self, 4, row => { let (a, d) = self.who(); row.delete(Delete::new().author(a).date(d)) });
                maybe!(self, 4, row => { let (a, d) = self.who(); row.insert(Insert::new_with_empty().author(a).date(d)) });
            }
            self.place.pop();
            t = t.add_row(row);
        }
        self.place.pop();
        self.depth -= 1;
        t
    }
    /// a content control inside a paragraph
    fn sdt_inline(&mut self) -> StructuredDataTag {
        self.place.push("isdt");
        self.depth += 1;
        let mut t = StructuredDataTag::new();
        let r = self.run();
        t = t.add_run(r);
        if self.depth < 4 && self.r.chance(20) {
            let i = self.sdt_inline();
            t.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(i)));
        }
        if self.comment_here() && self.r.chance(15) {
            let c = self.comment();
            let id = c.id();
            t.children.push(StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(c))));
            let r = self.run();
            t = t.add_run(r);
            t.children.push(StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(id)));
        }
        self.depth -= 1;
        self.place.pop();
        t
    }
    pub fn sdt(&mut self) -> StructuredDataTag {
        self.depth += 1;
        self.place.push("sdt");
        self.l("sdt".into());
        let mut s = StructuredDataTag::new();
        if self.r.chance(30) { let a = if self.o.wild { self.text("Alias") } else { "al".to_string() }; s = s.alias(a); }
        if self.r.chance(20) { s = s.data_binding(DataBinding::new().xpath("/r/a").store_item_id("{1}").prefix_mappings("xmlns:a='b'")); }
        let many = if self.o.empties && self.r.chance(25) { 3 } else { 0 };
        for _ in 0..(1 + many + self.r.below(2)) {
            match self.r.below(5) {
                0 if self.o.tables && self.depth < 3 => { let t = self.table(); s = s.add_table(t); }
                1 => { let r = self.run(); s = s.add_run(r); }
                2 if self.depth < 3 => { let i = self.sdt(); s.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(i))); }
                3 if self.comment_here() => {
                    let c = self.comment();
                    let id = c.id();
                    s.children.push(StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(c))));
                    let p = self.para();
                    s = s.add_paragraph(p);
                    s.children.push(StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(id)));
                }
                _ => { let p = self.para(); s = s.add_paragraph(p); }
            }
        }
        self.place.pop();
        self.depth -= 1;
        s
    }
    pub fn toc(&mut self) -> TableOfContents {
        self.depth += 1;
        self.place.push("toc");
        self.l("toc".into());
        let mut t = TableOfContents::new().heading_styles_range(1, 3);
        if self.o.props && self.r.chance(30) { t.instr = self.toc_instr(); }
        maybe!(self, 30, t => t.alias("TOC"));
        maybe!(self, 30, t => t.hyperlink());
        maybe!(self, 20, t => t.without_sdt());
        maybe!(self, 20, t => t.dirty());
        maybe!(self, 20, t => t.paragraph_property(ParagraphProperty::new().align(*self.r.pick(ALIGNS))));
        if self.o.revisions {
            maybe!(self, 15, t => { let (a, d) = self.who(); t.delete(a, d) });
        }
        if self.r.chance(30) {
            for _ in 0..(1 + self.r.below(2)) {
                let x = self.text("I");
                t = t.add_item(TableOfContentsItem::new().text(x).level(1 + self.r.below(3)).toc_key("_Toc1").page_ref("3"));
            }
        } else if self.r.chance(30) {
            self.l("auto".into());
            t = t.auto();
        }
        if self.r.chance(30) { let p = self.para(); t = t.add_before_paragraph(p); }
        if self.r.chance(30) { let p = self.para(); t = t.add_after_paragraph(p); }
        if self.o.tables && self.depth < 3 && self.r.chance(15) { let x = self.table(); t = t.add_before_table(x); }
        if self.o.tables && self.depth < 3 && self.r.chance(15) { let x = self.table(); t = t.add_after_table(x); }
        self.place.pop();
        self.depth -= 1;
        t
    }
    fn hdr_body(&mut self, header: bool, section: usize, kind: &'static str) -> (Vec<Paragraph>, Option<Table>, Option<StructuredDataTag>) {
        let plain = self.replace(header, section, kind);
        self.place.push(if header { "header" } else { "footer" });
        let mk = self.text("HF");
        self.l(format!("{} {kind} {mk:?}", if header { "header" } else { "footer" }));
        let mut ps = vec![self.np(&mk)];
        let save = self.o.clone();
        self.o.comments = false;
        self.o.footnotes = false;
        self.o.toc = false;
        if !plain && self.r.chance(40) { let p = self.para(); ps.push(p); }
        let t = if !plain && self.o.tables && self.r.chance(15) { Some(self.table()) } else { None };
        let d = if !plain && self.o.sdt && self.r.chance(15) { Some(self.sdt()) } else { None };
        self.o = save;
        self.place.pop();
        self.f.hdrs.push(HdrFact { section, header, kind, marker: mk.clone() });
        (ps, t, d)
    }
    /// Whether this header or footer is to be set again later: then it holds its marker only.
    fn replace(&mut self, header: bool, section: usize, kind: &'static str) -> bool {
        if let Some(i) = self.f.hdrs.iter().position(|h| h.section == section && h.header == header && h.kind == kind) {
            let old = self.f.hdrs.remove(i);
            self.f.texts.retain(|t| t.0 != old.marker);
            self.f.paras.retain(|t| t.1 != old.marker);
            self.f.replaced.push(old.marker);
            return false;
        }
        self.again
    }
    pub fn header(&mut self, section: usize, kind: &'static str) -> Header {
        let (ps, t, d) = self.hdr_body(true, section, kind);
        let mut h = Header::new();
        for p in ps { h = h.add_paragraph(p); }
        if let Some(t) = t { h = h.add_table(t); }
        if let Some(t) = d { h.children.push(HeaderChild::StructuredDataTag(Box::new(t))); }
        h
    }
    pub fn footer(&mut self, section: usize, kind: &'static str) -> Footer {
        let (ps, t, d) = self.hdr_body(false, section, kind);
        let mut h = Footer::new();
        for p in ps { h = h.add_paragraph(p); }
        if let Some(t) = t { h = h.add_table(t); }
        if let Some(t) = d { h.children.push(FooterChild::StructuredDataTag(Box::new(t))); }
        h
    }
    pub fn section(&mut self) -> Section {
        let i = self.f.sections;
        self.f.sections += 1;
        self.place.push("section");
        self.l("section".into());
        let mut s = Section::new();
        if self.o.headers {
            for (header, kind) in self.hdr_calls() {
                match (header, kind) {
                    (true, "default") => { let h = self.header(i, kind); s = s.header(h); }
                    (true, "first") => { let h = self.header(i, kind); s = s.first_header(h); }
                    (true, _) => { let h = self.header(i, kind); s = s.even_header(h); }
                    (false, "default") => { let h = self.footer(i, kind); s = s.footer(h); }
                    (false, "first") => { let h = self.footer(i, kind); s = s.first_footer(h); }
                    (false, _) => { let h = self.footer(i, kind); s = s.even_footer(h); }
                }
            }
        }
        for _ in 0..(1 + self.r.below(2)) {
            match self.r.below(6) {
                0 if self.o.tables => { let t = self.table(); s = s.add_table(t); }
                1 if self.o.bookmarks => { let id = self.serial(); s = s.add_bookmark_start(id, format!("s{id}")).add_bookmark_end(id); }
                2 if self.comment_here() => {
                    let c = self.comment();
                    let id = c.id();
                    s = s.add_comment_start(c);
                    let p = self.para();
                    s = s.add_paragraph(p).add_comment_end(id);
                }
                _ => { let p = self.para(); s = s.add_paragraph(p); }
            }
        }
        self.place.pop();
        s
    }
    /// which header and footer setters to call, in a random order, some twice
    fn hdr_calls(&mut self) -> Vec<(bool, &'static str)> {
        let mut v = vec![];
        for h in [true, false] {
            for k in ["default", "first", "even"] {
                if self.r.chance(if k == "default" { 35 } else { 25 }) { v.push((h, k)); }
            }
        }
        for i in (1..v.len()).rev() {
            let j = self.r.below(i + 1);
            v.swap(i, j);
        }
        self.again = false;
        v
    }
    pub fn style(&mut self) -> Style {
        let n = self.serial();
        let ty = *self.r.pick(&[StyleType::Paragraph, StyleType::Character, StyleType::Table]);
        let id = if self.o.wild { self.text("Sid") } else { format!("S{n}") };
        let nm = self.text("Name");
        let mut s = Style::new(id, ty).name(nm);
        maybe!(self, 40, s => { let b = self.sid(); s.based_on(b) });
        maybe!(self, 30, s => { let b = self.sid(); s.next(b) });
        maybe!(self, 30, s => { let b = self.sid(); s.link(b) });
        maybe!(self, 30, s => { let v = self.unum(); s.size(v) });
        maybe!(self, 30, s => { let v = self.hex(); s.color(v) });
        maybe!(self, 30, s => s.bold());
        maybe!(self, 20, s => s.italic());
        maybe!(self, 20, s => s.underline(*self.r.pick(&["single", "double", "words"])));
        maybe!(self, 20, s => s.align(*self.r.pick(ALIGNS)));
        maybe!(self, 20, s => { let v = self.line_spacing(); s.line_spacing(v) });
        maybe!(self, 20, s => { let (a, b, c, d) = self.indent_args(); s.indent(a, b, c, d) });
        maybe!(self, 15, s => { let v = self.r.below(100); s.ui_priority(v) });
        maybe!(self, 15, s => s.semi_hidden());
        maybe!(self, 15, s => s.q_format(true));
        maybe!(self, 15, s => { let v = self.fonts(); s.fonts(v) });
        self.style_dense(s)
    }
    pub fn numberings(&mut self, mut d: Docx) -> Docx {
        let first = if self.r.chance(30) { 1 } else { 2 };
        for id in first..5 {
            let abs = if id == 1 && self.r.chance(60) { 1 } else { id + 10 };
            let mut a = AbstractNumbering::new(abs);
            if self.o.props && self.r.chance(10) { a = a.style_link("SL"); }
            if self.o.props && self.r.chance(10) { a = a.num_style_link("NSL"); }
            let mut lv = vec![];
            for k in 0..3 {
                let l = if self.o.props { self.level(k) } else { Level::new(k, Start::new(1 + k), NumberFormat::new("decimal"), LevelText::new(format!("%{}.", k + 1)), LevelJc::new("left")) };
                a = a.add_level(l);
                lv.push(k);
            }
            self.f.abs_defs.push((abs, lv));
            self.f.num_defs.push((id, abs));
            let mut n = Numbering::new(id, abs);
            if self.r.chance(35) {
                let (l, st) = (self.r.below(3), 5 + self.r.below(9));
                n = n.add_override(LevelOverride::new(l).start(st));
                self.f.overrides.push((id, l, st));
            }
            if self.o.props && self.r.chance(20) { let l = self.level(1); n = n.add_override(LevelOverride::new(1).level(l)); }
            d = d.add_abstract_numbering(a).add_numbering(n);
        }
        d
    }
    pub fn doc(&mut self) -> Docx {
        let mut d = Docx::new();
        if self.o.numbering { d = self.numberings(d); }
        if self.o.styles { for _ in 0..self.r.below(3) { let s = self.style(); d = d.add_style(s); } }
        let hdr_first = self.r.chance(50);
        if self.o.headers && hdr_first { d = self.doc_headers(d); }
        let k = 1 + self.r.below(self.o.blocks);
        for _ in 0..k {
            match self.r.below(14) {
                0 | 1 if self.o.tables => { let t = self.table(); d = d.add_table(t); }
                2 if self.o.sdt => { let s = self.sdt(); d = d.add_structured_data_tag(s); }
                3 if self.o.toc => { let t = self.toc(); d = d.add_table_of_contents(t); }
                4 | 5 if self.o.sections => { let s = self.section(); d = d.add_section(s); }
                6 if self.o.bookmarks => { let id = self.serial(); d = d.add_bookmark_start(id, format!("d{id}")).add_bookmark_end(id); }
                7 if self.comment_here() => {
                    let c = self.comment();
                    let id = c.id();
                    d.document = d.document.add_comment_start(c);
                    let p = self.para();
                    d = d.add_paragraph(p);
                    d.document = d.document.add_comment_end(id);
                }
                _ => { let p = self.para(); d = d.add_paragraph(p); }
            }
        }
        if self.o.headers && !hdr_first { d = self.doc_headers(d); }
        if self.o.extras {
            for _ in 0..self.r.below(3) {
                let n = self.serial();
                let x = format!("<r{n} xmlns=\"http://x/{n}\" a=\"1\"><b>t{n}</b><c/></r{n}>");
                let id = format!("{{{:08X}-0000-0000-0000-000000000000}}", n);
                self.l(format!("custom item {id} {x}"));
                d = d.add_custom_item(&id, &x);
                self.f.custom_items.push((id, x));
            }
            for _ in 0..self.r.below(3) {
                let (k, v) = (self.text("k"), self.text("v"));
                d = d.add_doc_var(&k, &v);
                self.f.doc_vars.push((k, v));
            }
            for _ in 0..self.r.below(3) {
                let (k, v) = (self.text("ck"), self.text("cv"));
                d = d.custom_property(&k, &v);
                self.f.custom_props.push((k, v));
            }
            if self.r.chance(20) {
                let k = self.r.below(3);
                if k == 0 || self.r.chance(60) { d = d.taskpanes(); self.l("taskpanes".into()); }
                self.f.taskpanes = true;
                for _ in 0..k {
                    self.l("web extension".into());
                    self.f.web_extensions += 1;
                    let n = self.f.web_extensions;
                    d = d.web_extension(WebExtension::new(format!("7f33b723-fb58-4524-8733-dbedc4b7c{n:03}"), format!("abcd{n}"), "1.0.0.0", "developer", "Registry").property("hello", "{\"hello\":\"world\"}"));
                }
            }
            maybe!(self, 20, d => d.created_at("2019-01-01T00:00:00Z").updated_at("2019-01-02T00:00:00Z"));
            maybe!(self, 20, d => { let v = self.unum(); d.default_tab_stop(v) });
            maybe!(self, 20, d => { let (a, b) = (self.unum() as u32, self.unum() as u32); d.page_size(a, b) });
            maybe!(self, 20, d => { let m = self.page_margin(); d.page_margin(m) });
            maybe!(self, 20, d => d.page_orient(PageOrientationType::Landscape));
            maybe!(self, 20, d => { let (a, b) = (self.unum(), self.num()); d.default_size(a).default_spacing(b) });
            maybe!(self, 20, d => { let f = self.fonts(); d.default_fonts(f) });
            maybe!(self, 20, d => { let f = self.line_spacing(); d.default_line_spacing(f) });
            maybe!(self, 20, d => { let p = self.page_num_type(); d.page_num_type(p) });
            maybe!(self, 20, d => d.doc_id("50C6E9D1-7B36-4D1E-9D0A-0F1E2D3C4B5A"));
        }
        d
    }
    pub fn doc_headers(&mut self, mut d: Docx) -> Docx {
        const M: usize = usize::MAX;
        let mut calls: Vec<(bool, bool, &'static str)> = self.hdr_calls().into_iter().map(|(h, k)| (false, h, k)).collect();
        // now and then set one of them again
        if !calls.is_empty() && self.r.chance(25) {
            let (_, h, k) = *self.r.pick(&calls);
            for c in calls.iter_mut() {
                if (c.1, c.2) == (h, k) { c.0 = true; }
            }
            calls.push((false, h, k));
        }
        for (again, header, kind) in calls {
            self.again = again;
            match (header, kind) {
                (true, "default") => { let h = self.header(M, kind); d = d.header(h); }
                (true, "first") => { let h = self.header(M, kind); d = d.first_header(h); }
                (true, _) => { let h = self.header(M, kind); d = d.even_header(h); }
                (false, "default") => { let h = self.footer(M, kind); d = d.footer(h); }
                (false, "first") => { let h = self.footer(M, kind); d = d.first_footer(h); }
                (false, _) => { let h = self.footer(M, kind); d = d.even_footer(h); }
            }
            self.again = false;
        }
        if self.r.chance(15) { d = d.title_pg(); self.f.title_pg.push(M); self.l("title_pg".into()); }
        d
    }
}
