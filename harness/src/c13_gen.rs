//! Generated by tools/gen_c13.py: random values and builder calls.
#![allow(clippy::all)]
#![allow(deprecated, unused_imports, unused_variables)]
use crate::c13::{view, Arb, Hidden, Shown, Step, G, J};
use docx_rs::*;
use serde_json::{json, Value};

impl Arb for AlignmentType {
    fn arb(g: &mut G) -> Self {
        match g.below(8) {
            0 => AlignmentType::Both,
            1 => AlignmentType::Center,
            2 => AlignmentType::Distribute,
            3 => AlignmentType::Start,
            4 => AlignmentType::End,
            5 => AlignmentType::Left,
            6 => AlignmentType::Right,
            _ => AlignmentType::Justified,
        }
    }
}
impl Arb for BorderType {
    fn arb(g: &mut G) -> Self {
        match g.below(31) {
            0 => BorderType::Nil,
            1 => BorderType::None,
            2 => BorderType::Single,
            3 => BorderType::Thick,
            4 => BorderType::Double,
            5 => BorderType::Dotted,
            6 => BorderType::Dashed,
            7 => BorderType::DotDash,
            8 => BorderType::DotDotDash,
            9 => BorderType::Triple,
            10 => BorderType::ThinThickSmallGap,
            11 => BorderType::ThickThinSmallGap,
            12 => BorderType::ThinThickThinSmallGap,
            13 => BorderType::ThinThickMediumGap,
            14 => BorderType::ThickThinMediumGap,
            15 => BorderType::ThinThickThinMediumGap,
            16 => BorderType::ThinThickLargeGap,
            17 => BorderType::ThickThinLargeGap,
            18 => BorderType::ThinThickThinLargeGap,
            19 => BorderType::Wave,
            20 => BorderType::DoubleWave,
            21 => BorderType::DashSmallGap,
            22 => BorderType::DashDotStroked,
            23 => BorderType::ThreeDEmboss,
            24 => BorderType::ThreeDEngrave,
            25 => BorderType::Outset,
            26 => BorderType::Inset,
            27 => BorderType::Apples,
            28 => BorderType::ArchedScallops,
            29 => BorderType::BabyPacifier,
            _ => BorderType::BabyRattle,
        }
    }
}
impl Arb for BreakType {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => BreakType::Page,
            1 => BreakType::Column,
            2 => BreakType::TextWrapping,
            _ => BreakType::Unsupported,
        }
    }
}
impl Arb for CharacterSpacingValues {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => CharacterSpacingValues::DoNotCompress,
            1 => CharacterSpacingValues::CompressPunctuation,
            2 => CharacterSpacingValues::CompressPunctuationAndJapaneseKana,
            _ => CharacterSpacingValues::Unsupported,
        }
    }
}
impl Arb for DocGridType {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => DocGridType::Default,
            1 => DocGridType::Lines,
            2 => DocGridType::LinesAndChars,
            _ => DocGridType::SnapToChars,
        }
    }
}
impl Arb for FieldCharType {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => FieldCharType::Begin,
            1 => FieldCharType::Separate,
            2 => FieldCharType::End,
            _ => FieldCharType::Unsupported,
        }
    }
}
impl Arb for GraphicDataType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => GraphicDataType::Picture,
            1 => GraphicDataType::WpShape,
            _ => GraphicDataType::Unsupported,
        }
    }
}
impl Arb for HeightRule {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => HeightRule::Auto,
            1 => HeightRule::AtLeast,
            _ => HeightRule::Exact,
        }
    }
}
impl Arb for HyperlinkType {
    fn arb(g: &mut G) -> Self {
        match g.below(2) {
            0 => HyperlinkType::Anchor,
            _ => HyperlinkType::External,
        }
    }
}
impl Arb for LevelSuffixType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => LevelSuffixType::Nothing,
            1 => LevelSuffixType::Space,
            _ => LevelSuffixType::Tab,
        }
    }
}
impl Arb for LineSpacingType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => LineSpacingType::Auto,
            1 => LineSpacingType::AtLeast,
            _ => LineSpacingType::Exact,
        }
    }
}
impl Arb for PageOrientationType {
    fn arb(g: &mut G) -> Self {
        match g.below(2) {
            0 => PageOrientationType::Landscape,
            _ => PageOrientationType::Portrait,
        }
    }
}
impl Arb for ParagraphBorderPosition {
    fn arb(g: &mut G) -> Self {
        match g.below(6) {
            0 => ParagraphBorderPosition::Left,
            1 => ParagraphBorderPosition::Right,
            2 => ParagraphBorderPosition::Top,
            3 => ParagraphBorderPosition::Bottom,
            4 => ParagraphBorderPosition::Between,
            _ => ParagraphBorderPosition::Bar,
        }
    }
}
impl Arb for PositionalTabAlignmentType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => PositionalTabAlignmentType::Center,
            1 => PositionalTabAlignmentType::Left,
            _ => PositionalTabAlignmentType::Right,
        }
    }
}
impl Arb for PositionalTabRelativeTo {
    fn arb(g: &mut G) -> Self {
        match g.below(2) {
            0 => PositionalTabRelativeTo::Indent,
            _ => PositionalTabRelativeTo::Margin,
        }
    }
}
impl Arb for RelativeFromHType {
    fn arb(g: &mut G) -> Self {
        match g.below(8) {
            0 => RelativeFromHType::Character,
            1 => RelativeFromHType::Column,
            2 => RelativeFromHType::InsideMargin,
            3 => RelativeFromHType::LeftMargin,
            4 => RelativeFromHType::Margin,
            5 => RelativeFromHType::OutsizeMargin,
            6 => RelativeFromHType::Page,
            _ => RelativeFromHType::RightMargin,
        }
    }
}
impl Arb for RelativeFromVType {
    fn arb(g: &mut G) -> Self {
        match g.below(8) {
            0 => RelativeFromVType::BottomMargin,
            1 => RelativeFromVType::InsideMargin,
            2 => RelativeFromVType::Line,
            3 => RelativeFromVType::Margin,
            4 => RelativeFromVType::OutsizeMargin,
            5 => RelativeFromVType::Page,
            6 => RelativeFromVType::Paragraph,
            _ => RelativeFromVType::TopMargin,
        }
    }
}
impl Arb for ShdType {
    fn arb(g: &mut G) -> Self {
        match g.below(38) {
            0 => ShdType::Nil,
            1 => ShdType::Clear,
            2 => ShdType::Solid,
            3 => ShdType::HorzStripe,
            4 => ShdType::VertStripe,
            5 => ShdType::ReverseDiagStripe,
            6 => ShdType::DiagStripe,
            7 => ShdType::HorzCross,
            8 => ShdType::DiagCross,
            9 => ShdType::ThinHorzStripe,
            10 => ShdType::ThinVertStripe,
            11 => ShdType::ThinReverseDiagStripe,
            12 => ShdType::ThinDiagStripe,
            13 => ShdType::ThinHorzCross,
            14 => ShdType::ThinDiagCross,
            15 => ShdType::Pct5,
            16 => ShdType::Pct10,
            17 => ShdType::Pct12,
            18 => ShdType::Pct15,
            19 => ShdType::Pct20,
            20 => ShdType::Pct25,
            21 => ShdType::Pct30,
            22 => ShdType::Pct35,
            23 => ShdType::Pct37,
            24 => ShdType::Pct40,
            25 => ShdType::Pct45,
            26 => ShdType::Pct50,
            27 => ShdType::Pct55,
            28 => ShdType::Pct60,
            29 => ShdType::Pct62,
            30 => ShdType::Pct65,
            31 => ShdType::Pct70,
            32 => ShdType::Pct75,
            33 => ShdType::Pct80,
            34 => ShdType::Pct85,
            35 => ShdType::Pct87,
            36 => ShdType::Pct90,
            _ => ShdType::Pct95,
        }
    }
}
impl Arb for StyleType {
    fn arb(g: &mut G) -> Self {
        match g.below(5) {
            0 => StyleType::Paragraph,
            1 => StyleType::Character,
            2 => StyleType::Numbering,
            3 => StyleType::Table,
            _ => StyleType::Unsupported,
        }
    }
}
impl Arb for TabLeaderType {
    fn arb(g: &mut G) -> Self {
        match g.below(6) {
            0 => TabLeaderType::Dot,
            1 => TabLeaderType::Heavy,
            2 => TabLeaderType::Hyphen,
            3 => TabLeaderType::MiddleDot,
            4 => TabLeaderType::None,
            _ => TabLeaderType::Underscore,
        }
    }
}
impl Arb for TabValueType {
    fn arb(g: &mut G) -> Self {
        match g.below(9) {
            0 => TabValueType::Bar,
            1 => TabValueType::Center,
            2 => TabValueType::Clear,
            3 => TabValueType::Decimal,
            4 => TabValueType::End,
            5 => TabValueType::Right,
            6 => TabValueType::Num,
            7 => TabValueType::Start,
            _ => TabValueType::Left,
        }
    }
}
impl Arb for TableAlignmentType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => TableAlignmentType::Center,
            1 => TableAlignmentType::Left,
            _ => TableAlignmentType::Right,
        }
    }
}
impl Arb for TableBorderPosition {
    fn arb(g: &mut G) -> Self {
        match g.below(6) {
            0 => TableBorderPosition::Left,
            1 => TableBorderPosition::Right,
            2 => TableBorderPosition::Top,
            3 => TableBorderPosition::Bottom,
            4 => TableBorderPosition::InsideH,
            _ => TableBorderPosition::InsideV,
        }
    }
}
impl Arb for TableCellBorderPosition {
    fn arb(g: &mut G) -> Self {
        match g.below(8) {
            0 => TableCellBorderPosition::Left,
            1 => TableCellBorderPosition::Right,
            2 => TableCellBorderPosition::Top,
            3 => TableCellBorderPosition::Bottom,
            4 => TableCellBorderPosition::InsideH,
            5 => TableCellBorderPosition::InsideV,
            6 => TableCellBorderPosition::Tl2br,
            _ => TableCellBorderPosition::Tr2bl,
        }
    }
}
impl Arb for TableLayoutType {
    fn arb(g: &mut G) -> Self {
        match g.below(2) {
            0 => TableLayoutType::Fixed,
            _ => TableLayoutType::Autofit,
        }
    }
}
impl Arb for TextAlignmentType {
    fn arb(g: &mut G) -> Self {
        match g.below(5) {
            0 => TextAlignmentType::Auto,
            1 => TextAlignmentType::Baseline,
            2 => TextAlignmentType::Bottom,
            3 => TextAlignmentType::Center,
            _ => TextAlignmentType::Top,
        }
    }
}
impl Arb for TextDirectionType {
    fn arb(g: &mut G) -> Self {
        match g.below(10) {
            0 => TextDirectionType::Lr,
            1 => TextDirectionType::LrV,
            2 => TextDirectionType::Rl,
            3 => TextDirectionType::RlV,
            4 => TextDirectionType::Tb,
            5 => TextDirectionType::TbV,
            6 => TextDirectionType::TbRlV,
            7 => TextDirectionType::TbRl,
            8 => TextDirectionType::BtLr,
            _ => TextDirectionType::LrTbV,
        }
    }
}
impl Arb for ThemeColor {
    fn arb(g: &mut G) -> Self {
        match g.below(18) {
            0 => ThemeColor::Dark1,
            1 => ThemeColor::Light1,
            2 => ThemeColor::Dark2,
            3 => ThemeColor::Light2,
            4 => ThemeColor::Accent1,
            5 => ThemeColor::Accent2,
            6 => ThemeColor::Accent3,
            7 => ThemeColor::Accent4,
            8 => ThemeColor::Accent5,
            9 => ThemeColor::Accent6,
            10 => ThemeColor::Hyperlink,
            11 => ThemeColor::FollowedHyperlink,
            12 => ThemeColor::None,
            13 => ThemeColor::Background1,
            14 => ThemeColor::Text1,
            15 => ThemeColor::Background2,
            16 => ThemeColor::Text2,
            _ => ThemeColor::Unsupported,
        }
    }
}
impl Arb for VAlignType {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => VAlignType::Top,
            1 => VAlignType::Center,
            2 => VAlignType::Bottom,
            _ => VAlignType::Unsupported,
        }
    }
}
impl Arb for VMergeType {
    fn arb(g: &mut G) -> Self {
        match g.below(3) {
            0 => VMergeType::Continue,
            1 => VMergeType::Restart,
            _ => VMergeType::Unsupported,
        }
    }
}
impl Arb for VertAlignType {
    fn arb(g: &mut G) -> Self {
        match g.below(4) {
            0 => VertAlignType::Baseline,
            1 => VertAlignType::SuperScript,
            2 => VertAlignType::SubScript,
            _ => VertAlignType::Unsupported,
        }
    }
}
impl Arb for WidthType {
    fn arb(g: &mut G) -> Self {
        match g.below(5) {
            0 => WidthType::Dxa,
            1 => WidthType::Auto,
            2 => WidthType::Pct,
            3 => WidthType::Nil,
            _ => WidthType::Unsupported,
        }
    }
}
impl Arb for AbstractNumbering {
    fn arb(g: &mut G) -> Self {
        let x = AbstractNumbering::new(g.arb::<usize>());
        g.vary(x)
    }
}
impl Step for AbstractNumbering {
    const N: usize = 3;
    const T: &'static str = "AbstractNumbering";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Level = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_level(a0), "add_level", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.num_style_link(a0), "num_style_link", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style_link(a0), "style_link", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Bold {
    fn arb(g: &mut G) -> Self {
        let x = Bold::new();
        g.vary(x)
    }
}
impl Step for Bold {
    const N: usize = 1;
    const T: &'static str = "Bold";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for BoldCs {
    fn arb(g: &mut G) -> Self {
        let x = BoldCs::new();
        g.vary(x)
    }
}
impl Step for BoldCs {
    const N: usize = 1;
    const T: &'static str = "BoldCs";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Caps {
    fn arb(g: &mut G) -> Self {
        let x = Caps::new();
        g.vary(x)
    }
}
impl Step for Caps {
    const N: usize = 1;
    const T: &'static str = "Caps";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for CellMargins {
    fn arb(g: &mut G) -> Self {
        let x = CellMargins::new();
        g.vary(x)
    }
}
impl Step for CellMargins {
    const N: usize = 4;
    const T: &'static str = "CellMargins";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_top(a0, a1), "margin_top", j)
            }
            1 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_right(a0, a1), "margin_right", j)
            }
            2 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_left(a0, a1), "margin_left", j)
            }
            3 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_bottom(a0, a1), "margin_bottom", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Color {
    fn arb(g: &mut G) -> Self {
        let x = Color::new(g.arb::<String>());
        g.vary(x)
    }
}
impl Step for Color {
    const N: usize = 3;
    const T: &'static str = "Color";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: ThemeColor = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_color(a0), "theme_color", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_shade(a0), "theme_shade", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_tint(a0), "theme_tint", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Comment {
    fn arb(g: &mut G) -> Self {
        let x = Comment::new(g.arb::<usize>());
        g.vary(x)
    }
}
impl Step for Comment {
    const N: usize = 5;
    const T: &'static str = "Comment";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            2 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            3 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            4 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.parent_comment_id(a0), "parent_comment_id", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for CommentExtended {
    fn arb(g: &mut G) -> Self {
        let x = CommentExtended::new(g.arb::<String>());
        g.vary(x)
    }
}
impl Step for CommentExtended {
    const N: usize = 2;
    const T: &'static str = "CommentExtended";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.done(), "done", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.parent_paragraph_id(a0), "parent_paragraph_id", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for CommentsExtended {
    fn arb(g: &mut G) -> Self {
        CommentsExtended::new()
    }
}
impl Arb for DataBinding {
    fn arb(g: &mut G) -> Self {
        let x = DataBinding::new();
        g.vary(x)
    }
}
impl Step for DataBinding {
    const N: usize = 3;
    const T: &'static str = "DataBinding";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.xpath(a0), "xpath", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.prefix_mappings(a0), "prefix_mappings", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.store_item_id(a0), "store_item_id", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Delete {
    fn arb(g: &mut G) -> Self {
        let x = Delete::new();
        g.vary(x)
    }
}
impl Step for Delete {
    const N: usize = 5;
    const T: &'static str = "Delete";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Div {
    fn arb(g: &mut G) -> Self {
        let x = Div::new(g.arb::<String>());
        g.vary(x)
    }
}
impl Step for Div {
    const N: usize = 5;
    const T: &'static str = "Div";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margin_left(a0), "margin_left", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margin_right(a0), "margin_right", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margin_top(a0), "margin_top", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margin_bottom(a0), "margin_bottom", j)
            }
            4 => {
                let a0: Div = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_child(a0), "add_child", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for DocDefaults {
    fn arb(g: &mut G) -> Self {
        let x = DocDefaults::new();
        g.vary(x)
    }
}
impl Step for DocDefaults {
    const N: usize = 4;
    const T: &'static str = "DocDefaults";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            1 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.spacing(a0), "spacing", j)
            }
            2 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            3 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_spacing(a0), "line_spacing", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for DocGrid {
    fn arb(g: &mut G) -> Self {
        let x = DocGrid::new();
        g.vary(x)
    }
}
impl Step for DocGrid {
    const N: usize = 3;
    const T: &'static str = "DocGrid";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: DocGridType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_type(a0), "grid_type", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_pitch(a0), "line_pitch", j)
            }
            2 => {
                let a0: isize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.char_space(a0), "char_space", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Document {
    fn arb(g: &mut G) -> Self {
        let x = Document::new();
        g.vary(x)
    }
}
impl Step for Document {
    const N: usize = 24;
    const T: &'static str = "Document";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            2 => {
                let a0: usize = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_bookmark_start(a0, a1), "add_bookmark_start", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_bookmark_end(a0), "add_bookmark_end", j)
            }
            4 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            5 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            6 => {
                let a0: Section = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_section(a0), "add_section", j)
            }
            7 => {
                
                let j = vec![];
                (self.title_pg(), "title_pg", j)
            }
            8 => {
                let a0: PageSize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_size(a0), "page_size", j)
            }
            9 => {
                let a0: PageMargin = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_margin(a0), "page_margin", j)
            }
            10 => {
                let a0: PageOrientationType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_orient(a0), "page_orient", j)
            }
            11 => {
                let a0: DocGrid = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.doc_grid(a0), "doc_grid", j)
            }
            12 => {
                let a0: SectionProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_section_property(a0), "default_section_property", j)
            }
            13 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.header(a0, &a1), "header", j)
            }
            14 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_header(a0, &a1), "first_header", j)
            }
            15 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.even_header(a0, &a1), "even_header", j)
            }
            16 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.footer(a0, &a1), "footer", j)
            }
            17 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_footer(a0, &a1), "first_footer", j)
            }
            18 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.even_footer(a0, &a1), "even_footer", j)
            }
            19 => {
                let a0: StructuredDataTag = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_structured_data_tag(a0), "add_structured_data_tag", j)
            }
            20 => {
                let a0: TableOfContents = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table_of_contents(a0), "add_table_of_contents", j)
            }
            21 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.columns(a0), "columns", j)
            }
            22 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_direction(a0), "text_direction", j)
            }
            23 => {
                let a0: PageNumType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_num_type(a0), "page_num_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Docx {
    fn arb(g: &mut G) -> Self {
        let x = Docx::new();
        g.vary(x)
    }
}
impl Step for Docx {
    const N: usize = 36;
    const T: &'static str = "Docx";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Document = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.document(a0), "document", j)
            }
            1 => {
                let a0: Styles = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.styles(a0), "styles", j)
            }
            2 => {
                let a0: Style = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_style(a0), "add_style", j)
            }
            3 => {
                let a0: Settings = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.settings(a0), "settings", j)
            }
            4 => {
                let a0: CommentsExtended = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.comments_extended(a0), "comments_extended", j)
            }
            5 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            6 => {
                let a0: Section = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_section(a0), "add_section", j)
            }
            7 => {
                let a0: StructuredDataTag = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_structured_data_tag(a0), "add_structured_data_tag", j)
            }
            8 => {
                let a0: TableOfContents = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table_of_contents(a0), "add_table_of_contents", j)
            }
            9 => {
                let a0: usize = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_bookmark_start(a0, a1), "add_bookmark_start", j)
            }
            10 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_bookmark_end(a0), "add_bookmark_end", j)
            }
            11 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            12 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.header(a0), "header", j)
            }
            13 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_header(a0), "first_header", j)
            }
            14 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.even_header(a0), "even_header", j)
            }
            15 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.footer(a0), "footer", j)
            }
            16 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_footer(a0), "first_footer", j)
            }
            17 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.even_footer(a0), "even_footer", j)
            }
            18 => {
                let a0: AbstractNumbering = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_abstract_numbering(a0), "add_abstract_numbering", j)
            }
            19 => {
                let a0: Numbering = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_numbering(a0), "add_numbering", j)
            }
            20 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.created_at(&a0), "created_at", j)
            }
            21 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.updated_at(&a0), "updated_at", j)
            }
            22 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.custom_property(a0, a1), "custom_property", j)
            }
            23 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.doc_id(&a0), "doc_id", j)
            }
            24 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_tab_stop(a0), "default_tab_stop", j)
            }
            25 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_doc_var(&a0, &a1), "add_doc_var", j)
            }
            26 => {
                
                let j = vec![];
                (self.title_pg(), "title_pg", j)
            }
            27 => {
                let a0: u32 = g.arb();
                let a1: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.page_size(a0, a1), "page_size", j)
            }
            28 => {
                let a0: PageMargin = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_margin(a0), "page_margin", j)
            }
            29 => {
                let a0: PageOrientationType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_orient(a0), "page_orient", j)
            }
            30 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_size(a0), "default_size", j)
            }
            31 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_spacing(a0), "default_spacing", j)
            }
            32 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_fonts(a0), "default_fonts", j)
            }
            33 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_line_spacing(a0), "default_line_spacing", j)
            }
            34 => {
                
                let j = vec![];
                (self.taskpanes(), "taskpanes", j)
            }
            35 => {
                let a0: PageNumType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_num_type(a0), "page_num_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Drawing {
    fn arb(g: &mut G) -> Self {
        let x = Drawing::new();
        g.vary(x)
    }
}
impl Step for Drawing {
    const N: usize = 2;
    const T: &'static str = "Drawing";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Pic = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.pic(a0), "pic", j)
            }
            1 => {
                let a0: TextBox = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_box(a0), "text_box", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Dstrike {
    fn arb(g: &mut G) -> Self {
        let x = Dstrike::new();
        g.vary(x)
    }
}
impl Step for Dstrike {
    const N: usize = 1;
    const T: &'static str = "Dstrike";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for FieldChar {
    fn arb(g: &mut G) -> Self {
        let x = FieldChar::new(g.arb::<FieldCharType>());
        g.vary(x)
    }
}
impl Step for FieldChar {
    const N: usize = 1;
    const T: &'static str = "FieldChar";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.dirty(), "dirty", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for FitText {
    fn arb(g: &mut G) -> Self {
        let x = FitText::new(g.arb::<usize>());
        g.vary(x)
    }
}
impl Step for FitText {
    const N: usize = 1;
    const T: &'static str = "FitText";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.id(a0), "id", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Footer {
    fn arb(g: &mut G) -> Self {
        let x = Footer::new();
        g.vary(x)
    }
}
impl Step for Footer {
    const N: usize = 2;
    const T: &'static str = "Footer";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Footnote {
    fn arb(g: &mut G) -> Self {
        { let mut f = Footnote::new(); if g.below(2) == 0 { f.add_content(Paragraph::new().add_run(Run::new().add_text(g.arb::<String>()))); } f }
    }
}
impl Arb for FrameProperty {
    fn arb(g: &mut G) -> Self {
        let x = FrameProperty::new();
        g.vary(x)
    }
}
impl Step for FrameProperty {
    const N: usize = 12;
    const T: &'static str = "FrameProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.wrap(a0), "wrap", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_anchor(a0), "v_anchor", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_anchor(a0), "h_anchor", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_rule(a0), "h_rule", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.x_align(a0), "x_align", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.y_align(a0), "y_align", j)
            }
            6 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_space(a0), "h_space", j)
            }
            7 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_space(a0), "v_space", j)
            }
            8 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.x(a0), "x", j)
            }
            9 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.y(a0), "y", j)
            }
            10 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width(a0), "width", j)
            }
            11 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.height(a0), "height", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Header {
    fn arb(g: &mut G) -> Self {
        let x = Header::new();
        g.vary(x)
    }
}
impl Step for Header {
    const N: usize = 2;
    const T: &'static str = "Header";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Hyperlink {
    fn arb(g: &mut G) -> Self {
        let x = Hyperlink::new(g.arb::<String>(), HyperlinkType::Anchor);
        g.vary(x)
    }
}
impl Step for Hyperlink {
    const N: usize = 8;
    const T: &'static str = "Hyperlink";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: StructuredDataTag = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_structured_data_tag(a0), "add_structured_data_tag", j)
            }
            2 => {
                let a0: Insert = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_insert(a0), "add_insert", j)
            }
            3 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_delete(a0), "add_delete", j)
            }
            4 => {
                let a0: usize = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_bookmark_start(a0, a1), "add_bookmark_start", j)
            }
            5 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_bookmark_end(a0), "add_bookmark_end", j)
            }
            6 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            7 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Indent {
    fn arb(g: &mut G) -> Self {
        let x = Indent::new(g.arb::<Option<i32>>(), g.arb::<Option<SpecialIndentType>>(), g.arb::<Option<i32>>(), g.arb::<Option<i32>>());
        g.vary(x)
    }
}
impl Step for Indent {
    const N: usize = 3;
    const T: &'static str = "Indent";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.end(a0), "end", j)
            }
            1 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hanging_chars(a0), "hanging_chars", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_line_chars(a0), "first_line_chars", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for IndentLevel {
    fn arb(g: &mut G) -> Self {
        IndentLevel::new(g.arb())
    }
}
impl Arb for Insert {
    fn arb(g: &mut G) -> Self {
        let x = Insert::new_with_empty();
        g.vary(x)
    }
}
impl Step for Insert {
    const N: usize = 6;
    const T: &'static str = "Insert";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_delete(a0), "add_delete", j)
            }
            2 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for InstrPAGEREF {
    fn arb(g: &mut G) -> Self {
        let x = InstrPAGEREF::new(g.arb::<String>());
        g.vary(x)
    }
}
impl Step for InstrPAGEREF {
    const N: usize = 2;
    const T: &'static str = "InstrPAGEREF";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.hyperlink(), "hyperlink", j)
            }
            1 => {
                
                let j = vec![];
                (self.relative_position(), "relative_position", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for InstrTC {
    fn arb(g: &mut G) -> Self {
        let x = InstrTC::new(g.arb::<String>());
        g.vary(x)
    }
}
impl Step for InstrTC {
    const N: usize = 3;
    const T: &'static str = "InstrTC";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.omits_page_number(), "omits_page_number", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.level(a0), "level", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.item_type_identifier(a0), "item_type_identifier", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for InstrToC {
    fn arb(g: &mut G) -> Self {
        let x = InstrToC::new();
        g.vary(x)
    }
}
impl Step for InstrToC {
    const N: usize = 16;
    const T: &'static str = "InstrToC";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let a1: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.heading_styles_range(a0, a1), "heading_styles_range", j)
            }
            1 => {
                let a0: usize = g.arb();
                let a1: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.tc_field_level_range(a0, a1), "tc_field_level_range", j)
            }
            2 => {
                let a0: Option<String> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.tc_field_identifier(a0), "tc_field_identifier", j)
            }
            3 => {
                let a0: usize = g.arb();
                let a1: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.omit_page_numbers_level_range(a0, a1), "omit_page_numbers_level_range", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.entry_and_page_number_separator(a0), "entry_and_page_number_separator", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.entry_bookmark_name(a0), "entry_bookmark_name", j)
            }
            6 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.caption_label(a0), "caption_label", j)
            }
            7 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.caption_label_including_numbers(a0), "caption_label_including_numbers", j)
            }
            8 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.sequence_and_page_numbers_separator(a0), "sequence_and_page_numbers_separator", j)
            }
            9 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.seq_field_identifier_for_prefix(a0), "seq_field_identifier_for_prefix", j)
            }
            10 => {
                
                let j = vec![];
                (self.hyperlink(), "hyperlink", j)
            }
            11 => {
                
                let j = vec![];
                (self.preserve_tab(), "preserve_tab", j)
            }
            12 => {
                
                let j = vec![];
                (self.preserve_new_line(), "preserve_new_line", j)
            }
            13 => {
                
                let j = vec![];
                (self.use_applied_paragraph_line_level(), "use_applied_paragraph_line_level", j)
            }
            14 => {
                
                let j = vec![];
                (self.hide_tab_and_page_numbers_in_webview(), "hide_tab_and_page_numbers_in_webview", j)
            }
            15 => {
                let a0: StyleWithLevel = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_style_with_level(a0), "add_style_with_level", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Italic {
    fn arb(g: &mut G) -> Self {
        let x = Italic::new();
        g.vary(x)
    }
}
impl Step for Italic {
    const N: usize = 1;
    const T: &'static str = "Italic";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ItalicCs {
    fn arb(g: &mut G) -> Self {
        let x = ItalicCs::new();
        g.vary(x)
    }
}
impl Step for ItalicCs {
    const N: usize = 1;
    const T: &'static str = "ItalicCs";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Level {
    fn arb(g: &mut G) -> Self {
        let x = Level::new(g.arb::<usize>() % 9, Start::new(g.arb()), NumberFormat::new(g.arb::<String>()), LevelText::new(g.arb::<String>()), LevelJc::new(g.arb::<String>()));
        g.vary(x)
    }
}
impl Step for Level {
    const N: usize = 20;
    const T: &'static str = "Level";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Option<i32> = g.arb();
                let a1: Option<SpecialIndentType> = g.arb();
                let a2: Option<i32> = g.arb();
                let a3: Option<i32> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()]), json!([view(&a2), (&&J(&a2)).shown()]), json!([view(&a3), (&&J(&a3)).shown()])];
                (self.indent(a0, a1, a2, a3), "indent", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.paragraph_style(a0), "paragraph_style", j)
            }
            2 => {
                let a0: LevelSuffixType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.suffix(a0), "suffix", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            4 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.spacing(a0), "spacing", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            6 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.highlight(a0), "highlight", j)
            }
            7 => {
                
                let j = vec![];
                (self.bold(), "bold", j)
            }
            8 => {
                
                let j = vec![];
                (self.disable_bold(), "disable_bold", j)
            }
            9 => {
                
                let j = vec![];
                (self.italic(), "italic", j)
            }
            10 => {
                
                let j = vec![];
                (self.disable_italic(), "disable_italic", j)
            }
            11 => {
                
                let j = vec![];
                (self.strike(), "strike", j)
            }
            12 => {
                
                let j = vec![];
                (self.disable_strike(), "disable_strike", j)
            }
            13 => {
                
                let j = vec![];
                (self.dstrike(), "dstrike", j)
            }
            14 => {
                
                let j = vec![];
                (self.disable_dstrike(), "disable_dstrike", j)
            }
            15 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.underline(a0), "underline", j)
            }
            16 => {
                
                let j = vec![];
                (self.vanish(), "vanish", j)
            }
            17 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            18 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.level_restart(a0), "level_restart", j)
            }
            19 => {
                
                let j = vec![];
                (self.is_lgl(), "is_lgl", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for LevelJc {
    fn arb(g: &mut G) -> Self {
        LevelJc::new(g.arb::<String>())
    }
}
impl Arb for LevelOverride {
    fn arb(g: &mut G) -> Self {
        let x = LevelOverride::new(g.arb::<usize>());
        g.vary(x)
    }
}
impl Step for LevelOverride {
    const N: usize = 2;
    const T: &'static str = "LevelOverride";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.start(a0), "start", j)
            }
            1 => {
                let a0: Level = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.level(a0), "level", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for LevelText {
    fn arb(g: &mut G) -> Self {
        LevelText::new(g.arb::<String>())
    }
}
impl Arb for LineSpacing {
    fn arb(g: &mut G) -> Self {
        let x = LineSpacing::new();
        g.vary(x)
    }
}
impl Step for LineSpacing {
    const N: usize = 6;
    const T: &'static str = "LineSpacing";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: LineSpacingType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_rule(a0), "line_rule", j)
            }
            1 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.before(a0), "before", j)
            }
            2 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.after(a0), "after", j)
            }
            3 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.before_lines(a0), "before_lines", j)
            }
            4 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.after_lines(a0), "after_lines", j)
            }
            5 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line(a0), "line", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for MoveFrom {
    fn arb(g: &mut G) -> Self {
        let x = MoveFrom::new();
        g.vary(x)
    }
}
impl Step for MoveFrom {
    const N: usize = 5;
    const T: &'static str = "MoveFrom";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for MoveTo {
    fn arb(g: &mut G) -> Self {
        let x = MoveTo::new_with_empty();
        g.vary(x)
    }
}
impl Step for MoveTo {
    const N: usize = 6;
    const T: &'static str = "MoveTo";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_delete(a0), "add_delete", j)
            }
            2 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for NumPages {
    fn arb(g: &mut G) -> Self {
        NumPages::new()
    }
}
impl Arb for NumberFormat {
    fn arb(g: &mut G) -> Self {
        NumberFormat::new(g.arb::<String>())
    }
}
impl Arb for Numbering {
    fn arb(g: &mut G) -> Self {
        let x = Numbering::new(g.arb::<usize>(), g.arb::<usize>());
        g.vary(x)
    }
}
impl Step for Numbering {
    const N: usize = 2;
    const T: &'static str = "Numbering";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Vec<LevelOverride> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.overrides(a0), "overrides", j)
            }
            1 => {
                let a0: LevelOverride = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_override(a0), "add_override", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for NumberingId {
    fn arb(g: &mut G) -> Self {
        NumberingId::new(g.arb())
    }
}
impl Arb for NumberingProperty {
    fn arb(g: &mut G) -> Self {
        let x = NumberingProperty::new();
        g.vary(x)
    }
}
impl Step for NumberingProperty {
    const N: usize = 2;
    const T: &'static str = "NumberingProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: NumberingId = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.id(a0), "id", j)
            }
            1 => {
                let a0: NumberingId = g.arb();
                let a1: IndentLevel = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_num(a0, a1), "add_num", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for PageMargin {
    fn arb(g: &mut G) -> Self {
        let x = PageMargin::new();
        g.vary(x)
    }
}
impl Step for PageMargin {
    const N: usize = 7;
    const T: &'static str = "PageMargin";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.top(a0), "top", j)
            }
            1 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.left(a0), "left", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.bottom(a0), "bottom", j)
            }
            3 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.right(a0), "right", j)
            }
            4 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.header(a0), "header", j)
            }
            5 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.footer(a0), "footer", j)
            }
            6 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.gutter(a0), "gutter", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for PageNum {
    fn arb(g: &mut G) -> Self {
        PageNum::new()
    }
}
impl Arb for PageNumType {
    fn arb(g: &mut G) -> Self {
        let x = PageNumType::new();
        g.vary(x)
    }
}
impl Step for PageNumType {
    const N: usize = 2;
    const T: &'static str = "PageNumType";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.start(a0), "start", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.chap_style(a0), "chap_style", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for PageSize {
    fn arb(g: &mut G) -> Self {
        let x = PageSize::new();
        g.vary(x)
    }
}
impl Step for PageSize {
    const N: usize = 4;
    const T: &'static str = "PageSize";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let a1: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.size(a0, a1), "size", j)
            }
            1 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width(a0), "width", j)
            }
            2 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.height(a0), "height", j)
            }
            3 => {
                let a0: PageOrientationType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.orient(a0), "orient", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Paragraph {
    fn arb(g: &mut G) -> Self {
        let x = Paragraph::new();
        g.vary(x)
    }
}
impl Step for Paragraph {
    const N: usize = 53;
    const T: &'static str = "Paragraph";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.id(a0), "id", j)
            }
            1 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            2 => {
                let a0: Hyperlink = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_hyperlink(a0), "add_hyperlink", j)
            }
            3 => {
                let a0: StructuredDataTag = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_structured_data_tag(a0), "add_structured_data_tag", j)
            }
            4 => {
                let a0: Insert = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_insert(a0), "add_insert", j)
            }
            5 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_delete(a0), "add_delete", j)
            }
            6 => {
                let a0: MoveFrom = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_move_from(a0), "add_move_from", j)
            }
            7 => {
                let a0: MoveTo = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_move_to(a0), "add_move_to", j)
            }
            8 => {
                let a0: usize = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_bookmark_start(a0, a1), "add_bookmark_start", j)
            }
            9 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_bookmark_end(a0), "add_bookmark_end", j)
            }
            10 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            11 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            12 => {
                let a0: AlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.align(a0), "align", j)
            }
            13 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(&a0), "style", j)
            }
            14 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.snap_to_grid(a0), "snap_to_grid", j)
            }
            15 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.keep_next(a0), "keep_next", j)
            }
            16 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.keep_lines(a0), "keep_lines", j)
            }
            17 => {
                let a0: usize = g.arb::<usize>() % 10;
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.outline_lvl(a0), "outline_lvl", j)
            }
            18 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_break_before(a0), "page_break_before", j)
            }
            19 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.widow_control(a0), "widow_control", j)
            }
            20 => {
                let a0: SectionProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.section_property(a0), "section_property", j)
            }
            21 => {
                let a0: Tab = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_tab(a0), "add_tab", j)
            }
            22 => {
                let a0: Vec<Tab> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.tabs(&a0), "tabs", j)
            }
            23 => {
                let a0: Option<i32> = g.arb();
                let a1: Option<SpecialIndentType> = g.arb();
                let a2: Option<i32> = g.arb();
                let a3: Option<i32> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()]), json!([view(&a2), (&&J(&a2)).shown()]), json!([view(&a3), (&&J(&a3)).shown()])];
                (self.indent(a0, a1, a2, a3), "indent", j)
            }
            24 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hanging_chars(a0), "hanging_chars", j)
            }
            25 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_line_chars(a0), "first_line_chars", j)
            }
            26 => {
                let a0: NumberingId = g.arb();
                let a1: IndentLevel = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.numbering(a0, a1), "numbering", j)
            }
            27 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            28 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            29 => {
                
                let j = vec![];
                (self.bold(), "bold", j)
            }
            30 => {
                
                let j = vec![];
                (self.italic(), "italic", j)
            }
            31 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            32 => {
                let a0: RunProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.run_property(a0), "run_property", j)
            }
            33 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_spacing(a0), "line_spacing", j)
            }
            34 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.character_spacing(a0), "character_spacing", j)
            }
            35 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.delete(a0, a1), "delete", j)
            }
            36 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.insert(a0, a1), "insert", j)
            }
            37 => {
                let a0: ParagraphPropertyChange = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.paragraph_property_change(a0), "paragraph_property_change", j)
            }
            38 => {
                let a0: PageNum = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_page_num(a0), "add_page_num", j)
            }
            39 => {
                let a0: NumPages = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_num_pages(a0), "add_num_pages", j)
            }
            40 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.wrap(a0), "wrap", j)
            }
            41 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_anchor(a0), "v_anchor", j)
            }
            42 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_anchor(a0), "h_anchor", j)
            }
            43 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_rule(a0), "h_rule", j)
            }
            44 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.x_align(a0), "x_align", j)
            }
            45 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.y_align(a0), "y_align", j)
            }
            46 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_space(a0), "h_space", j)
            }
            47 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_space(a0), "v_space", j)
            }
            48 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_x(a0), "frame_x", j)
            }
            49 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_y(a0), "frame_y", j)
            }
            50 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_width(a0), "frame_width", j)
            }
            51 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_height(a0), "frame_height", j)
            }
            52 => {
                let a0: ParagraphBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ParagraphBorder {
    fn arb(g: &mut G) -> Self {
        let x = ParagraphBorder::new(g.arb::<ParagraphBorderPosition>());
        g.vary(x)
    }
}
impl Step for ParagraphBorder {
    const N: usize = 4;
    const T: &'static str = "ParagraphBorder";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: BorderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.val(a0), "val", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.space(a0), "space", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ParagraphBorders {
    fn arb(g: &mut G) -> Self {
        let x = ParagraphBorders::new();
        g.vary(x)
    }
}
impl Step for ParagraphBorders {
    const N: usize = 3;
    const T: &'static str = "ParagraphBorders";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: ParagraphBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set(a0), "set", j)
            }
            1 => {
                let a0: ParagraphBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear(a0), "clear", j)
            }
            2 => {
                
                let j = vec![];
                (self.clear_all(), "clear_all", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ParagraphProperty {
    fn arb(g: &mut G) -> Self {
        let x = ParagraphProperty::new();
        g.vary(x)
    }
}
impl Step for ParagraphProperty {
    const N: usize = 26;
    const T: &'static str = "ParagraphProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: AlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.align(a0), "align", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(&a0), "style", j)
            }
            2 => {
                let a0: Option<i32> = g.arb();
                let a1: Option<SpecialIndentType> = g.arb();
                let a2: Option<i32> = g.arb();
                let a3: Option<i32> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()]), json!([view(&a2), (&&J(&a2)).shown()]), json!([view(&a3), (&&J(&a3)).shown()])];
                (self.indent(a0, a1, a2, a3), "indent", j)
            }
            3 => {
                let a0: NumberingId = g.arb();
                let a1: IndentLevel = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.numbering(a0, a1), "numbering", j)
            }
            4 => {
                let a0: NumberingProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.numbering_property(a0), "numbering_property", j)
            }
            5 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_spacing(a0), "line_spacing", j)
            }
            6 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.character_spacing(a0), "character_spacing", j)
            }
            7 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.snap_to_grid(a0), "snap_to_grid", j)
            }
            8 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            9 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.keep_next(a0), "keep_next", j)
            }
            10 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.keep_lines(a0), "keep_lines", j)
            }
            11 => {
                let a0: usize = g.arb::<usize>() % 10;
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.outline_lvl(a0), "outline_lvl", j)
            }
            12 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_break_before(a0), "page_break_before", j)
            }
            13 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.bidi(a0), "bidi", j)
            }
            14 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.widow_control(a0), "widow_control", j)
            }
            15 => {
                let a0: Tab = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_tab(a0), "add_tab", j)
            }
            16 => {
                let a0: SectionProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.section_property(a0), "section_property", j)
            }
            17 => {
                let a0: ParagraphPropertyChange = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.paragraph_property_change(a0), "paragraph_property_change", j)
            }
            18 => {
                let a0: FrameProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_property(a0), "frame_property", j)
            }
            19 => {
                let a0: RunProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.run_property(a0), "run_property", j)
            }
            20 => {
                let a0: TextAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_alignment(a0), "text_alignment", j)
            }
            21 => {
                let a0: isize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.adjust_right_ind(a0), "adjust_right_ind", j)
            }
            22 => {
                let a0: ParagraphBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            23 => {
                let a0: ParagraphBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            24 => {
                let a0: ParagraphBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            25 => {
                
                let j = vec![];
                (self.clear_all_borders(), "clear_all_borders", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ParagraphPropertyChange {
    fn arb(g: &mut G) -> Self {
        let x = ParagraphPropertyChange::new();
        g.vary(x)
    }
}
impl Step for ParagraphPropertyChange {
    const N: usize = 3;
    const T: &'static str = "ParagraphPropertyChange";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: ParagraphProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.property(a0), "property", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.author(a0), "author", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.date(a0), "date", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for ParagraphPropertyDefault {
    fn arb(g: &mut G) -> Self {
        let x = ParagraphPropertyDefault::new();
        g.vary(x)
    }
}
impl Step for ParagraphPropertyDefault {
    const N: usize = 2;
    const T: &'static str = "ParagraphPropertyDefault";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_spacing(a0), "line_spacing", j)
            }
            1 => {
                let a0: ParagraphProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.paragraph_property(a0), "paragraph_property", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Pic {
    fn arb(g: &mut G) -> Self {
        let x = Pic::new_with_dimensions(vec![1, 2, 3], 10, 20);
        g.vary(x)
    }
}
impl Step for Pic {
    const N: usize = 17;
    const T: &'static str = "Pic";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.id(a0), "id", j)
            }
            1 => {
                let a0: u32 = g.arb();
                let a1: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.size(a0, a1), "size", j)
            }
            2 => {
                let a0: u16 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.rotate(a0), "rotate", j)
            }
            3 => {
                
                let j = vec![];
                (self.floating(), "floating", j)
            }
            4 => {
                
                let j = vec![];
                (self.overlapping(), "overlapping", j)
            }
            5 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.offset_x(a0), "offset_x", j)
            }
            6 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.offset_y(a0), "offset_y", j)
            }
            7 => {
                let a0: DrawingPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_h(a0), "position_h", j)
            }
            8 => {
                let a0: DrawingPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_v(a0), "position_v", j)
            }
            9 => {
                let a0: RelativeFromHType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_from_h(a0), "relative_from_h", j)
            }
            10 => {
                let a0: RelativeFromVType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_from_v(a0), "relative_from_v", j)
            }
            11 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_t(a0), "dist_t", j)
            }
            12 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_b(a0), "dist_b", j)
            }
            13 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_l(a0), "dist_l", j)
            }
            14 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_r(a0), "dist_r", j)
            }
            15 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.simple_pos(a0), "simple_pos", j)
            }
            16 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_height(a0), "relative_height", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for PositionalTab {
    fn arb(g: &mut G) -> Self {
        let x = PositionalTab::new(g.arb::<PositionalTabAlignmentType>(), g.arb::<PositionalTabRelativeTo>(), g.arb::<TabLeaderType>());
        g.vary(x)
    }
}
impl Step for PositionalTab {
    const N: usize = 3;
    const T: &'static str = "PositionalTab";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: PositionalTabRelativeTo = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_to(a0), "relative_to", j)
            }
            1 => {
                let a0: TabLeaderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.leader(a0), "leader", j)
            }
            2 => {
                let a0: PositionalTabAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.alignment(a0), "alignment", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Run {
    fn arb(g: &mut G) -> Self {
        let x = Run::new();
        g.vary(x)
    }
}
impl Step for Run {
    const N: usize = 31;
    const T: &'static str = "Run";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_text(a0), "add_text", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_delete_text(a0), "add_delete_text", j)
            }
            2 => {
                let a0: FieldCharType = g.arb();
                let a1: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_field_char(a0, a1), "add_field_char", j)
            }
            3 => {
                let a0: InstrTC = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_tc(a0), "add_tc", j)
            }
            4 => {
                
                let j = vec![];
                (self.add_tab(), "add_tab", j)
            }
            5 => {
                let a0: PositionalTab = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_ptab(a0), "add_ptab", j)
            }
            6 => {
                let a0: Pic = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_image(a0), "add_image", j)
            }
            7 => {
                let a0: BreakType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_break(a0), "add_break", j)
            }
            8 => {
                
                let j = vec![];
                (self.add_carriage_return(), "add_carriage_return", j)
            }
            9 => {
                let a0: Sym = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_sym(a0), "add_sym", j)
            }
            10 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(&a0), "style", j)
            }
            11 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            12 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.character_spacing(a0), "character_spacing", j)
            }
            13 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.stretch(a0), "stretch", j)
            }
            14 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            15 => {
                let a0: ThemeColor = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_color(a0), "theme_color", j)
            }
            16 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_shade(a0), "theme_shade", j)
            }
            17 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_tint(a0), "theme_tint", j)
            }
            18 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.highlight(a0), "highlight", j)
            }
            19 => {
                
                let j = vec![];
                (self.bold(), "bold", j)
            }
            20 => {
                
                let j = vec![];
                (self.disable_bold(), "disable_bold", j)
            }
            21 => {
                
                let j = vec![];
                (self.italic(), "italic", j)
            }
            22 => {
                
                let j = vec![];
                (self.strike(), "strike", j)
            }
            23 => {
                
                let j = vec![];
                (self.dstrike(), "dstrike", j)
            }
            24 => {
                let a0: TextBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_border(a0), "text_border", j)
            }
            25 => {
                
                let j = vec![];
                (self.disable_italic(), "disable_italic", j)
            }
            26 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.underline(a0), "underline", j)
            }
            27 => {
                
                let j = vec![];
                (self.vanish(), "vanish", j)
            }
            28 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            29 => {
                let a0: Footnote = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_footnote_reference(a0), "add_footnote_reference", j)
            }
            30 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for RunFonts {
    fn arb(g: &mut G) -> Self {
        let x = RunFonts::new();
        g.vary(x)
    }
}
impl Step for RunFonts {
    const N: usize = 9;
    const T: &'static str = "RunFonts";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.ascii(a0), "ascii", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hi_ansi(a0), "hi_ansi", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.east_asia(a0), "east_asia", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.cs(a0), "cs", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.ascii_theme(a0), "ascii_theme", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hi_ansi_theme(a0), "hi_ansi_theme", j)
            }
            6 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.east_asia_theme(a0), "east_asia_theme", j)
            }
            7 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.cs_theme(a0), "cs_theme", j)
            }
            8 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hint(a0), "hint", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for RunProperty {
    fn arb(g: &mut G) -> Self {
        let x = RunProperty::new();
        g.vary(x)
    }
}
impl Step for RunProperty {
    const N: usize = 30;
    const T: &'static str = "RunProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(&a0), "style", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.spacing(a0), "spacing", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            4 => {
                let a0: ThemeColor = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_color(a0), "theme_color", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_shade(a0), "theme_shade", j)
            }
            6 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_tint(a0), "theme_tint", j)
            }
            7 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.highlight(a0), "highlight", j)
            }
            8 => {
                let a0: VertAlignType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vert_align(a0), "vert_align", j)
            }
            9 => {
                
                let j = vec![];
                (self.bold(), "bold", j)
            }
            10 => {
                
                let j = vec![];
                (self.disable_bold(), "disable_bold", j)
            }
            11 => {
                
                let j = vec![];
                (self.caps(), "caps", j)
            }
            12 => {
                
                let j = vec![];
                (self.italic(), "italic", j)
            }
            13 => {
                
                let j = vec![];
                (self.strike(), "strike", j)
            }
            14 => {
                
                let j = vec![];
                (self.disable_strike(), "disable_strike", j)
            }
            15 => {
                
                let j = vec![];
                (self.dstrike(), "dstrike", j)
            }
            16 => {
                
                let j = vec![];
                (self.disable_dstrike(), "disable_dstrike", j)
            }
            17 => {
                
                let j = vec![];
                (self.disable_italic(), "disable_italic", j)
            }
            18 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.underline(a0), "underline", j)
            }
            19 => {
                
                let j = vec![];
                (self.vanish(), "vanish", j)
            }
            20 => {
                
                let j = vec![];
                (self.spec_vanish(), "spec_vanish", j)
            }
            21 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            22 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.character_spacing(a0), "character_spacing", j)
            }
            23 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.stretch(a0), "stretch", j)
            }
            24 => {
                let a0: usize = g.arb();
                let a1: Option<u32> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.fit_text(a0, a1), "fit_text", j)
            }
            25 => {
                let a0: TextBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_border(a0), "text_border", j)
            }
            26 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.delete(a0), "delete", j)
            }
            27 => {
                let a0: Insert = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.insert(a0), "insert", j)
            }
            28 => {
                let a0: PositionalTab = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.ptab(a0), "ptab", j)
            }
            29 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for RunPropertyDefault {
    fn arb(g: &mut G) -> Self {
        let x = RunPropertyDefault::new();
        g.vary(x)
    }
}
impl Step for RunPropertyDefault {
    const N: usize = 3;
    const T: &'static str = "RunPropertyDefault";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            1 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.spacing(a0), "spacing", j)
            }
            2 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Section {
    fn arb(g: &mut G) -> Self {
        let x = Section::new();
        g.vary(x)
    }
}
impl Step for Section {
    const N: usize = 12;
    const T: &'static str = "Section";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            2 => {
                let a0: usize = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_bookmark_start(a0, a1), "add_bookmark_start", j)
            }
            3 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_bookmark_end(a0), "add_bookmark_end", j)
            }
            4 => {
                let a0: Comment = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_start(a0), "add_comment_start", j)
            }
            5 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_comment_end(a0), "add_comment_end", j)
            }
            6 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.header(a0), "header", j)
            }
            7 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_header(a0), "first_header", j)
            }
            8 => {
                let a0: Header = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.even_header(a0), "even_header", j)
            }
            9 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.footer(a0), "footer", j)
            }
            10 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_footer(a0), "first_footer", j)
            }
            11 => {
                let a0: Footer = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.even_footer(a0), "even_footer", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for SectionProperty {
    fn arb(g: &mut G) -> Self {
        let x = SectionProperty::new();
        g.vary(x)
    }
}
impl Step for SectionProperty {
    const N: usize = 15;
    const T: &'static str = "SectionProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: PageSize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_size(a0), "page_size", j)
            }
            1 => {
                let a0: PageMargin = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_margin(a0), "page_margin", j)
            }
            2 => {
                let a0: PageOrientationType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_orient(a0), "page_orient", j)
            }
            3 => {
                let a0: DocGrid = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.doc_grid(a0), "doc_grid", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_direction(a0), "text_direction", j)
            }
            5 => {
                
                let j = vec![];
                (self.title_pg(), "title_pg", j)
            }
            6 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.header(a0, &a1), "header", j)
            }
            7 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_header(a0, &a1), "first_header", j)
            }
            8 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_header_without_title_pg(a0, &a1), "first_header_without_title_pg", j)
            }
            9 => {
                let a0: Header = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.even_header(a0, &a1), "even_header", j)
            }
            10 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.footer(a0, &a1), "footer", j)
            }
            11 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_footer(a0, &a1), "first_footer", j)
            }
            12 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.first_footer_without_title_pg(a0, &a1), "first_footer_without_title_pg", j)
            }
            13 => {
                let a0: Footer = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.even_footer(a0, &a1), "even_footer", j)
            }
            14 => {
                let a0: PageNumType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_num_type(a0), "page_num_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Settings {
    fn arb(g: &mut G) -> Self {
        let x = Settings::new();
        g.vary(x)
    }
}
impl Step for Settings {
    const N: usize = 6;
    const T: &'static str = "Settings";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.doc_id(a0), "doc_id", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_tab_stop(a0), "default_tab_stop", j)
            }
            2 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.add_doc_var(a0, a1), "add_doc_var", j)
            }
            3 => {
                
                let j = vec![];
                (self.even_and_odd_headers(), "even_and_odd_headers", j)
            }
            4 => {
                
                let j = vec![];
                (self.adjust_line_height_in_table(), "adjust_line_height_in_table", j)
            }
            5 => {
                let a0: CharacterSpacingValues = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.character_spacing_control(a0), "character_spacing_control", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Shading {
    fn arb(g: &mut G) -> Self {
        let x = Shading::new();
        g.vary(x)
    }
}
impl Step for Shading {
    const N: usize = 3;
    const T: &'static str = "Shading";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fill(a0), "fill", j)
            }
            2 => {
                let a0: ShdType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shd_type(a0), "shd_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Start {
    fn arb(g: &mut G) -> Self {
        Start::new(g.arb::<usize>())
    }
}
impl Arb for Strike {
    fn arb(g: &mut G) -> Self {
        let x = Strike::new();
        g.vary(x)
    }
}
impl Step for Strike {
    const N: usize = 1;
    const T: &'static str = "Strike";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                
                let j = vec![];
                (self.disable(), "disable", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for StructuredDataTag {
    fn arb(g: &mut G) -> Self {
        let x = StructuredDataTag::new();
        g.vary(x)
    }
}
impl Step for StructuredDataTag {
    const N: usize = 5;
    const T: &'static str = "StructuredDataTag";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Run = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_run(a0), "add_run", j)
            }
            1 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            2 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            3 => {
                let a0: DataBinding = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.data_binding(a0), "data_binding", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.alias(a0), "alias", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for StructuredDataTagProperty {
    fn arb(g: &mut G) -> Self {
        let x = StructuredDataTagProperty::new();
        g.vary(x)
    }
}
impl Step for StructuredDataTagProperty {
    const N: usize = 2;
    const T: &'static str = "StructuredDataTagProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: DataBinding = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.data_binding(a0), "data_binding", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.alias(a0), "alias", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Style {
    fn arb(g: &mut G) -> Self {
        let x = Style::new(g.arb::<String>(), g.arb::<StyleType>());
        g.vary(x)
    }
}
impl Step for Style {
    const N: usize = 53;
    const T: &'static str = "Style";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.name(a0), "name", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.based_on(a0), "based_on", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.next(a0), "next", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.link(a0), "link", j)
            }
            4 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.q_format(a0), "q_format", j)
            }
            5 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.ui_priority(a0), "ui_priority", j)
            }
            6 => {
                
                let j = vec![];
                (self.semi_hidden(), "semi_hidden", j)
            }
            7 => {
                
                let j = vec![];
                (self.unhide_when_used(), "unhide_when_used", j)
            }
            8 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            9 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            10 => {
                let a0: ThemeColor = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_color(a0), "theme_color", j)
            }
            11 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_shade(a0), "theme_shade", j)
            }
            12 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.theme_tint(a0), "theme_tint", j)
            }
            13 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.highlight(a0), "highlight", j)
            }
            14 => {
                
                let j = vec![];
                (self.bold(), "bold", j)
            }
            15 => {
                
                let j = vec![];
                (self.italic(), "italic", j)
            }
            16 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.underline(a0), "underline", j)
            }
            17 => {
                
                let j = vec![];
                (self.vanish(), "vanish", j)
            }
            18 => {
                let a0: TextBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_border(a0), "text_border", j)
            }
            19 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.fonts(a0), "fonts", j)
            }
            20 => {
                let a0: AlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.align(a0), "align", j)
            }
            21 => {
                let a0: TextAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_alignment(a0), "text_alignment", j)
            }
            22 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.snap_to_grid(a0), "snap_to_grid", j)
            }
            23 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.line_spacing(a0), "line_spacing", j)
            }
            24 => {
                let a0: Option<i32> = g.arb();
                let a1: Option<SpecialIndentType> = g.arb();
                let a2: Option<i32> = g.arb();
                let a3: Option<i32> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()]), json!([view(&a2), (&&J(&a2)).shown()]), json!([view(&a3), (&&J(&a3)).shown()])];
                (self.indent(a0, a1, a2, a3), "indent", j)
            }
            25 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.hanging_chars(a0), "hanging_chars", j)
            }
            26 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.first_line_chars(a0), "first_line_chars", j)
            }
            27 => {
                let a0: usize = g.arb::<usize>() % 10;
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.outline_lvl(a0), "outline_lvl", j)
            }
            28 => {
                let a0: TableProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.table_property(a0), "table_property", j)
            }
            29 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.table_indent(a0), "table_indent", j)
            }
            30 => {
                let a0: TableAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.table_align(a0), "table_align", j)
            }
            31 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(a0), "style", j)
            }
            32 => {
                let a0: TableLayoutType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.layout(a0), "layout", j)
            }
            33 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.width(a0, a1), "width", j)
            }
            34 => {
                let a0: TableCellMargins = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margins(a0), "margins", j)
            }
            35 => {
                let a0: TableBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            36 => {
                let a0: TableBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            37 => {
                let a0: TableBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            38 => {
                
                let j = vec![];
                (self.clear_all_border(), "clear_all_border", j)
            }
            39 => {
                let a0: TableCellProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.table_cell_property(a0), "table_cell_property", j)
            }
            40 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.wrap(a0), "wrap", j)
            }
            41 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_anchor(a0), "v_anchor", j)
            }
            42 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_anchor(a0), "h_anchor", j)
            }
            43 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_rule(a0), "h_rule", j)
            }
            44 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.x_align(a0), "x_align", j)
            }
            45 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.y_align(a0), "y_align", j)
            }
            46 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.h_space(a0), "h_space", j)
            }
            47 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.v_space(a0), "v_space", j)
            }
            48 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_x(a0), "frame_x", j)
            }
            49 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_y(a0), "frame_y", j)
            }
            50 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_width(a0), "frame_width", j)
            }
            51 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.frame_height(a0), "frame_height", j)
            }
            52 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for StyleWithLevel {
    fn arb(g: &mut G) -> Self {
        StyleWithLevel::new(g.arb::<String>(), g.arb())
    }
}
impl Arb for Styles {
    fn arb(g: &mut G) -> Self {
        let x = Styles::new();
        g.vary(x)
    }
}
impl Step for Styles {
    const N: usize = 5;
    const T: &'static str = "Styles";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Style = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_style(a0), "add_style", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_size(a0), "default_size", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_spacing(a0), "default_spacing", j)
            }
            3 => {
                let a0: LineSpacing = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_line_spacing(a0), "default_line_spacing", j)
            }
            4 => {
                let a0: RunFonts = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.default_fonts(a0), "default_fonts", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Sym {
    fn arb(g: &mut G) -> Self {
        Sym::new(g.arb::<String>(), g.arb::<String>())
    }
}
impl Arb for Tab {
    fn arb(g: &mut G) -> Self {
        let x = Tab::new();
        g.vary(x)
    }
}
impl Step for Tab {
    const N: usize = 3;
    const T: &'static str = "Tab";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: TabValueType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.val(a0), "val", j)
            }
            1 => {
                let a0: TabLeaderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.leader(a0), "leader", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.pos(a0), "pos", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Table {
    fn arb(g: &mut G) -> Self {
        let x = Table::new(vec![]);
        g.vary(x)
    }
}
impl Step for Table {
    const N: usize = 13;
    const T: &'static str = "Table";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: TableRow = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_row(a0), "add_row", j)
            }
            1 => {
                let a0: Vec<usize> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_grid(a0), "set_grid", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.indent(a0), "indent", j)
            }
            3 => {
                let a0: TableAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.align(a0), "align", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(a0), "style", j)
            }
            5 => {
                let a0: TableLayoutType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.layout(a0), "layout", j)
            }
            6 => {
                let a0: TablePositionProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position(a0), "position", j)
            }
            7 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.width(a0, a1), "width", j)
            }
            8 => {
                let a0: TableCellMargins = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margins(a0), "margins", j)
            }
            9 => {
                let a0: TableBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            10 => {
                let a0: TableBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            11 => {
                let a0: TableBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            12 => {
                
                let j = vec![];
                (self.clear_all_border(), "clear_all_border", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableBorder {
    fn arb(g: &mut G) -> Self {
        let x = TableBorder::new(g.arb::<TableBorderPosition>());
        g.vary(x)
    }
}
impl Step for TableBorder {
    const N: usize = 3;
    const T: &'static str = "TableBorder";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            2 => {
                let a0: BorderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.border_type(a0), "border_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableBorders {
    fn arb(g: &mut G) -> Self {
        let x = TableBorders::new();
        g.vary(x)
    }
}
impl Step for TableBorders {
    const N: usize = 3;
    const T: &'static str = "TableBorders";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: TableBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set(a0), "set", j)
            }
            1 => {
                let a0: TableBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear(a0), "clear", j)
            }
            2 => {
                
                let j = vec![];
                (self.clear_all(), "clear_all", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableCell {
    fn arb(g: &mut G) -> Self {
        let x = TableCell::new();
        g.vary(x)
    }
}
impl Step for TableCell {
    const N: usize = 14;
    const T: &'static str = "TableCell";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: TableOfContents = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table_of_contents(a0), "add_table_of_contents", j)
            }
            2 => {
                let a0: StructuredDataTag = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_structured_data_tag(a0), "add_structured_data_tag", j)
            }
            3 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            4 => {
                let a0: VMergeType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vertical_merge(a0), "vertical_merge", j)
            }
            5 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            6 => {
                let a0: VAlignType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vertical_align(a0), "vertical_align", j)
            }
            7 => {
                let a0: TextDirectionType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_direction(a0), "text_direction", j)
            }
            8 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_span(a0), "grid_span", j)
            }
            9 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.width(a0, a1), "width", j)
            }
            10 => {
                let a0: TableCellBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            11 => {
                let a0: TableCellBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            12 => {
                let a0: TableCellBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            13 => {
                
                let j = vec![];
                (self.clear_all_border(), "clear_all_border", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableCellBorder {
    fn arb(g: &mut G) -> Self {
        let x = TableCellBorder::new(g.arb::<TableCellBorderPosition>());
        g.vary(x)
    }
}
impl Step for TableCellBorder {
    const N: usize = 3;
    const T: &'static str = "TableCellBorder";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            2 => {
                let a0: BorderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.border_type(a0), "border_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableCellBorders {
    fn arb(g: &mut G) -> Self {
        let x = TableCellBorders::new();
        g.vary(x)
    }
}
impl Step for TableCellBorders {
    const N: usize = 3;
    const T: &'static str = "TableCellBorders";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: TableCellBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set(a0), "set", j)
            }
            1 => {
                let a0: TableCellBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear(a0), "clear", j)
            }
            2 => {
                
                let j = vec![];
                (self.clear_all(), "clear_all", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableCellMargins {
    fn arb(g: &mut G) -> Self {
        let x = TableCellMargins::new();
        g.vary(x)
    }
}
impl Step for TableCellMargins {
    const N: usize = 5;
    const T: &'static str = "TableCellMargins";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let a1: usize = g.arb();
                let a2: usize = g.arb();
                let a3: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()]), json!([view(&a2), (&&J(&a2)).shown()]), json!([view(&a3), (&&J(&a3)).shown()])];
                (self.margin(a0, a1, a2, a3), "margin", j)
            }
            1 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_top(a0, a1), "margin_top", j)
            }
            2 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_right(a0, a1), "margin_right", j)
            }
            3 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_left(a0, a1), "margin_left", j)
            }
            4 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_bottom(a0, a1), "margin_bottom", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableCellProperty {
    fn arb(g: &mut G) -> Self {
        let x = TableCellProperty::new();
        g.vary(x)
    }
}
impl Step for TableCellProperty {
    const N: usize = 15;
    const T: &'static str = "TableCellProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.width(a0, a1), "width", j)
            }
            1 => {
                let a0: VMergeType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vertical_merge(a0), "vertical_merge", j)
            }
            2 => {
                let a0: VAlignType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vertical_align(a0), "vertical_align", j)
            }
            3 => {
                let a0: TextDirectionType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text_direction(a0), "text_direction", j)
            }
            4 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_span(a0), "grid_span", j)
            }
            5 => {
                let a0: Shading = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.shading(a0), "shading", j)
            }
            6 => {
                let a0: TableCellBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            7 => {
                let a0: TableCellBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            8 => {
                let a0: TableCellBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            9 => {
                
                let j = vec![];
                (self.clear_all_border(), "clear_all_border", j)
            }
            10 => {
                let a0: CellMargins = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.margins(a0), "margins", j)
            }
            11 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_top(a0, a1), "margin_top", j)
            }
            12 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_right(a0, a1), "margin_right", j)
            }
            13 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_bottom(a0, a1), "margin_bottom", j)
            }
            14 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.margin_left(a0, a1), "margin_left", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableOfContents {
    fn arb(g: &mut G) -> Self {
        let x = TableOfContents::new();
        g.vary(x)
    }
}
impl Step for TableOfContents {
    const N: usize = 15;
    const T: &'static str = "TableOfContents";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: usize = g.arb();
                let a1: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.heading_styles_range(a0, a1), "heading_styles_range", j)
            }
            1 => {
                let a0: Option<String> = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.tc_field_identifier(a0), "tc_field_identifier", j)
            }
            2 => {
                let a0: StyleWithLevel = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_style_with_level(a0), "add_style_with_level", j)
            }
            3 => {
                
                let j = vec![];
                (self.hyperlink(), "hyperlink", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.alias(a0), "alias", j)
            }
            5 => {
                let a0: String = g.arb();
                let a1: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.delete(a0, a1), "delete", j)
            }
            6 => {
                let a0: TableOfContentsItem = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_item(a0), "add_item", j)
            }
            7 => {
                
                let j = vec![];
                (self.auto(), "auto", j)
            }
            8 => {
                
                let j = vec![];
                (self.dirty(), "dirty", j)
            }
            9 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_before_paragraph(a0), "add_before_paragraph", j)
            }
            10 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_after_paragraph(a0), "add_after_paragraph", j)
            }
            11 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_before_table(a0), "add_before_table", j)
            }
            12 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_after_table(a0), "add_after_table", j)
            }
            13 => {
                
                let j = vec![];
                (self.without_sdt(), "without_sdt", j)
            }
            14 => {
                let a0: ParagraphProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.paragraph_property(a0), "paragraph_property", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableOfContentsItem {
    fn arb(g: &mut G) -> Self {
        let x = TableOfContentsItem::new();
        g.vary(x)
    }
}
impl Step for TableOfContentsItem {
    const N: usize = 5;
    const T: &'static str = "TableOfContentsItem";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: InstrToC = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.instr(a0), "instr", j)
            }
            1 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.text(a0), "text", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.level(a0), "level", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.toc_key(a0), "toc_key", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.page_ref(a0), "page_ref", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TablePositionProperty {
    fn arb(g: &mut G) -> Self {
        let x = TablePositionProperty::new();
        g.vary(x)
    }
}
impl Step for TablePositionProperty {
    const N: usize = 8;
    const T: &'static str = "TablePositionProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.left_from_text(a0), "left_from_text", j)
            }
            1 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.right_from_text(a0), "right_from_text", j)
            }
            2 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.vertical_anchor(a0), "vertical_anchor", j)
            }
            3 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.horizontal_anchor(a0), "horizontal_anchor", j)
            }
            4 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_x_alignment(a0), "position_x_alignment", j)
            }
            5 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_y_alignment(a0), "position_y_alignment", j)
            }
            6 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_x(a0), "position_x", j)
            }
            7 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_y(a0), "position_y", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableProperty {
    fn arb(g: &mut G) -> Self {
        let x = TableProperty::new();
        g.vary(x)
    }
}
impl Step for TableProperty {
    const N: usize = 15;
    const T: &'static str = "TableProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.indent(a0), "indent", j)
            }
            1 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.width(a0, a1), "width", j)
            }
            2 => {
                let a0: TableAlignmentType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.align(a0), "align", j)
            }
            3 => {
                let a0: TableCellMargins = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_margins(a0), "set_margins", j)
            }
            4 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.cell_margin_top(a0, a1), "cell_margin_top", j)
            }
            5 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.cell_margin_right(a0, a1), "cell_margin_right", j)
            }
            6 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.cell_margin_bottom(a0, a1), "cell_margin_bottom", j)
            }
            7 => {
                let a0: usize = g.arb();
                let a1: WidthType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.cell_margin_left(a0, a1), "cell_margin_left", j)
            }
            8 => {
                let a0: TableBorders = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_borders(a0), "set_borders", j)
            }
            9 => {
                let a0: TableBorder = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.set_border(a0), "set_border", j)
            }
            10 => {
                let a0: TableBorderPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.clear_border(a0), "clear_border", j)
            }
            11 => {
                
                let j = vec![];
                (self.clear_all_border(), "clear_all_border", j)
            }
            12 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.style(a0), "style", j)
            }
            13 => {
                let a0: TableLayoutType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.layout(a0), "layout", j)
            }
            14 => {
                let a0: TablePositionProperty = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position(a0), "position", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableRow {
    fn arb(g: &mut G) -> Self {
        let x = TableRow::new(vec![]);
        g.vary(x)
    }
}
impl Step for TableRow {
    const N: usize = 9;
    const T: &'static str = "TableRow";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_after(a0), "grid_after", j)
            }
            1 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width_after(a0), "width_after", j)
            }
            2 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_before(a0), "grid_before", j)
            }
            3 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width_before(a0), "width_before", j)
            }
            4 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.row_height(a0), "row_height", j)
            }
            5 => {
                let a0: HeightRule = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.height_rule(a0), "height_rule", j)
            }
            6 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.delete(a0), "delete", j)
            }
            7 => {
                let a0: Insert = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.insert(a0), "insert", j)
            }
            8 => {
                
                let j = vec![];
                (self.cant_split(), "cant_split", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TableRowProperty {
    fn arb(g: &mut G) -> Self {
        let x = TableRowProperty::new();
        g.vary(x)
    }
}
impl Step for TableRowProperty {
    const N: usize = 9;
    const T: &'static str = "TableRowProperty";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_after(a0), "grid_after", j)
            }
            1 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width_after(a0), "width_after", j)
            }
            2 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.grid_before(a0), "grid_before", j)
            }
            3 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.width_before(a0), "width_before", j)
            }
            4 => {
                let a0: f32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.row_height(a0), "row_height", j)
            }
            5 => {
                let a0: HeightRule = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.height_rule(a0), "height_rule", j)
            }
            6 => {
                let a0: Delete = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.delete(a0), "delete", j)
            }
            7 => {
                let a0: Insert = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.insert(a0), "insert", j)
            }
            8 => {
                
                let j = vec![];
                (self.cant_split(), "cant_split", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for Tabs {
    fn arb(g: &mut G) -> Self {
        let x = Tabs::new();
        g.vary(x)
    }
}
impl Step for Tabs {
    const N: usize = 1;
    const T: &'static str = "Tabs";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Tab = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_tab(a0), "add_tab", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TextBorder {
    fn arb(g: &mut G) -> Self {
        let x = TextBorder::new();
        g.vary(x)
    }
}
impl Step for TextBorder {
    const N: usize = 4;
    const T: &'static str = "TextBorder";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: String = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.color(a0), "color", j)
            }
            1 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.size(a0), "size", j)
            }
            2 => {
                let a0: usize = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.space(a0), "space", j)
            }
            3 => {
                let a0: BorderType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.border_type(a0), "border_type", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TextBox {
    fn arb(g: &mut G) -> Self {
        let x = TextBox::new();
        g.vary(x)
    }
}
impl Step for TextBox {
    const N: usize = 14;
    const T: &'static str = "TextBox";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: u32 = g.arb();
                let a1: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()]), json!([view(&a1), (&&J(&a1)).shown()])];
                (self.size(a0, a1), "size", j)
            }
            1 => {
                
                let j = vec![];
                (self.floating(), "floating", j)
            }
            2 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.offset_x(a0), "offset_x", j)
            }
            3 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.offset_y(a0), "offset_y", j)
            }
            4 => {
                let a0: DrawingPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_h(a0), "position_h", j)
            }
            5 => {
                let a0: DrawingPosition = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.position_v(a0), "position_v", j)
            }
            6 => {
                let a0: RelativeFromHType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_from_h(a0), "relative_from_h", j)
            }
            7 => {
                let a0: RelativeFromVType = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_from_v(a0), "relative_from_v", j)
            }
            8 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_t(a0), "dist_t", j)
            }
            9 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_b(a0), "dist_b", j)
            }
            10 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_l(a0), "dist_l", j)
            }
            11 => {
                let a0: i32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.dist_r(a0), "dist_r", j)
            }
            12 => {
                let a0: bool = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.simple_pos(a0), "simple_pos", j)
            }
            13 => {
                let a0: u32 = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.relative_height(a0), "relative_height", j)
            }
            _ => unreachable!(),
        }
    }
}
impl Arb for TextBoxContent {
    fn arb(g: &mut G) -> Self {
        let x = TextBoxContent::new();
        g.vary(x)
    }
}
impl Step for TextBoxContent {
    const N: usize = 2;
    const T: &'static str = "TextBoxContent";
    fn step(self, i: usize, g: &mut G) -> (Self, &'static str, Vec<Value>) {
        match i {
            0 => {
                let a0: Paragraph = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_paragraph(a0), "add_paragraph", j)
            }
            1 => {
                let a0: Table = g.arb();
                let j = vec![json!([view(&a0), (&&J(&a0)).shown()])];
                (self.add_table(a0), "add_table", j)
            }
            _ => unreachable!(),
        }
    }
}
pub fn all(f: &mut dyn FnMut(&str, fn(&mut G) -> Vec<crate::c13::Call>)) {
    f("AbstractNumbering", crate::c13::calls::<AbstractNumbering>);
    f("Bold", crate::c13::calls::<Bold>);
    f("BoldCs", crate::c13::calls::<BoldCs>);
    f("Caps", crate::c13::calls::<Caps>);
    f("CellMargins", crate::c13::calls::<CellMargins>);
    f("Color", crate::c13::calls::<Color>);
    f("Comment", crate::c13::calls::<Comment>);
    f("CommentExtended", crate::c13::calls::<CommentExtended>);
    f("DataBinding", crate::c13::calls::<DataBinding>);
    f("Delete", crate::c13::calls::<Delete>);
    f("Div", crate::c13::calls::<Div>);
    f("DocDefaults", crate::c13::calls::<DocDefaults>);
    f("DocGrid", crate::c13::calls::<DocGrid>);
    f("Document", crate::c13::calls::<Document>);
    f("Docx", crate::c13::calls::<Docx>);
    f("Drawing", crate::c13::calls::<Drawing>);
    f("Dstrike", crate::c13::calls::<Dstrike>);
    f("FieldChar", crate::c13::calls::<FieldChar>);
    f("FitText", crate::c13::calls::<FitText>);
    f("Footer", crate::c13::calls::<Footer>);
    f("FrameProperty", crate::c13::calls::<FrameProperty>);
    f("Header", crate::c13::calls::<Header>);
    f("Hyperlink", crate::c13::calls::<Hyperlink>);
    f("Indent", crate::c13::calls::<Indent>);
    f("Insert", crate::c13::calls::<Insert>);
    f("InstrPAGEREF", crate::c13::calls::<InstrPAGEREF>);
    f("InstrTC", crate::c13::calls::<InstrTC>);
    f("InstrToC", crate::c13::calls::<InstrToC>);
    f("Italic", crate::c13::calls::<Italic>);
    f("ItalicCs", crate::c13::calls::<ItalicCs>);
    f("Level", crate::c13::calls::<Level>);
    f("LevelOverride", crate::c13::calls::<LevelOverride>);
    f("LineSpacing", crate::c13::calls::<LineSpacing>);
    f("MoveFrom", crate::c13::calls::<MoveFrom>);
    f("MoveTo", crate::c13::calls::<MoveTo>);
    f("Numbering", crate::c13::calls::<Numbering>);
    f("NumberingProperty", crate::c13::calls::<NumberingProperty>);
    f("PageMargin", crate::c13::calls::<PageMargin>);
    f("PageNumType", crate::c13::calls::<PageNumType>);
    f("PageSize", crate::c13::calls::<PageSize>);
    f("Paragraph", crate::c13::calls::<Paragraph>);
    f("ParagraphBorder", crate::c13::calls::<ParagraphBorder>);
    f("ParagraphBorders", crate::c13::calls::<ParagraphBorders>);
    f("ParagraphProperty", crate::c13::calls::<ParagraphProperty>);
    f("ParagraphPropertyChange", crate::c13::calls::<ParagraphPropertyChange>);
    f("ParagraphPropertyDefault", crate::c13::calls::<ParagraphPropertyDefault>);
    f("Pic", crate::c13::calls::<Pic>);
    f("PositionalTab", crate::c13::calls::<PositionalTab>);
    f("Run", crate::c13::calls::<Run>);
    f("RunFonts", crate::c13::calls::<RunFonts>);
    f("RunProperty", crate::c13::calls::<RunProperty>);
    f("RunPropertyDefault", crate::c13::calls::<RunPropertyDefault>);
    f("Section", crate::c13::calls::<Section>);
    f("SectionProperty", crate::c13::calls::<SectionProperty>);
    f("Settings", crate::c13::calls::<Settings>);
    f("Shading", crate::c13::calls::<Shading>);
    f("Strike", crate::c13::calls::<Strike>);
    f("StructuredDataTag", crate::c13::calls::<StructuredDataTag>);
    f("StructuredDataTagProperty", crate::c13::calls::<StructuredDataTagProperty>);
    f("Style", crate::c13::calls::<Style>);
    f("Styles", crate::c13::calls::<Styles>);
    f("Tab", crate::c13::calls::<Tab>);
    f("Table", crate::c13::calls::<Table>);
    f("TableBorder", crate::c13::calls::<TableBorder>);
    f("TableBorders", crate::c13::calls::<TableBorders>);
    f("TableCell", crate::c13::calls::<TableCell>);
    f("TableCellBorder", crate::c13::calls::<TableCellBorder>);
    f("TableCellBorders", crate::c13::calls::<TableCellBorders>);
    f("TableCellMargins", crate::c13::calls::<TableCellMargins>);
    f("TableCellProperty", crate::c13::calls::<TableCellProperty>);
    f("TableOfContents", crate::c13::calls::<TableOfContents>);
    f("TableOfContentsItem", crate::c13::calls::<TableOfContentsItem>);
    f("TablePositionProperty", crate::c13::calls::<TablePositionProperty>);
    f("TableProperty", crate::c13::calls::<TableProperty>);
    f("TableRow", crate::c13::calls::<TableRow>);
    f("TableRowProperty", crate::c13::calls::<TableRowProperty>);
    f("Tabs", crate::c13::calls::<Tabs>);
    f("TextBorder", crate::c13::calls::<TextBorder>);
    f("TextBox", crate::c13::calls::<TextBox>);
    f("TextBoxContent", crate::c13::calls::<TextBoxContent>);
}
