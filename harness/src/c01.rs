//! Exhaustive run of the token table over the real enumerations (written by tools from the ECMA token table).
use crate::ctx::Ctx;
use docx_rs::*;
use std::str::FromStr;
const JUNK: &[&str] = &["", " ", "x", "unsupported_", "LEFT", "Center", "left ", " left", "none1", "nil0", "autoo", "pag", "0", "日本", "leftright", "startt", "normal"];
macro_rules! disp { ($c:expr, $t:ident, $v:ident, $k:expr) => {{ $c.case(concat!(stringify!($t), "::", stringify!($v))); let s = $t::$v.to_string(); if s != $k { $c.bad(concat!("display:", stringify!($t), "::", stringify!($v)), format!("{}::{} is written as {:?}, standard token is {:?}", stringify!($t), stringify!($v), s, $k), format!("{}::{}.to_string()", stringify!($t), stringify!($v))); } }} }
macro_rules! parse { ($c:expr, $t:ident, $k:expr, $want:expr) => {{ $c.case(&format!("{}::from_str({:?})", stringify!($t), $k)); let got = match $t::from_str($k) { Ok(v) => format!("Ok({:?})", v), Err(_) => "Err".to_string() }; if got != $want { $c.bad(&format!("parse:{}:{}", stringify!($t), $k), format!("{} parsed from {:?} is {}, expected {}", stringify!($t), $k, got, $want), format!("{}::from_str({:?})", stringify!($t), $k)); } }} }
pub fn run(c: &mut Ctx) {
    c.rule = "every value and token of every enumeration, junk tokens, tokens of the other enumerations".into();
    let all: Vec<&str> = vec!["accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "anchor", "apples", "archedScallops", "atLeast", "auto", "autofit", "babyPacifier", "babyRattle", "background1", "background2", "bar", "baseline", "begin", "both", "bottom", "bottomMargin", "btLr", "center", "character", "clear", "column", "compressPunctuation", "compressPunctuationAndJapaneseKana", "continue", "continuous", "dark1", "dark2", "dashDotStroked", "dashSmallGap", "dashed", "decimal", "default", "diagCross", "diagStripe", "distribute", "doNotCompress", "dot", "dotDash", "dotDotDash", "dotted", "double", "doubleWave", "dxa", "end", "evenPage", "exact", "external", "fixed", "followedHyperlink", "heavy", "horzCross", "horzStripe", "hyperlink", "hyphen", "indent", "inset", "insideMargin", "justified", "landscape", "left", "leftMargin", "light1", "light2", "line", "lines", "linesAndChars", "lr", "lrTbV", "lrV", "margin", "middleDot", "nextColumn", "nextPage", "nil", "none", "nothing", "num", "numbering", "oddPage", "outset", "outsideMargin", "page", "paragraph", "pct", "pct10", "pct12", "pct15", "pct20", "pct25", "pct30", "pct35", "pct37", "pct40", "pct45", "pct5", "pct50", "pct55", "pct60", "pct62", "pct65", "pct70", "pct75", "pct80", "pct85", "pct87", "pct90", "pct95", "portrait", "restart", "reverseDiagStripe", "right", "rightMargin", "rl", "rlV", "separate", "single", "snapToChars", "solid", "space", "start", "subscript", "superscript", "tab", "table", "tb", "tbRl", "tbRlV", "tbV", "text1", "text2", "textWrapping", "thick", "thickThinLargeGap", "thickThinMediumGap", "thickThinSmallGap", "thinDiagCross", "thinDiagStripe", "thinHorzCross", "thinHorzStripe", "thinReverseDiagStripe", "thinThickLargeGap", "thinThickMediumGap", "thinThickSmallGap", "thinThickThinLargeGap", "thinThickThinMediumGap", "thinThickThinSmallGap", "thinVertStripe", "threeDEmboss", "threeDEngrave", "top", "topMargin", "triple", "underscore", "unsupported", "variable", "vertStripe", "wave"];
    disp!(c, AlignmentType, Both, "both");
    disp!(c, AlignmentType, Center, "center");
    disp!(c, AlignmentType, Distribute, "distribute");
    disp!(c, AlignmentType, Start, "start");
    disp!(c, AlignmentType, End, "end");
    disp!(c, AlignmentType, Left, "left");
    disp!(c, AlignmentType, Right, "right");
    disp!(c, AlignmentType, Justified, "justified");
    parse!(c, AlignmentType, "both", "Ok(Both)");
    parse!(c, AlignmentType, "center", "Ok(Center)");
    parse!(c, AlignmentType, "distribute", "Ok(Distribute)");
    parse!(c, AlignmentType, "start", "Ok(Start)");
    parse!(c, AlignmentType, "end", "Ok(End)");
    parse!(c, AlignmentType, "left", "Ok(Left)");
    parse!(c, AlignmentType, "right", "Ok(Right)");
    parse!(c, AlignmentType, "justified", "Ok(Justified)");
    let known: Vec<&str> = vec!["both", "center", "distribute", "start", "end", "left", "right", "justified"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, AlignmentType, t, "Ok(Left)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, AlignmentType, j.as_str(), "Ok(Left)"); } } }
    disp!(c, BorderType, Nil, "nil");
    disp!(c, BorderType, None, "none");
    disp!(c, BorderType, Single, "single");
    disp!(c, BorderType, Thick, "thick");
    disp!(c, BorderType, Double, "double");
    disp!(c, BorderType, Dotted, "dotted");
    disp!(c, BorderType, Dashed, "dashed");
    disp!(c, BorderType, DotDash, "dotDash");
    disp!(c, BorderType, DotDotDash, "dotDotDash");
    disp!(c, BorderType, Triple, "triple");
    disp!(c, BorderType, ThinThickSmallGap, "thinThickSmallGap");
    disp!(c, BorderType, ThickThinSmallGap, "thickThinSmallGap");
    disp!(c, BorderType, ThinThickThinSmallGap, "thinThickThinSmallGap");
    disp!(c, BorderType, ThinThickMediumGap, "thinThickMediumGap");
    disp!(c, BorderType, ThickThinMediumGap, "thickThinMediumGap");
    disp!(c, BorderType, ThinThickThinMediumGap, "thinThickThinMediumGap");
    disp!(c, BorderType, ThinThickLargeGap, "thinThickLargeGap");
    disp!(c, BorderType, ThickThinLargeGap, "thickThinLargeGap");
    disp!(c, BorderType, ThinThickThinLargeGap, "thinThickThinLargeGap");
    disp!(c, BorderType, Wave, "wave");
    disp!(c, BorderType, DoubleWave, "doubleWave");
    disp!(c, BorderType, DashSmallGap, "dashSmallGap");
    disp!(c, BorderType, DashDotStroked, "dashDotStroked");
    disp!(c, BorderType, ThreeDEmboss, "threeDEmboss");
    disp!(c, BorderType, ThreeDEngrave, "threeDEngrave");
    disp!(c, BorderType, Outset, "outset");
    disp!(c, BorderType, Inset, "inset");
    disp!(c, BorderType, Apples, "apples");
    disp!(c, BorderType, ArchedScallops, "archedScallops");
    disp!(c, BorderType, BabyPacifier, "babyPacifier");
    disp!(c, BorderType, BabyRattle, "babyRattle");
    parse!(c, BorderType, "nil", "Ok(Nil)");
    parse!(c, BorderType, "none", "Ok(None)");
    parse!(c, BorderType, "single", "Ok(Single)");
    parse!(c, BorderType, "thick", "Ok(Thick)");
    parse!(c, BorderType, "double", "Ok(Double)");
    parse!(c, BorderType, "dotted", "Ok(Dotted)");
    parse!(c, BorderType, "dashed", "Ok(Dashed)");
    parse!(c, BorderType, "dotDash", "Ok(DotDash)");
    parse!(c, BorderType, "dotDotDash", "Ok(DotDotDash)");
    parse!(c, BorderType, "triple", "Ok(Triple)");
    parse!(c, BorderType, "thinThickSmallGap", "Ok(ThinThickSmallGap)");
    parse!(c, BorderType, "thickThinSmallGap", "Ok(ThickThinSmallGap)");
    parse!(c, BorderType, "thinThickThinSmallGap", "Ok(ThinThickThinSmallGap)");
    parse!(c, BorderType, "thinThickMediumGap", "Ok(ThinThickMediumGap)");
    parse!(c, BorderType, "thickThinMediumGap", "Ok(ThickThinMediumGap)");
    parse!(c, BorderType, "thinThickThinMediumGap", "Ok(ThinThickThinMediumGap)");
    parse!(c, BorderType, "thinThickLargeGap", "Ok(ThinThickLargeGap)");
    parse!(c, BorderType, "thickThinLargeGap", "Ok(ThickThinLargeGap)");
    parse!(c, BorderType, "thinThickThinLargeGap", "Ok(ThinThickThinLargeGap)");
    parse!(c, BorderType, "wave", "Ok(Wave)");
    parse!(c, BorderType, "doubleWave", "Ok(DoubleWave)");
    parse!(c, BorderType, "dashSmallGap", "Ok(DashSmallGap)");
    parse!(c, BorderType, "dashDotStroked", "Ok(DashDotStroked)");
    parse!(c, BorderType, "threeDEmboss", "Ok(ThreeDEmboss)");
    parse!(c, BorderType, "threeDEngrave", "Ok(ThreeDEngrave)");
    parse!(c, BorderType, "outset", "Ok(Outset)");
    parse!(c, BorderType, "inset", "Ok(Inset)");
    parse!(c, BorderType, "apples", "Ok(Apples)");
    parse!(c, BorderType, "archedScallops", "Ok(ArchedScallops)");
    parse!(c, BorderType, "babyPacifier", "Ok(BabyPacifier)");
    parse!(c, BorderType, "babyRattle", "Ok(BabyRattle)");
    let known: Vec<&str> = vec!["nil", "none", "single", "thick", "double", "dotted", "dashed", "dotDash", "dotDotDash", "triple", "thinThickSmallGap", "thickThinSmallGap", "thinThickThinSmallGap", "thinThickMediumGap", "thickThinMediumGap", "thinThickThinMediumGap", "thinThickLargeGap", "thickThinLargeGap", "thinThickThinLargeGap", "wave", "doubleWave", "dashSmallGap", "dashDotStroked", "threeDEmboss", "threeDEngrave", "outset", "inset", "apples", "archedScallops", "babyPacifier", "babyRattle"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, BorderType, t, "Ok(Single)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, BorderType, j.as_str(), "Ok(Single)"); } } }
    disp!(c, BreakType, Page, "page");
    disp!(c, BreakType, Column, "column");
    disp!(c, BreakType, TextWrapping, "textWrapping");
    disp!(c, BreakType, Unsupported, "unsupported");
    parse!(c, BreakType, "page", "Ok(Page)");
    parse!(c, BreakType, "column", "Ok(Column)");
    parse!(c, BreakType, "textWrapping", "Ok(TextWrapping)");
    let known: Vec<&str> = vec!["page", "column", "textWrapping"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, BreakType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, BreakType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, CharacterSpacingValues, DoNotCompress, "doNotCompress");
    disp!(c, CharacterSpacingValues, CompressPunctuation, "compressPunctuation");
    disp!(c, CharacterSpacingValues, CompressPunctuationAndJapaneseKana, "compressPunctuationAndJapaneseKana");
    disp!(c, CharacterSpacingValues, Unsupported, "unsupported");
    parse!(c, CharacterSpacingValues, "doNotCompress", "Ok(DoNotCompress)");
    parse!(c, CharacterSpacingValues, "compressPunctuation", "Ok(CompressPunctuation)");
    parse!(c, CharacterSpacingValues, "compressPunctuationAndJapaneseKana", "Ok(CompressPunctuationAndJapaneseKana)");
    let known: Vec<&str> = vec!["doNotCompress", "compressPunctuation", "compressPunctuationAndJapaneseKana"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, CharacterSpacingValues, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, CharacterSpacingValues, j.as_str(), "Err"); } } }
    disp!(c, DocGridType, Default, "default");
    disp!(c, DocGridType, Lines, "lines");
    disp!(c, DocGridType, LinesAndChars, "linesAndChars");
    disp!(c, DocGridType, SnapToChars, "snapToChars");
    parse!(c, DocGridType, "default", "Ok(Default)");
    parse!(c, DocGridType, "lines", "Ok(Lines)");
    parse!(c, DocGridType, "linesAndChars", "Ok(LinesAndChars)");
    parse!(c, DocGridType, "snapToChars", "Ok(SnapToChars)");
    let known: Vec<&str> = vec!["default", "lines", "linesAndChars", "snapToChars"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, DocGridType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, DocGridType, j.as_str(), "Err"); } } }
    disp!(c, FieldCharType, Begin, "begin");
    disp!(c, FieldCharType, Separate, "separate");
    disp!(c, FieldCharType, End, "end");
    disp!(c, FieldCharType, Unsupported, "unsupported");
    parse!(c, FieldCharType, "begin", "Ok(Begin)");
    parse!(c, FieldCharType, "separate", "Ok(Separate)");
    parse!(c, FieldCharType, "end", "Ok(End)");
    let known: Vec<&str> = vec!["begin", "separate", "end"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, FieldCharType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, FieldCharType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, FontPitchType, Default, "default");
    disp!(c, FontPitchType, Fixed, "fixed");
    disp!(c, FontPitchType, Variable, "variable");
    disp!(c, HeightRule, Auto, "auto");
    disp!(c, HeightRule, AtLeast, "atLeast");
    disp!(c, HeightRule, Exact, "exact");
    parse!(c, HeightRule, "auto", "Ok(Auto)");
    parse!(c, HeightRule, "atLeast", "Ok(AtLeast)");
    parse!(c, HeightRule, "exact", "Ok(Exact)");
    let known: Vec<&str> = vec!["auto", "atLeast", "exact"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, HeightRule, t, "Ok(AtLeast)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, HeightRule, j.as_str(), "Ok(AtLeast)"); } } }
    disp!(c, HyperlinkType, Anchor, "anchor");
    disp!(c, HyperlinkType, External, "external");
    parse!(c, HyperlinkType, "anchor", "Ok(Anchor)");
    parse!(c, HyperlinkType, "external", "Ok(External)");
    let known: Vec<&str> = vec!["anchor", "external"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, HyperlinkType, t, "Ok(Anchor)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, HyperlinkType, j.as_str(), "Ok(Anchor)"); } } }
    disp!(c, LevelSuffixType, Nothing, "nothing");
    disp!(c, LevelSuffixType, Space, "space");
    disp!(c, LevelSuffixType, Tab, "tab");
    parse!(c, LevelSuffixType, "nothing", "Ok(Nothing)");
    parse!(c, LevelSuffixType, "space", "Ok(Space)");
    parse!(c, LevelSuffixType, "tab", "Ok(Tab)");
    let known: Vec<&str> = vec!["nothing", "space", "tab"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, LevelSuffixType, t, "Ok(Tab)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, LevelSuffixType, j.as_str(), "Ok(Tab)"); } } }
    disp!(c, PageOrientationType, Landscape, "landscape");
    disp!(c, PageOrientationType, Portrait, "portrait");
    parse!(c, PageOrientationType, "landscape", "Ok(Landscape)");
    parse!(c, PageOrientationType, "portrait", "Ok(Portrait)");
    let known: Vec<&str> = vec!["landscape", "portrait"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, PageOrientationType, t, "Ok(Portrait)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, PageOrientationType, j.as_str(), "Ok(Portrait)"); } } }
    disp!(c, PicAlign, Left, "left");
    disp!(c, PicAlign, Right, "right");
    disp!(c, PicAlign, Center, "center");
    disp!(c, PicAlign, Bottom, "bottom");
    disp!(c, PicAlign, Top, "top");
    disp!(c, PositionalTabAlignmentType, Center, "center");
    disp!(c, PositionalTabAlignmentType, Left, "left");
    disp!(c, PositionalTabAlignmentType, Right, "right");
    parse!(c, PositionalTabAlignmentType, "center", "Ok(Center)");
    parse!(c, PositionalTabAlignmentType, "left", "Ok(Left)");
    parse!(c, PositionalTabAlignmentType, "right", "Ok(Right)");
    let known: Vec<&str> = vec!["center", "left", "right"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, PositionalTabAlignmentType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, PositionalTabAlignmentType, j.as_str(), "Err"); } } }
    disp!(c, PositionalTabRelativeTo, Indent, "indent");
    disp!(c, PositionalTabRelativeTo, Margin, "margin");
    parse!(c, PositionalTabRelativeTo, "indent", "Ok(Indent)");
    parse!(c, PositionalTabRelativeTo, "margin", "Ok(Margin)");
    let known: Vec<&str> = vec!["indent", "margin"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, PositionalTabRelativeTo, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, PositionalTabRelativeTo, j.as_str(), "Err"); } } }
    disp!(c, RelativeFromHType, Character, "character");
    disp!(c, RelativeFromHType, Column, "column");
    disp!(c, RelativeFromHType, InsideMargin, "insideMargin");
    disp!(c, RelativeFromHType, LeftMargin, "leftMargin");
    disp!(c, RelativeFromHType, Margin, "margin");
    disp!(c, RelativeFromHType, OutsizeMargin, "outsideMargin");
    disp!(c, RelativeFromHType, Page, "page");
    disp!(c, RelativeFromHType, RightMargin, "rightMargin");
    parse!(c, RelativeFromHType, "character", "Ok(Character)");
    parse!(c, RelativeFromHType, "column", "Ok(Column)");
    parse!(c, RelativeFromHType, "insideMargin", "Ok(InsideMargin)");
    parse!(c, RelativeFromHType, "leftMargin", "Ok(LeftMargin)");
    parse!(c, RelativeFromHType, "margin", "Ok(Margin)");
    parse!(c, RelativeFromHType, "outsideMargin", "Ok(OutsizeMargin)");
    parse!(c, RelativeFromHType, "page", "Ok(Page)");
    parse!(c, RelativeFromHType, "rightMargin", "Ok(RightMargin)");
    disp!(c, RelativeFromVType, BottomMargin, "bottomMargin");
    disp!(c, RelativeFromVType, InsideMargin, "insideMargin");
    disp!(c, RelativeFromVType, Line, "line");
    disp!(c, RelativeFromVType, Margin, "margin");
    disp!(c, RelativeFromVType, OutsizeMargin, "outsideMargin");
    disp!(c, RelativeFromVType, Page, "page");
    disp!(c, RelativeFromVType, Paragraph, "paragraph");
    disp!(c, RelativeFromVType, TopMargin, "topMargin");
    parse!(c, RelativeFromVType, "bottomMargin", "Ok(BottomMargin)");
    parse!(c, RelativeFromVType, "insideMargin", "Ok(InsideMargin)");
    parse!(c, RelativeFromVType, "line", "Ok(Line)");
    parse!(c, RelativeFromVType, "margin", "Ok(Margin)");
    parse!(c, RelativeFromVType, "outsideMargin", "Ok(OutsizeMargin)");
    parse!(c, RelativeFromVType, "page", "Ok(Page)");
    parse!(c, RelativeFromVType, "paragraph", "Ok(Paragraph)");
    parse!(c, RelativeFromVType, "topMargin", "Ok(TopMargin)");
    disp!(c, SectionType, NextPage, "nextPage");
    disp!(c, SectionType, NextColumn, "nextColumn");
    disp!(c, SectionType, Continuous, "continuous");
    disp!(c, SectionType, EvenPage, "evenPage");
    disp!(c, SectionType, OddPage, "oddPage");
    parse!(c, SectionType, "nextPage", "Ok(NextPage)");
    parse!(c, SectionType, "nextColumn", "Ok(NextColumn)");
    parse!(c, SectionType, "continuous", "Ok(Continuous)");
    parse!(c, SectionType, "evenPage", "Ok(EvenPage)");
    parse!(c, SectionType, "oddPage", "Ok(OddPage)");
    let known: Vec<&str> = vec!["nextPage", "nextColumn", "continuous", "evenPage", "oddPage"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, SectionType, t, "Ok(Continuous)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, SectionType, j.as_str(), "Ok(Continuous)"); } } }
    disp!(c, ShdType, Nil, "nil");
    disp!(c, ShdType, Clear, "clear");
    disp!(c, ShdType, Solid, "solid");
    disp!(c, ShdType, HorzStripe, "horzStripe");
    disp!(c, ShdType, VertStripe, "vertStripe");
    disp!(c, ShdType, ReverseDiagStripe, "reverseDiagStripe");
    disp!(c, ShdType, DiagStripe, "diagStripe");
    disp!(c, ShdType, HorzCross, "horzCross");
    disp!(c, ShdType, DiagCross, "diagCross");
    disp!(c, ShdType, ThinHorzStripe, "thinHorzStripe");
    disp!(c, ShdType, ThinVertStripe, "thinVertStripe");
    disp!(c, ShdType, ThinReverseDiagStripe, "thinReverseDiagStripe");
    disp!(c, ShdType, ThinDiagStripe, "thinDiagStripe");
    disp!(c, ShdType, ThinHorzCross, "thinHorzCross");
    disp!(c, ShdType, ThinDiagCross, "thinDiagCross");
    disp!(c, ShdType, Pct5, "pct5");
    disp!(c, ShdType, Pct10, "pct10");
    disp!(c, ShdType, Pct12, "pct12");
    disp!(c, ShdType, Pct15, "pct15");
    disp!(c, ShdType, Pct20, "pct20");
    disp!(c, ShdType, Pct25, "pct25");
    disp!(c, ShdType, Pct30, "pct30");
    disp!(c, ShdType, Pct35, "pct35");
    disp!(c, ShdType, Pct37, "pct37");
    disp!(c, ShdType, Pct40, "pct40");
    disp!(c, ShdType, Pct45, "pct45");
    disp!(c, ShdType, Pct50, "pct50");
    disp!(c, ShdType, Pct55, "pct55");
    disp!(c, ShdType, Pct60, "pct60");
    disp!(c, ShdType, Pct62, "pct62");
    disp!(c, ShdType, Pct65, "pct65");
    disp!(c, ShdType, Pct70, "pct70");
    disp!(c, ShdType, Pct75, "pct75");
    disp!(c, ShdType, Pct80, "pct80");
    disp!(c, ShdType, Pct85, "pct85");
    disp!(c, ShdType, Pct87, "pct87");
    disp!(c, ShdType, Pct90, "pct90");
    disp!(c, ShdType, Pct95, "pct95");
    parse!(c, ShdType, "nil", "Ok(Nil)");
    parse!(c, ShdType, "clear", "Ok(Clear)");
    parse!(c, ShdType, "solid", "Ok(Solid)");
    parse!(c, ShdType, "horzStripe", "Ok(HorzStripe)");
    parse!(c, ShdType, "vertStripe", "Ok(VertStripe)");
    parse!(c, ShdType, "reverseDiagStripe", "Ok(ReverseDiagStripe)");
    parse!(c, ShdType, "diagStripe", "Ok(DiagStripe)");
    parse!(c, ShdType, "horzCross", "Ok(HorzCross)");
    parse!(c, ShdType, "diagCross", "Ok(DiagCross)");
    parse!(c, ShdType, "thinHorzStripe", "Ok(ThinHorzStripe)");
    parse!(c, ShdType, "thinVertStripe", "Ok(ThinVertStripe)");
    parse!(c, ShdType, "thinReverseDiagStripe", "Ok(ThinReverseDiagStripe)");
    parse!(c, ShdType, "thinDiagStripe", "Ok(ThinDiagStripe)");
    parse!(c, ShdType, "thinHorzCross", "Ok(ThinHorzCross)");
    parse!(c, ShdType, "thinDiagCross", "Ok(ThinDiagCross)");
    parse!(c, ShdType, "pct5", "Ok(Pct5)");
    parse!(c, ShdType, "pct10", "Ok(Pct10)");
    parse!(c, ShdType, "pct12", "Ok(Pct12)");
    parse!(c, ShdType, "pct15", "Ok(Pct15)");
    parse!(c, ShdType, "pct20", "Ok(Pct20)");
    parse!(c, ShdType, "pct25", "Ok(Pct25)");
    parse!(c, ShdType, "pct30", "Ok(Pct30)");
    parse!(c, ShdType, "pct35", "Ok(Pct35)");
    parse!(c, ShdType, "pct37", "Ok(Pct37)");
    parse!(c, ShdType, "pct40", "Ok(Pct40)");
    parse!(c, ShdType, "pct45", "Ok(Pct45)");
    parse!(c, ShdType, "pct50", "Ok(Pct50)");
    parse!(c, ShdType, "pct55", "Ok(Pct55)");
    parse!(c, ShdType, "pct60", "Ok(Pct60)");
    parse!(c, ShdType, "pct62", "Ok(Pct62)");
    parse!(c, ShdType, "pct65", "Ok(Pct65)");
    parse!(c, ShdType, "pct70", "Ok(Pct70)");
    parse!(c, ShdType, "pct75", "Ok(Pct75)");
    parse!(c, ShdType, "pct80", "Ok(Pct80)");
    parse!(c, ShdType, "pct85", "Ok(Pct85)");
    parse!(c, ShdType, "pct87", "Ok(Pct87)");
    parse!(c, ShdType, "pct90", "Ok(Pct90)");
    parse!(c, ShdType, "pct95", "Ok(Pct95)");
    let known: Vec<&str> = vec!["nil", "clear", "solid", "horzStripe", "vertStripe", "reverseDiagStripe", "diagStripe", "horzCross", "diagCross", "thinHorzStripe", "thinVertStripe", "thinReverseDiagStripe", "thinDiagStripe", "thinHorzCross", "thinDiagCross", "pct5", "pct10", "pct12", "pct15", "pct20", "pct25", "pct30", "pct35", "pct37", "pct40", "pct45", "pct50", "pct55", "pct60", "pct62", "pct65", "pct70", "pct75", "pct80", "pct85", "pct87", "pct90", "pct95"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, ShdType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, ShdType, j.as_str(), "Err"); } } }
    disp!(c, StyleType, Paragraph, "paragraph");
    disp!(c, StyleType, Character, "character");
    disp!(c, StyleType, Numbering, "numbering");
    disp!(c, StyleType, Table, "table");
    disp!(c, StyleType, Unsupported, "unsupported");
    parse!(c, StyleType, "paragraph", "Ok(Paragraph)");
    parse!(c, StyleType, "character", "Ok(Character)");
    parse!(c, StyleType, "numbering", "Ok(Numbering)");
    parse!(c, StyleType, "table", "Ok(Table)");
    let known: Vec<&str> = vec!["paragraph", "character", "numbering", "table"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, StyleType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, StyleType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, TabLeaderType, Dot, "dot");
    disp!(c, TabLeaderType, Heavy, "heavy");
    disp!(c, TabLeaderType, Hyphen, "hyphen");
    disp!(c, TabLeaderType, MiddleDot, "middleDot");
    disp!(c, TabLeaderType, None, "none");
    disp!(c, TabLeaderType, Underscore, "underscore");
    parse!(c, TabLeaderType, "dot", "Ok(Dot)");
    parse!(c, TabLeaderType, "heavy", "Ok(Heavy)");
    parse!(c, TabLeaderType, "hyphen", "Ok(Hyphen)");
    parse!(c, TabLeaderType, "middleDot", "Ok(MiddleDot)");
    parse!(c, TabLeaderType, "none", "Ok(None)");
    parse!(c, TabLeaderType, "underscore", "Ok(Underscore)");
    let known: Vec<&str> = vec!["dot", "heavy", "hyphen", "middleDot", "none", "underscore"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, TabLeaderType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, TabLeaderType, j.as_str(), "Err"); } } }
    disp!(c, TabValueType, Bar, "bar");
    disp!(c, TabValueType, Center, "center");
    disp!(c, TabValueType, Clear, "clear");
    disp!(c, TabValueType, Decimal, "decimal");
    disp!(c, TabValueType, End, "end");
    disp!(c, TabValueType, Right, "right");
    disp!(c, TabValueType, Num, "num");
    disp!(c, TabValueType, Start, "start");
    disp!(c, TabValueType, Left, "left");
    parse!(c, TabValueType, "bar", "Ok(Bar)");
    parse!(c, TabValueType, "center", "Ok(Center)");
    parse!(c, TabValueType, "clear", "Ok(Clear)");
    parse!(c, TabValueType, "decimal", "Ok(Decimal)");
    parse!(c, TabValueType, "end", "Ok(End)");
    parse!(c, TabValueType, "right", "Ok(Right)");
    parse!(c, TabValueType, "num", "Ok(Num)");
    parse!(c, TabValueType, "start", "Ok(Start)");
    parse!(c, TabValueType, "left", "Ok(Left)");
    let known: Vec<&str> = vec!["bar", "center", "clear", "decimal", "end", "right", "num", "start", "left"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, TabValueType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, TabValueType, j.as_str(), "Err"); } } }
    disp!(c, TableAlignmentType, Center, "center");
    disp!(c, TableAlignmentType, Left, "left");
    disp!(c, TableAlignmentType, Right, "right");
    parse!(c, TableAlignmentType, "center", "Ok(Center)");
    parse!(c, TableAlignmentType, "left", "Ok(Left)");
    parse!(c, TableAlignmentType, "right", "Ok(Right)");
    parse!(c, TableAlignmentType, "start", "Ok(Left)");
    parse!(c, TableAlignmentType, "end", "Ok(Right)");
    disp!(c, TableLayoutType, Fixed, "fixed");
    disp!(c, TableLayoutType, Autofit, "autofit");
    parse!(c, TableLayoutType, "fixed", "Ok(Fixed)");
    parse!(c, TableLayoutType, "autofit", "Ok(Autofit)");
    let known: Vec<&str> = vec!["fixed", "autofit"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, TableLayoutType, t, "Ok(Autofit)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, TableLayoutType, j.as_str(), "Ok(Autofit)"); } } }
    disp!(c, TextAlignmentType, Auto, "auto");
    disp!(c, TextAlignmentType, Baseline, "baseline");
    disp!(c, TextAlignmentType, Bottom, "bottom");
    disp!(c, TextAlignmentType, Center, "center");
    disp!(c, TextAlignmentType, Top, "top");
    parse!(c, TextAlignmentType, "auto", "Ok(Auto)");
    parse!(c, TextAlignmentType, "baseline", "Ok(Baseline)");
    parse!(c, TextAlignmentType, "bottom", "Ok(Bottom)");
    parse!(c, TextAlignmentType, "center", "Ok(Center)");
    parse!(c, TextAlignmentType, "top", "Ok(Top)");
    let known: Vec<&str> = vec!["auto", "baseline", "bottom", "center", "top"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, TextAlignmentType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, TextAlignmentType, j.as_str(), "Err"); } } }
    disp!(c, TextDirectionType, Lr, "lr");
    disp!(c, TextDirectionType, LrV, "lrV");
    disp!(c, TextDirectionType, Rl, "rl");
    disp!(c, TextDirectionType, RlV, "rlV");
    disp!(c, TextDirectionType, Tb, "tb");
    disp!(c, TextDirectionType, TbV, "tbV");
    disp!(c, TextDirectionType, TbRlV, "tbRlV");
    disp!(c, TextDirectionType, TbRl, "tbRl");
    disp!(c, TextDirectionType, BtLr, "btLr");
    disp!(c, TextDirectionType, LrTbV, "lrTbV");
    parse!(c, TextDirectionType, "lr", "Ok(Lr)");
    parse!(c, TextDirectionType, "lrV", "Ok(LrV)");
    parse!(c, TextDirectionType, "rl", "Ok(Rl)");
    parse!(c, TextDirectionType, "rlV", "Ok(RlV)");
    parse!(c, TextDirectionType, "tb", "Ok(Tb)");
    parse!(c, TextDirectionType, "tbV", "Ok(TbV)");
    parse!(c, TextDirectionType, "tbRlV", "Ok(TbRlV)");
    parse!(c, TextDirectionType, "tbRl", "Ok(TbRl)");
    parse!(c, TextDirectionType, "btLr", "Ok(BtLr)");
    parse!(c, TextDirectionType, "lrTbV", "Ok(LrTbV)");
    let known: Vec<&str> = vec!["lr", "lrV", "rl", "rlV", "tb", "tbV", "tbRlV", "tbRl", "btLr", "lrTbV"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, TextDirectionType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, TextDirectionType, j.as_str(), "Err"); } } }
    disp!(c, ThemeColor, Dark1, "dark1");
    disp!(c, ThemeColor, Light1, "light1");
    disp!(c, ThemeColor, Dark2, "dark2");
    disp!(c, ThemeColor, Light2, "light2");
    disp!(c, ThemeColor, Accent1, "accent1");
    disp!(c, ThemeColor, Accent2, "accent2");
    disp!(c, ThemeColor, Accent3, "accent3");
    disp!(c, ThemeColor, Accent4, "accent4");
    disp!(c, ThemeColor, Accent5, "accent5");
    disp!(c, ThemeColor, Accent6, "accent6");
    disp!(c, ThemeColor, Hyperlink, "hyperlink");
    disp!(c, ThemeColor, FollowedHyperlink, "followedHyperlink");
    disp!(c, ThemeColor, None, "none");
    disp!(c, ThemeColor, Background1, "background1");
    disp!(c, ThemeColor, Text1, "text1");
    disp!(c, ThemeColor, Background2, "background2");
    disp!(c, ThemeColor, Text2, "text2");
    disp!(c, ThemeColor, Unsupported, "unsupported");
    parse!(c, ThemeColor, "dark1", "Ok(Dark1)");
    parse!(c, ThemeColor, "light1", "Ok(Light1)");
    parse!(c, ThemeColor, "dark2", "Ok(Dark2)");
    parse!(c, ThemeColor, "light2", "Ok(Light2)");
    parse!(c, ThemeColor, "accent1", "Ok(Accent1)");
    parse!(c, ThemeColor, "accent2", "Ok(Accent2)");
    parse!(c, ThemeColor, "accent3", "Ok(Accent3)");
    parse!(c, ThemeColor, "accent4", "Ok(Accent4)");
    parse!(c, ThemeColor, "accent5", "Ok(Accent5)");
    parse!(c, ThemeColor, "accent6", "Ok(Accent6)");
    parse!(c, ThemeColor, "hyperlink", "Ok(Hyperlink)");
    parse!(c, ThemeColor, "followedHyperlink", "Ok(FollowedHyperlink)");
    parse!(c, ThemeColor, "none", "Ok(None)");
    parse!(c, ThemeColor, "background1", "Ok(Background1)");
    parse!(c, ThemeColor, "text1", "Ok(Text1)");
    parse!(c, ThemeColor, "background2", "Ok(Background2)");
    parse!(c, ThemeColor, "text2", "Ok(Text2)");
    let known: Vec<&str> = vec!["dark1", "light1", "dark2", "light2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hyperlink", "followedHyperlink", "none", "background1", "text1", "background2", "text2"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, ThemeColor, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, ThemeColor, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, VAlignType, Top, "top");
    disp!(c, VAlignType, Center, "center");
    disp!(c, VAlignType, Bottom, "bottom");
    disp!(c, VAlignType, Unsupported, "unsupported");
    parse!(c, VAlignType, "top", "Ok(Top)");
    parse!(c, VAlignType, "center", "Ok(Center)");
    parse!(c, VAlignType, "bottom", "Ok(Bottom)");
    let known: Vec<&str> = vec!["top", "center", "bottom"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, VAlignType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, VAlignType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, VMergeType, Continue, "continue");
    disp!(c, VMergeType, Restart, "restart");
    disp!(c, VMergeType, Unsupported, "unsupported");
    parse!(c, VMergeType, "continue", "Ok(Continue)");
    parse!(c, VMergeType, "restart", "Ok(Restart)");
    let known: Vec<&str> = vec!["continue", "restart"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, VMergeType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, VMergeType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, VertAlignType, Baseline, "baseline");
    disp!(c, VertAlignType, SuperScript, "superscript");
    disp!(c, VertAlignType, SubScript, "subscript");
    disp!(c, VertAlignType, Unsupported, "unsupported");
    parse!(c, VertAlignType, "baseline", "Ok(Baseline)");
    parse!(c, VertAlignType, "superscript", "Ok(SuperScript)");
    parse!(c, VertAlignType, "subscript", "Ok(SubScript)");
    let known: Vec<&str> = vec!["baseline", "superscript", "subscript"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, VertAlignType, t, "Ok(Unsupported)"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, VertAlignType, j.as_str(), "Ok(Unsupported)"); } } }
    disp!(c, WidthType, Dxa, "dxa");
    disp!(c, WidthType, Auto, "auto");
    disp!(c, WidthType, Pct, "pct");
    disp!(c, WidthType, Nil, "nil");
    disp!(c, WidthType, Unsupported, "unsupported");
    parse!(c, WidthType, "dxa", "Ok(Dxa)");
    parse!(c, WidthType, "auto", "Ok(Auto)");
    parse!(c, WidthType, "pct", "Ok(Pct)");
    parse!(c, WidthType, "nil", "Ok(Nil)");
    parse!(c, WidthType, "DXA", "Ok(Dxa)");
    parse!(c, WidthType, "Auto", "Ok(Auto)");
    parse!(c, WidthType, "Pct", "Ok(Pct)");
    parse!(c, WidthType, "Nil", "Ok(Nil)");
    parse!(c, LineSpacingType, "auto", "Ok(Auto)");
    parse!(c, LineSpacingType, "atLeast", "Ok(AtLeast)");
    parse!(c, LineSpacingType, "exact", "Ok(Exact)");
    let known: Vec<&str> = vec!["auto", "atLeast", "exact"];
    for t in all.iter().chain(JUNK.iter()) { if !known.contains(t) { parse!(c, LineSpacingType, t, "Err"); } }
    for t in &known { for j in [t.to_uppercase(), format!("{t} "), format!("x{t}"), t[1..].to_string()] { if !known.contains(&j.as_str()) { parse!(c, LineSpacingType, j.as_str(), "Err"); } } }
}
