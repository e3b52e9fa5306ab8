//@include prelude.rs
verus! {
broadcast use ax::str_ext;
//@enum AlignmentType
pub open spec fn tok_AlignmentType(v: AlignmentType) -> Seq<char> { match v {
    AlignmentType::Both => "both"@,
    AlignmentType::Center => "center"@,
    AlignmentType::Distribute => "distribute"@,
    AlignmentType::Start => "start"@,
    AlignmentType::End => "end"@,
    AlignmentType::Left => "left"@,
    AlignmentType::Right => "right"@,
    AlignmentType::Justified => "justified"@,
} }
//@fn <AlignmentType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_AlignmentType(*self),
//@at start
//@|  proof { reveal_strlit("both"); reveal_strlit("center"); reveal_strlit("distribute"); reveal_strlit("start"); reveal_strlit("end"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("justified"); }
//@end
//@fn <AlignmentType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_AlignmentType(AlignmentType::Both) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Both),
//@|    s@ == tok_AlignmentType(AlignmentType::Center) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Center),
//@|    s@ == tok_AlignmentType(AlignmentType::Distribute) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Distribute),
//@|    s@ == tok_AlignmentType(AlignmentType::Start) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Start),
//@|    s@ == tok_AlignmentType(AlignmentType::End) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::End),
//@|    s@ == tok_AlignmentType(AlignmentType::Left) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Left),
//@|    s@ == tok_AlignmentType(AlignmentType::Right) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Right),
//@|    s@ == tok_AlignmentType(AlignmentType::Justified) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Justified),
//@|    (s@ != tok_AlignmentType(AlignmentType::Both) && s@ != tok_AlignmentType(AlignmentType::Center) && s@ != tok_AlignmentType(AlignmentType::Distribute) && s@ != tok_AlignmentType(AlignmentType::Start) && s@ != tok_AlignmentType(AlignmentType::End) && s@ != tok_AlignmentType(AlignmentType::Left) && s@ != tok_AlignmentType(AlignmentType::Right) && s@ != tok_AlignmentType(AlignmentType::Justified)) ==> r == Ok::<AlignmentType, TypeError>(AlignmentType::Left),
//@at start
//@|  proof { reveal_strlit("both"); reveal_strlit("center"); reveal_strlit("distribute"); reveal_strlit("start"); reveal_strlit("end"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("justified");  }
//@end
pub proof fn inj_AlignmentType(a: AlignmentType, b: AlignmentType)
    requires tok_AlignmentType(a) == tok_AlignmentType(b), 
    ensures a == b
{ reveal_strlit("both"); reveal_strlit("center"); reveal_strlit("distribute"); reveal_strlit("start"); reveal_strlit("end"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("justified"); assert(tok_AlignmentType(a).len() == tok_AlignmentType(b).len()); assert forall |i: int| 0 <= i < tok_AlignmentType(a).len() implies tok_AlignmentType(a)[i] == tok_AlignmentType(b)[i] by {} }
//@enum BorderType
pub open spec fn tok_BorderType(v: BorderType) -> Seq<char> { match v {
    BorderType::Nil => "nil"@,
    BorderType::None => "none"@,
    BorderType::Single => "single"@,
    BorderType::Thick => "thick"@,
    BorderType::Double => "double"@,
    BorderType::Dotted => "dotted"@,
    BorderType::Dashed => "dashed"@,
    BorderType::DotDash => "dotDash"@,
    BorderType::DotDotDash => "dotDotDash"@,
    BorderType::Triple => "triple"@,
    BorderType::ThinThickSmallGap => "thinThickSmallGap"@,
    BorderType::ThickThinSmallGap => "thickThinSmallGap"@,
    BorderType::ThinThickThinSmallGap => "thinThickThinSmallGap"@,
    BorderType::ThinThickMediumGap => "thinThickMediumGap"@,
    BorderType::ThickThinMediumGap => "thickThinMediumGap"@,
    BorderType::ThinThickThinMediumGap => "thinThickThinMediumGap"@,
    BorderType::ThinThickLargeGap => "thinThickLargeGap"@,
    BorderType::ThickThinLargeGap => "thickThinLargeGap"@,
    BorderType::ThinThickThinLargeGap => "thinThickThinLargeGap"@,
    BorderType::Wave => "wave"@,
    BorderType::DoubleWave => "doubleWave"@,
    BorderType::DashSmallGap => "dashSmallGap"@,
    BorderType::DashDotStroked => "dashDotStroked"@,
    BorderType::ThreeDEmboss => "threeDEmboss"@,
    BorderType::ThreeDEngrave => "threeDEngrave"@,
    BorderType::Outset => "outset"@,
    BorderType::Inset => "inset"@,
    BorderType::Apples => "apples"@,
    BorderType::ArchedScallops => "archedScallops"@,
    BorderType::BabyPacifier => "babyPacifier"@,
    BorderType::BabyRattle => "babyRattle"@,
} }
//@fn <BorderType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_BorderType(*self),
//@at start
//@|  proof { reveal_strlit("nil"); reveal_strlit("none"); reveal_strlit("single"); reveal_strlit("thick"); reveal_strlit("double"); reveal_strlit("dotted"); reveal_strlit("dashed"); reveal_strlit("dotDash"); reveal_strlit("dotDotDash"); reveal_strlit("triple"); reveal_strlit("thinThickSmallGap"); reveal_strlit("thickThinSmallGap"); reveal_strlit("thinThickThinSmallGap"); reveal_strlit("thinThickMediumGap"); reveal_strlit("thickThinMediumGap"); reveal_strlit("thinThickThinMediumGap"); reveal_strlit("thinThickLargeGap"); reveal_strlit("thickThinLargeGap"); reveal_strlit("thinThickThinLargeGap"); reveal_strlit("wave"); reveal_strlit("doubleWave"); reveal_strlit("dashSmallGap"); reveal_strlit("dashDotStroked"); reveal_strlit("threeDEmboss"); reveal_strlit("threeDEngrave"); reveal_strlit("outset"); reveal_strlit("inset"); reveal_strlit("apples"); reveal_strlit("archedScallops"); reveal_strlit("babyPacifier"); reveal_strlit("babyRattle"); }
//@end
//@fn <BorderType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_BorderType(BorderType::Nil) ==> r == Ok::<BorderType, TypeError>(BorderType::Nil),
//@|    s@ == tok_BorderType(BorderType::None) ==> r == Ok::<BorderType, TypeError>(BorderType::None),
//@|    s@ == tok_BorderType(BorderType::Single) ==> r == Ok::<BorderType, TypeError>(BorderType::Single),
//@|    s@ == tok_BorderType(BorderType::Thick) ==> r == Ok::<BorderType, TypeError>(BorderType::Thick),
//@|    s@ == tok_BorderType(BorderType::Double) ==> r == Ok::<BorderType, TypeError>(BorderType::Double),
//@|    s@ == tok_BorderType(BorderType::Dotted) ==> r == Ok::<BorderType, TypeError>(BorderType::Dotted),
//@|    s@ == tok_BorderType(BorderType::Dashed) ==> r == Ok::<BorderType, TypeError>(BorderType::Dashed),
//@|    s@ == tok_BorderType(BorderType::DotDash) ==> r == Ok::<BorderType, TypeError>(BorderType::DotDash),
//@|    s@ == tok_BorderType(BorderType::DotDotDash) ==> r == Ok::<BorderType, TypeError>(BorderType::DotDotDash),
//@|    s@ == tok_BorderType(BorderType::Triple) ==> r == Ok::<BorderType, TypeError>(BorderType::Triple),
//@|    s@ == tok_BorderType(BorderType::ThinThickSmallGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickSmallGap),
//@|    s@ == tok_BorderType(BorderType::ThickThinSmallGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThickThinSmallGap),
//@|    s@ == tok_BorderType(BorderType::ThinThickThinSmallGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickThinSmallGap),
//@|    s@ == tok_BorderType(BorderType::ThinThickMediumGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickMediumGap),
//@|    s@ == tok_BorderType(BorderType::ThickThinMediumGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThickThinMediumGap),
//@|    s@ == tok_BorderType(BorderType::ThinThickThinMediumGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickThinMediumGap),
//@|    s@ == tok_BorderType(BorderType::ThinThickLargeGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickLargeGap),
//@|    s@ == tok_BorderType(BorderType::ThickThinLargeGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThickThinLargeGap),
//@|    s@ == tok_BorderType(BorderType::ThinThickThinLargeGap) ==> r == Ok::<BorderType, TypeError>(BorderType::ThinThickThinLargeGap),
//@|    s@ == tok_BorderType(BorderType::Wave) ==> r == Ok::<BorderType, TypeError>(BorderType::Wave),
//@|    s@ == tok_BorderType(BorderType::DoubleWave) ==> r == Ok::<BorderType, TypeError>(BorderType::DoubleWave),
//@|    s@ == tok_BorderType(BorderType::DashSmallGap) ==> r == Ok::<BorderType, TypeError>(BorderType::DashSmallGap),
//@|    s@ == tok_BorderType(BorderType::DashDotStroked) ==> r == Ok::<BorderType, TypeError>(BorderType::DashDotStroked),
//@|    s@ == tok_BorderType(BorderType::ThreeDEmboss) ==> r == Ok::<BorderType, TypeError>(BorderType::ThreeDEmboss),
//@|    s@ == tok_BorderType(BorderType::ThreeDEngrave) ==> r == Ok::<BorderType, TypeError>(BorderType::ThreeDEngrave),
//@|    s@ == tok_BorderType(BorderType::Outset) ==> r == Ok::<BorderType, TypeError>(BorderType::Outset),
//@|    s@ == tok_BorderType(BorderType::Inset) ==> r == Ok::<BorderType, TypeError>(BorderType::Inset),
//@|    s@ == tok_BorderType(BorderType::Apples) ==> r == Ok::<BorderType, TypeError>(BorderType::Apples),
//@|    s@ == tok_BorderType(BorderType::ArchedScallops) ==> r == Ok::<BorderType, TypeError>(BorderType::ArchedScallops),
//@|    s@ == tok_BorderType(BorderType::BabyPacifier) ==> r == Ok::<BorderType, TypeError>(BorderType::BabyPacifier),
//@|    s@ == tok_BorderType(BorderType::BabyRattle) ==> r == Ok::<BorderType, TypeError>(BorderType::BabyRattle),
//@|    (s@ != tok_BorderType(BorderType::Nil) && s@ != tok_BorderType(BorderType::None) && s@ != tok_BorderType(BorderType::Single) && s@ != tok_BorderType(BorderType::Thick) && s@ != tok_BorderType(BorderType::Double) && s@ != tok_BorderType(BorderType::Dotted) && s@ != tok_BorderType(BorderType::Dashed) && s@ != tok_BorderType(BorderType::DotDash) && s@ != tok_BorderType(BorderType::DotDotDash) && s@ != tok_BorderType(BorderType::Triple) && s@ != tok_BorderType(BorderType::ThinThickSmallGap) && s@ != tok_BorderType(BorderType::ThickThinSmallGap) && s@ != tok_BorderType(BorderType::ThinThickThinSmallGap) && s@ != tok_BorderType(BorderType::ThinThickMediumGap) && s@ != tok_BorderType(BorderType::ThickThinMediumGap) && s@ != tok_BorderType(BorderType::ThinThickThinMediumGap) && s@ != tok_BorderType(BorderType::ThinThickLargeGap) && s@ != tok_BorderType(BorderType::ThickThinLargeGap) && s@ != tok_BorderType(BorderType::ThinThickThinLargeGap) && s@ != tok_BorderType(BorderType::Wave) && s@ != tok_BorderType(BorderType::DoubleWave) && s@ != tok_BorderType(BorderType::DashSmallGap) && s@ != tok_BorderType(BorderType::DashDotStroked) && s@ != tok_BorderType(BorderType::ThreeDEmboss) && s@ != tok_BorderType(BorderType::ThreeDEngrave) && s@ != tok_BorderType(BorderType::Outset) && s@ != tok_BorderType(BorderType::Inset) && s@ != tok_BorderType(BorderType::Apples) && s@ != tok_BorderType(BorderType::ArchedScallops) && s@ != tok_BorderType(BorderType::BabyPacifier) && s@ != tok_BorderType(BorderType::BabyRattle)) ==> r == Ok::<BorderType, TypeError>(BorderType::Single),
//@at start
//@|  proof { reveal_strlit("nil"); reveal_strlit("none"); reveal_strlit("single"); reveal_strlit("thick"); reveal_strlit("double"); reveal_strlit("dotted"); reveal_strlit("dashed"); reveal_strlit("dotDash"); reveal_strlit("dotDotDash"); reveal_strlit("triple"); reveal_strlit("thinThickSmallGap"); reveal_strlit("thickThinSmallGap"); reveal_strlit("thinThickThinSmallGap"); reveal_strlit("thinThickMediumGap"); reveal_strlit("thickThinMediumGap"); reveal_strlit("thinThickThinMediumGap"); reveal_strlit("thinThickLargeGap"); reveal_strlit("thickThinLargeGap"); reveal_strlit("thinThickThinLargeGap"); reveal_strlit("wave"); reveal_strlit("doubleWave"); reveal_strlit("dashSmallGap"); reveal_strlit("dashDotStroked"); reveal_strlit("threeDEmboss"); reveal_strlit("threeDEngrave"); reveal_strlit("outset"); reveal_strlit("inset"); reveal_strlit("apples"); reveal_strlit("archedScallops"); reveal_strlit("babyPacifier"); reveal_strlit("babyRattle");  }
//@end
pub proof fn inj_BorderType(a: BorderType, b: BorderType)
    requires tok_BorderType(a) == tok_BorderType(b), 
    ensures a == b
{ reveal_strlit("nil"); reveal_strlit("none"); reveal_strlit("single"); reveal_strlit("thick"); reveal_strlit("double"); reveal_strlit("dotted"); reveal_strlit("dashed"); reveal_strlit("dotDash"); reveal_strlit("dotDotDash"); reveal_strlit("triple"); reveal_strlit("thinThickSmallGap"); reveal_strlit("thickThinSmallGap"); reveal_strlit("thinThickThinSmallGap"); reveal_strlit("thinThickMediumGap"); reveal_strlit("thickThinMediumGap"); reveal_strlit("thinThickThinMediumGap"); reveal_strlit("thinThickLargeGap"); reveal_strlit("thickThinLargeGap"); reveal_strlit("thinThickThinLargeGap"); reveal_strlit("wave"); reveal_strlit("doubleWave"); reveal_strlit("dashSmallGap"); reveal_strlit("dashDotStroked"); reveal_strlit("threeDEmboss"); reveal_strlit("threeDEngrave"); reveal_strlit("outset"); reveal_strlit("inset"); reveal_strlit("apples"); reveal_strlit("archedScallops"); reveal_strlit("babyPacifier"); reveal_strlit("babyRattle"); assert(tok_BorderType(a).len() == tok_BorderType(b).len()); assert forall |i: int| 0 <= i < tok_BorderType(a).len() implies tok_BorderType(a)[i] == tok_BorderType(b)[i] by {} }
//@enum BreakType
pub open spec fn tok_BreakType(v: BreakType) -> Seq<char> { match v {
    BreakType::Page => "page"@,
    BreakType::Column => "column"@,
    BreakType::TextWrapping => "textWrapping"@,
    BreakType::Unsupported => "unsupported"@,
} }
//@fn <BreakType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_BreakType(*self),
//@at start
//@|  proof { reveal_strlit("page"); reveal_strlit("column"); reveal_strlit("textWrapping"); reveal_strlit("unsupported"); }
//@end
//@fn <BreakType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_BreakType(BreakType::Page) ==> r == Ok::<BreakType, TypeError>(BreakType::Page),
//@|    s@ == tok_BreakType(BreakType::Column) ==> r == Ok::<BreakType, TypeError>(BreakType::Column),
//@|    s@ == tok_BreakType(BreakType::TextWrapping) ==> r == Ok::<BreakType, TypeError>(BreakType::TextWrapping),
//@|    (s@ != tok_BreakType(BreakType::Page) && s@ != tok_BreakType(BreakType::Column) && s@ != tok_BreakType(BreakType::TextWrapping)) ==> r == Ok::<BreakType, TypeError>(BreakType::Unsupported),
//@at start
//@|  proof { reveal_strlit("page"); reveal_strlit("column"); reveal_strlit("textWrapping"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_BreakType(a: BreakType, b: BreakType)
    requires tok_BreakType(a) == tok_BreakType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("page"); reveal_strlit("column"); reveal_strlit("textWrapping"); reveal_strlit("unsupported"); assert(tok_BreakType(a).len() == tok_BreakType(b).len()); assert forall |i: int| 0 <= i < tok_BreakType(a).len() implies tok_BreakType(a)[i] == tok_BreakType(b)[i] by {} }
//@enum CharacterSpacingValues
pub open spec fn tok_CharacterSpacingValues(v: CharacterSpacingValues) -> Seq<char> { match v {
    CharacterSpacingValues::DoNotCompress => "doNotCompress"@,
    CharacterSpacingValues::CompressPunctuation => "compressPunctuation"@,
    CharacterSpacingValues::CompressPunctuationAndJapaneseKana => "compressPunctuationAndJapaneseKana"@,
    CharacterSpacingValues::Unsupported => "unsupported"@,
} }
//@fn <CharacterSpacingValues as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_CharacterSpacingValues(*self),
//@at start
//@|  proof { reveal_strlit("doNotCompress"); reveal_strlit("compressPunctuation"); reveal_strlit("compressPunctuationAndJapaneseKana"); reveal_strlit("unsupported"); }
//@end
//@fn <CharacterSpacingValues as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_CharacterSpacingValues(CharacterSpacingValues::DoNotCompress) ==> r == Ok::<CharacterSpacingValues, TypeError>(CharacterSpacingValues::DoNotCompress),
//@|    s@ == tok_CharacterSpacingValues(CharacterSpacingValues::CompressPunctuation) ==> r == Ok::<CharacterSpacingValues, TypeError>(CharacterSpacingValues::CompressPunctuation),
//@|    s@ == tok_CharacterSpacingValues(CharacterSpacingValues::CompressPunctuationAndJapaneseKana) ==> r == Ok::<CharacterSpacingValues, TypeError>(CharacterSpacingValues::CompressPunctuationAndJapaneseKana),
//@|    (s@ != tok_CharacterSpacingValues(CharacterSpacingValues::DoNotCompress) && s@ != tok_CharacterSpacingValues(CharacterSpacingValues::CompressPunctuation) && s@ != tok_CharacterSpacingValues(CharacterSpacingValues::CompressPunctuationAndJapaneseKana)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("doNotCompress"); reveal_strlit("compressPunctuation"); reveal_strlit("compressPunctuationAndJapaneseKana"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_CharacterSpacingValues(a: CharacterSpacingValues, b: CharacterSpacingValues)
    requires tok_CharacterSpacingValues(a) == tok_CharacterSpacingValues(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("doNotCompress"); reveal_strlit("compressPunctuation"); reveal_strlit("compressPunctuationAndJapaneseKana"); reveal_strlit("unsupported"); assert(tok_CharacterSpacingValues(a).len() == tok_CharacterSpacingValues(b).len()); assert forall |i: int| 0 <= i < tok_CharacterSpacingValues(a).len() implies tok_CharacterSpacingValues(a)[i] == tok_CharacterSpacingValues(b)[i] by {} }
//@enum DocGridType
pub open spec fn tok_DocGridType(v: DocGridType) -> Seq<char> { match v {
    DocGridType::Default => "default"@,
    DocGridType::Lines => "lines"@,
    DocGridType::LinesAndChars => "linesAndChars"@,
    DocGridType::SnapToChars => "snapToChars"@,
} }
//@fn <DocGridType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_DocGridType(*self),
//@at start
//@|  proof { reveal_strlit("default"); reveal_strlit("lines"); reveal_strlit("linesAndChars"); reveal_strlit("snapToChars"); }
//@end
//@fn <DocGridType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_DocGridType(DocGridType::Default) ==> r == Ok::<DocGridType, TypeError>(DocGridType::Default),
//@|    s@ == tok_DocGridType(DocGridType::Lines) ==> r == Ok::<DocGridType, TypeError>(DocGridType::Lines),
//@|    s@ == tok_DocGridType(DocGridType::LinesAndChars) ==> r == Ok::<DocGridType, TypeError>(DocGridType::LinesAndChars),
//@|    s@ == tok_DocGridType(DocGridType::SnapToChars) ==> r == Ok::<DocGridType, TypeError>(DocGridType::SnapToChars),
//@|    (s@ != tok_DocGridType(DocGridType::Default) && s@ != tok_DocGridType(DocGridType::Lines) && s@ != tok_DocGridType(DocGridType::LinesAndChars) && s@ != tok_DocGridType(DocGridType::SnapToChars)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("default"); reveal_strlit("lines"); reveal_strlit("linesAndChars"); reveal_strlit("snapToChars");  }
//@end
pub proof fn inj_DocGridType(a: DocGridType, b: DocGridType)
    requires tok_DocGridType(a) == tok_DocGridType(b), 
    ensures a == b
{ reveal_strlit("default"); reveal_strlit("lines"); reveal_strlit("linesAndChars"); reveal_strlit("snapToChars"); assert(tok_DocGridType(a).len() == tok_DocGridType(b).len()); assert forall |i: int| 0 <= i < tok_DocGridType(a).len() implies tok_DocGridType(a)[i] == tok_DocGridType(b)[i] by {} }
//@enum FieldCharType
pub open spec fn tok_FieldCharType(v: FieldCharType) -> Seq<char> { match v {
    FieldCharType::Begin => "begin"@,
    FieldCharType::Separate => "separate"@,
    FieldCharType::End => "end"@,
    FieldCharType::Unsupported => "unsupported"@,
} }
//@fn <FieldCharType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_FieldCharType(*self),
//@at start
//@|  proof { reveal_strlit("begin"); reveal_strlit("separate"); reveal_strlit("end"); reveal_strlit("unsupported"); }
//@end
//@fn <FieldCharType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_FieldCharType(FieldCharType::Begin) ==> r == Ok::<FieldCharType, TypeError>(FieldCharType::Begin),
//@|    s@ == tok_FieldCharType(FieldCharType::Separate) ==> r == Ok::<FieldCharType, TypeError>(FieldCharType::Separate),
//@|    s@ == tok_FieldCharType(FieldCharType::End) ==> r == Ok::<FieldCharType, TypeError>(FieldCharType::End),
//@|    (s@ != tok_FieldCharType(FieldCharType::Begin) && s@ != tok_FieldCharType(FieldCharType::Separate) && s@ != tok_FieldCharType(FieldCharType::End)) ==> r == Ok::<FieldCharType, TypeError>(FieldCharType::Unsupported),
//@at start
//@|  proof { reveal_strlit("begin"); reveal_strlit("separate"); reveal_strlit("end"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_FieldCharType(a: FieldCharType, b: FieldCharType)
    requires tok_FieldCharType(a) == tok_FieldCharType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("begin"); reveal_strlit("separate"); reveal_strlit("end"); reveal_strlit("unsupported"); assert(tok_FieldCharType(a).len() == tok_FieldCharType(b).len()); assert forall |i: int| 0 <= i < tok_FieldCharType(a).len() implies tok_FieldCharType(a)[i] == tok_FieldCharType(b)[i] by {} }
//@enum FontPitchType
pub open spec fn tok_FontPitchType(v: FontPitchType) -> Seq<char> { match v {
    FontPitchType::Default => "default"@,
    FontPitchType::Fixed => "fixed"@,
    FontPitchType::Variable => "variable"@,
} }
//@fn <FontPitchType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_FontPitchType(*self),
//@at start
//@|  proof { reveal_strlit("default"); reveal_strlit("fixed"); reveal_strlit("variable"); }
//@end
//@enum HeightRule
pub open spec fn tok_HeightRule(v: HeightRule) -> Seq<char> { match v {
    HeightRule::Auto => "auto"@,
    HeightRule::AtLeast => "atLeast"@,
    HeightRule::Exact => "exact"@,
} }
//@fn <HeightRule as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_HeightRule(*self),
//@at start
//@|  proof { reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact"); }
//@end
//@fn <HeightRule as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_HeightRule(HeightRule::Auto) ==> r == Ok::<HeightRule, TypeError>(HeightRule::Auto),
//@|    s@ == tok_HeightRule(HeightRule::AtLeast) ==> r == Ok::<HeightRule, TypeError>(HeightRule::AtLeast),
//@|    s@ == tok_HeightRule(HeightRule::Exact) ==> r == Ok::<HeightRule, TypeError>(HeightRule::Exact),
//@|    (s@ != tok_HeightRule(HeightRule::Auto) && s@ != tok_HeightRule(HeightRule::AtLeast) && s@ != tok_HeightRule(HeightRule::Exact)) ==> r == Ok::<HeightRule, TypeError>(HeightRule::AtLeast),
//@at start
//@|  proof { reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact");  }
//@end
pub proof fn inj_HeightRule(a: HeightRule, b: HeightRule)
    requires tok_HeightRule(a) == tok_HeightRule(b), 
    ensures a == b
{ reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact"); assert(tok_HeightRule(a).len() == tok_HeightRule(b).len()); assert forall |i: int| 0 <= i < tok_HeightRule(a).len() implies tok_HeightRule(a)[i] == tok_HeightRule(b)[i] by {} }
//@enum HyperlinkType
pub open spec fn tok_HyperlinkType(v: HyperlinkType) -> Seq<char> { match v {
    HyperlinkType::Anchor => "anchor"@,
    HyperlinkType::External => "external"@,
} }
//@fn <HyperlinkType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_HyperlinkType(*self),
//@at start
//@|  proof { reveal_strlit("anchor"); reveal_strlit("external"); }
//@end
//@fn <HyperlinkType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_HyperlinkType(HyperlinkType::Anchor) ==> r == Ok::<HyperlinkType, TypeError>(HyperlinkType::Anchor),
//@|    s@ == tok_HyperlinkType(HyperlinkType::External) ==> r == Ok::<HyperlinkType, TypeError>(HyperlinkType::External),
//@|    (s@ != tok_HyperlinkType(HyperlinkType::Anchor) && s@ != tok_HyperlinkType(HyperlinkType::External)) ==> r == Ok::<HyperlinkType, TypeError>(HyperlinkType::Anchor),
//@at start
//@|  proof { reveal_strlit("anchor"); reveal_strlit("external");  }
//@end
pub proof fn inj_HyperlinkType(a: HyperlinkType, b: HyperlinkType)
    requires tok_HyperlinkType(a) == tok_HyperlinkType(b), 
    ensures a == b
{ reveal_strlit("anchor"); reveal_strlit("external"); assert(tok_HyperlinkType(a).len() == tok_HyperlinkType(b).len()); assert forall |i: int| 0 <= i < tok_HyperlinkType(a).len() implies tok_HyperlinkType(a)[i] == tok_HyperlinkType(b)[i] by {} }
//@enum LevelSuffixType
pub open spec fn tok_LevelSuffixType(v: LevelSuffixType) -> Seq<char> { match v {
    LevelSuffixType::Nothing => "nothing"@,
    LevelSuffixType::Space => "space"@,
    LevelSuffixType::Tab => "tab"@,
} }
//@fn <LevelSuffixType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_LevelSuffixType(*self),
//@at start
//@|  proof { reveal_strlit("nothing"); reveal_strlit("space"); reveal_strlit("tab"); }
//@end
//@fn <LevelSuffixType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_LevelSuffixType(LevelSuffixType::Nothing) ==> r == Ok::<LevelSuffixType, TypeError>(LevelSuffixType::Nothing),
//@|    s@ == tok_LevelSuffixType(LevelSuffixType::Space) ==> r == Ok::<LevelSuffixType, TypeError>(LevelSuffixType::Space),
//@|    s@ == tok_LevelSuffixType(LevelSuffixType::Tab) ==> r == Ok::<LevelSuffixType, TypeError>(LevelSuffixType::Tab),
//@|    (s@ != tok_LevelSuffixType(LevelSuffixType::Nothing) && s@ != tok_LevelSuffixType(LevelSuffixType::Space) && s@ != tok_LevelSuffixType(LevelSuffixType::Tab)) ==> r == Ok::<LevelSuffixType, TypeError>(LevelSuffixType::Tab),
//@at start
//@|  proof { reveal_strlit("nothing"); reveal_strlit("space"); reveal_strlit("tab");  }
//@end
pub proof fn inj_LevelSuffixType(a: LevelSuffixType, b: LevelSuffixType)
    requires tok_LevelSuffixType(a) == tok_LevelSuffixType(b), 
    ensures a == b
{ reveal_strlit("nothing"); reveal_strlit("space"); reveal_strlit("tab"); assert(tok_LevelSuffixType(a).len() == tok_LevelSuffixType(b).len()); assert forall |i: int| 0 <= i < tok_LevelSuffixType(a).len() implies tok_LevelSuffixType(a)[i] == tok_LevelSuffixType(b)[i] by {} }
//@enum PageOrientationType
pub open spec fn tok_PageOrientationType(v: PageOrientationType) -> Seq<char> { match v {
    PageOrientationType::Landscape => "landscape"@,
    PageOrientationType::Portrait => "portrait"@,
} }
//@fn <PageOrientationType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_PageOrientationType(*self),
//@at start
//@|  proof { reveal_strlit("landscape"); reveal_strlit("portrait"); }
//@end
//@fn <PageOrientationType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_PageOrientationType(PageOrientationType::Landscape) ==> r == Ok::<PageOrientationType, TypeError>(PageOrientationType::Landscape),
//@|    s@ == tok_PageOrientationType(PageOrientationType::Portrait) ==> r == Ok::<PageOrientationType, TypeError>(PageOrientationType::Portrait),
//@|    (s@ != tok_PageOrientationType(PageOrientationType::Landscape) && s@ != tok_PageOrientationType(PageOrientationType::Portrait)) ==> r == Ok::<PageOrientationType, TypeError>(PageOrientationType::Portrait),
//@at start
//@|  proof { reveal_strlit("landscape"); reveal_strlit("portrait");  }
//@end
pub proof fn inj_PageOrientationType(a: PageOrientationType, b: PageOrientationType)
    requires tok_PageOrientationType(a) == tok_PageOrientationType(b), 
    ensures a == b
{ reveal_strlit("landscape"); reveal_strlit("portrait"); assert(tok_PageOrientationType(a).len() == tok_PageOrientationType(b).len()); assert forall |i: int| 0 <= i < tok_PageOrientationType(a).len() implies tok_PageOrientationType(a)[i] == tok_PageOrientationType(b)[i] by {} }
//@enum PicAlign
pub open spec fn tok_PicAlign(v: PicAlign) -> Seq<char> { match v {
    PicAlign::Left => "left"@,
    PicAlign::Right => "right"@,
    PicAlign::Center => "center"@,
    PicAlign::Bottom => "bottom"@,
    PicAlign::Top => "top"@,
} }
//@fn <PicAlign as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_PicAlign(*self),
//@at start
//@|  proof { reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("center"); reveal_strlit("bottom"); reveal_strlit("top"); }
//@end
//@enum PositionalTabAlignmentType
pub open spec fn tok_PositionalTabAlignmentType(v: PositionalTabAlignmentType) -> Seq<char> { match v {
    PositionalTabAlignmentType::Center => "center"@,
    PositionalTabAlignmentType::Left => "left"@,
    PositionalTabAlignmentType::Right => "right"@,
} }
//@fn <PositionalTabAlignmentType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_PositionalTabAlignmentType(*self),
//@at start
//@|  proof { reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right"); }
//@end
//@fn <PositionalTabAlignmentType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Center) ==> r == Ok::<PositionalTabAlignmentType, TypeError>(PositionalTabAlignmentType::Center),
//@|    s@ == tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Left) ==> r == Ok::<PositionalTabAlignmentType, TypeError>(PositionalTabAlignmentType::Left),
//@|    s@ == tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Right) ==> r == Ok::<PositionalTabAlignmentType, TypeError>(PositionalTabAlignmentType::Right),
//@|    (s@ != tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Center) && s@ != tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Left) && s@ != tok_PositionalTabAlignmentType(PositionalTabAlignmentType::Right)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right");  }
//@end
pub proof fn inj_PositionalTabAlignmentType(a: PositionalTabAlignmentType, b: PositionalTabAlignmentType)
    requires tok_PositionalTabAlignmentType(a) == tok_PositionalTabAlignmentType(b), 
    ensures a == b
{ reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right"); assert(tok_PositionalTabAlignmentType(a).len() == tok_PositionalTabAlignmentType(b).len()); assert forall |i: int| 0 <= i < tok_PositionalTabAlignmentType(a).len() implies tok_PositionalTabAlignmentType(a)[i] == tok_PositionalTabAlignmentType(b)[i] by {} }
//@enum PositionalTabRelativeTo
pub open spec fn tok_PositionalTabRelativeTo(v: PositionalTabRelativeTo) -> Seq<char> { match v {
    PositionalTabRelativeTo::Indent => "indent"@,
    PositionalTabRelativeTo::Margin => "margin"@,
} }
//@fn <PositionalTabRelativeTo as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_PositionalTabRelativeTo(*self),
//@at start
//@|  proof { reveal_strlit("indent"); reveal_strlit("margin"); }
//@end
//@fn <PositionalTabRelativeTo as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_PositionalTabRelativeTo(PositionalTabRelativeTo::Indent) ==> r == Ok::<PositionalTabRelativeTo, TypeError>(PositionalTabRelativeTo::Indent),
//@|    s@ == tok_PositionalTabRelativeTo(PositionalTabRelativeTo::Margin) ==> r == Ok::<PositionalTabRelativeTo, TypeError>(PositionalTabRelativeTo::Margin),
//@|    (s@ != tok_PositionalTabRelativeTo(PositionalTabRelativeTo::Indent) && s@ != tok_PositionalTabRelativeTo(PositionalTabRelativeTo::Margin)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("indent"); reveal_strlit("margin");  }
//@end
pub proof fn inj_PositionalTabRelativeTo(a: PositionalTabRelativeTo, b: PositionalTabRelativeTo)
    requires tok_PositionalTabRelativeTo(a) == tok_PositionalTabRelativeTo(b), 
    ensures a == b
{ reveal_strlit("indent"); reveal_strlit("margin"); assert(tok_PositionalTabRelativeTo(a).len() == tok_PositionalTabRelativeTo(b).len()); assert forall |i: int| 0 <= i < tok_PositionalTabRelativeTo(a).len() implies tok_PositionalTabRelativeTo(a)[i] == tok_PositionalTabRelativeTo(b)[i] by {} }
//@enum RelativeFromHType
pub open spec fn tok_RelativeFromHType(v: RelativeFromHType) -> Seq<char> { match v {
    RelativeFromHType::Character => "character"@,
    RelativeFromHType::Column => "column"@,
    RelativeFromHType::InsideMargin => "insideMargin"@,
    RelativeFromHType::LeftMargin => "leftMargin"@,
    RelativeFromHType::Margin => "margin"@,
    RelativeFromHType::OutsizeMargin => "outsideMargin"@,
    RelativeFromHType::Page => "page"@,
    RelativeFromHType::RightMargin => "rightMargin"@,
} }
//@fn <RelativeFromHType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_RelativeFromHType(*self),
//@at start
//@|  proof { reveal_strlit("character"); reveal_strlit("column"); reveal_strlit("insideMargin"); reveal_strlit("leftMargin"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("rightMargin"); }
//@end
//@fn <RelativeFromHType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::Character) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::Character),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::Column) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::Column),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::InsideMargin) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::InsideMargin),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::LeftMargin) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::LeftMargin),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::Margin) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::Margin),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::OutsizeMargin) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::OutsizeMargin),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::Page) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::Page),
//@|    s@ == tok_RelativeFromHType(RelativeFromHType::RightMargin) ==> r == Ok::<RelativeFromHType, TypeError>(RelativeFromHType::RightMargin),
//@at start
//@|  proof { reveal_strlit("character"); reveal_strlit("column"); reveal_strlit("insideMargin"); reveal_strlit("leftMargin"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("rightMargin");  }
//@end
pub proof fn inj_RelativeFromHType(a: RelativeFromHType, b: RelativeFromHType)
    requires tok_RelativeFromHType(a) == tok_RelativeFromHType(b), 
    ensures a == b
{ reveal_strlit("character"); reveal_strlit("column"); reveal_strlit("insideMargin"); reveal_strlit("leftMargin"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("rightMargin"); assert(tok_RelativeFromHType(a).len() == tok_RelativeFromHType(b).len()); assert forall |i: int| 0 <= i < tok_RelativeFromHType(a).len() implies tok_RelativeFromHType(a)[i] == tok_RelativeFromHType(b)[i] by {} }
//@enum RelativeFromVType
pub open spec fn tok_RelativeFromVType(v: RelativeFromVType) -> Seq<char> { match v {
    RelativeFromVType::BottomMargin => "bottomMargin"@,
    RelativeFromVType::InsideMargin => "insideMargin"@,
    RelativeFromVType::Line => "line"@,
    RelativeFromVType::Margin => "margin"@,
    RelativeFromVType::OutsizeMargin => "outsideMargin"@,
    RelativeFromVType::Page => "page"@,
    RelativeFromVType::Paragraph => "paragraph"@,
    RelativeFromVType::TopMargin => "topMargin"@,
} }
//@fn <RelativeFromVType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_RelativeFromVType(*self),
//@at start
//@|  proof { reveal_strlit("bottomMargin"); reveal_strlit("insideMargin"); reveal_strlit("line"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("paragraph"); reveal_strlit("topMargin"); }
//@end
//@fn <RelativeFromVType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::BottomMargin) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::BottomMargin),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::InsideMargin) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::InsideMargin),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::Line) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::Line),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::Margin) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::Margin),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::OutsizeMargin) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::OutsizeMargin),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::Page) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::Page),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::Paragraph) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::Paragraph),
//@|    s@ == tok_RelativeFromVType(RelativeFromVType::TopMargin) ==> r == Ok::<RelativeFromVType, TypeError>(RelativeFromVType::TopMargin),
//@at start
//@|  proof { reveal_strlit("bottomMargin"); reveal_strlit("insideMargin"); reveal_strlit("line"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("paragraph"); reveal_strlit("topMargin");  }
//@end
pub proof fn inj_RelativeFromVType(a: RelativeFromVType, b: RelativeFromVType)
    requires tok_RelativeFromVType(a) == tok_RelativeFromVType(b), 
    ensures a == b
{ reveal_strlit("bottomMargin"); reveal_strlit("insideMargin"); reveal_strlit("line"); reveal_strlit("margin"); reveal_strlit("outsideMargin"); reveal_strlit("page"); reveal_strlit("paragraph"); reveal_strlit("topMargin"); assert(tok_RelativeFromVType(a).len() == tok_RelativeFromVType(b).len()); assert forall |i: int| 0 <= i < tok_RelativeFromVType(a).len() implies tok_RelativeFromVType(a)[i] == tok_RelativeFromVType(b)[i] by {} }
//@enum SectionType
pub open spec fn tok_SectionType(v: SectionType) -> Seq<char> { match v {
    SectionType::NextPage => "nextPage"@,
    SectionType::NextColumn => "nextColumn"@,
    SectionType::Continuous => "continuous"@,
    SectionType::EvenPage => "evenPage"@,
    SectionType::OddPage => "oddPage"@,
} }
//@fn <SectionType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_SectionType(*self),
//@at start
//@|  proof { reveal_strlit("nextPage"); reveal_strlit("nextColumn"); reveal_strlit("continuous"); reveal_strlit("evenPage"); reveal_strlit("oddPage"); }
//@end
//@fn <SectionType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_SectionType(SectionType::NextPage) ==> r == Ok::<SectionType, TypeError>(SectionType::NextPage),
//@|    s@ == tok_SectionType(SectionType::NextColumn) ==> r == Ok::<SectionType, TypeError>(SectionType::NextColumn),
//@|    s@ == tok_SectionType(SectionType::Continuous) ==> r == Ok::<SectionType, TypeError>(SectionType::Continuous),
//@|    s@ == tok_SectionType(SectionType::EvenPage) ==> r == Ok::<SectionType, TypeError>(SectionType::EvenPage),
//@|    s@ == tok_SectionType(SectionType::OddPage) ==> r == Ok::<SectionType, TypeError>(SectionType::OddPage),
//@|    (s@ != tok_SectionType(SectionType::NextPage) && s@ != tok_SectionType(SectionType::NextColumn) && s@ != tok_SectionType(SectionType::Continuous) && s@ != tok_SectionType(SectionType::EvenPage) && s@ != tok_SectionType(SectionType::OddPage)) ==> r == Ok::<SectionType, TypeError>(SectionType::Continuous),
//@at start
//@|  proof { reveal_strlit("nextPage"); reveal_strlit("nextColumn"); reveal_strlit("continuous"); reveal_strlit("evenPage"); reveal_strlit("oddPage");  }
//@end
pub proof fn inj_SectionType(a: SectionType, b: SectionType)
    requires tok_SectionType(a) == tok_SectionType(b), 
    ensures a == b
{ reveal_strlit("nextPage"); reveal_strlit("nextColumn"); reveal_strlit("continuous"); reveal_strlit("evenPage"); reveal_strlit("oddPage"); assert(tok_SectionType(a).len() == tok_SectionType(b).len()); assert forall |i: int| 0 <= i < tok_SectionType(a).len() implies tok_SectionType(a)[i] == tok_SectionType(b)[i] by {} }
//@enum ShdType
pub open spec fn tok_ShdType(v: ShdType) -> Seq<char> { match v {
    ShdType::Nil => "nil"@,
    ShdType::Clear => "clear"@,
    ShdType::Solid => "solid"@,
    ShdType::HorzStripe => "horzStripe"@,
    ShdType::VertStripe => "vertStripe"@,
    ShdType::ReverseDiagStripe => "reverseDiagStripe"@,
    ShdType::DiagStripe => "diagStripe"@,
    ShdType::HorzCross => "horzCross"@,
    ShdType::DiagCross => "diagCross"@,
    ShdType::ThinHorzStripe => "thinHorzStripe"@,
    ShdType::ThinVertStripe => "thinVertStripe"@,
    ShdType::ThinReverseDiagStripe => "thinReverseDiagStripe"@,
    ShdType::ThinDiagStripe => "thinDiagStripe"@,
    ShdType::ThinHorzCross => "thinHorzCross"@,
    ShdType::ThinDiagCross => "thinDiagCross"@,
    ShdType::Pct5 => "pct5"@,
    ShdType::Pct10 => "pct10"@,
    ShdType::Pct12 => "pct12"@,
    ShdType::Pct15 => "pct15"@,
    ShdType::Pct20 => "pct20"@,
    ShdType::Pct25 => "pct25"@,
    ShdType::Pct30 => "pct30"@,
    ShdType::Pct35 => "pct35"@,
    ShdType::Pct37 => "pct37"@,
    ShdType::Pct40 => "pct40"@,
    ShdType::Pct45 => "pct45"@,
    ShdType::Pct50 => "pct50"@,
    ShdType::Pct55 => "pct55"@,
    ShdType::Pct60 => "pct60"@,
    ShdType::Pct62 => "pct62"@,
    ShdType::Pct65 => "pct65"@,
    ShdType::Pct70 => "pct70"@,
    ShdType::Pct75 => "pct75"@,
    ShdType::Pct80 => "pct80"@,
    ShdType::Pct85 => "pct85"@,
    ShdType::Pct87 => "pct87"@,
    ShdType::Pct90 => "pct90"@,
    ShdType::Pct95 => "pct95"@,
} }
//@fn <ShdType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_ShdType(*self),
//@at start
//@|  proof { reveal_strlit("nil"); reveal_strlit("clear"); reveal_strlit("solid"); reveal_strlit("horzStripe"); reveal_strlit("vertStripe"); reveal_strlit("reverseDiagStripe"); reveal_strlit("diagStripe"); reveal_strlit("horzCross"); reveal_strlit("diagCross"); reveal_strlit("thinHorzStripe"); reveal_strlit("thinVertStripe"); reveal_strlit("thinReverseDiagStripe"); reveal_strlit("thinDiagStripe"); reveal_strlit("thinHorzCross"); reveal_strlit("thinDiagCross"); reveal_strlit("pct5"); reveal_strlit("pct10"); reveal_strlit("pct12"); reveal_strlit("pct15"); reveal_strlit("pct20"); reveal_strlit("pct25"); reveal_strlit("pct30"); reveal_strlit("pct35"); reveal_strlit("pct37"); reveal_strlit("pct40"); reveal_strlit("pct45"); reveal_strlit("pct50"); reveal_strlit("pct55"); reveal_strlit("pct60"); reveal_strlit("pct62"); reveal_strlit("pct65"); reveal_strlit("pct70"); reveal_strlit("pct75"); reveal_strlit("pct80"); reveal_strlit("pct85"); reveal_strlit("pct87"); reveal_strlit("pct90"); reveal_strlit("pct95"); }
//@end
//@fn <ShdType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_ShdType(ShdType::Nil) ==> r == Ok::<ShdType, TypeError>(ShdType::Nil),
//@|    s@ == tok_ShdType(ShdType::Clear) ==> r == Ok::<ShdType, TypeError>(ShdType::Clear),
//@|    s@ == tok_ShdType(ShdType::Solid) ==> r == Ok::<ShdType, TypeError>(ShdType::Solid),
//@|    s@ == tok_ShdType(ShdType::HorzStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::HorzStripe),
//@|    s@ == tok_ShdType(ShdType::VertStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::VertStripe),
//@|    s@ == tok_ShdType(ShdType::ReverseDiagStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::ReverseDiagStripe),
//@|    s@ == tok_ShdType(ShdType::DiagStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::DiagStripe),
//@|    s@ == tok_ShdType(ShdType::HorzCross) ==> r == Ok::<ShdType, TypeError>(ShdType::HorzCross),
//@|    s@ == tok_ShdType(ShdType::DiagCross) ==> r == Ok::<ShdType, TypeError>(ShdType::DiagCross),
//@|    s@ == tok_ShdType(ShdType::ThinHorzStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinHorzStripe),
//@|    s@ == tok_ShdType(ShdType::ThinVertStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinVertStripe),
//@|    s@ == tok_ShdType(ShdType::ThinReverseDiagStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinReverseDiagStripe),
//@|    s@ == tok_ShdType(ShdType::ThinDiagStripe) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinDiagStripe),
//@|    s@ == tok_ShdType(ShdType::ThinHorzCross) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinHorzCross),
//@|    s@ == tok_ShdType(ShdType::ThinDiagCross) ==> r == Ok::<ShdType, TypeError>(ShdType::ThinDiagCross),
//@|    s@ == tok_ShdType(ShdType::Pct5) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct5),
//@|    s@ == tok_ShdType(ShdType::Pct10) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct10),
//@|    s@ == tok_ShdType(ShdType::Pct12) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct12),
//@|    s@ == tok_ShdType(ShdType::Pct15) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct15),
//@|    s@ == tok_ShdType(ShdType::Pct20) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct20),
//@|    s@ == tok_ShdType(ShdType::Pct25) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct25),
//@|    s@ == tok_ShdType(ShdType::Pct30) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct30),
//@|    s@ == tok_ShdType(ShdType::Pct35) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct35),
//@|    s@ == tok_ShdType(ShdType::Pct37) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct37),
//@|    s@ == tok_ShdType(ShdType::Pct40) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct40),
//@|    s@ == tok_ShdType(ShdType::Pct45) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct45),
//@|    s@ == tok_ShdType(ShdType::Pct50) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct50),
//@|    s@ == tok_ShdType(ShdType::Pct55) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct55),
//@|    s@ == tok_ShdType(ShdType::Pct60) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct60),
//@|    s@ == tok_ShdType(ShdType::Pct62) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct62),
//@|    s@ == tok_ShdType(ShdType::Pct65) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct65),
//@|    s@ == tok_ShdType(ShdType::Pct70) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct70),
//@|    s@ == tok_ShdType(ShdType::Pct75) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct75),
//@|    s@ == tok_ShdType(ShdType::Pct80) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct80),
//@|    s@ == tok_ShdType(ShdType::Pct85) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct85),
//@|    s@ == tok_ShdType(ShdType::Pct87) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct87),
//@|    s@ == tok_ShdType(ShdType::Pct90) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct90),
//@|    s@ == tok_ShdType(ShdType::Pct95) ==> r == Ok::<ShdType, TypeError>(ShdType::Pct95),
//@|    (s@ != tok_ShdType(ShdType::Nil) && s@ != tok_ShdType(ShdType::Clear) && s@ != tok_ShdType(ShdType::Solid) && s@ != tok_ShdType(ShdType::HorzStripe) && s@ != tok_ShdType(ShdType::VertStripe) && s@ != tok_ShdType(ShdType::ReverseDiagStripe) && s@ != tok_ShdType(ShdType::DiagStripe) && s@ != tok_ShdType(ShdType::HorzCross) && s@ != tok_ShdType(ShdType::DiagCross) && s@ != tok_ShdType(ShdType::ThinHorzStripe) && s@ != tok_ShdType(ShdType::ThinVertStripe) && s@ != tok_ShdType(ShdType::ThinReverseDiagStripe) && s@ != tok_ShdType(ShdType::ThinDiagStripe) && s@ != tok_ShdType(ShdType::ThinHorzCross) && s@ != tok_ShdType(ShdType::ThinDiagCross) && s@ != tok_ShdType(ShdType::Pct5) && s@ != tok_ShdType(ShdType::Pct10) && s@ != tok_ShdType(ShdType::Pct12) && s@ != tok_ShdType(ShdType::Pct15) && s@ != tok_ShdType(ShdType::Pct20) && s@ != tok_ShdType(ShdType::Pct25) && s@ != tok_ShdType(ShdType::Pct30) && s@ != tok_ShdType(ShdType::Pct35) && s@ != tok_ShdType(ShdType::Pct37) && s@ != tok_ShdType(ShdType::Pct40) && s@ != tok_ShdType(ShdType::Pct45) && s@ != tok_ShdType(ShdType::Pct50) && s@ != tok_ShdType(ShdType::Pct55) && s@ != tok_ShdType(ShdType::Pct60) && s@ != tok_ShdType(ShdType::Pct62) && s@ != tok_ShdType(ShdType::Pct65) && s@ != tok_ShdType(ShdType::Pct70) && s@ != tok_ShdType(ShdType::Pct75) && s@ != tok_ShdType(ShdType::Pct80) && s@ != tok_ShdType(ShdType::Pct85) && s@ != tok_ShdType(ShdType::Pct87) && s@ != tok_ShdType(ShdType::Pct90) && s@ != tok_ShdType(ShdType::Pct95)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("nil"); reveal_strlit("clear"); reveal_strlit("solid"); reveal_strlit("horzStripe"); reveal_strlit("vertStripe"); reveal_strlit("reverseDiagStripe"); reveal_strlit("diagStripe"); reveal_strlit("horzCross"); reveal_strlit("diagCross"); reveal_strlit("thinHorzStripe"); reveal_strlit("thinVertStripe"); reveal_strlit("thinReverseDiagStripe"); reveal_strlit("thinDiagStripe"); reveal_strlit("thinHorzCross"); reveal_strlit("thinDiagCross"); reveal_strlit("pct5"); reveal_strlit("pct10"); reveal_strlit("pct12"); reveal_strlit("pct15"); reveal_strlit("pct20"); reveal_strlit("pct25"); reveal_strlit("pct30"); reveal_strlit("pct35"); reveal_strlit("pct37"); reveal_strlit("pct40"); reveal_strlit("pct45"); reveal_strlit("pct50"); reveal_strlit("pct55"); reveal_strlit("pct60"); reveal_strlit("pct62"); reveal_strlit("pct65"); reveal_strlit("pct70"); reveal_strlit("pct75"); reveal_strlit("pct80"); reveal_strlit("pct85"); reveal_strlit("pct87"); reveal_strlit("pct90"); reveal_strlit("pct95");  }
//@end
pub proof fn inj_ShdType(a: ShdType, b: ShdType)
    requires tok_ShdType(a) == tok_ShdType(b), 
    ensures a == b
{ reveal_strlit("nil"); reveal_strlit("clear"); reveal_strlit("solid"); reveal_strlit("horzStripe"); reveal_strlit("vertStripe"); reveal_strlit("reverseDiagStripe"); reveal_strlit("diagStripe"); reveal_strlit("horzCross"); reveal_strlit("diagCross"); reveal_strlit("thinHorzStripe"); reveal_strlit("thinVertStripe"); reveal_strlit("thinReverseDiagStripe"); reveal_strlit("thinDiagStripe"); reveal_strlit("thinHorzCross"); reveal_strlit("thinDiagCross"); reveal_strlit("pct5"); reveal_strlit("pct10"); reveal_strlit("pct12"); reveal_strlit("pct15"); reveal_strlit("pct20"); reveal_strlit("pct25"); reveal_strlit("pct30"); reveal_strlit("pct35"); reveal_strlit("pct37"); reveal_strlit("pct40"); reveal_strlit("pct45"); reveal_strlit("pct50"); reveal_strlit("pct55"); reveal_strlit("pct60"); reveal_strlit("pct62"); reveal_strlit("pct65"); reveal_strlit("pct70"); reveal_strlit("pct75"); reveal_strlit("pct80"); reveal_strlit("pct85"); reveal_strlit("pct87"); reveal_strlit("pct90"); reveal_strlit("pct95"); assert(tok_ShdType(a).len() == tok_ShdType(b).len()); assert forall |i: int| 0 <= i < tok_ShdType(a).len() implies tok_ShdType(a)[i] == tok_ShdType(b)[i] by {} }
//@enum StyleType
pub open spec fn tok_StyleType(v: StyleType) -> Seq<char> { match v {
    StyleType::Paragraph => "paragraph"@,
    StyleType::Character => "character"@,
    StyleType::Numbering => "numbering"@,
    StyleType::Table => "table"@,
    StyleType::Unsupported => "unsupported"@,
} }
//@fn <StyleType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_StyleType(*self),
//@at start
//@|  proof { reveal_strlit("paragraph"); reveal_strlit("character"); reveal_strlit("numbering"); reveal_strlit("table"); reveal_strlit("unsupported"); }
//@end
//@fn <StyleType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_StyleType(StyleType::Paragraph) ==> r == Ok::<StyleType, TypeError>(StyleType::Paragraph),
//@|    s@ == tok_StyleType(StyleType::Character) ==> r == Ok::<StyleType, TypeError>(StyleType::Character),
//@|    s@ == tok_StyleType(StyleType::Numbering) ==> r == Ok::<StyleType, TypeError>(StyleType::Numbering),
//@|    s@ == tok_StyleType(StyleType::Table) ==> r == Ok::<StyleType, TypeError>(StyleType::Table),
//@|    (s@ != tok_StyleType(StyleType::Paragraph) && s@ != tok_StyleType(StyleType::Character) && s@ != tok_StyleType(StyleType::Numbering) && s@ != tok_StyleType(StyleType::Table)) ==> r == Ok::<StyleType, TypeError>(StyleType::Unsupported),
//@at start
//@|  proof { reveal_strlit("paragraph"); reveal_strlit("character"); reveal_strlit("numbering"); reveal_strlit("table"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_StyleType(a: StyleType, b: StyleType)
    requires tok_StyleType(a) == tok_StyleType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("paragraph"); reveal_strlit("character"); reveal_strlit("numbering"); reveal_strlit("table"); reveal_strlit("unsupported"); assert(tok_StyleType(a).len() == tok_StyleType(b).len()); assert forall |i: int| 0 <= i < tok_StyleType(a).len() implies tok_StyleType(a)[i] == tok_StyleType(b)[i] by {} }
//@enum TabLeaderType
pub open spec fn tok_TabLeaderType(v: TabLeaderType) -> Seq<char> { match v {
    TabLeaderType::Dot => "dot"@,
    TabLeaderType::Heavy => "heavy"@,
    TabLeaderType::Hyphen => "hyphen"@,
    TabLeaderType::MiddleDot => "middleDot"@,
    TabLeaderType::None => "none"@,
    TabLeaderType::Underscore => "underscore"@,
} }
//@fn <TabLeaderType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TabLeaderType(*self),
//@at start
//@|  proof { reveal_strlit("dot"); reveal_strlit("heavy"); reveal_strlit("hyphen"); reveal_strlit("middleDot"); reveal_strlit("none"); reveal_strlit("underscore"); }
//@end
//@fn <TabLeaderType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TabLeaderType(TabLeaderType::Dot) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::Dot),
//@|    s@ == tok_TabLeaderType(TabLeaderType::Heavy) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::Heavy),
//@|    s@ == tok_TabLeaderType(TabLeaderType::Hyphen) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::Hyphen),
//@|    s@ == tok_TabLeaderType(TabLeaderType::MiddleDot) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::MiddleDot),
//@|    s@ == tok_TabLeaderType(TabLeaderType::None) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::None),
//@|    s@ == tok_TabLeaderType(TabLeaderType::Underscore) ==> r == Ok::<TabLeaderType, TypeError>(TabLeaderType::Underscore),
//@|    (s@ != tok_TabLeaderType(TabLeaderType::Dot) && s@ != tok_TabLeaderType(TabLeaderType::Heavy) && s@ != tok_TabLeaderType(TabLeaderType::Hyphen) && s@ != tok_TabLeaderType(TabLeaderType::MiddleDot) && s@ != tok_TabLeaderType(TabLeaderType::None) && s@ != tok_TabLeaderType(TabLeaderType::Underscore)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("dot"); reveal_strlit("heavy"); reveal_strlit("hyphen"); reveal_strlit("middleDot"); reveal_strlit("none"); reveal_strlit("underscore");  }
//@end
pub proof fn inj_TabLeaderType(a: TabLeaderType, b: TabLeaderType)
    requires tok_TabLeaderType(a) == tok_TabLeaderType(b), 
    ensures a == b
{ reveal_strlit("dot"); reveal_strlit("heavy"); reveal_strlit("hyphen"); reveal_strlit("middleDot"); reveal_strlit("none"); reveal_strlit("underscore"); assert(tok_TabLeaderType(a).len() == tok_TabLeaderType(b).len()); assert forall |i: int| 0 <= i < tok_TabLeaderType(a).len() implies tok_TabLeaderType(a)[i] == tok_TabLeaderType(b)[i] by {} }
//@enum TabValueType
pub open spec fn tok_TabValueType(v: TabValueType) -> Seq<char> { match v {
    TabValueType::Bar => "bar"@,
    TabValueType::Center => "center"@,
    TabValueType::Clear => "clear"@,
    TabValueType::Decimal => "decimal"@,
    TabValueType::End => "end"@,
    TabValueType::Right => "right"@,
    TabValueType::Num => "num"@,
    TabValueType::Start => "start"@,
    TabValueType::Left => "left"@,
} }
//@fn <TabValueType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TabValueType(*self),
//@at start
//@|  proof { reveal_strlit("bar"); reveal_strlit("center"); reveal_strlit("clear"); reveal_strlit("decimal"); reveal_strlit("end"); reveal_strlit("right"); reveal_strlit("num"); reveal_strlit("start"); reveal_strlit("left"); }
//@end
//@fn <TabValueType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TabValueType(TabValueType::Bar) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Bar),
//@|    s@ == tok_TabValueType(TabValueType::Center) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Center),
//@|    s@ == tok_TabValueType(TabValueType::Clear) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Clear),
//@|    s@ == tok_TabValueType(TabValueType::Decimal) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Decimal),
//@|    s@ == tok_TabValueType(TabValueType::End) ==> r == Ok::<TabValueType, TypeError>(TabValueType::End),
//@|    s@ == tok_TabValueType(TabValueType::Right) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Right),
//@|    s@ == tok_TabValueType(TabValueType::Num) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Num),
//@|    s@ == tok_TabValueType(TabValueType::Start) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Start),
//@|    s@ == tok_TabValueType(TabValueType::Left) ==> r == Ok::<TabValueType, TypeError>(TabValueType::Left),
//@|    (s@ != tok_TabValueType(TabValueType::Bar) && s@ != tok_TabValueType(TabValueType::Center) && s@ != tok_TabValueType(TabValueType::Clear) && s@ != tok_TabValueType(TabValueType::Decimal) && s@ != tok_TabValueType(TabValueType::End) && s@ != tok_TabValueType(TabValueType::Right) && s@ != tok_TabValueType(TabValueType::Num) && s@ != tok_TabValueType(TabValueType::Start) && s@ != tok_TabValueType(TabValueType::Left)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("bar"); reveal_strlit("center"); reveal_strlit("clear"); reveal_strlit("decimal"); reveal_strlit("end"); reveal_strlit("right"); reveal_strlit("num"); reveal_strlit("start"); reveal_strlit("left");  }
//@end
pub proof fn inj_TabValueType(a: TabValueType, b: TabValueType)
    requires tok_TabValueType(a) == tok_TabValueType(b), 
    ensures a == b
{ reveal_strlit("bar"); reveal_strlit("center"); reveal_strlit("clear"); reveal_strlit("decimal"); reveal_strlit("end"); reveal_strlit("right"); reveal_strlit("num"); reveal_strlit("start"); reveal_strlit("left"); assert(tok_TabValueType(a).len() == tok_TabValueType(b).len()); assert forall |i: int| 0 <= i < tok_TabValueType(a).len() implies tok_TabValueType(a)[i] == tok_TabValueType(b)[i] by {} }
//@enum TableAlignmentType
pub open spec fn tok_TableAlignmentType(v: TableAlignmentType) -> Seq<char> { match v {
    TableAlignmentType::Center => "center"@,
    TableAlignmentType::Left => "left"@,
    TableAlignmentType::Right => "right"@,
} }
//@fn <TableAlignmentType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TableAlignmentType(*self),
//@at start
//@|  proof { reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right"); }
//@end
//@fn <TableAlignmentType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TableAlignmentType(TableAlignmentType::Center) ==> r == Ok::<TableAlignmentType, TypeError>(TableAlignmentType::Center),
//@|    s@ == tok_TableAlignmentType(TableAlignmentType::Left) ==> r == Ok::<TableAlignmentType, TypeError>(TableAlignmentType::Left),
//@|    s@ == tok_TableAlignmentType(TableAlignmentType::Right) ==> r == Ok::<TableAlignmentType, TypeError>(TableAlignmentType::Right),
//@|    s@ == "start"@ ==> r == Ok::<TableAlignmentType, TypeError>(TableAlignmentType::Left),
//@|    s@ == "end"@ ==> r == Ok::<TableAlignmentType, TypeError>(TableAlignmentType::Right),
//@at start
//@|  proof { reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("start"); reveal_strlit("end"); }
//@end
pub proof fn inj_TableAlignmentType(a: TableAlignmentType, b: TableAlignmentType)
    requires tok_TableAlignmentType(a) == tok_TableAlignmentType(b), 
    ensures a == b
{ reveal_strlit("center"); reveal_strlit("left"); reveal_strlit("right"); assert(tok_TableAlignmentType(a).len() == tok_TableAlignmentType(b).len()); assert forall |i: int| 0 <= i < tok_TableAlignmentType(a).len() implies tok_TableAlignmentType(a)[i] == tok_TableAlignmentType(b)[i] by {} }
//@enum TableLayoutType
pub open spec fn tok_TableLayoutType(v: TableLayoutType) -> Seq<char> { match v {
    TableLayoutType::Fixed => "fixed"@,
    TableLayoutType::Autofit => "autofit"@,
} }
//@fn <TableLayoutType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TableLayoutType(*self),
//@at start
//@|  proof { reveal_strlit("fixed"); reveal_strlit("autofit"); }
//@end
//@fn <TableLayoutType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TableLayoutType(TableLayoutType::Fixed) ==> r == Ok::<TableLayoutType, TypeError>(TableLayoutType::Fixed),
//@|    s@ == tok_TableLayoutType(TableLayoutType::Autofit) ==> r == Ok::<TableLayoutType, TypeError>(TableLayoutType::Autofit),
//@|    (s@ != tok_TableLayoutType(TableLayoutType::Fixed) && s@ != tok_TableLayoutType(TableLayoutType::Autofit)) ==> r == Ok::<TableLayoutType, TypeError>(TableLayoutType::Autofit),
//@at start
//@|  proof { reveal_strlit("fixed"); reveal_strlit("autofit");  }
//@end
pub proof fn inj_TableLayoutType(a: TableLayoutType, b: TableLayoutType)
    requires tok_TableLayoutType(a) == tok_TableLayoutType(b), 
    ensures a == b
{ reveal_strlit("fixed"); reveal_strlit("autofit"); assert(tok_TableLayoutType(a).len() == tok_TableLayoutType(b).len()); assert forall |i: int| 0 <= i < tok_TableLayoutType(a).len() implies tok_TableLayoutType(a)[i] == tok_TableLayoutType(b)[i] by {} }
//@enum TextAlignmentType
pub open spec fn tok_TextAlignmentType(v: TextAlignmentType) -> Seq<char> { match v {
    TextAlignmentType::Auto => "auto"@,
    TextAlignmentType::Baseline => "baseline"@,
    TextAlignmentType::Bottom => "bottom"@,
    TextAlignmentType::Center => "center"@,
    TextAlignmentType::Top => "top"@,
} }
//@fn <TextAlignmentType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TextAlignmentType(*self),
//@at start
//@|  proof { reveal_strlit("auto"); reveal_strlit("baseline"); reveal_strlit("bottom"); reveal_strlit("center"); reveal_strlit("top"); }
//@end
//@fn <TextAlignmentType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TextAlignmentType(TextAlignmentType::Auto) ==> r == Ok::<TextAlignmentType, TypeError>(TextAlignmentType::Auto),
//@|    s@ == tok_TextAlignmentType(TextAlignmentType::Baseline) ==> r == Ok::<TextAlignmentType, TypeError>(TextAlignmentType::Baseline),
//@|    s@ == tok_TextAlignmentType(TextAlignmentType::Bottom) ==> r == Ok::<TextAlignmentType, TypeError>(TextAlignmentType::Bottom),
//@|    s@ == tok_TextAlignmentType(TextAlignmentType::Center) ==> r == Ok::<TextAlignmentType, TypeError>(TextAlignmentType::Center),
//@|    s@ == tok_TextAlignmentType(TextAlignmentType::Top) ==> r == Ok::<TextAlignmentType, TypeError>(TextAlignmentType::Top),
//@|    (s@ != tok_TextAlignmentType(TextAlignmentType::Auto) && s@ != tok_TextAlignmentType(TextAlignmentType::Baseline) && s@ != tok_TextAlignmentType(TextAlignmentType::Bottom) && s@ != tok_TextAlignmentType(TextAlignmentType::Center) && s@ != tok_TextAlignmentType(TextAlignmentType::Top)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("auto"); reveal_strlit("baseline"); reveal_strlit("bottom"); reveal_strlit("center"); reveal_strlit("top");  }
//@end
pub proof fn inj_TextAlignmentType(a: TextAlignmentType, b: TextAlignmentType)
    requires tok_TextAlignmentType(a) == tok_TextAlignmentType(b), 
    ensures a == b
{ reveal_strlit("auto"); reveal_strlit("baseline"); reveal_strlit("bottom"); reveal_strlit("center"); reveal_strlit("top"); assert(tok_TextAlignmentType(a).len() == tok_TextAlignmentType(b).len()); assert forall |i: int| 0 <= i < tok_TextAlignmentType(a).len() implies tok_TextAlignmentType(a)[i] == tok_TextAlignmentType(b)[i] by {} }
//@enum TextDirectionType
pub open spec fn tok_TextDirectionType(v: TextDirectionType) -> Seq<char> { match v {
    TextDirectionType::Lr => "lr"@,
    TextDirectionType::LrV => "lrV"@,
    TextDirectionType::Rl => "rl"@,
    TextDirectionType::RlV => "rlV"@,
    TextDirectionType::Tb => "tb"@,
    TextDirectionType::TbV => "tbV"@,
    TextDirectionType::TbRlV => "tbRlV"@,
    TextDirectionType::TbRl => "tbRl"@,
    TextDirectionType::BtLr => "btLr"@,
    TextDirectionType::LrTbV => "lrTbV"@,
} }
//@fn <TextDirectionType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_TextDirectionType(*self),
//@at start
//@|  proof { reveal_strlit("lr"); reveal_strlit("lrV"); reveal_strlit("rl"); reveal_strlit("rlV"); reveal_strlit("tb"); reveal_strlit("tbV"); reveal_strlit("tbRlV"); reveal_strlit("tbRl"); reveal_strlit("btLr"); reveal_strlit("lrTbV"); }
//@end
//@fn <TextDirectionType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_TextDirectionType(TextDirectionType::Lr) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::Lr),
//@|    s@ == tok_TextDirectionType(TextDirectionType::LrV) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::LrV),
//@|    s@ == tok_TextDirectionType(TextDirectionType::Rl) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::Rl),
//@|    s@ == tok_TextDirectionType(TextDirectionType::RlV) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::RlV),
//@|    s@ == tok_TextDirectionType(TextDirectionType::Tb) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::Tb),
//@|    s@ == tok_TextDirectionType(TextDirectionType::TbV) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::TbV),
//@|    s@ == tok_TextDirectionType(TextDirectionType::TbRlV) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::TbRlV),
//@|    s@ == tok_TextDirectionType(TextDirectionType::TbRl) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::TbRl),
//@|    s@ == tok_TextDirectionType(TextDirectionType::BtLr) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::BtLr),
//@|    s@ == tok_TextDirectionType(TextDirectionType::LrTbV) ==> r == Ok::<TextDirectionType, TypeError>(TextDirectionType::LrTbV),
//@|    (s@ != tok_TextDirectionType(TextDirectionType::Lr) && s@ != tok_TextDirectionType(TextDirectionType::LrV) && s@ != tok_TextDirectionType(TextDirectionType::Rl) && s@ != tok_TextDirectionType(TextDirectionType::RlV) && s@ != tok_TextDirectionType(TextDirectionType::Tb) && s@ != tok_TextDirectionType(TextDirectionType::TbV) && s@ != tok_TextDirectionType(TextDirectionType::TbRlV) && s@ != tok_TextDirectionType(TextDirectionType::TbRl) && s@ != tok_TextDirectionType(TextDirectionType::BtLr) && s@ != tok_TextDirectionType(TextDirectionType::LrTbV)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("lr"); reveal_strlit("lrV"); reveal_strlit("rl"); reveal_strlit("rlV"); reveal_strlit("tb"); reveal_strlit("tbV"); reveal_strlit("tbRlV"); reveal_strlit("tbRl"); reveal_strlit("btLr"); reveal_strlit("lrTbV");  }
//@end
pub proof fn inj_TextDirectionType(a: TextDirectionType, b: TextDirectionType)
    requires tok_TextDirectionType(a) == tok_TextDirectionType(b), 
    ensures a == b
{ reveal_strlit("lr"); reveal_strlit("lrV"); reveal_strlit("rl"); reveal_strlit("rlV"); reveal_strlit("tb"); reveal_strlit("tbV"); reveal_strlit("tbRlV"); reveal_strlit("tbRl"); reveal_strlit("btLr"); reveal_strlit("lrTbV"); assert(tok_TextDirectionType(a).len() == tok_TextDirectionType(b).len()); assert forall |i: int| 0 <= i < tok_TextDirectionType(a).len() implies tok_TextDirectionType(a)[i] == tok_TextDirectionType(b)[i] by {} }
//@enum ThemeColor
pub open spec fn tok_ThemeColor(v: ThemeColor) -> Seq<char> { match v {
    ThemeColor::Dark1 => "dark1"@,
    ThemeColor::Light1 => "light1"@,
    ThemeColor::Dark2 => "dark2"@,
    ThemeColor::Light2 => "light2"@,
    ThemeColor::Accent1 => "accent1"@,
    ThemeColor::Accent2 => "accent2"@,
    ThemeColor::Accent3 => "accent3"@,
    ThemeColor::Accent4 => "accent4"@,
    ThemeColor::Accent5 => "accent5"@,
    ThemeColor::Accent6 => "accent6"@,
    ThemeColor::Hyperlink => "hyperlink"@,
    ThemeColor::FollowedHyperlink => "followedHyperlink"@,
    ThemeColor::None => "none"@,
    ThemeColor::Background1 => "background1"@,
    ThemeColor::Text1 => "text1"@,
    ThemeColor::Background2 => "background2"@,
    ThemeColor::Text2 => "text2"@,
    ThemeColor::Unsupported => "unsupported"@,
} }
//@fn <ThemeColor as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_ThemeColor(*self),
//@at start
//@|  proof { reveal_strlit("dark1"); reveal_strlit("light1"); reveal_strlit("dark2"); reveal_strlit("light2"); reveal_strlit("accent1"); reveal_strlit("accent2"); reveal_strlit("accent3"); reveal_strlit("accent4"); reveal_strlit("accent5"); reveal_strlit("accent6"); reveal_strlit("hyperlink"); reveal_strlit("followedHyperlink"); reveal_strlit("none"); reveal_strlit("background1"); reveal_strlit("text1"); reveal_strlit("background2"); reveal_strlit("text2"); reveal_strlit("unsupported"); }
//@end
//@fn <ThemeColor as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_ThemeColor(ThemeColor::Dark1) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Dark1),
//@|    s@ == tok_ThemeColor(ThemeColor::Light1) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Light1),
//@|    s@ == tok_ThemeColor(ThemeColor::Dark2) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Dark2),
//@|    s@ == tok_ThemeColor(ThemeColor::Light2) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Light2),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent1) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent1),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent2) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent2),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent3) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent3),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent4) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent4),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent5) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent5),
//@|    s@ == tok_ThemeColor(ThemeColor::Accent6) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Accent6),
//@|    s@ == tok_ThemeColor(ThemeColor::Hyperlink) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Hyperlink),
//@|    s@ == tok_ThemeColor(ThemeColor::FollowedHyperlink) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::FollowedHyperlink),
//@|    s@ == tok_ThemeColor(ThemeColor::None) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::None),
//@|    s@ == tok_ThemeColor(ThemeColor::Background1) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Background1),
//@|    s@ == tok_ThemeColor(ThemeColor::Text1) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Text1),
//@|    s@ == tok_ThemeColor(ThemeColor::Background2) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Background2),
//@|    s@ == tok_ThemeColor(ThemeColor::Text2) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Text2),
//@|    (s@ != tok_ThemeColor(ThemeColor::Dark1) && s@ != tok_ThemeColor(ThemeColor::Light1) && s@ != tok_ThemeColor(ThemeColor::Dark2) && s@ != tok_ThemeColor(ThemeColor::Light2) && s@ != tok_ThemeColor(ThemeColor::Accent1) && s@ != tok_ThemeColor(ThemeColor::Accent2) && s@ != tok_ThemeColor(ThemeColor::Accent3) && s@ != tok_ThemeColor(ThemeColor::Accent4) && s@ != tok_ThemeColor(ThemeColor::Accent5) && s@ != tok_ThemeColor(ThemeColor::Accent6) && s@ != tok_ThemeColor(ThemeColor::Hyperlink) && s@ != tok_ThemeColor(ThemeColor::FollowedHyperlink) && s@ != tok_ThemeColor(ThemeColor::None) && s@ != tok_ThemeColor(ThemeColor::Background1) && s@ != tok_ThemeColor(ThemeColor::Text1) && s@ != tok_ThemeColor(ThemeColor::Background2) && s@ != tok_ThemeColor(ThemeColor::Text2)) ==> r == Ok::<ThemeColor, TypeError>(ThemeColor::Unsupported),
//@at start
//@|  proof { reveal_strlit("dark1"); reveal_strlit("light1"); reveal_strlit("dark2"); reveal_strlit("light2"); reveal_strlit("accent1"); reveal_strlit("accent2"); reveal_strlit("accent3"); reveal_strlit("accent4"); reveal_strlit("accent5"); reveal_strlit("accent6"); reveal_strlit("hyperlink"); reveal_strlit("followedHyperlink"); reveal_strlit("none"); reveal_strlit("background1"); reveal_strlit("text1"); reveal_strlit("background2"); reveal_strlit("text2"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_ThemeColor(a: ThemeColor, b: ThemeColor)
    requires tok_ThemeColor(a) == tok_ThemeColor(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("dark1"); reveal_strlit("light1"); reveal_strlit("dark2"); reveal_strlit("light2"); reveal_strlit("accent1"); reveal_strlit("accent2"); reveal_strlit("accent3"); reveal_strlit("accent4"); reveal_strlit("accent5"); reveal_strlit("accent6"); reveal_strlit("hyperlink"); reveal_strlit("followedHyperlink"); reveal_strlit("none"); reveal_strlit("background1"); reveal_strlit("text1"); reveal_strlit("background2"); reveal_strlit("text2"); reveal_strlit("unsupported"); assert(tok_ThemeColor(a).len() == tok_ThemeColor(b).len()); assert forall |i: int| 0 <= i < tok_ThemeColor(a).len() implies tok_ThemeColor(a)[i] == tok_ThemeColor(b)[i] by {} }
//@enum VAlignType
pub open spec fn tok_VAlignType(v: VAlignType) -> Seq<char> { match v {
    VAlignType::Top => "top"@,
    VAlignType::Center => "center"@,
    VAlignType::Bottom => "bottom"@,
    VAlignType::Unsupported => "unsupported"@,
} }
//@fn <VAlignType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_VAlignType(*self),
//@at start
//@|  proof { reveal_strlit("top"); reveal_strlit("center"); reveal_strlit("bottom"); reveal_strlit("unsupported"); }
//@end
//@fn <VAlignType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_VAlignType(VAlignType::Top) ==> r == Ok::<VAlignType, TypeError>(VAlignType::Top),
//@|    s@ == tok_VAlignType(VAlignType::Center) ==> r == Ok::<VAlignType, TypeError>(VAlignType::Center),
//@|    s@ == tok_VAlignType(VAlignType::Bottom) ==> r == Ok::<VAlignType, TypeError>(VAlignType::Bottom),
//@|    (s@ != tok_VAlignType(VAlignType::Top) && s@ != tok_VAlignType(VAlignType::Center) && s@ != tok_VAlignType(VAlignType::Bottom)) ==> r == Ok::<VAlignType, TypeError>(VAlignType::Unsupported),
//@at start
//@|  proof { reveal_strlit("top"); reveal_strlit("center"); reveal_strlit("bottom"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_VAlignType(a: VAlignType, b: VAlignType)
    requires tok_VAlignType(a) == tok_VAlignType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("top"); reveal_strlit("center"); reveal_strlit("bottom"); reveal_strlit("unsupported"); assert(tok_VAlignType(a).len() == tok_VAlignType(b).len()); assert forall |i: int| 0 <= i < tok_VAlignType(a).len() implies tok_VAlignType(a)[i] == tok_VAlignType(b)[i] by {} }
//@enum VMergeType
pub open spec fn tok_VMergeType(v: VMergeType) -> Seq<char> { match v {
    VMergeType::Continue => "continue"@,
    VMergeType::Restart => "restart"@,
    VMergeType::Unsupported => "unsupported"@,
} }
//@fn <VMergeType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_VMergeType(*self),
//@at start
//@|  proof { reveal_strlit("continue"); reveal_strlit("restart"); reveal_strlit("unsupported"); }
//@end
//@fn <VMergeType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_VMergeType(VMergeType::Continue) ==> r == Ok::<VMergeType, TypeError>(VMergeType::Continue),
//@|    s@ == tok_VMergeType(VMergeType::Restart) ==> r == Ok::<VMergeType, TypeError>(VMergeType::Restart),
//@|    (s@ != tok_VMergeType(VMergeType::Continue) && s@ != tok_VMergeType(VMergeType::Restart)) ==> r == Ok::<VMergeType, TypeError>(VMergeType::Unsupported),
//@at start
//@|  proof { reveal_strlit("continue"); reveal_strlit("restart"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_VMergeType(a: VMergeType, b: VMergeType)
    requires tok_VMergeType(a) == tok_VMergeType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("continue"); reveal_strlit("restart"); reveal_strlit("unsupported"); assert(tok_VMergeType(a).len() == tok_VMergeType(b).len()); assert forall |i: int| 0 <= i < tok_VMergeType(a).len() implies tok_VMergeType(a)[i] == tok_VMergeType(b)[i] by {} }
//@enum VertAlignType
pub open spec fn tok_VertAlignType(v: VertAlignType) -> Seq<char> { match v {
    VertAlignType::Baseline => "baseline"@,
    VertAlignType::SuperScript => "superscript"@,
    VertAlignType::SubScript => "subscript"@,
    VertAlignType::Unsupported => "unsupported"@,
} }
//@fn <VertAlignType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_VertAlignType(*self),
//@at start
//@|  proof { reveal_strlit("baseline"); reveal_strlit("superscript"); reveal_strlit("subscript"); reveal_strlit("unsupported"); }
//@end
//@fn <VertAlignType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_VertAlignType(VertAlignType::Baseline) ==> r == Ok::<VertAlignType, TypeError>(VertAlignType::Baseline),
//@|    s@ == tok_VertAlignType(VertAlignType::SuperScript) ==> r == Ok::<VertAlignType, TypeError>(VertAlignType::SuperScript),
//@|    s@ == tok_VertAlignType(VertAlignType::SubScript) ==> r == Ok::<VertAlignType, TypeError>(VertAlignType::SubScript),
//@|    (s@ != tok_VertAlignType(VertAlignType::Baseline) && s@ != tok_VertAlignType(VertAlignType::SuperScript) && s@ != tok_VertAlignType(VertAlignType::SubScript)) ==> r == Ok::<VertAlignType, TypeError>(VertAlignType::Unsupported),
//@at start
//@|  proof { reveal_strlit("baseline"); reveal_strlit("superscript"); reveal_strlit("subscript"); reveal_strlit("unsupported");  }
//@end
pub proof fn inj_VertAlignType(a: VertAlignType, b: VertAlignType)
    requires tok_VertAlignType(a) == tok_VertAlignType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("baseline"); reveal_strlit("superscript"); reveal_strlit("subscript"); reveal_strlit("unsupported"); assert(tok_VertAlignType(a).len() == tok_VertAlignType(b).len()); assert forall |i: int| 0 <= i < tok_VertAlignType(a).len() implies tok_VertAlignType(a)[i] == tok_VertAlignType(b)[i] by {} }
//@enum WidthType
pub open spec fn tok_WidthType(v: WidthType) -> Seq<char> { match v {
    WidthType::Dxa => "dxa"@,
    WidthType::Auto => "auto"@,
    WidthType::Pct => "pct"@,
    WidthType::Nil => "nil"@,
    WidthType::Unsupported => "unsupported"@,
} }
//@fn <WidthType as Display>::fmt
//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_WidthType(*self),
//@at start
//@|  proof { reveal_strlit("dxa"); reveal_strlit("auto"); reveal_strlit("pct"); reveal_strlit("nil"); reveal_strlit("unsupported"); }
//@end
//@fn <WidthType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_WidthType(WidthType::Dxa) ==> r == Ok::<WidthType, TypeError>(WidthType::Dxa),
//@|    s@ == tok_WidthType(WidthType::Auto) ==> r == Ok::<WidthType, TypeError>(WidthType::Auto),
//@|    s@ == tok_WidthType(WidthType::Pct) ==> r == Ok::<WidthType, TypeError>(WidthType::Pct),
//@|    s@ == tok_WidthType(WidthType::Nil) ==> r == Ok::<WidthType, TypeError>(WidthType::Nil),
//@|    s@ == "DXA"@ ==> r == Ok::<WidthType, TypeError>(WidthType::Dxa),
//@|    s@ == "Auto"@ ==> r == Ok::<WidthType, TypeError>(WidthType::Auto),
//@|    s@ == "Pct"@ ==> r == Ok::<WidthType, TypeError>(WidthType::Pct),
//@|    s@ == "Nil"@ ==> r == Ok::<WidthType, TypeError>(WidthType::Nil),
//@at start
//@|  proof { reveal_strlit("dxa"); reveal_strlit("auto"); reveal_strlit("pct"); reveal_strlit("nil"); reveal_strlit("unsupported"); reveal_strlit("DXA"); reveal_strlit("Auto"); reveal_strlit("Pct"); reveal_strlit("Nil"); }
//@end
pub proof fn inj_WidthType(a: WidthType, b: WidthType)
    requires tok_WidthType(a) == tok_WidthType(b), !(a is Unsupported), !(b is Unsupported),
    ensures a == b
{ reveal_strlit("dxa"); reveal_strlit("auto"); reveal_strlit("pct"); reveal_strlit("nil"); reveal_strlit("unsupported"); assert(tok_WidthType(a).len() == tok_WidthType(b).len()); assert forall |i: int| 0 <= i < tok_WidthType(a).len() implies tok_WidthType(a)[i] == tok_WidthType(b)[i] by {} }
//@enum LineSpacingType
pub open spec fn tok_LineSpacingType(v: LineSpacingType) -> Seq<char> { match v {
    LineSpacingType::Auto => "auto"@,
    LineSpacingType::AtLeast => "atLeast"@,
    LineSpacingType::Exact => "exact"@,
} }
//@fn <LineSpacingType as FromStr>::from_str autostr
//@|  ensures
//@|    s@ == tok_LineSpacingType(LineSpacingType::Auto) ==> r == Ok::<LineSpacingType, TypeError>(LineSpacingType::Auto),
//@|    s@ == tok_LineSpacingType(LineSpacingType::AtLeast) ==> r == Ok::<LineSpacingType, TypeError>(LineSpacingType::AtLeast),
//@|    s@ == tok_LineSpacingType(LineSpacingType::Exact) ==> r == Ok::<LineSpacingType, TypeError>(LineSpacingType::Exact),
//@|    (s@ != tok_LineSpacingType(LineSpacingType::Auto) && s@ != tok_LineSpacingType(LineSpacingType::AtLeast) && s@ != tok_LineSpacingType(LineSpacingType::Exact)) ==> r is Err,
//@at start
//@|  proof { reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact");  }
//@end
pub proof fn inj_LineSpacingType(a: LineSpacingType, b: LineSpacingType)
    requires tok_LineSpacingType(a) == tok_LineSpacingType(b), 
    ensures a == b
{ reveal_strlit("auto"); reveal_strlit("atLeast"); reveal_strlit("exact"); assert(tok_LineSpacingType(a).len() == tok_LineSpacingType(b).len()); assert forall |i: int| 0 <= i < tok_LineSpacingType(a).len() implies tok_LineSpacingType(a)[i] == tok_LineSpacingType(b)[i] by {} }
proof fn vx_probe() ensures false {}
fn main() {}
}
