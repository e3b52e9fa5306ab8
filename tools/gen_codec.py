#!/usr/bin/env python3
"""Writes units/codec.rs from the ECMA-376 token table below (run by hand; output is committed)."""
def camel(v): return v[0].lower()+v[1:]
# enum: (variants, exceptions {variant: token}, fallback for unknown tokens, has FromStr, has Display, extra aliases)
E = {
 "AlignmentType": ("Both Center Distribute Start End Left Right Justified", {}, "Ok:Left"),
 "BorderType": ("Nil None Single Thick Double Dotted Dashed DotDash DotDotDash Triple ThinThickSmallGap ThickThinSmallGap ThinThickThinSmallGap ThinThickMediumGap ThickThinMediumGap ThinThickThinMediumGap ThinThickLargeGap ThickThinLargeGap ThinThickThinLargeGap Wave DoubleWave DashSmallGap DashDotStroked ThreeDEmboss ThreeDEngrave Outset Inset Apples ArchedScallops BabyPacifier BabyRattle", {}, "Ok:Single"),
 "BreakType": ("Page Column TextWrapping Unsupported", {}, "Ok:Unsupported"),
 "CharacterSpacingValues": ("DoNotCompress CompressPunctuation CompressPunctuationAndJapaneseKana Unsupported", {}, "Err"),
 "DocGridType": ("Default Lines LinesAndChars SnapToChars", {}, "Err"),
 "FieldCharType": ("Begin Separate End Unsupported", {}, "Ok:Unsupported"),
 "FontPitchType": ("Default Fixed Variable", {}, None),
 "HeightRule": ("Auto AtLeast Exact", {}, "Ok:AtLeast"),
 "HyperlinkType": ("Anchor External", {}, "Ok:Anchor"),
 "LevelSuffixType": ("Nothing Space Tab", {}, "Ok:Tab"),
 "PageOrientationType": ("Landscape Portrait", {}, "Ok:Portrait"),
 "PicAlign": ("Left Right Center Bottom Top", {}, None),
 "PositionalTabAlignmentType": ("Center Left Right", {}, "Err"),
 "PositionalTabRelativeTo": ("Indent Margin", {}, "Err"),
 "RelativeFromHType": ("Character Column InsideMargin LeftMargin Margin OutsizeMargin Page RightMargin", {"OutsizeMargin":"outsideMargin"}, None),
 "RelativeFromVType": ("BottomMargin InsideMargin Line Margin OutsizeMargin Page Paragraph TopMargin", {"OutsizeMargin":"outsideMargin"}, None),
 "SectionType": ("NextPage NextColumn Continuous EvenPage OddPage", {}, "Ok:Continuous"),
 "ShdType": ("Nil Clear Solid HorzStripe VertStripe ReverseDiagStripe DiagStripe HorzCross DiagCross ThinHorzStripe ThinVertStripe ThinReverseDiagStripe ThinDiagStripe ThinHorzCross ThinDiagCross Pct5 Pct10 Pct12 Pct15 Pct20 Pct25 Pct30 Pct35 Pct37 Pct40 Pct45 Pct50 Pct55 Pct60 Pct62 Pct65 Pct70 Pct75 Pct80 Pct85 Pct87 Pct90 Pct95", {}, "Err"),
 "StyleType": ("Paragraph Character Numbering Table Unsupported", {}, "Ok:Unsupported"),
 "TabLeaderType": ("Dot Heavy Hyphen MiddleDot None Underscore", {}, "Err"),
 "TabValueType": ("Bar Center Clear Decimal End Right Num Start Left", {}, "Err"),
 "TableAlignmentType": ("Center Left Right", {}, None),
 "TableLayoutType": ("Fixed Autofit", {}, "Ok:Autofit"),
 "TextAlignmentType": ("Auto Baseline Bottom Center Top", {}, "Err"),
 "TextDirectionType": ("Lr LrV Rl RlV Tb TbV TbRlV TbRl BtLr LrTbV", {}, "Err"),
 "ThemeColor": ("Dark1 Light1 Dark2 Light2 Accent1 Accent2 Accent3 Accent4 Accent5 Accent6 Hyperlink FollowedHyperlink None Background1 Text1 Background2 Text2 Unsupported", {}, "Ok:Unsupported"),
 "VAlignType": ("Top Center Bottom Unsupported", {}, "Ok:Unsupported"),
 "VMergeType": ("Continue Restart Unsupported", {}, "Ok:Unsupported"),
 "VertAlignType": ("Baseline SuperScript SubScript Unsupported", {"SuperScript":"superscript","SubScript":"subscript"}, "Ok:Unsupported"),
 "WidthType": ("Dxa Auto Pct Nil Unsupported", {}, None),
 "LineSpacingType": ("Auto AtLeast Exact", {}, "Err"),
}
NO_FROMSTR = {"FontPitchType","PicAlign"}
NO_DISPLAY = {"LineSpacingType"}
# further accepted spellings of the same value
ALIAS = {"TableAlignmentType": {"start":"Left","end":"Right"}, "WidthType": {"DXA":"Dxa","Auto":"Auto","Pct":"Pct","Nil":"Nil"}}
o = ["//@include prelude.rs", "verus! {", "broadcast use ax::str_ext;"]
for n,(vs,exc,fb) in E.items():
    vs = vs.split()
    tok = {v: exc.get(v, camel(v)) for v in vs}
    o.append(f"//@enum {n}")
    o.append(f"pub open spec fn tok_{n}(v: {n}) -> Seq<char> {{ match v {{")
    for v in vs: o.append(f"    {n}::{v} => \"{tok[v]}\"@,")
    o.append("} }")
    rev = " ".join(f'reveal_strlit("{t}");' for t in tok.values())
    wire = [v for v in vs if v != "Unsupported"]
    if n not in NO_DISPLAY:
        o += [f"//@fn <{n} as Display>::fmt", "//@|  ensures r is Ok, final(f).out() == old(f).out() + tok_%s(*self)," % n,
              "//@at start", f"//@|  proof {{ {rev} }}", "//@end"]
    if n not in NO_FROMSTR:
        al = ALIAS.get(n, {})
        rev2 = rev + " " + " ".join(f'reveal_strlit("{t}");' for t in al)
        o.append(f"//@fn <{n} as FromStr>::from_str autostr")
        o.append("//@|  ensures")
        for v in wire: o.append(f"//@|    s@ == tok_{n}({n}::{v}) ==> r == Ok::<{n}, TypeError>({n}::{v}),")
        for t,v in al.items(): o.append(f"//@|    s@ == \"{t}\"@ ==> r == Ok::<{n}, TypeError>({n}::{v}),")
        if fb:
            cond = " && ".join([f"s@ != tok_{n}({n}::{v})" for v in wire])
            if fb == "Err": o.append(f"//@|    ({cond}) ==> r is Err,")
            else: o.append(f"//@|    ({cond}) ==> r == Ok::<{n}, TypeError>({n}::{fb[3:]}),")
        o += ["//@at start", f"//@|  proof {{ {rev2} }}", "//@end"]
        # the codec law itself, as a lemma over the two contracts: tokens of distinct wire values differ
        o.append(f"pub proof fn inj_{n}(a: {n}, b: {n})")
        o.append(f"    requires tok_{n}(a) == tok_{n}(b), " + "!(a is Unsupported), !(b is Unsupported)," * ("Unsupported" in vs))
        o.append(f"    ensures a == b\n{{ {rev} lem_inj_{n}(a, b); }}" if False else f"    ensures a == b\n{{ {rev} assert(tok_{n}(a).len() == tok_{n}(b).len()); assert forall |i: int| 0 <= i < tok_{n}(a).len() implies tok_{n}(a)[i] == tok_{n}(b)[i] by {{}} }}")
o += ["proof fn vx_probe() ensures false {}", "fn main() {}", "}"]
open("/verif/units/codec.rs","w").write("\n".join(o)+"\n")
