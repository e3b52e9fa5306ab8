/// What the names written look like without their prefix.
pub proof fn names_p()
    ensures
        local("w:pPr"@) == "pPr"@,
        local("w:pStyle"@) == "pStyle"@,
        local("w:jc"@) == "jc"@,
        local("w:textAlignment"@) == "textAlignment"@,
        local("w:widowControl"@) == "widowControl"@,
        local("w:outlineLvl"@) == "outlineLvl"@,
        local("w:adjustRightInd"@) == "adjustRightInd"@,
        local("w:ilvl"@) == "ilvl"@,
        local("w:numId"@) == "numId"@,
        local("w:snapToGrid"@) == "snapToGrid"@,
        local("w:keepNext"@) == "keepNext"@,
        local("w:keepLines"@) == "keepLines"@,
        local("w:pageBreakBefore"@) == "pageBreakBefore"@,
        local("w:ind"@) == "ind"@,
        local("w:left"@) == "left"@,
        local("w:right"@) == "right"@,
        local("w:leftChars"@) == "leftChars"@,
        local("w:firstLine"@) == "firstLine"@,
        local("w:hanging"@) == "hanging"@,
        local("w:before"@) == "before"@,
        local("w:after"@) == "after"@,
        local("w:beforeLines"@) == "beforeLines"@,
        local("w:afterLines"@) == "afterLines"@,
        local("w:line"@) == "line"@,
        local("w:lineRule"@) == "lineRule"@,
        local("w:framePr"@) == "framePr"@,
        local("w:wrap"@) == "wrap"@,
        local("w:hRule"@) == "hRule"@,
        local("w:hAnchor"@) == "hAnchor"@,
        local("w:vAnchor"@) == "vAnchor"@,
        local("w:xAlign"@) == "xAlign"@,
        local("w:yAlign"@) == "yAlign"@,
        local("w:x"@) == "x"@,
        local("w:y"@) == "y"@,
        local("w:hSpace"@) == "hSpace"@,
        local("w:vSpace"@) == "vSpace"@,
        local("w:h"@) == "h"@,
        local("w:tab"@) == "tab"@,
        local("w:leader"@) == "leader"@,
        local("w:pos"@) == "pos"@,
        local("w:tabs"@) == "tabs"@,
        local("w:numPr"@) == "numPr"@,
{
    reveal_strlit("w:pPr"); reveal_strlit("pPr"); assert(local("w:pPr"@) =~= "pPr"@);
    reveal_strlit("w:pStyle"); reveal_strlit("pStyle"); assert(local("w:pStyle"@) =~= "pStyle"@);
    reveal_strlit("w:jc"); reveal_strlit("jc"); assert(local("w:jc"@) =~= "jc"@);
    reveal_strlit("w:textAlignment"); reveal_strlit("textAlignment"); assert(local("w:textAlignment"@) =~= "textAlignment"@);
    reveal_strlit("w:widowControl"); reveal_strlit("widowControl"); assert(local("w:widowControl"@) =~= "widowControl"@);
    reveal_strlit("w:outlineLvl"); reveal_strlit("outlineLvl"); assert(local("w:outlineLvl"@) =~= "outlineLvl"@);
    reveal_strlit("w:adjustRightInd"); reveal_strlit("adjustRightInd"); assert(local("w:adjustRightInd"@) =~= "adjustRightInd"@);
    reveal_strlit("w:ilvl"); reveal_strlit("ilvl"); assert(local("w:ilvl"@) =~= "ilvl"@);
    reveal_strlit("w:numId"); reveal_strlit("numId"); assert(local("w:numId"@) =~= "numId"@);
    reveal_strlit("w:snapToGrid"); reveal_strlit("snapToGrid"); assert(local("w:snapToGrid"@) =~= "snapToGrid"@);
    reveal_strlit("w:keepNext"); reveal_strlit("keepNext"); assert(local("w:keepNext"@) =~= "keepNext"@);
    reveal_strlit("w:keepLines"); reveal_strlit("keepLines"); assert(local("w:keepLines"@) =~= "keepLines"@);
    reveal_strlit("w:pageBreakBefore"); reveal_strlit("pageBreakBefore"); assert(local("w:pageBreakBefore"@) =~= "pageBreakBefore"@);
    reveal_strlit("w:ind"); reveal_strlit("ind"); assert(local("w:ind"@) =~= "ind"@);
    reveal_strlit("w:left"); reveal_strlit("left"); assert(local("w:left"@) =~= "left"@);
    reveal_strlit("w:right"); reveal_strlit("right"); assert(local("w:right"@) =~= "right"@);
    reveal_strlit("w:leftChars"); reveal_strlit("leftChars"); assert(local("w:leftChars"@) =~= "leftChars"@);
    reveal_strlit("w:firstLine"); reveal_strlit("firstLine"); assert(local("w:firstLine"@) =~= "firstLine"@);
    reveal_strlit("w:hanging"); reveal_strlit("hanging"); assert(local("w:hanging"@) =~= "hanging"@);
    reveal_strlit("w:before"); reveal_strlit("before"); assert(local("w:before"@) =~= "before"@);
    reveal_strlit("w:after"); reveal_strlit("after"); assert(local("w:after"@) =~= "after"@);
    reveal_strlit("w:beforeLines"); reveal_strlit("beforeLines"); assert(local("w:beforeLines"@) =~= "beforeLines"@);
    reveal_strlit("w:afterLines"); reveal_strlit("afterLines"); assert(local("w:afterLines"@) =~= "afterLines"@);
    reveal_strlit("w:line"); reveal_strlit("line"); assert(local("w:line"@) =~= "line"@);
    reveal_strlit("w:lineRule"); reveal_strlit("lineRule"); assert(local("w:lineRule"@) =~= "lineRule"@);
    reveal_strlit("w:framePr"); reveal_strlit("framePr"); assert(local("w:framePr"@) =~= "framePr"@);
    reveal_strlit("w:wrap"); reveal_strlit("wrap"); assert(local("w:wrap"@) =~= "wrap"@);
    reveal_strlit("w:hRule"); reveal_strlit("hRule"); assert(local("w:hRule"@) =~= "hRule"@);
    reveal_strlit("w:hAnchor"); reveal_strlit("hAnchor"); assert(local("w:hAnchor"@) =~= "hAnchor"@);
    reveal_strlit("w:vAnchor"); reveal_strlit("vAnchor"); assert(local("w:vAnchor"@) =~= "vAnchor"@);
    reveal_strlit("w:xAlign"); reveal_strlit("xAlign"); assert(local("w:xAlign"@) =~= "xAlign"@);
    reveal_strlit("w:yAlign"); reveal_strlit("yAlign"); assert(local("w:yAlign"@) =~= "yAlign"@);
    reveal_strlit("w:x"); reveal_strlit("x"); assert(local("w:x"@) =~= "x"@);
    reveal_strlit("w:y"); reveal_strlit("y"); assert(local("w:y"@) =~= "y"@);
    reveal_strlit("w:hSpace"); reveal_strlit("hSpace"); assert(local("w:hSpace"@) =~= "hSpace"@);
    reveal_strlit("w:vSpace"); reveal_strlit("vSpace"); assert(local("w:vSpace"@) =~= "vSpace"@);
    reveal_strlit("w:h"); reveal_strlit("h"); assert(local("w:h"@) =~= "h"@);
    reveal_strlit("w:tab"); reveal_strlit("tab"); assert(local("w:tab"@) =~= "tab"@);
    reveal_strlit("w:leader"); reveal_strlit("leader"); assert(local("w:leader"@) =~= "leader"@);
    reveal_strlit("w:pos"); reveal_strlit("pos"); assert(local("w:pos"@) =~= "pos"@);
    reveal_strlit("w:tabs"); reveal_strlit("tabs"); assert(local("w:tabs"@) =~= "tabs"@);
    reveal_strlit("w:numPr"); reveal_strlit("numPr"); assert(local("w:numPr"@) =~= "numPr"@);
}
