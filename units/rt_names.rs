/// What the names written look like without their prefix.
pub proof fn names()
    ensures
        local("w:tcPr"@) == "tcPr"@,
        local("w:tcW"@) == "tcW"@,
        local("w:tcBorders"@) == "tcBorders"@,
        local("w:gridSpan"@) == "gridSpan"@,
        local("w:vMerge"@) == "vMerge"@,
        local("w:vAlign"@) == "vAlign"@,
        local("w:textDirection"@) == "textDirection"@,
        local("w:shd"@) == "shd"@,
        local("w:tcMar"@) == "tcMar"@,
        local("w:top"@) == "top"@,
        local("w:left"@) == "left"@,
        local("w:bottom"@) == "bottom"@,
        local("w:right"@) == "right"@,
        local("w:insideH"@) == "insideH"@,
        local("w:insideV"@) == "insideV"@,
        local("w:tl2br"@) == "tl2br"@,
        local("w:tr2bl"@) == "tr2bl"@,
        local("w:tblPr"@) == "tblPr"@,
        local("w:tblW"@) == "tblW"@,
        local("w:jc"@) == "jc"@,
        local("w:tblBorders"@) == "tblBorders"@,
        local("w:tblCellMar"@) == "tblCellMar"@,
        local("w:tblInd"@) == "tblInd"@,
        local("w:tblStyle"@) == "tblStyle"@,
        local("w:tblpPr"@) == "tblpPr"@,
        local("w:w"@) == "w"@,
        local("w:type"@) == "type"@,
        local("w:val"@) == "val"@,
        local("w:sz"@) == "sz"@,
        local("w:space"@) == "space"@,
        local("w:color"@) == "color"@,
        local("w:fill"@) == "fill"@,
        local("w:leftFromText"@) == "leftFromText"@,
        local("w:rightFromText"@) == "rightFromText"@,
        local("w:vertAnchor"@) == "vertAnchor"@,
        local("w:horzAnchor"@) == "horzAnchor"@,
        local("w:tblpXSpec"@) == "tblpXSpec"@,
        local("w:tblpYSpec"@) == "tblpYSpec"@,
        local("w:tblpX"@) == "tblpX"@,
        local("w:tblpY"@) == "tblpY"@,
{
    reveal_strlit("w:tcPr"); reveal_strlit("tcPr"); assert(local("w:tcPr"@) =~= "tcPr"@);
    reveal_strlit("w:tcW"); reveal_strlit("tcW"); assert(local("w:tcW"@) =~= "tcW"@);
    reveal_strlit("w:tcBorders"); reveal_strlit("tcBorders"); assert(local("w:tcBorders"@) =~= "tcBorders"@);
    reveal_strlit("w:gridSpan"); reveal_strlit("gridSpan"); assert(local("w:gridSpan"@) =~= "gridSpan"@);
    reveal_strlit("w:vMerge"); reveal_strlit("vMerge"); assert(local("w:vMerge"@) =~= "vMerge"@);
    reveal_strlit("w:vAlign"); reveal_strlit("vAlign"); assert(local("w:vAlign"@) =~= "vAlign"@);
    reveal_strlit("w:textDirection"); reveal_strlit("textDirection"); assert(local("w:textDirection"@) =~= "textDirection"@);
    reveal_strlit("w:shd"); reveal_strlit("shd"); assert(local("w:shd"@) =~= "shd"@);
    reveal_strlit("w:tcMar"); reveal_strlit("tcMar"); assert(local("w:tcMar"@) =~= "tcMar"@);
    reveal_strlit("w:top"); reveal_strlit("top"); assert(local("w:top"@) =~= "top"@);
    reveal_strlit("w:left"); reveal_strlit("left"); assert(local("w:left"@) =~= "left"@);
    reveal_strlit("w:bottom"); reveal_strlit("bottom"); assert(local("w:bottom"@) =~= "bottom"@);
    reveal_strlit("w:right"); reveal_strlit("right"); assert(local("w:right"@) =~= "right"@);
    reveal_strlit("w:insideH"); reveal_strlit("insideH"); assert(local("w:insideH"@) =~= "insideH"@);
    reveal_strlit("w:insideV"); reveal_strlit("insideV"); assert(local("w:insideV"@) =~= "insideV"@);
    reveal_strlit("w:tl2br"); reveal_strlit("tl2br"); assert(local("w:tl2br"@) =~= "tl2br"@);
    reveal_strlit("w:tr2bl"); reveal_strlit("tr2bl"); assert(local("w:tr2bl"@) =~= "tr2bl"@);
    reveal_strlit("w:tblPr"); reveal_strlit("tblPr"); assert(local("w:tblPr"@) =~= "tblPr"@);
    reveal_strlit("w:tblW"); reveal_strlit("tblW"); assert(local("w:tblW"@) =~= "tblW"@);
    reveal_strlit("w:jc"); reveal_strlit("jc"); assert(local("w:jc"@) =~= "jc"@);
    reveal_strlit("w:tblBorders"); reveal_strlit("tblBorders"); assert(local("w:tblBorders"@) =~= "tblBorders"@);
    reveal_strlit("w:tblCellMar"); reveal_strlit("tblCellMar"); assert(local("w:tblCellMar"@) =~= "tblCellMar"@);
    reveal_strlit("w:tblInd"); reveal_strlit("tblInd"); assert(local("w:tblInd"@) =~= "tblInd"@);
    reveal_strlit("w:tblStyle"); reveal_strlit("tblStyle"); assert(local("w:tblStyle"@) =~= "tblStyle"@);
    reveal_strlit("w:tblpPr"); reveal_strlit("tblpPr"); assert(local("w:tblpPr"@) =~= "tblpPr"@);
    reveal_strlit("w:w"); reveal_strlit("w"); assert(local("w:w"@) =~= "w"@);
    reveal_strlit("w:type"); reveal_strlit("type"); assert(local("w:type"@) =~= "type"@);
    reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@);
    reveal_strlit("w:sz"); reveal_strlit("sz"); assert(local("w:sz"@) =~= "sz"@);
    reveal_strlit("w:space"); reveal_strlit("space"); assert(local("w:space"@) =~= "space"@);
    reveal_strlit("w:color"); reveal_strlit("color"); assert(local("w:color"@) =~= "color"@);
    reveal_strlit("w:fill"); reveal_strlit("fill"); assert(local("w:fill"@) =~= "fill"@);
    reveal_strlit("w:leftFromText"); reveal_strlit("leftFromText"); assert(local("w:leftFromText"@) =~= "leftFromText"@);
    reveal_strlit("w:rightFromText"); reveal_strlit("rightFromText"); assert(local("w:rightFromText"@) =~= "rightFromText"@);
    reveal_strlit("w:vertAnchor"); reveal_strlit("vertAnchor"); assert(local("w:vertAnchor"@) =~= "vertAnchor"@);
    reveal_strlit("w:horzAnchor"); reveal_strlit("horzAnchor"); assert(local("w:horzAnchor"@) =~= "horzAnchor"@);
    reveal_strlit("w:tblpXSpec"); reveal_strlit("tblpXSpec"); assert(local("w:tblpXSpec"@) =~= "tblpXSpec"@);
    reveal_strlit("w:tblpYSpec"); reveal_strlit("tblpYSpec"); assert(local("w:tblpYSpec"@) =~= "tblpYSpec"@);
    reveal_strlit("w:tblpX"); reveal_strlit("tblpX"); assert(local("w:tblpX"@) =~= "tblpX"@);
    reveal_strlit("w:tblpY"); reveal_strlit("tblpY"); assert(local("w:tblpY"@) =~= "tblpY"@);
}
