/// What the names written look like without their prefix.
pub proof fn names()
    ensures
        local("w:sectPr"@) == "sectPr"@,
        local("w:pgSz"@) == "pgSz"@,
        local("w:pgMar"@) == "pgMar"@,
        local("w:docGrid"@) == "docGrid"@,
        local("w:headerReference"@) == "headerReference"@,
        local("w:footerReference"@) == "footerReference"@,
        local("w:pgNumType"@) == "pgNumType"@,
        local("w:type"@) == "type"@,
        local("w:titlePg"@) == "titlePg"@,
        local("w:textDirection"@) == "textDirection"@,
        local("w:cols"@) == "cols"@,
        local("w:w"@) == "w"@,
        local("w:h"@) == "h"@,
        local("w:orient"@) == "orient"@,
        local("w:space"@) == "space"@,
        local("w:num"@) == "num"@,
        local("w:linePitch"@) == "linePitch"@,
        local("w:charSpace"@) == "charSpace"@,
        local("w:start"@) == "start"@,
        local("w:chapStyle"@) == "chapStyle"@,
        local("w:val"@) == "val"@,
        local("w:top"@) == "top"@,
        local("w:right"@) == "right"@,
        local("w:bottom"@) == "bottom"@,
        local("w:left"@) == "left"@,
        local("w:header"@) == "header"@,
        local("w:footer"@) == "footer"@,
        local("w:gutter"@) == "gutter"@,
        local("r:id"@) == "id"@,
{
    reveal_strlit("w:sectPr"); reveal_strlit("sectPr"); assert(local("w:sectPr"@) =~= "sectPr"@);
    reveal_strlit("w:pgSz"); reveal_strlit("pgSz"); assert(local("w:pgSz"@) =~= "pgSz"@);
    reveal_strlit("w:pgMar"); reveal_strlit("pgMar"); assert(local("w:pgMar"@) =~= "pgMar"@);
    reveal_strlit("w:docGrid"); reveal_strlit("docGrid"); assert(local("w:docGrid"@) =~= "docGrid"@);
    reveal_strlit("w:headerReference"); reveal_strlit("headerReference"); assert(local("w:headerReference"@) =~= "headerReference"@);
    reveal_strlit("w:footerReference"); reveal_strlit("footerReference"); assert(local("w:footerReference"@) =~= "footerReference"@);
    reveal_strlit("w:pgNumType"); reveal_strlit("pgNumType"); assert(local("w:pgNumType"@) =~= "pgNumType"@);
    reveal_strlit("w:type"); reveal_strlit("type"); assert(local("w:type"@) =~= "type"@);
    reveal_strlit("w:titlePg"); reveal_strlit("titlePg"); assert(local("w:titlePg"@) =~= "titlePg"@);
    reveal_strlit("w:textDirection"); reveal_strlit("textDirection"); assert(local("w:textDirection"@) =~= "textDirection"@);
    reveal_strlit("w:cols"); reveal_strlit("cols"); assert(local("w:cols"@) =~= "cols"@);
    reveal_strlit("w:w"); reveal_strlit("w"); assert(local("w:w"@) =~= "w"@);
    reveal_strlit("w:h"); reveal_strlit("h"); assert(local("w:h"@) =~= "h"@);
    reveal_strlit("w:orient"); reveal_strlit("orient"); assert(local("w:orient"@) =~= "orient"@);
    reveal_strlit("w:space"); reveal_strlit("space"); assert(local("w:space"@) =~= "space"@);
    reveal_strlit("w:num"); reveal_strlit("num"); assert(local("w:num"@) =~= "num"@);
    reveal_strlit("w:linePitch"); reveal_strlit("linePitch"); assert(local("w:linePitch"@) =~= "linePitch"@);
    reveal_strlit("w:charSpace"); reveal_strlit("charSpace"); assert(local("w:charSpace"@) =~= "charSpace"@);
    reveal_strlit("w:start"); reveal_strlit("start"); assert(local("w:start"@) =~= "start"@);
    reveal_strlit("w:chapStyle"); reveal_strlit("chapStyle"); assert(local("w:chapStyle"@) =~= "chapStyle"@);
    reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@);
    reveal_strlit("w:top"); reveal_strlit("top"); assert(local("w:top"@) =~= "top"@);
    reveal_strlit("w:right"); reveal_strlit("right"); assert(local("w:right"@) =~= "right"@);
    reveal_strlit("w:bottom"); reveal_strlit("bottom"); assert(local("w:bottom"@) =~= "bottom"@);
    reveal_strlit("w:left"); reveal_strlit("left"); assert(local("w:left"@) =~= "left"@);
    reveal_strlit("w:header"); reveal_strlit("header"); assert(local("w:header"@) =~= "header"@);
    reveal_strlit("w:footer"); reveal_strlit("footer"); assert(local("w:footer"@) =~= "footer"@);
    reveal_strlit("w:gutter"); reveal_strlit("gutter"); assert(local("w:gutter"@) =~= "gutter"@);
    reveal_strlit("r:id"); reveal_strlit("id"); assert(local("r:id"@) =~= "id"@);
}
