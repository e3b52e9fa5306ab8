/// What the names written look like without their prefix.
pub proof fn names()
    ensures
        local("w:sz"@) == "sz"@,
        local("w:szCs"@) == "szCs"@,
        local("w:color"@) == "color"@,
        local("w:b"@) == "b"@,
        local("w:bCs"@) == "bCs"@,
        local("w:caps"@) == "caps"@,
        local("w:i"@) == "i"@,
        local("w:iCs"@) == "iCs"@,
        local("w:strike"@) == "strike"@,
        local("w:dstrike"@) == "dstrike"@,
        local("w:highlight"@) == "highlight"@,
        local("w:u"@) == "u"@,
        local("w:vanish"@) == "vanish"@,
        local("w:specVanish"@) == "specVanish"@,
        local("w:rFonts"@) == "rFonts"@,
        local("w:bdr"@) == "bdr"@,
        local("w:vertAlign"@) == "vertAlign"@,
        local("w:spacing"@) == "spacing"@,
        local("w:fitText"@) == "fitText"@,
        local("w:w"@) == "w"@,
        local("w:rStyle"@) == "rStyle"@,
        local("w:shd"@) == "shd"@,
        local("w:rPr"@) == "rPr"@,
        local("w:val"@) == "val"@,
        local("w:themeColor"@) == "themeColor"@,
        local("w:themeShade"@) == "themeShade"@,
        local("w:themeTint"@) == "themeTint"@,
        local("w:ascii"@) == "ascii"@,
        local("w:hAnsi"@) == "hAnsi"@,
        local("w:cs"@) == "cs"@,
        local("w:eastAsia"@) == "eastAsia"@,
        local("w:asciiTheme"@) == "asciiTheme"@,
        local("w:hAnsiTheme"@) == "hAnsiTheme"@,
        local("w:cstheme"@) == "cstheme"@,
        local("w:eastAsiaTheme"@) == "eastAsiaTheme"@,
        local("w:hint"@) == "hint"@,
        local("w:space"@) == "space"@,
        local("w:fill"@) == "fill"@,
        local("w:id"@) == "id"@,
{
    reveal_strlit("w:sz"); reveal_strlit("sz"); assert(local("w:sz"@) =~= "sz"@);
    reveal_strlit("w:szCs"); reveal_strlit("szCs"); assert(local("w:szCs"@) =~= "szCs"@);
    reveal_strlit("w:color"); reveal_strlit("color"); assert(local("w:color"@) =~= "color"@);
    reveal_strlit("w:b"); reveal_strlit("b"); assert(local("w:b"@) =~= "b"@);
    reveal_strlit("w:bCs"); reveal_strlit("bCs"); assert(local("w:bCs"@) =~= "bCs"@);
    reveal_strlit("w:caps"); reveal_strlit("caps"); assert(local("w:caps"@) =~= "caps"@);
    reveal_strlit("w:i"); reveal_strlit("i"); assert(local("w:i"@) =~= "i"@);
    reveal_strlit("w:iCs"); reveal_strlit("iCs"); assert(local("w:iCs"@) =~= "iCs"@);
    reveal_strlit("w:strike"); reveal_strlit("strike"); assert(local("w:strike"@) =~= "strike"@);
    reveal_strlit("w:dstrike"); reveal_strlit("dstrike"); assert(local("w:dstrike"@) =~= "dstrike"@);
    reveal_strlit("w:highlight"); reveal_strlit("highlight"); assert(local("w:highlight"@) =~= "highlight"@);
    reveal_strlit("w:u"); reveal_strlit("u"); assert(local("w:u"@) =~= "u"@);
    reveal_strlit("w:vanish"); reveal_strlit("vanish"); assert(local("w:vanish"@) =~= "vanish"@);
    reveal_strlit("w:specVanish"); reveal_strlit("specVanish"); assert(local("w:specVanish"@) =~= "specVanish"@);
    reveal_strlit("w:rFonts"); reveal_strlit("rFonts"); assert(local("w:rFonts"@) =~= "rFonts"@);
    reveal_strlit("w:bdr"); reveal_strlit("bdr"); assert(local("w:bdr"@) =~= "bdr"@);
    reveal_strlit("w:vertAlign"); reveal_strlit("vertAlign"); assert(local("w:vertAlign"@) =~= "vertAlign"@);
    reveal_strlit("w:spacing"); reveal_strlit("spacing"); assert(local("w:spacing"@) =~= "spacing"@);
    reveal_strlit("w:fitText"); reveal_strlit("fitText"); assert(local("w:fitText"@) =~= "fitText"@);
    reveal_strlit("w:w"); reveal_strlit("w"); assert(local("w:w"@) =~= "w"@);
    reveal_strlit("w:rStyle"); reveal_strlit("rStyle"); assert(local("w:rStyle"@) =~= "rStyle"@);
    reveal_strlit("w:shd"); reveal_strlit("shd"); assert(local("w:shd"@) =~= "shd"@);
    reveal_strlit("w:rPr"); reveal_strlit("rPr"); assert(local("w:rPr"@) =~= "rPr"@);
    reveal_strlit("w:val"); reveal_strlit("val"); assert(local("w:val"@) =~= "val"@);
    reveal_strlit("w:themeColor"); reveal_strlit("themeColor"); assert(local("w:themeColor"@) =~= "themeColor"@);
    reveal_strlit("w:themeShade"); reveal_strlit("themeShade"); assert(local("w:themeShade"@) =~= "themeShade"@);
    reveal_strlit("w:themeTint"); reveal_strlit("themeTint"); assert(local("w:themeTint"@) =~= "themeTint"@);
    reveal_strlit("w:ascii"); reveal_strlit("ascii"); assert(local("w:ascii"@) =~= "ascii"@);
    reveal_strlit("w:hAnsi"); reveal_strlit("hAnsi"); assert(local("w:hAnsi"@) =~= "hAnsi"@);
    reveal_strlit("w:cs"); reveal_strlit("cs"); assert(local("w:cs"@) =~= "cs"@);
    reveal_strlit("w:eastAsia"); reveal_strlit("eastAsia"); assert(local("w:eastAsia"@) =~= "eastAsia"@);
    reveal_strlit("w:asciiTheme"); reveal_strlit("asciiTheme"); assert(local("w:asciiTheme"@) =~= "asciiTheme"@);
    reveal_strlit("w:hAnsiTheme"); reveal_strlit("hAnsiTheme"); assert(local("w:hAnsiTheme"@) =~= "hAnsiTheme"@);
    reveal_strlit("w:cstheme"); reveal_strlit("cstheme"); assert(local("w:cstheme"@) =~= "cstheme"@);
    reveal_strlit("w:eastAsiaTheme"); reveal_strlit("eastAsiaTheme"); assert(local("w:eastAsiaTheme"@) =~= "eastAsiaTheme"@);
    reveal_strlit("w:hint"); reveal_strlit("hint"); assert(local("w:hint"@) =~= "hint"@);
    reveal_strlit("w:space"); reveal_strlit("space"); assert(local("w:space"@) =~= "space"@);
    reveal_strlit("w:fill"); reveal_strlit("fill"); assert(local("w:fill"@) =~= "fill"@);
    reveal_strlit("w:id"); reveal_strlit("id"); assert(local("w:id"@) =~= "id"@);
}
