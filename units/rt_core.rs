pub open spec fn sp_TableCellWidth_new(width: usize, width_type: WidthType) -> TableCellWidth { TableCellWidth { width: width, width_type: width_type } }
//@fn TableCellWidth::new r=out
//@| ensures out == sp_TableCellWidth_new(width, width_type),
//@end
pub open spec fn sp_TableCellProperty_width(this: TableCellProperty, v: usize, t: WidthType) -> TableCellProperty { TableCellProperty { width: Some(sp_TableCellWidth_new(v, t)), ..this } }
//@fn TableCellProperty::width r=out
//@| ensures out == sp_TableCellProperty_width(self, v, t),
//@end
pub open spec fn sp_GridSpan_new(v: usize) -> GridSpan { GridSpan { val: v } }
//@fn GridSpan::new r=out
//@| ensures out == sp_GridSpan_new(v),
//@end
pub open spec fn sp_TableCellProperty_grid_span(this: TableCellProperty, v: usize) -> TableCellProperty { TableCellProperty { grid_span: Some(sp_GridSpan_new(v)), ..this } }
//@fn TableCellProperty::grid_span r=out
//@| ensures out == sp_TableCellProperty_grid_span(self, v),
//@end
pub open spec fn sp_VMerge_new(v: VMergeType) -> VMerge { VMerge { val: v } }
//@fn VMerge::new r=out
//@| ensures out == sp_VMerge_new(v),
//@end
pub open spec fn sp_TableCellProperty_vertical_merge(this: TableCellProperty, t: VMergeType) -> TableCellProperty { TableCellProperty { vertical_merge: Some(sp_VMerge_new(t)), ..this } }
//@fn TableCellProperty::vertical_merge r=out
//@| ensures out == sp_TableCellProperty_vertical_merge(self, t),
//@end
pub open spec fn sp_VAlign_new(v: VAlignType) -> VAlign { VAlign { val: v } }
//@fn VAlign::new r=out
//@| ensures out == sp_VAlign_new(v),
//@end
pub open spec fn sp_TableCellProperty_vertical_align(this: TableCellProperty, t: VAlignType) -> TableCellProperty { TableCellProperty { vertical_align: Some(sp_VAlign_new(t)), ..this } }
//@fn TableCellProperty::vertical_align r=out
//@| ensures out == sp_TableCellProperty_vertical_align(self, t),
//@end
pub open spec fn sp_TableCellProperty_shading(this: TableCellProperty, s: Shading) -> TableCellProperty { TableCellProperty { shading: Some(s), ..this } }
//@fn TableCellProperty::shading r=out
//@| ensures out == sp_TableCellProperty_shading(self, s),
//@end
pub open spec fn sp_TextDirection_new(t: TextDirectionType) -> TextDirection { TextDirection { val: t } }
//@fn TextDirection::new r=out
//@| ensures out == sp_TextDirection_new(t),
//@end
pub open spec fn sp_TableCellProperty_text_direction(this: TableCellProperty, t: TextDirectionType) -> TableCellProperty { TableCellProperty { text_direction: Some(sp_TextDirection_new(t)), ..this } }
//@fn TableCellProperty::text_direction r=out
//@| ensures out == sp_TableCellProperty_text_direction(self, t),
//@end
pub open spec fn sp_TableCellProperty_set_borders(this: TableCellProperty, borders: TableCellBorders) -> TableCellProperty { TableCellProperty { borders: Some(borders), ..this } }
//@fn TableCellProperty::set_borders r=out
//@| ensures out == sp_TableCellProperty_set_borders(self, borders),
//@end
pub open spec fn sp_TableCellProperty_margins(this: TableCellProperty, margins: CellMargins) -> TableCellProperty { TableCellProperty { margins: Some(margins), ..this } }
//@fn TableCellProperty::margins r=out
//@| ensures out == sp_TableCellProperty_margins(self, margins),
//@end
pub open spec fn sp_TableCellBorders_set(this: TableCellBorders, border: TableCellBorder) -> TableCellBorders { TableCellBorders { bottom: (match border.position { TableCellBorderPosition::Top => this.bottom, TableCellBorderPosition::Left => this.bottom, TableCellBorderPosition::Bottom => Some(border), TableCellBorderPosition::Right => this.bottom, TableCellBorderPosition::InsideH => this.bottom, TableCellBorderPosition::InsideV => this.bottom, TableCellBorderPosition::Tr2bl => this.bottom, TableCellBorderPosition::Tl2br => this.bottom,  }), inside_h: (match border.position { TableCellBorderPosition::Top => this.inside_h, TableCellBorderPosition::Left => this.inside_h, TableCellBorderPosition::Bottom => this.inside_h, TableCellBorderPosition::Right => this.inside_h, TableCellBorderPosition::InsideH => Some(border), TableCellBorderPosition::InsideV => this.inside_h, TableCellBorderPosition::Tr2bl => this.inside_h, TableCellBorderPosition::Tl2br => this.inside_h,  }), inside_v: (match border.position { TableCellBorderPosition::Top => this.inside_v, TableCellBorderPosition::Left => this.inside_v, TableCellBorderPosition::Bottom => this.inside_v, TableCellBorderPosition::Right => this.inside_v, TableCellBorderPosition::InsideH => this.inside_v, TableCellBorderPosition::InsideV => Some(border), TableCellBorderPosition::Tr2bl => this.inside_v, TableCellBorderPosition::Tl2br => this.inside_v,  }), left: (match border.position { TableCellBorderPosition::Top => this.left, TableCellBorderPosition::Left => Some(border), TableCellBorderPosition::Bottom => this.left, TableCellBorderPosition::Right => this.left, TableCellBorderPosition::InsideH => this.left, TableCellBorderPosition::InsideV => this.left, TableCellBorderPosition::Tr2bl => this.left, TableCellBorderPosition::Tl2br => this.left,  }), right: (match border.position { TableCellBorderPosition::Top => this.right, TableCellBorderPosition::Left => this.right, TableCellBorderPosition::Bottom => this.right, TableCellBorderPosition::Right => Some(border), TableCellBorderPosition::InsideH => this.right, TableCellBorderPosition::InsideV => this.right, TableCellBorderPosition::Tr2bl => this.right, TableCellBorderPosition::Tl2br => this.right,  }), tl2br: (match border.position { TableCellBorderPosition::Top => this.tl2br, TableCellBorderPosition::Left => this.tl2br, TableCellBorderPosition::Bottom => this.tl2br, TableCellBorderPosition::Right => this.tl2br, TableCellBorderPosition::InsideH => this.tl2br, TableCellBorderPosition::InsideV => this.tl2br, TableCellBorderPosition::Tr2bl => this.tl2br, TableCellBorderPosition::Tl2br => Some(border),  }), top: (match border.position { TableCellBorderPosition::Top => Some(border), TableCellBorderPosition::Left => this.top, TableCellBorderPosition::Bottom => this.top, TableCellBorderPosition::Right => this.top, TableCellBorderPosition::InsideH => this.top, TableCellBorderPosition::InsideV => this.top, TableCellBorderPosition::Tr2bl => this.top, TableCellBorderPosition::Tl2br => this.top,  }), tr2bl: (match border.position { TableCellBorderPosition::Top => this.tr2bl, TableCellBorderPosition::Left => this.tr2bl, TableCellBorderPosition::Bottom => this.tr2bl, TableCellBorderPosition::Right => this.tr2bl, TableCellBorderPosition::InsideH => this.tr2bl, TableCellBorderPosition::InsideV => this.tr2bl, TableCellBorderPosition::Tr2bl => Some(border), TableCellBorderPosition::Tl2br => this.tr2bl,  }), ..this } }
//@fn TableCellBorders::set r=out
//@| ensures out == sp_TableCellBorders_set(self, border),
//@end
pub open spec fn sp_TableCellBorder_new(position: TableCellBorderPosition) -> TableCellBorder { TableCellBorder { position: position, border_type: BorderType::Single, size: 2, space: 0, color: strv("000000"@) } }
//@fn TableCellBorder::new r=out
//@| ensures out == sp_TableCellBorder_new(position),
//@end
pub open spec fn sp_TableCellBorder_border_type(this: TableCellBorder, border_type: BorderType) -> TableCellBorder { TableCellBorder { border_type: border_type, ..this } }
//@fn TableCellBorder::border_type r=out
//@| ensures out == sp_TableCellBorder_border_type(self, border_type),
//@end
pub open spec fn sp_TableCellBorder_color(this: TableCellBorder, color: Seq<char>) -> TableCellBorder { TableCellBorder { color: strv(color), ..this } }
//@fn TableCellBorder::color r=out
//@| ensures out == sp_TableCellBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TableCellBorder_size(this: TableCellBorder, size: usize) -> TableCellBorder { TableCellBorder { size: size, ..this } }
//@fn TableCellBorder::size r=out
//@| ensures out == sp_TableCellBorder_size(self, size),
//@end
pub open spec fn sp_CellMargin_new(val: usize, t: WidthType) -> CellMargin { CellMargin { val: val, width_type: t } }
//@fn CellMargin::new r=out
//@| ensures out == sp_CellMargin_new(val, t),
//@end
pub open spec fn sp_CellMargins_margin_top(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { top: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_top r=out
//@| ensures out == sp_CellMargins_margin_top(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_right(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { right: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_right r=out
//@| ensures out == sp_CellMargins_margin_right(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_bottom(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { bottom: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_bottom r=out
//@| ensures out == sp_CellMargins_margin_bottom(self, v, t),
//@end
pub open spec fn sp_CellMargins_margin_left(this: CellMargins, v: usize, t: WidthType) -> CellMargins { CellMargins { left: Some(sp_CellMargin_new(v, t)), ..this } }
//@fn CellMargins::margin_left r=out
//@| ensures out == sp_CellMargins_margin_left(self, v, t),
//@end
pub open spec fn sp_Shading_color(this: Shading, color: Seq<char>) -> Shading { Shading { color: strv(color), ..this } }
//@fn Shading::color r=out
//@| ensures out == sp_Shading_color(self, color.chars()),
//@end
pub open spec fn sp_Shading_fill(this: Shading, fill: Seq<char>) -> Shading { Shading { fill: strv(fill), ..this } }
//@fn Shading::fill r=out
//@| ensures out == sp_Shading_fill(self, fill.chars()),
//@end
pub open spec fn sp_Shading_shd_type(this: Shading, shd_type: ShdType) -> Shading { Shading { shd_type: shd_type, ..this } }
//@fn Shading::shd_type r=out
//@| ensures out == sp_Shading_shd_type(self, shd_type),
//@end
pub open spec fn sp_TableWidth_new(width: usize, width_type: WidthType) -> TableWidth { TableWidth { width: width, width_type: width_type } }
//@fn TableWidth::new r=out
//@| ensures out == sp_TableWidth_new(width, width_type),
//@end
pub open spec fn sp_TableProperty_width(this: TableProperty, v: usize, t: WidthType) -> TableProperty { TableProperty { width: sp_TableWidth_new(v, t), ..this } }
//@fn TableProperty::width r=out
//@| ensures out == sp_TableProperty_width(self, v, t),
//@end
pub open spec fn sp_Justification_new(val: Seq<char>) -> Justification { Justification { val: strv(val) } }
//@fn Justification::new r=out
//@| ensures out == sp_Justification_new(val.chars()),
//@end
pub open spec fn sp_TableProperty_align(this: TableProperty, v: TableAlignmentType) -> TableProperty { TableProperty { justification: sp_Justification_new(shown(v)@), ..this } }
//@fn TableProperty::align r=out
//@| ensures out == sp_TableProperty_align(self, v),
//@end
pub open spec fn sp_TableIndent_new(width: i32, width_type: WidthType) -> TableIndent { TableIndent { width: width, width_type: width_type } }
//@fn TableIndent::new r=out
//@| ensures out == sp_TableIndent_new(width, width_type),
//@end
pub open spec fn sp_TableProperty_indent(this: TableProperty, v: i32) -> TableProperty { TableProperty { indent: Some(sp_TableIndent_new(v, WidthType::Dxa)), ..this } }
//@fn TableProperty::indent r=out
//@| ensures out == sp_TableProperty_indent(self, v),
//@end
pub open spec fn sp_TableStyle_new(val: Seq<char>) -> TableStyle { TableStyle { val: escaped(val) } }
//@fn TableStyle::new r=out
//@| ensures out == sp_TableStyle_new(val.chars()),
//@end
pub open spec fn sp_TableProperty_style(this: TableProperty, s: Seq<char>) -> TableProperty { TableProperty { style: Some(sp_TableStyle_new(s)), ..this } }
//@fn TableProperty::style r=out
//@| ensures out == sp_TableProperty_style(self, s.chars()),
//@end
pub open spec fn sp_TableProperty_position(this: TableProperty, p: TablePositionProperty) -> TableProperty { TableProperty { position: Some(p), ..this } }
//@fn TableProperty::position r=out
//@| ensures out == sp_TableProperty_position(self, p),
//@end
pub open spec fn sp_TableProperty_set_margins(this: TableProperty, margins: TableCellMargins) -> TableProperty { TableProperty { margins: Some(margins), ..this } }
//@fn TableProperty::set_margins r=out
//@| ensures out == sp_TableProperty_set_margins(self, margins),
//@end
pub open spec fn sp_TableProperty_set_borders(this: TableProperty, borders: TableBorders) -> TableProperty { TableProperty { borders: borders, ..this } }
//@fn TableProperty::set_borders r=out
//@| ensures out == sp_TableProperty_set_borders(self, borders),
//@end
pub open spec fn sp_TableBorders_set(this: TableBorders, border: TableBorder) -> TableBorders { TableBorders { bottom: (match border.position { TableBorderPosition::Top => this.bottom, TableBorderPosition::Left => this.bottom, TableBorderPosition::Bottom => Some(border), TableBorderPosition::Right => this.bottom, TableBorderPosition::InsideH => this.bottom, TableBorderPosition::InsideV => this.bottom,  }), inside_h: (match border.position { TableBorderPosition::Top => this.inside_h, TableBorderPosition::Left => this.inside_h, TableBorderPosition::Bottom => this.inside_h, TableBorderPosition::Right => this.inside_h, TableBorderPosition::InsideH => Some(border), TableBorderPosition::InsideV => this.inside_h,  }), inside_v: (match border.position { TableBorderPosition::Top => this.inside_v, TableBorderPosition::Left => this.inside_v, TableBorderPosition::Bottom => this.inside_v, TableBorderPosition::Right => this.inside_v, TableBorderPosition::InsideH => this.inside_v, TableBorderPosition::InsideV => Some(border),  }), left: (match border.position { TableBorderPosition::Top => this.left, TableBorderPosition::Left => Some(border), TableBorderPosition::Bottom => this.left, TableBorderPosition::Right => this.left, TableBorderPosition::InsideH => this.left, TableBorderPosition::InsideV => this.left,  }), right: (match border.position { TableBorderPosition::Top => this.right, TableBorderPosition::Left => this.right, TableBorderPosition::Bottom => this.right, TableBorderPosition::Right => Some(border), TableBorderPosition::InsideH => this.right, TableBorderPosition::InsideV => this.right,  }), top: (match border.position { TableBorderPosition::Top => Some(border), TableBorderPosition::Left => this.top, TableBorderPosition::Bottom => this.top, TableBorderPosition::Right => this.top, TableBorderPosition::InsideH => this.top, TableBorderPosition::InsideV => this.top,  }), ..this } }
//@fn TableBorders::set r=out
//@| ensures out == sp_TableBorders_set(self, border),
//@end
pub open spec fn sp_TableBorder_new(position: TableBorderPosition) -> TableBorder { TableBorder { position: position, border_type: BorderType::Single, size: 2, space: 0, color: strv("000000"@) } }
//@fn TableBorder::new r=out
//@| ensures out == sp_TableBorder_new(position),
//@end
pub open spec fn sp_TableBorder_border_type(this: TableBorder, border_type: BorderType) -> TableBorder { TableBorder { border_type: border_type, ..this } }
//@fn TableBorder::border_type r=out
//@| ensures out == sp_TableBorder_border_type(self, border_type),
//@end
pub open spec fn sp_TableBorder_color(this: TableBorder, color: Seq<char>) -> TableBorder { TableBorder { color: strv(color), ..this } }
//@fn TableBorder::color r=out
//@| ensures out == sp_TableBorder_color(self, color.chars()),
//@end
pub open spec fn sp_TableBorder_size(this: TableBorder, size: usize) -> TableBorder { TableBorder { size: size, ..this } }
//@fn TableBorder::size r=out
//@| ensures out == sp_TableBorder_size(self, size),
//@end
pub open spec fn sp_TableCellMargins_margin_top(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { top: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_top r=out
//@| ensures out == sp_TableCellMargins_margin_top(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_right(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { right: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_right r=out
//@| ensures out == sp_TableCellMargins_margin_right(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_bottom(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { bottom: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_bottom r=out
//@| ensures out == sp_TableCellMargins_margin_bottom(self, v, t),
//@end
pub open spec fn sp_TableCellMargins_margin_left(this: TableCellMargins, v: usize, t: WidthType) -> TableCellMargins { TableCellMargins { left: sp_CellMargin_new(v, t), ..this } }
//@fn TableCellMargins::margin_left r=out
//@| ensures out == sp_TableCellMargins_margin_left(self, v, t),
//@end
pub open spec fn sp_TablePositionProperty_left_from_text(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { left_from_text: Some(v), ..this } }
//@fn TablePositionProperty::left_from_text r=out
//@| ensures out == sp_TablePositionProperty_left_from_text(self, v),
//@end
pub open spec fn sp_TablePositionProperty_right_from_text(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { right_from_text: Some(v), ..this } }
//@fn TablePositionProperty::right_from_text r=out
//@| ensures out == sp_TablePositionProperty_right_from_text(self, v),
//@end
pub open spec fn sp_TablePositionProperty_vertical_anchor(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { vertical_anchor: Some(strv(v)), ..this } }
//@fn TablePositionProperty::vertical_anchor r=out
//@| ensures out == sp_TablePositionProperty_vertical_anchor(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_horizontal_anchor(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { horizontal_anchor: Some(strv(v)), ..this } }
//@fn TablePositionProperty::horizontal_anchor r=out
//@| ensures out == sp_TablePositionProperty_horizontal_anchor(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_x_alignment(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { position_x_alignment: Some(strv(v)), ..this } }
//@fn TablePositionProperty::position_x_alignment r=out
//@| ensures out == sp_TablePositionProperty_position_x_alignment(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_y_alignment(this: TablePositionProperty, v: Seq<char>) -> TablePositionProperty { TablePositionProperty { position_y_alignment: Some(strv(v)), ..this } }
//@fn TablePositionProperty::position_y_alignment r=out
//@| ensures out == sp_TablePositionProperty_position_y_alignment(self, v.chars()),
//@end
pub open spec fn sp_TablePositionProperty_position_x(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { position_x: Some(v), ..this } }
//@fn TablePositionProperty::position_x r=out
//@| ensures out == sp_TablePositionProperty_position_x(self, v),
//@end
pub open spec fn sp_TablePositionProperty_position_y(this: TablePositionProperty, v: i32) -> TablePositionProperty { TablePositionProperty { position_y: Some(v), ..this } }
//@fn TablePositionProperty::position_y r=out
//@| ensures out == sp_TablePositionProperty_position_y(self, v),
//@end
