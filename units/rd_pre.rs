//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `ignore::` => ``
//@gsub `attributes::` => ``
//@gsub `line_spacing::` => ``
//@gsub `impl Into<String>` => `impl VxInto`
//@gsub `crate::types::` => ``
//@gsub `crate::escape::` => ``
//@gsub `escape::escape` => `escape`
//@gsub `crate::` => ``
//@gsub `quick_xml::Error` => `VxXmlErr`
//@gsub `local_name ==` => `local_name.as_str() ==`
//@gsub `attrs~~.iter()~~.find(` => `vx_find(attrs, `
//@gsub `.or_else(` => `.vx_or_else(`
//@gsub `Default::default()` => `vx_default()`
//@gsub `.to_string()` => `.vx_str()`
//@gsub `.to_owned()` => `.vx_str()`
//@gsub `.clone()` => `.vx_clone()`
//@gsub `usize::from_str(` => `vx_parse::<usize>(`
//@gsub `isize::from_str(` => `vx_parse::<isize>(`
//@gsub `f32::from_str(` => `vx_parse::<f32>(`
//@gsub `u32::from_str(` => `vx_parse::<u32>(`
//@gsub `i32::from_str(` => `vx_parse::<i32>(`
//@gsub `f64::from_str(` => `vx_parse::<f64>(`
//@gsub `.eq_ignore_ascii_case(` => `.vx_same(`
//@gsub `.ends_with(` => `.vx_ends(`
//@gsub `.replace(` => `.vx_replace(`
