//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `HashMap<(String, String), String>` => `PairMap<String>`
//@gsub `HashSet<String>` => `StrSet`
//@gsub `HashSet<usize>` => `PlainSet<usize>`
//@gsub `HashMap<usize, &Comment>` => `PlainMap<usize, &Comment>`
//@gsub `HashMap<usize, &'a Comment>` => `PlainMap<usize, &'a Comment>`
//@gsub `HashMap<usize, String>` => `PlainMap<usize, String>`
//@include maps.rs
//@include stdx.rs
//@gsub `.vx_str()` => `.to_owned()`
//@gsub `.vx_clone()` => `.clone()`
//@include tree_core.rs
//@include links_core.rs
//@include comments_core.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
