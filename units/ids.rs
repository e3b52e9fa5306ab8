//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `HashSet<String>` => `StrSet`
//@include maps.rs
//@include ids_core.rs
//@auto
proof fn vx_probe() ensures false {}
fn main(){}
}
