//@include prelude.rs
use std::collections::{BTreeMap, HashMap, HashSet};
verus! {
//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `impl Into<String>` => `impl VxInto`
//@gsub `crate::types::` => ``
//@gsub `crate::escape::` => ``
//@gsub `escape::escape` => `escape`
//@gsub `crate::` => ``
//@gsub `Default::default()` => `vx_default()`
//@gsub `.to_string()` => `.vx_str()`
//@gsub `.to_owned()` => `.vx_str()`
pub mod vals {
    use super::*;
    /// The value of a string with the given characters, and of a vector with the given elements.
    pub uninterp spec fn strv(s: Seq<char>) -> String;
    pub uninterp spec fn vecv<T>(s: Seq<T>) -> Vec<T>;
    /// What a value prints as.
    pub uninterp spec fn shown_of<T: ?Sized>(t: &T) -> String;
    // TRUSTED: a string is determined by its characters, a vector by its elements.
    pub broadcast axiom fn string_val(s: String) ensures #[trigger] strv(s@) == s;
    pub broadcast axiom fn vec_val<T>(v: Vec<T>) ensures #![trigger v@] vecv(v@) == v;
    // TRUSTED: a text prints as itself.
    pub broadcast axiom fn str_shown(s: &str) ensures #[trigger] shown_of::<str>(s) == strv(s@);
    pub broadcast axiom fn string_shown(s: &String) ensures #[trigger] shown_of::<String>(s) == *s;
}
pub use vals::{strv, vecv, shown_of};
broadcast use vals::string_val, vals::vec_val, vals::str_shown, vals::string_shown;
/// The default value of a type; the escaped form of a text (unit escape).
pub uninterp spec fn dflt<T>() -> T;
pub open spec fn shown<T>(t: T) -> String { shown_of(&t) }
pub uninterp spec fn escaped(s: Seq<char>) -> String;
// TRUSTED: Option::or.
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
// TRUSTED: Default::default() is one fixed value per type.
#[verifier::external_body]
pub fn vx_default<T>() -> (r: T) ensures r == dflt::<T>() { unimplemented!() }
// TRUSTED: String::from(String) and String::from(&str) keep the characters.
pub trait VxInto: Sized {
    spec fn chars(&self) -> Seq<char>;
    fn into(self) -> (r: String) ensures r == strv(self.chars()), r@ == self.chars();
}
impl VxInto for String { open spec fn chars(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxInto for &str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn into(self) -> (r: String) { String::from(self) } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
// TRUSTED: Option::unwrap_or_default.
pub trait VxOr<T> { spec fn or_default(self) -> T; fn vx_or_default(self) -> (r: T) ensures r == self.or_default(); }
impl<T> VxOr<T> for Option<T> {
    open spec fn or_default(self) -> T { match self { Some(x) => x, None => dflt::<T>() } }
    #[verifier::external_body] fn vx_or_default(self) -> (r: T) { unimplemented!() }
}
//@gsub `.unwrap_or_default()` => `.vx_or_default()`
//@fn escape/mod.rs::escape_owned ext
//@| ensures r == escaped(text@),
//@end
//@fn escape/mod.rs::escape ext
//@| ensures r == escaped(text@),
//@end
pub trait VxNum: Sized { spec fn num(&self) -> u32; fn into(self) -> (r: u32) ensures r == self.num(); }
impl VxNum for u32 { open spec fn num(&self) -> u32 { *self } fn into(self) -> (r: u32) { self } }
//@gsub `impl Into<u32>` => `impl VxNum`
//@include builders_core.rs
//@auto
pub mod order {
use super::*;
//@include builders_order.rs
}
proof fn vx_probe() ensures false {}
fn main(){}
}
