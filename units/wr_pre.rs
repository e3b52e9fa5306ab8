//@gsub `super::` => ``
//@gsub `r#type` => `vx_type`
//@gsub `crate::xml::writer::Result` => `Result`
//@gsub `crate::xml::writer::EventWriter` => `EventWriter`
//@gsub `impl Into<XmlEvent<'e>>` => `impl ToEv<'e>`
//@gsub `Into<XmlEvent<'a>>` => `ToEv<'a>`
//@gsub `crate::types::` => ``
//@gsub `crate::` => ``
//@gsub `.as_deref()` => `.vx_as_deref()`
//@gsub `.to_string()` => `.vx_str()`
//@gsub `.clone()` => `.vx_clone()`
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r == shown_of(self), r@ == shown_of(self)@; }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
// TRUSTED: Option::as_deref.
pub trait VxDeref { fn vx_as_deref(&self) -> (r: Option<&str>); }
impl VxDeref for Option<String> { #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) ensures (match (r, *self) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false }) { unimplemented!() } }
