// TRUSTED std helpers the verifier has no specification for; each is reached by a textual substitution.
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxStr { fn vx_str(&self) -> (r: String) ensures r@ == shown_chars(self); }
impl<T: ?Sized> VxStr for T { #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn shown_chars<T: ?Sized>(t: &T) -> Seq<char>;
pub trait VxOptStr { fn vx_as_deref(&self) -> (r: Option<&str>); fn vx_concat(&self) -> (r: String); }
impl VxOptStr for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) { self.as_deref() }
    #[verifier::external_body]
    fn vx_concat(&self) -> (r: String) { self.iter().cloned().collect() }
}
impl VxOptStr for Option<&String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_concat(&self) -> (r: String) { unimplemented!() }
}
pub trait VxJoin { fn vx_join(&self, sep: &str) -> (r: String); }
impl VxJoin for Vec<String> { #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { self.join(sep) } }
pub trait VxEnum { type X; fn vx_enum(&self) -> (r: Vec<(usize, &Self::X)>); }
impl<T> VxEnum for Vec<T> { type X = T; #[verifier::external_body] fn vx_enum(&self) -> (r: Vec<(usize, &T)>)
    ensures r@.len() == self@.len(), forall |i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self@[i] { unimplemented!() } }
#[verifier::external_body]
pub fn any_string() -> (r: String) { unimplemented!() }
//@gsub `.as_deref()` => `.vx_as_deref()`
//@gsub `.iter().cloned().collect()` => `.vx_concat()`
//@gsub `.to_string()` => `.vx_str()`
//@gsub `.to_owned()` => `.vx_str()`
//@gsub `.clone()` => `.vx_clone()`
//@gsub `.join(` => `.vx_join(`
//@gsub `.as_ref().build_to(` => `.build_to(`
//@gsub `(id.as_ref()` => `(id.as_str()`
//@gsub `match self.as_ref()` => `match &**self`
//@gsub `.iter().enumerate()` => `.vx_enum()`
