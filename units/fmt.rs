//@fmt
// TRUSTED: format! appends literal pieces and the Display text of its arguments; `format!(..)` is read as these calls.
pub struct VxFmt { pub s: String }
impl VxFmt {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body] pub fn lit(self, t: &str) -> (r: Self) ensures r@ == self@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn show<T: VxShow + ?Sized>(self, t: &T) -> (r: Self) ensures r@ == self@ + t.shown() { unimplemented!() }
    pub fn done(self) -> (r: String) ensures r@ == self@ { self.s }
}
#[verifier::external_body] pub fn vx_fmt(t: &str) -> (r: VxFmt) ensures r@ == t@ { unimplemented!() }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub broadcast axiom fn dec_injective(a: int, b: int) requires #[trigger] dec(a) == #[trigger] dec(b) ensures a == b;
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for i32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl<T: VxShow + ?Sized> VxShow for &mut T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
