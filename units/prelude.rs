#![allow(unused, dead_code, non_snake_case, unused_mut)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
pub mod ax {
    use super::*;
    // TRUSTED: a str is determined by its characters.
    #[verifier::external_body]
    pub broadcast proof fn str_ext(a: &str, b: &str)
        requires #[trigger] a@ == #[trigger] b@
        ensures a == b
    {}
}
pub mod errors {
    use super::*;
    pub enum TypeError { FromStrError, Unsupported(String), Unknown }
}
pub use errors::TypeError;
// TRUSTED: std::fmt::Formatter appends what is written to it.
pub mod fmt {
    use super::*;
    #[verifier::external_body]
    pub struct Formatter { s: String }
    impl Formatter {
        pub uninterp spec fn out(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r is Ok, final(self).out() == old(self).out() + s@
        { unimplemented!() }
    }
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
}
}
macro_rules! write { ($f:expr, $s:literal) => { $f.write_str($s) } }
