// TRUSTED: opaque stand-ins for std::path::Path and std::ffi::OsStr (Verus cannot name these unsized
// types): on Unix both are byte strings, and the conversions below do not change the bytes.
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Path { x: u8 }
#[verifier::external_body]
pub struct OsStr { x: u8 }
pub uninterp spec fn path_bytes(p: &Path) -> Seq<u8>;
pub uninterp spec fn osstr_bytes(p: &OsStr) -> Seq<u8>;
pub trait OsStrExt {
    spec fn spec_os_bytes(&self) -> Seq<u8>;
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.spec_os_bytes();
    fn from_bytes(b: &[u8]) -> (r: &Self) ensures r.spec_os_bytes() == b@;
}
impl OsStrExt for OsStr {
    open spec fn spec_os_bytes(&self) -> Seq<u8> { osstr_bytes(self) }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn from_bytes(b: &[u8]) -> (r: &Self) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures osstr_bytes(r) == path_bytes(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &OsStr) -> (r: &Path) ensures path_bytes(r) == osstr_bytes(s) { unimplemented!() }
}
} // verus!
