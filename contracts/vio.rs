// TRUSTED: stand-ins for the few parts of std::fs, std::io and libc that reading from an inherited file
// descriptor needs. A descriptor delivers the bytes of its stream in order, in pieces of any size; any
// read may fail; a read into a non-empty buffer that delivers nothing means the end of the stream.
use vstd::prelude::*;
pub mod s {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct IoError { x: u8 }
pub type Result<T> = core::result::Result<T, IoError>;
pub type Error = IoError;
impl IoError {
    pub uninterp spec fn errno(&self) -> Option<i32>;
    #[verifier::external_body]
    pub fn raw_os_error(&self) -> (r: Option<i32>) ensures r == self.errno() { unimplemented!() }
}
pub const EBADF: i32 = 9;
pub const EINVAL: i32 = 22;

/// all bytes that the descriptor delivers before the end of the stream (or before it fails for good)
pub uninterp spec fn fd_stream(fd: i32) -> Seq<u8>;
/// how the first read fails, if it does
pub uninterp spec fn fd_first_error(fd: i32) -> Option<IoError>;

#[verifier::external_body]
pub struct File { x: u8 }
pub trait FromRawFd {}
pub trait IntoRawFd {}
pub trait Read {}
#[verifier::external_body]
pub unsafe fn close(fd: i32) -> (r: i32) { unimplemented!() }
impl File {
    pub uninterp spec fn fd(&self) -> i32;
    /// how many bytes of the stream have been delivered
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub unsafe fn from_raw_fd(fd: i32) -> (r: File)
        ensures r.fd() == fd, r.pos() == 0, r.fresh(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw_fd(self) -> (r: i32) ensures r == self.fd() { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).pos() <= fd_stream(old(self).fd()).len(),
        ensures
            final(self).fd() == old(self).fd(),
            !final(self).fresh(),
            final(buf)@.len() == old(buf)@.len(),
            old(self).fresh() ==> match fd_first_error(old(self).fd()) { Some(e) => r == Err::<usize, IoError>(e), None => r is Ok },
            r matches Ok(n) ==> n <= old(buf)@.len()
                && final(self).pos() == old(self).pos() + n
                && final(self).pos() <= fd_stream(old(self).fd()).len()
                && (n == 0 && old(buf)@.len() > 0 ==> old(self).pos() == fd_stream(old(self).fd()).len())
                && final(buf)@ == fd_stream(old(self).fd()).subrange(old(self).pos() as int, old(self).pos() + n) + old(buf)@.skip(n as int),
    { unimplemented!() }
}
} // verus!
}
