//! Stand-in for the libc crate: C types and the calls a wrapper program may make.
#![allow(non_camel_case_types)]
pub use std::os::raw::{c_char, c_double, c_int, c_long, c_short, c_uchar, c_uint, c_ulong, c_ushort, c_void};
pub type size_t = usize;
pub type ssize_t = isize;
pub type off_t = i64;
pub const EINTR: c_int = 4;
pub const EAGAIN: c_int = 11;
pub const EPIPE: c_int = 32;
pub const SIGPIPE: c_int = 13;
pub const SIG_DFL: usize = 0;
pub const SIG_IGN: usize = 1;
pub const STDIN_FILENO: c_int = 0;
pub const STDOUT_FILENO: c_int = 1;
pub const STDERR_FILENO: c_int = 2;
extern "C" {
    pub fn exit(status: c_int) -> !;
    pub fn abort() -> !;
    pub fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t;
    pub fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t;
    pub fn close(fd: c_int) -> c_int;
    pub fn isatty(fd: c_int) -> c_int;
    pub fn signal(sig: c_int, handler: usize) -> usize;
    pub fn strlen(s: *const c_char) -> size_t;
}
