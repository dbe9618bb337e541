//! MODEL of getrandom used for symbolic execution only: every call returns a
//! fresh block, distinct from all the previous ones.
use core::{fmt, num::NonZeroU32};
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("getrandom") }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("getrandom") }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self { Self(c) }
}
impl std::error::Error for Error {}
static mut CTR: u64 = 0;
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let c = unsafe { CTR += 1; CTR };
    for (i, b) in dest.iter_mut().enumerate() {
        *b = match i % 8 { 0 => c as u8, 1 => (c >> 8) as u8, 2 => (c >> 16) as u8, 3 => i as u8, _ => 0x6B };
    }
    Ok(())
}
