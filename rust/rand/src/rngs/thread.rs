// Replaced for model checking: every draw reads libc getrandom(2), which the explorer interposes.
#![allow(unsafe_code)]
use rand_core::{CryptoRng, RngCore};
use std::fmt;

unsafe extern "C" {
    fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize;
}

/// Thread-local generator (stub reading getrandom)
#[derive(Clone)]
pub struct ThreadRng(());

impl ThreadRng {
    /// no-op
    pub fn reseed(&mut self) -> Result<(), rand_core::OsError> {
        Ok(())
    }
}
impl fmt::Debug for ThreadRng {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        write!(fmt, "ThreadRng {{ .. }}")
    }
}
/// the generator
pub fn rng() -> ThreadRng {
    ThreadRng(())
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        rng()
    }
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe {
            getrandom(dest.as_mut_ptr(), dest.len(), 0);
        }
    }
}
impl CryptoRng for ThreadRng {}
