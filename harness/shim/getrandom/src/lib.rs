//! Stand-in for the getrandom crate, used in the verification build only.
//!
//! Bytes come from a per-thread deterministic stream once `inject` was called on that thread;
//! other threads read the operating system's generator.
use std::cell::Cell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) {
        Some(x) => x,
        None => unreachable!(),
    });
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "getrandom stand-in error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

thread_local! {
    static STREAM: Cell<Option<u64>> = const { Cell::new(None) };
    static DRAWN: Cell<u64> = const { Cell::new(0) };
}

/// Seeds this thread's entropy stream.
pub fn inject(seed: u64) {
    STREAM.with(|s| s.set(Some(seed)));
}
/// Number of entropy requests this thread has made.
pub fn drawn() -> u64 {
    DRAWN.with(|d| d.get())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    DRAWN.with(|d| d.set(d.get() + 1));
    match STREAM.with(|s| s.get()) {
        Some(mut state) => {
            for chunk in dest.chunks_mut(8) {
                state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = state;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^= z >> 31;
                chunk.copy_from_slice(&z.to_le_bytes()[..chunk.len()]);
            }
            STREAM.with(|s| s.set(Some(state)));
            Ok(())
        }
        None => {
            use std::io::Read;
            std::fs::File::open("/dev/urandom")
                .and_then(|mut f| f.read_exact(dest))
                .map_err(|_| Error::UNSUPPORTED)
        }
    }
}
