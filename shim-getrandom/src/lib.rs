//! Deterministic replacement for `getrandom` 0.2. Each thread has its own SplitMix64 stream.
//! The harness seeds the stream of a thread with `set_thread_seed` before it runs a case; threads that
//! the library spawns itself draw their seed from a process-wide counter.
use core::num::NonZeroU32;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

static NEXT: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);
thread_local! { static STATE: Cell<Option<u64>> = const { Cell::new(None) }; }

/// Seed the stream of the calling thread.
pub fn set_thread_seed(seed: u64) {
    STATE.with(|s| s.set(Some(seed)));
}
/// Seed the process-wide counter from which unseeded threads start.
pub fn set_global_seed(seed: u64) {
    NEXT.store(seed, Ordering::SeqCst);
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    STATE.with(|s| {
        let mut st = s
            .get()
            .unwrap_or_else(|| NEXT.fetch_add(0x632b_e59b_d9b4_e019, Ordering::SeqCst));
        for chunk in dest.chunks_mut(8) {
            st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = st;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^= z >> 31;
            chunk.copy_from_slice(&z.to_le_bytes()[..chunk.len()]);
        }
        s.set(Some(st));
    });
    Ok(())
}
