//! The simulator: one seed decides everything that happens in a run.
pub mod alloc;
pub mod cov;
pub mod de;
pub mod io;
pub mod rng;
pub mod sched;
pub mod ser;
pub mod tok;

pub use rng::Rng;

/// 64-bit FNV-1a folding, used for event-log hashes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LogHash(pub u64);
impl Default for LogHash {
    fn default() -> Self {
        LogHash(0xcbf2_9ce4_8422_2325)
    }
}
impl LogHash {
    pub fn add(&mut self, s: &str) {
        for b in s.bytes() {
            self.0 ^= b as u64;
            self.0 = self.0.wrapping_mul(0x100_0000_01b3);
        }
        self.0 ^= 0xff;
        self.0 = self.0.wrapping_mul(0x100_0000_01b3);
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = LogHash::default();
    h.add(s);
    h.0
}

/// What a faulty seam does when the plan says so.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Fault {
    /// the transport / sink reports an I/O error
    Io,
    /// the transport ends early
    Eof,
    /// the caller's cancellation surfaces as an error of the transport
    Cancel,
    /// the caller's code unwinds out of the call-back
    Panic,
}

/// Payload of an injected unwind.
pub struct SimPanic(pub u64);
