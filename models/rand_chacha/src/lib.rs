//! MODEL of rand_chacha used for symbolic execution only.
//!
//! Ideal generator: `fill_bytes` yields a fresh block for each (seed, position)
//! (two generators with the same seed yield the same blocks, all other blocks
//! are pairwise distinct). Integers drawn through `next_u32` / `next_u64` are
//! unconstrained symbolic variables: a property must hold for every draw.
pub use rand_core;
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
extern "C" {
    fn sym_rng() -> u64;
}
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
macro_rules! rng {
    ($name:ident, $salt:expr) => {
        #[derive(Clone, Debug)]
        pub struct $name { seed: u64, ctr: u64 }
        impl SeedableRng for $name {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self {
                let mut h: u64 = $salt;
                let mut i = 0;
                while i < 32 {
                    h = mix(h ^ (seed[i] as u64));
                    i += 1;
                }
                Self { seed: h, ctr: 0 }
            }
        }
        impl RngCore for $name {
            fn next_u32(&mut self) -> u32 { self.ctr += 1; unsafe { sym_rng() as u32 } }
            fn next_u64(&mut self) -> u64 { self.ctr += 1; unsafe { sym_rng() } }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                let mut i = 0;
                let mut w = 0;
                while i < dest.len() {
                    if i % 8 == 0 {
                        self.ctr += 1;
                        w = mix(self.seed ^ mix(self.ctr));
                    }
                    dest[i] = (w >> (8 * (i % 8))) as u8;
                    i += 1;
                }
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(dest);
                Ok(())
            }
        }
        impl CryptoRng for $name {}
    };
}
rng!(ChaCha8Rng, 8);
rng!(ChaCha12Rng, 12);
rng!(ChaCha20Rng, 20);
pub type ChaChaRng = ChaCha20Rng;
