// Simulation stand-in for rand's thread_rng: every number comes from the
// case's random stream, so tower heights are chosen (and replayed) by the simulator.
use rand_core::{CryptoRng, Error, RngCore};

/// Stand-in for the thread-local generator
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _p: core::marker::PhantomData<*const u8>,
}

/// Retrieve the generator
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    #[inline(always)]
    fn next_u32(&mut self) -> u32 {
        simrt::rand_u32()
    }
    #[inline(always)]
    fn next_u64(&mut self) -> u64 {
        // the drawn word is the high half, from which rand takes bools and floats
        ((simrt::rand_u32() as u64) << 32) | 0x9E37_79B9
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(4) {
            let v = simrt::rand_u32().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
