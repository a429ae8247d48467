//! stand-in of rand
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
}
pub trait Rng: RngCore {}
impl<R: RngCore> Rng for R {}
pub trait SeedableRng: Sized {
    fn seed_from_u64(seed: u64) -> Self;
}
