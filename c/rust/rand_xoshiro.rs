//! xoroshiro128+ as in rand_xoshiro
use rand::{RngCore, SeedableRng};
#[derive(Clone, Debug)]
pub struct Xoroshiro128Plus {
    a: u64,
    b: u64,
}
impl SeedableRng for Xoroshiro128Plus {
    fn seed_from_u64(seed: u64) -> Self {
        let mut x = seed;
        let mut next = || {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next();
        Xoroshiro128Plus { a, b }
    }
}
impl RngCore for Xoroshiro128Plus {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let r = self.a.wrapping_add(self.b);
        let t = self.b ^ self.a;
        self.a = self.a.rotate_left(24) ^ t ^ (t << 16);
        self.b = t.rotate_left(37);
        r
    }
}
