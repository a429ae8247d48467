//! stand-in of p3-baby-bear: the field is real, the permutation is a computable substitute
use p3_field::{Field, PrimeCharacteristicRing, PrimeField32, PrimeField64};
use p3_symmetric::Permutation;
use rand::Rng;
pub const P: u64 = 2013265921;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct BabyBear(u32);
impl BabyBear {
    pub const fn new(x: u32) -> Self {
        BabyBear((x as u64 % P) as u32)
    }
}
impl PrimeCharacteristicRing for BabyBear {
    const ZERO: Self = BabyBear(0);
    const ONE: Self = BabyBear(1);
    fn from_u32(x: u32) -> Self {
        BabyBear::new(x)
    }
    fn from_u64(x: u64) -> Self {
        BabyBear((x % P) as u32)
    }
}
impl Field for BabyBear {}
impl PrimeField64 for BabyBear {
    const ORDER_U64: u64 = P;
    fn as_canonical_u64(&self) -> u64 {
        self.0 as u64
    }
}
impl PrimeField32 for BabyBear {
    const ORDER_U32: u32 = P as u32;
    fn as_canonical_u32(&self) -> u32 {
        self.0
    }
}
#[derive(Clone, Debug)]
pub struct Poseidon2BabyBear<const W: usize> {
    k: [u64; W],
}
impl<const W: usize> Poseidon2BabyBear<W> {
    pub fn new_from_rng_128<R: Rng>(rng: &mut R) -> Self {
        let mut k = [0; W];
        for x in k.iter_mut() {
            *x = rng.next_u64() % P;
        }
        Poseidon2BabyBear { k }
    }
}
pub fn stand_in(k: &[u64], x: &[u64]) -> Vec<u64> {
    let w = x.len();
    let mut s = 0;
    for (j, v) in x.iter().enumerate() {
        s = (s + (j as u64 + 1) * v) % P;
    }
    (0..w)
        .map(|i| {
            let c = x[i] * x[i] % P * x[i] % P * (7 + i as u64);
            let m = x[(i + 5) % w] * x[(i + 11) % w] % P;
            ((i as u64 + 1) * s % P + c % P + m + k[i]) % P
        })
        .collect()
}
impl<const W: usize> Permutation<[BabyBear; W]> for Poseidon2BabyBear<W> {
    fn permute_mut(&self, input: &mut [BabyBear; W]) {
        let x: Vec<u64> = input.iter().map(|v| v.0 as u64).collect();
        for (o, v) in input.iter_mut().zip(stand_in(&self.k, &x)) {
            *o = BabyBear(v as u32);
        }
    }
}
