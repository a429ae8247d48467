//! stand-in of zkhash: the field is real, the permutation is a computable substitute
pub extern crate ark_ff;
pub mod fields {
    pub mod babybear {
        pub const P: u64 = 2013265921;
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct FpBabyBear(pub(crate) u64);
        impl From<u64> for FpBabyBear {
            fn from(x: u64) -> Self {
                FpBabyBear(x % P)
            }
        }
        impl From<u32> for FpBabyBear {
            fn from(x: u32) -> Self {
                FpBabyBear(x as u64 % P)
            }
        }
        impl ark_ff::PrimeField for FpBabyBear {
            type BigInt = ark_ff::BigInt<1>;
            fn into_bigint(self) -> Self::BigInt {
                ark_ff::BigInt([self.0])
            }
        }
    }
}
pub mod poseidon2 {
    pub mod poseidon2_instance_babybear {
        pub struct Params {
            pub t: usize,
            pub c: u64,
        }
        pub static POSEIDON2_BABYBEAR_24_PARAMS: Params = Params { t: 24, c: 1000003 };
        pub static POSEIDON2_BABYBEAR_16_PARAMS: Params = Params { t: 16, c: 1000033 };
    }
    pub mod poseidon2 {
        use super::super::fields::babybear::{FpBabyBear, P};
        use super::poseidon2_instance_babybear::Params;
        pub struct Poseidon2 {
            t: usize,
            c: u64,
        }
        impl Poseidon2 {
            pub fn new(p: &Params) -> Self {
                Poseidon2 { t: p.t, c: p.c }
            }
            pub fn get_t(&self) -> usize {
                self.t
            }
            pub fn permutation(&self, x: &[FpBabyBear]) -> Vec<FpBabyBear> {
                assert_eq!(x.len(), self.t);
                let w = x.len();
                let mut s = 0;
                for (j, v) in x.iter().enumerate() {
                    s = (s + (j as u64 + 1) * v.0) % P;
                }
                (0..w)
                    .map(|i| {
                        let c = x[i].0 * x[i].0 % P * x[i].0 % P * (7 + i as u64);
                        let m = x[(i + 5) % w].0 * x[(i + 11) % w].0 % P;
                        FpBabyBear(((i as u64 + 1) * s % P + c % P + m + self.c * (i as u64 + 1)) % P)
                    })
                    .collect()
            }
        }
    }
}
