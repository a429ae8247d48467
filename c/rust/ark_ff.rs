//! stand-in of ark-ff
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> AsRef<[u64]> for BigInt<N> {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
pub trait PrimeField: Sized + Copy {
    type BigInt;
    fn into_bigint(self) -> Self::BigInt;
}
