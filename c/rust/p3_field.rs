//! stand-in of p3-field
pub trait PrimeCharacteristicRing: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn from_u32(x: u32) -> Self;
    fn from_u64(x: u64) -> Self;
    fn from_usize(x: usize) -> Self {
        Self::from_u64(x as u64)
    }
}
pub trait Field: PrimeCharacteristicRing + PartialEq {}
pub trait PrimeField64: Field {
    const ORDER_U64: u64;
    fn as_canonical_u64(&self) -> u64;
}
pub trait PrimeField32: PrimeField64 {
    const ORDER_U32: u32;
    fn as_canonical_u32(&self) -> u32;
    fn to_unique_u32(&self) -> u32 {
        self.as_canonical_u32()
    }
}
