//! stand-in of p3-symmetric
pub trait Permutation<T: Clone>: Clone {
    fn permute_mut(&self, input: &mut T);
    fn permute(&self, input: T) -> T {
        let mut x = input;
        self.permute_mut(&mut x);
        x
    }
}
