//! Type-level stand-in for lighthouse `safe_arith` (0.1); bodies are never executed or analysed.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ArithError { Overflow, DivisionByZero }
pub type Result<T> = std::result::Result<T, ArithError>;
pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn safe_add(&self, other: Rhs) -> Result<Self>;
    fn safe_sub(&self, other: Rhs) -> Result<Self>;
    fn safe_mul(&self, other: Rhs) -> Result<Self>;
    fn safe_div(&self, other: Rhs) -> Result<Self>;
    fn safe_rem(&self, other: Rhs) -> Result<Self>;
    fn safe_shl(&self, other: u32) -> Result<Self>;
    fn safe_shr(&self, other: u32) -> Result<Self>;
    fn safe_add_assign(&mut self, other: Rhs) -> Result<()> { *self = self.safe_add(other)?; Ok(()) }
    fn safe_sub_assign(&mut self, other: Rhs) -> Result<()> { *self = self.safe_sub(other)?; Ok(()) }
    fn safe_mul_assign(&mut self, other: Rhs) -> Result<()> { *self = self.safe_mul(other)?; Ok(()) }
    fn safe_div_assign(&mut self, other: Rhs) -> Result<()> { *self = self.safe_div(other)?; Ok(()) }
    fn safe_rem_assign(&mut self, other: Rhs) -> Result<()> { *self = self.safe_rem(other)?; Ok(()) }
}
macro_rules! im { ($($t:ty),*) => { $(impl SafeArith for $t {
    const ZERO: Self = 0; const ONE: Self = 1;
    fn safe_add(&self, o: Self) -> Result<Self> { self.checked_add(o).ok_or(ArithError::Overflow) }
    fn safe_sub(&self, o: Self) -> Result<Self> { self.checked_sub(o).ok_or(ArithError::Overflow) }
    fn safe_mul(&self, o: Self) -> Result<Self> { self.checked_mul(o).ok_or(ArithError::Overflow) }
    fn safe_div(&self, o: Self) -> Result<Self> { self.checked_div(o).ok_or(ArithError::DivisionByZero) }
    fn safe_rem(&self, o: Self) -> Result<Self> { self.checked_rem(o).ok_or(ArithError::DivisionByZero) }
    fn safe_shl(&self, o: u32) -> Result<Self> { self.checked_shl(o).ok_or(ArithError::Overflow) }
    fn safe_shr(&self, o: u32) -> Result<Self> { self.checked_shr(o).ok_or(ArithError::Overflow) }
})* } }
im!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, isize, i128);
pub trait SafeArithIter<T> { fn safe_sum(self) -> Result<T>; }
impl<I, T> SafeArithIter<T> for I where I: Iterator<Item = T> + Sized, T: SafeArith {
    fn safe_sum(mut self) -> Result<T> { self.try_fold(T::ZERO, |a, x| a.safe_add(x)) }
}
