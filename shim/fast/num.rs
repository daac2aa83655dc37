// Stands in for the crate `num` (not available offline): the one trait FAST uses.
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }
macro_rules! bounded { ($($t:ty)*) => { $(impl Bounded for $t { fn min_value() -> $t { <$t>::MIN } fn max_value() -> $t { <$t>::MAX } })* } }
bounded!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
pub mod traits { pub use super::{Bounded, One, Zero}; }
pub trait Zero { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One { fn one() -> Self; }
macro_rules! zeroone { ($($t:ty)*) => { $(impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } } impl One for $t { fn one() -> $t { 1 } })* } }
zeroone!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
