//! The part of num-traits 0.2 used.
pub trait FromPrimitive: Sized { fn from_i64(n: i64) -> Option<Self>; fn from_u64(n: u64) -> Option<Self>; }
pub trait ToPrimitive { fn to_i64(&self) -> Option<i64>; fn to_u64(&self) -> Option<u64>; }
macro_rules! prim { ($($t:ty)*) => { $(impl ToPrimitive for $t { fn to_i64(&self) -> Option<i64> { use std::convert::TryFrom; i64::try_from(*self).ok() } fn to_u64(&self) -> Option<u64> { use std::convert::TryFrom; u64::try_from(*self).ok() } })* } }
prim!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
