//! Stand-in: random values are arbitrary.
pub trait Any { fn any() -> Self; }
impl Any for u16 { fn any() -> u16 { vsym::u16_() } }
impl Any for u8 { fn any() -> u8 { vsym::u8_() } }
impl Any for u32 { fn any() -> u32 { vsym::u32_() } }
impl Any for u64 { fn any() -> u64 { vsym::u64_() } }
impl Any for i64 { fn any() -> i64 { vsym::i64_() } }
impl Any for bool { fn any() -> bool { vsym::bool_() } }
pub fn random<T: Any>() -> T { T::any() }
