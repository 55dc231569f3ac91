//! Stand-in: the generator yields a harness-chosen (fresh) id.
pub static mut NEXT: u64 = 1;
pub trait Snowflake { fn timestamp(&self) -> u64; }
impl Snowflake for u64 { fn timestamp(&self) -> u64 { 0 } }
pub trait FromU64 { fn from_u64(x: u64) -> Self; }
impl FromU64 for u64 { fn from_u64(x: u64) -> u64 { x } }
impl FromU64 for i64 { fn from_u64(x: u64) -> i64 { x as i64 } }
pub mod sync {
    pub struct Generator;
    impl Generator {
        pub const fn new(_i: u16) -> Self { Generator }
        pub fn generate<T: super::FromU64>(&self) -> T { let x = unsafe { super::NEXT }; unsafe { super::NEXT = super::NEXT.wrapping_add(1); } T::from_u64(x) }
        pub fn epoch(&self) -> std::time::SystemTime { std::time::SystemTime::UNIX_EPOCH }
    }
}
