//! Stand-in: instants are integers (milliseconds); Utc::now() is controlled by the harness.
use serde::{Deserialize, Serialize};
pub mod prelude { pub use super::*; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Utc;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct DateTime<Tz> { pub ms: i64, tz: Tz }
pub static mut NOW: i64 = 0;
pub fn at(ms: i64) -> DateTime<Utc> { DateTime { ms, tz: Utc } }
impl Utc { pub fn now() -> DateTime<Utc> { at(unsafe { NOW }) } }
impl DateTime<Utc> { pub fn timestamp_millis(&self) -> i64 { self.ms } pub fn timestamp(&self) -> i64 { self.ms / 1000 } }
impl std::fmt::Display for DateTime<Utc> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.ms.fmt(f) } }
impl From<std::time::SystemTime> for DateTime<Utc> { fn from(_t: std::time::SystemTime) -> Self { at(0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct TimeDelta { pub ms: i64 }
pub type Duration = TimeDelta;
impl TimeDelta {
    pub fn milliseconds(ms: i64) -> Self { TimeDelta { ms } }
    pub fn seconds(s: i64) -> Self { TimeDelta { ms: s * 1000 } }
    pub fn zero() -> Self { TimeDelta { ms: 0 } }
    pub fn num_seconds(&self) -> i64 { 0 }
    pub fn num_milliseconds(&self) -> i64 { self.ms }
    pub fn subsec_nanos(&self) -> i32 { 0 }
}
impl std::ops::Sub for DateTime<Utc> { type Output = TimeDelta; fn sub(self, o: Self) -> TimeDelta { TimeDelta { ms: self.ms.wrapping_sub(o.ms) } } }
impl std::ops::Sub<TimeDelta> for DateTime<Utc> { type Output = Self; fn sub(self, o: TimeDelta) -> Self { at(self.ms.wrapping_sub(o.ms)) } }
impl std::ops::Add<TimeDelta> for DateTime<Utc> { type Output = Self; fn add(self, o: TimeDelta) -> Self { at(self.ms.wrapping_add(o.ms)) } }
impl std::ops::Sub<std::time::Duration> for DateTime<Utc> { type Output = Self; fn sub(self, o: std::time::Duration) -> Self { at(self.ms.wrapping_sub(o.as_millis() as i64)) } }
impl std::ops::Add<std::time::Duration> for DateTime<Utc> { type Output = Self; fn add(self, o: std::time::Duration) -> Self { at(self.ms.wrapping_add(o.as_millis() as i64)) } }
