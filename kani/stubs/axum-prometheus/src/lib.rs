//! Stand-in: metrics have no effect.
pub mod metrics {
    pub struct M;
    pub trait Num {} impl Num for u64 {} impl Num for f64 {} impl Num for i32 {} impl Num for u32 {} impl Num for i64 {} impl Num for usize {} impl Num for std::time::Duration {}
    impl M {
        pub fn increment<T>(&self, _n: T) {} pub fn decrement<T>(&self, _n: T) {} pub fn set<T>(&self, _n: T) {} pub fn record<T>(&self, _n: T) {} pub fn absolute<T>(&self, _n: T) {}
    }
    pub struct Counter; impl Counter { pub fn increment(&self, _n: u64) {} pub fn absolute(&self, _n: u64) {} }
    #[derive(Clone, Copy, Debug)] pub enum Unit { Count, Seconds, Milliseconds, Bytes }
    pub use crate::{counter, gauge, histogram, describe_counter, describe_gauge, describe_histogram};
}
#[macro_export] macro_rules! counter { ($($t:tt)*) => { $crate::metrics::Counter }; }
#[macro_export] macro_rules! gauge { ($($t:tt)*) => { $crate::metrics::M }; }
#[macro_export] macro_rules! histogram { ($($t:tt)*) => { $crate::metrics::M }; }
#[macro_export] macro_rules! describe_counter { ($($t:tt)*) => { { } }; }
#[macro_export] macro_rules! describe_gauge { ($($t:tt)*) => { { } }; }
#[macro_export] macro_rules! describe_histogram { ($($t:tt)*) => { { } }; }
pub const AXUM_HTTP_REQUESTS_DURATION_SECONDS: &str = "x";
pub struct Handle;
pub struct GenericMetricLayer<'a, A, B>(std::marker::PhantomData<(&'a A, B)>);
pub type PrometheusMetricLayer<'a> = GenericMetricLayer<'a, metrics_exporter_prometheus::PrometheusHandle, Handle>;
impl<'a, A, B> GenericMetricLayer<'a, A, B> { pub fn new() -> Self { GenericMetricLayer(std::marker::PhantomData) } }
pub mod utils { pub const SECONDS_DURATION_BUCKETS: &[f64] = &[1.0]; }
pub mod metrics_exporter_prometheus {
    #[derive(Clone)] pub struct PrometheusHandle;
    impl PrometheusHandle { pub fn render(&self) -> String { String::new() } }
    pub enum Matcher { Full(String), Prefix(String), Suffix(String) }
    pub struct PrometheusBuilder;
    impl PrometheusBuilder { pub fn new() -> Self { PrometheusBuilder } pub fn set_buckets_for_metric(self, _m: Matcher, _b: &[f64]) -> Result<Self, std::fmt::Error> { Ok(self) } pub fn install_recorder(self) -> Result<PrometheusHandle, std::fmt::Error> { Ok(PrometheusHandle) } }
}
