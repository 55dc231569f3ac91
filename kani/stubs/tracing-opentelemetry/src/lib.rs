use opentelemetry::Context;
pub trait OpenTelemetrySpanExt { fn context(&self) -> Context; fn set_parent(&self, c: Context) -> Result<(), ()>; fn set_attribute<K, V>(&self, _k: K, _v: V) {} fn add_link<C>(&self, _c: C) {} }
impl OpenTelemetrySpanExt for tracing::Span { fn context(&self) -> Context { Context::current() } fn set_parent(&self, _c: Context) -> Result<(), ()> { Ok(()) } }
