use opentelemetry::propagation::{Extractor, Injector};
pub struct HeaderInjector<'a>(pub &'a mut http::HeaderMap);
impl<'a> Injector for HeaderInjector<'a> { fn set(&mut self, k: &str, v: String) { self.0.put(k, v) } }
pub struct HeaderExtractor<'a>(pub &'a http::HeaderMap);
impl<'a> Extractor for HeaderExtractor<'a> { fn get(&self, k: &str) -> Option<&str> { self.0.text(k) } fn keys(&self) -> Vec<&str> { self.0.names() } }
