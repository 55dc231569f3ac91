//! Stand-in: a context is an optional span context atom and a list of baggage atoms; propagators are
//! injective encodings of those to carrier entries, as the W3C formats are.
pub static mut CURRENT: Option<Context> = None;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Context { pub span: Option<u8>, pub baggage: Option<u8> }
impl Context {
    pub fn new() -> Self { Context::default() }
    #[allow(static_mut_refs)]
    pub fn current() -> Self { unsafe { CURRENT.clone().unwrap_or_default() } }
    pub fn map_current<T>(f: impl FnOnce(&Context) -> T) -> T { f(&Context::current()) }
    pub fn attach(self) -> ContextGuard { ContextGuard }
}
pub struct ContextGuard;
pub mod trace { pub use super::TraceContextExt; }
pub trait TraceContextExt {}
impl TraceContextExt for Context {}
pub mod propagation {
    use super::Context;
    pub trait Injector { fn set(&mut self, key: &str, value: String); fn reserve(&mut self, _n: usize) {} }
    pub trait Extractor { fn get(&self, key: &str) -> Option<&str>; fn keys(&self) -> Vec<&str>; }
    impl Injector for rustc_hash::FxHashMap<String, String> { fn set(&mut self, key: &str, value: String) { self.insert(key.to_string(), value); } }
    impl Extractor for rustc_hash::FxHashMap<String, String> { fn get(&self, key: &str) -> Option<&str> { rustc_hash::FxHashMap::get(self, key).map(|v| v.as_str()) } fn keys(&self) -> Vec<&str> { rustc_hash::FxHashMap::keys(self).map(|k| k.as_str()).collect() } }
    impl<S: std::hash::BuildHasher> Injector for std::collections::HashMap<String, String, S> { fn set(&mut self, key: &str, value: String) { self.insert(key.to_string(), value); } }
    impl<S: std::hash::BuildHasher> Extractor for std::collections::HashMap<String, String, S> { fn get(&self, key: &str) -> Option<&str> { std::collections::HashMap::get(self, key).map(|v| v.as_str()) } fn keys(&self) -> Vec<&str> { std::collections::HashMap::keys(self).map(|k| k.as_str()).collect() } }
    pub trait TextMapPropagator: std::fmt::Debug {
        fn inject(&self, i: &mut dyn Injector) { self.inject_context(&Context::current(), i) }
        fn inject_context(&self, cx: &Context, i: &mut dyn Injector);
        fn extract(&self, e: &dyn Extractor) -> Context { self.extract_with_context(&Context::current(), e) }
        fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context;
    }
    #[derive(Debug)]
    pub struct TextMapCompositePropagator { p: Vec<Box<dyn TextMapPropagator + Send + Sync>> }
    impl TextMapCompositePropagator { pub fn new(p: Vec<Box<dyn TextMapPropagator + Send + Sync>>) -> Self { TextMapCompositePropagator { p } } }
    impl TextMapPropagator for TextMapCompositePropagator {
        fn inject_context(&self, cx: &Context, i: &mut dyn Injector) { for p in &self.p { p.inject_context(cx, i) } }
        fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context { let mut c = cx.clone(); for p in &self.p { c = p.extract_with_context(&c, e); } c }
    }
}
