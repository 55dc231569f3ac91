pub mod propagation {
    use opentelemetry::{Context, propagation::{Extractor, Injector, TextMapPropagator}};
    fn s(x: u8) -> String { let mut v = Vec::with_capacity(1); v.push(x); unsafe { String::from_utf8_unchecked(v) } }
    #[derive(Debug, Default)] pub struct BaggagePropagator(());
    impl BaggagePropagator { pub fn new() -> Self { BaggagePropagator(()) } }
    impl TextMapPropagator for BaggagePropagator {
        fn inject_context(&self, cx: &Context, i: &mut dyn Injector) { if let Some(b) = cx.baggage { i.set("baggage", s(b)) } }
        fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context { match e.get("baggage") { Some(v) if !v.is_empty() => Context { baggage: Some(v.as_bytes()[0]), ..cx.clone() }, _ => cx.clone() } }
    }
    #[derive(Debug, Default)] pub struct TraceContextPropagator(());
    impl TraceContextPropagator { pub fn new() -> Self { TraceContextPropagator(()) } }
    impl TextMapPropagator for TraceContextPropagator {
        fn inject_context(&self, cx: &Context, i: &mut dyn Injector) { if let Some(b) = cx.span { i.set("traceparent", s(b)) } }
        fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context { match e.get("traceparent") { Some(v) if !v.is_empty() => Context { span: Some(v.as_bytes()[0]), ..cx.clone() }, _ => cx.clone() } }
    }
}
