//! Trace contexts travel unchanged through the carrier text and through headers.
use opentelemetry::Context;
use crate::tracing::*;
fn check(c: Context) {
    let t = context_to_json(&c);
    assert!(json_to_context(&t) == c, "P19: a trace context changed on its way through the stored carrier");
    let h = context_to_headers(&c);
    assert!(context_from_headers(&h) == c, "P19: a trace context changed on its way through the headers");
}
crate::harnesses! {
    trace_none(24) { check(Context { span: None, baggage: None }); vsym::witness!(true, "nothing"); }
    trace_span(34) { if vsym::bool_() { check(Context { span: Some(b'a'), baggage: None }) } else { check(Context { span: Some(b'"'), baggage: None }) } vsym::witness!(true, "a span"); }
    trace_baggage(34) { if vsym::bool_() { check(Context { span: None, baggage: Some(b'b') }) } else { check(Context { span: None, baggage: Some(b'\\') }) } vsym::witness!(true, "baggage"); }
    trace_both(48) { if vsym::bool_() { check(Context { span: Some(b'a'), baggage: Some(b'b') }) } else { check(Context { span: Some(b'b'), baggage: Some(b'b') }) } vsym::witness!(true, "both"); }
    /// one arbitrary character; carriers cut off at every interesting place
    trace_malformed(34) {
        unsafe { opentelemetry::CURRENT = Some(Context { span: Some(1), baggage: Some(2) }); }
        if vsym::bool_() { none(""); } else if vsym::bool_() { none("x"); } else if vsym::bool_() { none("1"); } else if vsym::bool_() { none("\"\""); } else if vsym::bool_() { none("{"); } else if vsym::bool_() { none("{\"traceparent\""); } else if vsym::bool_() { none("{\"traceparent\":"); } else { none("{\"traceparent\":\"a\""); }
        vsym::witness!(true, "a malformed carrier");
    }
}
fn none(s: &str) { assert!(json_to_context(s) == Context::new(), "P19: a malformed carrier gives a context"); }
