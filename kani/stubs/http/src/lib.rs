//! Stand-in: header map as an association list.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct HeaderMap { e: Vec<(String, String)> }
impl HeaderMap {
    pub fn new() -> Self { HeaderMap { e: Vec::with_capacity(4) } }
    pub fn put(&mut self, k: &str, v: String) { if let Some(x) = self.e.iter_mut().find(|x| x.0 == k) { x.1 = v; } else { self.e.push((k.to_string(), v)); } }
    pub fn text(&self, k: &str) -> Option<&str> { self.e.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }
    pub fn names(&self) -> Vec<&str> { self.e.iter().map(|x| x.0.as_str()).collect() }
    pub fn len(&self) -> usize { self.e.len() }
    pub fn is_empty(&self) -> bool { self.e.is_empty() }
    pub fn extend(&mut self, o: HeaderMap) { for (k, v) in o.e { self.put(&k, v); } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct StatusCode(pub u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200); pub const CREATED: StatusCode = StatusCode(201); pub const ACCEPTED: StatusCode = StatusCode(202); pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const BAD_REQUEST: StatusCode = StatusCode(400); pub const UNAUTHORIZED: StatusCode = StatusCode(401); pub const FORBIDDEN: StatusCode = StatusCode(403); pub const NOT_FOUND: StatusCode = StatusCode(404); pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405); pub const CONFLICT: StatusCode = StatusCode(409); pub const GONE: StatusCode = StatusCode(410); pub const PAYLOAD_TOO_LARGE: StatusCode = StatusCode(413); pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode(422); pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500); pub const NOT_IMPLEMENTED: StatusCode = StatusCode(501); pub const BAD_GATEWAY: StatusCode = StatusCode(502); pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503); pub const GATEWAY_TIMEOUT: StatusCode = StatusCode(504);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 }
    pub fn is_client_error(&self) -> bool { self.0 >= 400 && self.0 < 500 }
    pub fn is_server_error(&self) -> bool { self.0 >= 500 && self.0 < 600 }
}
impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
