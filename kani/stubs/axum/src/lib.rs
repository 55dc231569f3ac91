pub mod extract { pub mod ws { #[derive(Debug, Clone, PartialEq, Eq)] pub enum Message { Binary(Bytes), Text(String), Ping(Bytes), Pong(Bytes), Close(Option<CloseFrame>) }
 #[derive(Debug, Clone, PartialEq, Eq, Default)] pub struct Bytes(pub Vec<u8>);
 impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
 impl std::ops::Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
 #[derive(Debug, Clone, PartialEq, Eq)] pub struct CloseFrame { pub code: u16, pub reason: String }
 impl Message { pub fn into_data(self) -> Bytes { match self { Message::Binary(b) | Message::Ping(b) | Message::Pong(b) => b, _ => Bytes::default() } } }
} }
