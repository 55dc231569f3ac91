//! Stand-in: the CBOR codec is not modelled.
pub mod de { #[derive(Debug)] pub enum Error<T> { Io(T), Model } impl<T> std::fmt::Display for Error<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cbor") } } impl<T: std::fmt::Debug> std::error::Error for Error<T> {} }
pub mod ser { #[derive(Debug)] pub enum Error<T> { Io(T) } impl<T> std::fmt::Display for Error<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cbor") } } impl<T: std::fmt::Debug> std::error::Error for Error<T> {} }
pub fn from_reader<T, R>(_r: R) -> Result<T, de::Error<std::io::Error>> { Err(de::Error::Model) }
pub fn into_writer<T: ?Sized, W>(_t: &T, _w: W) -> Result<(), ser::Error<std::io::Error>> { Ok(()) }
