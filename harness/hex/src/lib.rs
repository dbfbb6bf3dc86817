//! Stand-in for the hex crate.
#[derive(Debug)]
pub struct FromHexError;
fn c(n: u8) -> char { (if n < 10 { b'0' + n } else { b'a' - 10 + n }) as char }
pub fn encode<T: AsRef<[u8]>>(d: T) -> String { let mut s = String::new(); for b in d.as_ref() { s.push(c(b >> 4)); s.push(c(b & 15)) } s }
fn n(c: u8) -> Result<u8, FromHexError> { match c { b'0'..=b'9' => Ok(c - b'0'), b'a'..=b'f' => Ok(c - b'a' + 10), b'A'..=b'F' => Ok(c - b'A' + 10), _ => Err(FromHexError) } }
pub fn decode<T: AsRef<[u8]>>(d: T) -> Result<Vec<u8>, FromHexError> { let d = d.as_ref(); if d.len() % 2 != 0 { return Err(FromHexError) } d.chunks(2).map(|p| Ok(n(p[0])? << 4 | n(p[1])?)).collect() }
