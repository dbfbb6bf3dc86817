//! Stand-in for the HTTP client: every request is answered with what the harness put in ANSWER.
use std::fmt;
pub static mut ANSWER: Option<(u16, String)> = None;
#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("no answer") } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode { pub fn is_success(&self) -> bool { (200..300).contains(&self.0) } pub fn as_u16(&self) -> u16 { self.0 } }
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("status") } }
pub mod blocking {
    use super::*;
    #[derive(Debug, Clone, Default)]
    pub struct Client;
    pub struct RequestBuilder;
    pub struct Response(u16, String);
    impl Client { pub fn new() -> Self { Client } pub fn get(&self, _: &str) -> RequestBuilder { RequestBuilder } }
    impl RequestBuilder { #[allow(static_mut_refs)] pub fn send(self) -> Result<Response, Error> { match unsafe { &ANSWER } { Some((s, t)) => Ok(Response(*s, t.clone())), None => Err(Error) } } }
    impl Response { pub fn status(&self) -> StatusCode { StatusCode(self.0) } pub fn text(self) -> Result<String, Error> { Ok(self.1) } pub fn bytes(self) -> Result<Vec<u8>, Error> { Ok(self.1.into_bytes()) } }
    pub fn get(_: &str) -> Result<Response, Error> { RequestBuilder.send() }
}
