//! Stands in for the blocking client of reqwest 0.11, with which cjseq2 fetches the schemas of
//! extensions: requests go to a simulated server, or fail where there is none.

use std::cell::RefCell;
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

/// Answers a request for a URL: the body, or why there is none.
pub type Answer = Box<dyn FnMut(&str) -> std::result::Result<Vec<u8>, String>>;

thread_local! {
    static SERVER: RefCell<Option<Answer>> = const { RefCell::new(None) };
}

/// Puts a server behind the requests of this thread, or takes it away.
pub fn serve(answer: Option<Answer>) {
    SERVER.with(|s| *s.borrow_mut() = answer);
}

pub mod blocking {
    use super::*;
    use std::time::Duration;

    pub struct Client;
    pub struct ClientBuilder;
    pub struct RequestBuilder(String);
    pub struct Response(Vec<u8>);

    impl Client {
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn new() -> Client {
            Client
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder(url.as_ref().to_string())
        }
    }
    impl Default for Client {
        fn default() -> Client {
            Client
        }
    }
    impl ClientBuilder {
        pub fn timeout(self, _: impl Into<Option<Duration>>) -> ClientBuilder {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            SERVER
                .with(|s| match s.borrow_mut().as_mut() {
                    Some(f) => f(&self.0),
                    None => Err("no server".to_string()),
                })
                .map(Response)
                .map_err(|e| Error(format!("error sending request for url ({}): {}", self.0, e)))
        }
    }
    impl Response {
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
            serde_json::from_slice(&self.0).map_err(|e| Error(format!("error decoding response body: {}", e)))
        }
        pub fn text(self) -> Result<String> {
            String::from_utf8(self.0).map_err(|e| Error(e.to_string()))
        }
    }
}
