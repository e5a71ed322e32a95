//! Hands requests to whoever simulates the network.
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

#[derive(Debug)]
pub enum Error {
    JsError(String),
    GlooError(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Error::JsError(s) | Error::GlooError(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}

pub struct Request {
    pub url: String,
    pub headers: Vec<(String, String)>,
}
/// What came back: status, headers, and the body, which may fail to arrive
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Result<Vec<u8>, String>,
}
pub type Answer = Pin<Box<dyn Future<Output = Result<Reply, String>> + Send>>;
pub type Handler = Rc<dyn Fn(Request) -> Answer>;

thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
}
pub fn simulate(h: Option<Handler>) {
    HANDLER.with(|x| *x.borrow_mut() = h);
}

pub mod http {
    use super::*;

    pub struct RequestBuilder(super::Request);
    impl RequestBuilder {
        pub fn new(url: &str) -> RequestBuilder {
            RequestBuilder(super::Request {
                url: url.to_string(),
                headers: vec![],
            })
        }
        pub fn header(mut self, k: &str, v: &str) -> RequestBuilder {
            self.0.headers.push((k.to_string(), v.to_string()));
            self
        }
        pub fn send(self) -> impl Future<Output = Result<Response, Error>> + Send {
            let answer = HANDLER.with(|h| h.borrow().clone()).map(|h| h(self.0));
            async move {
                match answer {
                    Some(a) => a.await.map(Response).map_err(Error::JsError),
                    None => Err(Error::GlooError("no network".into())),
                }
            }
        }
    }


    pub struct Response(Reply);
    impl Response {
        pub fn ok(&self) -> bool {
            (200..300).contains(&self.0.status)
        }
        pub fn status(&self) -> u16 {
            self.0.status
        }
        pub fn status_text(&self) -> String {
            self.0.status.to_string()
        }
        pub fn headers(&self) -> Headers {
            Headers(self.0.headers.clone())
        }
        pub async fn binary(&self) -> Result<Vec<u8>, Error> {
            self.0.body.clone().map_err(Error::JsError)
        }
    }
    pub struct Headers(Vec<(String, String)>);
    impl Headers {
        pub fn get(&self, name: &str) -> Option<String> {
            self.0.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone())
        }
    }
}
