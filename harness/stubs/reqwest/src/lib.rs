//! A stand-in for reqwest without a network: requests are written, one JSON a line, to the file
//! VH_HTTP_LOG names; the n-th one's answer is the n-th line of the file VH_HTTP_ANSWERS:
//! {"status": 200, "body": "..."}, with "broken": the body cannot be read.  No line: no connection.
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const UNAUTHORIZED: StatusCode = StatusCode(401);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const CONFLICT: StatusCode = StatusCode(409);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const BAD_GATEWAY: StatusCode = StatusCode(502);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn as_str(&self) -> String {
        self.0.to_string()
    }
    pub fn is_informational(&self) -> bool {
        (100..200).contains(&self.0)
    }
    pub fn is_redirection(&self) -> bool {
        (300..400).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub mod header {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct HeaderName(pub(crate) &'static str);
    impl HeaderName {
        pub fn as_str(&self) -> &str {
            self.0
        }
    }
    impl From<&'static str> for HeaderName {
        fn from(s: &'static str) -> Self {
            HeaderName(s)
        }
    }
    pub const CONTENT_TYPE: HeaderName = HeaderName("content-type");
    pub const USER_AGENT: HeaderName = HeaderName("user-agent");
    pub const ACCEPT: HeaderName = HeaderName("accept");
}

pub mod blocking {
    use super::*;
    use std::io::Write;
    use std::sync::atomic::{AtomicUsize, Ordering};

    static ASKED: AtomicUsize = AtomicUsize::new(0);

    #[derive(Clone, Debug, Default)]
    pub struct Client;
    impl Client {
        pub fn new() -> Self {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        fn request(&self, method: &str, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder { method: method.into(), url: url.as_ref().into(), headers: vec![], body: String::new() }
        }
        pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder {
            self.request("POST", url)
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            self.request("GET", url)
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct ClientBuilder;
    impl ClientBuilder {
        pub fn new() -> Self {
            ClientBuilder
        }
        pub fn timeout(self, _: impl Into<Option<std::time::Duration>>) -> Self {
            self
        }
        pub fn connect_timeout(self, _: impl Into<Option<std::time::Duration>>) -> Self {
            self
        }
        pub fn user_agent(self, _: impl AsRef<str>) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }

    #[derive(Debug)]
    pub struct RequestBuilder {
        method: String,
        url: String,
        headers: Vec<(String, String)>,
        body: String,
    }
    impl RequestBuilder {
        pub fn header(mut self, name: impl Into<header::HeaderName>, value: impl AsRef<str>) -> Self {
            self.headers.push((name.into().0.to_ascii_lowercase(), value.as_ref().into()));
            self
        }
        pub fn body(mut self, body: impl Into<String>) -> Self {
            self.body = body.into();
            self
        }
        pub fn timeout(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            let n = ASKED.fetch_add(1, Ordering::SeqCst);
            let line = serde_json::json!({
                "method": self.method, "url": self.url, "headers": self.headers, "body": self.body
            });
            let path = std::env::var("VH_HTTP_LOG").expect("VH_HTTP_LOG");
            let mut log = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("log");
            log.write_all(format!("{line}\n").as_bytes()).expect("log");
            let answers = std::fs::read_to_string(std::env::var("VH_HTTP_ANSWERS").expect("VH_HTTP_ANSWERS"));
            let answers = answers.expect("answers");
            match answers.lines().nth(n) {
                Some(l) if l != "null" => Ok(serde_json::from_str(l).expect("an answer")),
                _ => Err(Error(format!("error sending request for url ({})", self.url))),
            }
        }
    }

    #[derive(Debug, serde::Deserialize)]
    pub struct Response {
        status: u16,
        body: String,
        #[serde(default)]
        broken: bool,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.status)
        }
        pub fn error_for_status(self) -> Result<Self> {
            match self.status {
                400..=599 => Err(Error(format!("HTTP status error ({})", self.status))),
                _ => Ok(self),
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            match self.status {
                400..=599 => Err(Error(format!("HTTP status error ({})", self.status))),
                _ => Ok(self),
            }
        }
        pub fn content_length(&self) -> Option<u64> {
            Some(self.body.len() as u64)
        }
        pub fn bytes(self) -> Result<Vec<u8>> {
            self.text().map(String::into_bytes)
        }
        pub fn text(self) -> Result<String> {
            if self.broken {
                return Err(Error("error decoding response body".into()));
            }
            Ok(self.body)
        }
    }
}
