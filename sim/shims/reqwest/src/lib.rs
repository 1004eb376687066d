//! Deterministic stand-in for the `reqwest` client: no sockets. Every request is handed to the
//! handler the simulator installed on this thread, which decides the reply, its delay (on the
//! simulated tokio clock) and any fault.
use serde::{de::DeserializeOwned, Serialize};
use std::{cell::RefCell, fmt, rc::Rc, time::Duration};

pub use url::Url;

/// What the simulated network does with one request.
#[derive(Debug, Clone)]
pub enum SimBody {
    /// The whole body arrives.
    Full(Vec<u8>),
    /// The headers arrive, the body breaks off: reading it is an error.
    BodyError,
}

#[derive(Debug, Clone)]
pub enum SimReply {
    Response {
        delay_ms: u64,
        body_delay_ms: u64,
        status: u16,
        body: SimBody,
    },
    /// Connection refused or reset after the delay.
    ConnectError { delay_ms: u64 },
    /// Nothing ever arrives.
    Hang,
}

pub type SimHandler = Rc<dyn Fn(&Url) -> SimReply>;

thread_local! {
    static HANDLER: RefCell<Option<SimHandler>> = const { RefCell::new(None) };
}

pub fn sim_install(handler: Option<SimHandler>) {
    HANDLER.with(|h| *h.borrow_mut() = handler);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Kind {
    Connect,
    Timeout,
    Body,
    Status(u16),
    Decode,
    Builder,
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
}

pub type Result<T> = std::result::Result<T, Error>;

impl Error {
    fn new(kind: Kind, url: Option<&Url>) -> Self {
        Self {
            kind,
            url: url.cloned(),
        }
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Connect | Kind::Timeout)
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(StatusCode(s)),
            _ => None,
        }
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
}

impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reqwest::Error({:?})", self.kind)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "request failed: {:?}", self.kind)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);

impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const UNAUTHORIZED: StatusCode = StatusCode(401);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const REQUEST_TIMEOUT: StatusCode = StatusCode(408);
    pub const NOT_IMPLEMENTED: StatusCode = StatusCode(501);
    pub const BAD_GATEWAY: StatusCode = StatusCode(502);
    pub const GATEWAY_TIMEOUT: StatusCode = StatusCode(504);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const TOO_MANY_REQUESTS: StatusCode = StatusCode(429);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_informational(&self) -> bool {
        self.0 / 100 == 1
    }
    pub fn is_success(&self) -> bool {
        self.0 / 100 == 2
    }
    pub fn is_redirection(&self) -> bool {
        self.0 / 100 == 3
    }
    pub fn is_client_error(&self) -> bool {
        self.0 / 100 == 4
    }
    pub fn is_server_error(&self) -> bool {
        self.0 / 100 == 5
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, other: &u16) -> bool {
        self.0 == *other
    }
}
impl fmt::Debug for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        Ok(self.clone())
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|_| Error::new(Kind::Builder, None))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client {
    timeout: Option<Duration>,
}

#[derive(Clone, Debug, Default)]
pub struct ClientBuilder {
    timeout: Option<Duration>,
}

impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.timeout = Some(t);
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn read_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn user_agent(self, _: &str) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client {
            timeout: self.timeout,
        })
    }
}

impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        RequestBuilder {
            url: url.into_url(),
            timeout: self.timeout,
        }
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    url: Result<Url>,
    timeout: Option<Duration>,
}

#[derive(Debug, Clone, Copy)]
struct Deadline(Option<tokio::time::Instant>);

impl Deadline {
    /// Sleep for `ms`, cut short by the deadline: false means the deadline came first.
    async fn sleep(&self, ms: u64) -> bool {
        let until = tokio::time::Instant::now() + Duration::from_millis(ms);
        match self.0 {
            Some(d) if d < until => {
                tokio::time::sleep_until(d).await;
                false
            }
            _ => {
                tokio::time::sleep_until(until).await;
                true
            }
        }
    }
}

impl RequestBuilder {
    pub fn timeout(mut self, t: Duration) -> Self {
        self.timeout = Some(t);
        self
    }
    pub fn header<K, V>(self, _: K, _: V) -> Self {
        self
    }
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        let pairs = serde_json::to_value(q).ok().map(pairs_of);
        match (&mut self.url, pairs) {
            (Ok(url), Some(pairs)) => {
                let mut qp = url.query_pairs_mut();
                for (k, v) in pairs {
                    qp.append_pair(&k, &v);
                }
            }
            (url @ Ok(_), None) => *url = Err(Error::new(Kind::Builder, None)),
            _ => {}
        }
        self
    }
    pub async fn send(self) -> Result<Response> {
        let url = self.url?;
        let deadline = Deadline(self.timeout.map(|t| tokio::time::Instant::now() + t));
        let reply = {
            let handler = HANDLER.with(|h| h.borrow().clone());
            handler.map(|handler| handler(&url))
        };
        let Some(reply) = reply else {
            return Err(Error::new(Kind::Connect, Some(&url)));
        };
        match reply {
            SimReply::Response {
                delay_ms,
                body_delay_ms,
                status,
                body,
            } => {
                if !deadline.sleep(delay_ms).await {
                    return Err(Error::new(Kind::Timeout, Some(&url)));
                }
                Ok(Response {
                    url,
                    status,
                    body,
                    body_delay_ms,
                    deadline,
                })
            }
            SimReply::ConnectError { delay_ms } => {
                let k = if deadline.sleep(delay_ms).await {
                    Kind::Connect
                } else {
                    Kind::Timeout
                };
                Err(Error::new(k, Some(&url)))
            }
            SimReply::Hang => match deadline.0 {
                Some(d) => {
                    tokio::time::sleep_until(d).await;
                    Err(Error::new(Kind::Timeout, Some(&url)))
                }
                None => std::future::pending().await,
            },
        }
    }
}

fn scalar(v: &serde_json::Value) -> String {
    match v {
        serde_json::Value::String(s) => s.clone(),
        other => other.to_string(),
    }
}

fn pairs_of(v: serde_json::Value) -> Vec<(String, String)> {
    match v {
        serde_json::Value::Array(items) => items
            .iter()
            .filter_map(|i| match i {
                serde_json::Value::Array(kv) if kv.len() == 2 => {
                    Some((scalar(&kv[0]), scalar(&kv[1])))
                }
                _ => None,
            })
            .collect(),
        serde_json::Value::Object(map) => map.iter().map(|(k, v)| (k.clone(), scalar(v))).collect(),
        _ => vec![],
    }
}

#[derive(Debug)]
pub struct Response {
    url: Url,
    status: u16,
    body: SimBody,
    body_delay_ms: u64,
    deadline: Deadline,
}

impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status >= 400 {
            Err(Error::new(Kind::Status(self.status), Some(&self.url)))
        } else {
            Ok(self)
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status >= 400 {
            Err(Error::new(Kind::Status(self.status), Some(&self.url)))
        } else {
            Ok(self)
        }
    }
    async fn raw(self) -> Result<Vec<u8>> {
        if !self.deadline.sleep(self.body_delay_ms).await {
            return Err(Error::new(Kind::Timeout, Some(&self.url)));
        }
        match self.body {
            SimBody::Full(b) => Ok(b),
            SimBody::BodyError => Err(Error::new(Kind::Body, Some(&self.url))),
        }
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        self.raw().await
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.raw().await?).into_owned())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let url = self.url.clone();
        let raw = self.raw().await?;
        serde_json::from_slice(&raw).map_err(|_| Error::new(Kind::Decode, Some(&url)))
    }
}

/// A single request without a client of one's own.
pub async fn get<U: IntoUrl>(url: U) -> Result<Response> {
    Client::new().get(url).send().await
}
