//! Stand-in for `tonic`: message wrappers and status codes, no network transport.
pub use tonic_macros::async_trait;

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => {
        include!(concat!(env!("OUT_DIR"), concat!("/", $package, ".rs")));
    };
}

#[derive(Debug, Clone)]
pub struct Request<T> {
    message: T,
}

impl<T> Request<T> {
    pub fn new(message: T) -> Self {
        Request { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
}

#[derive(Debug, Clone)]
pub struct Response<T> {
    message: T,
}

impl<T> Response<T> {
    pub fn new(message: T) -> Self {
        Response { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
    pub fn map<F, U>(self, f: F) -> Response<U>
    where
        F: FnOnce(T) -> U,
    {
        Response {
            message: f(self.message),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}

#[derive(Clone)]
pub struct Status {
    code: Code,
    message: String,
}

macro_rules! ctors {
    ($($name:ident => $code:ident),* $(,)?) => {
        impl Status {
            $(pub fn $name(message: impl Into<String>) -> Status {
                Status::new(Code::$code, message)
            })*
        }
    };
}

ctors! {
    ok => Ok, cancelled => Cancelled, unknown => Unknown, invalid_argument => InvalidArgument,
    deadline_exceeded => DeadlineExceeded, not_found => NotFound,
    already_exists => AlreadyExists, permission_denied => PermissionDenied,
    resource_exhausted => ResourceExhausted, failed_precondition => FailedPrecondition,
    aborted => Aborted, out_of_range => OutOfRange, unimplemented => Unimplemented,
    internal => Internal, unavailable => Unavailable, data_loss => DataLoss,
    unauthenticated => Unauthenticated,
}

impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Status {
        Status {
            code,
            message: message.into(),
        }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}

impl std::fmt::Debug for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Status")
            .field("code", &self.code)
            .field("message", &self.message)
            .finish()
    }
}

impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}

impl std::error::Error for Status {}

pub mod transport {
    use std::net::SocketAddr;
    use std::time::Duration;

    #[derive(Debug)]
    pub struct Error(&'static str);

    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }

    impl std::error::Error for Error {}

    #[derive(Default)]
    pub struct Server;

    impl Server {
        pub fn builder() -> Self {
            Server
        }
        pub fn http2_keepalive_interval(self, _interval: Option<Duration>) -> Self {
            self
        }
        pub fn add_service<S>(&mut self, _service: S) -> Router {
            Router
        }
    }

    pub struct Router;

    impl Router {
        pub async fn serve(self, _addr: SocketAddr) -> Result<(), Error> {
            Err(Error("the stand-in for tonic has no transport"))
        }
    }
}
