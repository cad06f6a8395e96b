//! Stand-in for `simple-error`.
use std::{error, fmt};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SimpleError {
    err: String,
}
impl SimpleError {
    pub fn new<T: Into<String>>(t: T) -> Self {
        Self { err: t.into() }
    }
    pub fn as_str(&self) -> &str {
        &self.err
    }
}
impl fmt::Display for SimpleError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.err.fmt(f)
    }
}
impl error::Error for SimpleError {}
impl From<&str> for SimpleError {
    fn from(s: &str) -> Self {
        Self::new(s)
    }
}
impl From<String> for SimpleError {
    fn from(s: String) -> Self {
        Self::new(s)
    }
}

#[macro_export]
macro_rules! simple_error {
    ($fmt:literal, $($arg:tt)+) => { $crate::SimpleError::new(::std::format!($fmt, $($arg)+)) };
    ($e:expr $(,)?) => { $crate::SimpleError::new($e) };
}
#[macro_export]
macro_rules! bail {
    ($fmt:literal, $($arg:tt)+) => {
        return ::std::result::Result::Err(::std::convert::From::from($crate::SimpleError::new(::std::format!($fmt, $($arg)+))))
    };
    ($e:expr $(,)?) => {
        return ::std::result::Result::Err(::std::convert::From::from($crate::SimpleError::new($e)))
    };
}

impl From<SimpleError> for String {
    fn from(e: SimpleError) -> String {
        e.to_string()
    }
}
