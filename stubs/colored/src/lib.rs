//! Stand-in for `colored`: what it prints when the output is not a terminal, plain text.
use std::{fmt, ops::Deref};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString {
    input: String,
}
impl Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.input
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        Self { input: s.to_string() }
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        <str as fmt::Display>::fmt(&self.input, f)
    }
}

macro_rules! colorize {
    ($($n:ident)*) => {
        pub trait Colorize {
            fn plain(self) -> ColoredString where Self: Sized;
            $(fn $n(self) -> ColoredString where Self: Sized { self.plain() })*
        }
    };
}
colorize! {
    black red green yellow blue magenta purple cyan white
    bright_black bright_red bright_green bright_yellow bright_blue bright_magenta bright_cyan bright_white
    on_red on_green on_yellow on_blue on_magenta on_cyan on_white
    bold dimmed italic underline reversed normal clear
}
impl Colorize for &str {
    fn plain(self) -> ColoredString {
        ColoredString::from(self)
    }
}
impl Colorize for ColoredString {
    fn plain(self) -> ColoredString {
        self
    }
}
