//! Stand-in for `env_logger` 0.9: accepts the configuration and logs nothing.
pub mod fmt {
    use std::io;
    pub struct Formatter(());
    impl io::Write for Formatter {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            Ok(buf.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
#[derive(Default)]
pub struct Env(());
impl Env {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn default_filter_or(self, _: &str) -> Self {
        self
    }
}
#[derive(Default)]
pub struct Builder(());
impl Builder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn from_env(_: impl Into<Env>) -> Self {
        Self(())
    }
    pub fn format<F>(&mut self, _: F) -> &mut Self
    where
        F: Fn(&mut fmt::Formatter, &log::Record) -> std::io::Result<()> + Sync + Send + 'static,
    {
        self
    }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn is_test(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
    pub fn init(&mut self) {}
}
pub fn builder() -> Builder {
    Builder(())
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
    Ok(())
}
pub fn init() {}
