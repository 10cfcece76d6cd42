//! Error handling.
use std::error;
use std::fmt;

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    error: Box<dyn error::Error + Send + Sync>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidArg,
    InvalidState,
    DecompFailure,
    AlgebraFailure,
    DivByZero,
    ScalarConversionFailure,
}

impl Error {
    pub fn new<E>(kind: ErrorKind, error: E) -> Error
        where E: Into<Box<dyn error::Error + Send + Sync>>
    {
        Error { kind, error: error.into() }
    }
    pub fn kind(&self) -> &ErrorKind { &self.kind }
    pub fn into_error(self) -> Box<dyn error::Error + Send + Sync> { self.error }
}

impl error::Error for Error {
    #[allow(deprecated)]
    fn description(&self) -> &str { self.error.description() }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.error.fmt(f) }
}
