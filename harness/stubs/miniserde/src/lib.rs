//! A stand-in for miniserde: the same traits' names and JSON functions, by serde.
pub use serde::{Deserialize, Serialize};

#[derive(Copy, Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("miniserde error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod json {
    pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> crate::Result<T> {
        serde_json::from_str(s).map_err(|_| crate::Error)
    }
    pub fn to_string<T: ?Sized + serde::Serialize>(v: &T) -> String {
        serde_json::to_string(v).unwrap()
    }
}
