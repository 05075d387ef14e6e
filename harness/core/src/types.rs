//! Rust types used as targets and sources.
use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub enum En {
    Unit,
    New(i64),
    Tup(i64, String),
    St { x: u8, y: Option<bool> },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Rich {
    pub a: i64,
    #[serde(default)]
    pub b: Option<String>,
    #[serde(default)]
    pub c: Vec<En>,
}

/// one way of decoding, for any target
pub trait Decode {
    fn go<T: serde::de::DeserializeOwned + std::fmt::Debug + 'static>(&self) -> Result<String, String>;
}
pub const TARGETS: [&str; 14] = [
    "Rich", "En", "Vec<En>", "Vec<i8>", "Vec<String>", "BTreeMap<String, f64>", "f32", "u64", "i64", "char", "Option<bool>", "String", "(i64, String)", "BTreeMap<String, Vec<Rich>>",
];
pub fn decode_with(k: usize, d: &impl Decode) -> Result<String, String> {
    use std::collections::BTreeMap;
    match k {
        0 => d.go::<Rich>(),
        1 => d.go::<En>(),
        2 => d.go::<Vec<En>>(),
        3 => d.go::<Vec<i8>>(),
        4 => d.go::<Vec<String>>(),
        5 => d.go::<BTreeMap<String, f64>>(),
        6 => d.go::<f32>(),
        7 => d.go::<u64>(),
        8 => d.go::<i64>(),
        9 => d.go::<char>(),
        10 => d.go::<Option<bool>>(),
        11 => d.go::<String>(),
        12 => d.go::<(i64, String)>(),
        _ => d.go::<BTreeMap<String, Vec<Rich>>>(),
    }
}
