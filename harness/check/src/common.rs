use mc::enc::EOpt;
use mc::run::Cx;
use mc::val::J;
use std::panic::{AssertUnwindSafe, catch_unwind};
use toon::{Delimiter, ExpandPaths, KeyFolding, Options};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opt {
    pub delim: char,
    pub indent: usize,
    pub strict: bool,
    /// None: off. Some(None): unlimited
    pub fold: Option<Option<usize>>,
    pub expand: bool,
}
pub const BASE: Opt = Opt { delim: ',', indent: 2, strict: true, fold: None, expand: false };
pub const DELIMS: [char; 3] = [',', '\t', '|'];
pub const INDENTS: [usize; 5] = [1, 2, 3, 4, 8];

pub fn delim(c: char) -> Delimiter {
    match c {
        ',' => Delimiter::Comma,
        '\t' => Delimiter::Tab,
        _ => Delimiter::Pipe,
    }
}
impl Opt {
    pub fn o(&self) -> Options {
        Options {
            delimiter: delim(self.delim),
            strict: self.strict,
            indent: self.indent,
            key_folding: if self.fold.is_some() { KeyFolding::Safe } else { KeyFolding::Off },
            flatten_depth: self.fold.flatten(),
            expand_paths: if self.expand { ExpandPaths::Safe } else { ExpandPaths::Off },
        }
    }
    pub fn e(&self) -> EOpt {
        EOpt { delim: self.delim, indent: self.indent, fold: self.fold.map(|d| d.unwrap_or(usize::MAX)) }
    }
    pub fn s(&self) -> String {
        format!(
            "delim={:?} indent={} {}{}{}",
            self.delim,
            self.indent,
            if self.strict { "strict" } else { "lenient" },
            match self.fold {
                None => String::new(),
                Some(None) => " fold".into(),
                Some(Some(d)) => format!(" fold={}", d),
            },
            if self.expand { " expand" } else { "" }
        )
    }
    pub fn strict(mut self, s: bool) -> Opt {
        self.strict = s;
        self
    }
}
/// encoding-side options: full product, or the reduced one of larger spaces
pub fn layouts(size: u8) -> Vec<Opt> {
    let mut v = Vec::new();
    match size {
        0 => {
            for d in DELIMS {
                for i in INDENTS {
                    v.push(Opt { delim: d, indent: i, ..BASE });
                }
            }
        }
        1 => {
            for (d, i) in [(',', 2), ('\t', 4), ('|', 1), (',', 3), ('\t', 2)] {
                v.push(Opt { delim: d, indent: i, ..BASE });
            }
        }
        _ => {
            for (d, i) in [(',', 2), ('|', 3)] {
                v.push(Opt { delim: d, indent: i, ..BASE });
            }
        }
    }
    v
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("PANIC: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()))),
    }
}
pub fn enc<T: serde::Serialize>(cx: &mut Cx, v: &T, o: &Options) -> Result<String, String> {
    cx.ops += 1;
    guarded(|| toon::encode_to_string(v, o).map_err(|e| format!("{}", e)))
}
pub fn dec(cx: &mut Cx, t: &str, o: &Options) -> Result<J, String> {
    dec_as::<J>(cx, t, o)
}
pub fn dec_as<T: serde::de::DeserializeOwned + 'static>(cx: &mut Cx, t: &str, o: &Options) -> Result<T, String> {
    cx.ops += 1;
    guarded(|| toon::decode_from_str::<T>(t, o).map_err(|e| format!("{}", e)))
}
pub fn show(r: &Result<J, String>) -> String {
    match r {
        Ok(j) => j.json(),
        Err(e) => format!("error: {}", e),
    }
}
pub fn shows(r: &Result<String, String>) -> String {
    match r {
        Ok(j) => j.clone(),
        Err(e) => format!("error: {}", e),
    }
}
pub fn is_panic<T>(r: &Result<T, String>) -> bool {
    matches!(r, Err(e) if e.starts_with("PANIC"))
}
/// short identification of a long text
pub fn tag(s: &str) -> String {
    if s.len() <= 200 {
        s.to_string()
    } else {
        let mut e = 120;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…#{:x}", &s[..e], mc::run::fnv(s.as_bytes()))
    }
}
