//! Reference strict decoder for TOON v3 documents, three-valued.
//! `Ok` and `Reject` are claims about the format; `Unspec` marks documents whose
//! reading the format (or its documented legacy extensions) leaves open.
use crate::enc::{key_plain, numeric_like};
use crate::val::{J, N};

#[derive(Clone, Debug)]
pub enum R {
    Ok(J),
    Reject(&'static str),
    /// accepting is left open, the reading is not
    Either(J, &'static str),
    Unspec(&'static str),
}

#[derive(Debug)]
enum E {
    Rej(&'static str),
    Uns(&'static str),
}
type Res<T> = Result<T, E>;

struct Line<'a> {
    depth: usize,
    body: &'a str,
}

struct P<'a> {
    lines: Vec<Line<'a>>, // non-blank only
    blank_before: Vec<bool>,
    pos: usize,
    /// acceptance left open
    grey: Option<&'static str>,
    /// reading left open
    open: Option<&'static str>,
}

#[derive(Clone, Debug)]
struct Header {
    n: usize,
    delim: char,
    fields: Option<Vec<String>>,
}

struct Head<'a> {
    key: Option<String>,
    header: Option<Header>,
    rest: &'a str, // text after the colon, leading space removed; "" if none
}

enum HeadRes<'a> {
    Head(Head<'a>),
    NoColon,
}

/// Find the end of a quoted string starting at s[0]=='"'. Returns (value, bytes consumed).
pub fn quoted_prefix(s: &str) -> Result<(String, usize), &'static str> {
    match quoted_any(s)? {
        (_, _, true) => Err("grey escape"),
        (t, n, _) => Ok((t, n)),
    }
}
/// Like `quoted_prefix`, reading escapes of JSON that TOON does not have; the flag tells.
pub fn quoted_any(s: &str) -> Result<(String, usize, bool), &'static str> {
    let mut grey = false;
    let mut out = String::new();
    let mut it = s.char_indices();
    it.next();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Ok((out, i + 1, grey)),
            '\\' => match it.next() {
                Some((_, '"')) => out.push('"'),
                Some((_, '\\')) => out.push('\\'),
                Some((_, 'n')) => out.push('\n'),
                Some((_, 'r')) => out.push('\r'),
                Some((_, 't')) => out.push('\t'),
                // extension of this implementation, used for control characters
                Some((_, 'u')) => {
                    let mut code = 0u32;
                    for _ in 0..4 {
                        let Some((_, h)) = it.next() else { return Err("bad escape") };
                        let Some(d) = h.to_digit(16) else { return Err("bad escape") };
                        code = code * 16 + d;
                    }
                    match char::from_u32(code) {
                        Some(c) => {
                            grey |= !(code < 0x20 || code == 0x7f) || matches!(c, '\n' | '\r' | '\t');
                            out.push(c);
                        }
                        None => return Err("escape of no character"),
                    }
                }
                Some((_, x @ ('/' | 'b' | 'f'))) => {
                    grey = true;
                    out.push(match x {
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        x => x,
                    });
                }
                _ => return Err("bad escape"),
            },
            c => out.push(c),
        }
    }
    Err("unterminated string")
}

impl<'a> P<'a> {
    fn uns<T>(&self, why: &'static str) -> Res<T> {
        Err(E::Uns(why))
    }
    fn quoted(&mut self, s: &str) -> Res<(String, usize)> {
        match quoted_any(s) {
            Ok((t, n, g)) => {
                if g {
                    self.grey = Some("escape");
                }
                Ok((t, n))
            }
            Err(e) => Err(E::Rej(e)),
        }
    }
    fn token(&mut self, t: &str) -> Res<J> {
        if t.starts_with('"') {
            let (v, n) = self.quoted(t)?;
            if n != t.len() {
                return Err(E::Rej("text after closing quote"));
            }
            return Ok(J::Str(v));
        }
        match t {
            "true" => return Ok(J::Bool(true)),
            "false" => return Ok(J::Bool(false)),
            "null" => return Ok(J::Null),
            "" => return Ok(J::Str(String::new())),
            _ => {}
        }
        if numeric_like(t) {
            return Ok(match number(t) {
                Some(n) => J::Num(n),
                None => {
                    // forbidden leading zeros, or out of range
                    if !leading_zero(t) {
                        self.grey = Some("number out of range");
                    }
                    J::Str(t.to_string())
                }
            });
        }
        if t.parse::<f64>().is_ok() || t.strip_prefix('+').map_or(false, |u| u.parse::<f64>().is_ok()) {
            self.open = Some("number in another notation");
        }
        if t.trim() != t
            || t.starts_with('-')
            || t.chars().any(|c| matches!(c, '"' | '\\' | '[' | ']' | '{' | '}' | '@') || c.is_control())
        {
            self.grey = Some("odd unquoted token");
        }
        Ok(J::Str(t.to_string()))
    }
    fn split(&mut self, s: &'a str, d: char) -> Res<Vec<&'a str>> {
        let mut out = Vec::new();
        let mut st = 0;
        let b = s.as_bytes();
        let mut i = 0;
        let mut at_start = true;
        while i < b.len() {
            if b[i] == b'"' {
                if !at_start {
                    return self.uns("quote inside a cell");
                }
                let (_, n) = self.quoted(&s[i..])?;
                i += n;
                at_start = false;
                continue;
            }
            if b[i] as char == d {
                out.push(&s[st..i]);
                st = i + 1;
                at_start = true;
            } else if b[i] != b' ' {
                at_start = false;
            }
            i += 1;
        }
        out.push(&s[st..]);
        let mut res = Vec::new();
        for c in out {
            let t = c.trim_matches(' ');
            if t.trim_matches([' ', '\t']) != t {
                self.grey = Some("tab around a cell");
            }
            res.push(t.trim_matches([' ', '\t']));
        }
        Ok(res)
    }
    /// Split `body` into key / header / rest.
    fn head(&mut self, body: &'a str) -> Res<HeadRes<'a>> {
        let mut i;
        let mut key = None;
        let b = body.as_bytes();
        if b[0] == b'"' {
            let (k, n) = self.quoted(body)?;
            if n == b.len() {
                return Ok(HeadRes::NoColon);
            }
            if b[n] != b':' && b[n] != b'[' {
                // a quoted token followed by other text: a row, or junk
                return if body[n..].contains(':') { self.uns("text after quoted key") } else { Ok(HeadRes::NoColon) };
            }
            key = Some(k);
            i = n;
        } else {
            i = 0;
            while i < b.len() && b[i] != b':' && b[i] != b'[' && b[i] != b'"' {
                i += 1;
            }
            if i == b.len() {
                return Ok(HeadRes::NoColon);
            }
            if b[i] == b'"' {
                return self.uns("quote inside unquoted text");
            }
            if i > 0 {
                let k = &body[..i];
                let okk = key_plain(k)
                    || (k.bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-')) && !k.starts_with('-'));
                if !okk {
                    if k.starts_with(['@', ' ', '\t']) || k.ends_with([' ', '\t']) {
                        return self.uns("odd unquoted key");
                    }
                    self.grey = Some("odd unquoted key");
                }
                key = Some(k.to_string());
            } else if b[i] == b':' {
                self.grey = Some("empty key");
                key = Some(String::new());
            }
        }
        let mut header = None;
        if b[i] == b'[' {
            let Some(e) = body[i..].find(']') else { return self.literal(body, "open bracket") };
            let mut inner = &body[i + 1..i + e];
            let mut delim = ',';
            if let Some(x) = inner.strip_suffix('|') {
                inner = x;
                delim = '|';
            } else if let Some(x) = inner.strip_suffix('\t') {
                inner = x;
                delim = '\t';
            }
            if inner.is_empty() || !inner.bytes().all(|c| c.is_ascii_digit()) || (inner.len() > 1 && inner.starts_with('0')) {
                if lengthish(inner) {
                    return self.uns("odd bracket segment");
                }
                return self.literal(body, "odd bracket segment");
            }
            // longer than anything there is
            let n: usize = inner.parse().unwrap_or(usize::MAX);
            i += e + 1;
            let mut fields = None;
            if i < b.len() && b[i] == b'{' {
                // find closing brace outside quotes
                let mut j = i + 1;
                let mut close = None;
                let mut at_start = true;
                while j < b.len() {
                    if b[j] == b'"' {
                        if !at_start {
                            return self.uns("quote inside field name");
                        }
                        let Ok((_, n)) = self.quoted(&body[j..]) else { return self.uns("open quote in field list") };
                        j += n;
                        at_start = false;
                        continue;
                    }
                    if b[j] == b'}' {
                        close = Some(j);
                        break;
                    }
                    at_start = b[j] as char == delim;
                    j += 1;
                }
                let Some(c) = close else { return self.uns("open brace") };
                let toks = self.split(&body[i + 1..c], delim)?;
                let mut names = Vec::new();
                for t in toks {
                    if t.starts_with('"') {
                        let (v, n) = self.quoted(t)?;
                        if n != t.len() {
                            return self.uns("field name");
                        }
                        names.push(v);
                    } else if key_plain(t) {
                        names.push(t.to_string());
                    } else if t.contains(['[', ']', '{', '}', '"', '\\', ':']) || t.is_empty() {
                        return self.uns("odd field name");
                    } else {
                        self.grey = Some("odd field name");
                        names.push(t.to_string());
                    }
                }
                for (x, a) in names.iter().enumerate() {
                    if names[..x].contains(a) {
                        self.grey = Some("duplicate field name");
                    }
                }
                fields = Some(names);
                i = c + 1;
            }
            if i >= b.len() || b[i] != b':' {
                return if body[i..].contains(':') && fields.is_none() { self.literal(body, "text after a bracket segment") } else { self.uns("header without colon") };
            }
            header = Some(Header { n, delim, fields });
        }
        // b[i] == ':'
        let rest = self.after_colon(&body[i + 1..]);
        Ok(HeadRes::Head(Head { key, header, rest }))
    }
    /// brackets that are no header: text like any other, up to the first colon
    fn literal(&mut self, body: &'a str, why: &'static str) -> Res<HeadRes<'a>> {
        if body.contains('"') {
            return self.uns("quote and bracket");
        }
        let Some(c) = body.find(':') else { return Ok(HeadRes::NoColon) };
        self.grey = Some(why);
        let key = body[..c].to_string();
        if key.ends_with([' ', '\t']) {
            return self.uns("odd unquoted key");
        }
        let rest = self.after_colon(&body[c + 1..]);
        Ok(HeadRes::Head(Head { key: Some(key), header: None, rest }))
    }
    fn after_colon(&mut self, after: &'a str) -> &'a str {
        let rest = if after.is_empty() {
            ""
        } else if let Some(r) = after.strip_prefix(' ') {
            if r.starts_with(' ') || r.starts_with('\t') {
                self.grey = Some("extra space after colon");
            }
            r.trim_start_matches([' ', '\t'])
        } else {
            self.grey = Some("no space after colon");
            after.trim_start_matches([' ', '\t'])
        };
        rest
    }
    fn peek(&self) -> Option<(usize, &'a str)> {
        self.lines.get(self.pos).map(|l| (l.depth, l.body))
    }
    /// value of a header whose block sits at depth `cd`
    fn array(&mut self, h: &Header, rest: &'a str, cd: usize) -> Res<J> {
        let cd = if rest.is_empty() { self.jump(cd) } else { cd };
        if let Some(fields) = &h.fields {
            if !rest.is_empty() {
                return Err(E::Rej("text after a tabular header"));
            }
            let mut rows = Vec::new();
            loop {
                let Some((d, body)) = self.peek() else { break };
                if d > cd {
                    return Err(E::Rej("content deeper than table rows"));
                }
                if d < cd {
                    break;
                }
                if body == "-" || body.starts_with("- ") {
                    break;
                }
                if unquoted_colon(body) {
                    // a row only if a delimiter comes before the colon
                    if !row_like(body, h.delim) {
                        break;
                    }
                    self.grey = Some("bare colon in a cell");
                }
                if body.starts_with('@') {
                    return self.uns("legacy");
                }
                if self.blank_before[self.pos] {
                    if rows.is_empty() {
                        self.grey = Some("blank before first row");
                    } else {
                        return Err(E::Rej("blank line inside table"));
                    }
                }
                self.pos += 1;
                let cells = self.split(body, h.delim)?;
                if cells.len() != fields.len() {
                    return Err(E::Rej("row width"));
                }
                let mut o = Vec::new();
                for (k, c) in fields.iter().zip(cells) {
                    o.push((k.clone(), self.token(c)?));
                }
                rows.push(J::Obj(o));
            }
            if rows.len() != h.n {
                return Err(E::Rej("row count"));
            }
            return Ok(J::Arr(rows));
        }
        if !rest.is_empty() {
            let toks = self.split(rest, h.delim)?;
            if toks.len() != h.n {
                return Err(E::Rej("inline count"));
            }
            let mut v = Vec::new();
            for t in toks {
                v.push(self.token(t)?);
            }
            return Ok(J::Arr(v));
        }
        let start = self.pos;
        let mut items = Vec::new();
        loop {
            let Some((d, body)) = self.peek() else { break };
            if d < cd {
                break;
            }
            if d > cd {
                return Err(E::Rej("content deeper than list items"));
            }
            if !(body == "-" || body.starts_with("- ")) {
                break;
            }
            items.push(self.item(cd)?);
        }
        for p in start..self.pos {
            if self.blank_before[p] {
                if p == start {
                    self.grey = Some("blank before first item");
                } else {
                    return Err(E::Rej("blank line inside array"));
                }
            }
        }
        if items.len() != h.n {
            return Err(E::Rej("item count"));
        }
        Ok(J::Arr(items))
    }
    fn item(&mut self, d: usize) -> Res<J> {
        let body = self.lines[self.pos].body;
        if body == "-" {
            self.pos += 1;
            if let Some((nd, _)) = self.peek() {
                if nd > d {
                    self.grey = Some("bare hyphen with children");
                    return self.block(nd);
                }
            }
            return Ok(J::Obj(vec![]));
        }
        let rest = &body[2..];
        if rest.is_empty() || rest.starts_with(' ') || rest.starts_with('\t') || rest.starts_with("- ") || rest == "-" {
            return self.uns("odd list item");
        }
        if rest.starts_with('@') {
            return self.uns("legacy");
        }
        match self.head(rest)? {
            HeadRes::NoColon => {
                self.pos += 1;
                self.token(rest)
            }
            HeadRes::Head(Head { key: None, header: Some(h), rest }) => {
                self.pos += 1;
                if h.fields.is_some() {
                    self.grey = Some("tabular header without key in a list item");
                }
                self.array(&h, rest, d + 1)
            }
            HeadRes::Head(Head { key: Some(k), header, rest }) => {
                self.pos += 1;
                let first = match header {
                    Some(h) => {
                        let mut cd = d + 2;
                        if rest.is_empty() && h.n > 0 {
                            if let Some((nd, nb)) = self.peek() {
                                if nd == d + 1 && (nb == "-" || nb.starts_with("- ") || (h.fields.is_some() && !unquoted_colon(nb))) {
                                    self.grey = Some("first-field array one level shallower");
                                    cd = d + 1;
                                }
                            }
                        }
                        self.array(&h, rest, cd)?
                    }
                    None => {
                        if !rest.is_empty() {
                            self.token(rest)?
                        } else {
                            self.nested(d + 2, true)?
                        }
                    }
                };
                let mut o = vec![(k, first)];
                self.members(&mut o, d + 1)?;
                Ok(J::Obj(o))
            }
            _ => self.uns("odd list item"),
        }
    }
    /// The value of `key:` whose members would sit at depth `cd`.
    fn nested(&mut self, cd: usize, in_item: bool) -> Res<J> {
        let _ = in_item;
        match self.peek() {
            Some((d, body)) if d >= cd => {
                if d > cd {
                    self.grey = Some("depth jump");
                }
                if body == "-" || body.starts_with("- ") {
                    self.grey = Some("list below a plain key");
                }
                self.block(d)
            }
            _ => Ok(J::Obj(vec![])),
        }
    }
    /// where a block that should sit at depth `cd` sits
    fn jump(&mut self, cd: usize) -> usize {
        match self.peek() {
            Some((d, _)) if d > cd => {
                self.grey = Some("depth jump");
                d
            }
            _ => cd,
        }
    }
    /// A value whose lines sit at depth `d`, without a header of its own.
    fn block(&mut self, d: usize) -> Res<J> {
        let (_, body) = self.peek().unwrap();
        if body == "-" || body.starts_with("- ") {
            return self.items(d);
        }
        if body.starts_with('[') {
            let HeadRes::Head(Head { key: None, header: Some(h), rest }) = self.head(body)? else { return self.uns("odd keyless block") };
            self.grey = Some("keyless header in a block");
            self.pos += 1;
            // items stand at the depth of the header, rows below it
            return if h.fields.is_some() { self.array(&h, rest, d + 1) } else { self.array(&h, rest, d) };
        }
        if body.starts_with('@') || body.starts_with("{0}") {
            return self.uns("keyless block below a plain key");
        }
        if matches!(self.head(body)?, HeadRes::NoColon) && self.lone(d) {
            self.grey = Some("lone scalar in a block");
            self.pos += 1;
            return self.token(body);
        }
        let mut o = Vec::new();
        self.members(&mut o, d)?;
        Ok(J::Obj(o))
    }
    /// the line at `pos` is the only one of its block
    fn lone(&self, d: usize) -> bool {
        self.lines.get(self.pos + 1).map_or(true, |l| l.depth < d)
    }
    /// a list without a header
    fn items(&mut self, d: usize) -> Res<J> {
        let mut items = Vec::new();
        let start = self.pos;
        while let Some((nd, body)) = self.peek() {
            if nd < d || nd == d && !(body == "-" || body.starts_with("- ")) {
                break;
            }
            if nd > d {
                return Err(E::Rej("content deeper than list items"));
            }
            items.push(self.item(d)?);
        }
        if (start + 1..self.pos).any(|p| self.blank_before[p]) {
            return Err(E::Rej("blank line inside array"));
        }
        Ok(J::Arr(items))
    }
    fn members(&mut self, o: &mut Vec<(String, J)>, d: usize) -> Res<()> {
        loop {
            let Some((ld, body)) = self.peek() else { return Ok(()) };
            if ld < d {
                return Ok(());
            }
            if ld > d {
                return Err(E::Rej("line belongs to nothing"));
            }
            if body == "-" || body.starts_with("- ") {
                return Err(E::Rej("list item in object"));
            }
            if body.starts_with('@') || body.starts_with("{0}") {
                return self.uns("legacy");
            }
            match self.head(body)? {
                HeadRes::NoColon => {
                    if headerish(body) {
                        return self.uns("header without colon");
                    }
                    return Err(E::Rej("missing colon"));
                }
                HeadRes::Head(Head { key: Some(k), header, rest }) => {
                    self.pos += 1;
                    let v = match header {
                        Some(h) => self.array(&h, rest, d + 1)?,
                        None if rest.is_empty() => self.nested(d + 1, false)?,
                        None => self.token(rest)?,
                    };
                    if o.iter().any(|(l, _)| *l == k) {
                        self.grey = Some("duplicate key");
                    }
                    o.push((k, v));
                }
                HeadRes::Head(Head { key: None, header: Some(h), rest }) => {
                    self.grey = Some("keyless header in object");
                    self.pos += 1;
                    let v = self.array(&h, rest, d + 1)?;
                    o.push((String::new(), v));
                }
                _ => return self.uns("neither key nor header"),
            }
        }
    }
    fn document(&mut self) -> Res<J> {
        let Some((d, body)) = self.peek() else { return Ok(J::Obj(vec![])) };
        if d > 0 {
            self.grey = Some("indented first line");
            let v = self.block(d)?;
            if self.pos < self.lines.len() {
                return Err(E::Rej("trailing content"));
            }
            return Ok(v);
        }
        if body == "-" || body.starts_with("- ") {
            self.grey = Some("list without header at the root");
            let v = self.items(0)?;
            if self.pos < self.lines.len() {
                return Err(E::Rej("trailing content"));
            }
            return Ok(v);
        }
        if body.starts_with('@') || body.starts_with("{0}") {
            return self.uns("legacy root");
        }
        let v = match self.head(body)? {
            HeadRes::NoColon => {
                if headerish(body) {
                    return self.uns("header without colon");
                }
                if self.lines.len() > 1 {
                    return Err(E::Rej("more than one root value"));
                }
                self.pos += 1;
                self.token(body)?
            }
            HeadRes::Head(Head { key: None, header: Some(h), rest }) => {
                self.pos += 1;
                self.array(&h, rest, 1)?
            }
            _ => {
                let mut o = Vec::new();
                self.members(&mut o, 0)?;
                J::Obj(o)
            }
        };
        if self.pos < self.lines.len() {
            return Err(E::Rej("trailing content"));
        }
        Ok(v)
    }
}

fn leading_zero(t: &str) -> bool {
    let t = t.strip_prefix('-').unwrap_or(t).as_bytes();
    t.len() > 1 && t[0] == b'0' && t[1].is_ascii_digit()
}

/// JSON-number token to number; None for leading zeros and out-of-range magnitudes.
pub fn number(t: &str) -> Option<N> {
    if leading_zero(t) {
        return None;
    }
    if !t.contains(['.', 'e', 'E']) {
        if let Ok(u) = t.parse::<u64>() {
            return Some(N::U(u));
        }
        if let Ok(i) = t.parse::<i64>() {
            return Some(N::I(i));
        }
    }
    let f: f64 = t.parse().ok()?;
    if f.is_finite() { Some(N::F(f)) } else { None }
}

/// a length, give or take characters a lenient reader may skip
fn lengthish(s: &str) -> bool {
    let t = s.trim_matches([' ', '\t', '|', '+']);
    !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit())
}
/// text that a header without its colon may be
fn headerish(s: &str) -> bool {
    let Some(i) = s.find('[') else { return false };
    s.contains('"') || s[i..].find(']').is_some_and(|e| lengthish(&s[i + 1..i + e]))
}

/// a delimiter comes before the first colon, both outside quotes
fn row_like(s: &str, d: char) -> bool {
    let mut q = false;
    let mut e = false;
    for c in s.chars() {
        if q {
            if e {
                e = false
            } else if c == '\\' {
                e = true
            } else if c == '"' {
                q = false
            }
        } else if c == '"' {
            q = true
        } else if c == ':' {
            return false;
        } else if c == d {
            return true;
        }
    }
    false
}

pub fn unquoted_colon(s: &str) -> bool {
    let mut q = false;
    let mut e = false;
    for c in s.bytes() {
        if q {
            if e {
                e = false
            } else if c == b'\\' {
                e = true
            } else if c == b'"' {
                q = false
            }
        } else if c == b'"' {
            q = true
        } else if c == b':' {
            return true;
        }
    }
    false
}

pub fn decode_strict(text: &str, indent: usize) -> R {
    let mut lines = Vec::new();
    let mut blank_before = Vec::new();
    let mut blank = false;
    let mut rej = None;
    let mut uns = None;
    let mut segs: Vec<&str> = text.split('\n').collect();
    if segs.last() == Some(&"") {
        segs.pop();
    }
    for l in segs {
        let body = l.trim_start_matches(' ');
        let lead = l.len() - body.len();
        if body.is_empty() {
            blank = true;
            continue;
        }
        if body.starts_with('\t') {
            if body.trim().is_empty() {
                uns = Some("white-space-only line with a tab");
            } else {
                rej = Some("tab in indentation");
            }
        }
        if lead % indent != 0 {
            rej = Some("indentation not a multiple");
        }
        if body.contains('\r') {
            uns = Some("carriage return");
        }
        if body.ends_with(' ') {
            uns = Some("trailing white space");
        }
        if body.trim_end_matches(' ').ends_with('\t') {
            uns = Some("trailing tab");
        }
        lines.push(Line { depth: lead / indent, body: body.trim_end_matches(' ') });
        blank_before.push(blank);
        blank = false;
    }
    if let Some(u) = uns {
        return R::Unspec(u);
    }
    if let Some(r) = rej {
        return R::Reject(r);
    }
    let mut p = P { lines, blank_before, pos: 0, grey: None, open: None };
    match p.document() {
        Err(E::Rej(r)) => R::Reject(r),
        Err(E::Uns(u)) => R::Unspec(u),
        Ok(v) => match p.grey {
            _ if p.open.is_some() => R::Unspec(p.open.unwrap()),
            Some(g) => R::Either(v, g),
            None => R::Ok(v),
        },
    }
}
