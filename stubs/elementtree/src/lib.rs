//! Stand-in for `elementtree`: a small XML reader with the lookups Reveaal uses.
use std::{fmt, io::Read};

#[derive(Debug)]
pub enum Error {
    Malformed(String),
    Io(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Malformed(m) => write!(f, "malformed XML: {m}"),
            Error::Io(e) => write!(f, "{e}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Element {
    tag: String,
    attrs: Vec<(String, String)>,
    text: String,
    tail: String,
    children: Vec<Element>,
}

pub struct FindChildren<'a> {
    tag: String,
    it: std::slice::Iter<'a, Element>,
}
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let tag = &self.tag;
        self.it.find(|e| e.tag == *tag)
    }
}

pub type Children<'a> = std::slice::Iter<'a, Element>;

impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new();
        r.read_to_string(&mut s)?;
        P { s: &s, p: 0 }.document()
    }
    pub fn tag(&self) -> &str {
        &self.tag
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn tail(&self) -> &str {
        &self.tail
    }
    pub fn get_attr<'a>(&'a self, name: &str) -> Option<&'a str> {
        self.attrs.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn children(&self) -> Children<'_> {
        self.children.iter()
    }
    pub fn find_all(&self, tag: &str) -> FindChildren<'_> {
        FindChildren {
            tag: tag.to_string(),
            it: self.children.iter(),
        }
    }
    pub fn find(&self, tag: &str) -> Option<&Element> {
        self.children.iter().find(|e| e.tag == tag)
    }
    pub fn child_count(&self) -> usize {
        self.children.len()
    }
}

struct P<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, Error> {
        Err(Error::Malformed(format!("{m} at byte {}", self.p)))
    }
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.p += r.len() - r.trim_start().len();
    }
    fn until(&mut self, end: &str) -> Result<&'a str, Error> {
        match self.rest().find(end) {
            Some(k) => {
                let t = &self.rest()[..k];
                self.p += k + end.len();
                Ok(t)
            }
            None => self.err("unexpected end"),
        }
    }
    /// comments, processing instructions and the doctype
    fn misc(&mut self) -> Result<bool, Error> {
        if self.rest().starts_with("<!--") {
            self.until("-->")?;
        } else if self.rest().starts_with("<?") {
            self.until("?>")?;
        } else if self.rest().starts_with("<!DOCTYPE") {
            let mut depth = 0;
            for (k, c) in self.rest().char_indices() {
                match c {
                    '<' | '[' => depth += 1,
                    ']' => depth -= 1,
                    '>' => {
                        depth -= 1;
                        if depth == 0 {
                            self.p += k + 1;
                            return Ok(true);
                        }
                    }
                    _ => {}
                }
            }
            return self.err("unterminated doctype");
        } else {
            return Ok(false);
        }
        Ok(true)
    }
    fn document(&mut self) -> Result<Element, Error> {
        if self.rest().starts_with('\u{feff}') {
            self.p += 3;
        }
        self.ws();
        while self.misc()? {
            self.ws();
        }
        if !self.rest().starts_with('<') {
            return self.err("no root element");
        }
        let e = self.element()?;
        self.ws();
        while self.misc()? {
            self.ws();
        }
        if !self.rest().is_empty() {
            return self.err("content after the root element");
        }
        Ok(e)
    }
    fn name(&mut self) -> Result<String, Error> {
        let r = self.rest();
        let n = r
            .find(|c: char| !(c.is_alphanumeric() || "_-.:".contains(c)))
            .unwrap_or(r.len());
        if n == 0 {
            return self.err("expected a name");
        }
        self.p += n;
        Ok(r[..n].to_string())
    }
    fn unescape(&self, t: &str) -> Result<String, Error> {
        let mut out = String::new();
        let mut r = t;
        while let Some(k) = r.find('&') {
            out.push_str(&r[..k]);
            let e = match r[k..].find(';') {
                Some(e) => e,
                None => return self.err("bad entity"),
            };
            let name = &r[k + 1..k + e];
            let c = match name {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let code = if let Some(h) = name.strip_prefix("#x") {
                        u32::from_str_radix(h, 16).ok()
                    } else {
                        name.strip_prefix('#').and_then(|d| d.parse().ok())
                    };
                    match code.and_then(char::from_u32) {
                        Some(c) => c,
                        None => return self.err("bad entity"),
                    }
                }
            };
            out.push(c);
            r = &r[k + e + 1..];
        }
        out.push_str(r);
        Ok(out)
    }
    fn element(&mut self) -> Result<Element, Error> {
        self.p += 1; // <
        let mut e = Element {
            tag: self.name()?,
            ..Default::default()
        };
        loop {
            self.ws();
            if self.rest().starts_with("/>") {
                self.p += 2;
                return Ok(e);
            }
            if self.rest().starts_with('>') {
                self.p += 1;
                break;
            }
            let n = self.name()?;
            self.ws();
            if !self.rest().starts_with('=') {
                return self.err("expected '='");
            }
            self.p += 1;
            self.ws();
            let q = match self.rest().chars().next() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected a quote"),
            };
            self.p += 1;
            let v = self.until(&q.to_string())?;
            let v = self.unescape(v)?;
            e.attrs.push((n, v));
        }
        loop {
            let r = self.rest();
            let k = match r.find('<') {
                Some(k) => k,
                None => return self.err("unexpected end"),
            };
            let mut text = self.unescape(&r[..k])?;
            self.p += k;
            if self.rest().starts_with("<![CDATA[") {
                self.p += 9;
                text.push_str(self.until("]]>")?);
            }
            match e.children.last_mut() {
                Some(c) => c.tail.push_str(&text),
                None => e.text.push_str(&text),
            }
            if self.rest().starts_with("</") {
                self.p += 2;
                let n = self.name()?;
                if n != e.tag {
                    return self.err("mismatched closing tag");
                }
                self.ws();
                if !self.rest().starts_with('>') {
                    return self.err("expected '>'");
                }
                self.p += 1;
                return Ok(e);
            }
            if self.misc()? || !self.rest().starts_with('<') {
                continue;
            }
            let c = self.element()?;
            e.children.push(c);
        }
    }
}
