//! A small strict XML 1.0 parser, independent of the crate under test.
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&El> {
        self.els().find(|e| e.name == n)
    }
    pub fn kids_named<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.name == n)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn all<'a>(&'a self, n: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if e.name == n {
                v.push(e)
            }
        });
        v
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => s.push_str(&e.text()),
            }
        }
        s
    }
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    ns: bool,
}

fn is_name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn is_name(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' || c.is_alphanumeric() || c == '\u{b7}'
}
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 40).min(self.s.len());
        let near: String = self.s[a..b].iter().collect();
        Err(format!("{m} at {} near {near:?}", self.i))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn looking(&self, t: &str) -> bool {
        let mut j = self.i;
        for c in t.chars() {
            if self.s.get(j) != Some(&c) {
                return false;
            }
            j += 1;
        }
        true
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> Result<String, String> {
        let a = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += 1,
            _ => return self.err("name expected"),
        }
        while let Some(c) = self.peek() {
            if is_name(c) {
                self.i += 1;
            } else {
                break;
            }
        }
        let n: String = self.s[a..self.i].iter().collect();
        if self.ns && (n.matches(':').count() > 1 || n.starts_with(':') || n.ends_with(':')) {
            return self.err("bad qualified name");
        }
        Ok(n)
    }
    fn reference(&mut self) -> Result<char, String> {
        // at '&'
        let a = self.i + 1;
        let mut j = a;
        while j < self.s.len() && self.s[j] != ';' && j - a < 12 {
            j += 1;
        }
        if j >= self.s.len() || self.s[j] != ';' {
            return self.err("bare ampersand");
        }
        let n: String = self.s[a..j].iter().collect();
        let c = match n.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse::<u32>().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("unknown entity"),
                }
            }
        };
        self.i = j + 1;
        Ok(c)
    }
    fn attrs(&mut self) -> Result<Vec<(String, String)>, String> {
        let mut v: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            match self.peek() {
                Some('>') | Some('/') | Some('?') => return Ok(v),
                None => return self.err("eof in tag"),
                _ => {}
            }
            if !sp {
                return self.err("space expected before attribute");
            }
            let n = self.name()?;
            self.ws();
            if self.peek() != Some('=') {
                return self.err("= expected");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut val = String::new();
            loop {
                match self.peek() {
                    None => return self.err("eof in attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in attribute value"),
                    Some('&') => val.push(self.reference()?),
                    Some('\n' | '\t' | '\r') => {
                        val.push(' ');
                        self.i += 1;
                    }
                    Some(c) => {
                        if !is_xml_char(c) {
                            return self.err("illegal character");
                        }
                        val.push(c);
                        self.i += 1;
                    }
                }
            }
            if v.iter().any(|(k, _)| *k == n) {
                return self.err(&format!("duplicate attribute {n}"));
            }
            v.push((n, val));
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.looking("<!--") {
                self.comment()?;
            } else if self.looking("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> Result<(), String> {
        self.i += 4;
        while self.i < self.s.len() && !self.looking("--") {
            self.i += 1;
        }
        if !self.looking("-->") {
            return self.err("bad comment");
        }
        self.i += 3;
        Ok(())
    }
    fn pi(&mut self) -> Result<(), String> {
        while self.i < self.s.len() && !self.looking("?>") {
            self.i += 1;
        }
        if !self.looking("?>") {
            return self.err("bad PI");
        }
        self.i += 2;
        Ok(())
    }
    fn check_ns(&self, scope: &[HashMap<String, String>], n: &str) -> Result<(), String> {
        if let Some((p, _)) = n.split_once(':') {
            if p == "xml" || p == "xmlns" {
                return Ok(());
            }
            if !scope.iter().rev().any(|m| m.contains_key(p)) {
                return self.err(&format!("undeclared namespace prefix {p}"));
            }
        }
        Ok(())
    }
    fn element(&mut self, scope: &mut Vec<HashMap<String, String>>) -> Result<El, String> {
        // iterative to survive deep nesting
        let mut stack: Vec<El> = vec![];
        loop {
            if stack.is_empty() || self.peek() == Some('<') && !self.looking("</") && !self.looking("<!") && !self.looking("<?") {
                if self.peek() != Some('<') {
                    return self.err("element expected");
                }
                self.i += 1;
                let name = self.name()?;
                let attrs = self.attrs()?;
                let mut m = HashMap::new();
                for (k, v) in &attrs {
                    if let Some(p) = k.strip_prefix("xmlns:") {
                        m.insert(p.to_string(), v.clone());
                    }
                }
                scope.push(m);
                if self.ns {
                    self.check_ns(scope, &name)?;
                    for (k, _) in &attrs {
                        self.check_ns(scope, k)?;
                    }
                }
                let el = El { name, attrs, kids: vec![] };
                if self.looking("/>") {
                    self.i += 2;
                    scope.pop();
                    match stack.last_mut() {
                        None => return Ok(el),
                        Some(p) => p.kids.push(Node::El(el)),
                    }
                } else if self.peek() == Some('>') {
                    self.i += 1;
                    stack.push(el);
                } else {
                    return self.err("> expected");
                }
                continue;
            }
            if self.looking("</") {
                self.i += 2;
                let n = self.name()?;
                self.ws();
                if self.peek() != Some('>') {
                    return self.err("> expected");
                }
                self.i += 1;
                let el = stack.pop().unwrap();
                scope.pop();
                if el.name != n {
                    return self.err(&format!("</{n}> closes <{}>", el.name));
                }
                match stack.last_mut() {
                    None => return Ok(el),
                    Some(p) => p.kids.push(Node::El(el)),
                }
                continue;
            }
            if self.looking("<!--") {
                self.comment()?;
                continue;
            }
            if self.looking("<![CDATA[") {
                self.i += 9;
                let a = self.i;
                while self.i < self.s.len() && !self.looking("]]>") {
                    self.i += 1;
                }
                if !self.looking("]]>") {
                    return self.err("bad CDATA");
                }
                let t: String = self.s[a..self.i].iter().collect();
                self.i += 3;
                push_text(stack.last_mut().unwrap(), &t);
                continue;
            }
            if self.looking("<?") {
                self.pi()?;
                continue;
            }
            match self.peek() {
                None => return self.err(&format!("eof inside <{}>", stack.last().unwrap().name)),
                Some('<') => return self.err("bad markup"),
                Some('&') => {
                    let c = self.reference()?;
                    push_text(stack.last_mut().unwrap(), &c.to_string());
                }
                Some(_) => {
                    let a = self.i;
                    while let Some(c) = self.peek() {
                        if c == '<' || c == '&' {
                            break;
                        }
                        if !is_xml_char(c) {
                            return self.err("illegal character");
                        }
                        if self.looking("]]>") {
                            return self.err("]]> in text");
                        }
                        self.i += 1;
                    }
                    let t: String = self.s[a..self.i].iter().collect();
                    push_text(stack.last_mut().unwrap(), &t);
                }
            }
        }
    }
}

fn push_text(e: &mut El, t: &str) {
    if let Some(Node::Text(x)) = e.kids.last_mut() {
        x.push_str(t);
    } else {
        e.kids.push(Node::Text(t.to_string()));
    }
}

pub fn parse_opt(text: &str, ns: bool) -> Result<El, String> {
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, i: 0, ns };
    if p.peek() == Some('\u{feff}') {
        p.i += 1;
    }
    if p.looking("<?xml") {
        p.pi()?;
    }
    p.misc()?;
    let mut scope = vec![];
    let e = p.element(&mut scope)?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("content after the root element");
    }
    Ok(e)
}

pub fn parse(text: &str) -> Result<El, String> {
    parse_opt(text, true)
}

pub fn parse_bytes(b: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    parse(s)
}
