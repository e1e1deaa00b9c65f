//! A tiny XML tree with its own writer and its own (strict, non-validating) reader, independent of the
//! XML libraries the subject uses. Only the constructs needed to write test documents and to re-read
//! what the subject writes.

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct X {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<N>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    E(X),
    T(String),
    /// raw markup written verbatim (comments, PIs, CDATA, references)
    Raw(String),
}

impl X {
    pub fn new(name: &str) -> X {
        X { name: name.to_string(), attrs: vec![], kids: vec![] }
    }
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn set_attr(&mut self, n: &str, v: &str) {
        if let Some(a) = self.attrs.iter_mut().find(|(k, _)| k == n) {
            a.1 = v.to_string()
        } else {
            self.attrs.push((n.to_string(), v.to_string()))
        }
    }
    pub fn del_attr(&mut self, n: &str) {
        self.attrs.retain(|(k, _)| k != n)
    }
    pub fn at<'a>(&'a self, path: &[usize]) -> &'a X {
        let mut x = self;
        for &i in path {
            match &x.kids[i] {
                N::E(e) => x = e,
                _ => panic!("path to non-element"),
            }
        }
        x
    }
    pub fn at_mut<'a>(&'a mut self, path: &[usize]) -> &'a mut X {
        let mut x = self;
        for &i in path {
            match &mut x.kids[i] {
                N::E(e) => x = e,
                _ => panic!("path to non-element"),
            }
        }
        x
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let N::E(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    pub fn all_paths(&self) -> Vec<Vec<usize>> {
        fn go(x: &X, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            for (i, k) in x.kids.iter().enumerate() {
                if let N::E(e) = k {
                    cur.push(i);
                    go(e, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn write(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push(' ');
            if let Some(k) = k.strip_prefix('!') {
                // respelled attribute: value written as given, other quotes, spaces around '='
                s.push_str(&format!(" {k} = '{v}'"));
                continue;
            }
            s.push_str(k);
            s.push_str("=\"");
            esc(v, true, s);
            s.push('"');
        }
        if self.kids.is_empty() {
            s.push_str("/>");
            return;
        }
        s.push('>');
        for k in &self.kids {
            match k {
                N::E(e) => e.write(s),
                N::T(t) => esc(t, false, s),
                N::Raw(t) => s.push_str(t),
            }
        }
        s.push_str("</");
        s.push_str(&self.name);
        s.push('>');
    }
    pub fn to_xml(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

fn esc(t: &str, attr: bool, s: &mut String) {
    for c in t.chars() {
        match c {
            '&' => s.push_str("&amp;"),
            '<' => s.push_str("&lt;"),
            '>' => s.push_str("&gt;"),
            '"' if attr => s.push_str("&quot;"),
            '\n' if attr => s.push_str("&#10;"),
            '\t' if attr => s.push_str("&#9;"),
            '\r' => s.push_str("&#13;"),
            c => s.push(c),
        }
    }
}

/// Reads a document: prolog, comments and PIs skipped, CDATA and references resolved, adjacent text
/// merged, whitespace-only text dropped unless it comes from a CDATA section.
pub fn read(s: &str) -> Result<X, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    loop {
        p.ws();
        if p.lit("<?") {
            p.until("?>")?;
        } else if p.lit("<!--") {
            p.until("-->")?;
        } else if p.lit("<!DOCTYPE") {
            // without an internal subset
            p.until(">")?;
        } else {
            break;
        }
    }
    let x = p.element()?;
    loop {
        p.ws();
        if p.lit("<!--") {
            p.until("-->")?;
        } else if p.lit("<?") {
            p.until("?>")?;
        } else {
            break;
        }
    }
    if p.i != p.s.len() {
        return Err(format!("trailing content at byte {}", p.i));
    }
    Ok(x)
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1
        }
    }
    fn lit(&mut self, l: &str) -> bool {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            true
        } else {
            false
        }
    }
    fn until(&mut self, l: &str) -> Result<String, String> {
        let b = self.i;
        while self.i < self.s.len() {
            if self.s[self.i..].starts_with(l.as_bytes()) {
                let r = std::str::from_utf8(&self.s[b..self.i]).map_err(|_| "utf8")?.to_string();
                self.i += l.len();
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("missing {l}"))
    }
    fn name(&mut self) -> Result<String, String> {
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'-' | b':' | b'.')) {
            self.i += 1
        }
        if b == self.i {
            return Err(format!("name expected at byte {b}"));
        }
        Ok(String::from_utf8_lossy(&self.s[b..self.i]).to_string())
    }
    fn unescape(t: &str) -> Result<String, String> {
        if !t.contains('&') {
            return Ok(t.to_string());
        }
        let mut o = String::new();
        let mut it = t.split('&');
        o.push_str(it.next().unwrap());
        for part in it {
            let j = part.find(';').ok_or("bad reference")?;
            let r = &part[..j];
            o.push(match r {
                "amp" => '&',
                "lt" => '<',
                "gt" => '>',
                "quot" => '"',
                "apos" => '\'',
                _ if r.starts_with("#x") => u32::from_str_radix(&r[2..], 16).ok().and_then(char::from_u32).ok_or("bad charref")?,
                _ if r.starts_with('#') => r[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or("bad charref")?,
                _ => return Err(format!("unknown reference {r}")),
            });
            o.push_str(&part[j + 1..]);
        }
        Ok(o)
    }
    fn element(&mut self) -> Result<X, String> {
        if !self.lit("<") {
            return Err(format!("element expected at byte {}", self.i));
        }
        let mut x = X::new(&self.name()?);
        loop {
            let before = self.i;
            self.ws();
            if self.lit("/>") {
                return Ok(x);
            }
            if self.lit(">") {
                break;
            }
            if before == self.i {
                return Err(format!("space expected at byte {}", self.i));
            }
            let k = self.name()?;
            self.ws();
            if !self.lit("=") {
                return Err("= expected".into());
            }
            self.ws();
            let q = if self.lit("\"") {
                "\""
            } else if self.lit("'") {
                "'"
            } else {
                return Err("quote expected".into());
            };
            let v = self.until(q)?;
            if v.contains('<') {
                return Err("< in attribute".into());
            }
            if x.attr(&k).is_some() {
                return Err(format!("duplicate attribute {k}"));
            }
            // a literal tab is kept, as the XML library in use writes and reads it (a fully conforming
            // reader would turn it into a space)
            x.attrs.push((k, Self::unescape(&v.replace('\n', " "))?));
        }
        let mut text = String::new();
        // blank text is kept where a CDATA section says so
        let mut cdata = false;
        fn flush(text: &mut String, cdata: &mut bool, x: &mut X) {
            if std::mem::take(cdata) && !text.is_empty() || !text.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r')) {
                x.kids.push(N::T(std::mem::take(text)));
            } else {
                text.clear()
            }
        }
        loop {
            if self.i >= self.s.len() {
                return Err("unexpected end".into());
            }
            if self.lit("<!--") {
                self.until("-->")?;
            } else if self.lit("<![CDATA[") {
                let t = self.until("]]>")?;
                text.push_str(&t);
                cdata = true;
            } else if self.lit("<?") {
                self.until("?>")?;
            } else if self.s[self.i..].starts_with(b"</") {
                self.i += 2;
                flush(&mut text, &mut cdata, &mut x);
                let n = self.name()?;
                self.ws();
                if n != x.name || !self.lit(">") {
                    return Err(format!("bad end tag {n} for {}", x.name));
                }
                return Ok(x);
            } else if self.s[self.i] == b'<' {
                flush(&mut text, &mut cdata, &mut x);
                let e = self.element()?;
                x.kids.push(N::E(e));
            } else {
                let b = self.i;
                while self.i < self.s.len() && self.s[self.i] != b'<' {
                    self.i += 1
                }
                let t = std::str::from_utf8(&self.s[b..self.i]).map_err(|_| "utf8")?;
                if t.contains("]]>") {
                    return Err("]]> in text".into());
                }
                text.push_str(&Self::unescape(t)?);
            }
        }
    }
}
