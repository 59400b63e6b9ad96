//! A small, strict, namespace-aware XML reader (independent of the one in the code under test) and a
//! writer with lexical variants.
pub const NSFOLIA: &str = "http://ilk.uvt.nl/folia";
pub const NSXLINK: &str = "http://www.w3.org/1999/xlink";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum XI { E(X), T(String), C(String) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct X {
    pub folia: bool, //in the FoLiA namespace?
    pub tag: String, //local name
    pub attrs: Vec<(String, String)>,
    pub items: Vec<XI>,
}

impl X {
    pub fn new(tag: &str) -> X { X { folia: true, tag: tag.to_string(), attrs: vec![], items: vec![] } }
    pub fn a(mut self, k: &str, v: &str) -> X { self.attrs.push((k.to_string(), v.to_string())); self }
    pub fn oa(self, k: &str, v: Option<&str>) -> X { match v { Some(v) => self.a(k, v), None => self } }
    pub fn e(mut self, x: X) -> X { self.items.push(XI::E(x)); self }
    pub fn es(mut self, xs: Vec<X>) -> X { for x in xs { self.items.push(XI::E(x)); } self }
    pub fn t(mut self, s: &str) -> X { push_text(&mut self, s); self }
    pub fn c(mut self, s: &str) -> X { self.items.push(XI::C(s.to_string())); self }
    pub fn attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn elems(&self) -> impl Iterator<Item = &X> { self.items.iter().filter_map(|i| if let XI::E(x) = i { Some(x) } else { None }) }
    pub fn child(&self, tag: &str) -> Option<&X> { self.elems().find(|x| x.tag == tag) }
    pub fn text(&self) -> String { self.items.iter().filter_map(|i| if let XI::T(t) = i { Some(t.as_str()) } else { None }).collect() }
}

// ---------------------------------------------------------------- reader

struct P<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;

fn namestart(c: char) -> bool { c.is_alphabetic() || c == '_' || c == ':' }
fn namechar(c: char) -> bool { namestart(c) || c.is_numeric() || c == '-' || c == '.' || c == '\u{b7}' }
fn xmlchar(c: char) -> bool { matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}') }

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> { Err(format!("XML not well-formed at byte {}: {}", self.i, m)) }
    fn starts(&self, p: &str) -> bool { self.s[self.i..].starts_with(p.as_bytes()) }
    fn until(&mut self, p: &str) -> R<String> {
        let n = p.len();
        let mut j = self.i;
        while j + n <= self.s.len() { if &self.s[j..j + n] == p.as_bytes() { let t = String::from_utf8_lossy(&self.s[self.i..j]).to_string(); self.i = j + n; return Ok(t); } j += 1; }
        self.err(&format!("expected {}", p))
    }
    fn ws(&mut self) -> bool { let a = self.i; while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } self.i > a }
    fn name(&mut self) -> R<String> {
        let end = self.s[self.i..].iter().position(|b| b.is_ascii() && !namechar(*b as char)).map_or(self.s.len(), |j| self.i + j);
        let st = std::str::from_utf8(&self.s[self.i..end]).map_err(|_| "utf8".to_string())?;
        let mut n = 0;
        for (k, c) in st.char_indices() { if (k == 0 && !namestart(c)) || !namechar(c) { break; } n = k + c.len_utf8(); }
        if n == 0 { return self.err("expected a name"); }
        let r = st[..n].to_string();
        self.i += n;
        Ok(r)
    }
    fn unescape(&self, raw: &str, attr: bool) -> R<String> {
        let mut o = String::with_capacity(raw.len());
        let mut k = 0;
        while let Some(c) = raw[k..].chars().next() {
            if !xmlchar(c) { return self.err("illegal character"); }
            if c == '<' { return self.err("raw < in value"); }
            if c == '&' {
                let rest = &raw[k + 1..];
                let e = match rest.find(';') { Some(e) => e, None => return self.err("unterminated entity") };
                let ent = &rest[..e];
                o.push(match ent {
                    "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
                    _ => {
                        let code = if let Some(h) = ent.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = ent.strip_prefix('#') { d.parse().ok() } else { None };
                        match code.and_then(char::from_u32) { Some(c) if xmlchar(c) => c, _ => return self.err(&format!("bad entity {}", ent)) }
                    }
                });
                k += e + 2;
                continue;
            }
            o.push(if attr && matches!(c, '\t' | '\n' | '\r') { ' ' } else { c }); //attribute value normalisation
            k += c.len_utf8();
        }
        Ok(o)
    }
}

fn resolve(q: &str, scope: &[(String, String)]) -> Option<(String, String)> {
    let (p, l) = match q.split_once(':') { Some((p, l)) => (p, l), None => ("", q) };
    if l.is_empty() || l.contains(':') { return None; }
    let ns = scope.iter().rev().find(|b| b.0 == p).map(|b| b.1.clone());
    match ns { Some(n) => Some((n, l.to_string())), None if p.is_empty() => Some((String::new(), l.to_string())), None => None }
}

/// Reads a document (exactly one root element).
pub fn read(s: &str) -> R<X> {
    let s = s.replace("\r\n", "\n").replace('\r', "\n"); //line ends
    let mut p = P { s: s.as_bytes(), i: 0 };
    if p.starts("<?xml") { let d = p.until("?>")?; if !d.contains("version") { return p.err("bad declaration"); } }
    let mut stack: Vec<(X, String, usize)> = vec![]; //element, qualified name, size of the scope before it
    let mut scope: Vec<(String, String)> = vec![("xml".into(), "http://www.w3.org/XML/1998/namespace".into())];
    let mut root: Option<X> = None;
    while p.i < p.s.len() {
        if p.starts("<!--") {
            p.i += 4;
            let c = p.until("--")?;
            if !p.starts(">") { return p.err("-- in comment"); }
            p.i += 1;
            if c.chars().any(|c| !xmlchar(c)) { return p.err("illegal character in comment"); }
            if let Some(t) = stack.last_mut() { t.0.items.push(XI::C(c)); }
        } else if p.starts("<![CDATA[") {
            p.i += 9;
            let c = p.until("]]>")?;
            match stack.last_mut() { Some(t) => push_text(&mut t.0, &c), None => return p.err("CDATA outside root") }
        } else if p.starts("<?") {
            p.i += 2;
            p.until("?>")?;
        } else if p.starts("<!DOCTYPE") && stack.is_empty() && root.is_none() {
            p.until(">")?;
        } else if p.starts("</") {
            p.i += 2;
            let n = p.name()?;
            p.ws();
            if !p.starts(">") { return p.err("malformed end tag"); }
            p.i += 1;
            let (x, q, sc) = match stack.pop() { Some(t) => t, None => return p.err("unexpected end tag") };
            if q != n { return p.err(&format!("end tag {} for {}", n, q)); }
            scope.truncate(sc);
            close(&mut stack, &mut root, x);
        } else if p.starts("<") {
            p.i += 1;
            let q = p.name()?;
            let sc = scope.len();
            let mut raw: Vec<(String, String)> = vec![];
            let empty;
            loop {
                let w = p.ws();
                if p.starts("/>") { p.i += 2; empty = true; break; }
                if p.starts(">") { p.i += 1; empty = false; break; }
                if !w { return p.err("expected whitespace before attribute"); }
                let an = p.name()?;
                p.ws();
                if !p.starts("=") { return p.err("expected ="); }
                p.i += 1;
                p.ws();
                let quote = if p.starts("\"") { "\"" } else if p.starts("'") { "'" } else { return p.err("expected a quote") };
                p.i += 1;
                let v = p.until(quote)?;
                let v = p.unescape(&v, true)?;
                if raw.iter().any(|r| r.0 == an) { return p.err(&format!("duplicate attribute {}", an)); }
                raw.push((an, v));
            }
            for (an, v) in raw.iter() {
                if an == "xmlns" { scope.push((String::new(), v.clone())); }
                else if let Some(pf) = an.strip_prefix("xmlns:") { if v.is_empty() { return p.err("empty namespace"); } scope.push((pf.to_string(), v.clone())); }
            }
            let (ns, local) = match resolve(&q, &scope) { Some(r) => r, None => return p.err(&format!("undeclared prefix in {}", q)) };
            let mut x = X { folia: ns == NSFOLIA, tag: local, attrs: vec![], items: vec![] };
            for (an, v) in raw {
                if an == "xmlns" || an.starts_with("xmlns:") { continue; }
                if an.contains(':') {
                    let (ns, l) = match resolve(&an, &scope) { Some(r) => r, None => return p.err(&format!("undeclared prefix in {}", an)) };
                    let c = match ns.as_str() { "http://www.w3.org/XML/1998/namespace" => format!("xml:{}", l), NSXLINK => format!("xlink:{}", l), _ => format!("{{{}}}{}", ns, l) };
                    if x.attrs.iter().any(|a| a.0 == c) { return p.err("duplicate attribute"); }
                    x.attrs.push((c, v));
                } else { x.attrs.push((an, v)); }
            }
            if root.is_some() && stack.is_empty() { return p.err("second root element"); }
            if empty { scope.truncate(sc); close(&mut stack, &mut root, x); } else { stack.push((x, q, sc)); }
        } else {
            let a = p.i;
            while p.i < p.s.len() && p.s[p.i] != b'<' { p.i += 1; }
            let raw = std::str::from_utf8(&p.s[a..p.i]).map_err(|_| "utf8".to_string())?;
            if raw.contains("]]>") { return p.err("]]> in text"); }
            let t = p.unescape(raw, false)?;
            match stack.last_mut() {
                Some(x) => push_text(&mut x.0, &t),
                None => if !t.trim().is_empty() { return p.err("text outside root"); }
            }
        }
    }
    if !stack.is_empty() { return p.err("premature end"); }
    root.ok_or_else(|| "XML not well-formed: no root".to_string())
}
fn push_text(x: &mut X, t: &str) {
    if t.is_empty() { return; }
    if let Some(XI::T(l)) = x.items.last_mut() { l.push_str(t); } else { x.items.push(XI::T(t.to_string())); }
}
fn close(stack: &mut Vec<(X, String, usize)>, root: &mut Option<X>, x: X) {
    match stack.last_mut() { Some(t) => t.0.items.push(XI::E(x)), None => *root = Some(x) }
}

// ---------------------------------------------------------------- writer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Esc { Named, Decimal, Hex, Cdata }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Empty { Short, Pair, ShortSpace }
#[derive(Clone, Copy, Debug)]
pub struct Style { pub single: bool, pub empty: Empty, pub prefix: bool, pub esc: Esc, pub revattrs: bool, pub spread: bool, pub prolog: bool, pub pretty: bool, pub alien: bool, pub nested: bool, pub explicit: bool, pub crlf: bool }
pub const PLAIN: Style = Style { single: false, empty: Empty::Short, prefix: false, esc: Esc::Named, revattrs: false, spread: false, prolog: false, pretty: false, alien: false, nested: false, explicit: false, crlf: false };
pub const STYLES: &[Style] = &[
    PLAIN,
    Style { single: true, ..PLAIN },
    Style { empty: Empty::Pair, prolog: true, ..PLAIN },
    Style { empty: Empty::ShortSpace, spread: true, ..PLAIN },
    Style { prefix: true, ..PLAIN },
    Style { esc: Esc::Decimal, ..PLAIN },
    Style { esc: Esc::Hex, revattrs: true, ..PLAIN },
    Style { esc: Esc::Cdata, ..PLAIN },
    Style { pretty: true, prolog: true, ..PLAIN },
    Style { alien: true, ..PLAIN },
    Style { single: true, empty: Empty::Pair, prefix: true, esc: Esc::Hex, revattrs: true, spread: true, prolog: true, pretty: true, alien: true, nested: false, explicit: true, crlf: true },
    Style { nested: true, ..PLAIN },
    Style { explicit: true, ..PLAIN },
    Style { crlf: true, pretty: true, spread: true, esc: Esc::Cdata, ..PLAIN },
];

fn esc(o: &mut String, s: &str, st: &Style, attr: bool) {
    let num = |o: &mut String, c: char| if st.esc == Esc::Hex { *o += &format!("&#x{:x};", c as u32) } else { *o += &format!("&#{};", c as u32) };
    for c in s.chars() {
        match c {
            '<' | '&' | '>' | '"' | '\'' => {
                if st.esc == Esc::Decimal || st.esc == Esc::Hex { num(o, c) }
                else if c == '<' { *o += "&lt;" } else if c == '&' { *o += "&amp;" } else if c == '>' { *o += "&gt;" }
                else if attr && ((c == '"') != st.single) { *o += if c == '"' { "&quot;" } else { "&apos;" } }
                else { o.push(c) }
            }
            '\n' | '\t' | '\r' if attr => num(o, c),
            '\r' => num(o, c),
            c if (st.esc == Esc::Decimal || st.esc == Esc::Hex) && !c.is_ascii() => num(o, c),
            c => o.push(c),
        }
    }
}

pub fn write(x: &X, st: &Style) -> String {
    let mut o = String::new();
    if st.prolog { o += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<?xml-stylesheet type=\"text/xsl\" href=\"folia.xsl\"?>\n"; }
    w(&mut o, x, st, true, false);
    if st.pretty { o.push('\n'); }
    if st.crlf { o = o.replace('\n', "\r\n"); }
    o
}
fn w(o: &mut String, x: &X, st: &Style, root: bool, textual: bool) {
    //(nested: the header uses a prefix, every element of the body declares the namespace again)
    let header = matches!(x.tag.as_str(), "FoLiA" | "metadata" | "annotations" | "provenance" | "processor" | "annotator" | "meta" | "submetadata") || x.tag.ends_with("-annotation");
    let p = if (st.prefix || (st.nested && header)) && x.folia { "f:" } else { "" };
    let q = if st.single { '\'' } else { '"' };
    o.push('<'); o.push_str(p); o.push_str(&x.tag);
    let mut attrs: Vec<(String, String)> = x.attrs.clone();
    if st.revattrs {
        attrs.reverse();
        //features in the shorthand come in the order of their attributes, so these keep theirs
        let at: Vec<usize> = (0..attrs.len()).filter(|i| !crate::sem::ATTRS.contains(&attrs[*i].0.as_str()) && !attrs[*i].0.contains(':')).collect();
        for (a, b) in (0..at.len() / 2).map(|i| (at[i], at[at.len() - 1 - i])) { attrs.swap(a, b); }
    }
    if st.alien && x.folia && !header { attrs.insert(0, ("alien:x".into(), "y".into())); }
    if st.nested && !root && !header && x.folia { attrs.insert(0, ("xmlns".into(), NSFOLIA.to_string())); }
    if st.explicit && !header && x.folia { attrs.push(("typegroup".into(), "structure".into())); }
    if root {
        attrs.insert(0, (if st.prefix || st.nested { "xmlns:f" } else { "xmlns" }.to_string(), NSFOLIA.to_string()));
        attrs.push(("xmlns:xlink".into(), NSXLINK.into()));
        if st.alien { attrs.push(("xmlns:alien".into(), "http://example.org/alien".into())); }
    }
    for (k, v) in attrs.iter() {
        o.push_str(if st.spread { "\n\t" } else { " " });
        o.push_str(k);
        o.push_str(if st.spread { " = " } else { "=" });
        o.push(q); esc(o, v, st, true); o.push(q);
    }
    if x.items.is_empty() && st.empty != Empty::Pair {
        o.push_str(if st.empty == Empty::Short { "/>" } else { " />" });
        return;
    }
    o.push('>');
    let textual = textual || matches!(x.tag.as_str(), "t" | "ph") || x.tag.starts_with("t-") || x.items.iter().any(|i| matches!(i, XI::T(_)));
    for i in x.items.iter() {
        if st.pretty && !textual { o.push_str("\n  "); }
        match i {
            XI::E(e) => w(o, e, st, false, textual),
            XI::T(t) => if st.esc == Esc::Cdata && !t.contains("]]>") && !t.contains('\r') { o.push_str("<![CDATA["); o.push_str(t); o.push_str("]]>"); } else { esc(o, t, st, false) },
            XI::C(c) => { o.push_str("<!--"); o.push_str(c); o.push_str("-->"); }
        }
    }
    if st.pretty && !textual && !x.items.is_empty() { o.push_str("\n"); }
    o.push_str("</"); o.push_str(p); o.push_str(&x.tag); o.push('>');
}
