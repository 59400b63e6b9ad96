//! Reference semantics: what a FoLiA document says, computed from its XML tree alone (independently
//! of the parser, the stores and the encoder of the code under test).
use crate::obs::*;
use crate::xml::{X, XI};
use folia::{AnnotationType as AT, ElementGroup as EG, ElementType as ET};
use std::collections::BTreeMap;

type R<T> = Result<T, String>;

struct B { et: ET, n: Node, d: Option<usize>, items: Vec<BI> }
enum BI { B(B), T(String), C(String) }
type Cx = Option<(AT, Option<usize>)>;

#[derive(Clone)]
struct D { at: AT, set: Option<String>, alias: Option<String>, format: Option<String>, annotators: Vec<String> }
struct S { decls: Vec<D>, procs: Vec<String>, ids: std::collections::HashSet<String>, span: usize }

pub const ATTRS: &[&str] = &["xml:id", "set", "class", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "space", "processor", "xlink:href", "format", "subset", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "xlink:type", "tag"];

pub fn yes_no(v: &str) -> Option<bool> { match v { "yes" | "true" => Some(true), "no" | "false" => Some(false), _ => None } }
/// days in a month
fn mdays(y: i32, m: u32) -> u32 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, _ => 30 } }
/// `YYYY-MM-DDThh:mm:ss`, in the form in which dates are observed
pub fn datetime(v: &str) -> Option<String> {
    let b = v.as_bytes();
    if b.len() != 19 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' { return None; }
    let n = |a: usize, z: usize| if b[a..z].iter().all(|c| c.is_ascii_digit()) { v[a..z].parse::<u32>().ok() } else { None };
    let (y, mo, d, h, mi, s) = (n(0, 4)? as i32, n(5, 7)?, n(8, 10)?, n(11, 13)?, n(14, 16)?, n(17, 19)?);
    if mo < 1 || mo > 12 || d < 1 || d > mdays(y, mo) || h > 23 || mi > 59 || s > 59 { return None; }
    Some(v.to_string())
}
/// The canonical value of an attribute, None if it is not a valid one
pub fn value(name: &str, v: &str) -> Option<String> {
    Some(match name {
        "confidence" => float(v.parse::<f64>().ok()?),
        "space" | "newpage" => yesno(yes_no(v)?),
        "offset" | "linenr" => v.parse::<u16>().ok()?.to_string(),
        "datetime" => datetime(v)?,
        "annotatortype" => match v { "auto" | "manual" | "generator" | "datasource" => v.to_string(), _ => return None },
        _ => v.to_string(),
    })
}
/// The features an element type takes as attributes
pub fn shorthand(et: ET, name: &str) -> bool {
    v(et).acc.iter().any(|a| if let crate::vocab::Acc::T(t) = a { in_group(*t, EG::Feature) && v(*t).subset == Some(name) } else { false })
}

impl S {
    fn resolve(&mut self, at: AT, set: Option<&str>) -> usize {
        if let Some(i) = self.decls.iter().position(|d| d.at == at && d.set.as_deref() == set) { return i; }
        if let Some(s) = set { if let Some(i) = self.decls.iter().position(|d| d.at == at && d.alias.as_deref() == Some(s)) { return i; } }
        let of: Vec<usize> = (0..self.decls.len()).filter(|i| self.decls[*i].at == at).collect();
        if set.is_none() && of.len() == 1 { return of[0]; }
        self.decls.push(D { at, set: set.map(String::from), alias: None, format: None, annotators: vec![] });
        self.decls.len() - 1
    }
    fn elem(&mut self, x: &X, cx: Cx) -> R<B> {
        let vv = by_tag(&x.tag).ok_or_else(|| format!("unknown element {}", x.tag))?;
        let vv = v(vv.parses_as.ok_or_else(|| format!("element {} can not be read", x.tag))?);
        let mut n = Node { tag: vv.tag.to_string(), attrs: BTreeMap::new(), set: None, class: None, subset: None, processor: None, items: vec![] };
        let (mut set, mut class, mut subset, mut processor) = (None, None, None, None);
        let mut short: Vec<(String, String)> = vec![];
        for (k, val) in x.attrs.iter() {
            match k.as_str() {
                "set" => set = Some(val.clone()), "class" => class = Some(val.clone()), "subset" => subset = Some(val.clone()), "processor" => processor = Some(val.clone()),
                "typegroup" => {}
                k if ATTRS.contains(&k) => { n.attrs.insert(k.to_string(), value(k, val).ok_or_else(|| format!("invalid value {:?} for {}", val, k))?); }
                k if k.contains(':') => {}
                k if shorthand(vv.et, k) => short.push((k.to_string(), val.clone())),
                k => return Err(format!("unknown attribute {} on {}", k, x.tag)),
            }
        }
        let explicit = processor.clone().filter(|p| self.procs.contains(p));
        let encodable = set.is_some() || class.is_some() || subset.is_some() || processor.is_some();
        let mut d = None;
        if let Some(at) = vv.at {
            if encodable || primary(vv.et) {
                let i = self.resolve(at, set.as_deref());
                d = Some(i);
                n.class = class;
                n.processor = match &explicit { Some(p) => { if !self.decls[i].annotators.contains(p) { self.decls[i].annotators.push(p.clone()); } Some(p.clone()) },
                    None => if self.decls[i].annotators.len() == 1 { Some(self.decls[i].annotators[0].clone()) } else { None } };
            }
        } else if encodable {
            match cx {
                Some((at, cd)) => {
                    let i = match (&set, cd) { (None, Some(i)) => i, _ => self.resolve(at, set.as_deref()) };
                    d = Some(i);
                    n.class = class;
                    if vv.et == ET::Feature { n.subset = subset; }
                    if let Some(p) = &explicit { if !self.decls[i].annotators.contains(p) { self.decls[i].annotators.push(p.clone()); } }
                    n.processor = explicit;
                }
                None => { if vv.et == ET::Feature { return Err("feature without context".into()); } n.processor = explicit; }
            }
        }
        let cx = if let Some(at) = vv.at { Some((at, d)) } else { cx };
        if vv.et == ET::WordReference {
            match n.attrs.get("id") { None => return Err("reference to nothing".into()), Some(i) => if !self.ids.contains(i) { return Err("reference to a missing element".into()); } }
            if self.span == 0 { return Err("reference that is not in a span".into()); }
        }
        let is_span = in_group(vv.et, EG::Span);
        if is_span { self.span += 1; }
        let mut b = B { et: vv.et, n, d, items: vec![] };
        for (k, val) in short {
            let f = X::new("feat").a("subset", &k).a("class", &val).t(&val);
            b.items.push(BI::B(self.elem(&f, cx)?));
        }
        for i in x.items.iter() {
            match i {
                XI::E(e) if e.folia => { let c = self.elem(e, cx)?; b.items.push(BI::B(c)); }
                XI::E(_) => {}
                XI::C(c) => if !c.trim().is_empty() { b.items.push(BI::C(c.clone())) },
                XI::T(t) => if !t.trim().is_empty() || (!t.is_empty() && (vv.tc || vv.pc)) { if let Some(BI::T(l)) = b.items.last_mut() { l.push_str(t) } else { b.items.push(BI::T(t.clone())) } },
            }
        }
        if is_span { self.span -= 1; }
        if in_group(vv.et, EG::Layer) && b.d.is_none() { b.d = first_span(&b, vv.at); }
        Ok(b)
    }
    fn finish(&self, b: B) -> Node {
        let mut n = b.n;
        if let Some(d) = b.d {
            n.set = self.decls[d].set.clone();
            if n.processor.is_none() && v(b.et).at.is_some() && crate::obs::inherits(b.et, &n) && self.decls[d].annotators.len() == 1 { n.processor = Some(self.decls[d].annotators[0].clone()); }
        }
        n.items = b.items.into_iter().map(|i| match i { BI::B(b) => Item::N(self.finish(b)), BI::T(t) => Item::T(t), BI::C(c) => Item::C(c) }).collect();
        n
    }
}
/// the declaration of the first span annotation of this type under it (that has one with a set)
fn first_span(b: &B, at: Option<AT>) -> Option<usize> {
    for i in b.items.iter() {
        if let BI::B(c) = i {
            if in_group(c.et, EG::Span) && v(c.et).at == at { if let Some(d) = c.d { return Some(d); } }
            if let Some(d) = first_span(c, at) { return Some(d); }
        }
    }
    None
}

fn proc(x: &X, all: &mut Vec<String>) -> R<Proc> {
    let mut p = Proc { id: String::new(), fields: BTreeMap::new(), meta: BTreeMap::new(), subs: vec![] };
    p.fields.insert("type".into(), "auto".into());
    for (k, val) in x.attrs.iter() {
        match k.as_str() {
            "xml:id" => p.id = val.clone(),
            "begindatetime" | "enddatetime" => { p.fields.insert(k.clone(), datetime(val).ok_or("invalid time")?); }
            "type" => { if !["auto", "manual", "generator", "datasource"].contains(&val.as_str()) { return Err("invalid processor type".into()); } p.fields.insert(k.clone(), val.clone()); }
            "name" | "version" | "folia_version" | "document_version" | "command" | "host" | "user" | "src" | "format" | "resourcelink" => if !val.is_empty() { p.fields.insert(k.clone(), val.clone()); },
            k => return Err(format!("unknown attribute {} on processor", k)),
        }
    }
    all.push(p.id.clone());
    for e in x.elems().filter(|e| e.folia) {
        match e.tag.as_str() {
            "processor" => p.subs.push(proc(e, all)?),
            "meta" => if let Some(id) = e.attr("id").or(e.attr("xml:id")) { p.meta.insert(id.into(), e.text()); },
            t => return Err(format!("unexpected {} in processor", t)),
        }
    }
    Ok(p)
}

fn head_of(x: &X) -> R<(Head, S)> {
    let mut s = S { decls: vec![], procs: vec![], ids: Default::default(), span: 0 };
    let mut h = Head { id: x.attr("xml:id").unwrap_or("untitled").into(), decls: vec![], chain: vec![], meta: Meta::default(), submeta: BTreeMap::new() };
    let mut notes: Vec<(usize, String)> = vec![];
    let m = x.child("metadata").ok_or("no metadata")?;
    h.meta.src = m.attr("src").map(String::from);
    h.meta.mtype = m.attr("type").map(String::from);
    for e in m.elems() {
        match e.tag.as_str() {
            "annotations" => for d in e.elems() {
                let name = d.tag.strip_suffix("-annotation").ok_or("not a declaration")?;
                let at = a_by_name(name).ok_or("unknown declaration")?.at;
                let set = d.attr("set").map(String::from);
                let i = match s.decls.iter().position(|o| o.at == at && o.set == set) {
                    Some(i) => i,
                    None => { s.decls.push(D { at, set, alias: d.attr("alias").map(String::from), format: d.attr("format").map(String::from), annotators: vec![] }); s.decls.len() - 1 }
                };
                for n in d.elems() { if let Some(p) = n.attr("processor") { notes.push((i, p.to_string())); } }
            },
            "provenance" => for p in e.elems() { h.chain.push(proc(p, &mut s.procs)?); },
            "meta" => if let Some(id) = e.attr("id").or(e.attr("xml:id")) { h.meta.data.insert(id.into(), e.text()); },
            "submetadata" => {
                let mut sm = Meta { data: BTreeMap::new(), src: e.attr("src").map(String::from), mtype: e.attr("type").map(String::from) };
                for c in e.elems() { if let Some(id) = c.attr("id").or(c.attr("xml:id")) { sm.data.insert(id.into(), c.text()); } }
                h.submeta.insert(e.attr("xml:id").ok_or("no ID")?.into(), sm);
            }
            t => return Err(format!("unexpected {} in metadata", t)),
        }
    }
    for (i, p) in notes { if s.procs.contains(&p) && !s.decls[i].annotators.contains(&p) { s.decls[i].annotators.push(p); } }
    Ok((h, s))
}

/// What a document says (an error if it has to be refused because of an unknown element or attribute, or an invalid value)
pub fn doc(x: &X) -> R<Doc> { doc_with(x, &[]) }
/// The same, with annotation types that are declared on loading (as the document properties ask for)
pub fn doc_with(x: &X, declare: &[(AT, Option<&str>)]) -> R<Doc> {
    if x.tag != "FoLiA" || !x.folia { return Err("not FoLiA".into()); }
    let (mut h, mut s) = head_of(x)?;
    let later: Vec<bool> = declare.iter().map(|(at, _)| s.decls.iter().any(|d| d.at == *at)).collect();
    for (i, (at, set)) in declare.iter().enumerate() { if !later[i] { s.resolve(*at, *set); } }
    let body = x.elems().find(|e| e.tag == "text" || e.tag == "speech").ok_or("no body")?;
    fn uniq(x: &X, ids: &mut std::collections::HashSet<String>) -> R<()> {
        if let Some(i) = x.attr("xml:id") { if !ids.insert(i.to_string()) { return Err(format!("duplicate ID {}", i)); } }
        for e in x.elems() { uniq(e, ids)?; }
        Ok(())
    }
    uniq(body, &mut s.ids)?;
    let b = s.elem(body, None)?;
    for (i, (at, set)) in declare.iter().enumerate() { if later[i] { s.resolve(*at, *set); } }
    let body = s.finish(b);
    h.decls = s.decls.iter().map(|d| Decl { at: a(d.at).s.into(), set: d.set.clone(), alias: d.alias.clone(), format: d.format.clone(), annotators: d.annotators.clone() }).collect();
    Ok(Doc { head: h, body })
}
