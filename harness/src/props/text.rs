//! C13: the text of elements
use super::{io, Run};
use crate::gen::{self, build, docx, e, forests, Fam, Ix};
use crate::{ctx::*, obs, vocab::*, xml::{self, X}};
use folia::*;
use folia::{AnnotationType as AT, AttribType as AA, ElementGroup as EG, ElementType as ET};
use std::collections::HashMap;

pub const TEXTSET: &str = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl";
enum It { T(String), E(usize) }
struct N { v: &'static V, idref: Option<String>, set: Option<String>, class: Option<String>, space: bool, items: Vec<It> }
/// What the reference needs to know of a document
pub struct Texts { els: Vec<N>, ids: HashMap<String, usize> }
impl Texts {
    pub fn new(d: &Document) -> Texts {
        let mut ids = HashMap::new();
        let els = (0..obs::n_elements(d)).map(|k| {
            let x = d.get_element(k).unwrap();
            if let Some(id) = x.id() { ids.insert(id.to_string(), k as usize); }
            let ed = x.elementdata();
            N { v: obs::v(x.elementtype()), set: x.set().map(String::from), class: x.class().map(String::from),
                idref: match x.attrib(AA::IDREF) { Some(Attribute::Idref(s)) => Some(s.clone()), _ => None },
                space: match x.attrib(AA::SPACE) { Some(Attribute::Space(b)) => *b, _ => true },
                items: (0..ed.len()).filter_map(|i| match ed.get_data_at(i) { Some(DataType::Text(t)) => Some(It::T(t.clone())), Some(DataType::Element(k)) => Some(It::E(*k as usize)), _ => None }).collect() }
        }).collect();
        Texts { els, ids }
    }
    fn kids(&self, k: usize) -> impl DoubleEndedIterator<Item = usize> + '_ { self.els[k].items.iter().filter_map(|i| if let It::E(k) = i { Some(*k) } else { None }) }
    fn target(&self, k: usize) -> Option<usize> { self.els[k].idref.as_ref().and_then(|i| self.ids.get(i)).copied() }
    fn delim(&self, k: usize, retain: bool) -> String {
        let x = &self.els[k];
        if x.v.et == ET::WordReference { if let Some(t) = self.target(k) { if self.els[t].v.delim.is_some() { return self.delim(t, retain); } } }
        match x.v.delim {
            Some(d) => if !x.space && !retain && x.v.optattr.contains(&AA::SPACE) { String::new() } else { d.to_string() },
            None => self.kids(k).rev().find(|c| x.v.et != ET::Correction || [ET::New, ET::Current].contains(&self.els[*c].v.et)).map_or(String::new(), |c| self.delim(c, retain)),
        }
    }
    /// the text of an element, if it has any; `circ` is set if a reference leads back to something that it is a part of the text of
    fn text(&self, k: usize, set: Option<&str>, class: &str, retain: bool, path: &mut Vec<usize>, circ: &mut bool) -> Option<String> {
        let x = &self.els[k];
        if path.contains(&k) { *circ = true; return None; }
        path.push(k);
        let r = (|| {
            if x.v.tc {
                let mut s = String::new();
                for i in x.items.iter() {
                    match i {
                        It::T(t) => s.push_str(t),
                        It::E(c) => if self.els[*c].v.printable {
                            if !s.is_empty() { s.push_str(self.els[*c].v.delim.unwrap_or("")); }
                            s.push_str(&self.text(*c, set, class, retain, path, circ).unwrap_or_default());
                        }
                    }
                }
                return Some(s);
            }
            if !x.v.printable || x.v.hidden { return None; }
            let mut s = String::new();
            let mut before: Option<String> = None;
            for c in self.kids(k) {
                let et = self.els[c].v.et;
                let src = if obs::in_group(et, EG::Structure) || obs::in_group(et, EG::Span) || [ET::Correction, ET::New, ET::Current].contains(&et) { c }
                    else if et == ET::WordReference { match self.target(c) { Some(t) => t, None => continue } } else { continue };
                if let Some(t) = self.text(src, set, class, retain, path, circ) {
                    if let Some(b) = before.take() { s.push_str(&b); }
                    s.push_str(&t);
                    before = Some(self.delim(src, retain));
                }
            }
            if s.is_empty() {
                let own = self.kids(k).filter(|c| { let t = &self.els[*c]; t.v.et == ET::TextContent && t.class.as_deref().unwrap_or("current") == class && (t.set.is_none() || t.set.as_deref() == set) }).last();
                if let Some(t) = own { s = self.text(t, set, class, retain, path, circ).unwrap_or_default(); }
            }
            if s.is_empty() { None } else { Some(s) }
        })();
        path.pop();
        r
    }
}
/// what was asked, compared with what was answered
fn same(got: &Result<String, FoliaError>, want: &Option<String>, container: bool) -> bool {
    match (got, want) { (Ok(g), Some(w)) => g == w, (Err(FoliaError::NoTextError(_)), None) => true, (Err(FoliaError::NoTextError(_)), Some(w)) => container && w.is_empty(), _ => false }
}
pub fn check(d: &Document, k: &mut Case, sets: &[Option<&str>], classes: &[Option<&str>]) -> Result<(), String> {
    let t = Texts::new(d);
    let declared: Vec<Option<String>> = d.declarations().map(|x| x.as_ref().unwrap()).filter(|x| x.annotationtype == AT::TEXT).map(|x| x.set.clone()).collect();
    for key in 0..t.els.len() {
        let el = d.get_element(key as u32).unwrap();
        for retain in [false, true].iter() {
            let g = el.get_textdelimiter(*retain).map(|s| s.to_string()).map_err(|e| format!("{:?}", e));
            if g != Ok(t.delim(key, *retain)) { return Err(format!("the delimiter of {} ({}, retain {}) is {:?} rather than {:?}", key, t.els[key].v.tag, retain, g, t.delim(key, *retain))); }
            for set in sets.iter() { for class in classes.iter() {
                let mut p = TextParameters::new().retaintokenisation(*retain);
                match set { Some(s) => p = p.set(s), None => p.set = None }
                match class { Some(c) => p = p.textclass(c), None => p.textclass = None }
                if set.is_none() && class.is_none() && !*retain && format!("{:?}", d.text(key as u32, &p)) != format!("{:?}", d.text(key as u32, &TextParameters::new())) { return Err(format!("the text of {} with the default parameters is another one than with none", key)); }
                let got = d.text(key as u32, &p);
                let again = el.text(&p);
                let (s, cl) = (set.unwrap_or(TEXTSET), class.unwrap_or("current"));
                k.transitions += 1;
                if format!("{:?}", got) != format!("{:?}", again) { return Err(format!("the text of {} is {:?} through the document and {:?} through the element", key, got, again)); }
                if !declared.iter().any(|x| x.as_deref() == Some(s)) { if got.is_ok() { return Err(format!("text of the undeclared set {} is {:?}", s, got)); } continue; }
                let mut circ = false;
                let want = t.text(key, Some(s), cl, *retain, &mut vec![], &mut circ);
                if circ { continue; }
                k.outcome(&want);
                if !same(&got, &want, t.els[key].v.tc) { return Err(format!("the text of element {} ({}), set {:?}, class {:?}, retain {}, is {:?} rather than {:?}", key, t.els[key].v.tag, set, class, retain, got, want)); }
            } }
            //by keys
            for (dk, x) in d.declarations().enumerate() {
                let x = x.as_ref().unwrap();
                if x.annotationtype != AT::TEXT { continue; }
                for cl in classes.iter().map(|c| c.unwrap_or("current")) {
                    if let Some(ck) = x.class_key(cl) {
                        let mut circ = false;
                        let want = t.text(key, x.set.as_deref(), cl, *retain, &mut vec![], &mut circ);
                        let got = d.text_by_key(key as u32, dk as u16, ck, false, *retain);
                        k.transitions += 1;
                        if circ { continue; }
                        if !same(&got, &want, t.els[key].v.tc) { return Err(format!("the text of element {} ({}), declaration {}, class {}, retain {}, is {:?} rather than {:?}", key, t.els[key].v.tag, dk, cl, retain, got, want)); }
                        if !t.els[key].v.tc {
                            let got = el.text_by_key(dk as u16, ck, false, *retain, Some("|".into()));
                            if !same(&got, &want.as_ref().map(|w| format!("|{}", w)), false) { return Err(format!("the text of element {}, preceded by a delimiter, is {:?} rather than | and {:?}", key, got, want)); }
                        }
                    }
                }
            }
        }
    }
    k.states += t.els.len() as u64;
    Ok(())
}
fn tdecl() -> Vec<X> { vec![gen::decl_x("text", Some(TEXTSET), None, &[]), gen::decl_x("text", Some("Other"), None, &[])] }
const KINDS: usize = 14;
fn label(k: usize, i: usize) -> X {
    let tx = format!("a{}", i);
    let t = |s: &str| e("t").a("set", TEXTSET).t(s);
    match k {
        0 => e("w").e(t(&tx)), 1 => e("w").a("space", "no").e(t(&tx)), 2 => e("w"), 3 => e("s"), 4 => e("p").e(t(&tx)),
        5 => e("t").a("set", TEXTSET).a("class", "ocr").t(&tx), 6 => e("t").a("set", "Other").t(&tx), 7 => t(&tx), 8 => e("hiddenw").e(t(&tx)),
        9 => e("correction"), 10 => e("new"), 11 => e("original"), 12 => e("current"), _ => e("part").e(t(&tx)),
    }
}
fn f_parts(max: usize) -> Fam {
    let mut shapes = vec![]; let mut starts = vec![]; let mut n = 0u64;
    for k in 1..=max { for f in forests(k) { starts.push(n); n += (KINDS as u64).pow(k as u32); shapes.push(f); } }
    Fam { name: "parts", what: format!("all ordered forests of up to {} nodes of {} kinds (words with and without text and space, sentences, paragraphs, parts, hidden words, text of other classes and sets, corrections and their children)", max, KINDS), n, make: Box::new(move |i| {
        let s = starts.partition_point(|a| *a <= i) - 1;
        let mut ix = Ix(i - starts[s]);
        let mut depth_ok = true;
        let mut ks: Vec<usize> = vec![];
        let nodes: Vec<(usize, X)> = shapes[s].iter().enumerate().map(|(j, d)| {
            let kind = ix.take(KINDS);
            //nothing goes in text here (that is for the markup family)
            if *d > 0 { let p = (0..j).rev().find(|p| shapes[s][*p] == *d - 1).unwrap(); if [5, 6, 7].contains(&ks[p]) { depth_ok = false; } }
            ks.push(kind);
            (*d, label(kind, j))
        }).collect();
        if depth_ok { Some(docx(tdecl(), None, build(nodes))) } else { None }
    }) }
}
const MARK: usize = 12;
fn mark(k: usize, i: usize) -> X {
    match k {
        0 => e("t-style").a("class", "b"), 1 => e("t-str"), 2 => e("br"), 3 => e("t-hbr"), 4 => e("t-ws"), 5 => e("t-gap").a("class", "g"), 6 => e("t-correction").a("class", "c").a("original", "o"), 7 => e("comment").t("no"),
        8 => e("desc").t("no"), 9 => e("t-lang").a("class", "l").t(&format!("{}", i)), 10 => e("t-ref"), _ => e("t-error").t(" "),
    }
}
fn f_markup(max: usize) -> Fam {
    let mut shapes = vec![]; let mut starts = vec![]; let mut n = 0u64;
    for k in 1..=max { for f in forests(k) { starts.push(n); n += (2 * MARK as u64).pow(k as u32); shapes.push(f); } }
    Fam { name: "markup", what: format!("in text, all ordered forests of up to {} nodes of {} kinds of markup, each with and without text before it", max, MARK), n, make: Box::new(move |i| {
        let s = starts.partition_point(|a| *a <= i) - 1;
        let mut ix = Ix(i - starts[s]);
        let mut stack: Vec<X> = vec![e("t").a("set", TEXTSET)];
        for (j, d) in shapes[s].iter().enumerate() {
            while stack.len() > d + 1 { let x = stack.pop().unwrap(); let p = stack.pop().unwrap(); stack.push(p.e(x)); }
            let k = ix.take(MARK);
            if ix.take(2) == 1 { let p = stack.pop().unwrap(); stack.push(p.t(&format!("x{} ", j))); }
            stack.push(mark(k, j));
        }
        while stack.len() > 1 { let x = stack.pop().unwrap(); let p = stack.pop().unwrap(); stack.push(p.e(x)); }
        Some(docx(tdecl(), None, vec![e("s").e(e("w").e(stack.pop().unwrap())).e(e("w").e(e("t").a("set", TEXTSET).t("z")))]))
    }) }
}
fn f_refs(full: bool) -> Fam {
    let ids = ["w1", "w2", "s1", "e1", "zz", "w3"];
    let lists: Vec<Vec<usize>> = { let mut v: Vec<Vec<usize>> = vec![vec![]]; for a in 0..ids.len() { v.push(vec![a]); for b in 0..ids.len() { v.push(vec![a, b]); if full { for c in 0..3 { v.push(vec![a, b, c]); } } } } v };
    let forms = 5usize;
    let n = (lists.len() * lists.len() * forms * forms * 4) as u64;
    Fam { name: "refs", what: format!("two span annotations, each in one of {} forms and at one of two places, with all of {} lists of references (forward, backward, repeated, to nothing, circular)", forms, lists.len()), n, make: Box::new(move |i| {
        let mut ix = Ix(i);
        let (l1, l2, f1, f2, pl) = (ix.pick(&lists).clone(), ix.pick(&lists).clone(), ix.take(forms), ix.take(forms), ix.take(4));
        let mk = |l: &Vec<usize>, f: usize, id: &str| {
            let r: Vec<X> = l.iter().map(|k| e("wref").a("id", ids[*k])).collect();
            let sp = |x: X| x.a("xml:id", id).a("class", "c");
            match f { 0 => e("entities").e(sp(e("entity")).es(r)), 1 => e("dependencies").e(sp(e("dependency")).e(e("hd").es(r)).e(e("dep").e(e("wref").a("id", "w1")))), 2 => e("syntax").e(sp(e("su")).e(e("su").a("class", "d").es(r)).e(e("wref").a("id", "w2"))), 3 => e("chunking").e(sp(e("chunk")).es(r).e(e("t").a("set", TEXTSET).t("own"))), _ => e("correction").e(e("new").e(e("entity").a("class", "c").a("xml:id", id).es(r))) }
        };
        let (a, b) = (mk(&l1, f1, "e1"), mk(&l2, f2, "e2"));
        let w = |n: &str, t: &str| e("w").a("xml:id", n).e(e("t").a("set", TEXTSET).t(t));
        let (mut w1, mut s) = (w("w1", "one").a("space", "no"), e("s").a("xml:id", "s1"));
        if f1 == 4 { let x = e("entities").e(a); if pl & 1 == 0 { s = s.e(x) } else { w1 = w1.e(x) } } else if pl & 1 == 0 { s = s.e(a) } else { w1 = w1.e(a) }
        s = s.e(w1).e(w("w2", "two")).e(w("w3", "three"));
        let b = if f2 == 4 { e("entities").e(b) } else { b };
        if pl & 2 == 0 { s = s.e(b); return Some(docx(tdecl(), None, vec![s])); }
        Some(docx(tdecl(), None, vec![e("p").e(s).e(b)]))
    }) }
}
pub fn c13(c: &Ctx) -> Run {
    let sets = [Some(TEXTSET), None, Some("Other"), Some("zz")];
    let classes = [Some("current"), None, Some("ocr"), Some("zz")];
    for f in vec![f_parts(c.pick(4, 5)), f_markup(c.pick(3, 4)), f_refs(!c.quick())] {
        c.bound(&format!("{}: {}, for all of {} sets x {} classes x retaining tokenisation or not, of every element", f.name, f.what, sets.len(), classes.len()));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            let d = match io::load(&k.desc) { Ok(d) => d, Err(_) => return Ok(()) };
            k.traces += 1;
            check(&d, k, &sets, &classes)
        });
    }
    for f in gen::families(c.quick()).into_iter().filter(|f| f.name != "huge") {
        c.bound(&format!("{}: {}, the current and another text of every element", f.name, f.what));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            let d = match io::load(&k.desc) { Ok(d) => d, Err(_) => return Ok(()) };
            k.traces += 1;
            check(&d, k, &[None], &[None, Some("c2")])
        });
    }
    super::edit::histories_docs(c, "built", c.pick(1, 2), |d, k| check(d, k, &[None], &[None]));
    Run { assumptions: &["FoLiA's schema properties of each element type (delimiter, text container, printable, hidden) are those in harness/src/vocab.rs (checked by C18)", "circular references: only termination is checked"], explanation: "the text and text delimiter that the real code gives for every element of every document, for every choice of parameters, is compared with an independent recursive definition" }
}
