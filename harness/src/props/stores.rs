//! C21: stores
use super::Run;
use crate::{ctx::*, obs, ops};
use folia::*;
use folia::{AnnotationType as AT, ElementType as ET};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::fmt::Debug;

//stores of our own, with small keys
#[derive(Clone, Debug, PartialEq)]
struct It<K> { id: Option<String>, payload: u8, key: Option<K> }
impl<K: Copy> Storable<K> for It<K> {
    fn maybe_id(&self) -> Option<Cow<str>> { self.id.as_ref().map(|s| Cow::Borrowed(s.as_str())) }
    fn key(&self) -> Option<K> { self.key }
    fn assign_key(&mut self, k: K) { self.key = Some(k); }
}
struct My<K> { items: Vec<Option<Box<It<K>>>>, index: HashMap<String, K> }
impl<K: TryFrom<usize> + Copy + Debug> Store<It<K>, K> for My<K> where usize: TryFrom<K>, <usize as TryFrom<K>>::Error: Debug {
    fn items_mut(&mut self) -> &mut Vec<Option<Box<It<K>>>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, K> { &mut self.index }
    fn items(&self) -> &Vec<Option<Box<It<K>>>> { &self.items }
    fn iter(&self) -> std::slice::Iter<Option<Box<It<K>>>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, K> { &self.index }
}
struct MyS<K> { items: Vec<Option<String>>, index: HashMap<String, K> }
impl<K: TryFrom<usize> + Copy + Debug> StringStore<K> for MyS<K> where usize: TryFrom<K>, <usize as TryFrom<K>>::Error: Debug {
    fn items_mut(&mut self) -> &mut Vec<Option<String>> { &mut self.items }
    fn index_mut(&mut self) -> &mut HashMap<String, K> { &mut self.index }
    fn items(&self) -> &Vec<Option<String>> { &self.items }
    fn iter(&self) -> std::slice::Iter<Option<String>> { self.items.iter() }
    fn index(&self) -> &HashMap<String, K> { &self.index }
}

const IDS: [Option<&str>; 5] = [None, Some("a"), Some("b"), Some(""), Some("f1")];
/// a whole history on a store that holds `fill` items, with a list of items next to it
fn own<K: TryFrom<usize> + Copy + Debug + PartialEq>(fill: usize, cap: usize, h: &[usize]) -> Result<u64, String> where usize: TryFrom<K>, <usize as TryFrom<K>>::Error: Debug {
    let mut s: My<K> = My { items: vec![], index: HashMap::new() };
    let mut model: Vec<(Option<String>, u8)> = vec![];
    let key = |n: usize| K::try_from(n).ok();
    for (n, step) in (0..fill).map(|n| (n, None)).chain(h.iter().map(|o| (0, Some(*o)))) {
        let (id, payload, removed) = match step {
            None => (if n % 3 == 0 { None } else { Some(format!("f{}", n)) }, (n % 7) as u8, false),
            Some(o) if o == IDS.len() * 2 => (None, 0, true),
            Some(o) => (IDS[o / 2].map(String::from), 100 + (o % 2) as u8, false),
        };
        if removed {
            //the owner of a store may take an item out, of which the key is not used again
            if let Some(p) = model.iter().rposition(|m| m.0.is_none() && m.1 != 255) { s.items_mut()[p] = None; model[p].1 = 255; }
            continue;
        }
        let known = id.as_ref().and_then(|i| model.iter().position(|m| m.0.as_ref() == Some(i)));
        let want = match known { Some(p) => key(p), None if model.len() < cap => key(model.len()), None => None };
        let item = It { id: id.clone(), payload, key: None };
        if Store::get_key(&s, &item) != known.and_then(|p| key(p)) { return Err(format!("the key of {:?} is {:?} before it is added", id, Store::get_key(&s, &item))); }
        let got = Store::add(&mut s, item, None).ok();
        if got != want { return Err(format!("adding {:?} gives {:?} rather than {:?} with {} items there", id, got, want, model.len())); }
        if known.is_none() && want.is_some() { model.push((id, payload)); }
        if step.is_some() || n + 1 == fill { whole(&mut s, &model, cap)?; }
    }
    Ok(hash(&model))
}
fn whole<K: TryFrom<usize> + Copy + Debug + PartialEq>(s: &mut My<K>, model: &[(Option<String>, u8)], cap: usize) -> Result<(), String> where usize: TryFrom<K>, <usize as TryFrom<K>>::Error: Debug {
    if Store::len(s) != model.len() || Store::is_empty(s) != model.is_empty() || Store::iter(s).count() != model.len() { return Err(format!("it holds {} rather than {} items", Store::len(s), model.len())); }
    for n in 0..(model.len() + 3).min(cap) {
        let k = match K::try_from(n) { Ok(k) => k, Err(_) => break };
        let want = model.get(n).filter(|m| m.1 != 255);
        for g in [Store::get(s, k).cloned(), Store::get_mut(s, k).map(|x| x.clone())] {
            if g.as_ref().map(|x| (&x.id, x.payload)) != want.map(|m| (&m.0, m.1)) { return Err(format!("key {} retrieves {:?} rather than {:?}", n, g, want)); }
            if let Some(x) = g { if x.key != Some(k) { return Err(format!("the item with key {} takes itself for {:?}", n, x.key)); } }
        }
    }
    let f: Vec<String> = (0..model.len()).step_by(29).map(|n| format!("f{}", n)).collect();
    for i in ["a", "b", "", "c", "A", "f1", "f2", "f253"].iter().copied().chain(f.iter().map(|s| s.as_str())) {
        let want = model.iter().position(|m| m.0.as_deref() == Some(i));
        if s.id_to_key(i) != want.and_then(|n| K::try_from(n).ok()) { return Err(format!("the key of {:?} is {:?} rather than {:?}", i, s.id_to_key(i), want)); }
        let p = want.map(|n| model[n].1);
        if s.get_by_id(i).map(|x| x.payload) != p || s.get_mut_by_id(i).map(|x| x.payload) != p { return Err(format!("{:?} retrieves something else", i)); }
    }
    Ok(())
}
const STRS: [&str; 6] = ["", "a", "b", "A", "a ", "\u{e9}"];
fn strings<K: TryFrom<usize> + Copy + Debug + PartialEq, S: StringStore<K>>(s: &mut S, fill: usize, cap: usize, h: &[usize]) -> Result<u64, String> where usize: TryFrom<K>, <usize as TryFrom<K>>::Error: Debug {
    let mut model: Vec<String> = vec![];
    let mut places: HashMap<String, usize> = HashMap::new();
    let key = |n: usize| K::try_from(n).ok();
    for (n, step) in (0..fill).map(|n| (n, None)).chain(h.iter().map(|o| (0, Some(*o)))) {
        let x = match step { None => format!("f{}", n), Some(o) if o < STRS.len() => STRS[o].to_string(), Some(o) => format!("f{}", [0, 1, 254, 255, 65534, 65535, 65536][o - STRS.len()]) };
        let known = places.get(&x).copied();
        let want = match known { Some(p) => key(p), None if model.len() < cap => key(model.len()), None => None };
        if s.get_key(&x) != known.and_then(|p| key(p)) { return Err(format!("the key of {:?} is {:?} before it is added", x, s.get_key(&x))); }
        let got = s.add(if n % 2 == 0 { Cow::Borrowed(&x) } else { Cow::Owned(x.clone()) }).ok();
        if got != want { return Err(format!("adding {:?} gives {:?} rather than {:?} with {} strings there", x, got, want, model.len())); }
        if known.is_none() && want.is_some() { places.insert(x.clone(), model.len()); model.push(x); }
        if step.is_none() && n + 1 != fill { continue; }
        if s.len() != model.len() || s.is_empty() != model.is_empty() || s.iter().count() != model.len() { return Err(format!("it holds {} rather than {} strings", s.len(), model.len())); }
        let ends = 40.min(model.len());
        for n in (0..ends).chain(model.len() - ends..model.len() + 3) {
            let k = match key(n) { Some(k) => k, None => continue };
            let want = model.get(n).map(|s| s.as_str());
            if s.get(k) != want || s.get_mut(k).map(|x| x.clone()).as_deref() != want { return Err(format!("key {} retrieves {:?} rather than {:?}", n, s.get(k), want)); }
        }
        for i in STRS.iter().copied().chain(["c", "f1", "f255", "f65535", "f65536"].iter().copied()) {
            if s.get_key(i) != places.get(i).and_then(|n| key(*n)) { return Err(format!("the key of {:?} is {:?}", i, s.get_key(i))); }
        }
    }
    Ok(hash(&(model.len(), &model[fill.min(model.len())..])))
}
fn digits(mut i: u64, base: usize, n: usize) -> Vec<usize> { let mut v = vec![]; for _ in 0..n { v.push((i % base as u64) as usize); i /= base as u64; } v }

/// what a document holds
#[derive(PartialEq, Clone, Debug)]
struct Sizes { els: usize, decls: usize, procs: usize, chain: usize, subs: BTreeMap<u16, (usize, usize, usize)>, tree: u64 }
fn sizes(d: &Document) -> Sizes {
    let mut subs = BTreeMap::new();
    let mut h = vec![];
    for (i, x) in d.declarations().enumerate() {
        let x = x.as_ref().unwrap();
        let n = (x.classes.as_ref().map_or(0, |s| s.len()), x.subsets.as_ref().map_or(0, |s| s.len()), x.subclasses.as_ref().map_or(0, |s| s.len()));
        if n != (0, 0, 0) { subs.insert(i as u16, n); }
        if !x.processors.is_empty() { h.push(hash(&(i, &x.processors))); }
    }
    let els = <Document as Store<ElementData, u32>>::len(d);
    for k in 0..els as u32 { let e = d.get_element(k).unwrap(); h.push(hash(&format!("{:?} {:?} {:?} {:?}", e.elementtype(), e.elementdata().attribs(), (0..e.elementdata().len()).map(|i| format!("{:?}", e.elementdata().get_data_at(i))).collect::<Vec<_>>(), e.elementdata().parent_key()))); }
    let procs = <Document as Store<Processor, u16>>::len(d);
    Sizes { els, decls: d.declarations().count(), procs, chain: d.provenancestore.chain.len(), subs, tree: hash(&h) }
}
fn fresh(decls: usize, procs: usize, subs: usize) -> Result<Document, String> {
    let er = |e: FoliaError| format!("{:?}", e);
    let mut d = Document::new("doc", DocumentProperties::default()).map_err(er)?;
    d.add_element_to(0, ElementData::new(ET::Word).with_attrib(Attribute::Id("w".to_string()))).map_err(er)?;
    let p = d.declare(AT::POS, &Some("P".to_string()), &None, &None).map_err(er)?;
    for n in 0..subs { let k = d.get_mut_declaration(p).unwrap().add_subset(Cow::Owned(format!("s{}", n))).map_err(er)?; if k as usize != n { return Err(format!("subset {} gets key {}", n, k)); } }
    let mut n = d.declarations().count();
    while n < decls { let k = d.add_declaration(Declaration::new(AT::LEMMA, Some(format!("l{}", n)), None, None)).map_err(er)?; if k as usize != n { return Err(format!("declaration {} gets key {}", n, k)); } n += 1; }
    for n in 0..procs { let k = d.add_provenance(Processor::new("p".to_string()).with_id(format!("p{}", n))).map_err(er)?; if k as usize != n { return Err(format!("processor {} gets key {}", n, k)); } }
    Ok(d)
}
fn at(s: &str) -> Attribute { Attribute::Set(s.to_string()) }
fn pos(s: &str) -> ElementData { ElementData::new(ET::PosAnnotation).with_attrib(at(s)).with_attrib(Attribute::Class("c".to_string())) }
fn feat(s: &str) -> ElementData { ElementData::new(ET::Feature).with_attrib(Attribute::Subset(s.to_string())).with_attrib(Attribute::Class("v".to_string())) }
/// operations that take keys of declarations: (what, its parts that may be refused separately)
const DECL_OPS: usize = 13;
fn decl_op(d: &mut Document, o: usize) -> (String, Result<u64, String>, bool) {
    let w = d.get_element_key_by_id("w").unwrap();
    let s = |x: &str| Some(x.to_string());
    let r: (&str, Result<u64, FoliaError>, bool) = match o {
        0 => ("declare new", { d.declare(AT::SENSE, &s("new"), &None, &None).map(|k| k as u64) }, false),
        1 => ("declare another", { d.declare(AT::SENSE, &s("another"), &s("al"), &None).map(|k| k as u64) }, false),
        2 => ("declare what is there", { d.declare(AT::POS, &s("P"), &None, &None).map(|k| k as u64) }, false),
        3 => ("declare without set", { d.declare(AT::STYLE, &None, &None, &None).map(|k| k as u64) }, false),
        4 => ("add_declaration new", { d.add_declaration(Declaration::new(AT::SENSE, s("new"), None, None)).map(|k| k as u64) }, false),
        5 => ("add_declaration there", { d.add_declaration(Declaration::new(AT::POS, s("P"), None, None)).map(|k| k as u64) }, false),
        6 => ("an element in a new set", { d.add_element_to(w, pos("Q")).map(|k| k as u64) }, false),
        7 => ("an element in a set that is there", { d.add_element_to(w, pos("P")).map(|k| k as u64) }, false),
        8 => ("annotate in a new set", { d.annotate(w, pos("R")).map(|k| k as u64) }, false),
        9 => ("an orphan in a new set", { d.add_element(pos("O")).map(|k| k as u64) }, false),
        10 => ("add_class", { d.add_class(0, &"cls".to_string()).map(|k| k as u64) }, false),
        11 => ("an element without set", { d.add_element_to(0, ElementData::new(ET::Paragraph)).map(|k| k as u64) }, false),
        _ => ("nested elements in two new sets", { d.add_element_to(0, ElementData::new(ET::Sentence).with_attrib(at("X")).add_element(ElementData::new(ET::Word).with_attrib(at("Y")).add_element(pos("Z")))).map(|k| k as u64) }, true),
    };
    (r.0.to_string(), r.1.map_err(|e| format!("{:?}", e)), r.2)
}
const PROC_OPS: usize = 9;
fn proc_op(d: &mut Document, o: usize) -> (String, Result<u64, String>, bool) {
    let p = |i: &str| Processor::new("n".to_string()).with_id(i.to_string());
    let r: (&str, Result<u16, FoliaError>) = match o {
        0 => ("add_processor", d.add_processor(p("new"))),
        1 => ("add_processor another", d.add_processor(p("another"))),
        2 => ("add_processor there", d.add_processor(p("p1"))),
        3 => ("add_subprocessor", d.add_subprocessor(0, p("sub"))),
        4 => ("add_provenance", d.add_provenance(p("prov"))),
        5 => ("add_provenance there", d.add_provenance(p("p2"))),
        6 => ("add_processor with a subprocessor", d.add_processor(p("outer").with_new_subprocessor(p("inner")))),
        7 => ("add_subprocessor with two", d.add_subprocessor(1, p("x").with_new_subprocessor(p("y")).with_new_subprocessor(p("z")))),
        _ => ("add_processor with an existing one", d.add_processor(p("o2").with_existing_subprocessor(5))),
    };
    (r.0.to_string(), r.1.map(|k| k as u64).map_err(|e| format!("{:?}", e)), false)
}
const SUB_OPS: usize = 8;
fn sub_op(d: &mut Document, o: usize) -> (String, Result<u64, String>, bool) {
    let w = d.get_element_key_by_id("w").unwrap();
    let pk = (0..obs::n_elements(d)).find(|k| d.get_element(*k).unwrap().elementtype() == ET::PosAnnotation);
    let r: (&str, Result<u64, FoliaError>, bool) = match o {
        0 => ("annotate", d.add_element_to(w, pos("P")).map(|k| k as u64), false),
        1 => ("a feature in a new subset", match pk { Some(p) => d.add_element_to(p, feat("new")).map(|k| k as u64), None => Ok(0) }, false),
        2 => ("a feature in another new subset", match pk { Some(p) => d.add_element_to(p, feat("other")).map(|k| k as u64), None => Ok(0) }, false),
        3 => ("a feature in a subset that is there", match pk { Some(p) => d.add_element_to(p, feat("s7")).map(|k| k as u64), None => Ok(0) }, false),
        4 => ("add_subset", d.get_mut_declaration(d.get_declaration_key_by_id("").unwrap_or(pos_key(d))).unwrap().add_subset(Cow::Borrowed("direct")).map(|k| k as u64), false),
        5 => ("add_subset there", { let k = pos_key(d); d.get_mut_declaration(k).unwrap().add_subset(Cow::Borrowed("s1")).map(|k| k as u64) }, false),
        6 => ("a feature in a new subset of another set", { match d.add_element_to(w, pos("Q")) { Ok(q) => d.add_element_to(q, feat("q")).map(|k| k as u64), Err(e) => Err(e) } }, false),
        _ => ("an annotation with two features", d.add_element_to(w, pos("P").add_element(feat("n1")).add_element(feat("n2"))).map(|k| k as u64), true),
    };
    (r.0.to_string(), r.1.map_err(|e| format!("{:?}", e)), r.2)
}
fn pos_key(d: &Document) -> u16 { d.declarations().position(|x| x.as_ref().map_or(false, |x| x.annotationtype == AT::POS && x.set.as_deref() == Some("P"))).unwrap() as u16 }
/// every key and identifier retrieves what it was given for
fn consistent(d: &Document, sample: bool) -> Result<(), String> {
    let n = d.declarations().count();
    for i in 0..n {
        if sample && i > 20 && i + 20 < n { continue; }
        let x = d.get_declaration(i as u16).ok_or_else(|| format!("declaration {} is not there", i))?;
        if x.key != Some(i as u16) { return Err(format!("declaration {} takes itself for {:?}", i, x.key)); }
        let id = Storable::<u16>::maybe_id(x).ok_or("a declaration without identifier")?.to_string();
        if d.get_declaration_key_by_id(&id) != Some(i as u16) || d.get_declaration_by_id(&id).map(|y| y.key) != Some(Some(i as u16)) { return Err(format!("declaration {} ({}) is found as {:?}", i, id, d.get_declaration_key_by_id(&id))); }
    }
    if n < 65536 && d.get_declaration(n as u16).is_some() { return Err("a declaration that is none".to_string()); }
    let m = <Document as Store<Processor, u16>>::len(d);
    for i in 0..m {
        if sample && i > 20 && i + 20 < m { continue; }
        let x = d.get_processor(i as u16).ok_or_else(|| format!("processor {} is not there", i))?;
        if d.get_processor_key_by_id(&x.id) != Some(i as u16) || d.get_processor_by_id(&x.id).map(|y| &y.id) != Some(&x.id) { return Err(format!("processor {} ({}) is found as {:?}", i, x.id, d.get_processor_key_by_id(&x.id))); }
    }
    if m < 65536 && d.get_processor(m as u16).is_some() { return Err("a processor that is none".to_string()); }
    let e = obs::n_elements(d);
    for k in 0..e {
        let x = d.get_element(k).ok_or_else(|| format!("element {} is not there", k))?;
        if x.key() != Some(k) { return Err(format!("element {} takes itself for {:?}", k, x.key())); }
        if let Some(id) = x.id() { if d.get_element_key_by_id(id) != Some(k) || d.get_element_by_id(id).and_then(|y| y.key()) != Some(k) { return Err(format!("element {} ({}) is found as {:?}", k, id, d.get_element_key_by_id(id))); } }
    }
    if d.get_element(e).is_some() || d.get_element(u32::MAX).is_some() || d.get_element_by_id("nowhere").is_some() || d.get_element_by_id("").is_some() { return Err("an element that is none".to_string()); }
    if d.get_processor_by_id("nowhere").is_some() || d.get_processor_by_id("").is_some() || d.get_declaration_by_id("nowhere").is_some() || d.get_declaration_by_id("").is_some() { return Err("a processor or declaration that is none".to_string()); }
    Ok(())
}
const FULL: usize = 65536;

pub fn c21(c: &Ctx) -> Run {
    let n = IDS.len() * 2 + 1;
    let depth = c.pick(5, 6);
    c.bound(&format!("stores of u8 and u16 keys, empty and holding 250 to 256 (65533 to 65536) items: all histories of {} additions of {} items with and without an identifier, and removals", depth, n));
    let fills = [0usize, 1, 250, 253, 254, 255, 256];
    c.sweep("store", fills.len() as u64 * (n as u64).pow(depth as u32 - if c.quick() { 1 } else { 0 }), |i, k| {
        let fill = fills[(i % 7) as usize];
        //with a store to fill, shorter
        let h = digits(i / 7, n, depth - if c.quick() { 1 } else { 0 });
        let h = if fill > 1 { &h[..h.len() - 1] } else { &h[..] };
        if fill > 1 && (i / 7) / (n as u64).pow(h.len() as u32) != 0 { return Ok(()); }
        k.describe(format!("u8 keys, {} items, {:?}", fill, h));
        k.states += 1; k.transitions += h.len() as u64; k.traces += 1;
        let o = own::<u8>(fill, 256, h)?; k.outcome(&o);
        if fill <= 1 { own::<u32>(fill, FULL * FULL, h)?; own::<usize>(fill, usize::MAX, h)?; }
        Ok(())
    });
    let d16 = 3usize;
    c.sweep("store of u16 keys", 4 * (n as u64).pow(d16 as u32 - 1), |i, k| {
        let fill = FULL - (i % 4) as usize;
        let h = digits(i / 4, n, d16 - 1);
        k.describe(format!("u16 keys, {} items, {:?}", fill, h));
        k.states += 1; k.transitions += h.len() as u64; k.traces += 1;
        let o = own16(fill, &h)?; k.outcome(&o);
        Ok(())
    });
    let m = STRS.len() + 7;
    let sd = c.pick(5, 6);
    c.bound(&format!("string stores (classes, subsets, and one of u8 keys), empty and nearly full: all histories of {} additions of {} strings", sd, m));
    c.sweep("strings", (m as u64).pow(sd as u32 - 1), |i, k| {
        for last in 0..m {
            let mut h = digits(i, m, sd - 1);
            h.push(last);
            k.describe(format!("{:?}", h));
            k.states += 1; k.transitions += h.len() as u64; k.traces += 1;
            let o = strings::<u32, _>(&mut ClassStore::default(), 0, usize::MAX, &h)?; k.outcome(&o);
            if i < (m as u64).pow(3) {
                strings::<u16, _>(&mut SubsetStore::default(), 0, FULL, &h)?;
                for fill in [250, 254, 255, 256] { strings::<u8, _>(&mut MyS { items: vec![], index: HashMap::new() }, fill, 256, &h[..4])?; }
            }
        }
        Ok(())
    });
    c.sweep("subsets, full", 4 * (m as u64).pow(2), |i, k| {
        let h = digits(i / 4, m, 2);
        k.states += 1; k.transitions += 2; k.traces += 1;
        k.describe(format!("{} {:?}", i % 4, h));
        let o = strings::<u16, _>(&mut SubsetStore::default(), FULL - (i % 4) as usize, FULL, &h)?; k.outcome(&o);
        Ok(())
    });
    //the stores of a document, nearly full
    type F = fn(&mut Document, usize) -> (String, Result<u64, String>, bool);
    let dd = c.pick(2, 3);
    for (name, nops, f, what) in [("declarations", DECL_OPS, decl_op as F, 0usize), ("processors", PROC_OPS, proc_op as F, 1), ("subsets", SUB_OPS, sub_op as F, 2)] {
        let dd = if what == 2 { dd + 1 } else { dd };
        c.bound(&format!("documents with all but 0 to 3 of the 65536 {} there can be, and with few: all histories of {} of {} operations", name, dd, nops));
        c.sweep(name, 5 * (nops as u64).pow(dd as u32), |i, k| {
            let free = (i % 5) as usize;
            let h = digits(i / 5, nops, dd);
            let few = free == 4;
            let fill = if few { 8 } else { FULL - free };
            let mut d = match what { 0 => fresh(fill, 6, 6)?, 1 => fresh(8, fill, 6)?, _ => fresh(8, 6, fill)? };
            let mut log = vec![];
            for o in h {
                let before = sizes(&d);
                let (op, r, nested) = f(&mut d, o);
                log.push(format!("{} {:?}", op, r));
                k.describe(format!("{} {}: {:?}", fill, name, log));
                k.transitions += 1;
                let after = sizes(&d);
                if r.is_err() && !few && (nested || op.ends_with("of another set")) {
                    //a nested element that takes the last keys before it is refused: a known finding, see known-findings.txt
                    if nested && before != after { c.known.lock().unwrap().push(format!("nested:{}", name)); return Ok(()); }
                    continue;
                }
                if r.is_err() && after != before { return Err(format!("{} is refused, and changes {:?} to {:?}", op, before, after)); }
                if r.is_err() && few { return Err(format!("{} is refused: {:?}", op, r)); }
                if r.is_err() && (op.ends_with("there") || op == "add_class") { return Err(format!("{} is refused: {:?}", op, r)); }
                if after.els < before.els || after.decls < before.decls || after.procs < before.procs { return Err("something is gone".to_string()); }
            }
            consistent(&d, true)?;
            k.outcome(&log); k.states += 1; k.traces += 1;
            Ok(())
        });
    }
    //the stores of a document, from empty, by every route
    let all = DECL_OPS + PROC_OPS + SUB_OPS;
    let ad = c.pick(3, 4);
    c.bound(&format!("documents with few items: all histories of {} of all {} operations", ad, all));
    c.sweep("all", (all as u64).pow(ad as u32 - 1), |i, k| {
        for last in 0..all {
            let mut h = digits(i, all, ad - 1);
            h.push(last);
            let mut d = fresh(4, 6, 3)?;
            let mut log = vec![];
            let mut keys: Vec<(usize, u16, String)> = vec![];
            for o in h {
                let before = sizes(&d);
                let (op, r, _) = if o < DECL_OPS { decl_op(&mut d, o) } else if o < DECL_OPS + PROC_OPS { proc_op(&mut d, o - DECL_OPS) } else { sub_op(&mut d, o - DECL_OPS - PROC_OPS) };
                log.push(format!("{} {:?}", op, r));
                k.describe(format!("{:?}", log));
                k.transitions += 1;
                let after = sizes(&d);
                if r.is_err() && after != before { return Err(format!("{} is refused, and changes {:?} to {:?}", op, before, after)); }
                //what was there stays what it was
                for (w, key, id) in keys.iter() {
                    let now = if *w == 0 { d.get_declaration(*key).and_then(|x| Storable::<u16>::maybe_id(x).map(|s| s.to_string())) } else { d.get_processor(*key).map(|x| x.id.clone()) };
                    if now.as_ref() != Some(id) { return Err(format!("key {} was {} and is now {:?}", key, id, now)); }
                }
                for n in before.decls..after.decls { keys.push((0, n as u16, Storable::<u16>::maybe_id(d.get_declaration(n as u16).ok_or("no declaration")?).ok_or("no identifier")?.to_string())); }
                for n in before.procs..after.procs { keys.push((1, n as u16, d.get_processor(n as u16).ok_or("no processor")?.id.clone())); }
            }
            consistent(&d, false)?;
            k.outcome(&log); k.states += 1; k.traces += 1;
        }
        Ok(())
    });
    let _ = ops::accepts;
    Run { assumptions: &["element and class keys are u32, whose boundary is out of reach"], explanation: "histories of additions are run on the real Store and StringStore code (with small keys, and with the keys of documents) next to a list of what was added; after each step every key and identifier is looked up" }
}
/// as `own`, at the far end of u16 keys (looking up only what is at the ends)
fn own16(fill: usize, h: &[usize]) -> Result<u64, String> {
    let mut s: My<u16> = My { items: vec![], index: HashMap::new() };
    let mut model: Vec<Option<String>> = vec![];
    let mut places: HashMap<String, usize> = HashMap::new();
    for (n, step) in (0..fill).map(|n| (n, None)).chain(h.iter().map(|o| (0, Some(*o)))) {
        let id = match step { None => if n % 3 == 0 { None } else { Some(format!("f{}", n)) }, Some(o) => IDS[(o / 2) % IDS.len()].map(String::from) };
        let known = id.as_ref().and_then(|i| places.get(i).copied());
        let want = known.or(if model.len() < FULL { Some(model.len()) } else { None }).map(|n| n as u16);
        let got = Store::add(&mut s, It { id: id.clone(), payload: 0, key: None }, None).ok();
        if got != want { return Err(format!("adding {:?} gives {:?} rather than {:?} with {} items there", id, got, want, model.len())); }
        if known.is_none() && want.is_some() { if let Some(i) = &id { places.insert(i.clone(), model.len()); } model.push(id); }
        if step.is_none() { continue; }
        if Store::len(&s) != model.len() || Store::iter(&s).count() != model.len() { return Err(format!("it holds {} rather than {}", Store::len(&s), model.len())); }
        for p in (0..10).chain(model.len() - 10..model.len()) {
            let x = Store::get(&s, p as u16).ok_or_else(|| format!("key {} retrieves nothing", p))?;
            if x.id != model[p] || x.key != Some(p as u16) { return Err(format!("key {} retrieves {:?}", p, x)); }
            if let Some(i) = &x.id { if s.id_to_key(i) != Some(p as u16) { return Err(format!("{} is found at {:?}", i, s.id_to_key(i))); } }
        }
        for i in ["a", "b", "", "c"] { if s.id_to_key(i).map(|k| k as usize) != places.get(i).copied() { return Err(format!("{:?} is found at {:?}", i, s.id_to_key(i))); } }
    }
    Ok(hash(&(model.len(), &model[fill..])))
}
