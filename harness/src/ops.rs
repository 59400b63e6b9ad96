//! Operations that modify documents, snapshots of everything that can be observed, and a reference
//! prediction of what each operation does to the element tree.
use crate::{obs, vocab::*};
use folia::{AnnotationType as AT, Attribute, DataType, Document, ElementData, ElementGroup as EG, ElementType as ET, FoliaError, ReadElement};
use std::collections::BTreeMap;

/// An element under construction
#[derive(Clone, Debug, Default)]
pub struct T { pub et: Option<ET>, pub id: Option<&'static str>, pub set: Option<&'static str>, pub class: Option<&'static str>, pub subset: Option<&'static str>, pub idref: Option<&'static str>, pub items: Vec<TI>, pub helpers: bool }
#[derive(Clone, Debug)]
pub enum TI { New(T), Old(u32), Text(&'static str), Comment(&'static str) }
pub fn t(et: ET) -> T { T { et: Some(et), ..Default::default() } }
impl T {
    pub fn id(mut self, s: &'static str) -> T { self.id = Some(s); self }
    pub fn set(mut self, s: &'static str) -> T { self.set = Some(s); self }
    pub fn oset(mut self, s: Option<&'static str>) -> T { self.set = s; self }
    pub fn class(mut self, s: &'static str) -> T { self.class = Some(s); self }
    pub fn subset(mut self, s: &'static str) -> T { self.subset = Some(s); self }
    pub fn idref(mut self, s: &'static str) -> T { self.idref = Some(s); self }
    pub fn e(mut self, x: T) -> T { self.items.push(TI::New(x)); self }
    pub fn old(mut self, k: u32) -> T { self.items.push(TI::Old(k)); self }
    pub fn text(mut self, s: &'static str) -> T { self.items.push(TI::Text(s)); self }
    pub fn comment(mut self, s: &'static str) -> T { self.items.push(TI::Comment(s)); self }
    /// text and span through the builder's own helpers
    pub fn helpers(mut self) -> T { self.helpers = true; self }
    pub fn refs(mut self, ids: &[&'static str]) -> T { for i in ids { self = self.e(t(ET::WordReference).idref(i)); } self }
    pub fn ety(&self) -> ET { self.et.unwrap() }
    pub fn build(&self) -> ElementData {
        let mut e = ElementData::new(self.ety());
        if let Some(s) = self.id { e = e.with_attrib(Attribute::Id(s.into())); }
        if let Some(s) = self.set { e = e.with_attrib(Attribute::Set(s.into())); }
        if let Some(s) = self.class { e = e.with_attrib(Attribute::Class(s.into())); }
        if let Some(s) = self.subset { e = e.with_attrib(Attribute::Subset(s.into())); }
        if let Some(s) = self.idref { e = e.with_attrib(Attribute::Idref(s.into())); }
        for i in self.items.iter() {
            e = match i {
                TI::New(x) if self.helpers && x.ety() == ET::WordReference && x.items.is_empty() && x.idref.is_some() => e.with_span(&[x.idref.unwrap()]),
                TI::New(x) if self.helpers && x.ety() == ET::TextContent && x.class.is_none() && x.items.len() == 1 => if let TI::Text(s) = x.items[0] { e.with_text(s.to_string()) } else { e.add_element(x.build()) },
                TI::New(x) => e.add_element(x.build()),
                TI::Old(k) => e.with(DataType::Element(*k)),
                TI::Text(s) => e.with(DataType::text(s)),
                TI::Comment(s) => e.with(DataType::comment(s)),
            };
        }
        e
    }
    pub fn size(&self) -> usize { 1 + self.items.iter().map(|i| if let TI::New(x) = i { x.size() } else { 0 }).sum::<usize>() }
    pub fn ids(&self, out: &mut Vec<&'static str>) { out.extend(self.id); for i in self.items.iter() { if let TI::New(x) = i { x.ids(out); } } }
    pub fn olds(&self, out: &mut Vec<u32>) { for i in self.items.iter() { match i { TI::New(x) => x.olds(out), TI::Old(k) => out.push(*k), _ => {} } } }
}
#[derive(Clone, Debug)]
pub enum Op { Add(usize), AddTo(u32, usize), Attach(u32, u32), Detach(u32), Annotate(u32, usize), AnnotateSpan(usize) }
pub fn describe(op: &Op, ts: &[T]) -> String {
    fn d(x: &T) -> String {
        let mut s = format!("<{}", obs::tag(x.ety()));
        for (k, v) in [("xml:id", x.id), ("set", x.set), ("class", x.class), ("subset", x.subset), ("id", x.idref)] { if let Some(v) = v { s += &format!(" {}={}", k, v); } }
        s += ">";
        for i in x.items.iter() { s += &match i { TI::New(x) => d(x), TI::Old(k) => format!("[element {}]", k), TI::Text(t) => format!("{:?}", t), TI::Comment(t) => format!("<!--{}-->", t) }; }
        s + "</>"
    }
    match op { Op::Add(i) => format!("add_element({})", d(&ts[*i])), Op::AddTo(p, i) => format!("add_element_to({}, {})", p, d(&ts[*i])), Op::Attach(p, c) => format!("attach_element({}, {})", p, c), Op::Detach(c) => format!("detach_element({})", c),
        Op::Annotate(p, i) => format!("annotate({}, {})", p, d(&ts[*i])), Op::AnnotateSpan(i) => format!("annotate_span({})", d(&ts[*i])) }
}
/// a key far beyond the elements of any document
pub const FAR: u32 = 4_000_000;
/// stands for the first key that no element of the document has yet
pub const NEXT: u32 = 4_000_001;
/// The operation on a document with `n` elements
pub fn resolve(op: &Op, n: u32) -> Op {
    let f = |k: &u32| if *k == NEXT { n } else { *k };
    match op { Op::AddTo(p, i) => Op::AddTo(f(p), *i), Op::Annotate(p, i) => Op::Annotate(f(p), *i), Op::Attach(p, c) => Op::Attach(f(p), f(c)), Op::Detach(c) => Op::Detach(f(c)), o => o.clone() }
}
pub fn apply(d: &mut Document, op: &Op, ts: &[T]) -> Result<Option<u32>, FoliaError> {
    match &resolve(op, obs::n_elements(d)) {
        Op::Add(i) => d.add_element(ts[*i].build()).map(Some),
        Op::AddTo(p, i) => d.add_element_to(*p, ts[*i].build()).map(Some),
        Op::Attach(p, c) => d.attach_element(*p, *c).map(|_| None),
        Op::Detach(c) => d.detach_element(*c).map(|_| None),
        Op::Annotate(p, i) => d.annotate(*p, ts[*i].build()).map(Some),
        Op::AnnotateSpan(i) => d.annotate_span(ts[*i].build()).map(Some),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum D { E(u32), T(String), C(String) }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct El { pub et: u8, pub parent: Option<u32>, pub data: Vec<D>, pub spans: Vec<u32>, pub attrs: BTreeMap<String, String>, pub set: Option<String>, pub class: Option<String>, pub subset: Option<String>, pub processor: Option<String> }
impl El {
    pub fn ety(&self) -> ET { ELEMENTS[self.et as usize].et }
    pub fn id(&self) -> Option<&str> { self.attrs.get("xml:id").map(|s| s.as_str()) }
    pub fn idref(&self) -> Option<&str> { self.attrs.get("id").map(|s| s.as_str()) }
}
/// Everything that can be observed of a document
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap { pub els: Vec<El>, pub head: obs::Head, pub classes: Vec<Vec<Option<u32>>>, pub ids: Vec<Option<u32>>, pub active: Option<u16>, pub xml: Option<String> }
pub fn snap(d: &Document, ids: &[&str], classes: &[&str]) -> Snap {
    let n = obs::n_elements(d);
    let els = (0..n).map(|k| {
        let e = d.get_element(k).unwrap_or_else(|| panic!("element {} of {} does not exist", k, n));
        assert!(e.key() == Some(k), "element {} has key {:?}", k, e.key());
        let ed = e.elementdata();
        let mut data = vec![];
        let mut spans = vec![];
        assert!(e.parent_key() == ed.parent_key() && e.get_parent().and_then(|p| p.key()) == ed.parent_key(), "element {} has parent {:?}, and get_parent() gives {:?}", k, ed.parent_key(), e.get_parent().and_then(|p| p.key()));
        if let Some(p) = ed.parent_key() {
            let i = e.get_index().unwrap_or_else(|| panic!("element {} has no index in its parent {}", k, p));
            assert!(d.get_element(p).map_or(false, |p| p.elementdata().get_data_at(i) == Some(&DataType::Element(k))), "element {} is not at its index {} in its parent {}", k, i, p);
        } else { assert!(e.get_index().is_none(), "element {} has an index but no parent", k); }
        for i in 0..ed.len() {
            match ed.get_data_at(i) {
                Some(DataType::Element(k)) => data.push(D::E(*k)), Some(DataType::Text(t)) => data.push(D::T(t.clone())), Some(DataType::Comment(t)) => data.push(D::C(t.clone())), Some(DataType::SpanReference(k)) => spans.push(*k),
                x => panic!("unexpected content of element {}: {:?}", k, x),
            }
        }
        El { et: e.elementtype() as u8, parent: ed.parent_key(), data, spans, attrs: obs::attrs(ed), set: e.set().map(String::from), class: e.class().map(String::from), subset: e.subset().map(String::from), processor: e.processor().map(String::from) }
    }).collect();
    let classes = d.declarations().map(|x| { let x = x.as_ref().unwrap(); classes.iter().flat_map(|c| vec![x.class_key(c), x.subset_key(c).map(|k| k as u32), x.subclass_key(c)]).collect() }).collect();
    Snap { els, head: obs::head(d), classes, ids: ids.iter().map(|i| d.get_element_key_by_id(i)).collect(), active: d.active_processor, xml: None }
}
pub fn xml(d: &Document) -> String { match d.xml(0, 0) { Ok(b) => String::from_utf8_lossy(&b).to_string(), Err(e) => format!("{:?}", e) } }

impl Snap {
    pub fn get(&self, k: u32) -> Option<&El> { self.els.get(k as usize) }
    pub fn parent(&self, k: u32) -> Option<u32> { self.get(k).and_then(|e| e.parent) }
    /// ancestors, nearest first (bounded, in case there is a cycle)
    pub fn ancestors(&self, k: u32) -> Vec<u32> {
        let mut v = vec![];
        let mut k = self.parent(k);
        while let Some(p) = k { v.push(p); if v.len() > self.els.len() { break; } k = self.parent(p); }
        v
    }
    pub fn by_id(&self, id: &str) -> Option<u32> { self.els.iter().position(|e| e.id() == Some(id)).map(|k| k as u32) }
    pub fn describe(&self) -> String { self.els.iter().enumerate().map(|(k, e)| format!("{}:{}{}<{}", k, obs::tag(e.ety()), e.id().map(|i| format!("#{}", i)).unwrap_or_default(), e.parent.map(|p| p.to_string()).unwrap_or("-".into()))).collect::<Vec<_>>().join(" ") }

    /// The parts of C05 that hold of every single state
    pub fn tree(&self) -> Result<(), String> {
        let mut seen = vec![0usize; self.els.len()];
        for (k, e) in self.els.iter().enumerate() {
            for d in e.data.iter() { if let D::E(c) = d {
                let ch = self.get(*c).ok_or_else(|| format!("element {} lists element {}, which does not exist", k, c))?;
                if ch.parent != Some(k as u32) { return Err(format!("element {} lists element {}, the parent of which is {:?}", k, c, ch.parent)); }
                seen[*c as usize] += 1;
            } }
        }
        for (k, e) in self.els.iter().enumerate() {
            if seen[k] != e.parent.is_some() as usize { return Err(format!("element {} has parent {:?}, and is listed {} times", k, e.parent, seen[k])); }
            if self.ancestors(k as u32).contains(&(k as u32)) { return Err(format!("element {} is its own ancestor", k)); }
        }
        Ok(())
    }
    /// The element `k` with everything under it was made from `x`.
    pub fn made_from(&self, pre: usize, k: u32, x: &T) -> Result<(), String> {
        let e = self.get(k).ok_or_else(|| format!("element {} does not exist", k))?;
        if (k as usize) < pre { return Err(format!("element {} was there already", k)); }
        if e.ety() != x.ety() { return Err(format!("element {} is a {:?} rather than a {:?}", k, e.ety(), x.ety())); }
        if e.id() != x.id || e.idref() != x.idref { return Err(format!("element {} has ID {:?} and refers to {:?}", k, e.id(), e.idref())); }
        if x.class.is_some() && e.class.as_deref() != x.class { return Err(format!("element {} has class {:?} rather than {:?}", k, e.class, x.class)); }
        if let (Some(s), Some(at)) = (x.set, obs::v(x.ety()).at) { let w = self.resolve_set(at, Some(s)); if e.set != w { return Err(format!("element {} has set {:?} rather than {:?}", k, e.set, w)); } }
        if x.subset.is_some() && e.subset.as_deref() != x.subset { return Err(format!("element {} has subset {:?} rather than {:?}", k, e.subset, x.subset)); }
        if e.data.len() != x.items.len() { return Err(format!("element {} has {} items rather than {}", k, e.data.len(), x.items.len())); }
        for (d, i) in e.data.iter().zip(x.items.iter()) {
            match (d, i) {
                (D::E(c), TI::New(y)) => self.made_from(pre, *c, y)?,
                (D::E(c), TI::Old(o)) if c == o => {}
                (D::T(a), TI::Text(b)) if a == b => {}
                (D::C(a), TI::Comment(b)) if a == b => {}
                _ => return Err(format!("element {} contains {:?} in the place of {:?}", k, d, i)),
            }
        }
        Ok(())
    }
    /// What a successful operation makes of the tree: `parent` is where the new element ends up
    pub fn after(&self, post: &Snap, op: &Op, ts: &[T], key: Option<u32>) -> Result<(), String> {
        let n = self.els.len();
        let mut want: Vec<(Option<u32>, Vec<D>)> = self.els.iter().map(|e| (e.parent, e.data.clone())).collect();
        let unlink = |want: &mut Vec<(Option<u32>, Vec<D>)>, c: u32| { if let Some(p) = want[c as usize].0.take() { want[p as usize].1.retain(|d| *d != D::E(c)); } };
        let mut new = 0;
        match op {
            Op::Attach(p, c) => { unlink(&mut want, *c); want[*c as usize].0 = Some(*p); want[*p as usize].1.push(D::E(*c)); }
            Op::Detach(c) => unlink(&mut want, *c),
            Op::Add(i) | Op::AddTo(_, i) | Op::Annotate(_, i) | Op::AnnotateSpan(i) => {
                let x = &ts[*i];
                let k = key.unwrap();
                post.made_from(n, k, x)?;
                new = x.size();
                let mut olds = vec![];
                x.olds(&mut olds);
                for o in olds { unlink(&mut want, o); want[o as usize].0 = post.parent(o); } //(that the new elements contain it was checked above)
                let p = post.parent(k);
                match op {
                    Op::Add(_) => if p.is_some() { return Err(format!("the new element has parent {:?}", p)); },
                    Op::AddTo(q, _) => if p != Some(*q) { return Err(format!("the new element has parent {:?}", p)); },
                    _ => if p.is_none() { return Err("the new annotation has no parent".into()); },
                }
                if let Some(p) = p {
                    if (p as usize) < n { want[p as usize].1.push(D::E(k)); }
                    else {
                        //a new layer
                        let l = post.get(p).ok_or("the parent of the new element does not exist")?;
                        if !matches!(op, Op::Annotate(..) | Op::AnnotateSpan(_)) || l.data != vec![D::E(k)] { return Err(format!("unexpected new parent {:?}", l)); }
                        let g = l.parent.ok_or("the new layer has no parent")?;
                        if g as usize >= n { return Err("the new layer is under yet another new element".into()); }
                        want[g as usize].1.push(D::E(p));
                        new += 1;
                    }
                }
            }
        }
        if post.els.len() != n + new { return Err(format!("{} elements were added rather than {}", post.els.len() as i64 - n as i64, new)); }
        for (k, w) in want.iter().enumerate() {
            let e = &post.els[k];
            if e.data != w.1 { return Err(format!("element {} contains {:?} rather than {:?}", k, e.data, w.1)); }
            if e.parent != w.0 { return Err(format!("element {} has parent {:?} rather than {:?}", k, e.parent, w.0)); }
            let o = &self.els[k];
            if e.et != o.et || e.attrs != o.attrs || e.class != o.class || e.set != o.set || e.subset != o.subset || e.processor != o.processor { return Err(format!("element {} was changed: {:?} to {:?}", k, o, e)); }
        }
        Ok(())
    }
    /// C09: the elements that refer to each element, by the rule and as observed
    pub fn backrefs(&self) -> Result<(), String> {
        let mut want: Vec<Vec<u32>> = vec![vec![]; self.els.len()];
        for (k, e) in self.els.iter().enumerate() {
            if e.ety() != ET::WordReference { continue; }
            let id = e.idref().ok_or_else(|| format!("word reference {} refers to nothing", k))?;
            let target = self.by_id(id).ok_or_else(|| format!("word reference {} refers to {}, which does not exist", k, id))?;
            if let Some(s) = self.span_of(k as u32) { want[target as usize].push(s); }
            else if e.parent.is_some() && self.ancestors(k as u32).contains(&0) { return Err(format!("word reference {} is not in a span annotation", k)); }
        }
        for (k, e) in self.els.iter().enumerate() {
            let (mut a, mut b) = (e.spans.clone(), want[k].clone());
            a.sort(); a.dedup(); b.sort(); b.dedup();
            if a != b { return Err(format!("element {} refers back to {:?} rather than {:?}", k, a, b)); }
        }
        Ok(())
    }
    pub fn span_of(&self, wref: u32) -> Option<u32> { self.ancestors(wref).into_iter().find(|a| obs::in_group(self.els[*a as usize].ety(), EG::Span)) }
    pub fn below(&self, k: u32) -> Vec<u32> {
        let mut v = vec![];
        let mut todo = vec![k];
        while let Some(x) = todo.pop() { if let Some(e) = self.get(x) { v.push(x); for d in e.data.iter() { if let D::E(c) = d { todo.push(*c); } } } if v.len() > self.els.len() { break; } }
        v
    }
    /// Does the operation move existing word references relative to their span annotations? (see the known findings)
    pub fn moves_refs(&self, op: &Op, ts: &[T]) -> bool {
        let mut moved = vec![];
        match op { Op::Attach(_, c) | Op::Detach(c) => moved.push(*c), Op::Add(i) | Op::AddTo(_, i) | Op::Annotate(_, i) | Op::AnnotateSpan(i) => ts[*i].olds(&mut moved) }
        moved.iter().any(|m| { let b = self.below(*m); b.iter().any(|k| self.els[*k as usize].ety() == ET::WordReference && self.span_of(*k).map_or(true, |s| !b.contains(&s))) })
    }

    // ---- prediction of annotate (C08) ----
    pub fn has_context(&self, k: u32) -> bool { std::iter::once(k).chain(self.ancestors(k)).any(|a| obs::v(self.els[a as usize].ety()).at.is_some()) }
    pub fn in_span(&self, k: u32) -> bool { std::iter::once(k).chain(self.ancestors(k)).any(|a| obs::in_group(self.els[a as usize].ety(), EG::Span)) }
    pub fn resolve_set(&self, at: AT, set: Option<&str>) -> Option<String> {
        let ds: Vec<&obs::Decl> = self.head.decls.iter().filter(|d| d.at == obs::a(at).s).collect();
        match set {
            Some(s) => { if ds.iter().any(|d| d.set.as_deref() == Some(s)) { return Some(s.into()); } if let Some(d) = ds.iter().find(|d| d.alias.as_deref() == Some(s)) { return d.set.clone(); } Some(s.into()) }
            None => if ds.len() == 1 { ds[0].set.clone() } else { None },
        }
    }
    fn valid(&self, x: &T, under: Option<u32>, context: bool, span: bool, ids: &mut Vec<&'static str>) -> Result<(), &'static str> {
        if let Some(i) = x.id { if self.by_id(i).is_some() || ids.contains(&i) { return Err("duplicate ID"); } ids.push(i); }
        if x.ety() == ET::Feature && !context { return Err("feature without context"); }
        if x.ety() == ET::WordReference {
            let i = x.idref.ok_or("no reference")?;
            if self.by_id(i).is_none() && !ids.contains(&i) { return Err("reference to nothing"); }
            if !span { return Err("reference outside a span"); }
        }
        let context = context || obs::v(x.ety()).at.is_some();
        let span = span || obs::in_group(x.ety(), EG::Span);
        for i in x.items.iter() {
            match i {
                TI::New(y) => self.valid(y, under, context, span, ids)?,
                TI::Old(k) => {
                    if self.get(*k).is_none() { return Err("no such child"); }
                    if let Some(u) = under { if u == *k || self.ancestors(u).contains(k) { return Err("cycle"); } }
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// Can the element be inserted under the parent (whether or not the schema allows it)?
    pub fn insertable(&self, x: &T, under: Option<u32>) -> Result<(), &'static str> {
        let mut olds = vec![];
        x.olds(&mut olds);
        let (c, s) = match under { None => (false, x.ety() == ET::WordReference), Some(p) => { if self.get(p).is_none() { return Err("no such parent"); } (self.has_context(p), self.in_span(p)) } };
        self.valid(x, under, c, s, &mut vec![])
    }
    fn fits(x: &T) -> bool { x.items.iter().all(|i| if let TI::New(y) = i { accepts(x.ety(), y.ety()) && Snap::fits(y) } else { true }) }
    /// Where an annotation is to go: the parent, and the layer to be made there (if any), with its set
    pub fn place(&self, p: u32, x: &T) -> Result<(u32, Option<(ET, String)>), &'static str> {
        let pe = self.get(p).ok_or("no such parent")?;
        self.insertable(x, Some(p))?;
        if !Snap::fits(x) { return Err("the content does not fit"); }
        let pv = obs::v(pe.ety());
        if obs::in_group(x.ety(), EG::Span) && (pv.wrefable || obs::in_group(pe.ety(), EG::Structure)) {
            let at = obs::v(x.ety()).at.unwrap();
            let lt = obs::a(at).layer.ok_or("no layer")?;
            let set = self.resolve_set(at, x.set).ok_or("no set")?;
            let at_host = if pv.wrefable {
                let words = self.words(x);
                if words.is_empty() { return Err("spans nothing"); }
                let common: Vec<u32> = self.ancestors(words[0]).into_iter().filter(|a| words.iter().all(|w| self.ancestors(*w).contains(a))).collect();
                common.into_iter().find(|a| { let et = self.els[*a as usize].ety(); obs::in_group(et, EG::Structure) && obs::v(et).acc.iter().any(|c| *c == Acc::T(lt) || (*c == Acc::G(EG::Layer) && obs::in_group(lt, EG::Layer))) }).ok_or("nowhere to go")?
            } else { p };
            self.insertable(x, Some(at_host))?;
            if !accepts(lt, x.ety()) { return Err("not in that layer"); }
            let existing = self.els[at_host as usize].data.iter().find_map(|d| if let D::E(c) = d { let e = &self.els[*c as usize]; if e.ety() == lt && e.set.as_deref() == Some(&set) { Some(*c) } else { None } } else { None });
            match existing { Some(l) => Ok((l, None)), None => { if !accepts(self.els[at_host as usize].ety(), lt) { return Err("no layer there"); } Ok((at_host, Some((lt, set)))) } }
        } else {
            if obs::in_group(x.ety(), EG::Span) && obs::a(obs::v(x.ety()).at.unwrap()).layer.is_none() { return Err("no layer"); }
            if !accepts(pe.ety(), x.ety()) { return Err("not accepted"); }
            Ok((p, None))
        }
    }
    pub fn words(&self, x: &T) -> Vec<u32> {
        x.items.iter().filter_map(|i| match i { TI::New(y) if y.ety() == ET::WordReference => y.idref.and_then(|i| self.by_id(i)), TI::Old(k) => Some(*k), _ => None }).collect()
    }
    pub fn placed(&self, post: &Snap, key: u32, want: &(u32, Option<(ET, String)>)) -> Result<(), String> {
        let p = post.parent(key);
        match &want.1 {
            None => if p != Some(want.0) { return Err(format!("the annotation went into {:?} rather than into {}", p, want.0)); },
            Some((lt, set)) => {
                let l = p.filter(|p| *p as usize >= self.els.len()).ok_or_else(|| format!("the annotation went into {:?} rather than a new layer under {}", p, want.0))?;
                let le = &post.els[l as usize];
                if le.ety() != *lt || le.set.as_deref() != Some(set) || le.parent != Some(want.0) { return Err(format!("the annotation went into a new {:?} with set {:?} under {:?} rather than a {:?} with set {} under {}", le.ety(), le.set, le.parent, lt, set, want.0)); }
            }
        }
        Ok(())
    }
}
pub fn accepts(p: ET, c: ET) -> bool { obs::v(p).acc.iter().any(|a| match a { Acc::T(x) => *x == c, Acc::G(g) => obs::in_group(c, *g) }) }
