//! C10-C12: selections, queries, ancestors
use super::{edit, io, Run};
use crate::{ctx::*, gen, obs, vocab::*, xml};
use folia::*;
use folia::{ElementGroup as EG, ElementType as ET};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dx { E(u32), S(u32), T, C }
/// The document as the reference sees it: per element its type, parent and data in order
pub struct Raw { pub els: Vec<(ET, Option<u32>, Vec<Dx>)> }
pub fn raw(d: &Document) -> Raw {
    Raw { els: (0..obs::n_elements(d)).map(|k| { let e = d.get_element(k).unwrap(); let ed = e.elementdata();
        (e.elementtype(), ed.parent_key(), (0..ed.len()).map(|i| dx(ed.get_data_at(i).unwrap())).collect()) }).collect() }
}
fn dx(i: &DataType) -> Dx { match i { DataType::Element(k) => Dx::E(*k), DataType::SpanReference(k) => Dx::S(*k), DataType::Text(_) => Dx::T, DataType::Comment(_) => Dx::C, DataType::AddElement(_) => panic!("unborn element") } }

/// A selector as a union of simple ones
#[derive(Clone, Debug)]
struct P { kinds: (bool, bool, bool), et: Option<ET>, group: Option<EG>, dead: bool }
type Sel = Vec<P>;
fn p() -> P { P { kinds: (true, false, false), et: None, group: None, dead: false } }
fn real(s: &Sel) -> Selector {
    let one = |x: &P| {
        let mut r = Selector::default();
        if x.kinds.0 && x.kinds.1 && x.kinds.2 { r = Selector::all_data(); } else { if x.kinds.0 { r = Selector::elements(); } if x.kinds.1 { r = r.with_text(); } if x.kinds.2 { r = r.with_comments(); } }
        if let Some(t) = x.et { r = r.element(Cmp::Is(t)); }
        if let Some(g) = x.group { r = r.elementgroup(Cmp::Is(g)); }
        if x.dead { r.class = Cmp::Unmatchable; }
        r
    };
    let mut r = one(&s[0]);
    for x in &s[1..] { r = r.and(one(x)); }
    r
}
fn hits(r: &Raw, s: &Sel, i: Dx) -> bool {
    s.iter().any(|x| match i {
        Dx::E(k) | Dx::S(k) => { let t = r.els[k as usize].0; x.kinds.0 && !x.dead && x.et.map_or(true, |e| e == t) && x.group.map_or(true, |g| obs::in_group(t, g)) }
        Dx::T => x.kinds.1, Dx::C => x.kinds.2,
    })
}
fn selectors() -> Vec<Sel> {
    vec![
        vec![p()],
        vec![P { kinds: (true, true, true), ..p() }],
        vec![P { kinds: (false, true, false), ..p() }],
        vec![P { kinds: (false, true, true), ..p() }],
        vec![P { et: Some(ET::Word), ..p() }],
        vec![P { et: Some(ET::Entity), ..p() }],
        vec![P { group: Some(EG::Span), ..p() }],
        vec![P { group: Some(EG::Structure), ..p() }],
        vec![P { et: Some(ET::Word), group: Some(EG::Span), ..p() }],
        vec![P { et: Some(ET::Word), ..p() }, P { et: Some(ET::Entity), ..p() }],
        vec![P { dead: true, ..p() }],
        vec![P { dead: true, ..p() }, P { et: Some(ET::Entity), ..p() }],
        vec![P { et: Some(ET::WordReference), ..p() }, P { dead: true, ..p() }, P { kinds: (false, false, true), ..p() }],
    ]
}
#[derive(Clone, Debug)]
enum Rec { No, Always, Lim(Vec<Acc>), Exc(Vec<Acc>) }
fn recs() -> Vec<Rec> {
    vec![Rec::No, Rec::Always, Rec::Lim(vec![Acc::T(ET::Sentence), Acc::T(ET::Text)]), Rec::Lim(vec![Acc::G(EG::Structure)]), Rec::Lim(vec![]), Rec::Exc(vec![Acc::T(ET::Word)]), Rec::Exc(vec![Acc::G(EG::Span), Acc::G(EG::Layer)]), Rec::Exc(vec![])]
}
fn real_rec(r: &Rec) -> Recursion {
    let f = |v: &Vec<Acc>| v.iter().map(|a| match a { Acc::T(t) => AcceptedData::AcceptElementType(*t), Acc::G(g) => AcceptedData::AcceptElementGroup(*g) }).collect();
    match r { Rec::No => Recursion::No, Rec::Always => Recursion::Always, Rec::Lim(v) => Recursion::LimitedTo(f(v)), Rec::Exc(v) => Recursion::ExceptFor(f(v)) }
}
fn descends(r: &Rec, t: ET) -> bool {
    let any = |v: &Vec<Acc>| v.iter().any(|a| match a { Acc::T(x) => *x == t, Acc::G(g) => obs::in_group(t, *g) });
    match r { Rec::No => false, Rec::Always => true, Rec::Lim(v) => any(v), Rec::Exc(v) => !any(v) }
}
type Got = (Dx, u32, usize, usize);
fn want(r: &Raw, key: u32, s: &Sel, rec: &Rec, inclusive: bool, refs: bool, root: u32) -> Vec<Got> {
    let mut out = vec![];
    if s.iter().all(|x| x.dead) { return out; }
    let mut seen: Vec<u32> = vec![];
    let (_, parent, _) = &r.els[key as usize];
    if inclusive && (parent.is_some() || key == root) && hits(r, s, Dx::E(key)) { out.push((Dx::E(key), parent.unwrap_or(key), 0, 0)); if refs && obs::in_group(r.els[key as usize].0, EG::Span) { seen.push(key); } }
    fn go(r: &Raw, key: u32, s: &Sel, rec: &Rec, refs: bool, depth: usize, seen: &mut Vec<u32>, out: &mut Vec<Got>) {
        let (t, _, data) = &r.els[key as usize];
        for (i, x) in data.iter().enumerate() {
            let skip = match x { Dx::S(_) if !refs => true, _ => !hits(r, s, *x) };
            if !skip {
                let once = match x { Dx::S(k) => Some(*k), Dx::E(k) if refs && obs::in_group(r.els[*k as usize].0, EG::Span) => Some(*k), _ => None };
                match once { Some(k) => if !seen.contains(&k) { seen.push(k); out.push((*x, key, i, depth)); }, None => out.push((*x, key, i, depth)) }
            }
            if let Dx::E(k) = x { if descends(rec, *t) { go(r, *k, s, rec, refs, depth + 1, seen, out); } }
        }
    }
    go(r, key, s, rec, refs, 1, &mut seen, &mut out);
    out
}
fn check10(d: &Document, sels: &[Sel], recs: &[Rec], inc: &[(bool, bool)], c: &mut Case) -> Result<(), String> {
    let r = raw(d);
    let reals: Vec<Selector> = sels.iter().map(real).collect();
    let realrecs: Vec<Recursion> = recs.iter().map(real_rec).collect();
    for key in 0..r.els.len() as u32 {
        let el = d.get_element(key).unwrap();
        for (s, rs) in sels.iter().zip(reals.iter()) { for (rec, rr) in recs.iter().zip(realrecs.iter()) { for (inclusive, refs) in inc {
            let w = want(&r, key, s, rec, *inclusive, *refs, 0);
            let bound = r.els.iter().map(|e| e.2.len()).sum::<usize>() + 3;
            let got: Vec<Got> = d.select_data_by_key(key, rs.clone(), rr.clone(), *inclusive, *refs).take(bound).map(|i| (dx(&i), i.parent_key, i.cursor, i.depth)).collect();
            c.transitions += 1;
            let what = || format!("selection under element {} (inclusive {}, span references {}), {:?}, {:?}", key, inclusive, refs, s, rec);
            if got != w { return Err(format!("{}\n got  {:?}\n want {:?}", what(), got, w)); }
            let we: Vec<u32> = w.iter().filter_map(|g| match g.0 { Dx::E(k) | Dx::S(k) => Some(k), _ => None }).collect();
            let ge: Vec<u32> = d.select_by_key(key, rs.clone(), rr.clone(), *inclusive, *refs).take(bound).map(|i| i.key().unwrap()).collect();
            if ge != we { return Err(format!("element {} elements {:?} rather than {:?}", what(), ge, we)); }
            if !*inclusive {
                let g: Vec<Got> = el.select_data(rs.clone(), rr.clone(), *refs).take(bound).map(|i| (dx(&i), i.parent_key, i.cursor, i.depth)).collect();
                if g != w { return Err(format!("Element::select_data: {}\n got  {:?}\n want {:?}", what(), g, w)); }
                if *refs { let g: Vec<u32> = el.select(rs.clone(), rr.clone()).take(bound).map(|i| i.key().unwrap()).collect(); if g != we { return Err(format!("Element::select: {}\n got  {:?}\n want {:?}", what(), g, we)); } }
            }
            if key == 0 {
                let g: Vec<Dx> = d.select_data(rs.clone(), rr.clone(), *refs).take(bound).map(|i| dx(&i)).collect();
                let wd: Vec<Dx> = want(&r, 0, s, rec, false, *refs, 0).iter().map(|g| g.0).collect();
                if g != wd { return Err(format!("Document::select_data: {}\n got  {:?}\n want {:?}", what(), g, wd)); }
                let wd: Vec<u32> = want(&r, 0, s, rec, false, true, 0).iter().filter_map(|g| match g.0 { Dx::E(k) | Dx::S(k) => Some(k), _ => None }).collect();
                let g: Vec<u32> = d.select(rs.clone(), rr.clone()).take(bound).map(|i| i.key().unwrap()).collect();
                if g != wd { return Err(format!("Document::select: {}\n got  {:?}\n want {:?}", what(), g, wd)); }
            }
        } } }
    }
    c.states += 1; c.traces += 1;
    c.outcome(&r.els.iter().map(|e| (e.0 as u8, e.1, e.2.clone())).collect::<Vec<_>>());
    Ok(())
}
/// get_element(s) and get_annotation(s) against the traversal and the sets of the elements
fn check_shortcuts(d: &Document, rec: &Rec, c: &mut Case) -> Result<(), String> {
    let (r, rr) = (raw(d), real_rec(rec));
    let sets = [Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is("P"), Cmp::Is("Q"), Cmp::Is("no such set"), Cmp::Unmatchable];
    for key in 0..r.els.len() as u32 {
        let el = d.get_element(key).unwrap();
        for v in gen::types() { for set in sets.iter() {
            let of_type = want(&r, key, &vec![P { et: Some(v.et), ..p() }], rec, false, true, 0);
            let w: Vec<u32> = of_type.iter().filter_map(|g| match g.0 { Dx::E(k) | Dx::S(k) => Some(k), _ => None }).filter(|k| {
                let e = d.get_element(*k).unwrap();
                let at = e.get_declaration().map(|d| d.annotationtype);
                match set { Cmp::Any => true, Cmp::Some => e.set().is_some(), Cmp::None => e.set().is_none(), Cmp::Is(x) => e.set() == Some(x) && (v.at.is_none() || at == v.at), Cmp::Unmatchable => false }
            }).collect();
            let st = || match set { Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::None => Cmp::None, Cmp::Is(x) => Cmp::Is(x.to_string()), Cmp::Unmatchable => Cmp::Unmatchable };
            let what = || format!("elements {:?} of set {:?} under element {}", v.et, set, key);
            let g: Vec<u32> = el.get_elements(v.et, st(), rr.clone()).take(r.els.len() + 1).map(|i| i.element.key().unwrap()).collect();
            if g != w { return Err(format!("get_elements: {} are {:?} rather than {:?}", what(), g, w)); }
            if el.get_element(v.et, st(), rr.clone()).and_then(|e| e.key()) != w.first().copied() { return Err(format!("get_element: {}: not the first of {:?}", what(), w)); }
            c.transitions += 2;
            if let Some(at) = v.at { if at.elementtype() == v.et {
                let g: Vec<u32> = el.get_annotations(at, st(), rr.clone()).take(r.els.len() + 1).map(|i| i.element.key().unwrap()).collect();
                if g != w { return Err(format!("get_annotations: {} are {:?} rather than {:?}", what(), g, w)); }
                if el.get_annotation(at, st(), rr.clone()).and_then(|e| e.key()) != w.first().copied() { return Err(format!("get_annotation: {}: not the first of {:?}", what(), w)); }
                c.transitions += 2;
            } }
        } }
    }
    c.states += 1; c.traces += 1;
    Ok(())
}
const KINDS: &[&str] = &["w", "s", "entities", "entity", "wref", "#text", "#comment", "pos"];
/// all forests of up to `max` items of the kinds
pub struct Forests { shapes: Vec<Vec<usize>>, per: Vec<u64>, kinds: &'static [&'static str] }
impl Forests {
    pub fn new(max: usize, kinds: &'static [&'static str]) -> Forests { let shapes: Vec<Vec<usize>> = (1..=max).flat_map(|n| gen::forests(n)).collect(); let per = shapes.iter().map(|s| (kinds.len() as u64).pow(s.len() as u32)).collect(); Forests { shapes, per, kinds } }
    pub fn n(&self) -> u64 { self.per.iter().sum() }
    pub fn get(&self, i: u64) -> (Vec<usize>, Vec<&'static str>) {
        let (mut i, mut j) = (i, 0);
        while i >= self.per[j] { i -= self.per[j]; j += 1; }
        let mut ix = gen::Ix(i);
        (self.shapes[j].clone(), self.shapes[j].iter().map(|_| *ix.pick(self.kinds)).collect())
    }
}
/// the XML of a forest: word references point at the elements of the forest in turn; None if it makes no sense
pub fn forest_xml(depths: &[usize], kinds: &[&str]) -> Option<String> {
    let n = depths.len();
    let targets: Vec<usize> = (0..n).filter(|q| kinds[*q] == "w").collect();
    let mut s = String::new();
    let mut open: Vec<&str> = vec![];
    let mut refs = 0;
    for q in 0..n {
        while open.len() > depths[q] { s += &format!("</{}>", open.pop().unwrap()); }
        let k = kinds[q];
        if open.last() == Some(&"#") { return None; }
        match k {
            "#text" => { s += "x"; open.push("#"); }
            "#comment" => { s += "<!--c-->"; open.push("#"); }
            _ => {
                s += &format!("<{}", k);
                if k == "w" { s += &format!(" xml:id=\"x{}\"", q); }
                if k == "wref" { if targets.is_empty() || !open.contains(&"entity") { return None; } s += &format!(" id=\"x{}\"", targets[refs % targets.len()]); refs += 1; }
                if k == "pos" || k == "entity" { s += " class=\"a\""; }
                s += ">";
                open.push(k);
            }
        }
        if open.last() == Some(&"#") { if q + 1 < n && depths[q + 1] > depths[q] { return None; } open.pop(); if q + 1 < n && depths[q + 1] == depths[q] && kinds[q] == "#text" && kinds[q + 1] == "#text" { return None; } }
    }
    while let Some(t) = open.pop() { s += &format!("</{}>", t); }
    Some(format!("<FoLiA xmlns=\"{}\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"/><text xml:id=\"doc.text\">{}</text></FoLiA>", xml::NSFOLIA, s))
}
pub fn c10(c: &Ctx) -> Run {
    let max = c.pick(4, 5);
    let f = Forests::new(max, if c.quick() { KINDS } else { &["w", "s", "entities", "entity", "wref", "#text", "#comment", "pos"] });
    c.bound(&format!("forests: all ordered forests of up to {} items of {:?}; in each, every selection with {} selectors, {} recursion policies, with and without the element itself and span references, under every element", max, f.kinds, selectors().len(), recs().len()));
    let (sels, rs) = (selectors(), recs());
    let all = [(false, true), (true, false), (true, true), (false, false)];
    c.sweep("forests", f.n(), |i, k| {
        let (depths, kinds) = f.get(i);
        let x = match forest_xml(&depths, &kinds) { Some(x) => x, None => return Ok(()) };
        k.describe(x);
        let d = io::load(&k.desc)?;
        check10(&d, &sels, &rs, &all, k)
    });
    //several spans over the same words
    let fam = gen::f_spans(!c.quick());
    c.bound(&format!("{}: {} (all {} of them)", fam.name, fam.what, fam.n));
    c.sweep(fam.name, fam.n, |i, k| {
        let x = match (fam.make)(i) { Some(x) => x, None => return Ok(()) };
        k.describe(xml::write(&x, &xml::PLAIN));
        if let Ok(d) = io::load(&k.desc) { check10(&d, &[sels[0].clone(), sels[5].clone(), sels[6].clone(), sels[9].clone()], &[rs[0].clone(), rs[1].clone(), rs[6].clone()], &all, k)?; }
        Ok(())
    });
    let fam = gen::f_sizes(!c.quick());
    c.bound(&format!("{}: {} (all {} of them)", fam.name, fam.what, fam.n));
    c.sweep(fam.name, fam.n, |i, k| {
        let x = match (fam.make)(i) { Some(x) => x, None => return Ok(()) };
        k.describe(xml::write(&x, &xml::PLAIN));
        let d = io::load(&k.desc)?;
        let n = obs::n_elements(&d);
        check10(&d, &[sels[0].clone(), sels[1].clone(), sels[6].clone()], &[rs[0].clone(), rs[1].clone(), rs[6].clone()], if n > 120 { &all[..1] } else { &all }, k)
    });
    //the shortcuts by type and set
    let docs = super::query::docs();
    c.bound(&format!("shortcuts: get_element(s) and get_annotation(s) on every element of {} documents with several sets, for every element and annotation type, every kind of set and {} recursion policies", docs.len(), rs.len()));
    c.sweep("shortcuts", docs.len() as u64 * rs.len() as u64, |i, k| {
        let (x, rec) = (&docs[i as usize % docs.len()], &rs[i as usize / docs.len()]);
        k.describe(format!("{:?} in {}", rec, x));
        check_shortcuts(&io::load(x)?, rec, k)
    });
    let (a, b) = ([sels[0].clone(), sels[1].clone(), sels[6].clone()], [rs[0].clone(), rs[1].clone()]);
    edit::histories_docs(c, "built", c.pick(2, 2), |d, k| check10(d, &a, &b, &all, k));
    Run { assumptions: &["a recursion policy is about the type of the element that contains an item; depth is the number of elements between the item and the start of the selection, inclusive"], explanation: "every selection is run on the real document and compared, item by item with parent, position and depth, with a direct recursive traversal of the data that each element holds" }
}

// ---- C12 ----
pub fn c12(c: &Ctx) -> Run {
    let max = c.pick(4, 5);
    let f = Forests::new(max, KINDS);
    c.bound(&format!("forests: all ordered forests of up to {} items of {:?}; in each, all ancestors of every element with {} selectors and queries, and the common ancestors of all tuples of up to {} elements (and of one that does not exist)", max, KINDS, selectors().len(), c.pick(2, 3)));
    let triples = !c.quick();
    c.sweep("forests", f.n(), |i, k| {
        let (depths, kinds) = f.get(i);
        let x = match forest_xml(&depths, &kinds) { Some(x) => x, None => return Ok(()) };
        k.describe(x);
        let d = io::load(&k.desc)?;
        check12(&d, triples, k)
    });
    //deeper: chains of every composition
    let depth = c.pick(6u32, 8);
    let tags = ["div", "p", "s", "w"];
    c.bound(&format!("chains: all chains of up to {} elements of {:?}, with two elements at the end", depth, tags));
    let n: u64 = (1..=depth).map(|d| 4u64.pow(d)).sum();
    c.sweep("chains", n, |i, k| {
        let (mut i, mut len) = (i, 1);
        while i >= 4u64.pow(len) { i -= 4u64.pow(len); len += 1; }
        let mut ix = gen::Ix(i);
        let chain: Vec<&str> = (0..len).map(|_| *ix.pick(&tags)).collect();
        let s: String = chain.iter().map(|t| format!("<{}>", t)).collect::<String>() + "<w/><pos class=\"a\"/>" + &chain.iter().rev().map(|t| format!("</{}>", t)).collect::<String>();
        k.describe(format!("<FoLiA xmlns=\"{}\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"/><text xml:id=\"doc.text\">{}</text></FoLiA>", xml::NSFOLIA, s));
        let d = io::load(&k.desc)?;
        check12(&d, false, k)
    });
    let fam = gen::f_sizes(!c.quick());
    c.bound(&format!("{}: {} (those of up to 80 elements)", fam.name, fam.what));
    c.sweep(fam.name, fam.n, |i, k| {
        let x = match (fam.make)(i) { Some(x) => x, None => return Ok(()) };
        k.describe(xml::write(&x, &xml::PLAIN));
        let d = io::load(&k.desc)?;
        if obs::n_elements(&d) > 80 { return Ok(()); }
        check12(&d, false, k)
    });
    edit::histories_docs(c, "built", 2, |d, k| check12(d, false, k));
    Run { assumptions: &[], explanation: "ancestors and common ancestors are requested from the real document for every element and tuple, and compared with the path of parents that is observed" }
}
fn check12(d: &Document, triples: bool, c: &mut Case) -> Result<(), String> {
    let r = raw(d);
    let n = r.els.len() as u32;
    let up = |k: u32| -> Vec<u32> { let mut v = vec![]; let mut k = r.els[k as usize].1; while let Some(p) = k { v.push(p); assert!(v.len() <= n as usize, "cycle"); k = r.els[p as usize].1; } v };
    let paths: Vec<Vec<u32>> = (0..n).map(|k| up(k)).collect();
    let sels = selectors();
    c.states += 1; c.traces += 1;
    c.outcome(&paths);
    for s in sels.iter() {
        let rs = real(s);
        let filt = |v: &Vec<u32>| -> Vec<u32> { v.iter().copied().filter(|a| hits(&r, s, Dx::E(*a))).collect() };
        for k in 0..n {
            let w = filt(&paths[k as usize]);
            let e = d.get_element(k).unwrap();
            let g: Vec<u32> = e.ancestors(rs.clone()).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
            let g2: Vec<u32> = d.ancestors_by_key(k, rs.clone()).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
            c.transitions += 2;
            if g != w || g2 != w { return Err(format!("ancestors of element {} that match {:?}: {:?} / {:?} rather than {:?}", k, s, g, g2, w)); }
        }
        let common = |keys: &[u32]| -> Result<(), String> {
            let real: Vec<u32> = keys.iter().copied().filter(|k| *k < n).collect();
            let w: Vec<u32> = match real.first() { None => vec![], Some(f) => filt(&paths[*f as usize]).into_iter().filter(|a| real.iter().all(|k| paths[*k as usize].contains(a))).collect() };
            let g = d.common_ancestors(rs.clone(), keys);
            if g != w { return Err(format!("common ancestors of {:?} that match {:?}: {:?} rather than {:?}", keys, s, g, w)); }
            Ok(())
        };
        common(&[])?;
        for a in 0..=n { for b in 0..=n {
            common(&[a, b])?;
            c.transitions += 1;
            if triples { for x in 0..=n { common(&[a, b, x])?; c.transitions += 1; } } else { common(&[a, b, a])?; common(&[0, a, b])?; common(&[a, n - 1, b])?; }
        } common(&[a])?; }
    }
    //the high-level functions
    for k in 0..n {
        let e = d.get_element(k).unwrap();
        let par = e.get_parent().and_then(|p| p.key());
        if par != r.els[k as usize].1 || e.parent_key() != par { return Err(format!("parent of element {}: {:?} rather than {:?}", k, par, r.els[k as usize].1)); }
        let idx = r.els[k as usize].1.and_then(|p| r.els[p as usize].2.iter().position(|x| *x == Dx::E(k)));
        if e.get_index() != idx { return Err(format!("index of element {}: {:?} rather than {:?}", k, e.get_index(), idx)); }
        for t in [ET::Text, ET::Sentence, ET::Word, ET::Entity, ET::EntitiesLayer, ET::Division, ET::Paragraph] {
            let w: Vec<u32> = paths[k as usize].iter().copied().filter(|a| r.els[*a as usize].0 == t).collect();
            let g: Vec<u32> = e.get_ancestors(t, Cmp::Any).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
            if g != w || e.get_ancestor(t, Cmp::Any).and_then(|e| e.key()) != w.first().copied() { return Err(format!("ancestors of type {:?} of element {}: {:?} rather than {:?}", t, k, g, w)); }
            for (set, name) in [(Cmp::Some, "some"), (Cmp::None, "no"), (Cmp::Is("E".to_string()), "E")] {
                let w: Vec<u32> = w.iter().copied().filter(|a| { let s = d.get_element(*a).unwrap(); let s = s.set(); match name { "some" => s.is_some(), "no" => s.is_none(), x => s == Some(x) } }).collect();
                let g: Vec<u32> = e.get_ancestors(t, set).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
                if g != w { return Err(format!("ancestors of type {:?} with {} set of element {}: {:?} rather than {:?}", t, name, k, g, w)); }
            }
        }
        for gr in [EG::Structure, EG::Span, EG::Layer, EG::Inline] {
            let w: Vec<u32> = paths[k as usize].iter().copied().filter(|a| obs::in_group(r.els[*a as usize].0, gr)).collect();
            let g: Vec<u32> = e.get_ancestors_by_group(gr, Cmp::Any).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
            if g != w || e.get_ancestor_by_group(gr, Cmp::Any).and_then(|e| e.key()) != w.first().copied() { return Err(format!("ancestors in group {:?} of element {}: {:?} rather than {:?}", gr, k, g, w)); }
            let w: Vec<u32> = w.into_iter().filter(|a| d.get_element(*a).unwrap().set() == Some("E")).collect();
            let g: Vec<u32> = e.get_ancestors_by_group(gr, Cmp::Is("E".into())).take(n as usize + 2).map(|e| e.key().unwrap()).collect();
            if g != w { return Err(format!("ancestors in group {:?} with set E of element {}: {:?} rather than {:?}", gr, k, g, w)); }
            c.transitions += 2;
        }
    }
    Ok(())
}
