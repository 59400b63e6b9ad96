//! C14: declarations and classes; C16: features
use super::{io, Run};
use crate::{ctx::*, gen::{self, e, Ix}, obs, xml::{self, X, XI}};
use folia::*;
use folia::{AnnotationType as AT, AttribType as AA, ElementType as ET};
use std::borrow::Cow;

type S = Option<&'static str>;
#[derive(Clone)]
enum Op { Declare(AT, S, S, S), Low(AT, S, S), Class(u16, &'static str), DClass(u16, &'static str), DSubset(u16, &'static str), DSub(u16, &'static str), El(ET, S, &'static str, bool), Bad(u16) }
fn ops() -> Vec<Op> {
    let mut o = vec![];
    for at in [AT::POS, AT::LEMMA].iter() {
        for set in [None, Some("S"), Some("T"), Some("A")].iter() { for alias in [None, Some("A"), Some("S"), Some("T")].iter() { if *at == AT::POS || (*alias != Some("T") && *set != Some("T")) { o.push(Op::Declare(*at, *set, *alias, None)); } } }
    }
    o.push(Op::Declare(AT::POS, Some("S"), None, Some("text/turtle")));
    o.push(Op::Declare(AT::TEXT, None, None, None));
    o.push(Op::Declare(AT::POS, Some(""), None, None));
    o.push(Op::El(ET::PosAnnotation, Some(""), "x", false));
    for set in [None, Some("S"), Some("A"), Some("")].iter() { o.push(Op::Low(AT::POS, *set, None)); }
    o.push(Op::Low(AT::POS, Some("S"), Some("A")));
    for d in 0..3 { for x in ["x", "y"].iter() { o.push(Op::Class(d, x)); o.push(Op::DClass(d, x)); if d < 2 { o.push(Op::DSubset(d, x)); o.push(Op::DSub(d, x)); } } }
    for s in [None, Some("S"), Some("A"), Some("T")].iter() { for x in ["x", "y"].iter() { o.push(Op::El(ET::PosAnnotation, *s, x, *x == "x")); } }
    o.push(Op::El(ET::LemmaAnnotation, Some("S"), "x", false));
    o.push(Op::El(ET::Word, None, "x", true));
    o.push(Op::El(ET::Entity, Some("S"), "", true));
    o.push(Op::Bad(99));
    o
}
fn show(o: &Op) -> String {
    match o {
        Op::Declare(a, s, l, f) => format!("declare {} {:?} alias {:?} format {:?}", obs::a(*a).s, s, l, f),
        Op::Low(a, s, l) => format!("add declaration {} {:?} alias {:?}", obs::a(*a).s, s, l),
        Op::Class(d, x) => format!("add class {} to {}", x, d), Op::DClass(d, x) => format!("add class {} to declaration {}", x, d),
        Op::DSubset(d, x) => format!("add subset {} to declaration {}", x, d), Op::DSub(d, x) => format!("add feature class {} to declaration {}", x, d),
        Op::El(t, s, x, f) => format!("add a {} set {:?} class {} {}", obs::tag(*t), s, x, if *f { "with a feature f=x" } else { "" }),
        Op::Bad(d) => format!("add class to {}", d),
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct D { at: &'static str, set: Option<String>, alias: Option<String>, format: Option<String>, classes: Vec<String>, subsets: Vec<String>, subs: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M { decls: Vec<D>, els: Vec<(usize, Option<String>, Option<String>)> } //declaration, class, subset
fn put(v: &mut Vec<String>, x: &str) -> u32 { match v.iter().position(|y| y == x) { Some(k) => k as u32, None => { v.push(x.into()); v.len() as u32 - 1 } } }
impl M {
    fn declare(&mut self, at: AT, set: Option<&str>, alias: Option<&str>, format: Option<&str>) -> usize {
        let name = obs::a(at).s;
        let same: Vec<usize> = (0..self.decls.len()).filter(|k| self.decls[*k].at == name).collect();
        if let Some(k) = same.iter().find(|k| self.decls[**k].set.as_deref() == set) { return *k; }
        if set.is_some() { if let Some(k) = same.iter().find(|k| self.decls[**k].alias.as_deref() == set) { return *k; } }
        if set.is_none() && same.len() == 1 { return same[0]; }
        self.decls.push(D { at: name, set: set.map(String::from), alias: alias.map(String::from), format: format.map(String::from), classes: vec![], subsets: vec![], subs: vec![] });
        self.decls.len() - 1
    }
    /// the model after the operation, with the key that it returns
    fn step(&self, o: &Op) -> Result<(M, u32), ()> {
        let mut m = self.clone();
        let n = m.decls.len();
        let k = match o {
            Op::Declare(a, s, l, f) => m.declare(*a, *s, *l, *f) as u32,
            Op::Low(a, s, l) => match m.decls.iter().position(|d| d.at == obs::a(*a).s && d.set.as_deref() == *s) {
                Some(k) => k as u32,
                None => { m.decls.push(D { at: obs::a(*a).s, set: s.map(String::from), alias: l.map(String::from), format: None, classes: vec![], subsets: vec![], subs: vec![] }); n as u32 }
            },
            Op::Class(d, _) | Op::DClass(d, _) | Op::DSubset(d, _) | Op::DSub(d, _) | Op::Bad(d) if *d as usize >= n => return Err(()),
            Op::Class(d, x) | Op::DClass(d, x) => put(&mut m.decls[*d as usize].classes, x),
            Op::DSubset(d, x) => put(&mut m.decls[*d as usize].subsets, x),
            Op::DSub(d, x) => put(&mut m.decls[*d as usize].subs, x),
            Op::Bad(_) => return Err(()),
            Op::El(t, s, x, f) => {
                let d = m.declare(obs::v(*t).at.unwrap(), *s, None, None);
                let class = if x.is_empty() { None } else { put(&mut m.decls[d].classes, x); Some(x.to_string()) };
                m.els.push((d, class, None));
                let k = m.els.len() as u32;
                if *f { put(&mut m.decls[d].subsets, "f"); put(&mut m.decls[d].subs, "x"); m.els.push((d, Some("x".into()), Some("f".into()))); }
                k
            }
        };
        Ok((m, k))
    }
}
/// The declaration to be changed, by its key or (if that is the way to the same one) its identifier
fn dec_mut(d: &mut Document, k: u16) -> Result<&mut Declaration, FoliaError> {
    let id = d.get_declaration(k).and_then(|x| folia::Storable::<u16>::maybe_id(x).map(|x| x.to_string()));
    match id {
        Some(id) if d.get_declaration_key_by_id(&id) == Some(k) => d.get_mut_declaration_by_id(&id),
        _ => d.get_mut_declaration(k),
    }.ok_or(FoliaError::KeyError(String::new()))
}
fn apply(d: &mut Document, o: &Op) -> Result<u32, FoliaError> {
    let st = |s: &S| s.map(String::from);
    match o {
        Op::Declare(a, s, l, f) => d.declare(*a, &st(s), &st(l), &st(f)).map(|k| k as u32),
        Op::Low(a, s, l) => d.add_declaration(Declaration::new(*a, st(s), st(l), None)).map(|k| k as u32),
        Op::Class(k, x) => d.add_class(*k, &x.to_string()),
        Op::Bad(k) => d.add_class(*k, &"x".to_string()),
        Op::DClass(k, x) => dec_mut(d, *k)?.add_class(Cow::Borrowed(x)),
        Op::DSubset(k, x) => d.get_mut_declaration(*k).ok_or(FoliaError::KeyError(String::new()))?.add_subset(Cow::Borrowed(x)).map(|k| k as u32),
        Op::DSub(k, x) => dec_mut(d, *k)?.add_subclass(Cow::Borrowed(x)),
        Op::El(t, s, x, f) => {
            let mut e = ElementData::new(*t);
            if !x.is_empty() { e = e.with_attrib(Attribute::Class(x.to_string())); }
            if let Some(s) = s { e = e.with_attrib(Attribute::Set(s.to_string())); }
            if *f { e = e.add_element(ElementData::new(ET::Feature).with_attrib(Attribute::Subset("f".into())).with_attrib(Attribute::Class("x".into()))); }
            d.add_element_to(0, e)
        }
    }
}
const NAMES: &[&str] = &["x", "y", "f", "current", "zz"];
/// Everything that the document says about its declarations, or what is wrong with it
fn observe(d: &Document) -> Result<M, String> {
    let mut decls = vec![];
    let n = <Document as Store<Declaration, u16>>::len(d) as u16;
    for k in 0..n {
        let x = d.get_declaration(k).ok_or("a declaration is missing")?;
        if x.key != Some(k) { return Err(format!("declaration {} has key {:?}", k, x.key)); }
        let id = Declaration::index_id(x.annotationtype, &x.set.as_deref());
        if d.get_declaration_key_by_id(&id) != Some(k) { return Err(format!("declaration {} is not found by {}, but {:?} is", k, id, d.get_declaration_key_by_id(&id))); }
        fn list<'a>(get: &dyn Fn(u32) -> Option<&'a str>, key: &dyn Fn(&str) -> Option<u32>, what: &str) -> Result<Vec<String>, String> {
            let mut v: Vec<String> = vec![];
            while let Some(s) = get(v.len() as u32) { v.push(s.into()); }
            for n in NAMES { if key(n) != v.iter().position(|x| x == n).map(|k| k as u32) { return Err(format!("{} {} has key {:?} in {:?}", what, n, key(n), v)); } }
            Ok(v)
        }
        decls.push(D { at: obs::a(x.annotationtype).s, set: x.set.clone(), alias: x.alias.clone(), format: x.format.clone(),
            classes: list(&|k| x.get_class(k), &|s| x.class_key(s), "class")?, subsets: list(&|k| x.get_subset(k as u16), &|s| x.subset_key(s).map(|k| k as u32), "subset")?, subs: list(&|k| x.get_subclass(k), &|s| x.subclass_key(s), "feature class")? });
        for n in NAMES { if d.class_key(k, n).ok() != x.class_key(n) { return Err(format!("the document has key {:?} for class {} of declaration {}", d.class_key(k, n), n, k)); } }
    }
    if d.get_declaration(n).is_some() || d.class_key(n, "x").is_ok() { return Err("there is a declaration too many".into()); }
    let mask = d.declarationstore.default_mask();
    for at in [AT::POS, AT::LEMMA, AT::TEXT, AT::TOKEN, AT::SENSE, AT::ENTITY].iter() {
        let same: Vec<usize> = (0..decls.len()).filter(|k| decls[*k].at == obs::a(*at).s).collect();
        let key = if same.len() == 1 { Some(same[0]) } else { None };
        if d.declarationstore.get_default_key(*at).map(|k| k as usize) != key { return Err(format!("the default declaration of {} is {:?} rather than {:?}", obs::a(*at).s, d.declarationstore.get_default_key(*at), key)); }
        if d.get_default_set(*at).map(String::from) != key.and_then(|k| decls[k].set.clone()) { return Err(format!("the default set of {} is {:?}", obs::a(*at).s, d.get_default_set(*at))); }
        for k in same.iter() { if mask.get(*k) != Some(&(same.len() == 1)) { return Err(format!("the default mask has {:?} for {}", mask.get(*k), k)); } }
    }
    if mask.len() != decls.len() { return Err("the default mask has a wrong length".into()); }
    let els = (1..obs::n_elements(d)).map(|k| {
        let x = d.get_element(k).unwrap();
        let dk = x.declaration_key().ok_or_else(|| format!("element {} has no declaration", k))? as usize;
        if x.set().map(String::from) != decls.get(dk).and_then(|y| y.set.clone()) { return Err(format!("the set of element {} is {:?}", k, x.set())); }
        Ok((dk, x.class().map(String::from), x.subset().map(String::from)))
    }).collect::<Result<Vec<_>, String>>()?;
    Ok(M { decls, els })
}
const LOADED: &str = "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"><annotations><pos-annotation set=\"S\" alias=\"A\"/><text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/><lemma-annotation/></annotations></metadata><text xml:id=\"t\"><pos set=\"A\" class=\"y\"/><lemma class=\"x\"/><pos set=\"S\" class=\"x\"/></text></FoLiA>";
fn start(which: usize) -> Document { if which == 0 { Document::new("doc", DocumentProperties::default()).unwrap() } else { io::load(LOADED).unwrap() } }
pub fn c14(c: &Ctx) -> Run {
    let all = ops();
    let depth = c.pick(3, 4);
    c.bound(&format!("histories of up to {} of {} operations that declare, add classes, subsets and feature classes, and add elements, on an empty and on a loaded document", depth, all.len()));
    for which in 0..2 {
        c.bfs(&format!("history{}", which), all.len(), depth, |h, k| {
            k.describe(format!("start {}: {}", which, h.iter().map(|o| show(&all[*o as usize])).collect::<Vec<_>>().join("; ")));
            let mut d = start(which);
            let mut m = observe(&d)?;
            for o in h.iter().take(h.len() - 1) { let _ = apply(&mut d, &all[*o as usize]); }
            if h.len() > 1 { m = observe(&d)?; }
            let op = &all[*h.last().unwrap() as usize];
            let r = apply(&mut d, op);
            let post = observe(&d)?;
            match (r, m.step(op)) {
                (Ok(key), Ok((w, wkey))) => {
                    if post != w { return Err(format!("the result is {:?} rather than {:?}", post, w)); }
                    if key != wkey { return Err(format!("the key is {} rather than {}", key, wkey)); }
                    //once more gives the same
                    if !matches!(op, Op::El(..)) {
                        let again = apply(&mut d, op);
                        if again.as_ref().ok() != Some(&key) { return Err(format!("once more gives {:?} rather than {}", again, key)); }
                        if observe(&d)? != post { return Err("once more changes something".into()); }
                    }
                    Ok(Some(hash(&post)))
                }
                (Err(_), Err(())) => if post == m { Ok(None) } else { Err("the refused operation changed something".into()) },
                (Ok(_), Err(())) => Err("the operation should be refused".into()),
                (Err(e), Ok(_)) => Err(format!("refused: {:?}", e)),
            }
        });
    }
    //what the header and the elements of a loaded document lead to
    for f in vec![gen::f_decls(!c.quick()), gen::f_head_decls()] {
        c.bound(&format!("loading {}: {}", f.name, f.what));
        c.sweep(&format!("load-{}", f.name), f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            let mut d = match io::load(&k.desc) { Ok(d) => d, Err(_) => return Ok(()) };
            k.states += 1; k.transitions += 1; k.traces += 1;
            let n = <Document as Store<Declaration, u16>>::len(&d) as u16;
            let all: Vec<(u16, AT, Option<String>, Option<String>)> = (0..n).map(|k| { let x = d.get_declaration(k).unwrap(); (k, x.annotationtype, x.set.clone(), x.alias.clone()) }).collect();
            k.outcome(&all.iter().map(|x| (obs::a(x.1).s, x.2.clone(), x.3.clone())).collect::<Vec<_>>());
            for (j, at, set, alias) in all.iter() {
                if all.iter().any(|y| y.0 != *j && y.1 == *at && y.2 == *set) { return Err(format!("{} {:?} is declared twice", obs::a(*at).s, set)); }
                if d.declare(*at, set, &None, &None).ok() != Some(*j) { return Err(format!("declaring {} {:?} does not give declaration {}", obs::a(*at).s, set, j)); }
                if let Some(a) = alias { if !all.iter().any(|y| y.1 == *at && (y.2 == *alias || (y.3 == *alias && y.0 < *j))) && d.declare(*at, &Some(a.clone()), &None, &None).ok() != Some(*j) { return Err(format!("declaring {} by alias {} does not give declaration {}", obs::a(*at).s, a, j)); } }
                let only = all.iter().filter(|y| y.1 == *at).count() == 1;
                if only && d.declare(*at, &None, &None, &None).ok() != Some(*j) { return Err(format!("declaring {} without set does not give its only declaration", obs::a(*at).s)); }
                if d.declarationstore.get_default_key(*at) != if only { Some(*j) } else { None } { return Err(format!("the default of {} is {:?}", obs::a(*at).s, d.declarationstore.get_default_key(*at))); }
            }
            if <Document as Store<Declaration, u16>>::len(&d) as u16 != n { return Err("declaring what is declared adds declarations".into()); }
            Ok(())
        });
    }
    Run { assumptions: &["an alias that is also the set of another declaration means that set"], explanation: "every history of operations is executed on the real document; after each, all declarations with their classes, subsets and feature classes (by key and by name), the defaults, the set and class of every element, and the key that was returned must be those of a reference model, and repeating the operation must change nothing" }
}

/// the features directly under an annotation: subset, class
fn features(d: &Document, k: u32) -> Vec<(Option<String>, Option<String>)> {
    d.get_element(k).unwrap().get_features(Cmp::Any).map(|f| (f.element.subset().map(String::from), f.element.class().map(String::from))).collect()
}
fn c16_check(d: &Document, k: &mut Case) -> Result<(), String> {
    for key in 0..obs::n_elements(d) {
        let x = d.get_element(key).unwrap();
        let ed = x.elementdata();
        let want: Vec<(u32, Option<String>, Option<String>)> = (0..ed.len()).filter_map(|i| if let Some(DataType::Element(c)) = ed.get_data_at(i) { let f = d.get_element(*c).unwrap(); if f.elementtype() == ET::Feature { Some((*c, f.subset().map(String::from), f.class().map(String::from))) } else { None } } else { None }).collect();
        let get = |s: Cmp<String>| -> Vec<(u32, Option<String>, Option<String>)> { x.get_features(s).map(|f| (f.element.key().unwrap(), f.element.subset().map(String::from), f.element.class().map(String::from))).collect() };
        k.transitions += 1;
        if get(Cmp::Any) != want { return Err(format!("the features of {} are {:?} rather than {:?}", key, get(Cmp::Any), want)); }
        if want.is_empty() && ed.len() > 3 { continue; }
        let mut subsets: Vec<String> = want.iter().filter_map(|f| f.1.clone()).collect();
        subsets.push("no such subset".into()); subsets.push("f".into()); subsets.push("head".into());
        subsets.sort(); subsets.dedup();
        for s in subsets {
            let w: Vec<_> = want.iter().filter(|f| f.1.as_ref() == Some(&s)).cloned().collect();
            k.transitions += 1;
            if get(Cmp::Is(s.clone())) != w { return Err(format!("the features of {} with subset {} are {:?} rather than {:?}", key, s, get(Cmp::Is(s.clone())), w)); }
            let one = x.get_feature(Cmp::Is(s.clone())).map(|f| f.key().unwrap());
            if one != w.first().map(|f| f.0) { return Err(format!("the feature of {} with subset {} is {:?}", key, s, one)); }
        }
        for (f, _, _) in want.iter() {
            let f = d.get_element(*f).unwrap();
            if f.set() != x.set() && f.attrib(AA::SET).is_none() { if f.declaration_key() == x.declaration_key() { return Err(format!("the set of a feature of {} is {:?}", key, f.set())); } }
        }
        k.outcome(&want.len());
    }
    k.states += 1; k.traces += 1;
    Ok(())
}
/// what features the XML gives the n-th element
fn said(x: &X) -> Vec<(Option<String>, Option<String>)> {
    let mut v = vec![];
    if let Some(vv) = obs::by_tag(&x.tag) { for (a, val) in x.attrs.iter() { if crate::sem::shorthand(vv.et, a) { v.push((Some(a.clone()), Some(val.clone()))); } } }
    for c in x.elems() { if let Some(cv) = obs::by_tag(&c.tag) { if cv.parses_as == Some(ET::Feature) { v.push((c.attr("subset").map(String::from).or(cv.subset.map(String::from)), c.attr("class").map(String::from))); } } }
    v
}
fn all_said(x: &X, out: &mut Vec<(String, Vec<(Option<String>, Option<String>)>)>) { 
    out.push((x.tag.clone(), said(x)));
    for i in x.items.iter() { if let XI::E(c) = i { if obs::by_tag(&c.tag).map_or(false, |v| v.parses_as != Some(ET::Feature)) { all_said(c, out); } } }
}
fn all_had(d: &Document, k: u32, out: &mut Vec<(String, Vec<(Option<String>, Option<String>)>)>) {
    let x = d.get_element(k).unwrap();
    if x.elementtype() == ET::Feature { return; }
    out.push((obs::tag(x.elementtype()).to_string(), features(d, k)));
    let ed = x.elementdata();
    for i in 0..ed.len() { if let Some(DataType::Element(c)) = ed.get_data_at(i) { all_had(d, *c, out); } }
}
/// all sequences of feature operations on annotations in several sets
fn built(c: &Ctx) {
    let sets: [(ET, S); 4] = [(ET::PosAnnotation, Some("P")), (ET::PosAnnotation, Some("Q")), (ET::LemmaAnnotation, Some("P")), (ET::SenseAnnotation, None)];
    let vals = ["a", "b"];
    //operations: add a feature (annotation x subset x class), as part of a new annotation or to an existing one
    let n = sets.len() * 2 * 2 * 2;
    let depth = c.pick(4, 5);
    c.bound(&format!("histories of up to {} of {} additions: a feature with one of 2 subsets and 2 classes, to an existing annotation or as part of a new one, in each of 3 sets of 3 annotation types", depth, n));
    c.bfs("built", n, depth, |h, k| {
        k.describe(format!("{:?}", h));
        let mut d = Document::new("doc", DocumentProperties::default()).unwrap();
        let w = d.add_element_to(0, ElementData::new(ET::Word)).unwrap();
        let mut anns: Vec<(u32, usize, Vec<(String, String)>)> = vec![];
        for o in h {
            let mut ix = Ix(*o as u64);
            let (s, sub, cl, fresh) = (ix.take(4), vals[ix.take(2)], vals[ix.take(2)], ix.take(2) == 1);
            let f = ElementData::new(ET::Feature).with_attrib(Attribute::Subset(sub.into())).with_attrib(Attribute::Class(cl.into()));
            let old = anns.iter_mut().rev().find(|a| a.1 == s);
            match old {
                Some(a) if !fresh => { d.add_element_to(a.0, f).map_err(|e| format!("{:?}", e))?; a.2.push((sub.into(), cl.into())); }
                _ => {
                    let mut x = ElementData::new(sets[s].0).with_attrib(Attribute::Class((if cl == "a" { "b" } else { "c" }).into()));
                    if let Some(n) = sets[s].1 { x = x.with_attrib(Attribute::Set(n.into())); }
                    let key = d.add_element_to(w, x.add_element(f)).map_err(|e| format!("{:?}", e))?;
                    anns.push((key, s, vec![(sub.into(), cl.into())]));
                }
            }
        }
        for (key, s, want) in anns.iter() {
            let got: Vec<(String, String)> = features(&d, *key).into_iter().map(|(a, b)| (a.unwrap_or_default(), b.unwrap_or_default())).collect();
            if got != *want { return Err(format!("the features of {} are {:?} rather than {:?}", key, got, want)); }
            let el = d.get_element(*key).unwrap();
            for sub in vals.iter() {
                let want: Vec<&str> = want.iter().filter(|f| f.0 == *sub).map(|f| f.1.as_str()).collect();
                let got: Vec<String> = el.get_features(Cmp::Is(sub.to_string())).map(|f| f.element.class().unwrap_or("").to_string()).collect();
                if got != want { return Err(format!("the features of {} with subset {} are {:?} rather than {:?}", key, sub, got, want)); }
                //and by query
                for cl in vals.iter().chain(&["c"]) {
                    let mut q = Query::select().element(Cmp::Is(ET::Feature)).contexttype(Cmp::Is(sets[*s].0)).subset(Cmp::Is(sub.to_string())).class(Cmp::Is(cl.to_string()));
                    q = q.set(match sets[*s].1 { Some(n) => Cmp::Is(n.to_string()), None => Cmp::None });
                    let sel = Selector::from_query(&d, &q).map_err(|e| format!("{:?}", e))?;
                    let got = el.select(sel, Recursion::No).count();
                    if got != want.iter().filter(|x| x == &cl).count() { return Err(format!("a query finds {} features {}={} of {}", got, sub, cl, key)); }
                }
            }
        }
        //per set: feature classes are apart from classes, and from those of other sets
        for x in d.declarations().map(|x| x.as_ref().unwrap()) {
            let of: Vec<&(u32, usize, Vec<(String, String)>)> = anns.iter().filter(|a| x.annotationtype == obs::v(sets[a.1].0).at.unwrap() && x.set.as_deref() == sets[a.1].1).collect();
            for v in vals.iter().chain(&["c"]) {
                let classes = of.iter().any(|a| d.get_element(a.0).unwrap().class() == Some(v));
                if x.annotationtype != AT::TEXT && x.class_key(v).is_some() != classes { return Err(format!("class {} of {:?}", v, x.set)); }
                if x.subset_key(v).is_some() != of.iter().any(|a| a.2.iter().any(|f| f.0 == *v)) { return Err(format!("subset {} of {:?}", v, x.set)); }
                if x.subclass_key(v).is_some() != of.iter().any(|a| a.2.iter().any(|f| f.1 == *v)) { return Err(format!("feature class {} of {:?}", v, x.set)); }
            }
        }
        c16_check(&d, k)?;
        //what is saved gives the same features
        let s = io::save(&d, 0)?;
        let d2 = io::load(&s).map_err(|e| format!("{}\n{}", e, s))?;
        let (mut a, mut b) = (vec![], vec![]);
        all_had(&d, 0, &mut a); all_had(&d2, 0, &mut b);
        if a != b { return Err(format!("after saving and loading: {:?} rather than {:?}", b, a)); }
        Ok(Some(hash(&anns)))
    });
}
pub fn c16(c: &Ctx) -> Run {
    built(c);
    let mut fams = gen::families(c.quick());
    fams.push(f_features(!c.quick()));
    for f in fams {
        c.bound(&format!("{}: {}", f.name, f.what));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            let d = match io::load(&k.desc) { Ok(d) => d, Err(e) => return if f.name == "features" && f_features_valid(&x) { Err(format!("refused: {}", e)) } else { Ok(()) } };
            c16_check(&d, k)?;
            let body = x.elems().last().unwrap();
            let (mut a, mut b) = (vec![], vec![]);
            all_said(body, &mut a); all_had(&d, 0, &mut b);
            if a != b { return Err(format!("the features are {:?} rather than {:?}", b, a)); }
            Ok(())
        });
    }
    super::edit::histories_docs(c, "edited", c.pick(1, 2), |d, k| c16_check(d, k));
    Run { assumptions: &["the features that an element of XML gives are its attributes in the shorthand (in their order), and then its feature elements"], explanation: "for every element of every document, the features that the real code finds (all, and by each subset, and one by subset, and by query) are compared with those in the XML or those that were added" }
}
fn f_features_valid(_x: &X) -> bool { true }
/// Annotations in several sets with features as elements and in the shorthand
fn f_features(full: bool) -> gen::Fam {
    let anns: Vec<X> = vec![e("pos").a("set", "P").a("class", "a"), e("pos").a("set", "Q").a("class", "b"), e("lemma").a("set", "P").a("class", "a"), e("sense").a("class", "a"), e("pos").a("set", "P").a("class", "b")];
    //per annotation: shorthand none/head=a/head=b; features: none, subset=a class=a, subset=a class=b, subset=head class=a, headfeat, twice
    let feats: Vec<Vec<X>> = { let f = |s: &str, c: &str| e("feat").a("subset", s).a("class", c); vec![vec![], vec![f("a", "a")], vec![f("a", "b")], vec![f("head", "a")], vec![f("b", "a"), f("a", "a")], vec![f("a", "a"), f("a", "b")]] };
    let combos = 3 * feats.len();
    let num = if full { 3 } else { 2 };
    let n = ((combos * anns.len()) as u64).pow(num);
    gen::Fam { name: "features", what: format!("{} annotations, each in one of {} sets or types, with one of {} lists of features and the shorthand or not", num, anns.len(), feats.len()), n, make: Box::new(move |i| {
        let mut ix = Ix(i);
        let mut w = e("w");
        for _ in 0..num {
            let mut x = ix.pick(&anns).clone();
            let head = ix.take(3);
            if head > 0 { if x.tag != "pos" { return None; } x = x.a("head", ["a", "b"][head - 1]); }
            w = w.e(x.es(ix.pick(&feats).clone()));
        }
        Some(gen::docx(vec![], None, vec![w]))
    }) }
}
/// Runs `check` on every document that is reached by a history of declarations and additions.
pub fn histories_docs<F>(c: &Ctx, phase: &str, depth: usize, check: F) where F: Fn(&Document, &mut Case) -> Result<(), String> + Sync {
    let all = ops();
    c.bound(&format!("{}: documents made by histories of up to {} of {} operations that declare, add classes, subsets and feature classes, and add elements", phase, depth, all.len()));
    for which in 0..2 {
        c.bfs(&format!("{}{}", phase, which), all.len(), depth, |h, k| {
            k.describe(format!("start {}: {}", which, h.iter().map(|o| show(&all[*o as usize])).collect::<Vec<_>>().join("; ")));
            let mut d = start(which);
            for o in h.iter().take(h.len() - 1) { let _ = apply(&mut d, &all[*o as usize]); }
            if apply(&mut d, &all[*h.last().unwrap() as usize]).is_err() { return Ok(None); }
            k.traces += 1;
            check(&d, k)?;
            Ok(Some(hash(&observe(&d)?)))
        });
    }
}
