//! C15: attribution and provenance (and, for C07, refused operations on it)
use super::{io, Run};
use crate::{ctx::*, gen, obs, xml};
use folia::*;
use folia::{AnnotationType as AT, ElementType as ET};

/// A processor to be made
#[derive(Clone)]
struct P { id: &'static str, old: Vec<u16>, new: Vec<P> }
fn p(id: &'static str) -> P { P { id, old: vec![], new: vec![] } }
impl P {
    fn o(mut self, k: u16) -> P { self.old.push(k); self }
    fn n(mut self, x: P) -> P { self.new.push(x); self }
    fn make(&self) -> Processor {
        let mut r = Processor::new(format!("the {}", self.id)).with_id(self.id.into());
        for k in self.old.iter() { r = r.with_existing_subprocessor(*k); }
        for x in self.new.iter() { r = r.with_new_subprocessor(x.make()); }
        r
    }
    fn show(&self) -> String { format!("{}[{:?}{}]", self.id, self.old, self.new.iter().map(|x| format!(" {}", x.show())).collect::<String>()) }
}
fn templates() -> Vec<P> { vec![p("a"), p("b"), p("c").n(p("d")), p("e").o(0), p("c").n(p("a")), p("f").n(p("g").n(p("h")).n(p("b"))), p("f").n(p("g").o(1)).n(p("h").o(0)), p("a").n(p("i")).n(p("j").o(9)), p("b").o(2).n(p("a"))] }
#[derive(Clone)]
enum Op { Add(usize), Sub(u16, usize), Attach(u16, u16), Activate(u16), El(ET, Option<&'static str>, Option<&'static str>), Declare(AT, Option<&'static str>), Apply(Option<usize>, &'static [(AT, Option<&'static str>)]) }
fn ops(small: bool) -> Vec<Op> {
    let t = templates().len();
    let mut o: Vec<Op> = (0..t).map(Op::Add).collect();
    for k in 0..if small { 2 } else { 4 } { for x in 0..t { o.push(Op::Sub(k, x)); } }
    o.push(Op::Sub(9, 0));
    for a in 0..5 { for b in 0..5 { o.push(Op::Attach(a, b)); } }
    for (a, b) in [(0, 9), (9, 0)].iter() { o.push(Op::Attach(*a, *b)); }
    for k in 0..3 { o.push(Op::Activate(k)); }
    for by in [None, Some("a"), Some("b")].iter() { for set in [Some("S"), Some("T")].iter() { o.push(Op::El(ET::PosAnnotation, *set, *by)); } o.push(Op::El(ET::Word, None, *by)); o.push(Op::El(ET::DomainAnnotation, None, *by)); }
    o.push(Op::Declare(AT::POS, Some("S")));
    o.push(Op::Declare(AT::POS, None));
    o.push(Op::Apply(Some(1), &[]));
    o.push(Op::Apply(None, &[(AT::POS, Some("T"))]));
    if !small { o.push(Op::Apply(Some(2), &[(AT::DOMAIN, None), (AT::POS, Some("U"))])); }
    o
}
fn show(o: &Op) -> String {
    let ts = templates();
    match o {
        Op::Add(t) => format!("add processor {}", ts[*t].show()),
        Op::Sub(k, t) => format!("add subprocessor {} to {}", ts[*t].show(), k),
        Op::Attach(a, b) => format!("attach processor {} to {}", b, a),
        Op::Activate(k) => format!("activate {}", k),
        Op::El(t, s, by) => format!("add a {} in set {:?} by {:?}", obs::tag(*t), s, by),
        Op::Declare(a, s) => format!("declare {} {:?}", obs::a(*a).s, s),
        Op::Apply(t, ds) => format!("apply properties with processor {:?} and declarations {:?}", t.map(|t| ts[t].show()), ds.iter().map(|(a, s)| (obs::a(*a).s, s)).collect::<Vec<_>>()),
    }
}
/// The reference: processors with their parents and children, the chain, declarations with annotators, attributions
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M { procs: Vec<(String, Option<u16>, Vec<u16>)>, chain: Vec<u16>, active: Option<u16>, decls: Vec<(String, Option<String>, Vec<u16>)>, els: Vec<Option<String>> }
fn observe(d: &Document) -> Result<M, String> {
    let n = <Document as Store<Processor, u16>>::len(d);
    let mut procs = vec![];
    for k in 0..n as u16 {
        let x = d.get_processor(k).ok_or_else(|| format!("processor {} does not exist", k))?;
        if x.key != Some(k) { return Err(format!("processor {} has key {:?}", k, x.key)); }
        if d.get_processor_key_by_id(&x.id) != Some(k) { return Err(format!("processor {} is not found by its ID {}, but {:?} is", k, x.id, d.get_processor_key_by_id(&x.id))); }
        procs.push((x.id.clone(), x.parent, x.processors.clone()));
    }
    if d.get_processor(n as u16).is_some() || <Document as Store<Processor, u16>>::index(d).len() != n { return Err("there are more processor IDs than processors".into()); }
    Ok(M { procs, chain: d.provenancestore.chain.clone(), active: d.active_processor,
        decls: d.declarations().map(|x| { let x = x.as_ref().unwrap(); (obs::a(x.annotationtype).s.to_string(), x.set.clone(), x.processors.clone()) }).collect(),
        els: (0..obs::n_elements(d)).map(|k| d.get_element(k).unwrap().processor().map(String::from)).collect() })
}
/// every processor exactly once, in the chain or under its parent
fn forest(m: &M) -> Result<(), String> {
    let mut seen = vec![0; m.procs.len()];
    fn walk(m: &M, ks: &[u16], parent: Option<u16>, seen: &mut Vec<u32>, depth: usize) -> Result<(), String> {
        if depth > m.procs.len() { return Err("a processor is part of itself".into()); }
        for k in ks {
            let x = m.procs.get(*k as usize).ok_or_else(|| format!("{:?} lists processor {}, which does not exist", parent, k))?;
            seen[*k as usize] += 1;
            if x.1 != parent { return Err(format!("processor {} is listed under {:?}, but has parent {:?}", k, parent, x.1)); }
            walk(m, &x.2, Some(*k), seen, depth + 1)?;
        }
        Ok(())
    }
    walk(m, &m.chain, None, &mut seen, 0)?;
    match seen.iter().position(|n| *n != 1) { Some(k) => Err(format!("processor {} occurs {} times", k, seen[k])), None => Ok(()) }
}
impl M {
    fn find(&self, id: &str) -> Option<u16> { self.procs.iter().position(|x| x.0 == id).map(|k| k as u16) }
    fn attach(&mut self, a: u16, b: u16) -> Result<(), ()> {
        if a as usize >= self.procs.len() || b as usize >= self.procs.len() { return Err(()); }
        let mut x = Some(a);
        while let Some(k) = x { if k == b { return Err(()); } x = self.procs[k as usize].1; }
        if let Some(o) = self.procs[b as usize].1 { self.procs[o as usize].2.retain(|k| *k != b); }
        self.chain.retain(|k| *k != b);
        self.procs[b as usize].1 = Some(a);
        self.procs[a as usize].2.push(b);
        Ok(())
    }
    fn add(&mut self, parent: Option<u16>, x: &P) -> Result<(), ()> {
        if let Some(k) = parent { if k as usize >= self.procs.len() { return Err(()); } }
        if x.old.iter().any(|k| *k as usize >= self.procs.len()) { return Err(()); }
        let key = match self.find(x.id) { Some(k) => k, None => { self.procs.push((x.id.into(), None, vec![])); if parent.is_none() { self.chain.push(self.procs.len() as u16 - 1); } self.procs.len() as u16 - 1 } };
        if let Some(k) = parent { self.attach(k, key)?; }
        for k in x.old.iter() { self.attach(key, *k)?; }
        for y in x.new.iter() { self.add(Some(key), y)?; }
        Ok(())
    }
    fn declare(&mut self, at: AT, set: Option<&str>) -> usize {
        let name = obs::a(at).s;
        let same: Vec<usize> = (0..self.decls.len()).filter(|k| self.decls[*k].0 == name).collect();
        let k = match same.iter().find(|k| self.decls[**k].1.as_deref() == set) {
            Some(k) => *k,
            None if set.is_none() && same.len() == 1 => same[0],
            None => { self.decls.push((name.into(), set.map(String::from), vec![])); self.decls.len() - 1 }
        };
        if let Some(a) = self.active { self.used(k, a); }
        k
    }
    fn used(&mut self, dec: usize, by: u16) { if !self.decls[dec].2.contains(&by) { self.decls[dec].2.push(by); } }
    fn step(&self, o: &Op) -> Result<M, ()> {
        let mut m = self.clone();
        match o {
            Op::Add(t) => m.add(None, &templates()[*t])?,
            Op::Sub(k, t) => m.add(Some(*k), &templates()[*t])?,
            Op::Attach(a, b) => m.attach(*a, *b)?,
            Op::Activate(k) => m.active = Some(*k),
            Op::Declare(a, s) => { m.declare(*a, *s); }
            Op::Apply(t, ds) => {
                if let Some(t) = t { m.add(None, &templates()[*t])?; m.active = m.find(templates()[*t].id); }
                m.declare(AT::TEXT, Some(folia::DEFAULT_TEXT_SET));
                for (a, s) in ds.iter() { m.declare(*a, *s); }
            }
            Op::El(t, s, by) => {
                let dec = m.declare(obs::v(*t).at.unwrap(), *s);
                let named = by.and_then(|b| m.find(b));
                let who = named.or(m.active).or(if m.decls[dec].2.len() == 1 { Some(m.decls[dec].2[0]) } else { None });
                if let Some(w) = who { if named.is_some() || m.active.is_some() { m.used(dec, w); } }
                let name = who.map(|w| m.procs[w as usize].0.clone());
                m.els.push(name);
            }
        }
        Ok(m)
    }
}
fn apply(d: &mut Document, o: &Op) -> Result<(), FoliaError> {
    match o {
        Op::Add(t) => d.add_processor(templates()[*t].make()).map(|_| ()),
        Op::Sub(k, t) => d.add_subprocessor(*k, templates()[*t].make()).map(|_| ()),
        Op::Attach(a, b) => d.attach_processor(*a, *b),
        Op::Activate(k) => { d.activate_processor(*k); Ok(()) }
        Op::Declare(a, s) => d.declare(*a, &s.map(String::from), &None, &None).map(|_| ()),
        Op::Apply(t, ds) => {
            let mut q = DocumentProperties::default();
            if let Some(t) = t { q = q.with_processor(templates()[*t].make()); }
            for (a, s) in ds.iter() { q = q.with_declaration(*a, s.map(String::from)); }
            d.apply_properties(q)
        }
        Op::El(t, s, by) => {
            let mut x = ElementData::new(*t).with_attrib(Attribute::Class("c".into()));
            if let Some(s) = s { x = x.with_attrib(Attribute::Set(s.to_string())); }
            if let Some(b) = by { x = x.with_attrib(Attribute::Processor(b.to_string())); }
            d.add_element_to(0, x).map(|_| ())
        }
    }
}
const LOADED: &str = "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"><annotations><pos-annotation set=\"S\"><annotator processor=\"a\"/></pos-annotation><pos-annotation set=\"T\"><annotator processor=\"a\"/><annotator processor=\"d\"/></pos-annotation><token-annotation><annotator processor=\"c\"/></token-annotation></annotations><provenance><processor xml:id=\"c\" name=\"the c\"><processor xml:id=\"d\" name=\"the d\"/></processor><processor xml:id=\"a\" name=\"the a\"/></provenance></metadata><text xml:id=\"t\"><w/><domain class=\"c\"/><pos set=\"S\"/><pos set=\"T\"/><pos set=\"T\" processor=\"d\"/><pos set=\"S\" processor=\"c\"/></text></FoLiA>";
fn start(which: usize) -> Document {
    match which {
        0 => Document::new("doc", DocumentProperties::default()).unwrap(),
        1 => Document::new("doc", DocumentProperties::default().with_processor(p("a").n(p("x")).make()).with_declaration(AT::POS, Some("S".into()))).unwrap(),
        2 => io::load(LOADED).unwrap(),
        _ => Document::from_str(LOADED, DocumentProperties::default().with_processor(p("b").make())).unwrap(),
    }
}
fn explore<F>(c: &Ctx, phase: &str, which: usize, ops: &[Op], depth: usize, check: F) where F: Fn(&Document, &mut Document, &Op, &mut Case) -> Result<Option<u64>, String> + Sync {
    c.bfs(phase, ops.len(), depth, |h, k| {
        k.describe(format!("start {}: {}", which, h.iter().map(|o| show(&ops[*o as usize])).collect::<Vec<_>>().join("; ")));
        let mut d = start(which);
        let (last, first) = h.split_last().unwrap();
        for o in first { let _ = apply(&mut d, &ops[*o as usize]); }
        let mut e = start(which);
        for o in first { let _ = apply(&mut e, &ops[*o as usize]); }
        check(&d, &mut e, &ops[*last as usize], k)
    });
}
pub fn c15(c: &Ctx) -> Run {
    let all = ops(c.quick());
    let starts = ["an empty document", "an empty document with an active processor that has a part, and a declaration", "a loaded document with provenance and attributed annotations", "the same, loaded with an active processor"];
    let depth = c.pick(4, 5);
    c.bound(&format!("histories of up to {} of {} operations on processors, declarations and annotations, from each of: {}", depth, all.len(), starts.join("; ")));
    for which in 0..starts.len() {
        explore(c, &format!("history{}", which), which, &all, if which > 0 { depth - 1 } else { depth }, |pre, d, op, k| {
            let m = observe(pre)?;
            forest(&m)?;
            if let Op::Activate(n) = op { if *n as usize >= m.procs.len() { return Ok(None); } }
            let r = apply(d, op);
            let post = observe(d)?;
            for (n, x) in post.procs.iter().enumerate() {
                if d.get_mut_processor(n as u16).map(|y| y.id.clone()).as_ref() != Some(&x.0) || d.get_mut_processor_by_id(&x.0).map(|y| y.key) != Some(Some(n as u16)) { return Err(format!("the changeable processor {} is another", x.0)); }
            }
            if d.get_mut_processor(post.procs.len() as u16).is_some() { return Err("there is a changeable processor too many".into()); }
            forest(&post)?;
            match (&r, m.step(op)) {
                (Ok(()), Ok(w)) => if post != w { return Err(format!("the result is {:?} rather than {:?}", post, w)); },
                (Ok(()), Err(())) => return Err("the operation should be refused".into()),
                (Err(e), Ok(_)) => return Err(format!("refused: {:?}", e)),
                (Err(_), Err(())) => { if post != m { return Err("the refused operation changed something".into()); } return Ok(None); }
            }
            if !matches!(op, Op::Activate(_)) { io::roundtrip(d, &[0], k)?; }
            Ok(Some(hash(&post)))
        });
    }
    //loading
    for f in vec![gen::f_decls(!c.quick()), gen::f_trees(c.pick(3, 4)), gen::f_head_procs(c.pick(3, 4)), gen::f_head_decls()] {
        c.bound(&format!("loading {}: {}, with and without an active processor", f.name, f.what));
        c.sweep(&format!("load-{}", f.name), f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            let d = match io::load(&k.desc) { Ok(d) => d, Err(_) => return Ok(()) };
            let e = Document::from_str(&k.desc, DocumentProperties::default().with_processor(Processor::new("active".into()).with_id("active".into()))).map_err(|e| format!("refused with an active processor: {:?}", e))?;
            k.states += 1; k.transitions += 2; k.traces += 1;
            let (a, b) = (observe(&d)?, observe(&e)?);
            forest(&a)?; forest(&b)?;
            k.outcome(&a.els);
            if a.els != b.els { return Err(format!("with an active processor, the attributions are {:?} rather than {:?}", b.els, a.els)); }
            if a.decls.iter().map(|d| &d.2).ne(b.decls.iter().take(a.decls.len()).map(|d| &d.2)) { return Err("with an active processor, the annotators of declarations differ".into()); }
            if b.procs.len() != a.procs.len() + 1 || b.chain.len() != a.chain.len() + 1 || b.chain[..a.chain.len()] != a.chain[..] || e.active_processor != b.chain.last().copied() { return Err("the active processor is not at the end of the provenance chain".into()); }
            //whatever an annotation is attributed to is listed by its declaration
            for k in 0..obs::n_elements(&d) {
                let el = d.get_element(k).unwrap();
                if let (Some(x), Some(dec), Some(_)) = (el.processor_key(), el.get_declaration(), obs::v(el.elementtype()).at) {
                    if !dec.processors.contains(&x) { return Err(format!("element {} is attributed to processor {}, which its declaration does not list", k, x)); }
                }
            }
            Ok(())
        });
    }
    Run { assumptions: &["features and the parts of span annotations have no attribution of their own"], explanation: "every history of operations is executed on the real document; after each, the processors, their order and nesting, the annotators of declarations and the attribution of every element must be those of a reference model, and they must survive saving and loading" }
}
/// C07 for processors
pub fn refused(c: &Ctx) {
    let all: Vec<Op> = ops(true);
    let depth = c.pick(2, 3);
    c.bound(&format!("processors: histories of up to {} of {} operations on processors, declarations and annotations, on an empty and a loaded document", depth, all.len()));
    for which in [0, 2].iter() {
        explore(c, &format!("processors{}", which), *which, &all, depth, |pre, d, op, k| {
            let m = observe(pre)?;
            if let Op::Activate(n) = op { if *n as usize >= m.procs.len() { return Ok(None); } }
            match apply(d, op) {
                Ok(()) => Ok(Some(hash(&observe(d)?))),
                Err(_) => {
                    k.outcome(&1);
                    let post = observe(d)?;
                    if post != m { return Err(format!("the refused operation turned {:?} into {:?}", m, post)); }
                    let (x, y) = (obs::doc(pre), obs::doc(d));
                    if x != y { return Err(format!("the refused operation changed the document: {} {}", obs::diff_head(&x.head, &y.head), obs::diff(&x.body, &y.body))); }
                    if pre.xml(0, 0).ok() != d.xml(0, 0).ok() { return Err("the refused operation changed the XML".into()); }
                    Ok(None)
                }
            }
        });
    }
}
