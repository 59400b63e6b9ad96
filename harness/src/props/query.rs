//! C11: queries
use super::{io, Run};
use crate::{ctx::*, obs, vocab::*, xml};
use folia::*;
use folia::{AnnotationType as AT, ElementGroup as EG, ElementType as ET};

/// everything that a query can ask of an element, as observed
struct E { key: u32, et: ET, set: Option<String>, dec: Option<AT>, class: Option<String>, subset: Option<String>, proc: Option<String>, annotator: Option<String>, ptype: Option<ProcessorType>, conf: Option<f64> }
fn observe(d: &Document) -> Vec<E> {
    (0..obs::n_elements(d)).map(|k| {
        let e = d.get_element(k).unwrap();
        let p = e.processor().and_then(|p| d.get_processor_by_id(p));
        E { key: k, et: e.elementtype(), set: e.set().map(String::from), dec: e.get_declaration().map(|d| d.annotationtype), class: e.class().map(String::from), subset: e.subset().map(String::from), proc: e.processor().map(String::from),
            annotator: p.map(|p| p.name.clone()).or_else(|| match e.attrib(AttribType::ANNOTATOR) { Some(Attribute::Annotator(a)) => Some(a.clone()), _ => None }),
            ptype: p.map(|p| p.processortype).or_else(|| match e.attrib(AttribType::ANNOTATORTYPE) { Some(Attribute::AnnotatorType(a)) => Some(*a), _ => None }),
            conf: match e.attrib(AttribType::CONFIDENCE) { Some(Attribute::Confidence(f)) => Some(*f), _ => None } }
    }).collect()
}
fn holds<T: PartialEq + std::fmt::Debug>(c: &Cmp<T>, v: Option<&T>) -> bool { match c { Cmp::Any => true, Cmp::Some => v.is_some(), Cmp::None => v.is_none(), Cmp::Is(x) => v == Some(x), Cmp::Unmatchable => false } }
/// Which elements match; `None` if the query is ambiguous. The flag says that refusing is acceptable.
fn reference(d: &Document, els: &[E], q: &Query) -> (Option<Vec<u32>>, bool) {
    let feature = matches!(q.subset, Cmp::Some | Cmp::Is(_));
    let source = if feature { &q.contexttype } else { &q.elementtype };
    let at = if let Cmp::Is(t) = source { obs::v(*t).at } else { None };
    let mut restrict: Option<Option<String>> = None; //the set that a class without a set belongs to
    let mut may_refuse = false;
    if let (Cmp::Is(_), false) = (&q.class, matches!(q.set, Cmp::Is(_) | Cmp::Unmatchable)) {
        let sets: Vec<Option<String>> = at.map(|at| d.declarations().map(|x| x.as_ref().unwrap()).filter(|x| x.annotationtype == at).map(|x| x.set.clone()).collect()).unwrap_or_default();
        match (at, &q.set) {
            (Some(_), Cmp::None) => {}
            (Some(_), _) => match sets.len() { 0 => return (Some(vec![]), matches!(q.subset, Cmp::Is(_))), 1 => restrict = Some(sets[0].clone()), _ => return (None, true) },
            _ => return (None, true),
        }
    }
    //a subset belongs to a set as well
    if let (Cmp::Is(_), false) = (&q.subset, matches!(q.set, Cmp::Is(_) | Cmp::Unmatchable)) { may_refuse = true; }
    if let (Cmp::Is(_), Cmp::None, Some(at)) = (&q.class, &q.set, at) { if !d.declarations().any(|x| { let x = x.as_ref().unwrap(); x.annotationtype == at && x.set.is_none() }) { return (Some(vec![]), may_refuse); } }
    let r = els.iter().filter(|e| {
        holds(&q.elementtype, Some(&e.et))
            && match &q.elementgroup { Cmp::Any => true, Cmp::Is(g) => obs::in_group(e.et, *g), Cmp::Some => !obs::v(e.et).groups.is_empty(), Cmp::None => obs::v(e.et).groups.is_empty(), Cmp::Unmatchable => false }
            && holds(&q.set, e.set.as_ref())
            && holds(&q.class, e.class.as_ref())
            && holds(&q.subset, e.subset.as_ref())
            && holds(&q.processor, e.proc.as_ref())
            && holds(&q.annotator, e.annotator.as_ref())
            && holds(&q.annotatortype, e.ptype.as_ref())
            && holds(&q.confidence, e.conf.as_ref())
            //the set, class and subset of a query are those of the annotation type that it is about
            && (at.is_none() || !(matches!(q.set, Cmp::Is(_)) || matches!(q.class, Cmp::Is(_)) || matches!(q.subset, Cmp::Is(_))) || e.dec == at)
            && restrict.as_ref().map_or(true, |s| e.dec == at && e.set == *s)
    }).map(|e| e.key).collect();
    (Some(r), may_refuse)
}
fn blank() -> Query { Query { action: Action::Select, elementtype: Cmp::Any, elementgroup: Cmp::Any, contexttype: Cmp::Any, set: Cmp::Any, class: Cmp::Any, processor: Cmp::Any, subset: Cmp::Any, annotator: Cmp::Any, annotatortype: Cmp::Any, confidence: Cmp::Any } }
const BODY: &str = "<s><w xml:id=\"w1\" class=\"W\" confidence=\"0.5\"><pos class=\"a\" set=\"P\" annotator=\"me\" annotatortype=\"manual\"><feat subset=\"num\" class=\"sing\"/><feat subset=\"gen\" class=\"a\"/></pos><pos class=\"b\" set=\"Q\" processor=\"p1\"><feat subset=\"num\" class=\"plural\"/></pos><pos set=\"P\" confidence=\"1\"/><lemma class=\"a\" set=\"P\" processor=\"p2\"><feat subset=\"num\" class=\"sing\"/><feat subset=\"x\" class=\"b\"/></lemma><lemma class=\"c\"/><sense class=\"a\"><feat subset=\"num\" class=\"b\"/></sense></w><w xml:id=\"w2\" annotator=\"me\" annotatortype=\"auto\" processor=\"p1\"/><entities set=\"P\"><entity class=\"b\" set=\"P\" confidence=\"0.5\"><wref id=\"w1\"/></entity></entities><dependencies><dependency class=\"a\"><hd><wref id=\"w1\"/></hd><dep class=\"a\"><wref id=\"w2\"/></dep></dependency></dependencies></s>";
pub fn docs() -> Vec<String> {
    let prov = "<provenance><processor xml:id=\"p1\" name=\"one\" type=\"manual\"/><processor xml:id=\"p2\" name=\"two\"/></provenance>";
    let mk = |decls: &str, body: &str| format!("<FoLiA xmlns=\"{}\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"><annotations>{}</annotations>{}</metadata><text xml:id=\"t\">{}</text></FoLiA>", xml::NSFOLIA, decls, prov, body);
    vec![
        mk("<token-annotation/><sentence-annotation/><pos-annotation set=\"P\"/><pos-annotation set=\"Q\"/><lemma-annotation set=\"P\"/><lemma-annotation set=\"L\"/><sense-annotation/><entity-annotation set=\"P\"/><dependency-annotation set=\"D\"/>", BODY),
        mk("<token-annotation set=\"W\"><annotator processor=\"p1\"/></token-annotation><sense-annotation><annotator processor=\"p2\"/></sense-annotation>", BODY),
        mk("<pos-annotation set=\"P\"/>", "<s><w><pos class=\"a\"><feat subset=\"num\" class=\"a\"/><feat class=\"b\" subset=\"a\"/></pos></w><w class=\"a\"><pos class=\"b\"/><lemma class=\"b\"><feat subset=\"num\" class=\"b\"/></lemma></w></s>"),
        mk("", "<s><w/></s>"),
    ]
}
pub fn c11(c: &Ctx) -> Run {
    let docs = docs();
    let o = |xs: &[&str]| -> Vec<Cmp<String>> { let mut v = vec![Cmp::Any, Cmp::Some, Cmp::None]; v.extend(xs.iter().map(|s| Cmp::Is(s.to_string()))); v };
    let types: Vec<Cmp<ET>> = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(ET::PosAnnotation), Cmp::Is(ET::Word), Cmp::Is(ET::Feature), Cmp::Is(ET::LemmaAnnotation), Cmp::Is(ET::Entity), Cmp::Is(ET::EntitiesLayer), Cmp::Is(ET::DependencyDependent), Cmp::Is(ET::WordReference), Cmp::Is(ET::SenseAnnotation), Cmp::Is(ET::Chunk), Cmp::Unmatchable];
    let groups: Vec<Cmp<EG>> = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(EG::Inline), Cmp::Is(EG::Span), Cmp::Is(EG::HigherOrder), Cmp::Unmatchable];
    let mut sets = o(&["P", "Q", "D", "zz"]);
    sets.push(Cmp::Unmatchable);
    let mut classes = o(&["a", "b", "sing", "zz"]);
    classes.push(Cmp::Unmatchable);
    let mut subsets = o(&["num", "gen", "zz"]);
    subsets.push(Cmp::Unmatchable);
    let ctxs: Vec<Cmp<ET>> = vec![Cmp::Any, Cmp::Is(ET::PosAnnotation), Cmp::Is(ET::LemmaAnnotation), Cmp::Is(ET::Word), Cmp::Is(ET::Chunk)];
    let mut procs = o(&["p1", "p2", "zz"]);
    procs.push(Cmp::Unmatchable);
    let mut annotators = o(&["me", "one", "zz"]);
    annotators.push(Cmp::Unmatchable);
    let ptypes: Vec<Cmp<ProcessorType>> = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(ProcessorType::Manual), Cmp::Is(ProcessorType::Auto), Cmp::Is(ProcessorType::Generator)];
    let confs: Vec<Cmp<f64>> = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(0.5), Cmp::Is(1.0), Cmp::Is(0.7)];
    let run = |phase: &str, docs: &[String], n: u64, make: &(dyn Fn(u64) -> Query + Sync)| {
        for (j, x) in docs.iter().enumerate() {
            if let Err(e) = io::load(x) { c.violation(phase, format!("refused: {}", e), x.clone()); return }
            const B: u64 = 256;
            c.sweep(&format!("{}{}", phase, j), (n + B - 1) / B, |i, k| {
                let d = io::load(x)?;
                let els = observe(&d);
                let n_el = els.len();
                for i in (i * B)..((i + 1) * B).min(n) {
                let q = make(i);
                k.describe(format!("element {:?} group {:?} set {:?} class {:?} subset {:?} context {:?} processor {:?} annotator {:?} annotatortype {:?} confidence {:?} in {}", q.elementtype, q.elementgroup, q.set, q.class, q.subset, q.contexttype, q.processor, q.annotator, q.annotatortype, q.confidence, x));
                let (want, may) = reference(&d, &els, &q);
                k.states += 1; k.transitions += 1;
                //the query that is run is made with its methods
                let mut b = Query::select();
                if q.elementtype != Cmp::Any { b = b.element(q.elementtype.clone()); }
                if q.elementgroup != Cmp::Any { b = b.elementgroup(q.elementgroup.clone()); }
                if q.contexttype != Cmp::Any { b = b.contexttype(q.contexttype.clone()); }
                if q.set != Cmp::Any { b = b.set(q.set.clone()); }
                if q.class != Cmp::Any { b = b.class(q.class.clone()); }
                if q.subset != Cmp::Any { b = b.subset(q.subset.clone()); }
                if q.processor != Cmp::Any { b = b.processor(q.processor.clone()); }
                if q.annotator != Cmp::Any { b = b.annotator(q.annotator.clone()); }
                if q.annotatortype != Cmp::Any { b = b.annotatortype(q.annotatortype.clone()); }
                if q.confidence != Cmp::Any { b = b.confidence(q.confidence.clone()); }
                match (Selector::from_query(&d, &b), want) {
                    (Err(_), None) => {}
                    (Err(_), Some(_)) if may => {}
                    (Err(e), Some(w)) => return Err(format!("refused ({:?}), although it matches {:?}", e, w)),
                    (Ok(_), None) => return Err("an ambiguous query is not refused".into()),
                    (Ok(s), Some(w)) => {
                        k.traces += 1;
                        let g: Vec<u32> = els.iter().map(|e| e.key).filter(|e| s.matches(&d, &DataType::Element(*e))).collect();
                        k.outcome(&(j, &g));
                        if g != w { return Err(format!("matches {:?} rather than {:?}", g, w)); }
                        if !s.matchable() && !w.is_empty() { return Err(format!("is held to match nothing, but matches {:?}", w)); }
                        let nowhere = |c: &Cmp<String>| matches!(c, Cmp::Unmatchable) || *c == Cmp::Is("zz".to_string());
                        if s.matchable() && (nowhere(&q.set) || nowhere(&q.class) || nowhere(&q.subset) || nowhere(&q.processor)) { return Err("is held to match something, although what it asks for is nowhere in the document".into()); }
                        //a query is about elements, unless text and comments are added to what it selects
                        let text = DataType::Text("x".to_string());
                        let comment = DataType::Comment("x".to_string());
                        if s.matches(&d, &DataType::Element(n_el as u32 + 7)) || s.matches(&d, &DataType::SpanReference(u32::MAX)) { return Err("matches an element that does not exist".into()); }
                        if s.matches(&d, &text) || s.matches(&d, &comment) { return Err("matches text or a comment".into()); }
                        if i % 16 == 0 {
                            let t = s.clone().with_text();
                            let g: Vec<u32> = els.iter().map(|e| e.key).filter(|e| t.matches(&d, &DataType::Element(*e))).collect();
                            if g != w || !t.matches(&d, &text) || t.matches(&d, &comment) { return Err(format!("with text, matches {:?} rather than {:?} and text", g, w)); }
                        }
                        let mut sel: Vec<u32> = d.select_by_key(0, s, Recursion::Always, true, false).take(n_el + 1).map(|e| e.key().unwrap()).collect();
                        sel.sort();
                        if sel != w { return Err(format!("selects {:?} rather than {:?}", sel, w)); }
                    }
                }
                }
                Ok(())
            });
        }
    };
    let dims = [types.len(), groups.len(), sets.len(), classes.len(), subsets.len(), ctxs.len()];
    c.bound(&format!("meaning: in each of {} documents, all queries over {} element types x {} groups x {} sets x {} classes x {} subsets x {} context types", docs.len(), dims[0], dims[1], dims[2], dims[3], dims[4], dims[5]));
    let (ty, gr, se, cl, su, cx) = (types.clone(), groups.clone(), sets.clone(), classes.clone(), subsets.clone(), ctxs.clone());
    run("meaning", &docs, dims.iter().map(|d| *d as u64).product(), &move |i| {
        let mut ix = crate::gen::Ix(i);
        Query { elementtype: ix.pick(&ty).clone(), elementgroup: ix.pick(&gr).clone(), set: ix.pick(&se).clone(), class: ix.pick(&cl).clone(), subset: ix.pick(&su).clone(), contexttype: ix.pick(&cx).clone(), ..blank() }
    });
    let ty: Vec<Cmp<ET>> = if c.quick() { vec![Cmp::Any, Cmp::Is(ET::PosAnnotation), Cmp::Is(ET::Word)] } else { types.clone() };
    let dims = [ty.len(), sets.len(), procs.len(), annotators.len(), ptypes.len(), confs.len()];
    c.bound(&format!("origin: in each of {} documents, all queries over {} element types x {} sets x {} processors x {} annotators x {} annotator types x {} confidences", docs.len(), dims[0], dims[1], dims[2], dims[3], dims[4], dims[5]));
    run("origin", &docs, dims.iter().map(|d| *d as u64).product(), &move |i| {
        let mut ix = crate::gen::Ix(i);
        Query { elementtype: ix.pick(&ty).clone(), set: ix.pick(&sets).clone(), processor: ix.pick(&procs).clone(), annotator: ix.pick(&annotators).clone(), annotatortype: ix.pick(&ptypes).clone(), confidence: ix.pick(&confs).clone(), ..blank() }
    });
    //every comparison
    let all: Vec<Cmp<u8>> = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(1), Cmp::Is(2), Cmp::Unmatchable];
    c.bound("comparisons: every kind of comparison against a missing value, an equal one and another one");
    c.sweep("comparisons", all.len() as u64 * 3, |i, k| {
        let (x, v) = (&all[i as usize / 3], [None, Some(1u8), Some(2)][i as usize % 3]);
        k.describe(format!("{:?} against {:?}", x, v));
        k.states += 1; k.transitions += 1; k.traces += 1;
        if x.matches(v.as_ref()) != holds(x, v.as_ref()) { return Err(format!("the answer is {}", x.matches(v.as_ref()))); }
        if Cmp::<u8>::default() != Cmp::Any { return Err("the default comparison does not match anything".into()); }
        Ok(())
    });
    //every type and group
    let d = io::load(&docs[0]).unwrap();
    let base = obs::n_elements(&d);
    let ets: Vec<ET> = ELEMENTS.iter().map(|v| v.et).collect();
    let gs = [EG::Layer, EG::Content, EG::CorrectionChild, EG::HigherOrder, EG::Inline, EG::Span, EG::SpanRole, EG::Structure, EG::Subtoken, EG::TextMarkup, EG::Feature];
    c.bound(&format!("types: an element of each of the {} types against queries on each type and each of the {} groups", ets.len(), gs.len()));
    c.sweep("types", ets.len() as u64, |i, k| {
        let mut d = io::load(&docs[0])?;
        let t = ets[i as usize];
        k.describe(format!("a {:?}", t));
        let mut x = ElementData::new(t);
        if t == ET::WordReference { x = x.with_attrib(Attribute::Idref("w1".into())); }
        let host = (0..base).find(|h| d.get_element(*h).unwrap().elementtype() == ET::Entity).unwrap();
        let key = d.add_element_to(host, x).map_err(|e| format!("{:?}", e))?;
        for u in ets.iter() {
            let s = Selector::from_query(&d, &Query::select().element(Cmp::Is(*u))).map_err(|e| format!("{:?}", e))?;
            if s.matches(&d, &DataType::Element(key)) != (t == *u) { return Err(format!("query on type {:?} is wrong about it", u)); }
            k.transitions += 1;
        }
        for g in gs.iter() {
            let s = Selector::from_query(&d, &Query::select().elementgroup(Cmp::Is(*g))).map_err(|e| format!("{:?}", e))?;
            if s.matches(&d, &DataType::Element(key)) != obs::in_group(t, *g) { return Err(format!("query on group {:?} is wrong about it", g)); }
            k.transitions += 1;
        }
        k.states += 1; k.traces += 1;
        k.outcome(&i);
        Ok(())
    });
    Run { assumptions: &["the set, class and subset of a query that names an element type (or, for features, a context type) are those of the annotation type of that"], explanation: "every query of the space is compiled and run by the real code against each element of documents with many sets, classes, subsets and processors, and compared with the criteria evaluated on what is observed of the element; a class that could belong to several sets must be refused" }
}
