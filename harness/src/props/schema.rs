//! C18: the vocabulary
use super::Run;
use crate::{ctx::*, gen, vocab::*};
use folia::*;
use folia::{AnnotationType as AT, ElementGroup as EG, ElementType as ET};
use std::collections::BTreeSet;
use std::str::FromStr;

fn acc(x: &[AcceptedData]) -> BTreeSet<String> { x.iter().map(|a| match a { AcceptedData::AcceptElementType(t) => format!("{:?}", t), AcceptedData::AcceptElementGroup(g) => format!("group {:?}", g) }).collect() }
fn gacc(x: &[Acc]) -> BTreeSet<String> { x.iter().map(|a| match a { Acc::T(t) => format!("{:?}", t), Acc::G(g) => format!("group {:?}", g) }).collect() }
fn at(x: &[AttribType]) -> BTreeSet<String> { x.iter().map(|a| format!("{:?}", a)).collect() }
pub const GROUPS: [EG; 11] = [EG::Layer, EG::Content, EG::CorrectionChild, EG::HigherOrder, EG::Inline, EG::Span, EG::SpanRole, EG::Structure, EG::Subtoken, EG::TextMarkup, EG::Feature];
macro_rules! is { ($k:expr, $what:expr, $got:expr, $want:expr) => { { $k.transitions += 1; let (g, w) = ($got, $want); if g != w { return Err(format!("{} is {:?} rather than {:?}", $what, g, w)); } } } }

pub fn c18(c: &Ctx) -> Run {
    c.bound(&format!("all {} element types, {} annotation types and {} groups with all of their properties, against the FoLiA 2 tables and each other", ELEMENTS.len(), ANNOTATIONS.len(), GROUPS.len()));
    let spec = Specification::default();
    c.sweep("elements", ELEMENTS.len() as u64, |i, k| {
        let v = &ELEMENTS[i as usize];
        k.describe(format!("{} ({})", v.name, v.tag));
        k.states += 1; k.traces += 1;
        k.outcome(&v.name);
        is!(k, "the number of it", v.et as u8 as u64, i);
        is!(k, "its name", v.et.as_str(), v.tag);
        is!(k, "what it is displayed as", format!("{}", v.et), v.tag.to_string());
        is!(k, "what it turns into", { let s: &str = v.et.into(); s.to_string() }, v.tag.to_string());
        is!(k, "what its name is read as", ET::from_str(v.tag).ok(), v.parses_as);
        is!(k, "its annotation type", v.et.annotationtype(), v.at);
        let fresh = Properties::new(v.et);
        for (which, p) in [("of the specification", spec.get(v.et)), ("made anew", &fresh)].iter() {
            let w = |s: &str| format!("{} {}", s, which);
            is!(k, w("its XML tag"), p.xmltag, v.xmltag);
            is!(k, w("its annotation type"), p.annotationtype, v.propat);
            is!(k, w("what it accepts"), acc(p.accepted_data), gacc(v.acc));
            is!(k, w("what it requires"), acc(p.required_data), gacc(v.reqdata));
            is!(k, w("its required attributes"), at(p.required_attribs), at(v.reqattr));
            is!(k, w("its optional attributes"), at(p.optional_attribs), at(v.optattr));
            is!(k, w("its occurrences"), (p.occurrences, p.occurrences_per_set), (v.occ, v.occset));
            is!(k, w("its text delimiter"), p.textdelimiter, v.delim);
            is!(k, w("printable, speakable, hidden"), (p.printable, p.speakable, p.hidden), (v.printable, v.speakable, v.hidden));
            is!(k, w("xlink, text container, phonetic container"), (p.xlink, p.textcontainer, p.phoncontainer), (v.xlink, v.tc, v.pc));
            is!(k, w("its subset"), p.subset, v.subset);
            is!(k, w("auth, primary, automatic ID, set only, referable"), (p.auth, p.primaryelement, p.auto_generate_id, p.setonly, p.wrefable), (v.auth, v.primary, v.autoid, v.setonly, v.wrefable));
            is!(k, w("its label"), p.label, v.label);
            //the tables that state the same fact
            if !p.xmltag.is_empty() && v.parses_as == Some(v.et) { is!(k, w("its XML tag and its name"), p.xmltag, v.et.as_str()); }
            is!(k, w("its annotation type, twice"), p.annotationtype, v.et.annotationtype());
        }
        for g in GROUPS.iter() {
            let want = v.groups.contains(g);
            is!(k, format!("being in {:?}", g), g.contains(v.et), want);
            is!(k, format!("being in {:?}, asked of it", g), v.et.is_in_group(*g), want);
            is!(k, format!("being listed in {:?}", g), g.elementtypes().iter().filter(|t| **t == v.et).count(), want as usize);
        }
        if v.parses_as.is_some() { is!(k, "types with its name", ELEMENTS.iter().filter(|w| w.tag == v.tag && w.parses_as.is_some()).map(|w| w.parses_as.map(|t| t as u8)).collect::<BTreeSet<_>>().len(), 1); }
        //what the groups say
        if v.groups.contains(&EG::Layer) { is!(k, "the layer of its annotation type", v.et.annotationtype().and_then(|a| a.layertype()), Some(v.et)); }
        if v.groups.contains(&EG::Feature) { is!(k, "having a subset", v.subset.is_some(), v.et != ET::Feature); }
        if v.groups.contains(&EG::Span) {
            let layer = v.et.annotationtype().and_then(|a| a.layertype());
            if let Some(l) = layer { is!(k, "being accepted by its layer", crate::ops::accepts(l, v.et), true); }
            is!(k, "having a layer", layer.is_some(), true);
        }
        Ok(())
    });
    c.sweep("annotations", ANNOTATIONS.len() as u64, |i, k| {
        let a = &ANNOTATIONS[i as usize];
        k.describe(a.name.to_string());
        k.states += 1; k.traces += 1;
        k.outcome(&a.name);
        is!(k, "its name", a.at.as_str(), a.s);
        is!(k, "what it is displayed as", format!("{}", a.at), a.s.to_string());
        is!(k, "what its name is read as", AT::from_str(a.s), Some(a.at));
        is!(k, "what it turns into", { let s: &str = a.at.into(); s.to_string() }, a.s.to_string());
        is!(k, "its primary element", a.at.elementtype(), a.element);
        is!(k, "the element it turns into", { let t: ET = a.at.into(); t }, a.element);
        is!(k, "the name of its element", a.at.as_element_str(), a.element_str);
        is!(k, "its layer", a.at.layertype(), a.layer);
        is!(k, "the annotation type of its primary element", a.at.elementtype().annotationtype(), Some(a.at));
        is!(k, "types with its name", ANNOTATIONS.iter().filter(|b| b.at.as_str() == a.s).count(), 1);
        if let Some(l) = a.at.layertype() { is!(k, "the group of its layer, and whether it accepts the primary element", (EG::Layer.contains(l), crate::ops::accepts(l, a.element)), (true, true)); }
//the specification marks no element of two text markup types as the primary one
        let primary = !matches!(a.at, AT::HYPHENATION | AT::HSPACE);
        is!(k, "the element being marked as primary", spec.get(a.element).primaryelement, primary);
        Ok(())
    });
    c.sweep("groups", GROUPS.len() as u64, |i, k| {
        let g = GROUPS[i as usize];
        k.describe(format!("{:?}", g));
        k.states += 1; k.traces += 1;
        k.outcome(&i);
        is!(k, "its types", g.elementtypes().iter().map(|t| *t as u8).collect::<BTreeSet<_>>(), ELEMENTS.iter().filter(|v| v.groups.contains(&g)).map(|v| v.et as u8).collect::<BTreeSet<_>>());
        Ok(())
    });
    //names that are none
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz-AZ0 ".chars().collect();
    let max = c.pick(3, 4);
    let short = gen::strings(&alpha, max);
    let near: Vec<String> = ELEMENTS.iter().map(|v| v.tag).chain(ANNOTATIONS.iter().map(|a| a.s)).flat_map(|t| {
        let mut o = vec![t.to_string(), t.to_uppercase(), format!("{} ", t), format!(" {}", t), format!("{}s", t), format!("t-{}", t), t.replace("-", ""), t.replace("-", "_"), format!("{}-annotation", t), format!("f:{}", t), format!("{}\u{0}", t)];
        for n in 0..t.len() { o.push(format!("{}{}", &t[..n], &t[n + 1..])); o.push(format!("{}{}{}", &t[..n], &t[n..n + 1], &t[n..])); }
        o
    }).collect();
    let all: Vec<&String> = short.iter().chain(near.iter()).collect();
    c.bound(&format!("names: all {} strings of up to {} of {} characters, and {} strings near a name, read as element and as annotation type", short.len(), max, alpha.len(), near.len()));
    const B: usize = 512;
    c.sweep("names", ((all.len() + B - 1) / B) as u64, |i, k| {
        for s in all.iter().skip(i as usize * B).take(B) {
            k.describe(s.to_string());
            k.states += 1; k.transitions += 2; k.traces += 1;
            let want = ELEMENTS.iter().find(|v| v.tag == s.as_str() && v.parses_as.is_some()).and_then(|v| v.parses_as);
            let got = ET::from_str(s).ok();
            if got != want { return Err(format!("as an element, {:?} is read as {:?} rather than {:?}", s, got, want)); }
            let want = ANNOTATIONS.iter().find(|a| a.s == s.as_str()).map(|a| a.at);
            if AT::from_str(s) != want { return Err(format!("as an annotation type, {:?} is read as {:?} rather than {:?}", s, AT::from_str(s), want)); }
            k.outcome(&(got.map(|g| g as u8), want.is_some()));
        }
        Ok(())
    });
    Run { assumptions: &["harness/src/vocab.rs states the FoLiA 2 specification"], explanation: "every fact that the real tables state of every element type, annotation type and group is compared with a reference table and with the other tables that state the same, and every string of a bounded space is read as a name" }
}
