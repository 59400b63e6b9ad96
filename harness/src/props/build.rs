//! C22: what is built is what is held
use super::{io, Run};
use crate::gen::Ix;
use crate::{ctx::*, obs};
use folia::*;
use folia::{AnnotationType as AT, ElementType as ET};
use std::collections::BTreeMap;

//the times, as attributes (their type is of another crate)
fn times() -> &'static Vec<Attribute> {
    static T: std::sync::OnceLock<Vec<Attribute>> = std::sync::OnceLock::new();
    T.get_or_init(|| TIMES.iter().map(|t| {
        let d = io::load(&format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"id\" version=\"2.0.0\"><metadata><annotations/></metadata><text xml:id=\"t\"><w xml:id=\"w\" datetime=\"{}\"/></text></FoLiA>", t)).expect("loading a time");
        let a = d.get_element_by_id("w").and_then(|w| w.attrib(folia::AttribType::DATETIME).cloned()).expect("a time");
        assert!(obs::attr(&a) == Some(("datetime", t.to_string())), "{} is read as {:?}", t, a);
        a
    }).collect())
}
macro_rules! time { ($v:expr) => { if let Attribute::DateTime(d) = &times()[$v] { d.clone() } else { unreachable!() } } }
const TYPES: [(ProcessorType, &str); 4] = [(ProcessorType::Auto, "auto"), (ProcessorType::Manual, "manual"), (ProcessorType::Generator, "generator"), (ProcessorType::DataSource, "datasource")];
const FIELDS: [&str; 13] = ["type", "id", "version", "folia_version", "document_version", "command", "host", "user", "begindatetime", "enddatetime", "src", "format", "resourcelink"];
const TIMES: [&str; 2] = ["2020-02-29T23:59:59", "1999-12-31T00:00:00"];
/// the value `v` of a field, and the processor that has it
fn with(p: Processor, f: usize, v: usize) -> (Processor, String) {
    let s = format!("{} & {}", FIELDS[f], v);
    let q = match FIELDS[f] {
        "type" => return (p.with_type(match TYPES[v + 1].1 { "manual" => ProcessorType::Manual, "generator" => ProcessorType::Generator, _ => ProcessorType::DataSource }), TYPES[v + 1].1.to_string()),
        "begindatetime" => return (p.with_begindatetime(time!(v)), TIMES[v].to_string()),
        "enddatetime" => return (p.with_enddatetime(time!(v)), TIMES[v].to_string()),
        "id" => { let s = format!("id{}", v); return (p.with_id(s.clone()), s); }
        "version" => p.with_version(s.clone()), "folia_version" => p.with_folia_version(s.clone()), "document_version" => p.with_document_version(s.clone()), "command" => p.with_command(s.clone()), "host" => p.with_host(s.clone()),
        "user" => p.with_user(s.clone()), "src" => p.with_src(s.clone()), "format" => p.with_format(s.clone()), _ => p.with_resourcelink(s.clone()),
    };
    (q, s)
}
fn fields(p: &Processor) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in [("id", &p.id), ("name", &p.name), ("version", &p.version), ("folia_version", &p.folia_version), ("document_version", &p.document_version), ("command", &p.command), ("host", &p.host), ("user", &p.user), ("src", &p.src), ("format", &p.format), ("resourcelink", &p.resourcelink)] {
        m.insert(k.to_string(), v.clone());
    }
    m.insert("type".into(), obs::ptype(p.processortype).into());
    for (k, v) in [("begindatetime", &p.begindatetime), ("enddatetime", &p.enddatetime)] { m.insert(k.into(), v.map(|t| t.format("%Y-%m-%dT%H:%M:%S").to_string()).unwrap_or_default()); }
    m
}
fn processors(c: &Ctx) {
    let n = FIELDS.len() * 2;
    let depth = c.pick(4, 5);
    c.bound(&format!("processors: all sequences of {} of {} settings of the fields of a processor", depth, n));
    c.sweep("processors", (n as u64).pow(depth as u32 - 1), |i, k| {
        let mut i = Ix(i);
        let mut p = Processor::new("me".to_string());
        let mut m = fields(&p);
        if m["name"] != "me" || m["type"] != "auto" || m.iter().any(|(k, v)| !["id", "name", "type"].contains(&k.as_str()) && !v.is_empty()) { return Err(format!("a new processor has {:?}", m)); }
        let mut h = vec![];
        for _ in 0..depth - 1 { let a = i.take(n); h.push(a); let (q, v) = with(p, a / 2, a % 2); p = q; m.insert(FIELDS[a / 2].into(), v); }
        for a in 0..n {
            let (p, v) = with(p.clone(), a / 2, a % 2);
            let mut m = m.clone();
            m.insert(FIELDS[a / 2].into(), v);
            k.transitions += 1; k.traces += 1;
            let g = fields(&p);
            if g != m { return Err(format!("after {:?} and {}: {:?} rather than {:?}", h.iter().map(|a| FIELDS[a / 2]).collect::<Vec<_>>(), FIELDS[a / 2], g, m)); }
            if !p.processors.is_empty() || p.parent.is_some() || p.key.is_some() || !p.metadata.data.is_empty() { return Err("there is more to the processor than was given".into()); }
        }
        k.states += 1;
        k.outcome(&m);
        //in a document, and saved and loaded
        if h.windows(2).all(|w| w[0] < w[1]) {
            let mut d = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
            let key = d.add_processor(p).map_err(|e| format!("{:?}", e))?;
            let g = d.get_processor(key).map(fields);
            if g.as_ref() != Some(&m) { return Err(format!("added as {:?} rather than {:?}", g, m)); }
            let d = io::load(&io::save(&d, 0)?)?;
            let g = d.get_processor_by_id(&m["id"]).map(fields);
            if g.as_ref() != Some(&m) { return Err(format!("loaded as {:?} rather than {:?}", g, m)); }
            k.transitions += 3;
        }
        Ok(())
    });
    c.bound("automatic processors: new(), this_library(), autofill(), with every field given beforehand");
    c.sweep("automatic", FIELDS.len() as u64 * 2, |i, k| {
        k.states += 1; k.transitions += 4; k.traces += 4;
        let (a, b) = (Processor::new("x".into()), Processor::new("x".into()));
        if a.id == b.id || a.id.is_empty() { return Err(format!("new processors have IDs {:?} and {:?}", a.id, b.id)); }
        let (a, b) = (Processor::this_library(), Processor::this_library());
        if a.id == b.id || a.id.is_empty() { return Err(format!("processors for the library have IDs {:?} and {:?}", a.id, b.id)); }
        let f = fields(&a);
        if f["type"] != "generator" || f["name"].is_empty() || f["version"].is_empty() || f["folia_version"].is_empty() { return Err(format!("the library is {:?}", f)); }
        let (p, _) = with(Processor::new("me".into()), i as usize / 2, i as usize % 2);
        let before = fields(&p);
        let mut d = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
        let key = d.add_processor(p.autofill()).map_err(|e| format!("{:?}", e))?;
        let p = d.get_processor(key).ok_or("not added")?;
        let after = fields(p);
        for f in ["id", "name", "type", "version", "document_version", "src", "format", "resourcelink", "enddatetime"] { if before[f] != after[f] { return Err(format!("autofill() makes {} {:?} rather than {:?}", f, after[f], before[f])); } }
        if after["command"].is_empty() || after["begindatetime"].is_empty() || after["folia_version"] != f["folia_version"] { return Err(format!("autofill() gives {:?}", after)); }
        let subs: Vec<_> = p.processors.iter().map(|k| d.get_processor(*k).map(fields)).collect();
        if subs.len() != 1 || subs[0].as_ref().map(|s| (s["name"].clone(), s["type"].clone())) != Some((f["name"].clone(), "generator".into())) { return Err(format!("autofill() adds {:?}", subs)); }
        let d2 = io::load(&io::save(&d, 0)?)?;
        io::same(&obs::doc(&d2), &obs::doc(&d), "an automatic processor, loaded and saved", "")?;
        k.outcome(&i);
        Ok(())
    });
}

//what an element under construction contains
#[derive(Clone, Debug)]
enum B { Add(ET), Push(DataType), With(DataType), Children(Vec<DataType>), Text(&'static str), Span(&'static [&'static str]), Remove(usize), Parent(Option<u32>), SetParent(Option<u32>), Attr(Attribute) }
fn builders() -> Vec<B> {
    let t = |s: &str| DataType::text(s);
    vec![B::Add(ET::Word), B::Add(ET::Feature), B::Push(t("a")), B::Push(DataType::Element(1)), B::With(t("b")), B::With(DataType::comment("a")), B::With(DataType::SpanReference(1)), B::Children(vec![]), B::Children(vec![t("a"), DataType::Element(2), t("")]),
        B::Text("x"), B::Text(""), B::Span(&[]), B::Span(&["w1", "w2", "w1"]), B::Remove(0), B::Remove(1), B::Remove(usize::MAX), B::Parent(Some(3)), B::SetParent(None), B::Attr(Attribute::Id("i".into())), B::Attr(Attribute::Class("c".into()))]
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Built { items: Vec<String>, parent: Option<u32>, attrs: Vec<String> }
fn item(d: &DataType) -> String {
    match d {
        DataType::Text(s) => format!("text {}", s), DataType::Comment(s) => format!("comment {}", s), DataType::Element(k) => format!("element {}", k), DataType::SpanReference(k) => format!("reference {}", k),
        DataType::AddElement(e) => format!("new {}", built(e)),
    }
}
fn built(e: &ElementData) -> String { format!("{:?} {:?} {:?}", e.elementtype, e.attribs().iter().map(|a| format!("{:?}", a)).collect::<Vec<_>>(), (0..e.len()).map(|i| item(e.get_data_at(i).unwrap())).collect::<Vec<_>>()) }
fn put(el: ElementData, m: &mut Built, b: &B) -> Result<ElementData, String> {
    let no: Vec<String> = vec![];
    let mut el = el;
    Ok(match b {
        B::Add(t) => { m.items.push(format!("new {:?} {:?} {:?}", t, no, no)); el.add_element(ElementData::new(*t)) }
        B::Push(d) => { m.items.push(item(d)); el.push(d.clone()); el }
        B::With(d) => { m.items.push(item(d)); el.with(d.clone()) }
        B::Children(v) => { m.items.extend(v.iter().map(item)); el.with_children(v.clone()) }
        B::Text(s) => { m.items.push(format!("new {:?} {:?} {:?}", ET::TextContent, no, [format!("text {}", s)])); el.with_text(s.to_string()) }
        B::Span(v) => { for s in v.iter() { m.items.push(format!("new {:?} {:?} {:?}", ET::WordReference, [format!("{:?}", Attribute::Idref(s.to_string()))], no)); } el.with_span(v) }
        B::Remove(i) => {
            let want = if *i < m.items.len() { Some(m.items.remove(*i)) } else { None };
            let g = el.remove(*i).map(|d| item(&d));
            if g != want { return Err(format!("removing {} gives {:?} rather than {:?}", i, g, want)); }
            el
        }
        B::Parent(p) => { m.parent = *p; el.with_parent_key(*p) }
        B::SetParent(p) => { m.parent = *p; el.set_parent_key(*p); el }
        B::Attr(a) => { let s = format!("{:?}", a); if !m.attrs.contains(&s) { m.attrs.push(s); } el.with_attrib(a.clone()) }
    })
}
fn check(el: &ElementData, m: &Built) -> Result<(), String> {
    let g = Built { items: (0..el.len()).map(|i| item(el.get_data_at(i).expect("an item"))).collect(), parent: el.parent_key(), attrs: { let mut v: Vec<String> = el.attribs().iter().map(|a| format!("{:?}", a)).collect(); v.sort(); v } };
    let mut m = m.clone();
    m.attrs.sort();
    if g != m { return Err(format!("{:?} rather than {:?}", g, m)); }
    if el.is_empty() != m.items.is_empty() || el.get_data_at(m.items.len()).is_some() || el.get_data_at(usize::MAX).is_some() { return Err(format!("is_empty() or get_data_at() is off for {:?}", m)); }
    for d in [DataType::text("a"), DataType::text("b"), DataType::comment("a"), DataType::Element(1), DataType::Element(2), DataType::SpanReference(1), DataType::text("")] {
        let (g, w) = (el.index(&d), m.items.iter().position(|x| *x == item(&d)));
        if g != w { return Err(format!("index of {:?} in {:?}: {:?} rather than {:?}", item(&d), m.items, g, w)); }
    }
    Ok(())
}
fn elements(c: &Ctx) {
    let ops = builders();
    let depth = c.pick(4, 5);
    c.bound(&format!("elements: all histories of {} of {} operations that give an element under construction contents, a parent or attributes, or take contents away", depth, ops.len()));
    c.sweep("elements", (ops.len() as u64).pow(depth as u32 - 1), |i, k| {
        let mut i = Ix(i);
        let mut el = ElementData::new(ET::Sentence);
        let mut m = Built { items: vec![], parent: None, attrs: vec![] };
        check(&el, &m)?;
        let mut h = vec![];
        for _ in 0..depth - 1 { let o = i.pick(&ops); h.push(o); el = put(el, &mut m, o).map_err(|e| format!("{:?}: {}", h, e))?; }
        for o in ops.iter() {
            let mut m = m.clone();
            k.transitions += 1; k.traces += 1;
            let el = put(el.clone(), &mut m, o).map_err(|e| format!("{:?} {:?}: {}", h, o, e))?;
            check(&el, &m).map_err(|e| format!("{:?} {:?}: {}", h, o, e))?;
        }
        k.states += 1;
        k.outcome(&m);
        Ok(())
    });
}

//documents
#[derive(Clone, Copy)]
enum P { Body(BodyType), Declare(AT, Option<&'static str>), Proc(usize), Auto(bool) }
impl std::fmt::Debug for Bt { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", if let BodyType::Text = self.0 { "text" } else { "speech" }) } }
struct Bt(BodyType);
fn settings() -> Vec<P> {
    vec![P::Body(BodyType::Text), P::Body(BodyType::Speech), P::Declare(AT::POS, Some("A")), P::Declare(AT::POS, Some("B")), P::Declare(AT::POS, None), P::Declare(AT::TEXT, Some("A")), P::Declare(AT::TEXT, None), P::Declare(AT::TOKEN, Some("A")), P::Proc(0), P::Proc(1), P::Auto(false), P::Auto(true)]
}
fn show(p: &P) -> String { match p { P::Body(b) => format!("{:?}", Bt(*b)), P::Declare(a, s) => format!("declare {} {:?}", obs::a(*a).s, s), P::Proc(n) => format!("processor {}", n), P::Auto(b) => format!("autodeclare {}", b) } }
#[derive(Clone)]
struct Want { speech: bool, decls: Vec<(&'static str, Option<String>)>, proc: Option<usize> }
fn documents(c: &Ctx) {
    let ops = settings();
    let depth = c.pick(3, 4);
    //headers to load, with the declarations in them
    let heads: Vec<(&str, Vec<(&'static str, Option<String>)>)> = vec![("", vec![]), ("<pos-annotation set=\"A\"/>", vec![("pos", Some("A".into()))]), ("<text-annotation set=\"A\"/><pos-annotation/>", vec![("text", Some("A".into())), ("pos", None)]), ("<pos-annotation set=\"C\" alias=\"B\"/>", vec![("pos", Some("C".into()))])];
    c.bound(&format!("documents: all sequences of up to {} of {} settings of the properties of a document, new or loaded from each of {} headers", depth, ops.len(), heads.len()));
    let dir = std::env::temp_dir().join(format!("mc-c22-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    for n in 0..=depth {
        c.sweep(&format!("documents/{}", n), (ops.len() as u64).pow(n as u32), |i, k| {
            let id = i;
            let mut i = Ix(i);
            let mut w = Want { speech: false, decls: vec![], proc: None };
            let mut hist = vec![];
            for _ in 0..n {
                let o = *i.pick(&ops);
                hist.push(o);
                match o { P::Body(b) => w.speech = matches!(b, BodyType::Speech), P::Proc(n) => w.proc = Some(n), P::Declare(a, s) => w.decls.push((obs::a(a).s, s.map(String::from))), P::Auto(_) => {} }
            }
            let make = || { let mut p = DocumentProperties::default(); for o in hist.iter() { p = match *o { P::Body(b) => p.with_bodytype(b), P::Declare(a, s) => p.with_declaration(a, s.map(String::from)), P::Auto(b) => p.with_autodeclare(b),
                P::Proc(n) => p.with_processor({ let x = Processor::new("one".into()).with_id(format!("p{}", n)); if n == 1 { x.with_new_subprocessor(Processor::new("two".into()).with_id("sub".into())) } else { x } }) }; } p };
            let h = || hist.iter().map(show).collect::<Vec<_>>().join(", ");
            k.describe(h());
            let deft = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl".to_string();
            for (n, (head, there)) in std::iter::once(&("new", vec![])).chain(heads.iter()).enumerate() {
                let xml = format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"id\" version=\"2.0.0\"><metadata><annotations>{}</annotations></metadata><text xml:id=\"t\"/></FoLiA>", head);
                let path = dir.join(format!("{}-{}.xml", id, n));
                let d = if n == 0 { Document::new("id", make()) } else if n == 1 {
                    std::fs::write(&path, &xml).map_err(|e| e.to_string())?;
                    let d = Document::from_file(path.to_str().unwrap(), make());
                    let _ = std::fs::remove_file(&path);
                    d
                } else { Document::from_str(&xml, make()) }.map_err(|e| format!("[{}] on {:?}: {:?}", h(), head, e))?;
                k.transitions += 1; k.traces += 1;
                let bad = |what: &str, g: String, w: String| Err(format!("[{}] on {:?}: {} is {} rather than {}", h(), head, what, g, w));
                if d.id() != "id" { return bad("the ID", d.id().into(), "id".into()); }
                if d.filename() != (if n == 1 { path.to_str() } else { None }) { return bad("the file name", format!("{:?}", d.filename()), String::new()); }
                let body = d.get_element(0).map(|e| e.elementtype());
                if body != Some(if n == 0 && w.speech { ET::Speech } else { ET::Text }) { return bad("the body", format!("{:?}", body), String::new()); }
                //declarations: those that are there, the default, those that are asked for
                let mut decls = there.clone();
                for x in std::iter::once(("text", Some(deft.clone()))).chain(w.decls.iter().cloned()) {
                    let same: Vec<_> = decls.iter().filter(|y| y.0 == x.0).collect();
                    if same.iter().any(|y| **y == x) || (x.1.is_none() && same.len() == 1) || (head.contains("alias") && x == ("pos", Some("B".into()))) { continue; }
                    decls.push(x);
                }
                let o = obs::doc(&d);
                //the processor is an annotator of what is declared in a new document (not of what is in one that is loaded)
                let p: Vec<String> = w.proc.iter().map(|n| format!("p{}", n)).collect();
                for x in o.head.decls.iter() {
                    let asked = n == 0 && std::iter::once(&("text", Some(deft.clone()))).chain(w.decls.iter()).any(|y| y.0 == x.at && (y.1 == x.set || y.1.is_none() && o.head.decls.iter().filter(|z| z.at == x.at).count() == 1 || y.1.is_some() && y.1 == x.alias));
                    //(without a set, it may have been the only declaration at the time)
                    let maybe = w.decls.iter().any(|y| y.0 == x.at && y.1.is_none());
                    if x.annotators != (if asked { p.clone() } else { vec![] }) && !(maybe && x.annotators.len() <= p.len()) { return bad(&format!("the list of annotators of {} {:?}", x.at, x.set), format!("{:?}", x.annotators), format!("{:?}", p)); }
                }
                let mut g: Vec<(String, Option<String>)> = o.head.decls.iter().map(|x| (x.at.clone(), x.set.clone())).collect();
                let mut ws: Vec<(String, Option<String>)> = decls.iter().map(|x| (x.0.to_string(), x.1.clone())).collect();
                //(the default is declared where the text comes first)
                if n > 0 { g.sort(); ws.sort(); }
                if g != ws { return bad("the list of declarations", format!("{:?}", g), format!("{:?}", ws)); }
                if let Some(k) = d.get_declaration_key_by_id(&Declaration::index_id(AT::TEXT, &Some(&deft))) { if d.class_key(k, "current").is_err() { return bad("the class current", "missing".into(), "there".into()); } } else { return bad("the default text set", "undeclared".into(), "declared".into()); }
                let chain: Vec<(String, Vec<String>)> = o.head.chain.iter().map(|p| (p.id.clone(), p.subs.iter().map(|s| s.id.clone()).collect())).collect();
                let wc: Vec<(String, Vec<String>)> = w.proc.iter().map(|n| (format!("p{}", n), if *n == 1 { vec!["sub".to_string()] } else { vec![] })).collect();
                if chain != wc { return bad("the provenance chain", format!("{:?}", chain), format!("{:?}", wc)); }
                let active = d.active_processor.and_then(|k| d.get_processor(k)).map(|p| p.id.clone());
                if active != wc.first().map(|x| x.0.clone()) { return bad("the active processor", format!("{:?}", active), format!("{:?}", wc)); }
                k.states += 1;
                k.outcome(&o);
                let s = io::save(&d, 0)?;
                io::same(&o, &obs::doc(&io::load(&s)?), "before and after saving and loading", &s)?;
                k.transitions += 2;
            }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// processors built of others, old and new
fn trees(c: &Ctx) {
    //each operation gives the processor under construction an existing or a new processor, with or without subprocessors
    let depth = c.pick(4, 6);
    c.bound(&format!("composite processors: all sequences of up to {} subprocessors, each existing or new, with or without subprocessors of its own, at the top or under another processor", depth));
    for n in 0..=depth {
        c.sweep(&format!("composite/{}", n), 4u64.pow(n as u32) * 2, |i, k| {
            let mut i = Ix(i);
            let err = |e: FoliaError| format!("{:?}", e);
            let mut d = Document::new("doc", DocumentProperties::default()).map_err(err)?;
            let top = if i.take(2) == 1 { Some(d.add_processor(Processor::new("top".into()).with_id("top".into())).map_err(err)?) } else { None };
            let mut p = Processor::new("p".into()).with_id("p".into());
            let (mut old, mut new): (Vec<String>, Vec<String>) = (vec![], vec![]);
            for j in 0..n {
                let (fresh, deep) = (i.take(2) == 1, i.take(2) == 1);
                let mut q = Processor::new(format!("n{}", j)).with_id(format!("n{}", j));
                if deep { for s in ["z", "a"] { q = q.with_new_subprocessor(Processor::new(s.into()).with_id(format!("n{}{}", j, s))); } }
                let tree = format!("n{}({})", j, if deep { format!("n{0}z(),n{0}a()", j) } else { String::new() });
                p = if fresh { new.push(tree); p.with_new_subprocessor(q) } else { old.push(tree); let key = d.add_processor(q).map_err(err)?; p.with_existing_subprocessor(key) };
            }
            k.describe(format!("existing {:?}, new {:?}", old, new));
            let key = match top { Some(t) => d.add_subprocessor(t, p), None => d.add_processor(p) }.map_err(err)?;
            fn tree(d: &Document, key: u16) -> String { let p = d.get_processor(key).expect("a processor"); format!("{}({})", p.id, p.processors.iter().map(|k| tree(d, *k)).collect::<Vec<_>>().join(",")) }
            let check = |d: &Document, key: u16| -> Result<String, String> {
                let p = d.get_processor(key).ok_or("not there")?;
                let subs: Vec<String> = p.processors.iter().map(|k| tree(d, *k)).collect();
                let of = |xs: &[String]| -> Vec<String> { subs.iter().filter(|s| xs.contains(s)).cloned().collect() };
                if of(&old) != old || of(&new) != new || subs.len() != n { return Err(format!("the subprocessors are {:?}", subs)); }
                Ok(tree(d, key))
            };
            let a = check(&d, key)?;
            let mut all: Vec<String> = (0..).map_while(|k| d.get_processor(k)).map(|p| p.id.clone()).collect();
            let len = all.len();
            all.sort(); all.dedup();
            if all.len() != len { return Err(format!("processors {:?}", all)); }
            k.states += 1; k.transitions += 2; k.traces += 2;
            k.outcome(&a);
            let d2 = io::load(&io::save(&d, 0)?)?;
            let key2 = d2.get_processor_key_by_id("p").ok_or("not saved")?;
            let b = check(&d2, key2)?;
            if a != b || d2.get_processor(key2).unwrap().parent.is_some() != top.is_some() { return Err(format!("loaded as {} rather than {}", b, a)); }
            Ok(())
        });
    }
}
pub fn c22(c: &Ctx) -> Run {
    processors(c);
    trees(c);
    elements(c);
    documents(c);
    Run { assumptions: &["what the environment says about the user and the host is not checked"], explanation: "every sequence of builder operations up to the depth runs on the real code next to a reference record; after every operation everything that can be asked of what is being built must agree with it, and so must the document that is made with it, saved and loaded" }
}
