//! C01-C04: loading and saving
use super::Run;
use crate::{ctx::*, gen, obs, sem, xml};
use folia::{Document, DocumentProperties, ReadElement};
use xml::{X, XI};

pub fn load(s: &str) -> Result<Document, String> { Document::from_str(s, DocumentProperties::default()).map_err(|e| format!("{:?}", e)) }
pub fn declare_default() -> [(folia::AnnotationType, Option<&'static str>); 1] { [(folia::AnnotationType::TEXT, Some("https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"))] }
pub fn save(d: &Document, indent: usize) -> Result<String, String> {
    let b = d.xml(0, indent).map_err(|e| format!("serialisation at indentation {} fails: {:?}", indent, e))?;
    String::from_utf8(b).map_err(|_| "serialisation is not UTF-8".to_string())
}
pub fn same(a: &obs::Doc, b: &obs::Doc, what: &str, text: &str) -> Result<(), String> {
    if a.body != b.body { return Err(format!("{}: {}\n{}", what, obs::diff(&a.body, &b.body), text)); }
    if a.head != b.head { return Err(format!("{}: {}\n{}", what, obs::diff_head(&a.head, &b.head), text)); }
    Ok(())
}
/// C01 for a document
pub fn roundtrip(d: &Document, indents: &[usize], c: &mut Case) -> Result<(), String> {
    let o = obs::doc(d);
    c.outcome(&o);
    c.states += 1;
    for i in indents {
        let s = save(d, *i)?;
        let d2 = load(&s).map_err(|e| format!("the saved document (indentation {}) is refused: {}\n{}", i, e, s))?;
        same(&o, &obs::doc(&d2), &format!("before and after saving (indentation {}) and loading", i), &s)?;
        let s2 = save(&d2, *i)?;
        let d3 = load(&s2).map_err(|e| format!("the document saved twice is refused: {}\n{}", e, s2))?;
        same(&o, &obs::doc(&d3), "before and after saving and loading twice", &s2)?;
        c.transitions += 4;
    }
    Ok(())
}
/// C02 for a document
pub fn says(d: &Document, indents: &[usize], fragments: bool, c: &mut Case) -> Result<(), String> {
    let o = obs::doc(d);
    c.outcome(&o);
    c.states += 1;
    let mut plain = None;
    for i in indents {
        let s = save(d, *i)?;
        let x = xml::read(&s).map_err(|e| format!("{}\n{}", e, s))?;
        if x.attrs.iter().find(|a| a.0 == "version").map_or(true, |a| a.1.is_empty() || !a.1.split('.').all(|p| p.parse::<u32>().is_ok())) { return Err(format!("the saved document does not state its version of FoLiA\n{}", s)); }
        let said = sem::doc(&x).map_err(|e| format!("serialisation is not FoLiA: {}\n{}", e, s))?;
        same(&o, &said, &format!("the document vs. its XML (indentation {})", i), &s)?;
        c.transitions += 1;
        if *i == 0 { plain = Some(x); }
    }
    if let (true, Some(x)) = (fragments, plain) {
        let body = x.elems().find(|e| e.tag == "text" || e.tag == "speech").ok_or("no body")?;
        fn walk(d: &Document, key: u32, x: &X, whole: &X, indents: &[usize], c: &mut Case) -> Result<(), String> {
            let el = d.get_element(key).ok_or("no element")?;
            for i in indents {
                let s = el.xml(*i).map_err(|e| format!("serialisation of element fails: {:?}", e))?;
                let w = format!("<root xmlns=\"{}\" xmlns:xlink=\"{}\">{}</root>", xml::NSFOLIA, xml::NSXLINK, s);
                let r = xml::read(&w).map_err(|e| format!("{} (in serialisation of element)\n{}", e, s))?;
                let es: Vec<&X> = r.elems().collect();
                if es.len() != 1 || !r.text().trim().is_empty() { return Err(format!("serialisation of element is not a single element: {}", s)); }
                let (a, b) = (canon(es[0], false), canon(x, false));
                if a != b { return Err(format!("serialisation of a single element differs from that in the document: {:?} vs {:?}\n{}", a, b, s)); }
                c.transitions += 1;
            }
            //the document with only this element in it
            if key > 0 {
                let s = String::from_utf8(d.xml(key, 0).map_err(|e| format!("serialisation of the document with an element only fails: {:?}", e))?).map_err(|e| format!("{:?}", e))?;
                let r = xml::read(&s).map_err(|e| format!("{} (in serialisation of the document with an element only)\n{}", e, s))?;
                let parts: Vec<X> = r.elems().map(|e| canon(e, false)).collect();
                let head: Vec<X> = whole.elems().filter(|e| e.tag == "metadata").map(|e| canon(e, false)).collect();
                if r.tag != whole.tag || r.attrs != whole.attrs || parts.len() != 2 || parts[..1] != head[..] || parts[1] != canon(x, false) { return Err(format!("the document with only element {} is not made of its header and that element:\n{}", key, s)); }
                c.transitions += 1;
            }
            let mut kids = x.elems();
            for i in 0..el.elementdata().len() {
                if let Some(folia::DataType::Element(k)) = el.elementdata().get_data_at(i) { walk(d, *k, kids.next().ok_or("an element is missing in the XML")?, whole, indents, c)?; }
            }
            Ok(())
        }
        walk(d, 0, body, &x, indents, c)?;
    }
    Ok(())
}
/// XML modulo attribute order and insignificant whitespace
pub fn canon(x: &X, textual: bool) -> X {
    let vv = obs::by_tag(&x.tag);
    let textual = textual || vv.map_or(false, |v| v.tc || v.pc);
    let mut y = X { folia: x.folia, tag: x.tag.clone(), attrs: x.attrs.clone(), items: vec![] };
    y.attrs.sort();
    for i in x.items.iter() {
        match i { XI::E(e) => y.items.push(XI::E(canon(e, textual))), XI::T(t) => if textual || !t.trim().is_empty() { y.items.push(i.clone()) }, XI::C(c) => if !c.trim().is_empty() { y.items.push(i.clone()) } }
    }
    y
}
fn each<F>(c: &Ctx, fams: Vec<gen::Fam>, f: F) where F: Fn(&X, &mut Case) -> Result<(), String> + Sync {
    for fam in fams {
        c.bound(&format!("{}: {} (all {} of them)", fam.name, fam.what, fam.n));
        c.sweep(fam.name, fam.n, |i, k| {
            let x = match (fam.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            f(&x, k)
        });
    }
}
const TRUST: &[&str] = &["the reference XML reader and the reference semantics of FoLiA attributes and declarations (harness/src/xml.rs, sem.rs)", "the frozen FoLiA vocabulary (harness/src/vocab.rs)"];

fn heads(c: &Ctx) -> Vec<gen::Fam> { vec![gen::f_head_decls(), gen::f_head_procs(c.pick(3, 4)), gen::f_head_fields(), gen::f_head_meta(c.pick(1, 2))] }
pub fn c01(c: &Ctx) -> Run {
    let indents: &[usize] = if c.quick() { &[0, 2] } else { &[0, 1, 4] };
    each(c, gen::families(c.quick()).into_iter().chain(heads(c)).collect(), |x, k| {
        let d = match load(&k.desc) { Ok(d) => d, Err(_) => return if sem::doc_with(x, &declare_default()).is_ok() { Err("a valid document is refused".into()) } else { Ok(()) } };
        k.traces += 1;
        roundtrip(&d, indents, k)
    });
    super::edit::histories_docs(c, "built", c.pick(2, 3), |d, k| if super::edit::selfcontained(d) { roundtrip(d, &[0, 2], k) } else { Ok(()) });
    super::decl::histories_docs(c, "declared", c.pick(3, 3), |d, k| roundtrip(d, &[0, 2], k));
    Run { assumptions: &["two documents are equivalent if everything that can be observed of them through the API is equal (harness/src/obs.rs)"], explanation: "every document of each family is loaded by the real parser, saved by the real serialiser at each indentation, reloaded and compared, twice over" }
}
pub fn c02(c: &Ctx) -> Run {
    let indents: &[usize] = if c.quick() { &[0, 2] } else { &[0, 1, 4] };
    each(c, gen::families(c.quick()).into_iter().chain(heads(c)).collect(), |x, k| {
        let d = match load(&k.desc) { Ok(d) => d, Err(_) => return if sem::doc_with(x, &declare_default()).is_ok() { Err("a valid document is refused".into()) } else { Ok(()) } };
        k.traces += 1;
        says(&d, indents, obs::n_elements(&d) < 20_000, k)
    });
    super::edit::histories_docs(c, "built", c.pick(2, 3), |d, k| if super::edit::selfcontained(d) { says(d, &[0, 2], true, k) } else { Ok(()) });
    super::decl::histories_docs(c, "declared", c.pick(3, 3), |d, k| says(d, &[0, 2], true, k));
    Run { assumptions: TRUST, explanation: "every document of each family is loaded and saved by the real code; an independent strict XML reader and an independent reference semantics determine what the XML says, which must be what the document holds" }
}
pub fn c03(c: &Ctx) -> Run {
    let all = !c.quick();
    let dir = std::env::temp_dir().join(format!("mc-c03-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    c.bound("each document is loaded from memory and from a file");
    each(c, gen::families(c.quick()), |x, k| {
        let want = sem::doc_with(x, &declare_default());
        if let Ok(w) = &want { k.outcome(w); }
        k.states += 1;
        //in the quick tier, each document gets the plain style and two others in turn
        let h = (hash(x) as usize) % (xml::STYLES.len() - 1);
        for (j, st) in xml::STYLES.iter().enumerate() {
            if !(all || j == 0 || j == 1 + h || j == 1 + (h + 5) % (xml::STYLES.len() - 1)) { continue; }
            let s = xml::write(x, st);
            k.transitions += 1;
            match (load(&s), &want) {
                (Ok(d), Ok(w)) => { k.traces += 1; same(&obs::doc(&d), w, &format!("the loaded document vs. its XML (style {})", j), &s)? }
                (Ok(_), Err(e)) => return Err(format!("loaded, although there is an {}\n{}", e, s)),
                (Err(e), Ok(_)) => return Err(format!("refused: {}\n{}", e, s)),
                (Err(_), Err(_)) => {}
            }
            if j > 0 { continue; }
            let path = dir.join(format!("{:?}.xml", std::thread::current().id()));
            std::fs::write(&path, &s).map_err(|e| format!("can not write {:?}: {}", path, e))?;
            k.transitions += 1;
            match (folia::Document::from_file(&path.to_string_lossy(), folia::DocumentProperties::default()), &want) {
                (Ok(d), Ok(w)) => { k.traces += 1; same(&obs::doc(&d), w, "the document loaded from a file vs. its XML", &s)? }
                (Ok(_), Err(e)) => return Err(format!("loaded from a file, although there is an {}\n{}", e, s)),
                (Err(e), Ok(_)) => return Err(format!("refused from a file: {:?}\n{}", e, s)),
                (Err(_), Err(_)) => {}
            }
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    Run { assumptions: TRUST, explanation: "every document of each family is written in several lexical styles and loaded by the real parser; everything that can be observed of the result must be what an independent reference semantics computes from the XML tree" }
}
pub fn c04(c: &Ctx) -> Run {
    let fams = heads(c);
    let all = !c.quick();
    each(c, fams, |x, k| {
        let want = sem::doc_with(x, &declare_default()).map_err(|e| format!("generated an invalid document: {}", e))?;
        k.outcome(&want);
        k.states += 1;
        let h = (hash(x) as usize) % (xml::STYLES.len() - 1);
        for (j, st) in xml::STYLES.iter().enumerate() {
            if !(all || j == 0 || j == 1 + h) { continue; }
            let s = xml::write(x, st);
            k.transitions += 1;
            let d = load(&s).map_err(|e| format!("refused: {}\n{}", e, s))?;
            k.traces += 1;
            same(&obs::doc(&d), &want, &format!("the loaded document vs. its XML (style {})", j), &s)?;
            let body = x.elems().find(|e| e.tag == "text" || e.tag == "speech").unwrap();
            if d.get_element(0).map(|e| e.elementtype()) != Some(if body.tag == "text" { folia::ElementType::Text } else { folia::ElementType::Speech }) { return Err("wrong body type".into()); }
            if j == 0 { roundtrip(&d, &[0, 2], k)?; says(&d, &[0, 2], false, k)?; }
        }
        Ok(())
    });
    //the outermost tag
    let versions = ["2.0.0", "2.5.3", "1.5", "0.8", "10.20.30", "", "later"];
    let ids = [None, Some("d"), Some("a b"), Some("\u{e9}&<")];
    let gens = [None, Some("folia-rust"), Some("")];
    c.bound("root: outermost tags with 7 versions x 4 identifiers x 3 generators, in all lexical styles and three orders");
    c.sweep("root", 7 * 4 * 3 * 3 * xml::STYLES.len() as u64, |i, k| {
        let mut i = gen::Ix(i);
        let (v, id, g, o, st) = (*i.pick(&versions), *i.pick(&ids), *i.pick(&gens), i.take(3), i.take(xml::STYLES.len()));
        let mut at: Vec<(String, String)> = [("xml:id", id), ("version", Some(v)), ("generator", g)].iter().filter_map(|(a, v)| v.map(|v| (a.to_string(), v.to_string()))).collect();
        let n = at.len(); at.rotate_left(o % n);
        let mut x = gen::docx(vec![], None, vec![]);
        x.attrs = at;
        k.describe(xml::write(&x, &xml::STYLES[st]));
        k.states += 1; k.transitions += 1; k.traces += 1;
        let d = load(&k.desc)?;
        if d.version != v { return Err(format!("the version is {:?} rather than {:?}", d.version, v)); }
        if let Some(id) = id { if d.id() != id { return Err(format!("the identifier is {:?} rather than {:?}", d.id(), id)); } }
        Ok(())
    });
    //fields of metadata with and without a name
    c.bound("fields: all lists of up to 4 metadata fields, each with one of 2 names or none, empty or not, in metadata, submetadata and a processor: what has no name does not change what has one");
    let ls: Vec<Vec<u8>> = (0..5u32).flat_map(|n| (0..6u32.pow(n)).map(move |mut m| (0..n).map(|_| { let r = (m % 6) as u8; m /= 6; r }).collect())).collect();
    c.sweep("fields", 3 * ls.len() as u64, |i, k| {
        let mut i = gen::Ix(i);
        let (place, l) = (i.take(3), i.pick(&ls));
        let mut want: std::collections::BTreeMap<String, String> = Default::default();
        let fields: Vec<X> = l.iter().enumerate().map(|(n, f)| {
            let v = if *f >= 3 { String::new() } else { format!("v{}", n) };
            let mut x = X::new("meta");
            if f % 3 > 0 { let key = ["", "a", "b"][(*f % 3) as usize]; x = x.a("id", key); want.insert(key.to_string(), v.clone()); }
            if n % 2 == 1 { x = x.a("other", "c"); }
            if v.is_empty() { x } else { x.t(&v) }
        }).collect();
        let mut x = gen::docx(vec![], None, vec![]);
        if let XI::E(m) = &mut x.items[0] {
            match place {
                0 => m.items.extend(fields.into_iter().map(XI::E)),
                1 => m.items.push(XI::E(X::new("submetadata").a("xml:id", "m").a("type", "native").es(fields))),
                _ => m.items.push(XI::E(X::new("provenance").e(X::new("processor").a("xml:id", "p").a("name", "n").es(fields)))),
            }
        }
        k.describe(xml::write(&x, &xml::PLAIN));
        k.states += 1; k.transitions += 1; k.traces += 1;
        let d = match load(&k.desc) { Ok(d) => d, Err(e) => return if l.iter().all(|f| f % 3 > 0) { Err(e) } else { Ok(()) } };
        let got = match place { 0 => Some(&d.metadata.data), 1 => d.submetadata.get("m").map(|m| &m.data), _ => d.get_processor_by_id("p").map(|p| &p.metadata.data) }.ok_or("there is no metadata")?;
        let got: std::collections::BTreeMap<String, String> = got.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        k.outcome(&got);
        if got != want { return Err(format!("the fields are {:?} rather than {:?}", got, want)); }
        Ok(())
    });
    Run { assumptions: TRUST, explanation: "every header of the grammar is written in several lexical styles, loaded by the real parser, compared with what an independent reference semantics computes from it, saved and reloaded" }
}
