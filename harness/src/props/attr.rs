//! C19: attributes
use super::{io, Run};
use crate::gen::{self, docx, e};
use crate::{ctx::*, obs, sem, xml::{self, X}};
use folia::*;
use folia::{AnnotationType as AT, AttribType as AA, ElementType as ET};
use std::collections::BTreeMap;

pub const TYPES: [AA; 31] = [AA::ID, AA::SET, AA::CLASS, AA::ANNOTATOR, AA::ANNOTATORTYPE, AA::CONFIDENCE, AA::N, AA::DATETIME, AA::BEGINTIME, AA::ENDTIME, AA::SRC, AA::SPEAKER, AA::TEXTCLASS, AA::METADATA, AA::IDREF, AA::SPACE,
    AA::PROCESSOR, AA::HREF, AA::FORMAT, AA::SUBSET, AA::TEXT, AA::TYPE, AA::AUTH, AA::OFFSET, AA::REF, AA::LINENR, AA::PAGENR, AA::NEWPAGE, AA::ORIGINAL, AA::XLINKTYPE, AA::TAG];
fn coded(t: AA) -> bool { matches!(t, AA::SET | AA::CLASS | AA::SUBSET | AA::PROCESSOR) }

/// a document with the attribute in it
fn carrier(name: &str, v: &str) -> X {
    match name {
        "subset" => docx(vec![], None, vec![e("w").e(e("pos").a("class", "c").e(e("feat").a("subset", v).a("class", "x")))]),
        "processor" => docx(vec![gen::decl_x("token", None, None, &[])], Some(e("provenance").e(e("processor").a("xml:id", v).a("name", "one")).e(e("processor").a("xml:id", "other").a("name", "two"))), vec![e("w").a("processor", v)]),
        _ => docx(vec![], None, vec![e("w").a(name, v)]),
    }
}
fn tag_of(name: &str) -> &'static str { if name == "subset" { "feat" } else { "w" } }
fn find<'a>(n: &'a obs::Node, tag: &str) -> Option<&'a obs::Node> {
    if n.tag == tag { return Some(n); }
    n.items.iter().find_map(|i| if let obs::Item::N(c) = i { find(c, tag) } else { None })
}
fn findx<'a>(n: &'a X, tag: &str) -> Option<&'a X> { if n.tag == tag { return Some(n); } n.elems().find_map(|c| findx(c, tag)) }
fn key_of(d: &Document, et: ET) -> Option<u32> { (0..obs::n_elements(d)).find(|k| d.get_element(*k).map_or(false, |x| x.elementtype() == et)) }
fn got(n: &obs::Node, name: &str) -> BTreeMap<String, String> {
    let mut m = n.attrs.clone();
    let x = match name { "set" => &n.set, "class" => &n.class, "subset" => &n.subset, "processor" => &n.processor, _ => return m };
    if let Some(x) = x { m.insert(name.to_string(), x.clone()); }
    m
}
/// the attribute is there with this value and alone
fn holds(d: &Document, name: &str, want: &str, when: &str) -> Result<(), String> {
    let o = obs::doc(d);
    let n = find(&o.body, tag_of(name)).ok_or_else(|| format!("{}: the element is gone", when))?;
    let g = got(n, name);
    if g.get(name).map(|s| s.as_str()) != Some(want) || g.len() != 1 { return Err(format!("{}: {}={:?} is there as {:?}", when, name, want, g)); }
    Ok(())
}
fn written(d: &Document, name: &str, want: &str, when: &str) -> Result<String, String> {
    let s = io::save(d, 0)?;
    let x = xml::read(&s).map_err(|e| format!("{}: written as no XML: {}\n{}", when, e, s))?;
    let n = findx(&x, tag_of(name)).ok_or_else(|| format!("{}: not written", when))?;
    //what is the default needs not be written
    let mut a: Vec<&(String, String)> = n.attrs.iter().filter(|(k, _)| k == name || !matches!(k.as_str(), "set" | "processor" | "class")).collect();
    if (name == "set" || name == "processor") && a.is_empty() { return Ok(s); }
    a.retain(|(k, v)| !(k == name && sem::value(name, v).as_deref() == Some(want)));
    if !a.is_empty() || n.attr(name).is_none() { return Err(format!("{}: {}={:?} is written as {:?}", when, name, want, n.attrs)); }
    Ok(s)
}
fn one(t: AA, v: &str, k: &mut Case) -> Result<(), String> {
    let name = obs::attr_of_type(t);
    k.states += 1; k.transitions += 1; k.traces += 1;
    let text = xml::write(&carrier(name, v), &xml::PLAIN);
    let r = io::load(&text);
    let want = match sem::value(name, v) {
        None => { k.outcome(&(name, "refused")); return if r.is_ok() { Err(format!("{}={:?} is accepted", name, v)) } else { Ok(()) } }
        Some(w) => w,
    };
    k.outcome(&(name, &want));
    let d = r.map_err(|e| format!("{}={:?} is refused: {}", name, v, e))?;
    holds(&d, name, &want, "read")?;
    let s = written(&d, name, &want, "read and written")?;
    holds(&io::load(&s).map_err(|e| format!("what is written for {}={:?} is refused: {}\n{}", name, v, e, s))?, name, &want, "read, written and read")?;
    k.transitions += 2;
    //the attribute itself
    let et = if name == "subset" { ET::Feature } else { ET::Word };
    let el = d.get_element(key_of(&d, et).ok_or("no element")?).ok_or("no element")?;
    let a = el.attrib(t).ok_or_else(|| format!("attrib({:?}) finds nothing", t))?;
    if a.attribtype() != t || !el.has_attrib(t) { return Err(format!("{:?} says it is a {:?}", a, a.attribtype())); }
    let plain = if coded(t) {
        if !a.decodable() || a.encodable() { return Err(format!("{:?} of an element in a document is not encoded", a)); }
        match t { AA::SET => Attribute::Set(v.to_string()), AA::CLASS => Attribute::Class(v.to_string()), AA::SUBSET => Attribute::Subset(v.to_string()), _ => Attribute::Processor(v.to_string()) }
    } else { a.clone() };
    if plain.decodable() || plain.encodable() != coded(t) { return Err(format!("{:?} takes itself for encoded, or not", plain)); }
    if obs::attr(&plain) != Some((name, want.clone())) { return Err(format!("{}={:?} is {:?}", name, v, plain)); }
    let s = plain.to_string().map_err(|e| format!("{:?} has no value to write: {:?}", plain, e))?;
    if sem::value(name, &s).as_deref() != Some(&want) { return Err(format!("{:?} is written as {:?}", plain, s)); }
    if let Ok(x) = plain.as_str() { if x != s { return Err(format!("{:?} is {:?} and {:?}", plain, x, s)); } }
    if format!("{}", plain) != s { return Err(format!("{:?} is displayed as {}", plain, plain)); }
    if let Some(o) = TYPES.iter().find(|o| plain.sametype(&sample(**o)) != (**o == t)) { return Err(format!("{:?} and {:?} are of the same type, or not", plain, o)); }
    let class = match t { AA::SET => AA::CLASS, AA::PROCESSOR | AA::ANNOTATORTYPE => AA::ANNOTATOR, _ => t };
    if plain.attribtypeclass() != class { return Err(format!("the type class of {:?} is {:?}", plain, plain.attribtypeclass())); }
    //given to a new element in a new document
    let mut d = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
    if t == AA::PROCESSOR { d.add_processor(Processor::new("one".to_string()).with_id(v.to_string())).map_err(|e| format!("{:?}", e))?; d.add_processor(Processor::new("two".to_string()).with_id("other".to_string())).map_err(|e| format!("{:?}", e))?; }
    let x = if t == AA::SUBSET { ElementData::new(ET::Word).add_element(ElementData::new(ET::PosAnnotation).with_attrib(Attribute::Class("c".to_string())).add_element(ElementData::new(ET::Feature).with_attrib(plain.clone()).with_attrib(Attribute::Class("x".to_string())))) }
        else { ElementData::new(ET::Word).with_attrib(plain.clone()) };
    d.add_element_to(0, x).map_err(|e| format!("{:?} is refused on an element that is added: {:?}", plain, e))?;
    let bare = |d: &Document, when: &str| -> Result<(), String> {
        let o = obs::doc(d);
        let n = find(&o.body, tag_of(name)).ok_or_else(|| format!("{}: the element is gone", when))?;
        let mut g = got(n, name);
        //the only processors that a new element may get besides are none: no processor is active
        if name != "xml:id" { g.remove("xml:id"); }
        if g.get(name) != Some(&want) || g.len() != 1 { return Err(format!("{}: {:?} is there as {:?}", when, plain, g)); }
        Ok(())
    };
    bare(&d, "added")?;
    let s = io::save(&d, 0)?;
    bare(&io::load(&s).map_err(|e| format!("what is written for {:?} is refused: {}\n{}", plain, e, s))?, "added, written and read")?;
    k.transitions += 3;
    Ok(())
}
/// some attribute of a type
pub fn sample(t: AA) -> Attribute { mk(t, 0) }
fn mk(t: AA, n: usize) -> Attribute {
    let s = ["a", "b"][n].to_string();
    match t {
        AA::NONE => Attribute::Ignore,
        AA::ID => Attribute::Id(s), AA::SET => Attribute::Set(s), AA::CLASS => Attribute::Class(s), AA::ANNOTATOR => Attribute::Annotator(s),
        AA::ANNOTATORTYPE => Attribute::AnnotatorType([ProcessorType::Auto, ProcessorType::Manual][n]),
        AA::CONFIDENCE => Attribute::Confidence([0.5, 1.0][n]), AA::N => Attribute::N(s),
        AA::DATETIME => DATES.with(|d| d[n].clone()),
        AA::BEGINTIME => Attribute::BeginTime(s), AA::ENDTIME => Attribute::EndTime(s), AA::SRC => Attribute::Src(s), AA::SPEAKER => Attribute::Speaker(s), AA::TEXTCLASS => Attribute::Textclass(s), AA::METADATA => Attribute::Metadata(s),
        AA::IDREF => Attribute::Idref(s), AA::SPACE => Attribute::Space(n == 0), AA::PROCESSOR => Attribute::Processor(s), AA::HREF => Attribute::Href(s), AA::FORMAT => Attribute::Format(s), AA::SUBSET => Attribute::Subset(s),
        AA::TEXT => Attribute::Text(s), AA::TYPE => Attribute::Type(s), AA::AUTH => Attribute::Auth(s), AA::OFFSET => Attribute::Offset(n as u16), AA::REF => Attribute::Ref(s), AA::LINENR => Attribute::LineNr(n as u16), AA::PAGENR => Attribute::PageNr(s),
        AA::NEWPAGE => Attribute::NewPage(n == 0), AA::ORIGINAL => Attribute::Original(s), AA::XLINKTYPE => Attribute::XLinkType(s), AA::TAG => Attribute::Tag(s),
    }
}
thread_local! { static DATES: Vec<Attribute> = ["2020-02-29T00:00:00", "1999-12-31T23:59:59"].iter().map(|v| {
    let d = io::load(&xml::write(&carrier("datetime", v), &xml::PLAIN)).unwrap();
    d.get_element(key_of(&d, ET::Word).unwrap()).unwrap().attrib(AA::DATETIME).unwrap().clone()
}).collect(); }

fn values(t: AA, max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let near = |words: &[&str], alpha: &str, n: usize, v: &mut Vec<String>| {
        v.extend(gen::strings(&alpha.chars().collect::<Vec<_>>(), n));
        for w in words {
            v.extend([w.to_string(), w.to_uppercase(), format!("{} ", w), format!(" {}", w), format!("{}{}", w, w)]);
            for i in 0..w.len() { v.push(format!("{}{}", &w[..i], &w[i + 1..])); v.push(w[..i].to_string()); }
        }
    };
    match t {
        AA::ANNOTATORTYPE => near(&["auto", "manual", "generator", "datasource"], "automnlgersdc ", 2, &mut v),
        AA::SPACE | AA::NEWPAGE => near(&["yes", "no", "true", "false"], "yesnotrufal ", 3, &mut v),
        AA::OFFSET | AA::LINENR => {
            v.extend((0..=70000u32).map(|n| n.to_string()));
            for n in [65535u64, 65536, 1 << 17, 1 << 31, 1 << 32, (1 << 32) + 1, u64::MAX] { v.push(n.to_string()); v.push(format!("0{}", n)); v.push(format!("-{}", n)); }
            v.extend(gen::strings(&"019- .exA".chars().collect::<Vec<_>>(), 3));
        }
        AA::CONFIDENCE => {
            v.extend((0..=1000).map(|n| format!("{}", n as f64 / 1000.0)));
            v.extend((0..=1000).map(|n| format!("0.{:03}", n)));
            v.extend(gen::strings(&"0159.e- x".chars().collect::<Vec<_>>(), max + 1));
            for m in ["1", "9.999999999999999", "4.9", "1.7976931348623157", "2.2250738585072014", "0.1"] { for x in -330..=308 { v.push(format!("{}e{}", m, x)); } }
            v.extend(["1.0000000000000002", "0.30000000000000004", "0.333333333333333333333333333333", "123456789012345678901234567890", "0x10", "1,5", "1e", "e1", "--1", "1_0"].iter().map(|s| s.to_string()));
        }
        AA::DATETIME => {
            for y in ["0001", "1600", "1900", "1999", "2000", "2020", "2021", "2100", "9999"] { for m in 0..=13 { for d in 0..=32 { v.push(format!("{}-{:02}-{:02}T01:02:03", y, m, d)); } } }
            for h in 0..=24 { for m in [0, 1, 30, 59, 60, 61] { for s in [0, 1, 59, 61, 99] { v.push(format!("2020-02-29T{:02}:{:02}:{:02}", h, m, s)); } } }
            for n in 0..86400 / 7 { let s = n * 7; v.push(format!("1970-01-01T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)); }
            let g = "2020-02-29T12:34:56";
            for i in 0..g.len() { v.push(g[..i].to_string()); v.push(format!("{}{}", &g[..i], &g[i + 1..])); for c in ["x", ":", "-", "T", " "] { v.push(format!("{}{}{}", &g[..i], c, &g[i + 1..])); } }
            for c in ["Z", "+01:00", ".5", " ", "x", ":00"] { v.push(format!("{}{}", g, c)); }
            //forms that are read more leniently than the standard has them
            v.retain(|s| sem::datetime(s).is_some() || !lenient(s));
        }
        _ => {
            v = gen::strings(&"a <>&\"';#xé\u{1F600}\u{a0}0:/%".chars().collect::<Vec<_>>(), max);
            v.extend(["yes", "no", "true", "auto", "None", "NONE", "0.5", "&amp;", "&#65;", "]]>", "<!-- -->", "http://example.org/a?b=c&d=e#f", "00:00:01.250", "\u{feff}", "a\u{301}", "\u{200b}"].iter().map(|s| s.to_string()));
            v.push("x".repeat(70000));
            if coded(t) || t == AA::ID { v.retain(|s| !s.is_empty()); }
            if t == AA::PROCESSOR { v.retain(|s| s != "other"); }
            if t == AA::ID { v.retain(|s| s != "doc"); }
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}
/// with fewer digits, or with blanks
fn lenient(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let n: Vec<&str> = s.split(|c| c == '-' || c == 'T' || c == ':').collect();
    n.len() == 6 && n.iter().all(|p| !p.trim().is_empty() && p.trim().chars().all(|c| c.is_ascii_digit()))
}

#[derive(Clone, Debug)]
enum Edit { Set(Attribute), With(Attribute), Del(AA), All(Vec<Attribute>) }

pub fn c19(c: &Ctx) -> Run {
    let max = c.pick(2, 3);
    let cases: Vec<(AA, String)> = TYPES.iter().flat_map(|t| values(*t, max).into_iter().map(move |v| (*t, v))).collect();
    c.bound(&format!("all {} attributes with all strings of up to {} of 17 characters and boundary values of their kind ({} values: all numbers from 0 to 70000, all dates at the ends of months and years, booleans and enumerated words in all near forms): read, held, written, read again, and given to a new element", TYPES.len(), max, cases.len()));
    const B: usize = 64;
    c.sweep("values", ((cases.len() + B - 1) / B) as u64, |i, k| {
        for (t, v) in cases.iter().skip(i as usize * B).take(B) {
            k.describe(format!("{}={:?}", obs::attr_of_type(*t), v.chars().take(200).collect::<String>()));
            one(*t, v, k)?;
        }
        Ok(())
    });
    c.sweep("names", TYPES.len() as u64, |i, k| {
        let t = TYPES[i as usize];
        k.describe(format!("{:?}", t));
        k.states += 1; k.traces += 1; k.transitions += 1;
        let s: &str = t.into();
        if s != obs::attr_of_type(t) || format!("{}", t) != s { return Err(format!("{:?} is named {}", t, s)); }
        //names near to it are not it
        for n in [s.to_uppercase(), format!("{}s", s), format!("x{}", s), s[1..].to_string(), format!("folia{}", s)] {
            if n.is_empty() || n.contains(':') || sem::ATTRS.contains(&n.as_str()) || sem::shorthand(ET::Word, &n) { continue; }
            k.transitions += 1;
            let r = io::load(&xml::write(&docx(vec![], None, vec![e("w").a(&n, "1")]), &xml::PLAIN));
            if r.is_ok() { return Err(format!("the attribute {} is accepted", n)); }
        }
        Ok(())
    });
    //edits of an element under construction
    let mut all: Vec<Attribute> = TYPES.iter().map(|t| sample(*t)).collect();
    all.extend([Attribute::DeclarationRef(0), Attribute::ClassRef(0), Attribute::ProcessorRef(0), Attribute::SubsetRef(0), Attribute::N("b".to_string()), Attribute::Class("b".to_string())]);
    let wide: Vec<Edit> = all.iter().map(|a| Edit::Set(a.clone())).chain(TYPES.iter().map(|t| Edit::Del(*t))).collect();
    let few = [AA::ID, AA::SET, AA::CLASS, AA::N, AA::PROCESSOR, AA::SUBSET, AA::SPACE, AA::ANNOTATORTYPE];
    let mut deep: Vec<Edit> = few.iter().map(|t| Edit::Set(mk(*t, 0))).chain(few.iter().map(|t| Edit::With(mk(*t, 1)))).chain(few.iter().map(|t| Edit::Del(*t))).collect();
    deep.extend([Edit::With(Attribute::DeclarationRef(0)), Edit::Set(Attribute::ClassRef(0)), Edit::Set(Attribute::ProcessorRef(1)), Edit::With(Attribute::SubsetRef(0)), Edit::All(vec![]), Edit::All(vec![mk(AA::N, 0), mk(AA::ID, 1)]), Edit::All(vec![mk(AA::N, 0), mk(AA::CLASS, 0), mk(AA::N, 1)])]);
    for (name, ops, depth) in [("edits/wide", &wide, c.pick(3, 4)), ("edits/deep", &deep, c.pick(4, 5))] {
        c.bound(&format!("{}: all histories of up to {} of {} edits of the attributes of an element", name, depth, ops.len()));
        let rest = (ops.len() as u64).pow(depth as u32 - 1);
        c.sweep(name, rest, |i, k| {
            let mut first = i;
            let mut el = ElementData::new(ET::Word);
            let mut model: Vec<Attribute> = vec![];
            let mut h = vec![];
            for _ in 0..depth - 1 { let op = &ops[(first % ops.len() as u64) as usize]; first /= ops.len() as u64; h.push(op); step(&mut el, &mut model, op).map_err(|e| format!("{} after {:?}", e, h))?; }
            for op in ops.iter() {
                let (mut el, mut model) = (el.clone(), model.clone());
                k.transitions += 1; k.traces += 1;
                step(&mut el, &mut model, op).map_err(|e| format!("{} after {:?} {:?}", e, h, op))?;
            }
            k.states += 1;
            k.outcome(&format!("{:?}", model));
            Ok(())
        });
    }
    //every attribute together with every other, in a document
    c.bound("all pairs of attributes given to a new element that is added, written and read");
    c.sweep("pairs", (TYPES.len() * TYPES.len()) as u64, |i, k| {
        let (a, b) = (TYPES[i as usize / TYPES.len()], TYPES[i as usize % TYPES.len()]);
        k.states += 1; k.transitions += 3; k.traces += 1;
        k.describe(format!("{:?} {:?}", a, b));
        let skip = |t: AA| matches!(t, AA::SUBSET);
        if skip(a) || skip(b) { return Ok(()); }
        let el = if a == b { ElementData::new(ET::Word).with_attribs(vec![mk(a, 0), mk(b, 1)]) } else { ElementData::new(ET::Word).with_attrib(mk(a, 0)).with_attrib(mk(b, 1)) };
        let mut d = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
        for p in ["a", "b"] { d.add_processor(Processor::new(p.to_string()).with_id(p.to_string())).map_err(|e| format!("{:?}", e))?; }
        d.add_element_to(0, el).map_err(|e| format!("refused: {:?}", e))?;
        let mut want: BTreeMap<String, String> = Default::default();
        for x in [mk(a, 0), mk(b, 1)] { let (n, v) = obs::attr(&x).unwrap(); want.insert(n.to_string(), v); }
        let see = |d: &Document| -> Result<BTreeMap<String, String>, String> {
            let o = obs::doc(d);
            let n = find(&o.body, "w").ok_or("gone")?;
            let mut g = n.attrs.clone();
            for (k, v) in [("set", &n.set), ("class", &n.class), ("processor", &n.processor)] { if let Some(v) = v { if want.contains_key(k) { g.insert(k.to_string(), v.clone()); } } }
            if !want.contains_key("xml:id") { g.remove("xml:id"); }
            Ok(g)
        };
        let g = see(&d)?;
        if g != want { return Err(format!("{:?} is there as {:?}", want, g)); }
        let s = io::save(&d, 0)?;
        let g = see(&io::load(&s).map_err(|e| format!("refused: {}\n{}", e, s))?)?;
        if g != want { return Err(format!("{:?} is read again as {:?}\n{}", want, g, s)); }
        k.outcome(&g);
        Ok(())
    });
    let _ = AT::TEXT;
    Run { assumptions: &["harness/src/sem.rs says which values are valid"], explanation: "every attribute with every value of its kind is read from a document, inspected, written (and what is written is read by an independent XML reader), read again, and given to a new element; every history of edits of attributes is run on the real ElementData next to a list of attributes" }
}
fn step(el: &mut ElementData, model: &mut Vec<Attribute>, op: &Edit) -> Result<(), String> {
    match op {
        Edit::Set(a) => { el.set_attrib(a.clone()); model.retain(|b| b.attribtype() != a.attribtype()); model.push(a.clone()); }
        Edit::With(a) => { let x = std::mem::replace(el, ElementData::new(ET::Word)); *el = x.with_attrib(a.clone()); model.retain(|b| b.attribtype() != a.attribtype()); model.push(a.clone()); }
        Edit::Del(t) => {
            let want = model.iter().position(|b| b.attribtype() == *t).map(|p| model.remove(p));
            let r = el.del_attrib(*t);
            if r != want { return Err(format!("deleting returns {:?} rather than {:?}", r, want)); }
        }
        Edit::All(v) => { el.set_attribs(v.clone()); model.clear(); for a in v { model.retain(|b| b.attribtype() != a.attribtype()); model.push(a.clone()); } }
    }
    if el.attribs().len() != model.len() || model.iter().any(|a| !el.attribs().contains(a)) { return Err(format!("the attributes are {:?} rather than {:?}", el.attribs(), model)); }
    for t in TYPES.iter() {
        let want = model.iter().find(|a| a.attribtype() == *t);
        if el.attrib(*t) != want || el.has_attrib(*t) != want.is_some() { return Err(format!("attrib({:?}) is {:?} rather than {:?}", t, el.attrib(*t), want)); }
    }
    let s = |t: AA| model.iter().find_map(|a| if a.attribtype() == t && !a.decodable() { a.as_str().ok() } else { None });
    if el.id() != s(AA::ID) || el.idref() != s(AA::IDREF) { return Err(format!("the ID is {:?} or {:?}", el.id(), el.idref())); }
    let conf = model.iter().find_map(|a| if let Attribute::Confidence(f) = a { Some(*f) } else { None });
    if el.confidence() != conf { return Err(format!("the confidence is {:?}", el.confidence())); }
    let (enc, dec) = (model.iter().any(|a| a.decodable()), model.iter().any(|a| a.encodable()));
    if !enc {
        for (what, g, t) in [("class", el.class(), AA::CLASS), ("set", el.set(), AA::SET), ("subset", el.subset(), AA::SUBSET), ("processor", el.processor(), AA::PROCESSOR)] {
            match g { Ok(g) if g == s(t) => {}, g => return Err(format!("the {} is {:?} rather than {:?}", what, g, s(t))) }
        }
    }
    if !dec {
        let key = |t: AA| model.iter().find(|a| a.attribtype() == t);
        let (ck, dk, pk, sk) = (el.class_key(), el.declaration_key(), el.processor_key(), el.subset_key());
        let ok = matches!(&ck, Ok(x) if x.map(Attribute::ClassRef).as_ref() == key(AA::CLASS)) && matches!(&dk, Ok(x) if x.map(Attribute::DeclarationRef).as_ref() == key(AA::SET))
            && matches!(&pk, Ok(x) if x.map(Attribute::ProcessorRef).as_ref() == key(AA::PROCESSOR)) && matches!(&sk, Ok(x) if x.map(Attribute::SubsetRef).as_ref() == key(AA::SUBSET));
        if !ok { return Err(format!("the keys are {:?} {:?} {:?} {:?}", ck, dk, pk, sk)); }
    }
    //names of an element that only has keys, and the other way around, are refused rather than said to be absent
    if enc && !dec && (el.class().is_ok() || el.set().is_ok() || el.subset().is_ok() || el.processor().is_ok()) { return Err("the element has keys, and yet it has no class, set, subset or processor".into()); }
    if dec && !enc && (el.class_key().is_ok() || el.declaration_key().is_ok() || el.subset_key().is_ok() || el.processor_key().is_ok()) { return Err("the element has names, and yet it has no keys for them".into()); }
    Ok(())
}
