//! What can be observed of a document through the public API, as plain values.
use crate::vocab::*;
use folia::{AnnotationType as AT, Attribute, AttribType as AA, DataType, Document, ElementData, ElementType as ET, Processor, ReadElement, Store, Declaration, Metadata};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item { N(Node), T(String), C(String) }
/// An element with everything under it
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub tag: String,
    pub attrs: BTreeMap<String, String>,
    pub set: Option<String>,
    pub class: Option<String>,
    pub subset: Option<String>,
    pub processor: Option<String>,
   
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Decl { pub at: String, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, pub annotators: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Meta { pub data: BTreeMap<String, String>, pub src: Option<String>, pub mtype: Option<String> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Proc { pub id: String, pub fields: BTreeMap<String, String>, pub meta: BTreeMap<String, String>, pub subs: Vec<Proc> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Head { pub id: String, pub decls: Vec<Decl>, pub chain: Vec<Proc>, pub meta: Meta, pub submeta: BTreeMap<String, Meta> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Doc { pub head: Head, pub body: Node }

pub fn v(et: ET) -> &'static V { &ELEMENTS[et as u8 as usize] }
pub fn tag(et: ET) -> &'static str { v(et).tag }
pub fn by_tag(t: &str) -> Option<&'static V> {
    use std::sync::OnceLock;
    static M: OnceLock<std::collections::HashMap<&'static str, &'static V>> = OnceLock::new();
    M.get_or_init(|| ELEMENTS.iter().map(|v| (v.tag, v)).collect()).get(t).copied()
}
pub fn a(at: AT) -> &'static A { ANNOTATIONS.iter().find(|x| x.at == at).unwrap() }
pub fn a_by_name(s: &str) -> Option<&'static A> { ANNOTATIONS.iter().find(|x| x.s == s) }
pub fn in_group(et: ET, g: folia::ElementGroup) -> bool { v(et).groups.contains(&g) }
/// is it the primary element of its annotation type?
/// Is there something that associates an element with its declaration, and so with the annotator of that? (a reference to an
/// unknown processor is dropped, and with it what associates an element that has nothing else)
pub fn inherits(et: ET, n: &Node) -> bool { primary(et) || in_group(et, folia::ElementGroup::Layer) || n.set.is_some() || n.class.is_some() || n.subset.is_some() }
pub fn primary(et: ET) -> bool { v(et).at.map_or(false, |at| a(at).element == et) }

pub fn float(f: f64) -> String { format!("{:?}", f) }
pub fn yesno(b: bool) -> String { if b { "yes" } else { "no" }.to_string() }

/// The name and value of an attribute that is not encoded
pub fn attr(at: &Attribute) -> Option<(&'static str, String)> {
    Some(match at {
        Attribute::Ignore | Attribute::DeclarationRef(_) | Attribute::ClassRef(_) | Attribute::ProcessorRef(_) | Attribute::SubsetRef(_) => return None,
        Attribute::Id(s) => ("xml:id", s.clone()),
        Attribute::Set(s) => ("set", s.clone()),
        Attribute::Class(s) => ("class", s.clone()),
        Attribute::Annotator(s) => ("annotator", s.clone()),
        Attribute::AnnotatorType(t) => ("annotatortype", ptype(*t).to_string()),
        Attribute::Confidence(f) => ("confidence", float(*f)),
        Attribute::N(s) => ("n", s.clone()),
        Attribute::DateTime(d) => ("datetime", format!("{:?}", d)),
        Attribute::BeginTime(s) => ("begintime", s.clone()),
        Attribute::EndTime(s) => ("endtime", s.clone()),
        Attribute::Src(s) => ("src", s.clone()),
        Attribute::Speaker(s) => ("speaker", s.clone()),
        Attribute::Textclass(s) => ("textclass", s.clone()),
        Attribute::Metadata(s) => ("metadata", s.clone()),
        Attribute::Idref(s) => ("id", s.clone()),
        Attribute::Space(b) => ("space", yesno(*b)),
        Attribute::Text(s) => ("t", s.clone()),
        Attribute::Type(s) => ("type", s.clone()),
        Attribute::Auth(s) => ("auth", s.clone()),
        Attribute::Offset(n) => ("offset", n.to_string()),
        Attribute::Ref(s) => ("ref", s.clone()),
        Attribute::Original(s) => ("original", s.clone()),
        Attribute::LineNr(n) => ("linenr", n.to_string()),
        Attribute::PageNr(s) => ("pagenr", s.clone()),
        Attribute::NewPage(b) => ("newpage", yesno(*b)),
        Attribute::XLinkType(s) => ("xlink:type", s.clone()),
        Attribute::Tag(s) => ("tag", s.clone()),
        Attribute::Processor(s) => ("processor", s.clone()),
        Attribute::Href(s) => ("xlink:href", s.clone()),
        Attribute::Format(s) => ("format", s.clone()),
        Attribute::Subset(s) => ("subset", s.clone()),
    })
}
pub fn ptype(t: folia::ProcessorType) -> &'static str {
    match t { folia::ProcessorType::Auto => "auto", folia::ProcessorType::Manual => "manual", folia::ProcessorType::Generator => "generator", folia::ProcessorType::DataSource => "datasource" }
}
pub fn attr_of_type(at: AA) -> &'static str {
    match at {
        AA::NONE => "", AA::ID => "xml:id", AA::SET => "set", AA::CLASS => "class", AA::ANNOTATOR => "annotator", AA::ANNOTATORTYPE => "annotatortype", AA::CONFIDENCE => "confidence", AA::N => "n", AA::DATETIME => "datetime",
        AA::BEGINTIME => "begintime", AA::ENDTIME => "endtime", AA::SRC => "src", AA::SPEAKER => "speaker", AA::TEXTCLASS => "textclass", AA::METADATA => "metadata", AA::IDREF => "id", AA::SPACE => "space", AA::PROCESSOR => "processor",
        AA::HREF => "xlink:href", AA::FORMAT => "format", AA::SUBSET => "subset", AA::TEXT => "t", AA::TYPE => "type", AA::AUTH => "auth", AA::OFFSET => "offset", AA::REF => "ref", AA::ORIGINAL => "original", AA::LINENR => "linenr",
        AA::PAGENR => "pagenr", AA::NEWPAGE => "newpage", AA::XLINKTYPE => "xlink:type", AA::TAG => "tag",
    }
}

/// An attribute map; a type that occurs twice shows as such.
pub fn attrs(e: &ElementData) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for x in e.attribs.iter() {
        if let Some((k, val)) = attr(x) { if let Some(old) = m.insert(k.to_string(), val) { m.insert(format!("{} (again)", k), old); } }
    }
    m
}

/// The element with everything under it, with adjacent text merged. Follows the `data` of elements only.
pub fn node(doc: &Document, key: u32) -> Node { node_opt(doc, key, true, 0) }
pub fn node_opt(doc: &Document, key: u32, inherit: bool, depth: usize) -> Node {
    if depth > 5000 { panic!("element tree is too deep (cyclic?)"); }
    let e = doc.get_element(key).unwrap_or_else(|| panic!("element {} does not exist", key));
    let ed = e.elementdata();
    let mut n = Node { tag: tag(e.elementtype()).to_string(), attrs: attrs(ed), set: e.set().map(String::from), class: e.class().map(String::from), subset: e.subset().map(String::from),
        processor: e.processor().map(String::from), items: vec![] };
    //an annotation without processor is by the only annotator its declaration has
    if inherit && n.processor.is_none() && v(e.elementtype()).at.is_some() && inherits(e.elementtype(), &n) {
        if let Some(d) = e.get_declaration() { if d.processors.len() == 1 { n.processor = doc.get_processor(d.processors[0]).map(|p| p.id.clone()); } }
    }
    for i in 0..ed.len() {
        match ed.get_data_at(i) {
            Some(DataType::Element(k)) => n.items.push(Item::N(node_opt(doc, *k, inherit, depth + 1))),
            Some(DataType::Text(t)) => if t.is_empty() {} else if let Some(Item::T(l)) = n.items.last_mut() { l.push_str(t) } else { n.items.push(Item::T(t.clone())) },
            Some(DataType::Comment(t)) => n.items.push(Item::C(t.clone())),
            Some(DataType::SpanReference(_)) => {}
            Some(DataType::AddElement(_)) => panic!("unborn element in the document"),
            None => panic!("get_data_at({}) of {}", i, ed.len()),
        }
    }
    //outside text content, blank text is none
    let vv = v(e.elementtype());
    if !(vv.tc || vv.pc) { n.items.retain(|i| if let Item::T(t) = i { !t.trim().is_empty() } else { true }); }
    //text that is separated by nothing but back-references is adjacent (the loop above merges it)
    n
}
pub fn decl(doc: &Document, d: &Declaration) -> Decl {
    Decl { at: a(d.annotationtype).s.to_string(), set: d.set.clone(), alias: d.alias.clone(), format: d.format.clone(), annotators: d.processors.iter().map(|k| doc.get_processor(*k).map(|p| p.id.clone()).unwrap_or_else(|| format!("<missing {}>", k))).collect() }
}
pub fn decls(doc: &Document) -> Vec<Decl> { doc.declarations().map(|d| decl(doc, d.as_ref().expect("declaration"))).collect() }
pub fn meta(m: &Metadata) -> Meta { Meta { data: m.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), src: m.src.clone(), mtype: m.metadatatype.clone() } }
pub fn proc(doc: &Document, p: &Processor, depth: usize) -> Proc {
    if depth > 5000 { panic!("processors are too deep (cyclic?)"); }
    let mut f = BTreeMap::new();
    for (k, val) in [("name", &p.name), ("version", &p.version), ("folia_version", &p.folia_version), ("document_version", &p.document_version), ("command", &p.command), ("host", &p.host), ("user", &p.user), ("src", &p.src), ("format", &p.format), ("resourcelink", &p.resourcelink)] {
        if !val.is_empty() { f.insert(k.to_string(), val.clone()); }
    }
    f.insert("type".into(), ptype(p.processortype).into());
    if let Some(d) = &p.begindatetime { f.insert("begindatetime".into(), format!("{:?}", d)); }
    if let Some(d) = &p.enddatetime { f.insert("enddatetime".into(), format!("{:?}", d)); }
    Proc { id: p.id.clone(), fields: f, meta: p.metadata.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), subs: p.processors.iter().map(|k| proc(doc, doc.get_processor(*k).expect("subprocessor"), depth + 1)).collect() }
}
pub fn head(doc: &Document) -> Head {
    Head { id: doc.id().to_string(), decls: decls(doc), chain: doc.provenancestore.chain.iter().map(|k| proc(doc, doc.get_processor(*k).expect("processor in chain"), 0)).collect(),
        meta: meta(&doc.metadata), submeta: doc.submetadata.iter().map(|(k, m)| (k.clone(), meta(m))).collect() }
}
pub fn doc(d: &Document) -> Doc { Doc { head: head(d), body: node(d, 0) } }

pub fn n_elements(d: &Document) -> u32 { <Document as Store<ElementData, u32>>::len(d) as u32 }
pub fn size(n: &Node) -> u64 { 1 + n.items.iter().map(|i| if let Item::N(n) = i { size(n) } else { 1 }).sum::<u64>() }

/// Describes the first difference between two nodes.
pub fn diff(x: &Node, y: &Node) -> String {
    fn go(x: &Node, y: &Node, path: &str) -> Option<String> {
        let p = format!("{}/{}", path, x.tag);
        if x.tag != y.tag { return Some(format!("{}: element {} vs {}", path, x.tag, y.tag)); }
        if x.attrs != y.attrs { return Some(format!("{}: attributes {:?} vs {:?}", p, x.attrs, y.attrs)); }
        if x.set != y.set { return Some(format!("{}: set {:?} vs {:?}", p, x.set, y.set)); }
        if x.class != y.class { return Some(format!("{}: class {:?} vs {:?}", p, x.class, y.class)); }
        if x.subset != y.subset { return Some(format!("{}: subset {:?} vs {:?}", p, x.subset, y.subset)); }
        if x.processor != y.processor { return Some(format!("{}: processor {:?} vs {:?}", p, x.processor, y.processor)); }
        for (i, (a, b)) in x.items.iter().zip(y.items.iter()).enumerate() {
            match (a, b) {
                (Item::N(a), Item::N(b)) => if let Some(d) = go(a, b, &format!("{}[{}]", p, i)) { return Some(d); },
                (a, b) => if a != b { return Some(format!("{}[{}]: {} vs {}", p, i, brief(a), brief(b))); },
            }
        }
        if x.items.len() != y.items.len() { return Some(format!("{}: {} vs {} items; first extra: {}", p, x.items.len(), y.items.len(), brief(x.items.get(y.items.len()).or(y.items.get(x.items.len())).unwrap()))); }
        None
    }
    fn brief(i: &Item) -> String { match i { Item::N(n) => format!("<{}>", n.tag), Item::T(t) => format!("text {:?}", t), Item::C(c) => format!("comment {:?}", c) } }
    go(x, y, "").unwrap_or_else(|| "no difference".into())
}
pub fn diff_head(x: &Head, y: &Head) -> String {
    if x.id != y.id { return format!("document ID {:?} vs {:?}", x.id, y.id); }
    if x.decls != y.decls { return format!("declarations {:?} vs {:?}", x.decls, y.decls); }
    if x.chain != y.chain { return format!("provenance {:?} vs {:?}", x.chain, y.chain); }
    if x.meta != y.meta { return format!("metadata {:?} vs {:?}", x.meta, y.meta); }
    if x.submeta != y.submeta { return format!("submetadata {:?} vs {:?}", x.submeta, y.submeta); }
    "no difference".into()
}
