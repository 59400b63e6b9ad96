//! C20: reading never crashes and always ends
use super::{edit, io, Run};
use crate::gen::{self, docx, e};
use crate::{ctx::*, obs, vocab::*, xml::{self, X}};
use folia::*;
use folia::{AttribType as AA, ElementGroup as EG, ElementType as ET};

fn ends<I: Iterator>(it: I, bound: usize, what: &str) -> Result<usize, String> {
    let n = it.take(bound + 1).count();
    if n > bound { Err(format!("{} does not end (more than {} results)", what, bound)) } else { Ok(n) }
}
fn recursions() -> Vec<Recursion> {
    vec![Recursion::No, Recursion::Always, Recursion::LimitedTo(vec![AcceptedData::AcceptElementGroup(EG::Structure), AcceptedData::AcceptElementGroup(EG::Layer)]), Recursion::ExceptFor(vec![AcceptedData::AcceptElementType(ET::Word)])]
}
fn queries() -> Vec<Query> {
    let s = |x: &str| x.to_string();
    vec![Query::select(), Query::select().element(Cmp::Is(ET::Word)), Query::select().element(Cmp::Is(ET::PosAnnotation)).class(Cmp::Is(s("N"))), Query::select().elementgroup(Cmp::Is(EG::Span)).set(Cmp::None), Query::select().element(Cmp::Is(ET::Entity)).set(Cmp::Is(s("nowhere"))),
        Query::select().element(Cmp::Is(ET::Feature)).subset(Cmp::Is(s("x"))), Query::select().class(Cmp::Some), Query::select().processor(Cmp::Is(s("p9"))), Query::select().annotator(Cmp::Is(s("me"))), Query::select().annotatortype(Cmp::Is(ProcessorType::Auto)), Query::select().confidence(Cmp::Is(0.5)), Query::select().contexttype(Cmp::Is(ET::Sentence)).elementgroup(Cmp::None)]
}
/// every reading operation of a document, with these keys
fn read_all(d: &Document, keys: &[u32], k: &mut Case, full: bool) -> Result<(), String> {
    let n = obs::n_elements(d) as usize;
    let items: usize = (0..n as u32).map(|k| d.get_element(k).map_or(0, |x| x.elementdata().len() + 1)).sum();
    let bound = (items + 4) * (items.min(4000) + 4);
    let mut sum = 0u64;
    let mut ops = 0u64;
    macro_rules! see { ($x:expr) => { { ops += 1; sum = sum.wrapping_mul(31).wrapping_add(hash(&format!("{:?}", $x))); } } }
    macro_rules! len { ($x:expr, $w:expr) => { { ops += 1; let c = ends($x, bound, $w)?; sum = sum.wrapping_mul(31).wrapping_add(c as u64); } } }
    let selectors = || vec![Selector::all_data(), Selector::elements(), Selector::default().with_text(), Selector::default().with_comments(), Selector::elements().element(Cmp::Is(ET::Word)), Selector::elements().elementgroup(Cmp::Is(EG::Span))];
    let recs = recursions();
    let texts: Vec<TextParameters> = {
        let mut v = vec![TextParameters::new(), TextParameters::new().retaintokenisation(true), TextParameters::new().textclass("other"), TextParameters::new().set("nowhere"), TextParameters { set: None, textclass: None, strict: false, retaintokenisation: false }];
        v.push(TextParameters { strict: true, ..TextParameters::new() });
        v
    };
    let beyond = [n as u32, n as u32 + 1, u32::MAX];
    for key in keys.iter().chain(beyond.iter()).copied() {
        //by key, also if there is no such element
        for s in selectors() { for r in recs.iter() { for (inc, refs) in [(false, false), (true, false), (false, true), (true, true)] {
            len!(d.select_data_by_key(key, s.clone(), r.clone(), inc, refs), "selecting data");
            if full { len!(d.select_by_key(key, s.clone(), r.clone(), inc, refs), "selecting elements"); }
        } } len!(d.ancestors_by_key(key, s.clone()), "ancestors"); }
        for a in ANNOTATIONS.iter() { see!(d.get_layer_key(key, a.at, None).map_err(|_| ())); if full { see!(d.get_layer_key(key, a.at, Some("nowhere")).map_err(|_| ())); } }
        for t in texts.iter() { see!(d.text(key, t).map_err(|_| ())); }
        for (dk, ck) in [(0, 0), (1, 0), (0, 7), (u16::MAX, u32::MAX)] { see!(d.text_by_key(key, dk, ck, false, false).map_err(|_| ())); }
        for indent in [0, 1, 4] { if key < n as u32 { see!(d.xml(key, indent).map_err(|_| ()).map(|v| v.len())); } else { see!(d.xml(key, indent).map_err(|_| ()).map(|v| v.len())); } }
        let x = match d.get_element(key) { Some(x) => x, None => continue };
        if key >= n as u32 { return Err(format!("there is an element {} of {}", key, n)); }
        see!(x.key()); see!(x.elementtype()); see!(x.attribs().len()); see!(x.set()); see!(x.subset()); see!(x.class()); see!(x.processor()); see!(x.annotator()); see!(x.annotatortype()); see!(x.id());
        see!(x.class_key()); see!(x.subset_key()); see!(x.declaration_key()); see!(x.processor_key()); see!(x.parent_key()); see!(x.get_declaration().is_some()); see!(x.get_processor().is_some());
        see!(x.get_parent().and_then(|p| p.key())); see!(x.get_index()); see!(x.resolve().and_then(|p| p.key())); see!(x.elementdata().confidence()); see!(x.elementdata().idref()); see!(x.elementdata().is_empty());
        for t in super::attr::TYPES.iter() { see!(x.attrib(*t)); see!(x.has_attrib(*t)); }
        see!(x.attrib(AA::NONE));
        for a in x.attribs().iter() { see!(a.as_str().map_err(|_| ())); see!(a.to_string().map_err(|_| ())); if !a.decodable() && *a != Attribute::Ignore { see!(format!("{}", a)); } }
        for indent in [0, 2] { see!(x.xml(indent).map_err(|_| ()).map(|s| s.len())); }
        for t in texts.iter() { see!(x.text(t).map_err(|_| ())); }
        for r in [false, true] { see!(x.get_textdelimiter(r).map_err(|_| ())); }
        see!(d.get_span_keys(x.elementdata()));
        for i in [0, 1, x.elementdata().len(), usize::MAX] { see!(x.elementdata().get_data_at(i)); if let Some(i) = x.elementdata().get_data_at(i) { see!(x.elementdata().index(i)); } }
        for s in selectors() { for r in recs.iter() { len!(x.select(s.clone(), r.clone()), "select"); len!(x.select_data(s.clone(), r.clone(), true), "select_data"); } len!(x.ancestors(s.clone()), "ancestors"); }
        let sets = [Cmp::Any, Cmp::None, Cmp::Some, Cmp::Is("nowhere".to_string())];
        for a in ANNOTATIONS.iter() {
            if !full && a.at as u8 % 9 != 0 { continue; }
            for s in sets.iter() { see!(x.get_annotation(a.at, s.clone(), Recursion::No).and_then(|x| x.key())); len!(x.get_annotations(a.at, s.clone(), recs[1 + a.at as usize % 3].clone()), "get_annotations"); }
        }
        for et in [ET::Word, ET::Entity, ET::TextContent, ET::Correction, ET::Text, ET::Feature, ET::WordReference] {
            for s in sets.iter() {
                for r in recs.iter() { len!(x.get_elements(et, s.clone(), r.clone()), "get_elements"); see!(x.get_element(et, s.clone(), r.clone()).and_then(|x| x.key())); }
                len!(x.get_ancestors(et, s.clone()), "get_ancestors"); see!(x.get_ancestor(et, s.clone()).and_then(|x| x.key()));
            }
        }
        for g in super::schema::GROUPS.iter() { for s in sets.iter() { len!(x.get_ancestors_by_group(*g, s.clone()), "get_ancestors_by_group"); see!(x.get_ancestor_by_group(*g, s.clone()).and_then(|x| x.key())); } }
        for s in sets.iter() { len!(x.get_features(s.clone()), "get_features"); see!(x.get_feature(s.clone()).and_then(|x| x.key())); }
        for v in ELEMENTS.iter() { if full || v.et as u8 % 7 == 0 { see!(d.check_element_addable(key, &ElementData::new(v.et)).map_err(|_| ())); } }
    }
    for s in selectors() {
        for r in recs.iter() { len!(d.select(s.clone(), r.clone()), "select in the document"); for refs in [false, true] { len!(d.select_data(s.clone(), r.clone(), refs), "select_data in the document"); } }
        see!(d.common_ancestors(s.clone(), &[]));
        for a in keys.iter().take(12) { see!(d.common_ancestors(s.clone(), &[*a])); for b in keys.iter().rev().take(12) { see!(d.common_ancestors(s.clone(), &[*a, *b])); } see!(d.common_ancestors(s.clone(), &[*a, u32::MAX])); }
        see!(d.common_ancestors(s.clone(), &keys[..keys.len().min(40)]));
    }
    for q in queries() { ops += 1; if let Ok(s) = Selector::from_query(d, &q) { for r in recs.iter() { len!(d.select(s.clone(), r.clone()), "a query"); } for k in keys.iter().take(20) { see!(s.matches(d, &DataType::Element(*k))); } } }
    for i in [DataType::Element(u32::MAX), DataType::Text("x".to_string()), DataType::Comment("x".to_string()), DataType::SpanReference(u32::MAX)] { for s in selectors() { see!(s.matches(d, &i)); } }
    for a in ANNOTATIONS.iter() { see!(d.get_default_set(a.at)); }
    let nd = d.declarations().count() as u16;
    for i in (0..nd.min(20)).chain([nd, u16::MAX]) {
        see!(d.get_declaration(i).map(|x| (x.default_processor(), x.class_key("x"), x.subset_key("x"), x.subclass_key("x"))));
        if let Some(x) = d.get_declaration(i) { for c in [0, 1, u16::MAX as u32, u32::MAX] { see!(x.get_class(c)); see!(x.get_subclass(c)); see!(x.get_subset(c as u16)); } }
        see!(d.class_key(i, "x").map_err(|_| ()));
    }
    for i in [0, 1, u16::MAX] { see!(d.get_processor(i).map(|x| x.id.clone())); }
    for i in ["", "x", "doc", "w1", "nowhere"] { see!(d.get_element_by_id(i).and_then(|x| x.key())); see!(d.get_element_key_by_id(i)); see!(d.get_processor_by_id(i).is_some()); see!(d.get_declaration_by_id(i).is_some()); }
    see!(d.id()); see!(d.filename());
    k.transitions += ops;
    k.states += 1; k.traces += 1;
    k.outcome(&sum);
    Ok(())
}
fn everything(d: &Document, k: &mut Case, full: bool) -> Result<(), String> {
    let keys: Vec<u32> = (0..obs::n_elements(d)).collect();
    read_all(d, &keys, k, full)
}
/// shapes that are deep or wide
fn shapes() -> Vec<(&'static str, Box<dyn Fn(usize) -> String + Sync>)> {
    fn nest(open: &str, close: &str, n: usize, inner: &str) -> String { format!("{}{}{}", open.repeat(n), inner, close.repeat(n)) }
    fn doc(body: String) -> String { format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"><annotations><text-annotation set=\"{}\"/></annotations></metadata><text xml:id=\"doc.text\">{}</text></FoLiA>", super::text::TEXTSET, body) }
    let mut v: Vec<(&'static str, Box<dyn Fn(usize) -> String + Sync>)> = vec![];
    macro_rules! shape { ($name:expr, |$n:ident| $b:expr) => { v.push(($name, Box::new(move |$n: usize| doc($b)))); } }
    shape!("divisions", |n| nest("<div>", "</div>", n, "<p><s><w xml:id=\"w1\"><t>x</t></w></s></p>"));
    shape!("words", |n| nest("<w>", "</w>", n, "<t>x</t>"));
    shape!("morphemes", |n| format!("<w><morphology>{}</morphology></w>", nest("<morpheme>", "</morpheme>", n, "<t>x</t>")));
    shape!("style", |n| format!("<p><t>{}</t></p>", nest("<t-style>a", "b</t-style>", n, "x")));
    shape!("hyphenated", |n| format!("<p><t>{}</t></p>", nest("<t-str>", "<t-hbr/></t-str>", n, "x")));
    shape!("syntax", |n| format!("<s><w xml:id=\"w1\"><t>x</t></w><syntax>{}</syntax></s>", nest("<su>", "</su>", n, "<wref id=\"w1\"/>")));
    shape!("syntax at each level", |n| format!("<s><w xml:id=\"w1\"><t>x</t></w><syntax>{}</syntax></s>", nest("<su><wref id=\"w1\"/>", "</su>", n, "")));
    shape!("corrections", |n| nest("<correction><new><w>", "</w></new></correction>", n, "<t>x</t>"));
    shape!("suggestions", |n| nest("<correction><original><w>", "</w></original><suggestion/></correction>", n, "<t>x</t>"));
    shape!("alternatives", |n| format!("<w>{}</w>", nest("<alt><w>", "</w></alt>", n, "<t>x</t>")));
    shape!("quotes and sentences", |n| nest("<s><quote>", "</quote></s>", n, "<w><t>x</t></w>"));
    shape!("lists", |n| nest("<list><item>", "</item></list>", n, "<t>x</t>"));
    shape!("features", |n| format!("<w><pos class=\"x\">{}</pos></w>", "<feat subset=\"a\" class=\"b\"/>".repeat(n)));
    shape!("many words", |n| (0..n).map(|i| format!("<w xml:id=\"v{}\"><t>x</t></w>", i)).collect());
    shape!("many paragraphs", |n| "<p><s><w><t>x</t></w></s></p>".repeat(n));
    shape!("many texts", |n| format!("<w>{}</w>", "<t class=\"other\">y</t>".repeat(n)));
    shape!("much text", |n| format!("<w><t>{}</t></w>", "x".repeat(n * 10)));
    shape!("much markup", |n| format!("<w><t>{}</t></w>", "a<t-style/>".repeat(n)));
    shape!("many comments", |n| format!("<w>{}</w>", "<!-- c --><comment>d</comment>".repeat(n)));
    shape!("a long span", |n| format!("<s>{}<entities><entity>{}</entity></entities></s>", (0..n).map(|i| format!("<w xml:id=\"v{}\"><t>x</t></w>", i)).collect::<String>(), (0..n).map(|i| format!("<wref id=\"v{}\"/>", i)).collect::<String>()));
    shape!("many spans of one word", |n| format!("<s><w xml:id=\"w1\"><t>x</t></w><entities>{}</entities></s>", "<entity><wref id=\"w1\"/></entity>".repeat(n)));
    shape!("many layers", |n| format!("<s><w xml:id=\"w1\"><t>x</t></w>{}</s>", "<entities><entity><wref id=\"w1\"/></entity></entities>".repeat(n)));
    v
}

pub fn c20(c: &Ctx) -> Run {
    let mut fams = vec![gen::f_pairs(), gen::f_spans(!c.quick()), gen::f_trees(2), gen::f_mixed(2)];
    if !c.quick() { fams.extend([gen::f_triples(), gen::f_attrs(), gen::f_short()]); }
    for f in fams.iter() {
        c.bound(&format!("every reading operation with every element of {}: {}", f.name, f.what));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            let s = xml::write(&x, &xml::PLAIN);
            k.describe(s.clone());
            match io::load(&s) { Ok(d) => everything(&d, k, i % 16 == 0 || !matches!(f.name, "triples")), Err(_) => Ok(()) }
        });
    }
    //references among words and spans, circular ones too
    let nw = c.pick(2, 3);
    let per = 32u64;
    c.bound(&format!("{} words, each with a span annotation in it with references to any of the words, their sentence, a span annotation and that itself", nw));
    c.sweep("references", per.pow(nw as u32) * 2, |i, k| {
        let mut ix = gen::Ix(i);
        let late = ix.take(2) == 1;
        let mut s = e("s").a("xml:id", "s");
        let mut outer = e("entities");
        for w in 1..=nw {
            let mask = ix.take(per as usize);
            let mut en = e("entity").a("xml:id", &format!("e{}", w));
            for (b, id) in ["w1", "w2", "s", "e1", &format!("w{}", w)].iter().enumerate() { if mask >> b & 1 == 1 { en = en.e(e("wref").a("id", id)); } }
            let mut word = e("w").a("xml:id", &format!("w{}", w)).e(e("t").t("x"));
            if late { outer = outer.e(en); } else { word = e("w").a("xml:id", &format!("w{}", w)).e(e("entities").e(en)); }
            s = s.e(word);
        }
        if late { s = s.e(outer); }
        let x: X = docx(vec![gen::decl_x("text", Some(super::text::TEXTSET), None, &[])], None, vec![s]);
        let t = xml::write(&x, &xml::PLAIN);
        k.describe(t.clone());
        match io::load(&t) { Ok(d) => everything(&d, k, false), Err(_) => Ok(()) }
    });
    //built documents
    let depth = c.pick(2, 3);
    c.bound(&format!("documents that histories of up to {} operations build, with orphans and moved elements", depth));
    edit::histories_docs(c, "built", depth, |d, k| everything(d, k, false));
    //deep and wide
    let shapes = shapes();
    let sizes: Vec<usize> = c.pick(vec![1, 2, 10, 100, 500, 1000], vec![1, 2, 3, 5, 10, 30, 100, 300, 500, 700, 900, 999, 1000, 1001]);
    c.bound(&format!("{} deep or wide shapes, of sizes {:?}, read with a stack of 8 MB", shapes.len(), sizes));
    c.sweep_stack("shapes", (shapes.len() * sizes.len()) as u64, 8 << 20, |i, k| {
        let (name, f) = &shapes[i as usize % shapes.len()];
        let n = sizes[i as usize / shapes.len()];
        k.describe(format!("{} of size {}", name, n));
        let s = f(n);
        let d = io::load(&s).map_err(|e| format!("{} of size {} is refused: {}", name, n, e))?;
        let m = obs::n_elements(&d);
        let mut keys: Vec<u32> = if m < 30 { (0..m).collect() } else { vec![0, 1, 2, m / 2, m - 2, m - 1] };
        keys.dedup();
        read_all(&d, &keys, k, false)
    });
    Run { assumptions: &["a panic, a dead process and a result that does not come are seen as such; results themselves are the matter of other properties"], explanation: "every public reading operation, with every element and with keys of none, on every document of the families; iterators must end within a bound that is quadratic in the size of the document, and a case that takes minutes is reported" }
}
