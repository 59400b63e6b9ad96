//! Families of documents: each is a finite space, every member of which has an index.
use crate::sem::ATTRS;
use crate::vocab::*;
use crate::xml::X;
use folia::{ElementGroup as EG, ElementType as ET};

/// Mixed-radix digits of an index
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: usize) -> usize { let d = (self.0 % n as u64) as usize; self.0 /= n as u64; d }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.take(xs.len())] }
}
pub struct Fam { pub name: &'static str, pub what: String, pub n: u64, pub make: Box<dyn Fn(u64) -> Option<X> + Sync> }
fn fam<F: Fn(u64) -> Option<X> + Sync + 'static>(name: &'static str, what: &str, n: u64, f: F) -> Fam { Fam { name, what: what.to_string(), n, make: Box::new(f) } }

pub fn e(t: &str) -> X { X::new(t) }
pub fn decl_x(name: &str, set: Option<&str>, alias: Option<&str>, annotators: &[&str]) -> X {
    e(&format!("{}-annotation", name)).oa("set", set).oa("alias", alias).es(annotators.iter().map(|p| e("annotator").a("processor", p)).collect())
}
pub fn procs2() -> X { e("provenance").e(e("processor").a("xml:id", "p1").a("name", "one")).e(e("processor").a("xml:id", "p2").a("name", "two").a("type", "manual").e(e("processor").a("xml:id", "p3").a("name", "three"))) }
pub fn docx(decls: Vec<X>, prov: Option<X>, body: Vec<X>) -> X {
    let mut m = e("metadata").a("type", "native").e(e("annotations").es(decls));
    if let Some(p) = prov { m = m.e(p); }
    e("FoLiA").a("xml:id", "doc").a("version", "2.0.0").e(m).e(e("text").a("xml:id", "doc.text").es(body))
}
pub fn values(name: &str) -> &'static [&'static str] {
    match name {
        "confidence" => &["0", "1", "0.5", "-0.0", "1e-7", "0.30000000000000004", "1.7976931348623157e308", "x", ""],
        "space" | "newpage" => &["yes", "no", "true", "false", "1", ""],
        "offset" | "linenr" => &["0", "7", "65535", "65536", "-1", "x"],
        "datetime" => &["2020-02-29T23:59:59", "1999-12-31T00:00:00", "2019-02-29T00:00:00", "2020-01-01", "x"],
        "annotatortype" => &["auto", "manual", "generator", "datasource", "robot"],
        "xml:id" => &["a", "b.c-1_2", "\u{e9}"],
        "processor" => &["p1", "p3", "nobody"],
        _ => &["v", "two words", "a&b<c>\"d'", ""],
    }
}
/// an element of the type that can be loaded anywhere in a document
pub fn sample(vv: &V) -> X {
    let x = e(vv.tag);
    if vv.et == ET::WordReference { x.a("id", "w1") } else if vv.tc || vv.pc { x.t("x") } else { x }
}
/// a context that accepts everything there: a word, a span in a layer
fn context(inner: Vec<X>) -> X {
    docx(vec![], Some(procs2()), vec![e("p").e(e("s").e(e("w").a("xml:id", "w1").e(e("t").t("one")))
        .e(e("entities").e(e("entity").a("class", "c").e(e("wref").a("id", "w1")).es(inner))))])
}
pub fn types() -> Vec<&'static V> { ELEMENTS.iter().filter(|v| v.parses_as.is_some()).collect() }
fn attr_values() -> Vec<(&'static str, &'static str)> { ATTRS.iter().flat_map(|a| values(a).iter().map(move |v| (*a, *v))).collect() }

/// Every element type with every attribute and value
pub fn f_attrs() -> Fam {
    let (ts, av) = (types(), attr_values());
    let n = (ts.len() * (av.len() + 1)) as u64;
    fam("attrs", &format!("{} element types x {} attribute values", ts.len(), av.len() + 1), n, move |i| {
        let mut i = Ix(i);
        let vv = *i.pick(&ts);
        let k = i.take(av.len() + 1);
        let mut x = sample(vv);
        if k > 0 { let (an, val) = av[k - 1]; x.attrs.retain(|a| a.0 != an); x = x.a(an, val); }
        Some(context(vec![x]))
    })
}
/// The element with all content, text or speech, with every attribute and value
pub fn f_bodies() -> Fam {
    let av: Vec<(&'static str, &'static str)> = attr_values().into_iter().filter(|(a, _)| !["class", "set", "processor"].contains(a)).collect();
    const CONTENTS: usize = 6;
    fam("bodies", &format!("2 kinds of body x with and without identifier x {} attribute values x {} contents", av.len() + 1, CONTENTS), (2 * 2 * (av.len() + 1) * CONTENTS) as u64, move |i| {
        let mut i = Ix(i);
        let mut x = e(["text", "speech"][i.take(2)]);
        if i.take(2) == 1 { x = x.a("xml:id", "body"); }
        let k = i.take(av.len() + 1);
        if k > 0 { let (an, val) = av[k - 1]; if x.attrs.iter().any(|a| a.0 == an) { return None; } x = x.a(an, val); }
        let x = match i.take(CONTENTS) {
            0 => x,
            1 => x.e(e("event").a("xml:id", "ev").a("class", "c").e(e("utt").e(e("t").t("said")))),
            2 => x.e(e("p").e(e("t").t("written"))).e(e("p").a("xml:id", "p2")),
            3 => x.c("remark").e(e("t").t("all of it")),
            4 => x.e(e("ph").t("pho")).e(e("desc").t("d")),
            _ => x.e(e("w").a("xml:id", "w1")).e(e("entities").e(e("entity").a("class", "c").e(e("wref").a("id", "w1")))),
        };
        let mut d = docx(vec![], Some(procs2()), vec![]);
        d.items.pop();
        Some(d.e(x))
    })
}
/// Every element type with every pair of attributes
pub fn f_attrs2() -> Fam {
    let ts = types();
    let m = ATTRS.len();
    fam("attrs2", &format!("{} element types x all pairs of {} attributes", ts.len(), m), (ts.len() * m * m) as u64, move |i| {
        let mut i = Ix(i);
        let vv = *i.pick(&ts);
        let (a, b) = (i.take(m), i.take(m));
        if a >= b { return None; }
        let mut x = sample(vv);
        for k in [a, b] { x.attrs.retain(|o| o.0 != ATTRS[k]); x = x.a(ATTRS[k], values(ATTRS[k])[0]); }
        Some(context(vec![x]))
    })
}
/// Every element type with each of its feature attributes
pub fn f_short() -> Fam {
    let mut c: Vec<(&'static V, &'static str)> = vec![];
    for vv in types() { for f in ELEMENTS { if let Some(s) = f.subset { if !c.iter().any(|o| o.0.et == vv.et && o.1 == s) { c.push((vv, s)); } } } }
    let vals = ["f", "", "a&b"];
    fam("short", &format!("{} pairs of an element type and a feature attribute (accepted or not) x 3 values x content", c.len()), (c.len() * vals.len() * 3) as u64, move |i| {
        let mut i = Ix(i);
        let (vv, s) = *i.pick(&c);
        let val = *i.pick(&vals);
        let mut x = sample(vv).a(s, val);
        match i.take(3) { 1 => x = x.e(e("feat").a("subset", "q").a("class", "z")), 2 => x = x.a("class", "k"), _ => {} }
        Some(context(vec![x]))
    })
}
/// Elements with two features as attributes, in either order, and features as elements
pub fn f_short2() -> Fam {
    let mut c: Vec<(&'static V, &'static str, &'static str)> = vec![];
    for vv in types() {
        let of: Vec<&'static str> = { let mut s: Vec<&'static str> = vec![]; for f in ELEMENTS { if let Some(x) = f.subset { if !s.contains(&x) && crate::sem::shorthand(vv.et, x) { s.push(x); } } } s };
        for a in &of { for b in &of { if a != b { c.push((vv, a, b)); } } }
    }
    fam("short2", &format!("{} pairs of feature attributes of the same element x 4 pairs of values x content", c.len()), (c.len() * 4 * 2) as u64, move |i| {
        let mut i = Ix(i);
        let (vv, s, t) = *i.pick(&c);
        let (a, b) = *i.pick(&[("f", "g"), ("f", "f"), (" a", "b "), ("g", "f")]);
        let mut x = sample(vv).a(s, a).a(t, b);
        if i.take(2) == 1 { x = x.e(e("feat").a("subset", "q").a("class", a)).e(e("feat").a("subset", s).a("class", b)); }
        Some(context(vec![x]))
    })
}
const KINDS: usize = 9;
fn use_kind(kind: usize, set: Option<&str>, class: Option<&str>, proc: Option<&str>) -> (X, &'static str) {
    let an = |t: &str| e(t).oa("set", set).oa("class", class).oa("processor", proc);
    match kind {
        0 => (an("pos"), "pos"),
        1 => (e("entities").e(an("entity").e(e("wref").a("id", "w1"))), "entity"),
        2 => (e("pos").a("class", "k").e(an("feat").a("subset", "sub")), "pos"),
        3 => (e("correction").e(an("new").e(e("pos").a("class", "q"))), "correction"),
        4 => (e("dependencies").e(e("dependency").a("class", "d").e(an("hd").e(e("wref").a("id", "w1")))), "dependency"),
        5 => (an("t").t("x"), "text"),
        6 => (e("list").e(an("item").t("i")), "list"),
        7 => (an("entities").e(e("entity").oa("set", set).a("class", "k")), "entity"),
        _ => (an("pos").e(e("feat").oa("set", set).a("subset", "s1").a("class", "c1")).e(e("feat").a("subset", "s2").a("class", "k")), "pos"),
    }
}
/// Declarations x how annotations refer to them
pub fn f_decls(full: bool) -> Fam {
    //(set, alias) of each declaration
    let shapes: &[(Option<&str>, Option<&str>)] = &[(None, None), (Some("A"), None), (Some("B"), None), (Some("A"), Some("al"))];
    let sets: &'static [Option<&'static str>] = &[None, Some("A"), Some("B"), Some("al"), Some("C")];
    let classes: &'static [Option<&'static str>] = if full { &[None, Some("x"), Some("y")] } else { &[Some("x")] };
    let procs: &'static [Option<&'static str>] = if full { &[None, Some("p1"), Some("p2"), Some("nobody")] } else { &[None, Some("p2")] };
    let mut decls: Vec<Vec<X>> = vec![];
    let annot: &[&[&str]] = &[&[], &["p1"], &["p1", "p2"]];
    //kind-independent part is renamed below
    decls.push(vec![]);
    for a in shapes { for x in annot {
        decls.push(vec![decl_x("*", a.0, a.1, x)]);
        for b in shapes { for y in &annot[..2] { if a.0 != b.0 { decls.push(vec![decl_x("*", a.0, a.1, x), decl_x("*", b.0, b.1, y)]); } } }
    } }
    let per = sets.len() * classes.len() * procs.len();
    let n = (KINDS * decls.len() * per * per) as u64;
    fam("decls", &format!("{} declaration patterns x {} kinds of annotation x {}^2 ways to refer to them", decls.len(), KINDS, per), n, move |i| {
        let mut i = Ix(i);
        let kind = i.take(KINDS);
        let mut ds = i.pick(&decls).clone();
        let mut us = vec![];
        let mut name = "";
        for _ in 0..2 {
            let (s, c, p) = (*i.pick(sets), *i.pick(classes), *i.pick(procs));
            let (x, n) = use_kind(kind, s, c, p);
            us.push(x);
            name = n;
        }
        for d in ds.iter_mut() { d.tag = format!("{}-annotation", name); }
        Some(docx(ds, Some(procs2()), vec![e("s").e(e("w").a("xml:id", "w1")).es(us)]))
    })
}
/// the ordered forests with n nodes, as parent-depth sequences
pub fn forests(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n { out.push(cur.clone()); return; }
        let max = cur.last().map_or(0, |d| d + 1);
        for d in 0..=max { cur.push(d); go(cur, n, out); cur.pop(); }
    }
    go(&mut vec![], n, &mut out);
    out
}
/// builds a forest from nodes in document order with their depths
pub fn build(nodes: Vec<(usize, X)>) -> Vec<X> {
    let mut stack: Vec<X> = vec![X::new("root")];
    for (d, x) in nodes {
        while stack.len() > d + 1 { let t = stack.pop().unwrap(); stack.last_mut().unwrap().items.push(crate::xml::XI::E(t)); }
        stack.push(x);
    }
    while stack.len() > 1 { let t = stack.pop().unwrap(); stack.last_mut().unwrap().items.push(crate::xml::XI::E(t)); }
    stack.pop().unwrap().items.into_iter().map(|i| if let crate::xml::XI::E(x) = i { x } else { unreachable!() }).collect()
}
pub const LABELS: usize = 9;
fn label(k: usize, i: usize) -> X {
    match k {
        0 => e("p"), 1 => e("s").a("xml:id", &format!("s{}", i)), 2 => e("w").a("class", "W"), 3 => e("t").t(&format!("x{} ", i)), 4 => e("pos").a("class", "N"),
        5 => e("entities"), 6 => e("entity").a("class", "E"), 7 => e("feat").a("subset", "f").a("class", &format!("v{}", i)), _ => e("correction").c(" note "),
    }
}
/// All ordered forests over a small alphabet of elements
pub fn f_trees(max: usize) -> Fam {
    let mut shapes: Vec<Vec<usize>> = vec![];
    let mut n = 0u64;
    let mut starts = vec![];
    for k in 0..=max { for f in forests(k) { starts.push(n); n += (LABELS as u64).pow(k as u32); shapes.push(f); } }
    fam("trees", &format!("all ordered forests of up to {} nodes labelled with {} kinds of element", max, LABELS), n, move |i| {
        let s = starts.partition_point(|a| *a <= i) - 1;
        let mut ix = Ix(i - starts[s]);
        let nodes = shapes[s].iter().enumerate().map(|(k, d)| (*d, label(ix.take(LABELS), k))).collect();
        Some(docx(vec![], None, build(nodes)))
    })
}
/// All pairs of nested element types
pub fn f_pairs() -> Fam {
    let ts = types();
    let n = (ts.len() * ts.len() * 2) as u64;
    fam("pairs", &format!("all {0}x{0} pairs of parent and child type, with and without set, class and text", ts.len()), n, move |i| {
        let mut i = Ix(i);
        let (a, b) = (*i.pick(&ts), *i.pick(&ts));
        let rich = i.take(2) == 1;
        let mk = |v: &V, c: &str| if rich && v.et != ET::WordReference { sample(v).a("set", "S").a("class", c) } else { sample(v) };
        let mut x = mk(a, "c1");
        x = x.e(mk(b, "c2"));
        if rich { x = x.t("tail"); }
        Some(context(vec![x]))
    })
}
/// All triples of nested element types
pub fn f_triples() -> Fam {
    let ts = types();
    fam("triples", &format!("all {0}x{0}x{0} triples of nested types", ts.len()), (ts.len() * ts.len() * ts.len()) as u64, move |i| {
        let mut i = Ix(i);
        let (a, b, c) = (*i.pick(&ts), *i.pick(&ts), *i.pick(&ts));
        Some(context(vec![sample(a).e(sample(b).e(if c.et == ET::WordReference { sample(c) } else { sample(c).a("class", "c") }))]))
    })
}
/// all strings over an alphabet up to a length
pub fn strings(alpha: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max { let mut next = vec![]; for s in &last { for c in alpha { let mut t = s.clone(); t.push(*c); next.push(t); } } out.extend(next.iter().cloned()); last = next; }
    out
}
pub const PLACES: usize = 13;
pub fn place(k: usize, s: &str) -> Option<X> {
    let w = e("w").a("xml:id", "w1");
    let x = match k {
        0 => w.e(e("t").t(s)),
        1 => w.e(e("t").t("a").e(e("t-str").t(s)).t("b")),
        2 => w.e(e("desc").t(s)),
        3 => w.e(e("comment").t(s)),
        4 => { if s.contains('\r') || s.contains("--") || s.ends_with('-') { return None; } w.c(s) }
        5 => w.e(e("pos").a("class", s)),
        6 => w.e(e("pos").a("class", "c").a("n", s)),
        7 => w.e(e("pos").a("class", "c").e(e("feat").a("subset", s).a("class", s))),
        8 => w.e(e("lemma").a("set", s).a("class", "c")),
        9 => w.e(e("pos").a("class", "c").a("head", s)),
        10 => w.e(e("ph").t(s)),
        11 => { if s.is_empty() { return None; } return Some(docx(vec![], None, vec![e("s").e(e("w").a("xml:id", s)).e(e("w").a("xml:id", "other")).e(e("entities").e(e("entity").a("class", "c").e(e("wref").a("id", s))))])) }
        _ => e("gap").e(e("content").t(s)),
    };
        Some(docx(vec![], None, vec![e("s").e(x)]))
}
/// Strings of special characters in every place where there can be a string
pub fn f_strings(max: usize) -> Fam {
    let alpha = ['a', '&', '<', '>', '"', '\'', ' ', '\n', '\u{e9}', ']', '-', ';', '\r', '\t', '\u{1f600}'];
    let ss = strings(&alpha, max);
    fam("strings", &format!("all strings of up to {} characters over {:?} in {} places", max, alpha, PLACES), (ss.len() * PLACES) as u64, move |i| {
        let mut i = Ix(i);
        let k = i.take(PLACES);
        place(k, i.pick(&ss))
    })
}
/// Every character that can be in XML, alone and at the ends and in the middle of a string
pub fn f_chars(full: bool) -> Fam {
    let ok = |c: &u32| char::from_u32(*c).map_or(false, |c| !matches!(c, '\u{0}'..='\u{1f}' | '\u{7f}' | '\u{fffe}' | '\u{ffff}') || matches!(c, '\t' | '\n' | '\r'));
    let mut cs: Vec<u32> = (9..if full { 0x3100 } else { 0x180 }).collect();
    if full { cs.extend((0x3100..0x1_0000).step_by(0x10)); cs.extend((0x1_0000..0x11_0000).step_by(0x400)); }
    cs.extend(&[0x17f, 0x2bc, 0x300, 0x301, 0x378, 0x3a3, 0x3c2, 0x5d0, 0x627, 0x640, 0x7ff, 0x800, 0xe33, 0x1100, 0x1680, 0x180e, 0x1e9e]);
    cs.extend(0x2000..0x2010); cs.extend(0x2026..0x2030); cs.extend(0x205f..0x2065);
    cs.extend(&[0x20ac, 0x212a, 0x3000, 0x3001, 0x4e00, 0xac00, 0xd7ff, 0xe000, 0xfb01, 0xfdd0, 0xfe0f, 0xfeff, 0xff01, 0xfffc, 0xfffd, 0x1_0000, 0x1_03ff, 0x1_f600, 0x1_f1e6, 0x2_0000, 0xe_0001, 0xf_ffff, 0x10_fffd]);
    cs.sort(); cs.dedup();
    cs.retain(ok);
    fam("chars", &format!("{} characters, alone, before, after and within other text, in {} places", cs.len(), PLACES), (cs.len() * 4 * PLACES) as u64, move |i| {
        let mut i = Ix(i);
        let (k, f, c) = (i.take(PLACES), i.take(4), char::from_u32(*i.pick(&cs)).unwrap());
        place(k, &match f { 0 => format!("{}", c), 1 => format!("{}b", c), 2 => format!("a{}", c), _ => format!("a{}b", c) })
    })
}
/// Long strings
pub fn f_lengths(full: bool) -> Fam {
    let mut ns: Vec<usize> = vec![];
    for p in 8..=16 { for d in if full { -3..=3 } else { -1..=1 } { ns.push(((1i64 << p) + d) as usize); } }
    ns.extend([1000, 10_000, 70_000, 100_000]);
    let units = ["x", "\u{e9}", "a b", "\u{20ac}&", "\u{1f600}"];
    fam("lengths", &format!("strings of {} lengths up to {} of {} kinds in {} places", ns.len(), 100_000, units.len(), PLACES), (ns.len() * units.len() * PLACES) as u64, move |i| {
        let mut i = Ix(i);
        let (k, n, u) = (i.take(PLACES), *i.pick(&ns), *i.pick(&units));
        place(k, &u.chars().cycle().take(n).collect::<String>())
    })
}
/// Mixed content
pub fn f_mixed(max: usize) -> Fam {
    const M: usize = 8;
    let mut n = 0u64;
    let mut starts = vec![];
    for k in 0..=max { starts.push(n); n += (M as u64).pow(k as u32) * 5; }
    fam("mixed", &format!("all sequences of up to {} pieces (text, space, markup, nested markup, line break, comment, feature, ...) in 5 kinds of element", max), n, move |i| {
        let k = starts.partition_point(|a| *a <= i) - 1;
        let mut ix = Ix(i - starts[k]);
        let mut x = match ix.take(5) { 0 => e("t"), 1 => e("ph"), 2 => e("desc"), 3 => e("t-style"), _ => e("quote") };
        for _ in 0..k {
            x = match ix.take(M) { 0 => x.t("a"), 1 => x.t(" "), 2 => x.e(e("t-str").t("b")), 3 => x.e(e("t-style").a("class", "i").e(e("t-str").t("n")).t("\n")), 4 => x.e(e("br")), 5 => x.c("cm"), 6 => x.t("b&<"), _ => x.e(e("t-gap").a("class", "g").a("n", "1")) };
        }
        if x.tag == "t-style" { x = e("t").e(x); }
        Some(docx(vec![], None, vec![e("s").e(e("w").e(x))]))
    })
}
/// Words and span annotations that refer to them, in any order
pub fn f_spans(full: bool) -> Fam {
    //a sentence with 2 words and 2 layers in any order; each layer has up to 2 spans; each refers to a subset of words, directly, in a head, or in a nested span
    let perms: Vec<[usize; 4]> = { let mut o = vec![]; for a in 0..4 { for b in 0..4 { for c in 0..4 { for d in 0..4 { if a != b && a != c && a != d && b != c && b != d && c != d { o.push([a, b, c, d]); } } } } } o };
    let refs: &'static [&'static [&'static str]] = if full { &[&[], &["w1"], &["w2"], &["w1", "w2"], &["w2", "w1"], &["w1", "w1"], &["w3"]] } else { &[&[], &["w1"], &["w1", "w2"], &["w3"]] };
    let forms = 4usize;
    let n = (perms.len() * (refs.len() * forms).pow(2)) as u64;
    fam("spans", &format!("{} orders of 2 words and 2 layers x ({} reference lists x {} forms)^2", perms.len(), refs.len(), forms), n, move |i| {
        let mut i = Ix(i);
        let perm = *i.pick(&perms);
        let mut layers = vec![];
        for l in 0..2 {
            let r: Vec<X> = i.pick(refs).iter().map(|w| e("wref").a("id", w)).collect();
            let f = i.take(forms);
            layers.push(match f {
                0 => e("entities").e(e("entity").a("xml:id", &format!("e{}", l)).a("class", "c").es(r)),
                1 => e("dependencies").e(e("dependency").a("xml:id", &format!("e{}", l)).a("class", "c").e(e("hd").es(r))),
                2 => e("syntax").e(e("su").a("xml:id", &format!("e{}", l)).a("class", "c").e(e("su").a("class", "d").es(r))),
                _ => e("chunking").e(e("chunk").a("class", "c").e(e("wref").a("id", "w1").a("t", "one"))).e(e("chunk").a("class", "d").es(r)),
            });
        }
        let mut s = e("s").a("xml:id", "s1");
        for k in perm { s = s.e(match k { 0 => e("w").a("xml:id", "w1").e(e("t").t("one")), 1 => e("w").a("xml:id", "w2").a("space", "no").e(e("t").t("two")), 2 => layers[0].clone(), _ => layers[1].clone() }); }
        Some(docx(vec![], None, vec![s]))
    })
}
/// Documents in which there are many of something
pub fn f_sizes(full: bool) -> Fam {
    let mut ns: Vec<usize> = (1..=17).collect();
    ns.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]);
    if full { ns = (1..=140).collect(); ns.extend([254, 255, 256, 257, 258, 300, 511, 512, 513, 1000]); }
    f_many("sizes", (0..SHAPES).collect(), ns)
}
/// Documents in which there are more of something than fit in 16 bits
pub fn f_huge(full: bool) -> Fam { if full { f_many("huge", vec![0, 2, 7, 8, 10, 12, 15], vec![65_535, 65_536, 65_537, 66_000]) } else { f_many("huge", vec![0, 2, 8, 10, 12], vec![65_537]) } }
const SHAPES: usize = 16;
fn f_many(name: &'static str, shapes: Vec<usize>, ns: Vec<usize>) -> Fam {
    fam(name, &format!("{} kinds of thing (words, nested elements and spans, classes, sets, processors, features, references, fields, characters, ...) of which there are any of {} numbers up to {}", shapes.len(), ns.len(), ns[ns.len() - 1]), (ns.len() * shapes.len()) as u64, move |i| {
        let mut i = Ix(i);
        let (shape, n) = (*i.pick(&shapes), *i.pick(&ns));
        let w = |k: usize| e("w").a("xml:id", &format!("w{}", k));
        let sent = |v: Vec<X>| vec![e("s").a("xml:id", "s").es(v)];
        let many = |f: &dyn Fn(usize) -> X| (0..n).map(f).collect::<Vec<X>>();
        let proc = |k: usize| e("processor").a("xml:id", &format!("p{}", k)).a("name", &format!("name {}", k)).a("type", ["auto", "manual", "generator"][k % 3]);
        let word = |v: Vec<X>| sent(vec![w(0).es(v)]);
        Some(match shape {
            0 => docx(vec![decl_x("entity", Some("s"), None, &[])], None, sent({ let mut v = many(&|k| { let x = w(k).e(e("t").t(&format!("x{}", k))); if k % 2 == 1 { x.a("space", "no") } else { x } }); v.push(e("entities").e(e("entity").a("class", "c").es(many(&|k| e("wref").a("id", &format!("w{}", k)))))); v })),
            1 => { let mut x = e("p").a("xml:id", "p").e(e("t").t("x")); for k in 0..n { x = e("div").a("xml:id", &format!("d{}", k)).e(x); } docx(vec![], None, vec![x]) }
            2 => docx(vec![decl_x("pos", Some("s"), None, &[])], None, sent(many(&|k| w(k).e(e("pos").a("class", &format!("c{}", k)))))),
            3 => docx((0..n).map(|k| decl_x("pos", Some(&format!("s{}", k)), if k % 3 == 0 { Some(alias(k)).filter(|_| k < 12) } else { None }, &[])).collect(), None, word(many(&|k| e("pos").a("set", &format!("s{}", k)).a("class", &format!("c{}", k % 3))))),
            4 => docx(vec![e("pos-annotation").a("set", "s").es(many(&|k| e("annotator").a("processor", &format!("p{}", k))))], Some(e("provenance").es(many(&proc))), word(many(&|k| e("pos").a("class", "c").a("processor", &format!("p{}", k))))),
            5 => { let mut x = proc(n); for k in (0..n).rev() { x = proc(k).e(x); } docx(vec![decl_x("pos", Some("s"), None, &[&format!("p{}", n)])], Some(e("provenance").e(x)), word(vec![e("pos").a("class", "c")])) }
            6 => docx(vec![decl_x("pos", Some("s"), None, &[])], None, word(vec![e("pos").a("class", "c").es(many(&|k| e("feat").a("subset", &format!("f{}", k)).a("class", &format!("v{}", k % 3))))])),
            7 => { let mut t = e("t"); for k in 0..n { t = t.t(&format!("a{}", k)).e(e("t-style").a("class", "b").t("\u{e9}")); } docx(vec![], None, sent(vec![w(0).e(t)])) }
            8 => {
                let mut m = e("metadata").a("type", "native").e(e("annotations")).es(many(&|k| e("meta").a("id", &format!("key {}", k)).t(&format!("value {}", k))));
                m = m.es(many(&|k| e("submetadata").a("xml:id", &format!("m{}", k)).a("type", "native").e(e("meta").a("id", "k").t(&format!("{}", k)))));
                e("FoLiA").a("xml:id", "doc").a("version", "2.0.0").e(m).e(e("text").a("xml:id", "doc.text").es(many(&|k| e("p").a("metadata", &format!("m{}", n - 1 - k)))))
            }
            9 => { let mut x = e("su").a("class", "c").e(e("wref").a("id", "w0")); for k in 0..n { x = e("su").a("xml:id", &format!("u{}", k)).a("class", "c").e(x); } docx(vec![decl_x("syntax", Some("s"), None, &[])], None, sent(vec![w(0).e(e("t").t("x")), e("syntax").e(x)])) }
            10 => docx(vec![decl_x("entity", Some("s"), None, &[])], None, sent(vec![w(0).e(e("t").t("x")), e("entities").es(many(&|k| e("entity").a("xml:id", &format!("e{}", k)).a("class", &format!("c{}", k % 5)).e(e("wref").a("id", "w0"))))])),
            11 => { let long = |c: &str| c.repeat(n); docx(vec![decl_x("pos", Some(&long("s")), None, &[])], None, sent(vec![e("w").a("xml:id", &long("i")).e(e("t").t(&long("\u{20ac}"))).e(e("pos").a("class", &long("\u{e9}")).a("textclass", &long("&")).e(e("comment").t(&long("<x ")).a("annotator", &long("\u{1F600}"))))])) }
            12 => docx(vec![], None, word(many(&|k| e("alt").a("xml:id", &format!("a{}", k)).e(e("pos").a("class", &format!("c{}", k)))))),
            13 => docx(vec![], None, sent({ let mut v = vec![]; for k in 0..n { v.push(w(k)); } v.push(e("dependencies").es((1..n).map(|k| e("dependency").a("class", "d").e(e("hd").e(e("wref").a("id", &format!("w{}", k)))).e(e("dep").e(e("wref").a("id", &format!("w{}", (k * 7) % n)))) ).collect())); v })),
            14 => docx(vec![], None, sent(vec![w(0).e(e("t").t("x")).e(e("morphology").es(many(&|k| e("morpheme").a("class", "m").e(e("t").a("offset", &format!("{}", k)).t("y")).e(e("feat").a("subset", "u").a("class", &format!("{}", k))))))])),
            _ => docx(vec![], None, vec![e("table").es(many(&|k| e("row").es((0..1 + k % 3).map(|c| e("cell").e(e("t").t(&format!("{}/{}", k, c)))).collect())))]),
        })
    })
}
fn alias(k: usize) -> &'static str { ["a0", "a1", "a2", "a3"][k / 3 % 4] }
pub fn families(quick: bool) -> Vec<Fam> {
    let mut f = vec![f_huge(!quick), f_attrs(), f_bodies(), f_chars(!quick), f_lengths(!quick), f_attrs2(), f_short(), f_short2(), f_decls(!quick), f_trees(if quick { 4 } else { 5 }), f_pairs(), f_strings(if quick { 2 } else { 3 }), f_mixed(if quick { 3 } else { 5 }), f_spans(!quick), f_sizes(!quick)];
    if !quick { f.push(f_triples()); }
    f
}
fn doc_parts(id: Option<&str>, m: X, body: X) -> X { e("FoLiA").oa("xml:id", id).a("version", "2.0.0").e(m).e(body) }
/// Declarations of every type
pub fn f_head_decls() -> Fam {
    let one: Vec<(Option<&str>, Option<&str>, Option<&str>)> = { let mut o = vec![]; for s in [None, Some("A"), Some("http://x/y?a&b"), Some("")] { for al in [None, Some("al")] { for f in [None, Some("fmt")] { if al.is_none() || s.is_some() { o.push((s, al, f)); } } } } o };
    let annot: &[&[&str]] = &[&[], &["p1"], &["p2", "p3"], &["p3", "p1", "p2"], &["p1", "p1"]];
    let n = (ANNOTATIONS.len() * one.len() * annot.len() * 6) as u64;
    fam("head-declarations", &format!("{} annotation types x {} attribute combinations x {} annotator lists x 6 contexts", ANNOTATIONS.len(), one.len(), annot.len()), n, move |i| {
        let mut i = Ix(i);
        let at = i.pick(ANNOTATIONS);
        let (s, al, f) = *i.pick(&one);
        let mut d = decl_x(at.s, s, al, i.pick(annot));
        if let Some(f) = f { d = d.a("format", f); }
        let k = i.take(6);
        let next = &ANNOTATIONS[(at.at as u8 as usize + 1) % ANNOTATIONS.len()];
        let ds = match k { 0 | 1 => vec![d], 2 => vec![decl_x(next.s, Some("N"), None, &[]), d], 3 => vec![d, decl_x(at.s, Some("Z"), None, &["p2"])], 4 => vec![decl_x(at.s, Some("Z"), None, &["p2"]), d, decl_x(next.s, None, None, &[])], _ => vec![d.clone(), d] };
        let mut m = e("metadata").a("type", "native").e(e("annotations").es(ds));
        if k != 1 { m = m.e(procs2()); } else { m.items.insert(0, crate::xml::XI::E(procs2())); }
        Some(doc_parts(Some("d"), m, if k % 2 == 0 { e("text") } else { e("speech").a("xml:id", "sp") }))
    })
}
/// Provenance chains
pub fn f_head_procs(max: usize) -> Fam {
    let mut shapes: Vec<Vec<usize>> = vec![];
    let mut n = 0u64;
    let mut starts = vec![];
    const K: usize = 6;
    for k in 0..=max { for f in forests(k) { starts.push(n); n += (K as u64).pow(k as u32) * 2; shapes.push(f); } }
    fam("head-provenance", &format!("all forests of up to {} processors, each in {} variants of fields and metadata", max, K), n, move |i| {
        let s = starts.partition_point(|a| *a <= i) - 1;
        let mut ix = Ix(i - starts[s]);
        let second = ix.take(2) == 1;
        let nodes = shapes[s].iter().enumerate().map(|(k, d)| {
            let p = e("processor").a("xml:id", &format!("proc.{}", k)).a("name", &format!("name & {}", k));
            (*d, match ix.take(K) {
                0 => p,
                1 => p.a("type", "manual").a("version", "1").a("folia_version", "2.0").a("document_version", "3").a("command", "x -y \"<z>\"").a("host", "h").a("user", "u"),
                2 => p.a("type", "datasource").a("src", "s").a("format", "f").a("resourcelink", "http://r/?a&b"),
                3 => p.a("type", "generator").a("begindatetime", "2020-02-29T00:00:01").a("enddatetime", "2021-01-01T23:59:59"),
                4 => p.a("type", "auto").a("src", "").e(e("meta").a("id", "k").t("v & w")).e(e("meta").a("id", "empty")),
                _ => { let mut q = p.e(e("meta").a("id", "k").t("v")); q.attrs.reverse(); q }
            })
        }).collect();
        let ps = build(nodes);
        let ann = if ps.is_empty() { vec![] } else { vec![decl_x("pos", Some("A"), None, &[ps[0].attr("xml:id").unwrap()])] };
        let mut m = e("metadata").e(e("annotations").es(ann)).e(e("provenance").es(ps));
        if second { m.items.reverse(); }
        Some(doc_parts(Some("d"), m, e("text")))
    })
}
/// A processor with any of its attributes
pub fn f_head_fields() -> Fam {
    const A: &[(&str, &str)] = &[("type", "manual"), ("version", "1"), ("folia_version", "2.0"), ("document_version", "3"), ("command", "x"), ("host", "h"), ("user", "u"), ("src", "s"), ("format", "f"), ("resourcelink", "r"), ("begindatetime", "2020-02-29T00:00:01"), ("enddatetime", "2021-01-01T23:59:59")];
    fam("head-fields", &format!("a processor, on its own or in another, with any of {} attributes", A.len()), 1 << (A.len() + 1), |i| {
        let mut p = e("processor").a("xml:id", "p1").a("name", "n");
        for (k, (a, v)) in A.iter().enumerate() { if i >> (k + 1) & 1 == 1 { p = p.a(a, v); } }
        if i & 1 == 1 { p = e("processor").a("xml:id", "p0").a("name", "outer").e(p); }
        Some(doc_parts(Some("d"), e("metadata").e(e("annotations")).e(e("provenance").e(p)), e("text")))
    })
}
/// Metadata and submetadata
pub fn f_head_meta(max: usize) -> Fam {
    let types: &[Option<&str>] = &[None, Some("native"), Some("imdi")];
    let srcs: &[Option<&str>] = &[None, Some("f.xml"), Some("a b&c")];
    let vals: &[&str] = &["", "v", "a & <b> \"c\"", " padded \n"];
    let keys: &[&str] = &["k", "other key", "k"];
    let ids: &[Option<&str>] = &[Some("d"), None, Some("\u{e9}-1")];
    //native fields: none, one or two; submetadata blocks: none, one or two, each with type, src, data
    let mut metas: Vec<Vec<X>> = vec![vec![]];
    let field = |k: usize, key: &str, val: &str| if val == "v" && k == 0 { e("meta").a("id", key).c("x").t("v") } else if val.is_empty() { e("meta").a("id", key) } else { e("meta").a("id", key).t(val) };
    for a in keys { for b in vals { metas.push(vec![field(0, a, b)]); for c in keys { for d in vals { metas.push(vec![field(0, a, b), field(1, c, d)]); } } } }
    let mut block: Vec<X> = vec![];
    for t in types { for s in &srcs[..2] { for d in 0..3 {
        let mut sm = e("submetadata").oa("type", *t).oa("src", *s);
        if d >= 1 { sm = sm.e(e("meta").a("id", "k").t("in")); }
        if d == 2 { sm = sm.e(e("meta").a("id", "k2")).e(e("meta").a("id", "k3").t("&")); }
        block.push(sm);
    } } }
    let mut subs: Vec<Vec<X>> = vec![vec![]];
    for b in block.iter() { subs.push(vec![b.clone()]); for b2 in block.iter() { subs.push(vec![b.clone(), b2.clone()]); } }
    let (nm, ns) = if max < 2 { (1 + keys.len() * vals.len(), 2) } else { (metas.len(), subs.len()) };
    if max < 2 { metas.sort_by_key(|m| m.len()); subs.sort_by_key(|m| m.len()); }
    //quick: (all fields x few blocks) + (few fields x all blocks); thorough: the product
    let (ma, sa, mb, sb) = if max < 2 { (metas.len(), ns, 2, subs.len()) } else { (nm, ns, 0, 0) };
    let n1 = (54 * ma * sa) as u64;
    let n = n1 + (54 * mb * sb) as u64;
    let (types, srcs): (Vec<Option<&'static str>>, Vec<Option<&'static str>>) = (types.to_vec(), srcs.to_vec());
    let ids = ids.to_vec();
    fam("head-metadata", &format!("3 IDs x 3 metadata types x 3 sources x {} field lists x {} lists of submetadata (plus {} x {}), before or after the fields", ma, sa, mb, sb), n, move |i| {
        let first = i < n1;
        let mut i = Ix(if first { i } else { i - n1 });
        let id = *i.pick(&ids);
        let mut m = e("metadata").oa("type", *i.pick(&types)).oa("src", *i.pick(&srcs));
        m = m.e(e("annotations"));
        let (a, b) = (i.take(if first { ma } else { mb }), i.take(if first { sa } else { sb }));
        let after = i.take(2) == 1;
        if after && (metas[a].is_empty() || subs[b].is_empty()) { return None; }
        if !after { m = m.es(metas[a].clone()); }
        for (k, s) in subs[b].iter().enumerate() { m = m.e(s.clone().a("xml:id", &format!("sub{}", k))); }
        if after { m = m.es(metas[a].clone()); }
        Some(doc_parts(id, m, e("text").e(e("p").a("metadata", "sub0").a("xml:id", "p"))))
    })
}
pub fn group_tags(g: EG) -> Vec<&'static str> { types().into_iter().filter(|v| v.groups.contains(&g)).map(|v| v.tag).collect() }
