//! C05-C09: operations that modify the elements of a document
use super::{io, Run};
use crate::{ctx::*, gen, obs, ops::*, xml};
use folia::{Document, ElementType as ET, AnnotationType as AT};

pub const IDS: &[&str] = &["t", "p1", "s1", "w1", "w2", "e1", "n1", "n2", "n3", "n4", "zz", "", "doc", "a", "w"];
pub const CLASSES: &[&str] = &["a", "b", "per", "num", "sing", "plural", "zz"];
const BASE: &str = r#"<FoLiA xmlns="http://ilk.uvt.nl/folia" xml:id="doc" version="2.0.0"><metadata type="native"><annotations><text-annotation set="T"/><token-annotation/><sentence-annotation/><pos-annotation set="P"/><entity-annotation set="E" alias="ali"/></annotations></metadata><text xml:id="t"><s xml:id="s1"><w xml:id="w1"/><w xml:id="w2"/><entities><entity xml:id="e1" class="per"><wref id="w1"/></entity></entities></s></text></FoLiA>"#;
/// a second base: two sentences, no annotation yet
const BASE2: &str = r#"<FoLiA xmlns="http://ilk.uvt.nl/folia" xml:id="doc" version="2.0.0"><metadata type="native"><annotations><token-annotation/><sentence-annotation/><entity-annotation set="E"/><entity-annotation set="E2"/></annotations></metadata><text xml:id="t"><p xml:id="p1"><s xml:id="s1"><w xml:id="w1"><t>one</t></w></s><s><w xml:id="w2"/></s></p></text></FoLiA>"#;

pub fn templates() -> Vec<T> {
    use ET::*;
    vec![
        t(Word),
        t(Word).id("n1").e(t(TextContent).text("x")).helpers(),
        t(Word).id("w1"),
        t(Entity).id("n2").set("E").class("per").refs(&["w1", "w2"]).helpers(),
        t(PosAnnotation).class("a").e(t(Feature).subset("num").class("sing")),
        t(Sentence).id("n1").e(t(Word).id("n2")).e(t(EntitiesLayer).e(t(Entity).set("E").class("b").refs(&["n2", "w2"]))),
        t(Sentence).e(t(Word).id("n3")).e(t(Word).id("n3")),
        t(Sentence).id("n4").old(3).comment("c"),
        t(WordReference).idref("w2"),
        t(Feature).subset("num").class("plural"),
        t(Sentence).old(1).e(t(Word)),
        t(Word).old(99),
        t(Entity).set("ali").class("a").refs(&["w2"]),
        t(Entity).class("b").refs(&["zz"]),
        t(Sentence).id("n1").e(t(Word).e(t(Word).id("n1"))),
        t(Word).id("").e(t(LemmaAnnotation).class("zz")),
        t(Chunk).class("a").refs(&["w1"]),
        t(Word).id("n1").e(t(Word).id("n3").old(3)).e(t(PosAnnotation).class("b").text("t")),
    ]
}
/// All operations on elements `0..keys` (and two that do not exist: the next one, and one far beyond) with the first `nt` templates
pub fn all_ops(keys: u32, nt: usize) -> Vec<Op> {
    let ks: Vec<u32> = (0..keys).chain([FAR, NEXT]).collect();
    let mut v = vec![];
    for i in 0..nt { v.push(Op::Add(i)); v.push(Op::AnnotateSpan(i)); for k in ks.iter() { v.push(Op::AddTo(*k, i)); v.push(Op::Annotate(*k, i)); } }
    for k in ks.iter() { v.push(Op::Detach(*k)); for l in ks.iter() { v.push(Op::Attach(*k, *l)); } }
    v
}
pub fn out_of_range(op: &Op, n: u32) -> bool { let far = |k: &u32| *k >= n && *k != FAR && *k != NEXT; match op { Op::AddTo(p, _) | Op::Annotate(p, _) => far(p), Op::Attach(p, c) => far(p) || far(c), Op::Detach(c) => far(c), _ => false } }

/// Explores all histories of operations up to a depth, giving each property the state before and after the last one.
fn histories<F>(c: &Ctx, phase: &str, base: &'static str, keys: u32, nt: usize, depth: usize, withxml: bool, check: F)
where F: Fn(&Snap, &Op, &[T], &Result<Option<u32>, String>, &Snap, &Document, &mut Case) -> Result<bool, String> + Sync {
    let ts = templates();
    let ops = all_ops(keys, nt);
    c.bound(&format!("{}: all histories of up to {} operations out of {} (add, add to, annotate, annotate span with {} templates, attach, detach on {} elements and two keys that no element has), states deduplicated", phase, depth, ops.len(), nt, keys));
    c.bfs(phase, ops.len(), depth, |h, k| {
        let mut d = io::load(base)?;
        let last = h.len() - 1;
        k.describe(h.iter().map(|o| describe(&ops[*o as usize], &ts)).collect::<Vec<_>>().join("; "));
        for o in &h[..last] { let _ = apply(&mut d, &ops[*o as usize], &ts); }
        let op = &ops[h[last] as usize];
        if out_of_range(op, obs::n_elements(&d)) { return Ok(None); }
        let op = &resolve(op, obs::n_elements(&d));
        let mut pre = snap(&d, IDS, CLASSES);
        if withxml { pre.xml = Some(xml(&d)); }
        let r = apply(&mut d, op, &ts).map_err(|e| format!("{:?}", e));
        let mut post = snap(&d, IDS, CLASSES);
        if withxml { post.xml = Some(xml(&d)); }
        let go = check(&pre, op, &ts, &r, &post, &d, k).map_err(|e| format!("{}\nresult: {:?}\nbefore: {}\nafter:  {}", e, r, pre.describe(), post.describe()))?;
        if !go || r.is_err() { return Ok(None); }
        Ok(Some(hash(&post)))
    });
}
fn both<F>(c: &Ctx, withxml: bool, quickdepth: usize, deep: usize, check: F)
where F: Fn(&Snap, &Op, &[T], &Result<Option<u32>, String>, &Snap, &Document, &mut Case) -> Result<bool, String> + Sync {
    histories(c, "histories", BASE, 11, templates().len(), c.pick(2, 2), withxml, &check);
    histories(c, "histories2", BASE2, 11, templates().len(), c.pick(2, 2), withxml, &check);
    histories(c, "deep", BASE, c.pick(7, 9), c.pick(5, 9), c.pick(quickdepth, deep), withxml, &check);
}
const T1: &[&str] = &["the reference model of the operations on the element tree (harness/src/ops.rs)"];

pub fn c05(c: &Ctx) -> Run {
    for f in gen::families(c.quick()) {
        if !["trees", "pairs", "triples", "spans", "mixed", "sizes", "bodies"].contains(&f.name) { continue; }
        c.bound(&format!("{}: {} (all {} of them)", f.name, f.what, f.n));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            if let Ok(d) = io::load(&k.desc) { k.states += 1; k.traces += 1; let s = snap(&d, &[], &[]); s.tree()?; one_root(&s)?; }
            Ok(())
        });
    }
    both(c, false, 3, 3, |pre, op, ts, r, post, _, _| {
        post.tree()?;
        match r { Ok(key) => pre.after(post, op, ts, *key)?, Err(_) => if pre.els.len() == post.els.len() && pre.els.iter().zip(post.els.iter()).any(|(a, b)| a.parent != b.parent || a.data != b.data) { return Err("a refused operation changed the tree".into()); } }
        //an operation that nothing forbids must succeed
        let must = match op { Op::Attach(p, ch) => pre.get(*p).is_some() && pre.get(*ch).is_some() && p != ch && !pre.ancestors(*p).contains(ch), Op::Detach(ch) => pre.get(*ch).is_some(), Op::Add(i) => pre.insertable(&ts[*i], None).is_ok(), Op::AddTo(p, i) => pre.insertable(&ts[*i], Some(*p)).is_ok(), _ => return Ok(true) };
        if must != r.is_ok() { return Err(format!("the operation should {}", if must { "succeed" } else { "be refused" })); }
        Ok(true)
    });
    Run { assumptions: T1, explanation: "every history of operations is executed on the real document; after each, the element tree must be a tree, and be what the reference model of the operation makes of the tree that was observed before it" }
}
fn one_root(s: &Snap) -> Result<(), String> { for k in 1..s.els.len() { if s.els[k].parent.is_none() { return Err(format!("element {} was loaded without a parent", k)); } } Ok(()) }

fn lookups(s: &Snap, d: &Document) -> Result<(), String> {
    let mut universe: Vec<String> = IDS.iter().map(|s| s.to_string()).collect();
    universe.extend(s.els.iter().filter_map(|e| e.id().map(String::from)));
    for id in universe {
        let having: Vec<u32> = s.els.iter().enumerate().filter(|(_, e)| e.id() == Some(&id)).map(|(k, _)| k as u32).collect();
        if having.len() > 1 { return Err(format!("elements {:?} all have ID {:?}", having, id)); }
        let got = d.get_element_key_by_id(&id);
        if got != having.first().copied() { return Err(format!("looking up {:?} gives {:?} rather than {:?}", id, got, having)); }
        let e = d.get_element_by_id(&id);
        if e.as_ref().and_then(|e| folia::ReadElement::key(e)) != having.first().copied() { return Err(format!("looking up element {:?} gives {:?} rather than {:?}", id, e.map(|e| e.to_string()), having)); }
    }
    //handles of the same element are equal, and only those
    let handles: Vec<_> = (0..s.els.len() as u32).map(|k| (k, d.get_element(k))).collect();
    for (a, x) in handles.iter() { for (b, y) in handles.iter() {
        if let (Some(x), Some(y)) = (x, y) { if (x == y) != (a == b) { return Err(format!("the handles of elements {} and {} are {}equal", a, b, if x == y { "" } else { "not " })); } }
    } }
    Ok(())
}
pub fn c06(c: &Ctx) -> Run {
    //loading: all assignments of IDs
    let tags = ["p", "s", "w", "t", "pos", "entities"];
    let choice = [None, Some("a"), Some("b"), Some("w"), Some("\u{e9}"), Some("doc")];
    let max = c.pick(3usize, 4);
    let shapes: Vec<Vec<usize>> = (1..=max).flat_map(|n| gen::forests(n)).collect();
    c.bound(&format!("load: all ordered forests of up to {} elements x 3 rotations of element types x all assignments of {} IDs (or none)", max, choice.len() - 1));
    let per: Vec<u64> = shapes.iter().map(|s| 3 * (choice.len() as u64).pow(s.len() as u32)).collect();
    let n: u64 = per.iter().sum();
    c.sweep("load", n, |i, k| {
        let (mut i, mut j) = (i, 0);
        while i >= per[j] { i -= per[j]; j += 1; }
        let mut ix = gen::Ix(i);
        let rot = ix.take(3);
        let mut ids = vec![];
        let nodes = shapes[j].iter().enumerate().map(|(q, depth)| { let id = *ix.pick(&choice); ids.extend(id); let mut x = gen::e(tags[(q * 2 + rot) % tags.len()]).oa("xml:id", id); if x.tag == "t" { x = x.t("x"); } (*depth, x) }).collect();
        let x = gen::docx(vec![], None, gen::build(nodes));
        k.describe(xml::write(&x, &xml::PLAIN));
        k.states += 1; k.traces += 1; k.transitions += 1;
        let mut sorted = ids.clone();
        sorted.sort(); sorted.dedup();
        match io::load(&k.desc) {
            Ok(d) => { if sorted.len() != ids.len() { return Err("a document with duplicate IDs is loaded".into()); } let s = snap(&d, IDS, &[]); k.outcome(&s.ids); lookups(&s, &d) }
            Err(e) => if sorted.len() == ids.len() { Err(format!("refused: {}", e)) } else { Ok(()) },
        }
    });
    both(c, false, 3, 3, |pre, op, ts, r, post, d, _| {
        lookups(post, d)?;
        if let Op::Add(i) | Op::AddTo(_, i) | Op::Annotate(_, i) | Op::AnnotateSpan(i) = op {
            let mut ids = vec![];
            ts[*i].ids(&mut ids);
            let mut u = ids.clone();
            u.sort(); u.dedup();
            if (u.len() != ids.len() || ids.iter().any(|x| pre.by_id(x).is_some())) && r.is_ok() { return Err("an ID that is in use was added again".into()); }
        }
        //what had an ID keeps it
        for (k, e) in pre.els.iter().enumerate() { if post.els.get(k).map(|x| x.id()) != Some(e.id()) { return Err(format!("element {} had ID {:?}", k, e.id())); } }
        Ok(true)
    });
    Run { assumptions: T1, explanation: "every assignment of IDs to small documents is loaded, and every history of operations is executed, on the real code; after each, all IDs ever used and others are looked up and compared with the elements that carry them" }
}

pub fn c07(c: &Ctx) -> Run {
    both(c, true, 3, 3, |pre, _, _, r, post, _, k| {
        if r.is_err() {
            k.states += 1;
            if pre != post {
                let what = if pre.els != post.els { "elements" } else if pre.head != post.head { "declarations or processors" } else if pre.ids != post.ids { "IDs" } else if pre.classes != post.classes { "classes" } else if pre.xml != post.xml { "XML" } else { "active processor" };
                return Err(format!("the refused operation changed the {}: {} {}", what, obs::diff_head(&pre.head, &post.head), if pre.xml != post.xml { format!("\n{:?}\n{:?}", pre.xml, post.xml) } else { String::new() }));
            }
        }
        Ok(true)
    });
    super::prov::refused(c);
    Run { assumptions: &["what can be observed of a document is what the snapshot of harness/src/ops.rs and the serialisation show"], explanation: "every history of operations is executed on the real document; whenever the last one is refused, everything that can be observed before and after it, including the XML, must be identical" }
}

/// documents with an element of each type to annotate
fn c08_pairs(c: &Ctx) {
    let ts: Vec<ET> = crate::vocab::ELEMENTS.iter().map(|v| v.et).collect();
    let n = (ts.len() * ts.len()) as u64;
    c.bound(&format!("pairs: annotating an element of each of the {} types with each of the {} types", ts.len(), ts.len()));
    c.sweep("pairs", n, |i, k| {
        let (p, ch) = (ts[i as usize / ts.len()], ts[i as usize % ts.len()]);
        let mut d = io::load(BASE)?;
        //the parent goes into a sentence or, if need be, into a span annotation or a word
        let host = if p == ET::WordReference { 5 } else { 1 };
        let mut pt = t(p);
        if p == ET::WordReference { pt = pt.idref("w2"); }
        if p == ET::Feature { pt = pt.subset("num").class("a"); }
        let pk = d.add_element_to(if p == ET::Feature { 2 } else { host }, pt.build()).map_err(|e| format!("{:?}", e))?;
        let mut x = t(ch);
        if ch == ET::Feature { x = x.subset("num").class("a"); }
        if ch == ET::WordReference { x = x.idref("w2"); }
        if let Some(at) = obs::v(ch).at { if obs::v(ch).reqattr.contains(&folia::AttribType::CLASS) || obs::v(ch).optattr.contains(&folia::AttribType::CLASS) { x = x.class("a"); } if obs::in_group(ch, folia::ElementGroup::Span) { x = x.set("S"); if at != AT::ENTITY { } if accepts(ch, ET::WordReference) { x = x.refs(&["w1", "w2"]); } } }
        let tt = [x];
        let op = Op::Annotate(pk, 0);
        k.describe(format!("a {:?} (element {}); {}", p, pk, describe(&op, &tt)));
        check_annotate(&mut d, &op, &tt, k)?;
        //and once more
        let again = [{ let mut y = tt[0].clone(); y.id = None; y }];
        check_annotate(&mut d, &op, &again, k)
    });
}
fn check_annotate(d: &mut Document, op: &Op, ts: &[T], k: &mut Case) -> Result<(), String> {
    let pre = snap(d, IDS, CLASSES);
    let r = apply(d, op, ts).map_err(|e| format!("{:?}", e));
    let post = snap(d, IDS, CLASSES);
    k.states += 1; k.transitions += 1; k.traces += 1;
    k.outcome(&(hash(&post), r.is_ok()));
    judge(&pre, op, ts, &r, &post).map_err(|e| format!("{}\nresult: {:?}\nbefore: {}\nafter:  {}", e, r, pre.describe(), post.describe()))
}
fn judge(pre: &Snap, op: &Op, ts: &[T], r: &Result<Option<u32>, String>, post: &Snap) -> Result<(), String> {
    let (x, want) = match op {
        Op::Annotate(p, i) => (&ts[*i], pre.place(*p, &ts[*i])),
        Op::AnnotateSpan(i) => (&ts[*i], if !obs::in_group(ts[*i].ety(), folia::ElementGroup::Span) { Err("not a span annotation") } else { match pre.words(&ts[*i]).first() { None => Err("spans nothing"), Some(w) => pre.place(*w, &ts[*i]) } }),
        _ => return Ok(()),
    };
    let _ = x;
    match (&want, r) {
        (Ok(w), Ok(Some(key))) => { pre.placed(post, *key, w)?; pre.after(post, op, ts, Some(*key)) }
        (Err(_), Err(_)) => if pre.els.len() != post.els.len() { Err("a refused annotation left elements behind".into()) } else { Ok(()) },
        (Ok(w), _) => Err(format!("the annotation should go into {:?}", w)),
        (Err(e), _) => Err(format!("the annotation should be refused: {}", e)),
    }
}
pub fn c08(c: &Ctx) -> Run {
    c08_pairs(c);
    c08_spans(c);
    both(c, false, 3, 3, |pre, op, ts, r, post, _, _| { judge(pre, op, ts, r, post)?; Ok(true) });
    Run { assumptions: &["the frozen FoLiA vocabulary (harness/src/vocab.rs) says what each element accepts", "the words of a span annotation are those it refers to directly"], explanation: "every operation is executed on the real document; where the annotation ends up, and whether it is accepted, must be what a reference computation on the observed state before it says" }
}
/// trees of structure elements with words, existing layers, and every way of adding a span annotation to them
fn c08_spans(c: &Ctx) {
    let tags = c.pick(&["p", "s", "w"][..], &["div", "s", "w", "hiddenw", "morpheme"][..]);
    let max = c.pick(4usize, 5);
    let shapes: Vec<Vec<usize>> = (1..=max).flat_map(|n| gen::forests(n)).collect();
    let wordsets: &[&[&'static str]] = &[&["x0"], &["x1"], &["x2"], &["x3"], &["x0", "x1"], &["x1", "x0"], &["x0", "x2"], &["x1", "x2"], &["x2", "x3"], &["x1", "x3"], &["x0", "x1", "x2"], &["x3", "x2", "x1"], &["x1", "x1"]];
    let sets = [None, Some("E"), Some("F"), Some("ali")];
    let decls: &[&str] = &["", "<entity-annotation set=\"E\" alias=\"ali\"/>", "<entity-annotation set=\"E\" alias=\"ali\"/><entity-annotation set=\"F\"/>", "<entity-annotation/>"];
    let per: Vec<u64> = shapes.iter().map(|s| (tags.len() as u64).pow(s.len() as u32)).collect();
    let total: u64 = per.iter().sum();
    let ndec = c.pick(2usize, 4);
    c.bound(&format!("spans: all ordered forests of up to {} of {:?} x {} declarations; in each, entities over {} tuples of elements with {} sets are added to the elements in every way, {} followed by another", max, tags, ndec, wordsets.len(), sets.len(), c.pick("the first two of which", "each")));
    c.sweep("spans", total * ndec as u64, |i, k| {
        let mut ix = gen::Ix(i);
        let dec = if ndec == 2 { [1, 2][ix.take(2)] } else { ix.take(4) };
        let (mut i, mut j) = (ix.0, 0);
        while i >= per[j] { i -= per[j]; j += 1; }
        let mut ix = gen::Ix(i);
        let n = shapes[j].len();
        let nodes = shapes[j].iter().enumerate().map(|(q, depth)| (*depth, gen::e(ix.pick(tags)).a("xml:id", &format!("x{}", q)))).collect();
        let x = gen::docx(vec![], None, gen::build(nodes));
        let base = xml::write(&x, &xml::PLAIN).replace("<annotations/>", &format!("<annotations>{}</annotations>", decls[dec]));
        if !base.contains(decls[dec]) { return Err("harness: no declarations".into()); }
        for ws in wordsets.iter() {
            if ws.iter().any(|w| w[1..].parse::<usize>().unwrap() >= n) { continue; }
            for set in sets.iter() {
                let tt = [t(ET::Entity).oset(*set).class("a").refs(ws), t(ET::Entity).oset(Some("E")).class("b").refs(ws), t(ET::Chunk).set("E").refs(ws)];
                let mut ways = vec![Op::AnnotateSpan(0)];
                for p in 0..=n as u32 { ways.push(Op::Annotate(p, 0)); }
                for (q, w) in ways.into_iter().enumerate() {
                    let mut d = io::load(&base)?;
                    k.describe(format!("{}\n{}", base, describe(&w, &tt)));
                    check_annotate(&mut d, &w, &tt, k)?;
                    if q > 1 && ndec == 2 { continue; }
                    //a second one: the layer is found again, or another one made
                    for second in [w.clone(), Op::AnnotateSpan(1), Op::AnnotateSpan(2)] {
                        k.describe(format!("{}\n{}; {}", base, describe(&w, &tt), describe(&second, &tt)));
                        check_annotate(&mut d, &second, &tt, k)?;
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn c09(c: &Ctx) -> Run {
    for f in gen::families(c.quick()) {
        if !["spans", "trees", "pairs", "triples", "sizes", "bodies"].contains(&f.name) { continue; }
        c.bound(&format!("{}: {} (all {} of them)", f.name, f.what, f.n));
        c.sweep(f.name, f.n, |i, k| {
            let x = match (f.make)(i) { Some(x) => x, None => return Ok(()) };
            k.describe(xml::write(&x, &xml::PLAIN));
            if let Ok(d) = io::load(&k.desc) { k.states += 1; k.traces += 1; k.transitions += 1; let s = snap(&d, &[], &[]); s.backrefs()?; resolves(&s, &d)?; }
            Ok(())
        });
    }
    orders(c);
    both(c, false, 3, 3, |pre, op, ts, _, post, d, _| {
        if pre.moves_refs(op, ts) { return Ok(false); }
        post.backrefs()?;
        resolves(post, d)?;
        Ok(true)
    });
    Run { assumptions: T1, explanation: "every document of the families is loaded, and every history of operations executed, on the real code; the back-references of all elements must be exactly those that follow from the word references that are observed; moving existing word references out of or into a span annotation is excluded (a known finding)" }
}
fn resolves(s: &Snap, d: &Document) -> Result<(), String> {
    use folia::ReadElement;
    for (k, e) in s.els.iter().enumerate() {
        let el = d.get_element(k as u32).unwrap();
        let want = if e.ety() == ET::WordReference { e.idref().and_then(|i| s.by_id(i)) } else { None };
        if let Some(w) = want { if el.resolve().and_then(|x| x.key()) != Some(w) { return Err(format!("word reference {} resolves to {:?} rather than {}", k, el.resolve().map(|x| x.to_string()), w)); } }
    }
    Ok(())
}
/// Loading: words, spans and nested parts in every order, with references to each ID, in and out of span annotations
fn orders(c: &Ctx) {
    let tags = ["w", "entities", "entity", "wref", "dependency", "hd", "s"];
    let max = c.pick(4usize, 5);
    let shapes: Vec<Vec<usize>> = (1..=max).flat_map(|n| gen::forests(n)).collect();
    let per: Vec<u64> = shapes.iter().map(|s| (tags.len() as u64).pow(s.len() as u32) * 3).collect();
    c.bound(&format!("orders: all ordered forests of up to {} of {:?}, in each of which every word reference refers to one of 3 elements", max, tags));
    c.sweep("orders", per.iter().sum(), |i, k| {
        let (mut i, mut j) = (i, 0);
        while i >= per[j] { i -= per[j]; j += 1; }
        let mut ix = gen::Ix(i);
        let target = ix.take(3);
        let kinds: Vec<&str> = shapes[j].iter().map(|_| *ix.pick(&tags)).collect();
        let nodes = shapes[j].iter().enumerate().map(|(q, depth)| (*depth, if kinds[q] == "wref" { gen::e("wref").a("id", &format!("x{}", (target + q) % 4)) } else { gen::e(kinds[q]).a("xml:id", &format!("x{}", q)) })).collect();
        let x = gen::docx(vec![], None, gen::build(nodes));
        k.describe(xml::write(&x, &xml::PLAIN));
        k.states += 1; k.traces += 1; k.transitions += 1;
        //is it in order?
        let n = kinds.len();
        let mut good = true;
        for q in 0..n {
            if kinds[q] != "wref" { continue; }
            let tq = (target + q) % 4;
            if tq >= n || kinds[tq] == "wref" { good = false; }
            let (mut depth, mut inside) = (shapes[j][q], false);
            for a in (0..q).rev() { if shapes[j][a] < depth { depth = shapes[j][a]; if ["entity", "dependency"].contains(&kinds[a]) { inside = true; } } }
            good &= inside;
        }
        match io::load(&k.desc) {
            Ok(d) => { let s = snap(&d, &[], &[]); k.outcome(&s); if !good { return Err("a word reference without target or outside a span annotation is loaded".into()); } s.backrefs()?; resolves(&s, &d) }
            Err(e) => if good { Err(format!("refused: {}", e)) } else { Ok(()) },
        }
    });
}
/// Is everything that the tree under the body refers to in that tree, and from within a span annotation? (what is detached cannot be saved)
pub fn selfcontained(d: &Document) -> bool {
    let s = snap(d, &[], &[]);
    if s.els[0].parent.is_some() { return false; } //the body is attached to something that is not in the document
    let inside = |k: u32| k == 0 || s.ancestors(k).contains(&0);
    (0..s.els.len() as u32).filter(|k| s.els[*k as usize].ety() == ET::WordReference && inside(*k)).all(|k| {
        s.els[k as usize].idref().and_then(|i| s.by_id(i)).map_or(false, |w| inside(w) && s.els[w as usize].ety() != ET::WordReference)
            && s.ancestors(k).iter().any(|a| obs::in_group(s.els[*a as usize].ety(), folia::ElementGroup::Span))
    }) && features_in_place(&s)
}
/// Is each feature in the set of the annotation it is part of? (what is attached elsewhere keeps the set it had: a known finding)
pub fn features_in_place(s: &Snap) -> bool {
    (0..s.els.len() as u32).filter(|k| s.els[*k as usize].ety() == ET::Feature).all(|k| {
        s.ancestors(k).iter().find(|a| obs::v(s.els[**a as usize].ety()).at.is_some()).map_or(false, |a| s.els[*a as usize].set == s.els[k as usize].set)
    })
}
/// Runs `check` on every document that is reached by a history of operations.
pub fn histories_docs<F>(c: &Ctx, phase: &str, depth: usize, check: F) where F: Fn(&Document, &mut Case) -> Result<(), String> + Sync {
    for (i, base) in [BASE, BASE2].iter().enumerate() {
        histories(c, &format!("{}{}", phase, i + 1), base, 9, templates().len(), depth.min(2), false, |_, _, _, r, _, d, k| { if r.is_ok() { check(d, k)?; } Ok(true) });
        if depth > 2 { histories(c, &format!("{}deep{}", phase, i + 1), base, 7, 5, depth, false, |_, _, _, r, _, d, k| { if r.is_ok() { check(d, k)?; } Ok(true) }); }
    }
}
