//! C17: damaged input
use super::{io, Run};
use crate::gen::{self, docx, e};
use crate::{ctx::*, obs, sem, xml::{self, X, XI}};
use folia::*;

/// one document with everything in it
pub fn rich() -> X {
    let m = e("metadata").a("type", "native")
        .e(e("annotations").e(gen::decl_x("text", Some(super::text::TEXTSET), None, &[])).e(gen::decl_x("pos", Some("http://example.org/pos"), Some("P"), &["p1"])).e(e("token-annotation")).e(gen::decl_x("entity", None, None, &[])))
        .e(gen::procs2())
        .e(e("meta").a("id", "title").t("a & b"))
        .e(e("submetadata").a("xml:id", "sub").a("type", "native").e(e("meta").a("id", "lang").t("nl")));
    let w = |n: u32| e("w").a("xml:id", &format!("w{}", n)).a("class", "W").e(e("t").a("offset", "3").t("x < y")).e(e("pos").a("set", "P").a("class", "N").a("head", "N").a("confidence", "0.5").a("datetime", "2020-02-29T23:59:59").a("annotator", "me").a("annotatortype", "manual").e(e("feat").a("subset", "num").a("class", "pl")));
    let body = e("text").a("xml:id", "doc.text").e(e("p").a("n", "1").e(e("s").a("metadata", "sub").c(" a note ")
        .e(w(1).a("space", "no")).e(w(2))
        .e(e("entities").e(e("entity").a("xml:id", "e1").a("class", "per").e(e("wref").a("id", "w1").a("t", "x")).e(e("wref").a("id", "w2"))))
        .e(e("correction").e(e("new").e(e("w").e(e("t").e(e("t-style").a("class", "b").t("bold \u{e9}\u{1F600}")).e(e("br").a("linenr", "4").a("newpage", "yes"))))).e(e("original")))
        .e(e("desc").t("d")).e(e("comment").t("c"))))
        .e(e("gap").a("class", "g").e(e("content").t("a\nb")));
    e("FoLiA").a("xml:id", "doc").a("version", "2.0.0").e(m).e(body)
}
fn small() -> Vec<X> {
    let mut v = vec![rich(), docx(vec![], None, vec![]), docx(vec![], Some(gen::procs2()), vec![e("w").e(e("t").t("a"))])];
    let f = gen::f_trees(2);
    for i in 0..f.n { v.extend((f.make)(i)); }
    v.retain(|x| sem::doc(x).is_ok());
    v
}
/// the tokens of a text: tags, comments, instructions, CDATA sections, and text in between
fn tokens(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        let n = if r.starts_with("<!--") { r.find("-->").unwrap() + 3 } else if r.starts_with("<![CDATA[") { r.find("]]>").unwrap() + 3 }
            else if r.starts_with('<') { //quoted values may hold >
                let mut q: Option<char> = None;
                r.char_indices().find(|(_, c)| { match q { Some(x) => { if *c == x { q = None; } false } None => { if *c == '"' || *c == '\'' { q = Some(*c); } *c == '>' } } }).unwrap().0 + 1
            } else { r.find('<').unwrap_or(r.len()) };
        v.push(&r[..n]);
        i += n;
    }
    v
}
/// loads, and if that succeeds, the document must be whole
fn attempt(s: &str, k: &mut Case) -> Result<Result<Document, String>, String> {
    k.transitions += 1; k.traces += 1;
    match io::load(s) {
        Ok(d) => {
            //(a comment can hold what can not be written)
            let t = match io::save(&d, 0) { Ok(t) => t, Err(e) if e.contains("comments") => return Ok(Ok(d)), Err(e) => return Err(e) };
            let d2 = io::load(&t).map_err(|e| format!("what it is loaded as can not be loaded again: {}\n{}", e, t))?;
            let (a, b) = (obs::doc(&d), obs::doc(&d2));
            if a.body != b.body { return Err(format!("what it is loaded as is not whole: {}\n{}", obs::diff(&a.body, &b.body), t)); }
            Ok(Ok(d))
        }
        Err(e) => Ok(Err(e)),
    }
}
fn refuse(s: &str, why: &str, k: &mut Case) -> Result<(), String> {
    k.transitions += 1; k.traces += 1;
    k.outcome(&why);
    match io::load(s) { Ok(_) => Err(format!("{} is accepted:\n{}", why, s)), Err(_) => Ok(()) }
}
fn nth<'a>(x: &'a mut X, n: &mut usize) -> Option<&'a mut X> {
    if *n == 0 { return Some(x); }
    *n -= 1;
    for i in x.items.iter_mut() { if let XI::E(c) = i { if let Some(r) = nth(c, n) { return Some(r); } } }
    None
}
fn nth_tag<'a>(x: &'a mut X, tag: &str) -> Option<&'a mut X> {
    if x.tag == tag { return Some(x); }
    x.items.iter_mut().find_map(|i| if let XI::E(c) = i { nth_tag(c, tag) } else { None })
}
/// names that are one letter off
fn near(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v: Vec<String> = vec![];
    for i in 0..cs.len() {
        let mut d = cs.clone(); d.remove(i); v.push(d.into_iter().collect());
        let mut d = cs.clone(); d[i] = d[i].to_ascii_uppercase(); v.push(d.into_iter().collect());
        if i + 1 < cs.len() { let mut d = cs.clone(); d.swap(i, i + 1); v.push(d.into_iter().collect()); }
    }
    for i in 0..=cs.len() { for x in ['s', '_', '-'].iter() { let mut d = cs.clone(); d.insert(i, *x); v.push(d.into_iter().collect()); } }
    v.retain(|x| x != s && !x.is_empty());
    v.sort(); v.dedup();
    v
}
fn count(x: &X) -> usize { 1 + x.elems().map(count).sum::<usize>() }
/// Whether something put in at a position of the XML is in an attribute value, a comment, or a text that is not blank
fn content_positions(x: &str) -> Vec<bool> {
    let b = x.as_bytes();
    let mut v = vec![false; b.len() + 1];
    let mut i = 0;
    while i < b.len() {
        let rest = &x[i..];
        let upto = |s: &str| rest.find(s).map_or(b.len(), |j| i + j);
        if rest.starts_with("<?") { i = upto("?>") + 2; continue; }
        if rest.starts_with("<!--") { let j = upto("-->"); for k in i + 4..=j { v[k] = true; } i = j + 3; continue; }
        if rest.starts_with("<![CDATA[") { let j = upto("]]>"); for k in i + 9..=j { v[k] = true; } i = j + 3; continue; }
        if rest.starts_with('<') {
            let j = upto(">");
            let mut quote: Option<u8> = None;
            //namespaces and whatever else the outermost tag has are nobody's data
            for k in i..(if rest.starts_with("<FoLiA") { i } else { j }) {
                match quote { None => if b[k] == b'"' || b[k] == b'\'' { quote = Some(b[k]) }, Some(q) => { v[k] = true; if b[k] == q { quote = None } } }
            }
            i = j + 1;
            continue;
        }
        let j = upto("<");
        if !x[i..j].trim().is_empty() { for k in i..=j { v[k] = true; } }
        i = j;
    }
    v
}
pub fn c17(c: &Ctx) -> Run {
    let docs = small();
    let styles: Vec<usize> = (0..xml::STYLES.len()).collect();
    //cut off
    let texts: Vec<String> = docs.iter().enumerate().flat_map(|(i, x)| styles.iter().filter(move |s| i < 3 || **s == 0 || **s == 10).map(move |s| xml::write(x, &xml::STYLES[*s]))).collect();
    c.bound(&format!("cut: every proper prefix of {} documents ({} trees, in up to {} lexical styles), {} bytes in all", texts.len(), docs.len(), styles.len(), texts.iter().map(|t| t.len()).sum::<usize>()));
    c.sweep("cut", texts.len() as u64, |i, k| {
        let t = &texts[i as usize];
        let end = t.rfind("</").unwrap();
        k.describe(t.clone());
        if let Err(e) = io::load(t) { return Err(format!("the whole document is refused: {}", e)); }
        for n in 0..t.len() {
            if !t.is_char_boundary(n) || (n > end && t[n..].trim().is_empty()) { continue; }
            k.states += 1;
            k.describe(t[..n].to_string());
            refuse(&t[..n], "a document that is cut off", k)?;
        }
        Ok(())
    });
    //tags
    let fams: Vec<X> = { let mut v = docs.clone(); let f = gen::f_trees(if c.quick() { 3 } else { 4 }); for i in 0..f.n { v.extend((f.make)(i)); } v.retain(|x| sem::doc(x).is_ok()); v };
    c.bound(&format!("tags: every start and end tag of {} documents dropped, doubled, renamed or swapped with any other", fams.len()));
    c.sweep("tags", fams.len() as u64, |i, k| {
        let t = xml::write(&fams[i as usize], &xml::STYLES[if i % 2 == 0 { 0 } else { 2 }]);
        let ts = tokens(&t);
        let tag: Vec<usize> = (0..ts.len()).filter(|j| ts[*j].starts_with('<') && !ts[*j].starts_with("<!") && !ts[*j].starts_with("<?") && !ts[*j].ends_with("/>")).collect();
        for j in tag.iter() {
            let with = |x: String| -> String { ts.iter().enumerate().map(|(n, s)| if n == *j { x.clone() } else { s.to_string() }).collect() };
            let end = ts[*j].starts_with("</");
            k.states += 1;
            let mut go = |x: String, why: &str| { k.describe(x.clone()); refuse(&x, why, k) };
            go(with(String::new()), "a missing tag")?;
            go(with(format!("{0}{0}", ts[*j])), "a doubled tag")?;
            if end { for other in ["w", "FoLiA", "text", "zz", "metadata"].iter() { let x = format!("</{}>", other); if ts[*j] != x { go(with(x), "an end tag for another element")?; } } }
            if end { go(with(ts[*j].replace("</", "<")), "an end tag that is a start tag")?; } else {
                let name = ts[*j][1..].split(|c: char| c.is_whitespace() || c == '>').next().unwrap();
                go(with(format!("</{}>", name)), "a start tag that is an end tag")?;
                for other in ["w", "zz"].iter() { if name != *other { go(with(ts[*j].replacen(name, other, 1)), "a start tag for another element")?; } }
            }
            for l in tag.iter() {
                if l <= j || !(end && ts[*l].starts_with("</")) || ts[*l] == ts[*j] { continue; }
                let x: String = (0..ts.len()).map(|n| if n == *j { ts[*l] } else if n == *l { ts[*j] } else { ts[n] }).collect();
                go(x, "swapped end tags")?;
            }
        }
        Ok(())
    });
    //elements, attributes, values and IDs
    let elnames = ["zz", "W", "word", "folia", "t-", "pos-annotation", "FoLiA", "meta"];
    let unknown = ["zz", "Class", "clas", "xmlid", "xml_id", "idref", "processors"];
    let n_names = elnames.len();
    c.bound(&format!("faults: in every element of {} documents: {} unknown names, {} unknown attributes, every invalid value of gen::values for every attribute, every duplicate ID", fams.len(), n_names, unknown.len()));
    c.sweep("faults", fams.len() as u64, |i, k| {
        let x = &fams[i as usize];
        let body = x.items.len() - 1;
        let b = if let XI::E(b) = &x.items[body] { b } else { unreachable!() };
        let mut ids = vec![];
        fn collect(x: &X, ids: &mut Vec<String>) { if let Some(i) = x.attr("xml:id") { ids.push(i.into()); } for c in x.elems() { collect(c, ids); } }
        collect(b, &mut ids);
        for n in 0..count(b) {
            let edit = |f: &dyn Fn(&mut X)| -> String { let mut y = x.clone(); if let XI::E(b) = &mut y.items[body] { let mut n = n; f(nth(b, &mut n).unwrap()); } xml::write(&y, &xml::STYLES[n % 2]) };
            let (mut tag, mut attrs) = (String::new(), vec![]);
            let mut own = None;
            { let mut y = x.clone(); if let XI::E(b) = &mut y.items[body] { let mut n = n; let z = nth(b, &mut n).unwrap(); tag = z.tag.clone(); attrs = z.attrs.iter().map(|a| a.0.clone()).collect(); own = z.attr("xml:id").map(String::from); } }
            k.states += 1;
            let mut go = |s: String, why: &str| { k.describe(s.clone()); refuse(&s, why, k) };
            if n > 0 { for t in elnames.iter() { if obs::by_tag(t).map_or(true, |v| v.parses_as.is_none()) { go(edit(&|z| z.tag = t.to_string()), "an unknown element")?; } } }
            for a in unknown.iter() { go(edit(&|z| z.attrs.push((a.to_string(), "v".into()))), "an unknown attribute")?; }
            for a in sem::ATTRS.iter() {
                if attrs.contains(&a.to_string()) && *a == "xml:id" { continue; }
                for v in gen::values(a) { if sem::value(a, v).is_none() { go(edit(&|z| { z.attrs.retain(|y| y.0 != *a); z.attrs.push((a.to_string(), v.to_string())); }), "an invalid value")?; } }
            }
            for v in ["", " 0.5", "0,5", "1.0.0", "half"].iter() { go(edit(&|z| { z.attrs.retain(|y| y.0 != "confidence"); z.attrs.push(("confidence".into(), v.to_string())); }), "an invalid confidence")?; }
            for v in ["2020-13-01T00:00:00", "2020-01-32T00:00:00", "2020-01-01T25:00:00", "2020-01-01T00:60:00", "2020-01-01 00:00:00", ""].iter() { go(edit(&|z| { z.attrs.retain(|y| y.0 != "datetime"); z.attrs.push(("datetime".into(), v.to_string())); }), "an invalid time")?; }
            for id in ids.iter() { if own.as_ref() != Some(id) { go(edit(&|z| { z.attrs.retain(|y| y.0 != "xml:id"); z.attrs.push(("xml:id".into(), id.clone())); if z.tag == "text" {} }), "a duplicate ID")?; } }
            if obs::by_tag(&tag).map_or(false, |v| v.et == ElementType::WordReference) {
                go(edit(&|z| z.attrs.retain(|y| y.0 != "id")), "a reference to nothing")?;
            }
        }
        Ok(())
    });
    //names in the header that are not quite right
    let base = rich();
    let mut head: Vec<(X, &str)> = vec![];
    let mut with = |f: &mut dyn FnMut(&mut X) -> bool, why: &'static str| { let mut y = base.clone(); if f(nth_tag(&mut y, "metadata").unwrap()) { head.push((y, why)); } };
    let known: Vec<String> = crate::vocab::ANNOTATIONS.iter().map(|a| format!("{}-annotation", a.s)).collect();
    for name in known.iter() { for bad in near(name) { if !known.contains(&bad) && bad != "annotator" { with(&mut |m| { let a = nth_tag(m, "annotations").unwrap(); a.items.push(XI::E(e(&bad).a("set", "S"))); true }, "an unknown declaration"); } } }
    for name in ["annotations", "provenance", "processor", "meta", "submetadata", "annotator", "metadata"].iter() { for bad in near(name) {
        if ["annotations", "provenance", "processor", "meta", "submetadata", "annotator", "metadata"].contains(&bad.as_str()) { continue; }
        with(&mut |m| { nth_tag(m, name).map(|x| x.tag = bad.clone()).is_some() }, "an unknown element in the header");
    } }
    let pattrs = ["xml:id", "name", "version", "folia_version", "document_version", "command", "host", "user", "begindatetime", "enddatetime", "src", "format", "resourcelink", "type"];
    for name in pattrs.iter().chain(["set", "class", "id", "zz", "processor"].iter()) { for bad in near(name).into_iter().chain(std::iter::once(name.to_string())) {
        if pattrs.contains(&bad.as_str()) || bad.contains(':') || bad == "xmlns" { continue; }
        with(&mut |m| { nth_tag(m, "processor").unwrap().attrs.push((bad.clone(), "v".into())); true }, "an unknown attribute of a processor");
    } }
    for t in ["auto", "manual", "generator", "datasource"].iter() { for bad in near(t) { with(&mut |m| { nth_tag(m, "processor").unwrap().attrs.push(("type".into(), bad.clone())); true }, "an unknown type of processor"); } }
    for a in ["begindatetime", "enddatetime"].iter() { for bad in ["", "x", "2020-13-01T00:00:00", "2020-02-30T00:00:00", "2020-01-01T25:00:00", "2020-01-01T00:60:00", "2020-01-01 00:00:00", "2020-01-01", "2020-01-01T00:00", "2020-01-01T00:00:00Z"].iter() {
        with(&mut |m| { nth_tag(m, "processor").unwrap().attrs.push((a.to_string(), bad.to_string())); true }, "an invalid time of a processor");
    } }
    //elements of the header where they do not belong, and their names in another namespace
    let pieces: Vec<X> = vec![
        e("annotations"), e("provenance"), e("processor").a("xml:id", "p9").a("name", "n"), e("annotator").a("processor", "p1"), e("pos-annotation").a("set", "S9"),
        e("meta").a("id", "k9").t("v"), e("submetadata").a("xml:id", "m9").a("type", "native"), e("metadata").a("type", "native"), e("FoLiA").a("xml:id", "x"), e("w"), e("text"), e("speech"),
    ];
    //(what is known in the header is also accepted elsewhere in it, which is lenient but loses nothing)
    let fits = |parent: &str, x: &str| !matches!(x, "FoLiA" | "w" | "text" | "speech") && !(parent == "metadata" && (matches!(x, "processor" | "annotator") || x.ends_with("-annotation")));
    for parent in ["metadata", "annotations", "provenance", "processor", "submetadata", "meta", "pos-annotation", "annotator"].iter() {
        for x in pieces.iter() { for foreign in [false, true] { for content in [false, true] { for first in [false, true] {
            if !foreign && fits(parent, &x.tag) { continue; }
            let mut x = x.clone();
            if foreign { x.folia = false; x.tag = format!("alien:{}", x.tag); x.attrs.push(("xmlns:alien".into(), "http://example.org/alien".into())); }
            if content { x = x.t(" "); }
            with(&mut |m| { nth_tag(m, parent).map(|p| if first { p.items.insert(0, XI::E(x.clone())) } else { p.items.push(XI::E(x.clone())) }).is_some() }, if foreign { "an element of another namespace in the header" } else { "an element where it does not belong in the header" });
        } } } }
    }
    c.bound(&format!("header: {} headers in which an element is misplaced or of another namespace, the name of a declaration, element, processor attribute or processor type is one letter off, or a time is invalid", head.len()));
    c.sweep("header", head.len() as u64, |i, k| {
        let (x, why) = &head[i as usize];
        for st in [0, 2].iter() {
            let s = xml::write(x, &xml::STYLES[*st]);
            k.describe(s.clone());
            k.states += 1;
            refuse(&s, why, k)?;
        }
        Ok(())
    });
    //junk around and instead of a document
    let (whole, plain) = (xml::write(&rich(), &xml::PLAIN), xml::write(&docs[1], &xml::PLAIN));
    let junk: Vec<(String, &str, bool)> = { let mut v: Vec<(String, &str, bool)> = vec![];
        for s in ["", " ", "\n", "x", "<", ">", "<>", "</", "</>", "<x/>", "<x></x>", "<?xml?>", "<!-- -->", "<!DOCTYPE x>", "<FoLiA/>", "<FoLiA></FoLiA>", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\"/>", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"x\"/>", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"x\"><text/></FoLiA", "\u{0}", "\u{FEFF}", "&", "&amp;", "]]>", "<![CDATA[", "<FoLiA <FoLiA", "<text/>", "<w/>"].iter() { v.push((s.to_string(), "not a document", true)); }
        v.push((plain.replace("<text xml:id=\"doc.text\"/>", ""), "a document without a body", true));
        v.push((plain.replace("http://ilk.uvt.nl/folia", "http://example.org/"), "another format", true));
        v.push((whole.replace("</FoLiA>", "</FoLiA></FoLiA>"), "a document with an extra end tag", false));
        for s in ["\u{FEFF}", "<!-- c -->", "\n", "<!DOCTYPE FoLiA>"].iter() { v.push((format!("{}{}", s, whole), "a document with something before it", false)); }
        v };
    c.bound(&format!("junk: {} texts that are not documents", junk.len()));
    c.sweep("junk", junk.len() as u64, |i, k| {
        let (s, why, must) = &junk[i as usize];
        k.describe(s.clone());
        k.states += 1;
        if *must { refuse(s, why, k) } else { attempt(s, k).map(|_| ()) }
    });
    //every byte
    let muts: Vec<&str> = vec!["", "<", ">", "/", "\"", "'", "=", "&", ";", " ", "!", "?", "-", "]", "x", ":", "0", "\n", "\u{e9}", "\u{0}", "&#0;", "&#xD800;", "&zz;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "<w>", "</w>", "<zz/>", "</"];
    let bases: Vec<String> = if c.quick() { vec![whole.clone(), xml::write(&docs[2], &xml::STYLES[10])] } else { styles.iter().map(|s| xml::write(&rich(), &xml::STYLES[*s])).collect() };
    let pos: Vec<(usize, usize)> = bases.iter().enumerate().flat_map(|(b, t)| (0..t.len()).filter(move |n| t.is_char_boundary(*n)).map(move |n| (b, n))).collect();
    c.bound(&format!("bytes: at each of {} positions of {} texts, {} strings put in or in place of a character, and two characters swapped", pos.len(), bases.len(), muts.len()));
    c.sweep("bytes", pos.len() as u64, |i, k| {
        let (b, n) = pos[i as usize];
        let t = &bases[b];
        let (pre, post) = t.split_at(n);
        let body = t.find(":id=\"doc.text\"").or(t.find(":id='doc.text'")).unwrap_or(t.len()) + 14;
        let mut it = post.chars();
        let a = it.next();
        let rest = it.as_str();
        k.states += 1;
        for m in muts.iter() { for drop in [false, true].iter() {
            let s = format!("{}{}{}", pre, m, if *drop { rest } else { post });
            k.describe(s.clone());
            let r = attempt(&s, k)?;
            k.outcome(&r.is_ok());
            //what is still XML must be taken for what it is
            if n < body { continue; }
            if let (Ok(x), false) = (xml::read(&s), *m == "\n" || *m == ":") {
                match (&r, sem::doc_with(&x, &io::declare_default())) {
                    //(times without leading zeros may be understood)
                    (Ok(_), Err(e)) if e.contains("for datetime") => {}
                    (Ok(_), Err(e)) => return Err(format!("accepted, although there is an {}", e)),
                    (Err(e), Ok(_)) => return Err(format!("refused: {}", e)),
                    (Ok(d), Ok(w)) => io::same(&obs::doc(d), &w, "the loaded document vs. its XML", &s)?,
                    _ => {}
                }
            }
        } }
        if let (Some(a), Some(z)) = (a, it.next()) { let s = format!("{}{}{}{}", pre, z, a, it.as_str()); k.describe(s.clone()); let _ = attempt(&s, k)?; }
        Ok(())
    });
    //bytes that are not text
    let dir = std::env::temp_dir().join(format!("mc-c17-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let bytes: Vec<&[u8]> = vec![&[0xff], &[0xc3], &[0x80], &[0xed, 0xa0, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xfe, 0xff]];
    let step = c.pick(2, 1);
    let content = content_positions(&whole);
    c.bound(&format!("encoding: {} invalid byte sequences put in at every {}th position of a file; in attribute values, text and comments they must be refused", bytes.len(), step));
    c.sweep("encoding", (whole.len() / step) as u64, |i, k| {
        let n = i as usize * step;
        for (j, b) in bytes.iter().enumerate() {
            let mut s = whole.as_bytes()[..n].to_vec();
            s.extend(*b);
            s.extend(&whole.as_bytes()[n..]);
            let path = dir.join(format!("{}-{}.xml", i, j));
            std::fs::write(&path, &s).map_err(|e| e.to_string())?;
            k.describe(format!("bytes {:x?} at {} of {}", b, n, whole));
            let r = Document::from_file(path.to_str().unwrap(), DocumentProperties::default());
            let _ = std::fs::remove_file(&path);
            k.states += 1; k.transitions += 1; k.traces += 1;
            k.outcome(&r.is_ok());
            if r.is_ok() && content[n] { return Err("loaded, although there are bytes that are not text in a value, text or comment".into()); }
            if let Ok(d) = r { io::save(&d, 0)?; obs::doc(&d); }
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    c.bound("files: a file that does not exist, a directory, an empty file");
    c.sweep("files", 1, |_, k| {
        k.states += 1; k.transitions += 2;
        for p in ["/nonexistent/x.xml", "/"].iter() { if Document::from_file(p, DocumentProperties::default()).is_ok() { return Err(format!("{} is loaded", p)); } }
        Ok(())
    });
    Run { assumptions: &["the end of a document is the end tag of its root element", "attributes with a prefix are of another namespace and may be ignored"], explanation: "every damaged text of the space is given to the real parser; those that must be refused have to give an error, and all others an error or a document that can be saved and loaded as itself; a panic, an abort or a run that does not end is a violation" }
}
