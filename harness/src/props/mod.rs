//! The properties, each with its exploration.
use crate::ctx::*;
mod io; mod edit; mod prov; mod read; mod query; mod text; mod schema; mod attr; mod stores; mod total; mod damage; mod decl; mod build; mod tools;

pub struct Run { pub assumptions: &'static [&'static str], pub explanation: &'static str }

pub fn run(id: &str, c: &Ctx) -> Option<Run> {
    Some(match id {
        "C01" => io::c01(c),
        "C02" => io::c02(c),
        "C03" => io::c03(c),
        "C04" => io::c04(c),
        "C05" => edit::c05(c),
        "C06" => edit::c06(c),
        "C07" => edit::c07(c),
        "C08" => edit::c08(c),
        "C09" => edit::c09(c),
        "C10" => read::c10(c),
        "C11" => query::c11(c),
        "C12" => read::c12(c),
        "C13" => text::c13(c),
        "C14" => decl::c14(c),
        "C15" => prov::c15(c),
        "C16" => decl::c16(c),
        "C17" => damage::c17(c),
        "C18" => schema::c18(c),
        "C19" => attr::c19(c),
        "C21" => stores::c21(c),
        "C20" => total::c20(c),
        "C22" => build::c22(c),
        "C23" => tools::c23(c),
        _ => return None,
    })
}
/// Genuine defects that are recorded and not repaired: what is found of them in this tree
pub fn known(id: &str, c: &Ctx) -> Vec<(String, String)> {
    use crate::{gen::{docx, e}, obs, ops, xml};
    use folia::{ElementType as ET, ReadElement};
    let mut v = vec![];
    let mut found = |id: &str, what: &str| v.push((id.to_string(), what.to_string()));
    match id {
        "C01" | "C02" => {
            let keys = |d: &folia::Document, et: ET| (0..obs::n_elements(d)).filter(|k| d.get_element(*k).map_or(false, |x| x.elementtype() == et)).collect::<Vec<u32>>();
            let w = |n: &str| e("w").a("xml:id", n);
            let x = docx(vec![], None, vec![e("s").e(w("w1").e(e("pos").a("class", "a").a("set", "P").e(e("feat").a("subset", "n").a("class", "b"))).e(e("lemma").a("class", "c").a("set", "L"))).e(e("entities").e(e("entity").a("class", "per").e(e("wref").a("id", "w1"))))]);
            let text = xml::write(&x, &xml::PLAIN);
            let changes = |d: &folia::Document| {
                let o = obs::doc(d);
                match io::save(d, 0).and_then(|s| io::load(&s)) { Ok(d2) => obs::doc(&d2).body != o.body, Err(_) => true }
            };
            if let Ok(mut d) = io::load(&text) {
                let (f, l) = (keys(&d, ET::Feature), keys(&d, ET::LemmaAnnotation));
                if d.attach_element(l[0], f[0]).is_ok() && changes(&d) { found("moved-feature", "a feature that attach_element moves to an annotation in another set keeps its old set, which is not saved"); }
            }
            if id == "C01" {
                if let Ok(mut d) = io::load(&text) {
                    let w = keys(&d, ET::Word);
                    if d.detach_element(w[0]).is_ok() && changes(&d) { found("detached-target", "a document from which detach_element takes a word that a span annotation refers to cannot be loaded after it is saved"); }
                }
            }
        }
        "C03" => {
            let x = docx(vec![], None, vec![e("w").e(e("foreign-data"))]);
            let s = xml::write(&x, &xml::PLAIN).replace("<foreign-data/>", "<foreign-data><x:y xmlns:x=\"http://example.org/x\">inside</x:y></foreign-data>");
            if let Ok(d) = io::load(&s) {
                if !io::save(&d, 0).map_or(false, |s| s.contains(":y") || s.contains("<y")) { found("foreign-data", "<foreign-data> is loaded without the tags in it"); }
            }
        }
        "C09" => {
            let make = || {
                let w = |n: &str| e("w").a("xml:id", n);
                let x = docx(vec![], None, vec![e("s").e(w("w1")).e(w("w2")).e(e("entities").e(e("entity").e(e("wref").a("id", "w1"))).e(e("entity").e(e("wref").a("id", "w2"))))]);
                io::load(&xml::write(&x, &xml::PLAIN)).ok()
            };
            let keys = |d: &folia::Document, et: ET| (0..obs::n_elements(d)).filter(|k| d.get_element(*k).map_or(false, |x| x.elementtype() == et)).collect::<Vec<u32>>();
            if let Some(mut d) = make() {
                let w = keys(&d, ET::WordReference);
                if d.detach_element(w[0]).is_ok() && ops::snap(&d, &[], &[]).backrefs().is_err() { found("detached-wref", "an element keeps its reference back to the span annotation from which its word reference is detached"); }
            }
            if let Some(mut d) = make() {
                let (w, s) = (keys(&d, ET::WordReference), keys(&d, ET::Entity));
                if d.attach_element(s[1], w[0]).is_ok() && ops::snap(&d, &[], &[]).backrefs().is_err() { found("moved-wref", "an element refers back to the span annotation its word reference was in, and not to the one to which it is moved"); }
            }
        }
        "C21" => {
            let k = std::mem::take(&mut *c.known.lock().unwrap());
            if k.iter().any(|k| k == "nested:declarations") { found("nested-declarations", "a new element with parts in undeclared sets is refused when their declarations do not all fit in the 65536 there can be, with the first parts added"); }
            if k.iter().any(|k| k == "nested:subsets") { found("nested-subsets", "a new annotation with features in new subsets is refused when these do not all fit in the 65536 there can be, with the first features added"); }
        }
        _ => {}
    }
    v
}
