//! C23: the command-line tools
use super::{io, Run};
use crate::{ctx::*, xml};
use folia::*;
use std::process::{Command, Stdio};

fn doc(body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<FoLiA xmlns=\"{}\" xml:id=\"doc\" version=\"2.0.0\"><metadata type=\"native\"><annotations><token-annotation/><sentence-annotation/></annotations></metadata><text xml:id=\"t\">{}</text></FoLiA>\n", xml::NSFOLIA, body)
}
/// name, content (none: there is no such file; empty name of a folder)
fn files() -> Vec<(&'static str, Option<Vec<u8>>)> {
    vec![
        ("a.xml", Some(doc("<s xml:id=\"s\"><w xml:id=\"w1\"><t> \u{e9}&lt;&amp;</t></w><w xml:id=\"w2\"><t>b</t></w></s>").into_bytes())),
        ("name with spaces.xml", Some(doc("<!-- c --><s/><w xml:id=\"w\" class=\"&quot;x&quot;\"/>").into_bytes())),
        ("empty.folia", Some(doc("").into_bytes())),
        ("cut.xml", Some(doc("<s/>").into_bytes()[..200].to_vec())),
        ("unknown.xml", Some(doc("<unknown/>").into_bytes())),
        ("twice.xml", Some(doc("<s xml:id=\"x\"/><s xml:id=\"x\"/>").into_bytes())),
        ("bytes.xml", Some({ let mut s = doc("<w><t>").into_bytes(); let n = s.len() - 24; s[n] = 0xff; s })),
        ("nothing.xml", Some(vec![])),
        ("missing.xml", None),
    ]
}
struct Out { code: Option<i32>, out: Vec<u8>, err: Vec<u8> }
fn exec(bin: &str, args: &[&str], dir: &std::path::Path) -> Result<Out, String> {
    let o = Command::new(bin).args(args).current_dir(dir).stdin(Stdio::null()).output().map_err(|e| format!("{} can not be run: {}", bin, e))?;
    Ok(Out { code: o.status.code(), out: o.stdout, err: o.stderr })
}
fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().take(600).collect() }
pub fn c23(c: &Ctx) -> Run {
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| ".".into());
    let lint = std::fs::canonicalize(format!("{}/target/release/folialintr", root)).expect("folialintr").to_string_lossy().to_string();
    let bench = std::fs::canonicalize(format!("{}/target/release/foliabenchmarkr", root)).expect("foliabenchmarkr").to_string_lossy().to_string();
    let dir = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a scratch folder");
    let all = files();
    let path = |i: usize, abs: bool| if abs { dir.join(all[i].0).to_string_lossy().to_string() } else { all[i].0.to_string() };
    //what the library makes of each
    let mut want: Vec<Result<String, String>> = vec![];
    let mut words: Vec<usize> = vec![];
    for (i, (name, content)) in all.iter().enumerate() {
        if let Some(x) = content { std::fs::write(dir.join(name), x).expect("writing"); }
        let d = Document::from_file(&path(i, true), DocumentProperties::default());
        words.push(content.as_ref().map_or(0, |x| String::from_utf8_lossy(x).matches("<w ").count()));
        want.push(d.and_then(|d| d.xml(0, 4)).map(|x| String::from_utf8(x).expect("utf-8")).map_err(|e| format!("{}", e)));
        let good = i < 3;
        if want[i].is_ok() != good { c.violation("files", format!("{} is {}", name, if good { "refused" } else { "accepted" }), format!("{:?}", content.as_ref().map(|x| show(x)))); }
    }
    let good: Vec<usize> = (0..all.len()).filter(|i| want[*i].is_ok()).collect();
    //sequences of files
    let n = all.len() as u64;
    let depth = c.pick(3, 4);
    c.bound(&format!("lint: folialintr on all sequences of 1 to {} of {} files (good, cut off, invalid, not UTF-8, empty, missing), given by absolute and relative path", depth, n));
    for len in 1..=depth {
        c.sweep(&format!("lint{}", len), n.pow(len as u32) * if len < 3 { 2 } else { 1 }, |i, k| {
            let mut ix = crate::gen::Ix(i);
            let seq: Vec<usize> = (0..len).map(|_| ix.take(n as usize)).collect();
            let abs = ix.take(2) == 1;
            let args: Vec<String> = seq.iter().map(|f| path(*f, abs)).collect();
            k.describe(format!("folialintr {:?}", args));
            let o = exec(&lint, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &dir)?;
            k.states += 1; k.transitions += len as u64; k.traces += 1;
            let (mut out, mut err) = (String::new(), String::new());
            for f in seq.iter() { match &want[*f] { Ok(x) => { out += x; out += "\n"; } Err(e) => { err += e; err += "\n"; } } }
            if !abs { err = String::from_utf8_lossy(&o.err).to_string(); let bad = seq.iter().any(|f| want[*f].is_err()); if bad == err.is_empty() { return Err(format!("reports {:?}", err)); } }
            k.outcome(&(out.len(), seq.iter().filter(|f| want[**f].is_err()).count()));
            if o.code.is_none() || o.code == Some(101) { return Err(format!("crashes: {}", show(&o.err))); }
            if o.out != out.as_bytes() { return Err(format!("prints {:?} rather than {:?}", show(&o.out), out)); }
            if o.err != err.as_bytes() { return Err(format!("reports {:?} rather than {:?}", show(&o.err), err)); }
            Ok(())
        });
    }
    //benchmarks
    let tests = ["parse", "serialise", "select", "other"];
    let (nt, nf) = (c.pick(3, 4), c.pick(2, 3));
    let pow = |b: usize, n: usize| -> u64 { (1..=n).map(|i| (b as u64).pow(i as u32)).sum() };
    let seq = |mut i: u64, b: usize| -> Vec<usize> { let mut len = 1; while i >= (b as u64).pow(len) { i -= (b as u64).pow(len); len += 1; } let mut ix = crate::gen::Ix(i); (0..len).map(|_| ix.take(b)).collect() };
    c.bound(&format!("bench: foliabenchmarkr with none and all sequences of 1 to {} of its tests (and an unknown one) on all sequences of 1 to {} of {} files", nt, nf, good.len()));
    let (a, b) = (pow(tests.len(), nt) + 1, pow(good.len(), nf));
    c.sweep("bench", a * b, |i, k| {
        let ts: Vec<usize> = if i % a == 0 { vec![] } else { seq(i % a - 1, tests.len()) };
        let fs: Vec<usize> = seq(i / a, good.len()).into_iter().map(|f| good[f]).collect();
        let list = ts.iter().map(|t| tests[*t]).collect::<Vec<_>>().join(",");
        let mut args: Vec<String> = fs.iter().map(|f| path(*f, true)).collect();
        if !ts.is_empty() { args.insert(0, list.clone()); args.insert(0, if i % 2 == 0 { "-t".into() } else { "--tests".into() }); args.insert(2, "--".into()); }
        k.describe(format!("foliabenchmarkr {:?}", args));
        let o = exec(&bench, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &dir)?;
        k.states += 1; k.transitions += (fs.len() * ts.len()) as u64; k.traces += 1;
        if o.code != Some(0) { return Err(format!("ends with {:?}: {}", o.code, show(&o.err))); }
        let (mut out, mut err): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for f in fs.iter() { for t in (if ts.is_empty() { vec![0] } else { ts.clone() }).iter() { match tests[*t] {
            "other" => err.push("other".into()),
            x => { if x == "select" { out.push(format!("{}", words[*f])); } out.push(format!("{} - [{}]", path(*f, true), x)); }
        } } }
        let got: Vec<String> = String::from_utf8_lossy(&o.out).lines().map(|l| l.splitn(3, " - ").take(2).collect::<Vec<_>>().join(" - ")).collect();
        let goterr: Vec<String> = String::from_utf8_lossy(&o.err).lines().map(|s| s.to_string()).collect();
        k.outcome(&got.len());
        if got != out { return Err(format!("reports {:?} rather than {:?}", got, out)); }
        if goterr.len() != err.len() || !goterr.iter().zip(err.iter()).all(|(g, w)| g.contains(w)) { return Err(format!("complains {:?} rather than of {:?}", goterr, err)); }
        Ok(())
    });
    let _ = io::load;
    let _ = std::fs::remove_dir_all(&dir);
    Run { assumptions: &["what the library makes of a file (the XML it saves, or the error) is the subject of the other properties"], explanation: "the programs are run as processes, on every sequence of files up to a length, and what they print is compared with what the library makes of each file" }
}
