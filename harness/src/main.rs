//! Bounded exhaustive model checking of the folia crate. See /verif/DESIGN.md.
mod ctx; mod vocab; mod xml; mod obs; mod sem; mod gen; mod ops; mod props;
use ctx::*;
use std::io::Write;

fn usage() -> ! { eprintln!("usage: mc <property> quick|thorough [--only <phase>#<index>]\n       mc replay <file>"); std::process::exit(2) }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o.push('"');
    o
}
fn root() -> std::path::PathBuf { std::env::var("MC_ROOT").map(|s| s.into()).unwrap_or_else(|_| "/verif".into()) }

fn child(id: &str, tier: Tier, only: Option<(String, u64)>, board: usize) -> i32 {
    let t0 = std::time::Instant::now();
    if std::env::var("MC_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    if std::env::var("MC_STDERR").is_err() { unsafe { let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY); if n >= 0 { libc::dup2(n, 2); } } }
    let c = Ctx::new(id, tier, only, board);
    //(a panic outside of the cases comes from the code under test as well: what is prepared there works on the unchanged tree)
    let panicked = |e: Box<dyn std::any::Any + Send>| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    let meta = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(id, &c))) {
        Ok(Some(m)) => m,
        Ok(None) => { eprintln!("unknown property {}", id); return 2 }
        Err(e) => { c.violation("setup", format!("panic: {}", panicked(e)), "the preparation of the exploration".into()); props::Run { assumptions: &[], explanation: "the exploration ended in a panic" } }
    };
    let wall = t0.elapsed().as_secs_f64();
    //known findings
    let listed = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let known = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::known(id, &c))).unwrap_or_else(|e| { c.violation("known", format!("panic: {}", panicked(e)), "the known findings".into()); Default::default() });
    for (kid, what) in known {
        let prefix = format!("KNOWN-FINDING property={} id={} ", id, kid);
        if listed.lines().any(|l| l.starts_with(&prefix)) {
            println!("KNOWN-FINDING: property={} {}: {}", id, kid, what);
            c.known.lock().unwrap().push(kid);
        } else {
            c.violation("known", format!("{}: {}", kid, what), kid.clone());
        }
    }
    let v = c.violations.lock().unwrap();
    let mut code = 0;
    if !v.is_empty() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}.txt", id));
        let mut f = std::fs::File::create(&p).unwrap();
        for x in v.iter() {
            writeln!(f, "property: {}\ntier: {}\nphase: {}\nviolation: {}\ncase: {}\n----", id, if tier == Tier::Quick { "quick" } else { "thorough" }, x.phase, x.what, x.case).unwrap();
        }
        for x in v.iter().take(3) { println!("violation [{}] {}\n  case: {}", x.phase, x.what.chars().take(2000).collect::<String>(), x.case.chars().take(2000).collect::<String>()); }
        println!("VIOLATION property={} replay={}", id, p.display());
        code = 1;
    }
    use std::sync::atomic::Ordering::Relaxed;
    let (st, tr, tv) = (c.states.load(Relaxed), c.transitions.load(Relaxed), c.traces.load(Relaxed));
    let phases: Vec<String> = c.phases.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let samples: Vec<String> = c.samples.lock().unwrap().iter().map(|s| js(s)).collect();
    let bounds: Vec<String> = c.bounds.lock().unwrap().iter().map(|s| js(s)).collect();
    let known: Vec<String> = c.known.lock().unwrap().iter().map(|s| js(s)).collect();
    let assume: Vec<String> = meta.assumptions.iter().map(|s| js(s)).collect();
    let ev = format!("{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"model_checking\",\n\"coverage\": {{\n \"states\": {},\n \"transitions\": {},\n \"traces_validated_against_impl\": {},\n \"distinct_observed_outcomes\": {},\n \"exhaustive\": {},\n \"cases_per_phase\": {{{}}},\n \"bounds\": [{}],\n \"explanation\": {},\n \"known_findings\": [{}],\n \"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
        js(id), js(if tier == Tier::Quick { "quick" } else { "thorough" }), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        st, tr, tv, c.outcomes.lock().unwrap().len(), v.is_empty(), phases.join(", "), bounds.join(", "), js(meta.explanation), known.join(", "), samples.join(",\n  "), assume.join(", "), wall, v.len());
    if c.only.is_none() {
        let _ = std::fs::create_dir_all(root().join("evidence"));
        std::fs::write(root().join("evidence").join(format!("{}.json", id)), ev).unwrap();
    }
    println!("{} {}: states={} transitions={} validated={} outcomes={} violations={} wall={:.1}s", id, if tier == Tier::Quick { "quick" } else { "thorough" }, st, tr, tv, c.outcomes.lock().unwrap().len(), v.len(), wall);
    code
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (id, tier, only) = if args.len() == 2 && args[0] == "replay" {
        let t = std::fs::read_to_string(&args[1]).expect("replay file");
        let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string())).unwrap_or_else(|| usage());
        let case = g("case: ");
        let (p, i) = case.rsplit_once('#').unwrap_or_else(|| usage());
        (g("property: "), if g("tier: ") == "quick" { Tier::Quick } else { Tier::Thorough }, Some((p.to_string(), i.parse().unwrap_or_else(|_| usage()))))
    } else if args.len() >= 2 {
        let tier = match args[1].as_str() { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => usage() };
        let only = if args.len() == 4 && args[2] == "--only" { let (p, i) = args[3].rsplit_once('#').unwrap_or_else(|| usage()); Some((p.to_string(), i.parse().unwrap_or_else(|_| usage()))) } else { None };
        (args[0].clone(), tier, only)
    } else { usage() };

    //the exploration runs in a child process, so that a crash or hang of the code under test is seen and reported
    let board = unsafe { libc::mmap(std::ptr::null_mut(), SLOTS * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    let board = if board == libc::MAP_FAILED { 0 } else { board as usize };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
        }
        let code = child(&id, tier, only, board);
        std::io::stdout().flush().unwrap();
        std::process::exit(code);
    }
    let hang: u64 = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    let mut last: Vec<(u64, std::time::Instant)> = (0..SLOTS).map(|_| (0, std::time::Instant::now())).collect();
    let mut status: i32 = 0;
    let mut cause = String::new();
    let mut idle = std::time::Instant::now();
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid { break; }
        std::thread::sleep(std::time::Duration::from_millis(20));
        if board == 0 || !cause.is_empty() { continue; }
        if (0..SLOTS).any(|w| unsafe { std::ptr::read_volatile((board + w * SLOT) as *const u64) } != 0) { idle = std::time::Instant::now(); }
        if idle.elapsed().as_secs() > 4 * hang {
            cause = format!("the preparation of the exploration did not terminate within {} s", 4 * hang);
            unsafe { libc::kill(pid, libc::SIGKILL); }
        }
        for w in 0..SLOTS {
            let v = unsafe { std::ptr::read_volatile((board + w * SLOT) as *const u64) };
            if v != last[w].0 || v == 0 { last[w] = (v, std::time::Instant::now()); }
            else if last[w].1.elapsed().as_secs() > hang {
                cause = format!("a case did not terminate within {} s: {}", hang, slot(board, w));
                unsafe { libc::kill(pid, libc::SIGKILL); }
                break;
            }
        }
    }
    if cause.is_empty() {
        if libc::WIFEXITED(status) { std::process::exit(libc::WEXITSTATUS(status)); }
        let sig = libc::WTERMSIG(status);
        if sig != libc::SIGABRT && sig != libc::SIGSEGV && sig != libc::SIGBUS { eprintln!("the exploration was ended by signal {}", sig); std::process::exit(2); }
        let active: Vec<String> = (0..SLOTS).filter(|w| board != 0 && unsafe { *((board + w * SLOT) as *const u64) } != 0).map(|w| slot(board, w)).collect();
        cause = format!("the process was ended by signal {} (stack overflow, out of memory or abort) while running one of: {}", sig, active.join("\n~~~~\n"));
    }
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.txt", id));
    let _ = std::fs::write(&p, format!("property: {}\ntier: {}\nphase: crash\nviolation: {}\n", id, if tier == Tier::Quick { "quick" } else { "thorough" }, cause));
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::create_dir_all(root().join("evidence"));
    let _ = std::fs::write(root().join("evidence").join(format!("{}.json", id)), format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":0,\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":0,\"violations\":1}}\n", js(&id), t, js(&cause.chars().take(500).collect::<String>())));
    println!("violation: {}", cause.chars().take(2000).collect::<String>());
    println!("VIOLATION property={} replay={}", id, p.display());
    std::process::exit(1);
}

fn slot(board: usize, w: usize) -> String {
    unsafe {
        let base = (board + w * SLOT) as *const u8;
        let n = (*(base.add(8) as *const u64) as usize).min(SLOT - 16);
        String::from_utf8_lossy(std::slice::from_raw_parts(base.add(16), n)).to_string()
    }
}
