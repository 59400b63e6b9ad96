#!/usr/bin/env python3
"""plant.py FILE...: makes seeded/<id>/ from a description of a planted bug (a Python file that defines
ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO, the body of a demonstration in Rust), after confirming in a
scratch copy of /repo that it builds, that the tests pass, and that the demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys
BASE = "19971cf"
SCRATCH = "/tmp/plant-scratch"
DEMO_SH = r'''#!/bin/bash
# Builds and runs main.rs (next to this script) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export REPO_DIR=$PWD; repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nfolia = { path = "%s" }\n[workspace]\n' "$repo" > "$t/Cargo.toml"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run -q --offline
'''
PRELUDE = '''#![allow(unused)]
use folia::*;
use std::borrow::Cow;
fn load(s: &str) -> Document { Document::from_str(s, DocumentProperties::default()).expect("loading") }
fn save(d: &Document) -> String { String::from_utf8(d.xml(0, 0).expect("saving")).expect("utf-8") }
/// a document with the declarations and the contents of the body
fn doc(decls: &str, body: &str) -> String {
    format!("<?xml version=\\"1.0\\" encoding=\\"utf-8\\"?>\\n<FoLiA xmlns=\\"http://ilk.uvt.nl/folia\\" xmlns:xlink=\\"http://www.w3.org/1999/xlink\\" xml:id=\\"doc\\" version=\\"2.0.0\\">\\n<metadata type=\\"native\\"><annotations>{}</annotations></metadata>\\n<text xml:id=\\"t\\">{}</text>\\n</FoLiA>\\n", decls, body)
}
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    if not os.path.isdir(SCRATCH):
        shutil.copytree("/repo", SCRATCH, symlinks=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=SCRATCH + "/target")
    bad = 0
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        out = "/verif/seeded/" + ns["ID"]
        sh(["git", "fetch", "-q", "/repo", "HEAD"], SCRATCH); sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], SCRATCH)
        err = None
        for f, old, new in ns["EDITS"]:
            p = SCRATCH + "/src/" + f
            s = open(p).read()
            if s.count(old) != 1: err = "%d occurrences in %s of %r" % (s.count(old), f, old); break
            open(p, "w").write(s.replace(old, new))
        if not err:
            diff = sh(["git", "diff"], SCRATCH).stdout
            removed = 0
            for f in sorted({e[0] for e in ns["EDITS"]}):
                mine = set()
                for n, l in enumerate(sh(["git", "blame", "-s", "HEAD", "--", "src/" + f], SCRATCH).stdout.split("\n"), 1):
                    if l and not l.startswith("^" + BASE): mine.add(n)
                for l in sh(["git", "diff", "-U0", "--", "src/" + f], SCRATCH).stdout.split("\n"):
                    if l.startswith("@@"):
                        a = l.split()[1][1:].split(","); start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        removed += cnt
                        if any(x in mine for x in range(start, start + cnt)): err = "changes a line of mine in " + f
            if removed == 0: err = err or "only adds lines"
        if not err:
            t = sh(["cargo", "test", "--offline"], SCRATCH, env=env)
            if t.returncode != 0 or "31 passed" not in t.stdout: err = "tests: " + t.stdout[-1500:]
        if not err:
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO_SH); os.chmod(out + "/demo.sh", 0o755)
            open(out + "/main.rs", "w").write(PRELUDE + ns["DEMO"].strip() + "\n")
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            denv = {k: v for k, v in env.items() if k != "CARGO_TARGET_DIR"}
            d = sh(["bash", out + "/demo.sh"], SCRATCH, env=denv)
            if d.returncode in (0, 2): err = "the demonstration passes with the bug: " + d.stdout[-800:]
            elif "error[" in d.stdout or "could not compile" in d.stdout: i = d.stdout.find("\nerror"); err = "demo: " + d.stdout[i:i+600]
            else:
                ls = d.stdout.split("\n"); why = [x for i, l in enumerate(ls) if "panicked" in l for x in ls[i:i+4]]
                sh(["git", "checkout", "-q", "--", "."], SCRATCH)
                d = sh(["bash", out + "/demo.sh"], SCRATCH, env=denv)
                if d.returncode != 0: err = "the demonstration fails without the bug: " + d.stdout[-1500:]
                else: print("ok", ns["ID"], "|", " ".join(why)[:200])
            if err: shutil.rmtree(out, ignore_errors=True)
        if err: bad += 1; print("BAD", ns["ID"], err)
    sys.exit(bad > 0)
main()
