#!/usr/bin/env python3
"""mutate.py [-j N] [-f FILE.rs ...] [-s STRIDE] [-o OUT]: systematically mutates the sources of /repo, one small change at a time, in scratch
copies, and reports the mutants that build, pass the tests, and are not noticed by the quick checks (of which only every STRIDEth case
is run, so that it takes hours rather than days). For finding gaps in the checks; not itself a check."""
import argparse, json, os, queue, re, shutil, subprocess, sys, threading
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
ROOT = "/tmp/mut"
ORDER = "C18 C22 C04 C14 C11 C05 C15 C19 C03 C09 C07 C06 C16 C12 C10 C13 C17 C08 C01 C02 C21 C20".split()
SUBST = [(r"(?<![=!<>])==(?!=)", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! *\{)(?<!\(\|\|)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
    (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r" \+= 1\b", " += 2"),
    (r"\bif !", "if "), (r"(?<=[ (])!(?=[a-z(])", ""), (r"\.rev\(\)", ""), (r"\.last\(\)", ".first()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\bif (?!let)(.+) \{$", r"if true || (\1) {"), (r"\bif (?!let)(.+) \{$", r"if false && (\1) {"),
    (r"\bSome\((\w+)\)(?=;?$)", "None"), (r"\.or_else\(.*\)(?=;?$)", ""), (r"\.filter\(.*\)(?=\.)", ""), (r"\.take\(\)", ".clone()"), (r"\b0\b(?=[,;) ])", "1"), (r"\b1\b(?=[,;) ])", "2"),
    (r"=> \{ *$", "if false => {")]
def mutants(path):
    lines = open(path).read().split("\n")
    out = []
    depth_test = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]"): break
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "eprintln!" in s: continue
        code = re.split(r"(?<!:)//", l)[0].rstrip()
        instr = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        for pat, rep in SUBST:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in instr): continue
                if pat.startswith(r"=> \{") and (" if " in code or "|" not in code and False): continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code: out.append((n, new))
        if re.match(r"^(self|[a-z_.]+)\b.*;$", s) and not s.startswith(("let ", "return", "break", "continue", "pub ", "use ", "mod ", "type ")): out.append((n, l[:len(l) - len(l.lstrip())] + "();"))
    seen = set(); res = []
    for n, new in out:
        if (n, new) not in seen: seen.add((n, new)); res.append((n, lines[n], new))
    return res
def run(cmd, cwd, env, timeout):
    import signal, resource
    lim = 6 << 30
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_DATA, (lim, lim)))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
        return -9, ""
def worker(i, q, out, stride, lock):
    w = "%s/%d" % (ROOT, i)
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    shutil.copy("/repo/Cargo.lock", w + "/repo/") if os.path.exists("/repo/Cargo.lock") else None
    shutil.copytree("/verif/harness", w + "/harness", ignore=shutil.ignore_patterns("target")); shutil.copy("/verif/known-findings.txt", w)
    c = open(w + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % w).replace("opt-level = 2", "opt-level = 1").replace("incremental = false", "incremental = true").replace("debug = \"line-tables-only\"", "debug = 0"); open(w + "/harness/Cargo.toml", "w").write(c)
    x = open(w + "/harness/src/ctx.rs").read()
    x = x.replace("if self.stop.load(Relaxed) { break 'outer; }", "if self.stop.load(Relaxed) { break 'outer; }\nif n > 300 && (i.wrapping_mul(0x9E3779B97F4A7C15) >> 40) %% %d != 0 { continue; }" % stride, 1).replace("available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)", "available_parallelism().map(|_| 1usize).unwrap_or(1)", 1)
    open(w + "/harness/src/ctx.rs", "w").write(x)
    env = dict(ENV, CARGO_TARGET_DIR=w + "/target", MC_ROOT=w, CARGO_BUILD_JOBS="2")
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = w + "/repo/src/" + f
        src = open(p).read()
        lines = src.split("\n"); lines[n] = new
        open(p, "w").write("\n".join(lines))
        res = None
        rc, o = run(["cargo", "test", "--offline", "-q"], w + "/repo", env, 120)
        if rc != 0: res = "nobuild" if "could not compile" in o else "tests"
        else:
            rc, o = run(["cargo", "build", "--release", "--offline", "-q"], w + "/harness", env, 600)
            if rc != 0: res = "nobuild-harness"
            else:
                odd = []
                for c in ORDER:
                    rc, o = run([w + "/target/release/mc", c, "quick"], w, env, 400)
                    if rc == 1: res = "killed " + c; break
                    if rc != 0: odd.append("%s:%d" % (c, rc))
                res = res or ("SURVIVED " + " ".join(odd))
        open(p, "w").write(src)
        with lock:
            out.write(json.dumps([f, n + 1, res, old.strip(), new.strip()]) + "\n"); out.flush()
def main():
    a = argparse.ArgumentParser(); a.add_argument("-j", type=int, default=6); a.add_argument("-f", nargs="*"); a.add_argument("-s", type=int, default=16); a.add_argument("-o", default="/tmp/mutants.jsonl"); a.add_argument("-n", action="store_true")
    a = a.parse_args()
    fs = a.f or ["attrib.rs", "document.rs", "element.rs", "elementstore.rs", "metadata.rs", "parser.rs", "query.rs", "select.rs", "serialiser.rs", "store.rs", "text.rs", "types.rs"]
    done = set()
    if os.path.exists(a.o):
        for l in open(a.o): d = json.loads(l); done.add((d[0], d[3], d[4]))
    q = queue.Queue(); k = 0
    for f in fs:
        m = mutants("/repo/src/" + f)
        print(f, len(m)); k += len(m)
        for n, old, new in m:
            if (f, old.strip(), new.strip()) not in done: q.put((f, n, old, new))
    print("total", k, "to do", q.qsize())
    if a.n: return
    out = open(a.o, "a"); lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(i, q, out, a.s, lock)) for i in range(a.j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(ROOT, ignore_errors=True)
main()
