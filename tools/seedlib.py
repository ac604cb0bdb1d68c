"""development aid: writes /verif/seeded/<id>/ and confirms the change in a scratch copy of /repo.
Not used by any check."""
import os, subprocess, json, shutil, tempfile, sys, difflib, re
SD = "/verif/seeded"
BASE = "ef42986"
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory; exit 0: the property held
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
webparse = { path = "$repo" }
algorithm = "^0.1.18"
T
cd "$d" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2> "$d/err" || { cat "$d/err"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def seed(id, prop, edits, demo, needs, what, test=True):
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        c = os.path.join(w, "repo")
        sh("cp -a /repo %s" % c)
        for f, old, new in edits:
            p = os.path.join(c, f); s = open(p).read()
            if s.count(old) != 1: print(id, "EDIT", f, s.count(old), repr(old[:60])); return False
            # blame
            ln = s[:s.index(old)].count("\n")
            open(p, "w").write(s.replace(old, new))
        d = sh("git diff", cwd=c).stdout
        # removed lines must be original
        for m in re.finditer(r'^--- a/(\S+)$', d, re.M):
            f = m.group(1)
            bl = sh("git blame -s HEAD -- %s" % f, cwd=c).stdout.split("\n")
            old = open(os.path.join("/repo", f)).read().split("\n"); new = open(os.path.join(c, f)).read().split("\n")
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
                if tag in ("replace", "delete"):
                    for k in range(i1, i2):
                        if not bl[k].lstrip("^").startswith(BASE[:7]): print(id, "NOT ORIGINAL", f, k + 1, old[k])
                if tag == "insert": print(id, "pure insert at", f, i1)
        dd = os.path.join(SD, id); os.makedirs(dd, exist_ok=True)
        open(os.path.join(dd, "patch.diff"), "w").write(d)
        open(os.path.join(dd, "demo.rs"), "w").write(demo)
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(dd, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % dd, cwd="/repo")
        if r.returncode != 0: print(id, "DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-800:]); return False
        r2 = sh("bash %s/demo.sh" % dd, cwd=c)
        if r2.returncode in (0, 3): print(id, "DEMO with patch rc", r2.returncode, r2.stdout[-800:]); return False
        if test:
            t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=c, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
            bad = set(re.findall(r'^test (\S+) \.\.\. FAILED', t.stdout, re.M)) - {"http::request::tests::urltest_001", "http::request::tests::urltest_003", "request::tests::urltest_001", "request::tests::urltest_003"}
            ok = len(re.findall(r'\.\.\. ok', t.stdout))
            if bad or not ok: print(id, "TESTS", bad, t.stderr[-1000:]); return False
        print(id, "ok; demo says:", (r2.stdout + r2.stderr).strip()[-160:])
        return True
    finally: shutil.rmtree(w)
