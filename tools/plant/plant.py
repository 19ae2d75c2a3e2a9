#!/usr/bin/env python3
"""Developer tool: turns the definitions in bugs_*.py into seeded/<id>/ and verifies each one in a
scratch copy of /repo (builds, stable tests pass, demo 0 on the clean tree and nonzero with it).
No registered check uses this file or seeded/."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
COMMON = '''#!/bin/bash
set -eu
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/plant-demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
'''
CRATE = COMMON + '''mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
plotline = { path = "$PWD/plotline" }
%s
[workspace]
EOF
if [ -f Cargo.lock ]; then cp Cargo.lock "$w/Cargo.lock"; fi
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q --manifest-path "$w/Cargo.toml" 2> "$w/build.log" || { cat "$w/build.log"; exit 2; }
mkdir "$w/run"
cd "$w/run"
timeout 100 "$w/target/debug/demo"
'''
BIN = COMMON + '''CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p plotline-cli 2> "$w/build.log" || { cat "$w/build.log"; exit 2; }
plot="$w/target/debug/plotline"
mkdir "$w/run"
cd "$w/run"
. "$here/demo.inc"
'''
IVL = COMMON + '''mkdir "$w/src"
for f in node tree date; do cp "plugins/interval/src/$f.rs" "$w/src/$f.rs"; done
sed '/mod plugin;/d' plugins/interval/src/lib.rs > "$w/src/lib.rs"
rustc --edition 2021 --crate-type lib --crate-name ivl -A warnings --cfg 'feature="date"' --cfg 'feature="fixtures"' "$w/src/lib.rs" --out-dir "$w"
rustc --edition 2021 -A warnings --crate-name demo "$here/demo.rs" -L "$w" --extern "ivl=$w/libivl.rlib" -o "$w/demo"
timeout 100 "$w/demo"
'''
def load():
    bugs = []
    for f in sorted(glob.glob(os.path.join(HERE, "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m); bugs += m.BUGS
    return bugs
def sh(cmd, cwd, t=600, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=e)
    return p.returncode, p.stdout.decode(errors="replace")
def make(b, repo):
    sh("git checkout -q -- .", repo)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f); s = open(p).read()
        n = b.get("count", {}).get(old, 1)
        assert s.count(old) >= 1, (b["id"], f, old)
        if s.count(old) != n: raise SystemExit(f"{b['id']}: {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEEDED, b["id"]); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    kind = b.get("kind", "core")
    tmpl = {"core": CRATE % "", "cli": CRATE % ('plotline-cli = { path = "$PWD/plotline-cli" }\n' + b.get("deps", "")), "bin": BIN, "ivl": IVL}[kind]
    open(d + "/demo.sh", "w").write(tmpl); os.chmod(d + "/demo.sh", 0o755)
    open(d + ("/demo.inc" if kind == "bin" else "/demo.rs"), "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d
def main():
    want = sys.argv[1:]
    bugs = [b for b in load() if not want or b["id"] in want]
    top = tempfile.mkdtemp(prefix="plant.", dir="/tmp"); repo = top + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    sh("git checkout -q -- .", repo)
    ok = True
    for b in bugs:
        try: d = make(b, repo)
        except (AssertionError, SystemExit) as e: print("BAD", b["id"], e, flush=True); ok = False; continue
        r1, o1 = sh("cargo test --offline -q --workspace 2>&1", repo)
        r3, o3 = sh(f"bash {d}/demo.sh", repo, 300)
        sh("git checkout -q -- .", repo)
        r2, o2 = sh(f"bash {d}/demo.sh", repo, 300)
        good = r1 == 0 and r2 == 0 and r3 not in (0, 2)
        ok &= good
        print(("ok  " if good else "BAD ") + b["id"], f"tests={r1} clean={r2} patched={r3}", flush=True)
        if not good or "-v" in os.environ.get("PV", ""):
            if r1: print(o1[-1500:])
            print("clean:", o2[-800:]); print("patched:", o3[-800:])
    shutil.rmtree(top)
    sys.exit(0 if ok else 1)
if __name__ == "__main__": main()
