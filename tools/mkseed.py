#!/usr/bin/env python3
"""mkseed.py SPEC.py [id ...]: build planted changes from a spec (list SEEDS of dicts id, property, edits, demo, needs,
breaks), confirm each in a scratch copy (applies, compiles, existing tests pass, demo passes without and fails with it,
only original lines changed) and store it in /verif/seeded/<id>/."""
import subprocess, sys, os, json, runpy, shutil
REPO = "/tmp/sr"
ENV = dict(os.environ, CARGO_TARGET_DIR=REPO + "/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO_SH = """#!/bin/bash
# cwd: the repository, built. Links demo.rs against the library just built.
export PATH="/root/.cargo/bin:$PATH"
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -r "$d"' EXIT
rustc --edition 2021 -o "$d/demo" "$here/demo.rs" -L dependency="$PWD/target/debug/deps" \\
  --extern japanese_law_xml_schema="$PWD/target/debug/libjapanese_law_xml_schema.rlib" 2>"$d/log" || { cat "$d/log"; exit 3; }
cd "$d" && timeout 60 ./demo
"""
# the same with serde_json, which the repository does not build
CARGO_SH = """#!/bin/bash
# cwd: the repository. Builds demo.rs with serde_json against it.
export PATH="/root/.cargo/bin:$PATH"
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -r "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nserde_json = "1"\\njapanese_law_xml_schema = { path = "%s" }\\n[workspace]\\n' "$PWD" >"$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo build -q --offline 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 ./target/debug/demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=REPO, env=ENV, **k)
def build():
    sh("rm -rf target/debug/.fingerprint/japanese_law_xml_schema-*")
    return sh("cargo build --workspace --offline")
def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline")
    return r.stdout.count(" ... ok"), r.stdout.count("FAILED"), r
def demo(d): return sh(f"bash {d}/demo.sh", timeout=300)
def main():
    if not os.path.isdir(REPO): subprocess.run(["cp", "-a", "/repo", REPO])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd")
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for s in specs:
        if only and s["id"] not in only: continue
        d = f"/tmp/seeds/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(CARGO_SH if s.get("cargo") else DEMO_SH)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), ensure_ascii=False, indent=1)
        sh("git checkout -q -f .")
        bad = None
        for f, a, b, *nth in s["edits"]:
            p = f"{REPO}/src/{f}"; t = open(p).read()
            if nth:
                parts = t.split(a)
                if len(parts) <= nth[0]: bad = f"only {len(parts) - 1} matches: {a[:60]!r}"; break
                open(p, "w").write(a.join(parts[:nth[0]]) + b + a.join(parts[nth[0]:])); continue
            if t.count(a) != 1: bad = f"edit matches {t.count(a)} times: {a[:60]!r}"; break
            open(p, "w").write(t.replace(a, b))
        if bad: print(s["id"], "BAD", bad); continue
        diff = sh("git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        # original lines changed
        files = {f for f, *_ in s["edits"]}
        orig = new = 0
        for f in files:
            bl = sh(f"git blame -s HEAD -- src/{f}").stdout.splitlines()
            cur = 0
            for l in sh(f"git diff -U0 -- src/{f}").stdout.splitlines():
                if l.startswith("@@"):
                    h = l.split()[1][1:].split(","); st = int(h[0]); n = int(h[1]) if len(h) > 1 else 1
                    for i in range(st, st + n):
                        if bl[i - 1].startswith("^"): orig += 1
                        else: new += 1
        b = build()
        if b.returncode: print(s["id"], "NO BUILD", b.stderr[-1500:]); continue
        okn, failed, r = tests()
        if okn < 10 or failed: print(s["id"], "TESTS FAIL", okn, [l for l in r.stdout.splitlines() if "FAILED" in l]); continue
        w = demo(d)
        sh("git checkout -q -f ."); build()
        c = demo(d)
        good = c.returncode == 0 and w.returncode not in (0, 3) and orig > 0
        print(s["id"], "ok" if good else "BAD", f"orig={orig} own={new} clean={c.returncode} patched={w.returncode}", "" if good else (c.stdout + c.stderr + w.stdout + w.stderr)[-1500:])
        if good:
            t = f"/verif/seeded/{s['id']}"
            shutil.copytree(d, t, dirs_exist_ok=True)
main()
