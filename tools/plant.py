#!/usr/bin/env python3
"""plant.py BUGS.py [ID..]: confirm planted changes in a scratch copy of /repo and
write them to /verif/seeded/<id>/. Not used by any check.

BUGS.py defines BUGS: id -> dict(property, file, edits=[(old, new)], needs, breaks, demo=<main.rs>)."""
import json, os, re, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
BUGS = {}
exec(open(sys.argv[1]).read())
SCRATCH = "/tmp/vp-plant"
REPO = SCRATCH + "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", TERM="dumb")
DEMO = r'''#!/bin/bash
# exit 0: behaves as it should. cwd: the repository.
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
static-xml = { path = "$repo/static-xml" }
static-xml-derive = { path = "$repo/static-xml-derive" }
xml-rs = "0.8.3"
[profile.dev]
debug = 0
[workspace]
E
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 4
timeout 60 "$d/target/debug/demo"
'''

REJECT = r'''#!/bin/bash
# exit 0: behaves as it should. cwd: the repository. good.rs compiles; each bad_*.rs is refused by the macros
# with an error (not a panic) that mentions what its first line says.
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
static-xml = { path = "$repo/static-xml" }
static-xml-derive = { path = "$repo/static-xml-derive" }
[workspace]
E
export CARGO_TARGET_DIR="$d/target"
cp "$here/good.rs" "$d/src/main.rs"
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" || exit 4
for f in "$here"/bad_*.rs; do
  cp "$f" "$d/src/main.rs"
  if cargo build --offline --quiet --manifest-path "$d/Cargo.toml" 2> "$d/err"; then echo "accepted: $f"; exit 1; fi
  if grep -q "panicked" "$d/err"; then echo "panicked: $f"; exit 1; fi
  want=$(head -1 "$f" | cut -c4-)
  grep -qF -- "$want" "$d/err" || { echo "not refused by the macro: $f"; cat "$d/err"; exit 1; }
done
'''

def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main():
    ids = sys.argv[2:] or list(BUGS)
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.exists(REPO):
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        b = BUGS[i]
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=REPO)
        subprocess.check_call(["git", "pull", "-q", "--ff-only", "/repo", "HEAD"], cwd=REPO, stderr=subprocess.DEVNULL)
        d = f"/verif/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        if "reject" in b:
            open(d + "/good.rs", "w").write(b["good"])
            for k, (want, src) in enumerate(b["reject"]):
                open(f"{d}/bad_{k}.rs", "w").write(f"// {want}\n{src}")
            open(d + "/demo.sh", "w").write(REJECT)
        else:
            open(d + "/main.rs", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        ok = True
        rc, out = sh(["bash", d + "/demo.sh"], REPO)
        if rc != 0:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", rc, out[-1500:]); ok = False
        edits = b["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = f"{REPO}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "edit matches", s.count(old), "times:", old[:60]); ok = False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], REPO)
        open(d + "/patch.diff", "w").write(diff)
        rc, out = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], REPO)
        fails = [l for l in out.splitlines() if re.match(r"test .* FAILED", l) or l.startswith("error")]
        n = len(re.findall(r"^test .* \.\.\. ok", out, re.M))
        if rc != 0:
            print(i, "TESTS", rc, fails[:5]); ok = False
        rc, out = sh(["bash", d + "/demo.sh"], REPO)
        if rc in (0, 4, 3):
            print(i, "DEMO WITH PATCH", rc, out[-800:]); ok = False
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(i, "OK" if ok else "REJECTED", f"({n} tests ok, demo rc {rc})")
        if not ok:
            shutil.move(d, f"/tmp/w/rejected-{i}") if not os.path.exists(f"/tmp/w/rejected-{i}") else shutil.rmtree(d)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=REPO)

main()
