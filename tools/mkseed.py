"""Helper to write /verif/seeded/<id>/ from an edit of /repo's HEAD."""
import json, os, subprocess, shutil
DEMO = '''#!/bin/bash
# Run with cwd /repo. Builds main.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -r "$s"' EXIT
mkdir "$s/src" && cp "$here/main.rs" "$s/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
static-xml = { path = "$PWD/static-xml" }
static-xml-derive = { path = "$PWD/static-xml-derive" }
T
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
CARGO_TARGET_DIR="$s/t" timeout 250 cargo build -q --offline --manifest-path "$s/Cargo.toml" || exit 98
timeout 20 "$s/t/debug/demo"
'''
def seed(id, prop, edits, needs, breaks, main):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = "/tmp/mkseed"
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    for f, a, b in edits:
        p = f"{t}/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=t, text=True))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
