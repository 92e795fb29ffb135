"""Make a planted change: python3 mkseed.py SPEC.py

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO (a
Rust main).  The change is made in a scratch copy of /repo, built, tested and
demonstrated there; only then the folder under /verif/seeded is written."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

DEMO_SH = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH CARGO_HOME=/root/.cargo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=allow
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
kicad_parse_gen = { path = "$repo" }
symbolic_expressions = "5.0"
[workspace]
EOF
cd "$tmp" || exit 3
cargo run -q --offline
'''


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(g.get("DEMO_SH", DEMO_SH))
        with open(os.path.join(d, "demo.rs"), "w") as f:
            f.write(g["DEMO"].lstrip())
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if rc != 0:
            print("demo fails on the unchanged tree:", out[-2500:])
            return 1
        for fn, old, new in g["EDITS"]:
            p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print("edit matches %d times: %s" % (s.count(old), old))
                return 1
            open(p, "w").write(s.replace(old, new))
        # only lines of the original repository
        rc, patch = sh(["git", "diff"], repo)
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
        for fn, old, new in g["EDITS"]:
            orig = subprocess.run(["git", "-C", "/repo", "show", "%s:%s" % (base, fn)], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            for l in patch.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] not in orig and l[1:].strip():
                    print("removes a line that is not original:", l)
                    return 1
        env = {"HOME": "/root", "CARGO_HOME": "/root/.cargo", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
               "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(tmp, "target"), "RUSTC_WRAPPER": ""}
        rc, out = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], repo, env)
        if rc != 0:
            print("tests fail with the change:", out[-2500:])
            return 1
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], repo)
        if rc == 0:
            print("demo passes with the change:", out[-1500:])
            return 1
        if "could not compile" in out:
            print("demo does not compile with the change:", out[-1500:])
            return 1
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(patch)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, f, indent=1)
            f.write("\n")
        dst = os.path.join("/verif/seeded", g["ID"])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print("kept", g["ID"], "demo said:", out.strip()[-200:])
        return 0
    finally:
        shutil.rmtree(tmp)


sys.exit(main(sys.argv[1]))
