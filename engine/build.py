"""Compile the probe crate against /repo with the extracting driver and return
the path of the dumped program.  Everything is rebuilt from the current tree;
a dump is reused only when every input file is byte-identical."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_HOME"] = "/root/.cargo"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    return e


def run(cmd, cwd, extra, what):
    e = env()
    e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:32]


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"], "/", {}, "rustc").strip()


def ensure_driver():
    src = files(os.path.join(VERIF, "driver", "src"), os.path.join(VERIF, "driver", "Cargo.toml"))
    key = digest(src)
    stamp = os.path.join(OUT, "driver.key")
    exe = os.path.join(OUT, "driver", "release", "mirdump")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    run(["cargo", "+nightly", "build", "--offline", "--release"], os.path.join(VERIF, "driver"),
        {"CARGO_TARGET_DIR": os.path.join(OUT, "driver")}, "building the driver")
    with open(stamp, "w") as f:
        f.write(key)
    return exe


def ensure_dump():
    os.makedirs(os.path.join(OUT, "dumps"), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = ensure_driver()
        inputs = files(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "probe", "src"),
                       os.path.join(VERIF, "probe", "Cargo.toml"), os.path.join(VERIF, "driver", "src"),
                       os.path.join(VERIF, "engine", "rules.txt"))
        key = digest(inputs)
        dump = os.path.join(OUT, "dumps", key + ".json")
        if os.path.exists(dump):
            return dump
        old = sorted(glob.glob(os.path.join(OUT, "dumps", "*.json")), key=os.path.getmtime)
        for p in old[:-6]:
            os.remove(p)
        target = os.path.join(OUT, "probe")
        # the wrapper must see both crates again, whatever cargo thinks of timestamps
        for pat in ("probe-*", "kicad_parse_gen-*", "kicad-parse-gen-*"):
            for d in glob.glob(os.path.join(target, "debug", ".fingerprint", pat)):
                shutil.rmtree(d)
        tmp = dump + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        run(["cargo", "+nightly", "check", "--offline"], os.path.join(VERIF, "probe"),
            {"MIRDUMP_OUT": tmp, "MIRDUMP_RULES": os.path.join(VERIF, "engine", "rules.txt"), "RUSTC_WORKSPACE_WRAPPER": exe,
             "RUSTFLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir --cap-lints=allow", "LD_LIBRARY_PATH": sysroot() + "/lib",
             "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0"}, "compiling /repo")
        if not os.path.exists(tmp):
            raise BuildError("the driver wrote no program")
        os.rename(tmp, dump)
        return dump


if __name__ == "__main__":
    try:
        print(ensure_dump())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
