"""Builds a rig: a crate made of the current /repo sources, the stand-in crates and one harness file."""
import hashlib, os, re, shutil, subprocess, sys, glob, json

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(WORK, "target")
TOOLCHAIN = "1.78.0"
MODELS = {
    "axum": 'axum = {{ package = "vaxum", path = "{m}/axum", features = ["json", "headers"] }}',
    "dashmap": 'dashmap = {{ path = "{m}/dashmap" }}',
    "hyper": 'hyper = {{ package = "vhyper", path = "{m}/hyper" }}',
    "lzzzz": 'lzzzz = {{ path = "{m}/lzzzz" }}',
    "notify": 'notify = {{ path = "{m}/notify" }}',
    "sysinfo": 'sysinfo = {{ path = "{m}/sysinfo" }}',
    "pyo3": 'pyo3 = {{ path = "{m}/pyo3" }}',
    "pythonize": "",
    "rand": 'rand = {{ path = "{m}/rand" }}',
    "reqwest": 'reqwest = {{ path = "{m}/reqwest" }}',
    "tokio": 'tokio = {{ package = "vtokio", path = "{m}/tokio" }}',
    "tokio-command-fds": 'tokio-command-fds = {{ path = "{m}/tokio-command-fds" }}',
    "tokio-pipe": 'tokio-pipe = {{ path = "{m}/tokio-pipe" }}',
    "tokio-stream": 'tokio-stream = {{ package = "vtokio-stream", path = "{m}/tokio-stream" }}',
    "coz": "",
}


# the rig with src/pylib.rs in it
PY_MODELS = {
    "pyo3": 'pyo3 = {{ package = "vpyo3", path = "{m}/py/pyo3" }}',
    "pythonize": 'pythonize = {{ path = "{m}/py/pythonize" }}',
    "grep-cli": 'grep-cli = {{ package = "vgrep-cli", path = "{m}/py/grep-cli" }}',
    "tracing-subscriber": 'tracing-subscriber = {{ package = "vtracing-subscriber", path = "{m}/py/tracing-subscriber" }}',
}


class RigError(Exception):
    pass


def deps(remote, python):
    models = dict(MODELS, **PY_MODELS) if python else MODELS
    out, on = [], False
    for line in open(os.path.join(REPO, "Cargo.toml")):
        if line.startswith("["):
            on = line.strip() == "[dependencies]"
            continue
        m = re.match(r"([A-Za-z0-9_-]+)\s*=", line)
        if on and m:
            if m.group(1) in models and (remote or m.group(1) not in ("notify", "sysinfo")):
                out.append(models[m.group(1)].format(m=os.path.join(VERIF, "models")))
            else:
                out.append(line.rstrip())
    m = os.path.join(VERIF, "models")
    out.append(f'nd = {{ path = "{VERIF}/nd" }}')
    out.append(f'vstd = {{ path = "{m}/vstd" }}')
    out.append('tower = "0.4.13"' if not any(x.startswith("tower ") for x in out) else "")
    return "\n".join(x for x in out if x)


def rewrite(text, path):
    """std -> vstd (preemption points), nothing else changes in the code under test"""
    text = re.sub(r"(?<![A-Za-z0-9_:])(::)?std::", "vstd::", text)
    if "bin/execgraph-remote" in path:
        text = re.sub(r"(?<![A-Za-z0-9_:])execgraph::", "crate::", text)
        # the command line comes from the harness
        text = re.sub(r"\b(CommandLineArguments\s*::\s*)(try_)?parse\(\)", r"\1\2parse_from(crate::vh::args())", text)
    # helper threads do not exist in the rigs; tests are not part of them
    return text


def generate(name, harness, entries, remote=False, python=False):
    """entries: [(fn, nargs)]; returns the crate directory"""
    d = os.path.join(WORK, "rigs", name)
    src = os.path.join(d, "src")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=None if python else shutil.ignore_patterns("pylib.rs"))
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                t = open(p).read()
                with open(p, "w") as o:
                    o.write(rewrite(t, p))
    lib = open(os.path.join(src, "lib.rs")).read()
    os.unlink(os.path.join(src, "lib.rs"))
    if not python:
        lib = re.sub(r"(#\[cfg\([^\]]*\)\]\s*)?(pub\s+)?mod\s+pylib\s*;", "", lib)
    main = ["#![allow(warnings)]", lib]
    if remote:
        main.append('#[path = "bin/execgraph-remote.rs"] pub mod remote;')
    sect = re.split(r"^//@(inject \S+|main)[ \t]*$", open(harness).read(), flags=re.M)
    assert not sect[0].strip() or sect[0].lstrip().startswith("//"), sect[0][:80]
    for k, body in zip(sect[1::2], sect[2::2]):
        if k == "main":
            main.append("pub mod vh {\n#![allow(unused_imports)]\nuse crate::*;\n" + body + "\n}")
        else:
            p = os.path.join(src, k.split()[1].removeprefix("src/"))
            if not os.path.exists(p):
                raise RigError(f"{p} does not exist any more")
            with open(p, "a") as o:
                o.write("\npub mod verif_h {\n#![allow(unused_imports, dead_code)]\nuse super::*;\n" + body + "\n}\n")
    main.append("mod verif_entries { extern \"C\" {")
    for f, n in sorted(entries):
        main.append(f"pub fn {f}({', '.join(f'a{i}: u64' for i in range(n))});")
    main.append("} }\nfn main() {\nlet a: Vec<String> = ::std::env::args().collect();")
    main.append("let n = |i: usize| -> u64 { a[i + 2].parse().unwrap() };\nunsafe { match a[1].as_str() {")
    for f, n in sorted(entries):
        main.append(f'"{f}" => verif_entries::{f}({", ".join(f"n({i})" for i in range(n))}),')
    main.append('_ => panic!("no such entry") } }\nprintln!("FINISHED");\n}')
    with open(os.path.join(src, "main.rs"), "w") as o:
        o.write("\n".join(main))
    t = open(os.path.join(VERIF, "rigs", "Cargo.toml.in")).read()
    t = t.replace("@DEPS@", deps(remote, python)).replace('name = "rig"', f'name = "rig_{name}"')
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return d


def content_hash(d):
    """over everything the build of a rig depends on in /repo and /verif"""
    h = hashlib.sha256(TOOLCHAIN.encode())
    for top in (d, os.path.join(VERIF, "models"), os.path.join(VERIF, "nd")):
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "out"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                b = open(p, "rb").read()
                h.update(str(len(b)).encode() + b"\0" + b)
    h.update(open(__file__, "rb").read())
    return h.hexdigest()


def build(d, timeout=600):
    """returns (module.ll, executable); a rig whose every source is unchanged since it was last built is not built again"""
    name = os.path.basename(d)
    h = content_hash(d)
    cache = os.path.join(WORK, "built", name)
    ll, exe, stamp = (os.path.join(cache, x) for x in ("rig.ll", "rig", "hash"))
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(ll) and os.path.exists(exe):
        return ll, exe
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    cmd = ["cargo", "rustc", "--release", "--offline", "--bin", "rig_" + name, "--",
           "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"]
    for p in glob.glob(os.path.join(TARGET, "release", "deps", f"rig_{name}-*")):
        os.unlink(p)
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    log = r.stdout.decode(errors="replace")
    open(os.path.join(out, "build.log"), "w").write(log)
    if r.returncode:
        raise RigError("the rig does not build:\n" + "\n".join(l for l in log.splitlines() if not l.startswith("warning"))[-6000:])
    lls = glob.glob(os.path.join(TARGET, "release", "deps", f"rig_{name}-*.ll"))
    if not lls:
        raise RigError("no module was emitted:\n" + log[-2000:])
    last = max(lls, key=os.path.getmtime)
    os.makedirs(cache, exist_ok=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    shutil.move(last, ll)
    shutil.copy(last[:-3], exe)
    for p in glob.glob(os.path.join(TARGET, "release", "deps", f"rig_{name}-*")):
        os.unlink(p)
    open(stamp, "w").write(h)
    return ll, exe
