#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough   decide one property by symbolic execution of the current /repo
   run.py --setup                    build the executor and the dependencies of the rigs
   run.py --replay FILE              rerun a recorded counterexample natively"""
import json, os, re, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rig, checks

V = rig.VERIF
SYMX = os.path.join(V, "symx", "target", "release", "symx")
NCPU = os.cpu_count() or 8


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build_symx():
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "symx"), env=env)
    if r.returncode:
        die("the executor does not build:\n" + r.stdout.decode()[-3000:])


def die(msg, code=3):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)


def entry_fn(spec):
    return spec.split(":")[0]


def nargs(spec):
    return len(spec.split(":")[1].split(",")) if ":" in spec else 0


def build_rig(name, specs):
    c = checks.RIGS[name]
    ents = {}
    src = open(os.path.join(V, "rigs", c["harness"])).read()
    for m in re.finditer(r'extern "C" fn (h_\w+)\(([^)]*)\)', src):
        ents[m.group(1)] = len([x for x in m.group(2).split(",") if x.strip()])
    d = rig.generate(name, os.path.join(V, "rigs", c["harness"]), list(ents.items()), remote=c.get("remote", False), python=c.get("python", False))
    return rig.build(d)


def native(exe, spec, inputs, only="", timeout=60):
    """-> (outcome, log): outcome is finished | check:<label> | assume | panic | hang | other:<rc>"""
    f = os.path.join(V, "work", "replay", "in.%d.%d" % (os.getpid(), native.n))
    native.n += 1
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, "w").write("\n".join(str(x) for x in inputs) + "\n")
    fn, *a = spec.split(":")
    args = a[0].split(",") if a else []
    env = dict(ND_REPLAY=f, ND_ONLY=only, PATH="/usr/bin:/bin")
    log = []
    try:
        r = subprocess.run([exe, fn] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd="/")
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        return "hang", [], (e.stdout or b"").decode(errors="replace")[-500:]
    finally:
        os.unlink(f)
    for l in out.splitlines():
        if l.startswith("L "):
            _, t, v = l.split()
            log.append([int(t), int(v)])
    if rc == 42:
        m = re.search(r"^REPLAYED (.*)$", out, re.M)
        o = "check:" + m.group(1)
    elif rc == 43:
        o = "assume"
    elif rc == 0 and "FINISHED" in out:
        o = "finished"
    elif rc in (-6, -4, -11, 101, 134):
        o = "panic"
    else:
        o = "other:%d" % rc
    return o, log, r.stderr.decode(errors="replace")[-800:]


native.n = 0


def reproduces(v, outcome):
    l = v["label"]
    if l.startswith(("panic:", "abort", "unreachable", "stack-overflow", "memory-fault", "alloc-error", "trap")):
        return outcome in ("panic",) or outcome.startswith("other:-")
    if l.startswith(("deadlock", "does not terminate")):
        return outcome == "hang"
    return outcome == "check:" + l


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get("status") == "open" and k["property"] == prop:
                out.append(k)
    return out


def run_symx(ll, spec, opts, known, tag):
    out = os.path.join(V, "work", "out", tag + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [SYMX, ll, "--out", out, "--threads", str(opts.get("threads", NCPU)), "--time", str(opts["time"]),
           "--samples", str(opts.get("samples", 6)), "--solver-timeout", str(opts.get("solver_timeout", 60000))]
    for k in ("max-steps", "max-paths"):
        if k in opts:
            cmd += ["--" + k, str(opts[k])]
    for k in known:
        cmd += ["--known", k["label"]]
    cmd += ["--only", tag.split(".")[0], "--entry", spec]
    r = sh(cmd, timeout=opts["time"] + 120)
    sys.stdout.write(r.stdout.decode(errors="replace"))
    if not os.path.exists(out):
        die(f"the executor failed on {spec} (exit {r.returncode}): " + r.stdout.decode(errors="replace")[-1500:])
    return json.load(open(out))


def main(prop, tier):
    t0 = time.time()
    c = checks.CHECKS[prop]
    if not os.path.exists(SYMX):
        build_symx()
    # several checks must not build into the same folder at once
    import fcntl
    os.makedirs(rig.WORK, exist_ok=True)
    known = known_findings(prop)
    runs = c[tier] if tier in c else c["quick"]
    rigs = {}
    for r in runs:
        rigs.setdefault(r[0], []).append(r[1])
    built = {}
    with open(os.path.join(rig.WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for name, specs in rigs.items():
            try:
                built[name] = build_rig(name, specs)
            except rig.RigError as e:
                die(str(e))
        t_build = time.time() - t0
        results, samples, validated, errors = [], [], 0, []
        viol = None
        kf = {}
        functions = set()
        for i, r in enumerate(runs):
            name, spec = r[0], r[1]
            opts = dict(time=600 if tier == "quick" else 3000)
            opts.update(r[2] if len(r) > 2 else {})
            ll, exe = built[name]
            j = run_symx(ll, spec, opts, known, f"{prop}.{tier}.{i}")
            res = j["results"][0]
            res["z3"] = j["z3"]
            res["rig"] = name
            results.append(res)
            functions |= set(res["functions"])
            for s in res["samples"]:
                want = [[int(a), int(b)] for a, b in s["log"]]
                o, got, err = native(exe, spec, [x[2] for x in s["inputs"]], prop)
                if o == "finished" and got == want:
                    validated += 1
                else:
                    errors.append(f"{spec}: the native run disagrees with the symbolic one: {o} {got} instead of {want} {err[-300:]}")
            for s in res["samples"][:4]:
                samples.append({"input": f"{spec} " + json.dumps([[x[0], x[2]] for x in s["inputs"]])[:600],
                                "outcome": json.dumps(s["log"])[:300] + " reproduced natively"})
            for v in res["violations"]:
                o, got, err = native(exe, spec, [x[2] for x in v["inputs"]], prop)
                ok = reproduces(v, o)
                if v["known"]:
                    kf[v["label"]] = ok
                    if not ok:
                        errors.append(f"{spec}: known finding {v['label']} does not reproduce natively ({o})")
                    continue
                if not ok:
                    errors.append(f"{spec}: counterexample for '{v['label']}' does not reproduce natively: {o} {err}; inputs {v['inputs']}")
                    continue
                h = hashlib.sha1((prop + spec + v["label"]).encode()).hexdigest()[:10]
                p = os.path.join(V, "work", "replay", f"{prop}-{h}.json")
                json.dump(dict(property=prop, rig=name, entry=spec, label=v["label"], detail=v["detail"], stack=v["stack"],
                               inputs=v["inputs"], native=o), open(p, "w"), indent=1)
                viol = viol or (v, p, spec)
            if res["status"] == "incomplete":
                errors.append(f"{spec}: not decided within the limits: {res['incomplete']}")
            if res["unknown"]:
                errors.append(f"{spec}: the solver gave up on {res['unknown']} queries")
            if viol:
                break
        covers = {}
        for res in results:
            for k, n in res["covers"].items():
                covers[k] = covers.get(k, 0) + n
        if not viol:
            for k in c.get("covers", []):
                if not covers.get(k):
                    errors.append(f"nothing reached '{k}': the harness is vacuous")
    S = lambda k: sum(r[k] for r in results)
    repo_fns = sorted(f for f in functions if re.match(r"<?(rig_\w+|execgraph|sync|server|logfile2|localrunner|graphtheory|time|async_flag|fancy_cancellation_token|httpinterface|http_extensions|remote|pylib|simpleringbuffer|logging|admin_server)::", f) or "rig_" in f)
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        technique=c["technique"],
        bounds=c["bounds"], outside_bounds=c.get("outside", ""),
        coverage=dict(
            states=S("blocks"), transitions=S("steps"), traces_validated_against_impl=validated,
            samples=samples[:24] or [{"input": "none", "outcome": "none"}],
            exhausted=not errors and not viol,
            paths=S("paths"), paths_completed=S("paths_completed"), forks=S("forks"), assertions_checked=S("checks"),
            assertions_by_solver=S("checks_by_solver"), queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"),
            queries_lia=S("lia"), cache_hits=S("cache_hits"), solver_s=round(S("solver_s"), 3),
            slowest_query_s=max([r["slowest_query_s"] for r in results] or [0]), covers=covers,
            entries=[{k: r[k] for k in ("entry", "status", "paths", "steps", "queries", "solver_s", "wall_s")} for r in results],
            functions_encoded=len(functions), functions_of_execgraph=repo_fns[:400], z3=results[0]["z3"] if results else ""),
        build_s=round(t_build, 2), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if any(l.startswith(k["label"]) for l in kf):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        v, p, spec = viol
        print(f"counterexample in {spec}: {v['label']} {v['detail']}")
        print("inputs: " + json.dumps([[x[0], x[2]] for x in v["inputs"]])[:2000])
        for e in errors:
            print("note: " + e)
        print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    if errors:
        die("\n".join(errors))
    print(f"OK property={prop} tier={tier} paths={S('paths')} queries={S('queries')} solver_s={S('solver_s'):.1f} "
          f"validated={validated} wall_s={time.time()-t0:.1f}")


def setup():
    build_symx()
    for n in dict.fromkeys(r[0] for c in checks.CHECKS.values() for r in c["quick"]):
        t = time.time()
        try:
            build_rig(n, [])
        except rig.RigError as e:
            print(f"rig {n}: {e}")  # its checks will say so
        print(f"rig {n}: {time.time() - t:.1f} s", flush=True)


def replay(f):
    j = json.load(open(f))
    _, exe = build_rig(j["rig"], [])
    o, log, err = native(exe, j["entry"], [x[2] for x in j["inputs"]], j["property"])
    print(f"recorded: {j['label']} {j['detail']}\nnative run: {o}\n{err}")
    sys.exit(1 if reproduces(j, o) else 0)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        setup()
    elif sys.argv[1] == "--replay":
        replay(sys.argv[2])
    else:
        main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
