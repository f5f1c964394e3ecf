#!/usr/bin/env python3
"""Driver: builds the engine, the IR of the code under test and the harnesses, runs a check.

  vf.py setup                     build everything
  vf.py check ID [--tier T]       decide one property; exit 0 / 1 (VIOLATION) / 2 (no answer)
  vf.py replay FILE               run a recorded counterexample against the real code
  vf.py run ENTRY [engine opts]   debugging aid: run one harness and print what the engine says
"""
import threading
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "1.82.0-x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(VERIF, "lib"))
VIOL = ("panic", "assert", "abort", "limit", "deadlock")


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


def tree_hash(paths, exts=None):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x != ".git")
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if exts and not f.endswith(exts):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def stamp(name, value=None):
    p = os.path.join(BUILD, name + ".stamp")
    if value is None:
        try:
            return open(p).read()
        except OSError:
            return None
    if value == "":
        try:
            os.remove(p)
        except OSError:
            pass
        return
    with open(p, "w") as f:
        f.write(value)


def build_engine():
    h = tree_hash([os.path.join(VERIF, "engine")])
    exe = os.path.join(BUILD, "engine", "vfeng")
    if stamp("engine") == h and os.path.exists(exe):
        return
    log("building the engine")
    r = subprocess.run(["make", "-j8", "-C", os.path.join(VERIF, "engine"), "O=" + os.path.join(BUILD, "engine")], capture_output=True, text=True)
    if r.returncode:
        die("engine does not build:\n" + r.stdout[-2000:] + r.stderr[-3000:])
    stamp("engine", h)


def rustup(tool_dir, *rest):
    home = os.environ.get("RUSTUP_HOME", "/root/.rustup")
    return os.path.join(home, "toolchains", tool_dir, *rest)


def build_std():
    """IR of the standard library the code is compiled against, from the bitcode in its rlibs"""
    if stamp("std") == TOOLCHAIN:
        return
    log("extracting the IR of the standard library")
    tools = rustup("stable-x86_64-unknown-linux-gnu", "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    lib = rustup(TOOLCHAIN, "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    out = os.path.join(BUILD, "std")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    want = ["core", "alloc", "std", "std_detect", "hashbrown", "memchr", "compiler_builtins", "panic_abort", "rustc_demangle", "cfg_if", "libc", "unwind"]
    with tempfile.TemporaryDirectory() as tmp:
        for w in want:
            for rlib in glob.glob(os.path.join(lib, "lib%s-*.rlib" % w)):
                d = os.path.join(tmp, w)
                os.makedirs(d, exist_ok=True)
                subprocess.run(["ar", "x", rlib], cwd=d, check=True)
                for o in glob.glob(os.path.join(d, "*.o")):
                    bc = o + ".bc"
                    r = subprocess.run([os.path.join(tools, "llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, os.devnull if False else o + ".tmp"], capture_output=True)
                    if r.returncode or not os.path.exists(bc) or os.path.getsize(bc) == 0:
                        continue
                    ll = os.path.join(out, w + "-" + os.path.basename(o) + ".ll")
                    subprocess.run([os.path.join(tools, "llvm-dis"), bc, "-o", ll], capture_output=True)
    if not glob.glob(os.path.join(out, "*.ll")):
        die("no standard library IR")
    stamp("std", TOOLCHAIN)


def source_hash():
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "csvp", "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "csvp", "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "harness", "build.rs"), os.path.join(VERIF, "harness", "Cargo.toml")])


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTFLAGS="--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp --cfg csvpp_verif", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    for k in ("CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    return e


def build_code():
    h = source_hash()
    if stamp("code") == h and os.path.exists(os.path.join(BUILD, "target/debug/vfh")):
        return 0.0
    t0 = time.time()
    log("compiling the code under test to IR")
    stamp("code", "")
    dbg = os.path.join(BUILD, "target", "debug")
    for pat in (".fingerprint/csvpp-*", ".fingerprint/csvp-*", ".fingerprint/vfh-*", "deps/csvpp-*", "deps/csvp-*", "deps/vfh-*", "deps/libcsvpp-*", "deps/libcsvp-*"):
        for p in glob.glob(os.path.join(dbg, pat)):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    hd = os.path.join(VERIF, "harness")
    lock = os.path.join(hd, "Cargo.lock")
    keep = open(lock, "rb").read() if os.path.exists(lock) else None
    r = subprocess.run(["cargo", "build", "--offline"], cwd=hd, env=cargo_env(), capture_output=True, text=True)
    if keep is not None and open(lock, "rb").read() != keep and not os.environ.get("VF_LOCK"):
        with open(lock, "wb") as f:
            f.write(keep)
    if r.returncode:
        die("the code under test does not build with the harness:\n" + r.stderr[-6000:])
    stamp("code", h)
    return time.time() - t0


def ir_list():
    fs = [f for f in sorted(glob.glob(os.path.join(BUILD, "target/debug/deps/*.ll"))) if "build_script" not in os.path.basename(f)]
    fs += sorted(glob.glob(os.path.join(BUILD, "std/*.ll")))
    p = os.path.join(BUILD, "ir.list")
    with open(p, "w") as f:
        f.write("\n".join(fs) + "\n")
    return p


def build():
    os.makedirs(BUILD, exist_ok=True)
    build_engine()
    build_std()
    return build_code()


def run_engine(entry, opts, tmp, timeout):
    out = os.path.join(tmp, "out.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(BUILD, "engine", "vfeng"), "--list", ir_list(), "--entry", "vf_main_" + entry, "--out", out, "--procs", str(os.cpu_count() or 4), "--time", str(timeout)] + opts
    t0 = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout + 120)
    res = {"steps": 0, "forks": 0, "symbranches": 0, "ends": {}, "z3": {}, "violations": {}, "asserts": {}, "problems": {}, "witnesses": set(), "recs": [], "funcs": set(), "assertq": 0, "wall": time.time() - t0, "stderr": r.stderr[-3000:]}
    if not os.path.exists(out):
        res["problems"]["engine died: rc=%s %s" % (r.returncode, r.stderr[-500:])] = 1
        return res
    for l in open(out):
        d = json.loads(l)
        if "died" in d:
            res["problems"]["engine worker died"] = res["problems"].get("engine worker died", 0) + 1
            continue
        for k in ("steps", "forks", "symbranches", "assertq"):
            res[k] += d[k]
        for k in ("ends", "z3", "violations", "asserts", "problems"):
            for a, b in d[k].items():
                res[k][a] = res[k].get(a, 0) + b
        res["witnesses"] |= set(d["witnesses"])
        res["funcs"] |= set(d["funcs"])
        res["recs"] += d["recs"]
    return res


def model_text(rec):
    o = []
    for m in rec["model"]:
        if "c" in m:
            o.append("C\t%s\t%d" % (m["n"], m["c"]))
        else:
            o.append("B\t%s\t%s" % (m["n"], "".join("%02x" % b for b in m["b"])))
    return "\n".join(o) + "\n"


def native(entry, model, timeout=20, env=None, kind=""):
    """run the harness natively with this model: (status, trace lines, stderr)"""
    d = tempfile.mkdtemp(prefix="vfrep")
    try:
        os.makedirs(os.path.join(d, "w"))
        mf = os.path.join(d, "model")
        with open(mf, "w") as f:
            f.write(model)
        e = {"PATH": "/usr/bin:/bin", "HOME": d, "VF_TRACE": os.path.join(d, "trace"), "TZ": "UTC"}
        if entry.startswith("c19") or entry == "c20_faults":
            e["LD_PRELOAD"] = shim("fault")
        e.update(env or {})
        try:
            cmd = [os.path.join(BUILD, "target/debug/vfh"), "vf_main_" + entry, mf]
            if kind == "limit":
                # texts are shorter here than the ones that users have, so is the stack
                cmd = ["/bin/sh", "-c", 'ulimit -s 1024; exec "$@"', "sh"] + cmd
            r = subprocess.run(cmd, cwd=os.path.join(d, "w"), env=e, capture_output=True, timeout=timeout)
            st, err = r.returncode, r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            st, err = "timeout", ""
        tr = []
        if os.path.exists(e["VF_TRACE"]):
            tr = open(e["VF_TRACE"]).read().splitlines()
        return st, tr, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shim(name):
    src, so = os.path.join(VERIF, "lib/shim/%s.c" % name), os.path.join(BUILD, name + ".so")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        t = "%s.%d.tmp" % (so, threading.get_ident())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", t, src, "-ldl", "-pthread"], check=True)
        os.replace(t, so)
    return so


def perturbed(entry, model, rec, tries):
    """replay under many native schedules (and hash seeds) until one confirms the counterexample"""
    so = shim("delay")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for base in range(0, tries, 8):
            for x in ex.map(lambda n: native(entry, model, env={"LD_PRELOAD": so, "VF_DELAY_SEED": str(n + 1)}), range(base, base + 8)):
                if confirms(rec, x[0], x[1]):
                    return x
    return None


def confirms(rec, st, tr):
    k = rec["kind"]
    if k == "assert":
        return st == 42 and any(t == "ASSERT\t" + rec["msg"] for t in tr)
    if k in ("panic", "abort"):
        return st in (101, -6, -4, -11)
    if k in ("limit", "deadlock"):
        return st in ("timeout", -11, -6, -9)
    return False


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    except OSError:
        return []


def is_known(known, pid, rec):
    for k in known:
        if k["property"] == pid and k["id"] and k["id"] == rec["msg"].split(" ")[0] and rec["kind"] == "assert":
            return k
    return None


def show_model(rec):
    o = []
    for m in rec["model"]:
        o.append("%s=%s" % (m["n"], m["c"] if "c" in m else json.dumps(bytes(m["b"]).decode("latin1"))))
    return " ".join(o)


def check(pid, tier):
    from checks import CHECKS
    t0 = time.time()
    spec = CHECKS[pid]
    bt = build()
    known = load_known()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="vf")
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    tot = {"paths": 0, "steps": 0, "branches": 0, "queries": 0, "solver_s": 0.0, "domain": 0, "assert_q": 0, "validated": 0}
    runs, samples, violations, knowns, problems, unconfirmed, mismatches, missing = [], [], [], {}, {}, [], [], []
    funcs = set()
    for j in spec["jobs"]:
        if j.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        entry = j["entry"]
        opts = list(j.get("opts", []))
        res = run_engine(entry, opts, tmp, j.get("time", 600 if tier == "thorough" else 200))
        paths = sum(res["ends"].values()) - res["ends"].get("assume", 0)
        tot["paths"] += paths
        tot["steps"] += res["steps"]
        tot["branches"] += res["symbranches"]
        tot["queries"] += res["z3"].get("queries", 0)
        tot["solver_s"] += res["z3"].get("secs", 0)
        tot["domain"] += res["z3"].get("domain", 0)
        tot["assert_q"] += sum(res["asserts"].values())
        funcs |= res["funcs"]
        for k, v in res["problems"].items():
            problems[entry + ": " + k] = v
        todo = {}
        for r in res["recs"]:
            if r["kind"] in VIOL:
                todo.setdefault((r["kind"], r["msg"]), []).append(r)
        viol_here = 0
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            oks = [r for r in res["recs"] if r["kind"] == "ok"][:int(os.environ.get("VF_SAMPLES", "48"))]
            futs = [(r, ex.submit(native, entry, model_text(r))) for r in oks]
            for key, rs in sorted(todo.items()):
                conf = None
                for r in rs[:4]:
                    st, tr, err = native(entry, model_text(r), kind=r["kind"])
                    if confirms(r, st, tr):
                        conf = (r, st, tr, err)
                        break
                for r in rs[:2] if conf is None else []:
                    x = perturbed(entry, model_text(r), r, j.get("retries", 16))
                    if x:
                        conf = (r,) + x
                        break
                if conf is None:
                    unconfirmed.append("%s: %s %s [%s]" % (entry, key[0], key[1], show_model(rs[0])))
                    continue
                r, st, tr, err = conf
                tot["validated"] += 1
                k = is_known(known, pid, r)
                if k:
                    knowns.setdefault(k["id"], (k, r))
                    continue
                viol_here += 1
                violations.append((entry, r, st, err))
            for r, f in futs:
                st, tr, err = f.result()
                want = ["NOTE\t%s\t%s" % (a, "".join("%02x" % ord(c) for c in b)) for a, b in r["notes"]]
                if st == 42 and tr and tr[-1].startswith("ASSERT\t"):
                    # the real code fails where its encoding does not: it depends on something else
                    # than the input (a schedule, a hash seed)
                    r = dict(r, kind="assert", msg=tr[-1].split("\t", 1)[1])
                    if is_known(known, pid, r):
                        continue
                    viol_here += 1
                    violations.append((entry, r, st, err))
                elif st != 0 or tr != want:
                    mismatches.append("%s: native %s disagrees: [%s] engine %s native %s" % (entry, st, show_model(r), want, tr))
                else:
                    tot["validated"] += 1
                    if len(samples) < 12:
                        samples.append("%s: %s -> %s" % (entry, show_model(r)[:300], "; ".join("%s=%r" % (a, b) for a, b in r["notes"])[:300]))
        need = set(j.get("witnesses", []))
        if not viol_here and need - res["witnesses"]:
            missing.append("%s: never reached %s" % (entry, sorted(need - res["witnesses"])))
        runs.append({"entry": entry, "bounds": j["bounds"], "paths": paths, "steps": res["steps"], "symbolic_branches": res["symbranches"], "queries": res["z3"].get("queries", 0),
                     "solver_s": round(res["z3"].get("secs", 0), 3), "assertions_decided": sum(res["asserts"].values()), "wall_s": round(res["wall"], 1), "witnesses": sorted(res["witnesses"]), "ends": {k: v for k, v in res["ends"].items() if v}})
        log("%s: %d paths, %d steps, %d solver queries, %.1fs" % (entry, paths, res["steps"], res["z3"].get("queries", 0), res["wall"]))
    shutil.rmtree(tmp, ignore_errors=True)
    rp = []
    rdir = os.path.join(ev, "replay")
    for n, (entry, r, st, err) in enumerate(violations[:10]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump({"property": pid, "entry": entry, "kind": r["kind"], "what": r["msg"], "input": show_model(r), "notes": r.get("notes"), "stack": r.get("stack"), "schedule": r.get("sched"), "native_status": st, "model": r["model"], "native_stderr": err[-1500:]}, f, indent=1)
        rp.append(p)
    mine = sorted(f for f in funcs if "csvp" in f)
    cov = {"states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": tot["validated"], "samples": samples or ["(no completed path was sampled)"],
           "unit": "states = completed symbolic paths, transitions = IR instructions executed symbolically; traces validated = solver models of completed or violating paths whose native run of the real code gave the same outcome and outputs",
           "functions_encoded": len(funcs), "functions_encoded_in_csvpp_and_csvp": len(mine), "encoded_here": [f[:120] for f in mine[:400]],
           "symbolic_branches": tot["branches"], "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 3), "byte_domain_decisions": tot["domain"], "assertions_decided": tot["assert_q"], "runs": runs,
           "outside_the_bounds": spec.get("outside", ""), "undecided": problems, "build_s": round(bt, 1)}
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1),
                "assumptions": spec.get("assumptions", []) + BASE_ASSUMPTIONS, "violations": [{"what": r["msg"], "kind": r["kind"], "replay": p} for (e, r, s, x), p in zip(violations, rp)],
                "known_findings": [k for k in knowns]}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k, (kf, r) in sorted(knowns.items()):
        log("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kf["what"]))
    if problems:
        for k, v in list(problems.items())[:8]:
            log("undecided: %s (%d paths)" % (k, v))
    if violations:
        for (entry, r, st, err), p in zip(violations, rp):
            log("%s: %s: %s  input: %s" % (entry, r["kind"], r["msg"], show_model(r)[:400]))
            log("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if mismatches or unconfirmed:
        for m in (mismatches + unconfirmed)[:8]:
            log("ENCODING DISAGREES WITH THE REAL CODE:", m[:1500])
        return 2
    if missing:
        for m in missing:
            log("VACUOUS:", m)
        return 2
    log("%s holds: %d paths, %d queries, %.1f s" % (pid, tot["paths"], tot["queries"], time.time() - t0))
    return 0


BASE_ASSUMPTIONS = [
    "the IR is the one rustc 1.82 emits at opt-level 1 with overflow checks, the profile the tests run in",
    "allocation never fails and addresses are those of the engine's allocator",
    "hash tables are executed with a constant hash unless a harness says otherwise: iteration order is insertion-like",
]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build()
        ir_list()
        log("ready")
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "replay":
        build()
        r = json.load(open(a[1]))
        st, tr, err = native(r["entry"], model_text(r), kind=r["kind"])
        print("status", st)
        print("\n".join(tr))
        print(err[-3000:])
        return 0
    if a[0] == "run":
        build()
        tmp = tempfile.mkdtemp(prefix="vf")
        res = run_engine(a[1], [x for x in a[2:] if x != "-n"], tmp, 600)
        shutil.rmtree(tmp)
        seen = {}
        for r in res["recs"]:
            k = (r["kind"], r.get("msg", ""))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > (3 if r["kind"] == "ok" else 2):
                continue
            print(r["kind"], r.get("msg", ""), "|", show_model(r)[:600], "|", str(r["notes"])[:1200])
            if r["kind"] in VIOL and seen[k] == 1:
                print("   at", r.get("stack", "")[:3000])
                st, tr, err = native(a[1], model_text(r), kind=r["kind"])
                print("   native:", st, [t for t in tr if not t.startswith("NOTE")][:3], err[-300:].replace("\n", " / "))
            if r["kind"] == "ok":
                st, tr, err = native(a[1], model_text(r), kind=r["kind"])
                want = ["NOTE\t%s\t%s" % (x, "".join("%02x" % ord(c) for c in y)) for x, y in r["notes"]]
                if st != 0 or want != tr:
                    print("   NATIVE DISAGREES", st, tr[:5], err[-300:])
        for k in ("steps", "forks", "symbranches", "ends", "z3", "problems", "violations", "witnesses", "wall"):
            print(k, res[k])
        print(res["stderr"][-1500:])
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
