#!/usr/bin/env python3
"""Runs the check of one property: check.py PROP [--tier quick|thorough]

1. prepares a module file and fizz/proto exactly as the repository's build does, in a directory of its own;
2. builds govc (the verification-condition generator in /verif/govc) and proves every obligation generated
   from /repo's current source for the functions under contract of this property, and of every contract they use;
3. runs the executable contracts (/verif/harness) of the property on the real code, through a go test overlay:
   bounded, never counted as proved; they replay failed obligations and stand in for unproved functions;
4. writes evidence/PROP.json and exits 0 (held) or 1 (VIOLATION line).
"""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, re, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GO123 = "/opt/veriftools/go1.23.12/bin"
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def genv(go123):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e.setdefault("LANG", "C.UTF-8")
    base = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PATH"] = (GO123 + ":" + base) if go123 else base
    for k in ("GOROOT", "GOFLAGS"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
    return e


def run(cmd, env, cwd=None, timeout=600, capture=True):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE if capture else None,
                           stderr=subprocess.STDOUT if capture else None, text=True, errors="replace")
        return p.returncode, p.stdout or ""
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return -9, o.decode(errors="replace") if isinstance(o, bytes) else o


def put(src, dst):
    try:
        if open(src, "rb").read() == open(dst, "rb").read():
            return
    except OSError:
        pass
    shutil.copyfile(src, dst)


def prepare():
    """The steps Bazel's go_proto_library does, as in the repository's build, but under BUILD."""
    w = os.path.join(BUILD, "go")
    os.makedirs(w + "/bin", exist_ok=True)
    os.makedirs(w + "/fizz/proto", exist_ok=True)
    env = genv(True)
    gomod = open(REPO + "/go.mod").read()
    t = tempfile.mkdtemp(prefix="verifprep")
    try:
        open(t + "/m", "w").write(gomod + "\nrequire fizz v0.0.0\nreplace fizz => %s/fizz\n" % w)
        m = re.search(r"google.golang.org/protobuf v[^ \n]+", gomod).group(0)
        open(t + "/fm", "w").write("module fizz\n\ngo 1.22.4\n\nrequire %s\n\n" % m)
        put(t + "/m", w + "/fizzbee.mod")
        put(REPO + "/go.sum", w + "/fizzbee.sum")
        put(t + "/fm", w + "/fizz/go.mod")
        rc, o = run(["go", "build", "-modfile=" + w + "/fizzbee.mod", "-o", w + "/bin/protoc-gen-go",
                     "google.golang.org/protobuf/cmd/protoc-gen-go"], env, REPO)
        if rc:
            raise RuntimeError("protoc-gen-go: " + o)
        os.makedirs(t + "/out")
        rc, o = run(["protoc", "-I", REPO + "/proto", "--plugin=" + w + "/bin/protoc-gen-go", "--go_out=" + t + "/out"] +
                    sorted(glob.glob(REPO + "/proto/*.proto")), env, REPO)
        if rc:
            raise RuntimeError("protoc: " + o)
        for f in glob.glob(t + "/out/fizz/proto/*.go"):
            put(f, w + "/fizz/proto/" + os.path.basename(f))
    finally:
        shutil.rmtree(t)
    os.makedirs(w + "/runfiles", exist_ok=True)
    ln = w + "/runfiles/_main"
    if not (os.path.islink(ln) and os.readlink(ln) == REPO):
        if os.path.islink(ln):
            os.unlink(ln)
        os.symlink(REPO, ln)
    return w


def build_govc():
    out = os.path.join(BUILD, "govc")
    env = genv(False)
    env["GOFLAGS"] = "-mod=mod"
    rc, o = run(["go", "build", "-o", out, "."], env, os.path.join(VERIF, "govc"))
    if rc:
        raise RuntimeError("govc does not build: " + o)
    return out


def prove(govc, w, prop, tier):
    rep = os.path.join(BUILD, "report-%s.json" % prop)
    if os.path.exists(rep):
        os.unlink(rep)
    cmd = [govc, "-repo", REPO, "-modfile", w + "/fizzbee.mod", "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-o", rep]
    if tier == "thorough":
        cmd += ["-timeout", "60", "-deadline", "900"]
    else:
        cmd += ["-timeout", "10", "-deadline", "150"]
    rc, o = run(cmd, genv(False), REPO, timeout=3000 if tier == "thorough" else 420)
    r = None
    if os.path.exists(rep):
        r = json.load(open(rep))
    return rc, o, r, " ".join(cmd)


PKGS = {"lib": "./lib", "modelchecker": "./modelchecker", "main": "."}


def harness(w, prop, tier, seed):
    """Executable contracts on the real code. Returns (stats, failures, notes)."""
    stats = {"evaluations": 0, "distinct": 0, "samples": [], "rules": [], "ran": []}
    fails, notes = [], []
    for pk, path in PKGS.items():
        files = sorted(glob.glob(os.path.join(VERIF, "harness", pk, "*_test.go")))
        mine = [f for f in files if os.path.basename(f) == "util_test.go" or os.path.basename(f).lower().startswith(prop.lower() + "_")
                or os.path.basename(f).startswith("common_")]
        if not any(os.path.basename(f).lower().startswith(prop.lower() + "_") for f in mine):
            continue
        ov = {"Replace": {os.path.join(REPO, path, "zz_verif_" + os.path.basename(f)): f for f in mine}}
        # the repository's own tests are left out: they may not compile against a changed tree
        for f in glob.glob(os.path.join(REPO, path, "*_test.go")):
            ov["Replace"][os.path.normpath(f)] = ""
        ov["Replace"] = {os.path.normpath(k): v for k, v in ov["Replace"].items()}
        ovf = os.path.join(BUILD, "overlay-%s-%s.json" % (prop, pk))
        json.dump(ov, open(ovf, "w"))
        outf = os.path.join(BUILD, "harness-%s-%s.jsonl" % (prop, pk))
        open(outf, "w").close()
        env = genv(True)
        tmp = tempfile.mkdtemp(prefix="verifh")
        env.update(VERIF_OUT=outf, VERIF_TIER=tier, VERIF_SEED=str(seed), RUNFILES_DIR=w + "/runfiles", TMPDIR=tmp, VERIF_REPO=REPO)
        binf = os.path.join(BUILD, "h-%s-%s.test" % (prop, pk))
        try:
            if any("usesCLI" in open(f).read() for f in mine if os.path.basename(f).lower().startswith(prop.lower() + "_")):
                cli = os.path.join(BUILD, "fizzbee-%s" % prop)
                rc, o = run(["go", "build", "-modfile=" + w + "/fizzbee.mod", "-o", cli, "."], env, REPO)
                if rc:
                    notes.append("the checker's binary does not build from this tree, so nothing was decided: " + o[-1500:])
                    continue
                env["VERIF_BIN"] = cli
            if os.path.exists(binf):
                os.unlink(binf)
            rc, o = run(["go", "test", "-modfile=" + w + "/fizzbee.mod", "-vet=off", "-overlay", ovf, "-c", "-o", binf, path], env, REPO)
            if rc or not os.path.exists(binf):
                notes.append("harness for %s does not compile against this tree, so it decided nothing: %s" % (pk, o[-1500:]))
                continue
            lim = 1500 if tier == "thorough" else 330
            rc, o = run(["bash", "-c", "ulimit -v 24000000; exec %s -test.run '^TestVerif_%s' -test.timeout %ds" % (binf, prop, lim)], env,
                        tmp, timeout=lim + 20)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        last, done = None, False
        for line in open(outf, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            k = d.get("k")
            if k == "start":
                last = d
            elif k == "fail":
                fails.append(d)
            elif k == "stats":
                stats["evaluations"] += d.get("n", 0)
                stats["distinct"] += d.get("distinct", 0)
                stats["rules"].append(d.get("rule", ""))
                stats["samples"] += (d.get("samples") or [])[:2]
                stats["ran"].append(d.get("name", ""))
            elif k == "done":
                done = True
        if not done and rc != 0:
            fails.append({"k": "fail", "id": "crash:" + (last or {}).get("id", "?"),
                          "msg": "the code under test crashed, exhausted its stack or did not end: " + crashline(o), "input": (last or {}).get("input"), "output": o[-3000:]})
        elif not done:
            notes.append("harness for %s ended early: %s" % (pk, o[-800:]))
    return stats, fails, notes


def crashline(o):
    for l in o.splitlines():
        if l.startswith(("fatal error", "panic:", "runtime:")):
            return l[:300]
    return o[-300:]


def known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_govc()
        prepare()
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fw = ex.submit(prepare)
        fg = ex.submit(build_govc)
        govc = fg.result()
        try:
            w = fw.result()
        except RuntimeError as e:
            log("preparation failed:", e)
            sys.exit(2)
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(prove, govc, w, prop, tier)
        fh = ex.submit(harness, w, prop, tier, seed)
        prc, pout, rep, pcmd = fp.result()
        stats, fails, hnotes = fh.result()
    log(pout.rstrip()[-12000:])
    for n in hnotes:
        log("note:", n)

    # ---- classify ----
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "finding"]
    used = set()

    def is_known(kind, ident):
        for i, k in enumerate(kf):
            if k.get("kind") == kind and k.get("id") == ident:
                used.add(i)
                return True
        return False

    proof_bad, obls, disch, solver, assume, funcs, backends = [], 0, 0, 0, set(), [], {}
    if rep is None:
        if prc == 2:
            log("load error")
        proof_bad.append({"function": "(all)", "obligation": "load", "detail": pout[-3000:]})
    else:
        for f in rep.get("functions") or []:
            bad = []
            for o in f.get("obligations") or []:
                if o["kind"] == "cover":
                    if o["status"] == "vacuous":
                        bad.append(o)
                    continue
                obls += 1
                if o["status"] == "proved":
                    disch += 1
                else:
                    bad.append(o)
            solver = rep.get("solver_ms", 0)
            for n in f.get("notes") or []:
                assume.add(n)
            funcs.append({"function": f["name"], "where": f.get("pos"), "ok": f["ok"],
                          "obligations": sum(1 for o in f.get("obligations") or [] if o["kind"] != "cover"),
                          "inlined": f.get("inlined") or [], "contracts_used": f.get("contracts_used") or []})
            if not f["ok"]:
                if f.get("error"):
                    if not is_known("obligation", f["name"] + "/" + f["error"]):
                        proof_bad.append({"function": f["name"], "obligation": f["error"], "detail": f["error"]})
                for o in bad:
                    # positions in obligation names are not part of a finding's identity
                    ident = f["name"] + "/" + re.sub(r"@\S*:\d+", "", o["name"])
                    if not is_known("obligation", ident):
                        proof_bad.append({"function": f["name"], "obligation": o["name"], "where": o.get("pos"), "text": o.get("text"),
                                          "status": o["status"], "solver": o.get("solver"), "detail": o.get("detail")})
        for o in rep.get("lemmas") or []:
            obls += 1
            if o["status"] == "proved":
                disch += 1
            else:
                proof_bad.append({"function": "lemma", "obligation": o["name"], "detail": o.get("detail")})
        backends = rep.get("solvers") or {}
        if obls == 0 and not stats["ran"]:
            proof_bad.append({"function": "(all)", "obligation": "no obligations were generated", "detail": ""})
    new_fails = [f for f in fails if not is_known("input", f.get("id"))]
    for i in sorted(used):
        log("KNOWN-FINDING: property=%s %s" % (prop, kf[i]["what"]))
    violations = len(new_fails) + len(proof_bad)
    rpath = os.path.join(BUILD, "replay-%s.json" % prop)
    json.dump({"property": prop, "failing_inputs": new_fails[:20], "failed_obligations": proof_bad[:40], "verifier_output": pout[-20000:],
               "how_to_replay": "python3 /verif/check.py %s" % prop, "harness_notes": hnotes}, open(rpath, "w"), indent=1)

    meta = {}
    for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == prop:
            meta = c
    level = meta.get("level", "proof")
    trusted = ["govc (VC generator in /verif/govc): go/ssa of golang.org/x/tools v0.52.0, its own memory model and SMT encoding",
               "z3 4.8.12, z3 5.x, cvc5 1.1.2 (an 'unsat' answer of any of them is accepted)",
               "Go integers are mathematical integers (no overflow); strings are uninterpreted except length, concatenation and order; goroutines are not modelled"]
    if rep:
        trusted += ["assumed contract: " + t for t in rep.get("trusted") or []]
        trusted += ["axiom: " + a for a in rep.get("axioms") or []]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"obligations": obls, "discharged": disch, "checker_cmd": pcmd, "trusted_base": trusted,
                       "functions_under_contract": funcs, "back_ends": backends, "solver_ms": solver,
                       "bounded_standin": {"label": "bounded: executable contracts run on generated inputs; never counted as proved",
                                           "tests": stats["ran"], "rules": stats["rules"]},
                       "evaluations": stats["evaluations"], "distinct_nontrivial": stats["distinct"], "rule": "; ".join(stats["rules"])[:3000],
                       "samples": stats["samples"][:12], "harness_notes": hnotes},
          "assumptions": sorted(assume), "wall_s": round(time.time() - T0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in new_fails[:10]:
        log("failing input: %s: %s" % (f.get("id"), f.get("msg")))
    for b in proof_bad[:20]:
        log("failed obligation: %s %s" % (b["function"], b["obligation"]))
    log("%s: %d/%d obligations discharged, %d contract evaluations, %.1f s" % (prop, disch, obls, stats["evaluations"], time.time() - T0))
    if new_fails:
        print("VIOLATION property=%s replay=%s" % (prop, rpath), flush=True)
        sys.exit(1)
    if proof_bad:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath), flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
