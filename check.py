#!/usr/bin/env python3
"""check.py Cxx: decide one property of /repo's current working tree.

1. gocv generates verification conditions from the SSA of /repo's source for the
   contracts of the property (and, transitively, the contracts those rely on) and
   has SMT solvers discharge each of them.
2. The property's bounded harness runs the real code against an independent oracle:
   the labelled stand-in for what has no discharged contract, and the source of a
   concrete failing input when an obligation fails.
Exit 0, or exit 1 with a VIOLATION line.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl, threading, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GOENV = dict(os.environ)
GOENV.setdefault("HOME", "/root")
GOENV.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOPATH=GOENV.get("GOPATH", "/root/go"))
GOENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + GOENV.get("PATH", "")


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd, timeout, env=None):
    """run a command in its own process group, kill the group on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode(errors="replace") + "\n(timeout)"


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build_gocv():
    os.makedirs(BUILD, exist_ok=True)
    src = glob.glob(VERIF + "/gocv/*.go") + [VERIF + "/gocv/go.mod", VERIF + "/gocv/go.sum"]
    exe = os.path.join(BUILD, "gocv-" + digest(src))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for old in glob.glob(BUILD + "/gocv-*"):
                os.remove(old)
            rc, out = sh(["go", "build", "-o", exe + ".tmp", "."], VERIF + "/gocv", 600)
            if rc != 0:
                log(out)
                sys.exit("cannot build gocv")
            os.rename(exe + ".tmp", exe)
    return exe


def ensure_gomod():
    """/repo's go.mod is ignored by git and supplied by the environment; supply it if absent"""
    if not os.path.exists(REPO + "/go.mod"):
        for f in ("go.mod", "go.sum"):
            shutil.copy(VERIF + "/harness/gomod/" + f, REPO + "/" + f)


def run_gocv(exe, prop, extra, timeout, secs, tmp, tag):
    out = os.path.join(tmp, "gocv-%s.json" % tag)
    cmd = [exe, "-repo", REPO, "-contracts", VERIF + "/contracts", "-out", out, "-timeout", str(secs), "-j", "8"] + extra
    rc, txt = sh(cmd, VERIF, timeout)
    try:
        return json.load(open(out)), txt, cmd
    except Exception:
        return None, "gocv exit %s\n%s" % (rc, txt[-4000:]), cmd


def build_harness(prop, tmp):
    rep = {}
    for d in ["h"] + (["oracle"] if os.path.isdir(VERIF + "/harness/oracle") else []) + [prop]:
        for f in glob.glob("%s/harness/%s/*.go" % (VERIF, d)):
            rep["%s/zzverif/%s/%s" % (REPO, d, os.path.basename(f))] = f
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    exe = os.path.join(tmp, "harness")
    env = dict(GOENV, GOFLAGS="-mod=readonly")
    rc, out = sh(["go", "build", "-overlay", ov, "-o", exe, "./zzverif/" + prop], REPO, 400, env)
    return (exe if rc == 0 else None), out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, tmp, t0):
    ensure_gomod()
    meta = json.load(open(VERIF + "/props.json"))[prop]
    exe = build_gocv()
    secs = 10 if tier == "quick" else 40
    res = {}

    def proofs():
        res["gocv"] = run_gocv(exe, prop, ["-prop", prop], 330 if tier == "quick" else 1500, secs, tmp, "main")

    def harness():
        if not os.path.isdir("%s/harness/%s" % (VERIF, prop)):
            return
        hexe, out = build_harness(prop, tmp)
        if hexe is None:
            res["hbuild"] = out
            return
        rep = os.path.join(tmp, "harness.json")
        env = dict(GOENV, VERIF_SEED=str(seed), VERIF_TIER=tier, TMPDIR=tmp, GOMEMLIMIT="6GiB")
        rc, out = sh([hexe, rep], tmp, 240 if tier == "quick" else 1500, env)
        try:
            res["h"] = json.load(open(rep))
        except Exception:
            res["hcrash"] = "harness exit %s\n%s" % (rc, out[-6000:])

    ts = [threading.Thread(target=proofs), threading.Thread(target=harness)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    g, gtxt, gcmd = res["gocv"]
    failed, engine_err = [], None
    functions, lemmas, trusted, skipped = [], [], set(), []
    nobl = ndis = 0
    by, solver_s = {}, 0.0
    if g is None:
        engine_err = gtxt
        failed.append({"obligation": "gocv could not analyse the current source", "detail": gtxt[-3000:]})
    else:
        fns = g["Functions"] or []

        def bad(f):
            return bool(f["Err"]) or any(o["Status"] != "discharged" for o in f["Obls"] or [])

        again = [f for f in fns if bad(f)]
        # an obligation that times out on a busy machine is tried again, alone and for longer
        if again and len(again) <= 12 and time.time() - t0 < 400:
            for f in again:
                left = 620 - (time.time() - t0)
                if left < 40:
                    break
                name = f["ID"]
                ex = ["-func", name[6:] if name.startswith("lemma ") else name]
                if not name.startswith("lemma "):
                    ex = ["-prop", "exact", "-func", name]
                r2, _, _ = run_gocv(exe, prop, ex, min(left, 150), secs * 3, tmp, "again")
                for f2 in (r2 or {}).get("Functions") or []:
                    if f2["ID"] == name and f2["Obls"] is not None and not bad(f2):
                        fns[fns.index(f)] = f2
                        break
        for f in fns:
            if f["Skipped"]:
                skipped.append(f["Skipped"])
                continue
            for a in (f["Assumed"] or []):
                trusted.add(a)
            for a in (f["Assume"] or []):
                trusted.add("assume in the contract of %s: %s" % (f["ID"], a))
            if f["Trusted"]:
                trusted.add("contract of %s is trusted: %s" % (f["ID"], f["Trusted"]))
                continue
            (lemmas if f["ID"].startswith("lemma ") else functions).append(f["ID"])
            for o in f["Obls"] or []:
                nobl += 1
                solver_s += o["Secs"]
                if o["Status"] == "discharged":
                    ndis += 1
                    by[o["By"]] = by.get(o["By"], 0) + 1
                else:
                    failed.append({"obligation": "%s: %s: %s" % (f["ID"], o["Kind"], o["Name"]), "pos": o["Pos"],
                                   "status": o["Status"], "verifier_output": o["Out"][-3000:], "smt": o["Script"][-20000:]})
            if f["Err"]:
                nobl += 1
                failed.append({"obligation": "%s: generation of its verification conditions" % f["ID"], "detail": f["Err"]})
        if nobl == 0:
            failed.append({"obligation": "no obligation was generated for %s" % prop, "detail": gtxt[-2000:]})

    hrep = res.get("h")
    hfail = list((hrep or {}).get("Failures") or [])
    if "hbuild" in res:
        failed.append({"obligation": "the code no longer offers the interface the property is stated over", "detail": res["hbuild"][-4000:]})
    if "hcrash" in res:
        hfail.append({"Check": "harness", "Key": "crash", "Input": "see detail", "Detail": res["hcrash"]})

    known = json.load(open(VERIF + "/known-findings.json"))["findings"]
    printed = set()
    rest = []
    for f in hfail:
        k = next((k for k in known if k["property"] == prop and k.get("check") == f["Check"] and k.get("key") == f["Key"] and f["Key"]), None)
        if k is None:
            rest.append(f)
        elif id(k) not in printed:
            printed.add(id(k))
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    hfail = rest
    rest = []
    for f in failed:
        k = next((k for k in known if k["property"] == prop and k.get("obligation") == f["obligation"]), None)
        if k is None:
            rest.append(f)
        elif id(k) not in printed:
            printed.add(id(k))
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    failed = rest

    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": " ".join(gcmd).replace(tmp, "$TMP"),
        "trusted_base": sorted(trusted) + meta_trusted(),
        "functions_under_contract": functions, "lemmas": lemmas,
        "discharged_by_back_end": by, "solver_s": round(solver_s, 2),
        "verify_s": round(g["TotalS"], 2) if g else None,
        "skipped_contracts": skipped,
        "machine_arithmetic": "fixed-width integers are modelled exactly (wrap-around as Go defines it); math/big integers are mathematical integers",
        "unproved_part": meta.get("bounded", ""),
    }
    if hrep:
        cov["bounded_standin"] = {
            "label": "bounded: generated inputs against an independent oracle; never counted as proved",
            "evaluations": hrep["Evaluations"], "distinct": hrep["Distinct"], "per_rule": hrep["Checks"],
            "wall_s": round(hrep["Wall"], 2)}
        cov["evaluations"] = hrep["Evaluations"]
        cov["distinct_nontrivial"] = hrep["Distinct"]
        cov["rule"] = "harness/%s: generated inputs (VERIF_SEED) run on the real code and compared with an independent oracle; distinct by rule and input" % prop
        cov["samples"] = hrep["Samples"] or []
    nviol = 1 if (failed or hfail) else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": sorted(trusted) + meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    log("%s: %d/%d obligations discharged over %d functions and %d lemmas; bounded harness: %d evaluations; %.1f s" %
        (prop, ndis, nobl, len(functions), len(lemmas), (hrep or {}).get("Evaluations", 0), time.time() - t0))
    if not nviol:
        return 0
    os.makedirs(VERIF + "/replay", exist_ok=True)
    path = "%s/replay/%s.json" % (VERIF, prop)
    with open(path, "w") as fh:
        json.dump({"property": prop, "seed": seed, "tier": tier, "failed_obligations": failed, "failing_inputs": hfail,
                   "rerun": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (VERIF, seed, tier, prop)}, fh, indent=1)
        fh.write("\n")
    for f in failed[:12]:
        log("  undischarged: %s %s" % (f["obligation"], f.get("pos", "")))
        if f.get("detail"):
            log("    " + f["detail"][:400].replace("\n", "\n    "))
    for f in hfail[:12]:
        log("  failing input: [%s] %s\n    %s" % (f["Check"], f["Input"][:400], f["Detail"][:600].replace("\n", "\n    ")))
    log("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hfail else " no-failing-input-found"))
    return 1


def meta_trusted():
    return ["gocv (contract language, VC generator over go/ssa, simplifier and case splitter)", "golang.org/x/tools/go/ssa and the Go type checker",
            "z3, cvc5", "slices held in different heap fields of the inputs do not overlap; package-level tables are immutable after init"]


if __name__ == "__main__":
    main()
