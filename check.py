#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's working tree
   check.py replay <file>                            run a replay file against /repo's working tree
   check.py setup                                    build the tools

See DESIGN.md.  Exit 0: held; exit 1 + VIOLATION line: broken; exit 2: error of the check."""
import fcntl, hashlib, json, os, re, resource, signal, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from config import PROPS  # noqa: E402

T0 = time.time()
VX_TC = "stable"
REPO_TC = "1.77.2-x86_64-unknown-linux-gnu"


def env(tc, target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=tc, RUSTUP_AUTO_INSTALL="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, target))
    return e


def default_tc():
    try:
        r = subprocess.run(["rustup", "default"], capture_output=True, text=True)
        return r.stdout.split()[0] if r.returncode == 0 and r.stdout.split() else VX_TC
    except OSError:
        return VX_TC


def cargo(dirname, target, tc, args=()):
    r = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=os.path.join(HERE, dirname), env=env(tc, target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    rc, out = cargo("tools/vx", "vx", default_tc())
    if rc:
        print(out)
        print("ERROR: the extractor does not build")
        sys.exit(2)
    return os.path.join(BUILD, "vx/debug/vx")


def build_harness():
    d = os.path.join(HERE, "harness")
    if REPO != "/repo":  # development only: a scratch copy of the repository
        t = os.path.join(BUILD, "harness-src")
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        p = os.path.join(t, "Cargo.toml")
        s = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, "w").write(s)
        rc, out = cargo(t, "harness", REPO_TC)
    else:
        rc, out = cargo("harness", "harness", REPO_TC)
    if rc:
        return None, out
    return os.path.join(BUILD, "harness/debug/vharness"), out


# ---------------------------------------------------------------- the verifier
def run_verus(rs, extra=(), timeout=600):
    t = time.time()
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "8", *extra]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(rs),
                         start_new_session=True, env={**os.environ, "RUSTUP_TOOLCHAIN": default_tc()} if False else None)
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        to = True
    res = {"rc": p.returncode, "timeout": to, "wall": time.time() - t, "cmd": " ".join(cmd), "diags": [], "raw": err[-20000:]}
    try:
        j = json.loads(out)
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified")
        res["nerr"] = vr.get("errors")
        res["vir"] = vr.get("encountered-vir-error", False)
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        fb = {}
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                fb[f["function"]] = (f.get("mode:", f.get("mode")), f["time-micros"], f["success"])
        res["funs"] = fb
    except ValueError:
        res["verified"] = None
    for line in err.splitlines():
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            res["diags"].append(d)
    return res


RLIMIT = ("Resource limit", "rlimit", "timed out")
OBL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
       "possible arithmetic", "decreases not satisfied", "could not prove termination", "possible division", "possible bit shift",
       "loop must have a decreases", "recommendation not met", "unable to prove", "ensures not satisfied", "requires not satisfied",
       "not all errors may have been reported", "cannot show")


class Decls:
    """which function a line of the generated file belongs to"""

    def __init__(self, rs):
        self.lines = open(rs).read().split("\n")
        self.owner = []
        cur = "?"
        extracted = True
        for l in self.lines:
            if l.startswith("// ---- overlay ----") or l.startswith("pub mod "):
                extracted = False
                cur = "overlay"
            m = re.findall(r"/\*VX (\S+) \*/", l)
            if m:
                cur = m[-1]
                extracted = True
            elif not extracted:
                m = re.search(r"\bfn\s+(\w+)", l)
                if m:
                    cur = "overlay lemma " + m.group(1)
            self.owner.append(cur)

    def at(self, line):
        return self.owner[line - 1] if 0 < line <= len(self.owner) else "?"


def classify(diag, dec):
    """(kind, function, clause text, tag)"""
    msg = diag["message"]
    spans = diag.get("spans", [])
    prim = [s for s in spans if s.get("is_primary")] or spans
    fn = dec.at(prim[0]["line_start"]) if prim else "?"
    body = [s for s in spans if re.search(r"at this exit|at the end of the function|at this loop exit|call", s.get("label") or "")]
    clause = ""
    tag = None
    if msg.startswith("postcondition"):
        cl = [s for s in spans if "failed this postcondition" in (s.get("label") or "")] or prim
    elif msg.startswith("precondition"):
        cl = [s for s in spans if "failed precondition" in (s.get("label") or "")]
        # the owner is the caller
        fn = dec.at(prim[0]["line_start"]) if prim else fn
        if cl and prim and prim[0] in cl and len(spans) > 1:
            fn = dec.at([s for s in spans if s not in cl][0]["line_start"])
    else:
        cl = prim
    if cl:
        a, b = cl[0]["line_start"], cl[0]["line_end"]
        clause = " ".join(x.strip() for x in dec.lines[a - 1:b])[:400]
        ts = re.findall(r"//\s*@(\w+)", "\n".join(dec.lines[a - 1:b]))
        tag = ts[0] if ts else None
    kind = "post" if msg.startswith("postcondition") or msg.startswith("invariant") or msg.startswith("loop") else "other"
    if any(r in msg for r in RLIMIT):
        kind = "rlimit"
    return {"kind": kind, "fn": fn, "clause": clause, "tag": tag, "message": msg, "line": prim[0]["line_start"] if prim else 0,
            "rendered": diag.get("rendered", "")}


def is_obligation(d):
    return any(d["message"].startswith(o) or o in d["message"] for o in OBL + RLIMIT)


def verify(vx, spec, work, tier, seed):
    """extract and verify; returns a dict"""
    rs = os.path.join(work, spec + ".rs")
    rep = os.path.join(work, spec + ".json")
    r = subprocess.run([vx, REPO, os.path.join(HERE, "specs", spec + ".vs"), rs, rep], capture_output=True, text=True)
    out = {"spec": spec, "rs": rs, "state": None, "errors": [], "notes": []}
    try:
        out["report"] = json.load(open(rep))
    except (OSError, ValueError):
        out["report"] = {"fatal": r.stderr, "fns": [], "dropped": [], "rewrites": [], "missing": []}
    if r.returncode != 0:
        out["state"] = "undecided"
        out["notes"].append("extraction: " + (r.stderr.strip() or str(r.returncode)))
        return out
    R = out["report"]
    out["structural"] = ["contract without a function: " + m for m in R["missing"]]
    for f in R["fns"]:
        out["structural"] += ["%s: %s" % (f["path"], l) for l in f["lost"]]
        if not f["contract"] and not f["external"] and not f["path"].endswith("::From::from"):  # its contract is FromSpecImpl
            out["structural"].append("%s: no contract" % f["path"])
    budget = 420 if tier == "quick" else 900
    v = run_verus(rs, timeout=budget)
    if v["verified"] is not None and not v["vir"] and (v["nerr"] or v["diags"]) and not v["timeout"]:
        # retry: an obligation counts as refuted only if it fails under every configuration tried
        extras = (("--rlimit", "60", "--smt-option", "smt.random_seed=7"), ("--rlimit", "60", "--smt-option", "smt.random_seed=%d" % (seed + 100)))
        got = [None] * len(extras)

        def again(i):
            got[i] = run_verus(rs, extras[i], timeout=240 if tier == "quick" else 900)

        ts = [threading.Thread(target=again, args=(i,)) for i in range(len(extras))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for v2 in got:
            if v2["verified"] is None or v2["timeout"] or v2["nerr"] is None:
                continue
            if v2["nerr"] < v["nerr"]:
                out["notes"].append("a retry with another solver seed discharged more obligations")
                v = v2
    out["verus"] = v
    if v["timeout"] or v["verified"] is None or v["vir"] or (v["rc"] != 0 and not v["nerr"]):
        out["state"] = "undecided"
        why = [d["message"] for d in v["diags"]][:4]
        out["notes"].append("the verifier did not accept the text: " + ("timeout" if v["timeout"] else "; ".join(why) or v["raw"][-600:]))
        return out
    dec = Decls(rs)
    for d in v["diags"]:
        if is_obligation(d):
            out["errors"].append(classify(d, dec))
        else:
            out["notes"].append(d["message"])
    out["state"] = "ok" if v["nerr"] == 0 and v["rc"] == 0 else "refuted"
    if out["state"] == "refuted" and not out["errors"]:
        out["state"] = "undecided"
    return out


def probe(vx, spec, work, budget):
    """vacuity: `assert(false)` at the start of every contracted function must fail"""
    rs = os.path.join(work, spec + ".probe.rs")
    rep = os.path.join(work, spec + ".probe.json")
    r = subprocess.run([vx, "--probe", REPO, os.path.join(HERE, "specs", spec + ".vs"), rs, rep], capture_output=True, text=True)
    if r.returncode:
        return {"error": r.stderr}
    v = run_verus(rs, ("--multiple-errors", "1"), timeout=budget) if False else run_verus(rs, timeout=budget)
    R = json.load(open(rep))
    want = [f["path"] for f in R["fns"] if f["contract"] and not f["external"]]
    n = len([d for d in v["diags"] if d["message"].startswith("assertion failed")])
    lines = open(rs).read().split("\n")
    hit = set()
    for d in v["diags"]:
        for s in d.get("spans", []):
            m = re.search(r"assert\(false\); // probe (\S+)", lines[s["line_start"] - 1])
            if m:
                hit.add(m.group(1))
    return {"probes": len(want), "refuted": len([w for w in want if w in hit]), "vacuous": [w for w in want if w not in hit]}


# ---------------------------------------------------------------- the bounded stand-in
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, start_new_session=True, cwd=cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def describe(rc, out):
    if rc is None:
        return "does not terminate"
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    l = [x for x in out.splitlines() if x.startswith("FAIL")]
    return l[-1] if l else "exit code %s" % rc


def bad(h, path, scratch):
    rc, out = sh([h, "replay", path], 20, scratch)
    return (rc is None or rc < 0 or rc not in (0, 2)), describe(rc, out)


def shrink_outside(h, text, scratch, budget):
    """delta debugging over the lines of a replay file, each try in a process of its own"""
    head = [l for l in text.split("\n") if not l.startswith("op ")]
    ops = [l for l in text.split("\n") if l.startswith("op ")]
    tmp = os.path.join(scratch, "shrink.txt")
    end = time.time() + budget
    step = max(1, len(ops) // 2)
    while time.time() < end:
        i, ch = 0, False
        while i < len(ops) and time.time() < end:
            c = ops[:i] + ops[i + step:]
            open(tmp, "w").write("\n".join(head + c) + "\n")
            if bad(h, tmp, scratch)[0]:
                ops, ch = c, True
            else:
                i += step
        if step == 1 and not ch:
            break
        step = max(1, step // 2) if not ch or step > 1 else 1
    return "\n".join(head + ops) + "\n"


def harness_run(h, target, seed, secs, work):
    """(ok, info, replay text or None)"""
    scratch = tempfile.mkdtemp(prefix="h-" + target + "-", dir=work)
    fail = os.path.join(scratch, "fail.txt")
    prog = os.path.join(scratch, "prog.txt")
    try:
        rc, out = sh([h, "run", target, str(seed), str(secs), fail, prog], secs + 45, scratch)
        if rc == 0:
            m = re.search(r"OK cases (\d+) ops (\d+) exhaustive (\d+)", out)
            return True, {"cases": int(m.group(1)), "ops": int(m.group(2)), "exhaustive": int(m.group(3))}, None
        if rc == 1 and os.path.exists(fail):
            return False, describe(rc, out), open(fail).read()
        # crash or hang: which case was it?
        try:
            idx = int(open(prog).read() or 0)
        except (OSError, ValueError):
            return None, "harness: " + out[-500:], None
        rc2, text = sh([h, "trace", target, str(seed), str(idx)], 20, scratch)
        if rc2 != 0:
            return None, "harness trace: " + text[-500:], None
        p = os.path.join(scratch, "case.txt")
        open(p, "w").write(text)
        b, why = bad(h, p, scratch)
        if not b:
            return None, "case %d does not fail again (%s)" % (idx, describe(rc, out)), None
        text = shrink_outside(h, text, scratch, 20)
        open(p, "w").write(text)
        b, why = bad(h, p, scratch)
        return False, why, "# %s\n" % why + text
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- known findings
def known():
    """lines `property=<id> target=<target> <text>`; a case that matches a listed finding is not an alarm"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2).strip()))
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build_vx()
        h, out = build_harness()
        if h is None:
            print(out)
            sys.exit(2)
        return
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        h, out = build_harness()
        if h is None:
            print(out)
            sys.exit(2)
        scratch = tempfile.mkdtemp(dir=BUILD)
        b, why = bad(h, os.path.abspath(sys.argv[2]), scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        print("replay: " + ("fails: " + why if b else "passes"))
        sys.exit(1 if b else 0)
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    hres = {}

    def do_harness_build():
        hres["h"], hres["out"] = build_harness()

    with Lock():
        th = threading.Thread(target=do_harness_build)
        th.start()
        vx = build_vx()
    results = []
    probes = {}
    for spec in cfg["specs"]:
        results.append(verify(vx, spec, work, tier, seed))
    for r in results:
        if r["state"] == "ok":
            probes[r["spec"]] = probe(vx, r["spec"], work, 300)
    th.join()
    if hres["h"] is None:
        print(hres["out"])
        print("ERROR: the crate or the replay harness does not build")
        sys.exit(2)
    h = hres["h"]

    # which of the verifier's errors concern this property
    fre = re.compile(cfg.get("fns", "."))
    own, foreign = [], []
    for r in results:
        for e in r["errors"]:
            rel = fre.search(e["fn"]) is not None
            if e["tag"]:
                rel = rel and e["tag"] in cfg.get("tags", ())
            elif e["kind"] == "post" and cfg.get("only_tags"):
                rel = False
            (own if rel else foreign).append(e)
    undecided = [r for r in results if r["state"] == "undecided"]
    structural = [s for r in results for s in r.get("structural", [])]
    vac = [w for p in probes.values() for w in p.get("vacuous", [])]
    rl = [e for e in own if e["kind"] == "rlimit"]
    refuted = [e for e in own if e["kind"] != "rlimit"]

    trouble = bool(own or undecided)
    total = (cfg.get("secs", 12) if tier == "quick" else 180)
    if trouble or foreign:
        total = max(total, 60 if tier == "quick" else 400)
    targets = cfg["targets"]
    runs = {}

    def one(t, secs, s):
        runs[(t, s)] = harness_run(h, t, s, secs, work)

    jobs = [(t, s) for t in targets for s in ([seed] if not trouble else [seed, seed + 1, seed + 2])]
    par = 8
    waves = (len(jobs) + par - 1) // par
    each = max(4.0, total / max(1, waves))
    sem = threading.Semaphore(par)

    def guarded(t, s):
        with sem:
            if any(v[0] is False for v in runs.values()):
                return
            one(t, each, s)

    ths = [threading.Thread(target=guarded, args=j) for j in jobs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    # known findings: each is replayed on its own
    findings = [k for k in known() if k[0] == pid]
    for _, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))

    violations = []
    fails = [(k, v) for k, v in runs.items() if v[0] is False]
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    obl_text = "".join("# obligation: %s in %s: %s\n" % (e["message"], e["fn"], e["clause"]) for e in own[:10])
    if fails:
        (t, s), (_, why, text) = fails[0]
        path = os.path.join(rdir, "%s-%s.txt" % (pid, t))
        open(path, "w").write("# property %s\n# %s\n%s%s" % (pid, why, obl_text, text))
        for e in own[:10]:
            print("obligation failed: %s in %s: %s" % (e["message"], e["fn"], e["clause"]))
        print("failing input (%s): %s" % (t, why))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations.append(path)
    elif refuted and not structural and not undecided:
        path = os.path.join(rdir, "%s-obligation.txt" % pid)
        with open(path, "w") as f:
            f.write("# property %s: obligations that the verifier refuses; no failing input was found\n" % pid)
            for e in refuted:
                f.write("obligation: %s in %s: %s\n%s\n" % (e["message"], e["fn"], e["clause"], e["rendered"]))
        for e in refuted[:10]:
            print("obligation failed: %s in %s: %s" % (e["message"], e["fn"], e["clause"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        violations.append(path)

    # ---- evidence
    fns, ext, dropped, rewrites = [], [], [], []
    verified = errors = 0
    smt = 0
    for r in results:
        R = r["report"]
        for f in R["fns"]:
            if f["contract"] and not f["external"]:
                fns.append("%s (%s:%d-%d)" % (f["path"], f["file"], f["line0"], f["line1"]))
            if f["external"]:
                ext.append("%s (%s:%d-%d)" % (f["path"], f["file"], f["line0"], f["line1"]))
        dropped += R["dropped"]
        rewrites += R["rewrites"]
        v = r.get("verus")
        if v and v.get("verified") is not None:
            verified += v["verified"]
            errors += v["nerr"] or 0
            smt += v.get("smt_ms") or 0
    trusted = list(cfg.get("trusted", []))
    for r in results:
        if os.path.exists(r["rs"]):
            txt = open(r["rs"]).read()
            for m in re.finditer(r"assume_specification[^\[]*\[([^\]]*)\]", txt):
                trusted.append("assumed contract: " + m.group(1).strip())
            for m in re.finditer(r"external_body\][^{;]*?\bfn (\w+)", txt):
                trusted.append("external (body not verified): " + m.group(1))
            for m in re.finditer(r"\b(admit|assume)\(([^)]*)\)", txt):
                trusted.append("assume in the overlay: " + m.group(0))
            for m in re.finditer(r"// TRUSTED: (.*)", txt):
                trusted.append(m.group(1).strip())
    trusted = sorted(set(trusted))
    cov = {
        "obligations": verified + errors,
        "discharged": verified,
        "checker_cmd": "; ".join(r["verus"]["cmd"] for r in results if r.get("verus")) or "none",
        "trusted_base": trusted,
        "backend": "Verus 0.2026.09.13 (Z3), every obligation unbounded",
        "functions_under_contract": fns,
        "functions_external": ext,
        "solver_ms": smt,
        "verus_wall_s": [round(r["verus"]["wall"], 1) for r in results if r.get("verus")],
        "state": {r["spec"]: r["state"] for r in results},
        "refused_obligations": [{k: e[k] for k in ("message", "fn", "clause", "tag")} for e in own],
        "refused_obligations_of_other_properties": [{k: e[k] for k in ("message", "fn", "clause", "tag")} for e in foreign],
        "structural_losses": structural,
        "notes": [n for r in results for n in r["notes"]],
        "vacuity_probes": probes,
        "dropped_by_extraction": dropped,
        "rewritten_by_extraction": rewrites,
        "bounded_stand_in": {
            "label": "bounded, not counted as proved: the real crate against a model, random and exhaustive short histories",
            "covers": cfg.get("bounded", "trait impls and glue outside the extracted text"),
            "runs": {"%s seed %d" % k: (v[1] if v[0] else str(v[1])) for k, v in runs.items()},
        },
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + trusted, "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    if cfg["level"] == "other":
        cov["explanation"] = cfg["explanation"]
    open(os.path.join(EVID, pid + ".json"), "w").write(json.dumps(ev, indent=1) + "\n")
    print("%s: %d of %d obligations discharged (%s), %d functions under contract, stand-in %s, %.0f s" % (
        pid, verified, verified + errors, ", ".join("%s: %s" % (r["spec"], r["state"]) for r in results), len(fns),
        "failed" if fails else "quiet", time.time() - T0))
    for r in results:
        for n in r["notes"][:3]:
            print("note (%s): %s" % (r["spec"], n[:300]))
    if structural and (own or undecided):
        print("note: the overlay no longer fits the source (%s)" % "; ".join(structural[:4]))
    for k, v in runs.items():
        if v[0] is None:
            print("note: stand-in %s: %s" % (k[0], v[1]))
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
