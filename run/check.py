#!/usr/bin/env python3
"""check.py ID [quick|thorough]

Decides one property on /repo's current working tree:
 1. proof: every unit of the property is extracted from /repo by tools/vx and its obligations are
    discharged by Verus (plus a vacuity run);
 2. executable contracts: the harness built against /repo evaluates the same property on generated
    inputs (bounded; gives failing inputs and covers the functions outside the verifier's reach).
Exit 0: held. Exit 1: VIOLATION line printed.
"""
import hashlib, json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(BUILD, "vx", "release", "vx")
HBIN = os.path.join(BUILD, "harness", "debug", "vharness")
CFG = json.load(open(os.path.join(VERIF, "run", "props.json")))
KNOWN = json.load(open(os.path.join(VERIF, "known-findings.json")))
REPO_CRATES = ["treeldr-layouts", "treeldr", "treeldr-macros", "vharness"]


def env():
    e = dict(os.environ)
    e.update({
        "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
        "RUSTC_WRAPPER": "", "CARGO_HOME": "/root/.cargo", "RUSTUP_TOOLCHAIN": "stable",
    })
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, timeout, cwd=VERIF, e=None, preexec=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=preexec)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "__pycache__", "tests"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".vt")):
                    p = os.path.join(root, f)
                    if os.path.basename(p) == "Cargo.lock" and d == REPO:
                        continue
                    h.update(p.encode()); h.update(b"\0")
                    h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()


def build_vx():
    want = tree_hash([os.path.join(VERIF, "tools", "vx")])
    stamp = os.path.join(BUILD, "vx.hash")
    if os.path.exists(VX) and os.path.exists(stamp) and open(stamp).read() == want:
        return True, ""
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vx")
    rc, o, er = sh(["cargo", "build", "--release", "--offline", "--locked"], 600, os.path.join(VERIF, "tools", "vx"), e)
    if rc == 0:
        open(stamp, "w").write(want)
    return rc == 0, er[-3000:]


def build_harness():
    os.makedirs(BUILD, exist_ok=True)
    want = tree_hash([REPO, os.path.join(VERIF, "harness")])
    stamp = os.path.join(BUILD, "harness.hash")
    if os.path.exists(HBIN) and os.path.exists(stamp) and open(stamp).read() == want:
        return True, ""
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "harness")
    hd = os.path.join(VERIF, "harness")
    # cargo only looks at mtimes: drop what was built from another tree
    if os.path.exists(os.path.join(BUILD, "harness")):
        for c in REPO_CRATES:
            sh(["cargo", "clean", "--offline", "-p", c], 60, hd, e)
    if os.path.exists(stamp):
        os.remove(stamp)
    rc, o, er = sh(["cargo", "build", "--offline", "--locked"], 700, hd, e)
    if rc == 0:
        open(stamp, "w").write(want)
    return rc == 0, er[-6000:]


VERIF_MSGS = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"arithmetic underflow/overflow|decreases not satisfied|index.*out of bounds|possible|recommendation not met|"
    r"unable to prove|not satisfied|assertion not satisfied|could not prove", re.I)
LIMIT_MSGS = re.compile(r"rlimit|resource limit|timed? ?out|canceled", re.I)

TRUST_PATTERNS = [
    (r"assume_specification[^;{]*?\[\s*([^\]]+?)\s*\]\s*\(", "assumed specification of {}"),
    (r"external_body\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:proof\s+|exec\s+)?(fn\s+\w+|struct\s+\w+|enum\s+\w+)", "body not verified: {}"),
    (r"external_type_specification\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(struct\s+\w+)", "external type: {}"),
    (r"\b(admit\(\))", "admitted: {}"),
    (r"[^_\w](assume\([^;]*\));", "assumed: {}"),
    (r"broadcast (axiom fn \w+)", "axiom: {}"),
    (r"(axiom fn \w+)", "axiom: {}"),
    (r"(exec_allows_no_decreases_clause)", "termination not proved ({})"),
    (r"uninterp spec fn (\w+)", "uninterpreted: {}"),
]


def strip_comments(t):
    return re.sub(r"//[^\n]*", "", t)


def scan_trusted(text):
    t = strip_comments(text)
    out = []
    for pat, fmt in TRUST_PATTERNS:
        for m in re.finditer(pat, t):
            s = fmt.format(re.sub(r"\s+", " ", m.group(1)))
            if s not in out:
                out.append(s)
    return out


def first_spans(d):
    return [(s.get("line_start"), s.get("label") or "", (s.get("text") or [{}])[0].get("text", "").strip())
            for s in d.get("spans", [])]


def run_verus(rs, outbase, rlimit, errors):
    cmd = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent",
           "--multiple-errors", str(errors), "--rlimit", str(rlimit), "--num-threads", "4"]
    t0 = time.time()
    rc, o, er = sh(cmd, 400, os.path.dirname(rs))
    open(outbase + ".log", "w").write(o[-200000:] + "\n---\n" + er)
    try:
        i = o.index("{")
        j = json.loads(o[i:])
    except Exception:
        j = None
    diags = []
    for line in er.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return rc, j, diags, time.time() - t0, cmd


def prove_unit(unit, tier):
    """returns dict: status proved|failed|undecided, ..."""
    od = os.path.join(BUILD, "proof"); os.makedirs(od, exist_ok=True)
    rs, mp = os.path.join(od, unit + ".rs"), os.path.join(od, unit + ".map.json")
    tpl = os.path.join(VERIF, "units", unit + ".vt")
    rc, o, er = sh([VX, tpl, REPO, rs, mp], 60)
    res = {"unit": unit, "status": "undecided", "reason": "", "functions": [], "transformations": [], "trusted": [],
           "verified": 0, "errors": 0, "smt_ms": 0, "wall_s": 0.0, "failed": [], "cmd": "", "vacuity": ""}
    if rc != 0:
        res["reason"] = "extraction: " + (o + er).strip()[-400:]
        return res
    m = json.load(open(mp))
    res["functions"] = [{"fn": f["path"], "file": f["file"]} for f in m["functions"]]
    res["transformations"] = m.get("transformations", m.get("dropped", []))
    text = open(rs).read()
    res["trusted"] = scan_trusted(text)
    rl = 60 if tier == "quick" else 300
    rc, j, diags, wall, cmd = run_verus(rs, os.path.join(od, unit), rl, 6)
    res["wall_s"] = round(wall, 2)
    res["cmd"] = " ".join(cmd)
    if j is None or "verification-results" not in j:
        res["reason"] = "verus gave no result: " + "; ".join(d["message"] for d in diags)[:400]
        return res
    vr = j["verification-results"]
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    try:
        res["smt_ms"] = j["times-ms"]["smt"]["total"]
    except Exception:
        pass
    if rc == 0 and vr.get("success") and res["verified"] > 0:
        res["status"] = "proved"
        # vacuity: every contracted function must be able to reach its first statement
        rv, mv = os.path.join(od, unit + "_vac.rs"), os.path.join(od, unit + "_vac.map.json")
        sh([VX, tpl, REPO, rv, mv, "--vacuity"], 60)
        want = set(f["path"] for f in m["functions"] if f.get("vacuity", True))
        rc2, j2, d2, w2, _ = run_verus(rv, os.path.join(od, unit + "_vac"), 3, 1)
        res["wall_s"] = round(wall + w2, 2)
        seen = set()
        mvj = json.load(open(mv))
        for d in d2:
            if LIMIT_MSGS.search(d["message"]):  # no contradiction found within the limit
                for l, _, _ in first_spans(d):
                    seen.update(f["path"] for f in mvj["functions"] if l and f["out_start"] <= l <= f["out_end"])
            for s in d.get("spans", []):
                for t in s.get("text", []):
                    mm = re.search(r"// VACUITY (.*)$", t.get("text", ""))
                    if mm:
                        seen.add(mm.group(1).strip())
        missing = sorted(want - seen)
        res["vacuity"] = "%d of %d contracted functions reachable" % (len(want) - len(missing), len(want))
        if missing:
            res["status"] = "undecided"
            res["reason"] = "vacuous contract of " + ", ".join(missing)
        return res
    if vr.get("encountered-vir-error") or not diags:
        res["reason"] = "unsupported by the verifier: " + "; ".join(d["message"] for d in diags)[:400]
        return res
    fails, limits, others = [], [], []
    for d in diags:
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        if LIMIT_MSGS.search(msg):
            limits.append(msg)
        elif d.get("code"):
            others.append(msg)
        elif VERIF_MSGS.search(msg):
            fails.append(d)
        else:
            others.append(msg)
    if others or (not fails):
        res["reason"] = ("not accepted by the verifier: " + "; ".join(others or limits))[:500]
        return res
    # only obligations of extracted code and of lemmas count; name the enclosing function
    for d in fails:
        sp = first_spans(d)
        lines = [s[0] for s in sp]
        fn = next((f["path"] for f in m["functions"] if any(l and f["out_start"] <= l <= f["out_end"] for l in lines)), "lemma")
        res["failed"].append({"obligation": d["message"], "function": fn, "at": sp, "rendered": d.get("rendered", "")})
    res["status"] = "failed"
    if limits and all(LIMIT_MSGS.search(x["obligation"]) for x in res["failed"]):
        res["status"] = "undecided"
    return res


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(pid, tier, seed):
    out = os.path.join(BUILD, "out"); os.makedirs(out, exist_ok=True)
    f = os.path.join(out, pid + ".json")
    if os.path.exists(f):
        os.remove(f)
    cmd = [HBIN, pid, tier, str(seed), f]
    rc, o, er = sh(cmd, 500 if tier == "quick" else 3000, preexec=limit_mem)
    if os.path.exists(f):
        return json.load(open(f)), " ".join(cmd)
    # the process died (stack overflow, abort, memory): find the case
    sh(cmd + ["--trace"], 600, preexec=limit_mem)
    last = ""
    try:
        with open(f + ".trace") as t:
            for line in t:
                last = line
        os.remove(f + ".trace")
        case = json.loads(last)
    except Exception:
        case = last
    if rc in (3, 4, -99) or not case:
        return None, "harness ended with %s: %s" % (rc, er[-500:])
    return {"evaluations": 0, "distinct_nontrivial": 0, "fail_count": 1, "bounds": [], "samples": [],
            "fails": [{"case": case, "what": "the process is killed (exit %d): %s" % (rc, er[-300:].strip())}]}, " ".join(cmd)


def known_for(pid):
    return [k for k in KNOWN.get("findings", []) if k["property"] == pid]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = CFG[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    notes, units = [], []
    okv, errv = build_vx()
    if not okv:
        notes.append("vx does not build: " + errv[-300:])
    pool = ThreadPoolExecutor(3)
    futs = [pool.submit(prove_unit, u, tier) for u in cfg.get("units", [])] if okv else []
    okh, errh = (True, "") if not cfg.get("harness", True) else build_harness()
    hres, hcmd = None, ""
    if cfg.get("harness", True):
        if okh:
            hres, hcmd = run_harness(pid, tier, seed)
            if hres is None:
                notes.append(hcmd)
        else:
            notes.append("executable contracts do not build against /repo: " + errh[-1500:])
    units = [f.result() for f in futs]

    violations, knowns = [], []
    if hres:
        for f in hres["fails"]:
            text = f["case"] + " ## " + f["what"]
            k = next((k for k in known_for(pid) if re.search(k["match"], text, re.S)), None)
            if k:
                if k["id"] not in [x["id"] for x in knowns]:
                    knowns.append(k)
            else:
                violations.append(f)
    failed_units = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]

    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    lines, code = [], 0
    for k in knowns:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        rp = os.path.join(rdir, pid + ".json")
        json.dump({"property": pid, "kind": "failing input on the real code", "failures": violations[:5],
                   "replay_cmd": "%s %s %s %d /tmp/replay.json --only '<case>'" % (HBIN, pid, tier, seed),
                   "failed_obligations": [{"unit": u["unit"], "failed": u["failed"]} for u in failed_units]},
                  open(rp, "w"), indent=1)
        lines.append("failing input: %s" % violations[0]["case"][:600])
        lines.append("observed: %s" % violations[0]["what"][:600])
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif failed_units:
        rp = os.path.join(rdir, pid + ".json")
        json.dump({"property": pid, "kind": "failed obligation, no failing input found",
                   "failed_obligations": [{"unit": u["unit"], "failed": u["failed"], "cmd": u["cmd"]} for u in failed_units]},
                  open(rp, "w"), indent=1)
        for u in failed_units:
            for x in u["failed"][:4]:
                lines.append("obligation: %s in %s (unit %s): %s" % (x["obligation"], x["function"], u["unit"], x["at"][:2]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        code = 1
    for u in undecided:
        notes.append("unit %s undecided (bounded check decides): %s" % (u["unit"], u["reason"]))

    fns = [f for u in units for f in u["functions"]]
    trusted = []
    for u in units:
        for t in u["trusted"]:
            if t not in trusted:
                trusted.append(t)
    cov = {
        "obligations": sum(u["verified"] + u["errors"] for u in units),
        "discharged": sum(u["verified"] for u in units if u["status"] == "proved"),
        "checker_cmd": units[0]["cmd"] if units else "none",
        "trusted_base": trusted,
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "functions_under_contract": ["%s (%s)" % (f["fn"], f["file"]) for f in fns],
        "units": [{k: u[k] for k in ("unit", "status", "reason", "verified", "errors", "smt_ms", "wall_s", "vacuity")} for u in units],
        "extraction_transformations": [t for u in units for t in u["transformations"]][:200],
        "bounded_functions": cfg.get("bounded", []),
        "evaluations": hres["evaluations"] if hres else 0,
        "distinct_nontrivial": hres["distinct_nontrivial"] if hres else 0,
        "rule": "executable form of the property evaluated against the real code; bounds: " + "; ".join(hres["bounds"] if hres else []) +
                ". Non-trivial: the case exercises the property's mechanism (rule in harness/src/props/%s.rs)" % pid.lower(),
        "samples": (hres["samples"] if hres else [])[:12],
        "notes": notes,
    }
    level = cfg.get("level", "proof")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["trusted: " + t for t in trusted],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations) + (len(failed_units) if not violations else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        print("note: " + n)
    for u in units:
        print("unit %-14s %-9s verified %d errors %d  smt %d ms  wall %.1f s  %s" % (u["unit"], u["status"], u["verified"], u["errors"], u["smt_ms"], u["wall_s"], u["vacuity"]))
    if hres:
        print("executable contracts: %d evaluations, %d distinct non-trivial, %d failures" % (hres["evaluations"], hres["distinct_nontrivial"], hres["fail_count"]))
    for l in lines:
        print(l)
    print("%s %s (%.1f s)" % (pid, "held" if code == 0 else "VIOLATED", time.time() - t0))
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        ok1, e1 = build_vx(); ok2, e2 = build_harness()
        if not (ok1 and ok2):
            print(e1, e2)
        sys.exit(0 if ok1 and ok2 else 1)
    main()
