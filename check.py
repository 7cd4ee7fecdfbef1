#!/usr/bin/env python3
"""Runs the check of one property: extracts the functions under contract from /repo, has Verus discharge every
obligation, cross-checks / searches natively for failing inputs, writes evidence/<id>.json.   usage: check.py ID [--tier T]"""
import json, os, re, subprocess, sys, time, threading, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.abspath(os.environ.get("VERIF_BUILD", os.path.join(V, "build")))
sys.path.insert(0, V)
from props import PROPS

T0 = time.time()
def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"

def build_vx():
    vx = os.path.join(B, "extract/release/vx")
    r, o, e = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(V, "extract"), timeout=600,
                 env={"CARGO_TARGET_DIR": os.path.join(B, "extract"), "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"})
    if r != 0:
        print(e[-3000:]); print("extractor does not build"); sys.exit(2)
    return vx

NATIVE = {}
def build_native(full):
    r, o, e = sh(["bash", os.path.join(V, "native/mkfull.sh" if full else "native/mkws.sh")], timeout=800, env={"VBUILD": B, "REPO": REPO})
    NATIVE["ok"] = r == 0
    NATIVE["log"] = (o + e)[-3000:]
    NATIVE["bin"] = os.path.join(B, "full-target/debug/vfull" if full else "native-target/debug/vnative")

def verus(rs, rlimit, extra=(), timeout=600):
    logd = rs + ".log"
    sh(["rm", "-rf", logd])
    r, o, e = sh(["verus", rs, "--triggers-mode", "silent", "--rlimit", str(rlimit), "--output-json", "--time-expanded",
                  "--log-dir", logd, "--log", "smt", *extra, "--", "--error-format=json"], timeout=timeout, cwd=os.path.dirname(os.path.abspath(rs)))
    try: j = json.loads(o)
    except Exception: j = {}
    ds = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"): ds.append(d)
    obl = {}
    try:
        cur = None
        for l in open(os.path.join(logd, "root.smt2"), errors="replace"):
            if l.startswith(";; Function-Def "): cur = l.split()[2].split("::", 1)[1] if "::" in l else l.split()[2]
            elif cur and l.startswith(" (declare-const %%location_label%%"): obl[cur] = obl.get(cur, 0) + 1
            elif l.startswith(";; Function-") : cur = None
    except OSError: pass
    sh(["rm", "-rf", logd])
    return {"json": j, "errors": ds, "obl": obl, "code": r, "stderr": e, "timeout": r == 124}

VERIF_ERR = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|arithmetic underflow/overflow|decreases not satisfied|"
                       r"division by zero|unable to prove|possible|unreachable|requires not satisfied|could not prove|recommendation|loop must have|not satisfied|assert|cannot show")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|canceled")

def lines_of(d):
    """primary line first, then the other labelled lines"""
    p = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
    q = [s["line_start"] for s in d.get("spans", []) if not s.get("is_primary")]
    for c in d.get("children", []): q += [s["line_start"] for s in c.get("spans", [])]
    return p, q

def owner(mp, ls, kinds):
    for l in ls:
        for m in mp:
            if m["kind"] in kinds and m["from"] <= l <= m["to"]: return m["name"]
    return None

def is_verif(d):
    m = d["message"]
    return d.get("code") is None and (VERIF_ERR.search(m) or RLIMIT.search(m)) and not m.startswith("The verifier does not")

def run_unit(vx, unit, need_vac, out):
    """-> {fn: {"status": ok|failed|undecided, "why": [...]}, ...}"""
    t = os.path.join(V, "contracts", unit + ".vrs")
    d = os.path.join(B, "gen", str(os.getpid())); os.makedirs(d, exist_ok=True)
    rs = os.path.join(d, f"{unit}.rs"); mpf = rs + ".map"
    dropped = {}   # fn -> reason
    res = {"unit": unit, "fns": {}, "lemmas": {}, "rounds": 0, "unusable": None}
    rl = 200
    for rnd in range(12):
        cmd = [vx, "--repo", REPO, "--template", t, "--out", rs, "--map", mpf]
        if dropped: cmd += ["--drop", ",".join(dropped)]
        r, o, e = sh(cmd, timeout=60)
        if r != 0:
            res["unusable"] = "extractor: " + e[-400:]; break
        mp = json.load(open(mpf))
        new = {x["fn"]: x["why"] for x in mp["lost_fns"] if x["fn"] not in dropped}
        if new:
            dropped.update(new); continue
        vr = verus(rs, rl)
        res["rounds"] += 1
        j = vr["json"]
        hard = [x for x in vr["errors"] if not is_verif(x)]
        if vr["timeout"]:
            res["unusable"] = "verifier timeout"; break
        if hard:
            new = {}
            for x in hard:
                p, q = lines_of(x)
                f = owner(mp["map"], p + q, ("fn",))
                if f and f not in dropped: new[f] = "not accepted by the verifier: " + x["message"][:300]
            if not new:
                res["unusable"] = "not accepted by the verifier: " + "; ".join(x["message"] for x in hard)[:600]; break
            dropped.update(new); continue
        if "verification-results" not in j:
            res["unusable"] = "no verifier result: " + vr["stderr"][-400:]; break
        break
    else:
        res["unusable"] = "too many functions outside the verifier's reach"
    try: mp = json.load(open(mpf))
    except Exception: mp = {"map": [], "lost": [], "log": [], "files": [], "functions": []}
    res.update({"log": mp["log"], "lost": mp["lost"], "files": mp["files"], "dropped": dropped})
    names = [m["name"] for m in mp["map"] if m["kind"] == "fn"]
    if res["unusable"]:
        for n in names: res["fns"][n] = {"status": "undecided", "why": [res["unusable"]], "obl": 0, "ms": 0}
        out.append(res); return
    times = {}
    for mod in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in mod["function-breakdown"]: times[f["function"].split("::", 1)[1]] = f
    def norm(n): return re.sub(r"<(.*) as .*>", r"\1", n)
    obl = vr["obl"]
    src = open(rs).read().split("\n")
    hintlost = {x.split(":")[0] for x in []}
    for n in names: res["fns"][n] = {"status": "ok", "why": [], "obl": 0, "ms": 0}
    for n, w in dropped.items(): res["fns"].setdefault(n, {"obl": 0, "ms": 0}); res["fns"][n].update({"status": "undecided", "why": [w]})
    for m in mp["map"]:
        if m["kind"] != "fn" or m["name"] in dropped: continue
        key = m.get("rename") or m["name"]
        for cand in {m["name"], key}:
            for k, v in obl.items():
                if norm2(k) == norm2(cand): res["fns"][m["name"]]["obl"] += v
            for k, v in times.items():
                if norm2(k) == norm2(cand): res["fns"][m["name"]]["ms"] += v["time-micros"] / 1000
    for k, v in times.items():
        if v["mode:"] == "proof":
            res["lemmas"][k] = {"ok": v["success"], "obl": obl.get(k, 0), "ms": v["time-micros"] / 1000}
    for x in vr["errors"]:
        p, q = lines_of(x)
        f = owner(mp["map"], p, ("fn",)) or owner(mp["map"], q, ("fn",))
        txt = x["message"] + " @ " + "; ".join(f"{l}: {src[l-1].strip()[:160]}" for l in (p + q)[:4] if l <= len(src))
        if f is None:
            # a lemma of the template: says nothing about the code
            for n in names:
                if res["fns"][n]["status"] == "ok": pass
            res.setdefault("lemma_errors", []).append(txt); continue
        r_ = res["fns"][f]
        st = "undecided" if RLIMIT.search(x["message"]) else "failed"
        if r_["status"] == "ok" or (st == "failed" and r_["status"] == "undecided"): r_["status"] = st
        r_["why"].append(txt)
    for n in names:
        if res["fns"][n]["status"] == "failed":
            hl = [x for x in mp["log"] if x.startswith(n + ": HINTLOST")]
            if hl:
                res["fns"][n]["status"] = "undecided"; res["fns"][n]["why"] = ["proof hints could not be placed: " + "; ".join(hl)] + res["fns"][n]["why"]
    res["verified"] = j["verification-results"].get("verified", 0)
    res["smt_ms"] = sum(v["time-micros"] for v in times.values()) / 1000
    res["code_ok"] = not res.get("lemma_errors")
    if res.get("lemma_errors"):
        for n in names:
            if res["fns"][n]["status"] == "ok": res["fns"][n] = {**res["fns"][n], "status": "undecided", "why": ["lemma of the template fails: " + res["lemma_errors"][0]]}
    res["source"] = "\n".join(src)
    # vacuity: the same bodies with `ensures false` must all fail
    res["vacuous"] = []
    if need_vac:
        rs2 = rs[:-3] + "_vac.rs"; mp2f = rs2 + ".map"
        cmd = [vx, "--repo", REPO, "--template", t, "--out", rs2, "--map", mp2f, "--vacuity"]
        if dropped: cmd += ["--drop", ",".join(dropped)]
        sh(cmd, timeout=60)
        mp2 = json.load(open(mp2f))
        vr2 = verus(rs2, 20, ["--multiple-errors", "0"])
        tw = [m["name"] for m in mp2["map"] if m["kind"] == "twin"]
        if "verification-results" in vr2["json"]:
            bad = set()
            for x in vr2["errors"]:
                p, q = lines_of(x)
                f = owner(mp2["map"], p, ("twin",)) or owner(mp2["map"], q, ("twin",))
                if f: bad.add(f)
            res["vacuous"] = [n for n in tw if n not in bad]
            res["vac_checked"] = len(tw)
            for n in res["vacuous"]:
                if res["fns"].get(n, {}).get("status") == "ok":
                    res["fns"][n] = {**res["fns"][n], "status": "undecided", "why": ["vacuous: `ensures false` is accepted too"]}
        else:
            res["vac_error"] = vr2["stderr"][-500:]
        for f in (rs2, mp2f): 
            try: os.remove(f)
            except OSError: pass
    for f in (rs, mpf):
        try: os.remove(f)
        except OSError: pass
    out.append(res)

def norm2(n):
    # paths of the SMT log use :: too; impl methods are Type::fn, trait impls impl&%N::fn
    return n.replace(" ", "")

TRUST = re.compile(r"(assume_specification[^\[]*\[\s*([^\]]+?)\s*\]|#\[verifier::external_body\]\s*(?:pub )?(?:proof )?(?:unsafe )?(?:fn|struct|trait)\s+(\w+)|(?:broadcast )?axiom fn (\w+)|\bassume\(([^;]*)\);|admit\(\))")
def trusted(source, dropped):
    out = []
    for m in TRUST.finditer(source):
        if m.group(2): out.append("assumed contract: " + re.sub(r"\s+", " ", m.group(2)))
        elif m.group(3): 
            if m.group(3) not in dropped: out.append("external body: " + m.group(3))
        elif m.group(4): out.append("axiom: " + m.group(4))
        else: out.append("ASSUME " + m.group(0)[:80])
    seen = []
    for x in out:
        if x not in seen: seen.append(x)
    return seen

def native(pid, seed, secs, tag):
    os.makedirs(os.path.join(B, "cases"), exist_ok=True)
    out = os.path.join(B, "cases", f"{pid}.{os.getpid()}.{tag}.{seed}.json")
    for f in (out, out + ".current"):
        if os.path.exists(f): os.remove(f)
    r, o, e = sh(["bash", "-c", 'ulimit -v 12000000; exec "$0" "$@"', NATIVE["bin"], "search", pid, str(seed), str(secs), out], timeout=secs + 120)
    info = {}
    try: info = json.loads(o.strip().split("\n")[-1])
    except Exception: pass
    case = None
    if os.path.exists(out): case = json.load(open(out))
    elif r not in (0, 1) and os.path.exists(out + ".current"):
        try:
            case = {"case": json.load(open(out + ".current")), "why": f"the process ended with status {r} on this case: {e.strip()[-200:]}"}
        except Exception: case = None
    for f in (out, out + ".current"):
        if os.path.exists(f): os.remove(f)
    if r not in (0, 1) and case is None: info = {"error": f"search ended with status {r}: {e.strip()[-300:]}"}
    return info, case

def native_par(pid, seed, secs, tag, k=4):
    """k searches with different seeds side by side"""
    rs = [None] * k
    def one(i): rs[i] = native(pid, seed if i == 0 else seed * 1000 + i, secs, tag)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(k)]
    for t in ts: t.start()
    for t in ts: t.join()
    info = dict(rs[0][0]); 
    for r in rs[1:]:
        for f in ("evaluations", "distinct_nontrivial"):
            if f in r[0] and f in info: info[f] += r[0][f] if f == "evaluations" else 0
        if "error" in r[0]: info["error"] = r[0]["error"]
    case = next((r[1] for r in rs if r[1] is not None), None)
    return info, case

def load_known():
    k = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"): k.append(json.loads(l))
    return k

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    base = {}
    def nat0():
        build_native(P.get("native") == "full")
        if P.get("native", True) and NATIVE["ok"]:
            base["r"] = native_par(pid, seed, P.get("quick_s", 8) if tier == "quick" else 150, "a", P.get("par", 4))
    th = threading.Thread(target=nat0); th.start()
    vx = build_vx()
    outs, ths = [], []
    for u in P["units"]:
        t = threading.Thread(target=run_unit, args=(vx, u, True, outs)); t.start(); ths.append(t)
    th.join()
    if not NATIVE["ok"]:
        print("native harness does not build against /repo:\n" + NATIVE["log"])
    nat, case = ({}, None)
    hasnat = P.get("native", True) and NATIVE["ok"]
    for t in ths: t.join()
    # ---- verdict of the verifier
    failed, undecided, okf, missing = {}, {}, {}, []
    rs_by_unit = {r["unit"]: r for r in outs}
    obl = disch = 0; ms = 0.0
    for u, fns in P["units"].items():
        r = rs_by_unit[u]
        want = fns if fns != "*" else list(r["fns"])
        for f in want:
            x = r["fns"].get(f)
            if x is None:
                undecided[f"{u}: {f}"] = ["not found in the source"]; obl += 1; continue
            n = max(1, x["obl"]); obl += n; ms += x["ms"]
            if x["status"] == "ok": okf[f"{u}: {f}"] = n; disch += n
            elif x["status"] == "failed": failed[f"{u}: {f}"] = x["why"]
            else: undecided[f"{u}: {f}"] = x["why"]
        for l, x in r["lemmas"].items():
            n = max(1, x["obl"]); obl += n; ms += x["ms"]
            if x["ok"]: disch += n
    for th_ in P.get("theorems", []):
        u, l = th_.split(": ")
        if not rs_by_unit[u]["lemmas"].get(l, {}).get("ok"): undecided[f"{u}: theorem {l}"] = ["not discharged"]
    # ---- native search (validation of the trusted contracts; failing inputs for failed obligations)
    if hasnat:
        nat, case = base["r"]
        if case is None and (failed or undecided):
            nat, case = native_par(pid, seed, 75 if tier == "quick" else 300, "b", P.get("par", 4))
    known = [k for k in load_known() if k["property"] == pid and k["kind"] == "finding"]
    viol = 0
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    lines = []
    for k in known: lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = 0
    if case is not None:
        rp = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, **case, "failed_obligations": failed, "undecided": undecided,
                   "replay_cmd": f"{NATIVE['bin']} replay {pid} {rp}"}, open(rp, "w"), indent=1)
        lines.append(f"failing input: {json.dumps(case['case'])[:600]}\n  {case['why'][:600]}")
        lines.append(f"VIOLATION property={pid} replay={rp}")
        code = 1; viol = 1
    elif failed:
        rp = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "failed_obligations": failed, "undecided": undecided, "native_search": nat,
                   "note": "the verifier gives no counterexample; the bounded native search found no failing input"}, open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        code = 1; viol = len(failed)
    for n, w in failed.items():
        print(f"FAILED {n}")
        for x in w[:6]: print("    " + x[:400])
    for n, w in undecided.items():
        print(f"UNDECIDED {n} (not proved on this tree; bounded search only)")
        for x in w[:3]: print("    " + x[:300])
    sh(["rm", "-rf", os.path.join(B, "gen", str(os.getpid()))])
    tb = []
    for r in outs:
        for x in trusted(r.get("source", ""), {d.split("::")[-1] for d in r["dropped"]}):
            if x not in tb: tb.append(x)
    ext = sorted({re.sub(r"^.*?: (R\d+).*", r"\1", x) for r in outs for x in r["log"] if re.search(r": R\d+", x)})
    full = not failed and not undecided
    cov = {"obligations": obl, "discharged": disch,
           "checker_cmd": f"verus (Z3) on the unit(s) {', '.join(P['units'])} extracted by vx from /repo; python3 check.py {pid}",
           "trusted_base": tb or ["none beyond Verus, Z3 and vstd"],
           "functions_under_contract": okf, "functions_undecided": undecided, "functions_failed": failed,
           "lemmas_discharged": sum(1 for r in outs for x in r["lemmas"].values() if x["ok"]),
           "backend": "Verus 0.2026.09.13 / Z3 4.16", "solver_ms": round(ms),
           "vacuity": {r["unit"]: {"twins_checked": r.get("vac_checked", 0), "vacuous": r.get("vacuous", [])} for r in outs},
           "extraction": {r["unit"]: {"files": r["files"], "edits": r["log"], "lost": r["lost"]} for r in outs}}
    if hasnat: cov["bounded_cross_check"] = {**nat, "note": "never counted as proved"}
    if "evaluations" in nat: cov["evaluations"] = nat["evaluations"]
    if "samples" in nat: cov["samples"] = nat["samples"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"] if full else ("other" if P["level"] == "proof" else P["level"]), "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": viol}
    if ev["level"] == "other": cov["explanation"] = "proof incomplete on this tree: see functions_failed / functions_undecided; the rest was searched natively within the stated bound"
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(okf)} functions proved, {len(failed)} failed, {len(undecided)} undecided; {disch}/{obl} obligations; native: {nat.get('evaluations', 0)} cases; {ev['wall_s']} s")
    for l in lines: print(l)
    sys.exit(code)
main()
