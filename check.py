#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current tree.

Two deciders, both run on every call:
  verus   functions of /repo extracted mechanically (tools/vx.py) under contracts in verus/*.rs,
          every obligation discharged by Verus/Z3, for all inputs;
  monitor the same contracts evaluated on the running crate (harness/): finds the failing input
          behind a failed obligation, and stands in, bounded, where the verifier gives no answer.
Exit 0: held.  Exit 1 with VIOLATION line: broken.  Exit 2: no answer (build broken).
"""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = os.environ.get("WP_REPO", "/repo")
import vx
from config import PROPS

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
MEM_KB = 12 * 1024 * 1024

def run(cmd, cwd=None, env=None, timeout=600, mem=MEM_KB):
    """(rc, output) ; rc None: timed out"""
    def lim():
        os.setsid()
        import resource
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem * 1024, mem * 1024))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")

# ------------------------------------------------------------------ verus
VERUS_FLAGS = ["--triggers-mode", "silent", "--time", "--output-json"]
SOFT = re.compile(r"rlimit|resource limit|timed out|timeout|not yet support|not supported|recommend", re.I)
def errors_of(stderr):
    """[(message, line or None)] of the error blocks of a Verus run"""
    out = []
    for m in re.finditer(r'^error(?:\[\w+\])?: (.*?)$\n(?:\s*--> [^:\n]*:(\d+):\d+)?', stderr, re.M):
        msg = m.group(1)
        if msg.startswith("aborting due to"): continue
        out.append((msg, int(m.group(2)) if m.group(2) else None, m.start()))
    return out

def verus_run(path, extra=(), timeout=330):
    rc, o, e = run(["verus", os.path.basename(path)] + VERUS_FLAGS + list(extra), cwd=os.path.dirname(path), timeout=timeout)
    js = {}
    i = o.find("{")
    if i >= 0:
        try: js = json.loads(o[i:])
        except ValueError: pass
    return rc, js, e

def ret_type(sig):
    """': T' for a signature ending in -> (r: T) or -> T, '' if there is none to write down"""
    m = re.search(r'->\s*\(\w+:', sig)
    if m:
        i, d = m.end(), 1
        while i < len(sig) and d:
            d += {"(": 1, ")": -1}.get(sig[i], 0); i += 1
        t = sig[m.end():i-1]
    else:
        m = re.search(r'\)\s*->\s*(.*?)(?:\n|$)', sig, re.S)
        if not m: return ""
        t = m.group(1)
    t = re.split(r'\b(?:where|ensures|requires)\b', t)[0].strip()
    return "" if not t or "impl " in t else ": " + t

def returns_probe(lines, k, b, ty=""):
    """return E  ->  return { let q__ = E; proof { assert(false); } q__ }  in lines[k:b], line structure kept"""
    body = "\n".join(lines[k:b])
    out, pos = [], 0
    for m in re.finditer(r'\breturn\b', body):
        if m.start() < pos: continue
        i, d = m.end(), 0
        while i < len(body):
            c = body[i]
            if c in "([{": d += 1
            elif c in ")]}":
                if d == 0: break
                d -= 1
            elif c in ";," and d == 0: break
            elif c == "'" and re.match(r"'(\\.|[^'\\])'", body[i:]): i += len(re.match(r"'(\\.|[^'\\])'", body[i:]).group(0)) - 1
            i += 1
        ex = body[m.end():i]
        out.append(body[pos:m.start()])
        if ex.strip(): out.append("return { let q__%s = " % ty + ex.strip("\n ") .replace("\n", " ") + "; proof { assert(false); } q__ }" + "\n" * ex.count("\n"))
        else: out.append("{ proof { assert(false); } return }" + ex)
        pos = i
    out.append(body[pos:])
    new = "".join(out).split("\n")
    assert len(new) == b - k
    lines[k:b] = new

def verus_unit(unit, root, work, scope=None, tier="quick"):
    r = dict(unit=unit, state="undecided", reason="", verified=0, errors=[], fns=[], smt_ms=0, wall_s=0.0, assumptions=[])
    t0 = time.time()
    tpl = os.path.join(V, "verus", unit + ".rs")
    try: txt, info, regions = vx.build(root, tpl)
    except vx.Lost as x:
        r["reason"] = "extraction: %s" % x; return r
    except (IndexError, KeyError) as x:
        r["reason"] = "extraction: source structure not recognised (%r)" % x; return r
    r["fns"] = ["%s::%s (%s:%d)" % (i.get("impl", ""), i["name"], i["file"], i["line"]) for i in info if i["kind"] == "fn"]
    r["subs"] = sorted({s for i in info for s in i.get("subs", [])})
    p = os.path.join(work, unit + ".rs")
    open(p, "w").write(txt)
    r["text"] = txt
    # mechanical scan for assumptions
    for m in re.finditer(r'^.*\b(external_body|assume_specification|assume\s*\(|admit\s*\(|axiom)\b.*$', txt, re.M):
        line = txt[:m.start()].count("\n")
        if "/* proved in unit " in m.group(0): continue
        nxt = [l.strip() for l in txt.split("\n")[line:line + 3]]
        r["assumptions"].append(" ".join(nxt)[:160])
    # vacuity probe: assert(false) wherever an extracted body ends (before every return and at the tail) must not be
    # provable in each of them; the bodies are shared out over a few verifier runs, each assuming the others' away
    probe = {"n": 0, "failed": 0, "dead": []}
    bodies = []
    lines0 = txt.split("\n")
    for a, b, lab in sorted(regions):
        if not re.search(r'\bfn\b', "\n".join(lines0[a-1:b])): continue
        k = a - 1
        while k < b and not lines0[k].startswith("{"): k += 1   # the extractor puts the opening brace first on its line
        if k < b and lines0[b-1].strip() == "}": bodies.append((a, b, k, lab))
    NCH = 1 if len(bodies) <= 12 else 4
    def do_probe(ch):
        mine = [x[:2] for n, x in enumerate(bodies) if n % NCH == ch]
        for mode in ("exit", "start"):
            lines = list(lines0)
            for n, (a, b, k, lab) in enumerate(bodies):
                at = next((j for j in range(k + 1, min(b, k + 4)) if lines[j].strip().startswith("hide(")), None)
                put = k if at is None else at
                if n % NCH != ch: pre, post = "proof { assume(false); }", ""
                elif mode == "start": pre, post = "proof { assert(false); }", ""
                else:
                    ty = ret_type("\n".join(lines0[a-1:k]))
                    pre, post = "let r__%s = {" % ty, "}; proof { assert(false); } r__ "
                    returns_probe(lines, k, b, ty)
                if at is None: lines[k] = "{ " + pre + lines[k][1:]
                else: lines[at] += " " + pre
                lines[b-1] = post + lines[b-1]
            lines = [re.sub(r'\bassert\(([^;]*?)\) by \(compute_only\);', r'assume(\1);', l) for l in lines]
            pp = os.path.join(work, "%s_probe%d.rs" % (unit, ch))
            open(pp, "w").write("\n".join(lines))
            rc, js, e = verus_run(pp, ["--rlimit", "2" if tier == "thorough" else "0.3", "--multiple-errors", "0"])
            if os.environ.get("VH_PROBE"): shutil.copy(pp, "/tmp/%s_probe%d_%s.rs" % (unit, ch, mode)); open("/tmp/%s_probe%d_%s.err" % (unit, ch, mode), "w").write(e)
            vr = js.get("verification-results", {})
            if vr and not vr.get("encountered-vir-error") and vr.get("errors"): break   # else: not accepted in this form, probe the entry only
        failed = set()
        for msg, ln, _ in errors_of(e):
            if (msg.startswith("assertion failed") or "esource limit" in msg) and ln:
                for a, b in mine:
                    if a <= ln <= b: failed.add((a, b))
        probe["n"] += len(mine); probe["failed"] += len(failed); probe.setdefault("modes", set()).add(mode)
        probe["dead"] += [x[3] for x in bodies if x[:2] in mine and x[:2] not in failed]
    ths = [threading.Thread(target=do_probe, args=(c,)) for c in range(NCH)]
    for th in ths: th.start()
    rc, js, e = verus_run(p, ["--multiple-errors", "4"])
    if rc not in (0, None) and any("esource limit" in m for m, _, _ in errors_of(e)):
        # the solver gave up somewhere: once more with a larger budget
        rc, js, e = verus_run(p, ["--multiple-errors", "4", "--rlimit", "60"], 240)
    for th in ths: th.join()
    r["wall_s"] = round(time.time() - t0, 2)
    vr = js.get("verification-results", {})
    t = js.get("times-ms", {})
    try: r["smt_ms"] = t["smt"]["total"]
    except (KeyError, TypeError): pass
    r["verified"] = vr.get("verified", 0)
    r["probe"] = "%d of %d bodies reachable (%s)" % (probe["failed"], probe["n"], "/".join(sorted(probe.get("modes", []))))
    errs = errors_of(e)
    r["stderr"] = e
    if rc == 0 and vr.get("success") and not vr.get("errors"):
        if r["verified"] == 0: r["reason"] = "no obligations generated"
        elif probe.get("failed") != probe.get("n"): r["reason"] = "vacuity probe: only " + r["probe"] + "; not: " + ", ".join(probe["dead"])
        else: r["state"] = "proved"
        return r
    if rc is None: r["reason"] = "verifier timed out"; return r
    if not vr or vr.get("encountered-vir-error") or "errors" not in vr or not vr["errors"]:
        r["reason"] = "the verifier does not accept the extracted text: " + (errs[0][0] if errs else "unknown error")
        return r
    hard = []
    for msg, ln, pos in errs:
        lab = next((lab for a, b, lab in regions if ln and a <= ln <= b), None)
        if SOFT.search(msg): continue
        # which function's body does the error belong to?  the first location inside an extracted region
        if lab is None:
            blk = e[pos:pos + 4000].split("\nerror")[0]
            for m in re.finditer(r'^\s*(\d+)\s*[|/]', blk, re.M):
                lab = next((lb for a, b, lb in regions if a <= int(m.group(1)) <= b), None)
                if lab: break
        # the clause that failed, so that a scope can tell the clauses of one contract apart
        blk = e[pos:pos + 4000].split("\nerror")[0].split("\n")
        at = next((n for n, l in enumerate(blk) if "failed this postcondition" in l), None)
        cl = next((re.sub(r'^\s*\d+\s*\|[\s|]*', '', l).strip() for l in reversed(blk[:at])  if re.match(r'^\s*\d+\s*\|', l)), "") if at is not None else ""
        hard.append("%s: %s%s" % (lab or "lemma", msg, " [%s]" % cl[:160] if cl else ""))
    if not hard: r["reason"] = "solver gave up: " + "; ".join(m for m, _, _ in errs)[:300]; return r
    if scope:
        # contracts the unit needs only to type-check do not decide this property
        mine = [h for h in hard if re.search(scope, h)]
        if not mine: r["reason"] = "a supporting contract fails: " + "; ".join(hard)[:300]; return r
        hard = mine
    r["state"] = "failed"; r["errors"] = hard
    return r

# ------------------------------------------------------------------ monitor
def build_monitor():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(V, "target", "harness"))
    rc, o, e = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env, timeout=500, mem=None)
    return rc, o + e

def monitor(pid, seed, tier, scale, limit=420):
    exe = os.path.join(V, "target", "harness", "debug", "vh")
    t0 = time.time()
    rc, o, e = run([exe, "run", pid, str(seed), tier, str(scale)], timeout=min(limit, 420), mem=8 * 1024 * 1024)
    d = None
    for l in o.split("\n"):
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: pass
    if d is None:
        d = dict(property=pid, evaluations=0, distinct=0, samples=[], suites=[], state="crash",
                 fails=[dict(suite="?", idx=-1, msg="the process running the code under test ended without a report: rc=%s %s" % (rc, e[-400:]), input="seed %s" % seed)])
    d["wall_s"] = round(time.time() - t0, 2)
    return d

# ------------------------------------------------------------------ findings
def known():
    r = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        m = re.match(r'^finding: property=(\S+) tag=(\S+) (.*)$', l.strip())
        if m: r.append(m.groups())
    return r

def closure(units):
    """the units and those whose contracts they use (their bodies are verified in their own unit)"""
    out = []
    def go(u):
        if u not in out: out.append(u)
        def imports(f):
            for l in open(os.path.join(V, "verus", f)):
                m = re.match(r'//@(import|include)\s+(\S+)', l)
                if m and m.group(1) == "import":
                    if m.group(2)[:-3] not in out: go(m.group(2)[:-3])
                elif m: imports(m.group(2))
        imports(u + ".rs")
    for u in units: go(u)
    return out

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py ID [quick|thorough]"); sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = dict(PROPS[pid], verus=closure(PROPS[pid]["verus"]))
    P["verus"] += [u for u in PROPS[pid].get("shallow", []) if u not in P["verus"]]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="wpv_")
    try:
        res = {}
        def j_verus(u): res[("v", u)] = verus_unit(u, REPO, work, P.get("scope"), tier)
        def j_mon():
            rc, out = build_monitor()
            res["mb"] = (rc, out)
            if rc == 0: res["m"] = monitor(pid, seed, tier, P.get("scale", 4))
        ths = [threading.Thread(target=j_verus, args=(u,)) for u in P["verus"]] + [threading.Thread(target=j_mon)]
        for t in ths: t.start()
        for t in ths: t.join()
        vs = [res[("v", u)] for u in P["verus"]]
        if res["mb"][0] != 0:
            print("ERROR property=%s the monitor does not build against /repo:\n%s" % (pid, res["mb"][1][-3000:])); sys.exit(2)
        m = res["m"]
        # a failed obligation: look harder for a failing input
        failedv = [v for v in vs if v["state"] == "failed"]
        kf = known(); hits, fails = {}, []
        def classify(m):
            for f in m["fails"]:
                tag = re.match(r'^\[([\w-]+)\]', f["msg"])
                e = next((x for x in kf if x[0] == pid and tag and x[1] == tag.group(1)), None)
                if e: hits[e[1]] = (e[2], f)
                else: fails.append(f)
        classify(m)
        if failedv and not fails:
            m2 = monitor(pid, seed + 1000, "thorough", 1, max(60, int(800 - (time.time() - t0))))
            if m2["state"] != "crash" or "rc=None" not in m2["fails"][0]["msg"]: classify(m2)   # out of time: nothing found
            m["evaluations"] += m2["evaluations"]; m["distinct"] += m2["distinct"]
        viol = bool(fails or failedv)
        rp = os.path.join("replays", "%s.txt" % pid)
        if viol:
            with open(os.path.join(V, rp), "w") as f:
                for x in fails:
                    f.write("failing input, suite %s case %s seed %s tier %s\n  %s\n  input: %s\n  replay: cd /verif && target/harness/debug/vh case %s %s %s %s %s\n\n"
                            % (x["suite"], x["idx"], m.get("seed", seed), tier, x["msg"], x["input"], pid, x["suite"], x["idx"], m.get("seed", seed), tier))
                for v in failedv:
                    f.write("verus unit %s: failed obligations\n  %s\n\nverifier output:\n%s\n\nverified text:\n%s\n" % (v["unit"], "\n  ".join(v["errors"]), v["stderr"][-8000:], v["text"]))
        # ---------------- evidence
        proved_units = [v for v in vs if v["state"] == "proved"]
        total = sum(max(v["verified"], 0) + len(v["errors"]) for v in vs)
        disch = sum(v["verified"] for v in vs)
        und = ["verus %s: %s" % (v["unit"], v["reason"]) for v in vs if v["state"] == "undecided"]
        level = P["level"]
        if level == "proof" and (und or not proved_units): level = "exploration"
        cov = dict(
            evaluations=m["evaluations"], distinct_nontrivial=m["distinct"],
            rule="cases are a function of (seed, suite, index); a case is non-trivial unless its generator marks it trivial, distinct by a hash of everything fed to the code. " +
                 "; ".join("%s: %d%s" % (s["name"], s["evaluations"], " (complete enumeration)" if s["exhaustive"] else "") for s in m["suites"]),
            samples=m["samples"] or ["(none)"],
            obligations=total, discharged=disch,
            checker_cmd="python3 check.py %s (verus <unit>.rs %s)" % (pid, " ".join(VERUS_FLAGS)),
            trusted_base=["Verus 0.2026.09.13 and its Z3", "rustc", "tools/vx.py extraction: " + "; ".join(vx.RULES)] + P.get("trusted", []),
            functions_under_contract=[f for v in proved_units for f in v["fns"]],
            verus_units=[dict(unit=v["unit"], state=v["state"], verified=v["verified"], smt_ms=v["smt_ms"], wall_s=v["wall_s"], vacuity=v.get("probe", ""), reason=v["reason"], substitutions=v.get("subs", [])) for v in vs],
            bounded_standins=P.get("standins", []), undecided_this_run=und, monitor_state=m["state"])
        ass = sorted({a for v in vs for a in v["assumptions"]}) + P.get("assumptions", []) + ["unit %s: the contracts it uses of units outside this check are discharged by the checks of other properties" % u for u in P.get("shallow", [])]
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(fails) + len(failedv))
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
        for u in und: print("undecided (bounded stand-in decides): " + u)
        print("%s: %d/%d obligations discharged, %d concrete evaluations (%d distinct), %.1f s" % (pid, disch, total, m["evaluations"], m["distinct"], time.time() - t0))
        for tag, (what, f) in hits.items():
            print("KNOWN-FINDING: property=%s %s [%s case %s]" % (pid, what, f["suite"], f["idx"]))
        if fails:
            for x in fails[:3]: print("  %s[%s]: %s" % (x["suite"], x["idx"], x["msg"][:400]))
            for v in failedv: print("  verus %s: %s" % (v["unit"], "; ".join(v["errors"])[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
        if failedv:
            for v in failedv: print("  verus %s: %s" % (v["unit"], "; ".join(v["errors"])[:400]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)); sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": main()
