#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--keep] [--entry NAME] [--record]

Decides one property from the current source of /repo:
  1. compiles the property's harness (which instantiates the headers of /repo)
     and the /repo sources it needs to LLVM IR,
  2. runs the abstract interpreter build/absint on every harness entry,
  3. compares what was analysed with the confirmed minimum (tools/expected.json),
  4. writes evidence/<id>.json and prints the verdict.

exit 0: every obligation discharged; 1: violation; 2: the check could not decide.
"""
import sys, os, json, resource, subprocess, tempfile, shutil, time, concurrent.futures as cf, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, LIBS

CXX = ["clang++-18", "-std=gnu++20", "-w", "-DHAVE_CONFIG_H", "-I" + HERE + "/harness/include", "-I" + REPO,
       "-I/opt/dune/venv/include"]
IR = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-ffp-contract=off",
      "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c"]
PASSES = "function(sroa,early-cse,simplifycfg)"


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_ir(src, out, defs):
    r = sh(CXX[:1] + [d.replace("@HERE@", HERE) for d in defs] + CXX[1:] + IR + [src, "-o", out + ".0"])
    if r.returncode:
        raise Broken("cannot compile %s:\n%s" % (src, "\n".join(l for l in r.stdout.splitlines() if "error" in l or "note:" in l)[:3000]))
    r = sh(["opt-18", "-passes=" + PASSES, out + ".0", "-o", out])
    if r.returncode:
        raise Broken("opt failed on %s: %s" % (src, r.stdout[:500]))
    os.unlink(out + ".0")
    return out


def witness(src, defs):
    """compile-time witness: only 'static assertion failed' diagnostics are verdicts"""
    r = sh(CXX + ["-fsyntax-only", "-fconstexpr-steps=100000000", "-ftemplate-depth=2000", "-ferror-limit=0"] + list(defs) + [src])
    text = open(src).read()
    n = len(re.findall(r"static_assert\s*\(", text))
    viol = []
    if r.returncode:
        lines = r.stdout.splitlines()
        other = []
        for i, l in enumerate(lines):
            m = re.match(r"(.*?):(\d+):\d+: error: (.*)", l)
            if not m:
                continue
            if "static assertion failed" in m.group(3) or "static assertion expression is not an integral constant" in m.group(3):
                note = " ".join(x.strip() for x in lines[i + 1:i + 8] if "note:" in x)
                viol.append({"kind": "compile-time witness", "msg": m.group(3), "where": m.group(1) + ":" + m.group(2), "cond": note[:400], "claim_at": m.group(1) + ":" + m.group(2), "instance": ""})
            else:
                other.append(l)
        if other and not viol:
            raise Broken("witness %s does not compile:\n%s" % (src, "\n".join(other)[:2000]))
    return n, viol


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = record = False
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--keep": keep = True
        elif a == "--record": record = True
        elif a == "--entry": only = args.pop(0)
    P = PROPS[pid]
    t0 = time.time()
    absint = HERE + "/build/absint"
    r = sh(["bash", HERE + "/tools/setup.sh"])
    if r.returncode or not os.path.exists(absint):
        print("check error: analyser cannot be built\n" + r.stdout[-2000:]); return 2
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        return decide(pid, P, tier, tmp, absint, t0, record, only)
    except Broken as e:
        print("check error: property=%s %s" % (pid, e)); return 2
    finally:
        if keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, P, tier, tmp, absint, t0, record, only):
    base = (["-DVERIF_THOROUGH"] if tier == "thorough" else []) + P.get("flags", [])
    units = []          # (harness, defs)
    for u in P.get("units", []):
        if isinstance(u, str): units.append((u, []))
        else: units.append((u[0], list(u[1])))
    # harnesses of other properties of which only the memory model's verdict counts here
    memory = set(P.get("memory_units", []))
    units += [(u, []) for u in P.get("memory_units", [])]
    libs = sorted(set(sum([LIBS[l] for l in P.get("libs", [])], [])))
    pool = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
    libf = {l: pool.submit(compile_ir, os.path.join(REPO, l), os.path.join(tmp, l.replace("/", "_") + ".bc"), base) for l in libs}
    rtf = pool.submit(compile_ir, os.path.join(HERE, "harness", "rt.cc"), os.path.join(tmp, "rt.bc"), [])
    unitf = [pool.submit(compile_ir, os.path.join(HERE, "harness", u), os.path.join(tmp, "u%d.bc" % i), base + d) for i, (u, d) in enumerate(units)]
    witf = [pool.submit(witness, os.path.join(HERE, "harness", w), base) for w in P.get("witnesses", [])]
    libbc = [f.result() for f in libf.values()] + [rtf.result()]
    jobs = []
    for i, f in enumerate(unitf):
        bc = f.result(); mod = os.path.join(tmp, "m%d.bc" % i)
        r = sh(["llvm-link-18", bc] + libbc + ["-o", mod])
        if r.returncode: raise Broken("link failed: " + r.stdout[:500])
        r = sh([absint, mod, "--list"])
        for e in r.stdout.split():
            if only and e != only: continue
            jobs.append((i, mod, e))

    found = []
    counts_here = lambda r, v: not (r["unit"] in memory and v["kind"] in ("claim", "throw") and "uninitialised" not in v["msg"])
    gb = 6 if tier == "quick" else 24
    cap = lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))

    def run(job):
        i, mod, e = job
        out = os.path.join(tmp, "%d_%s.json" % (i, e))
        limit = int(os.environ.get("VERIF_TIMEOUT", "400" if tier == "quick" else "7000"))
        # once a violation is known, the other entries get a short time to add theirs
        t0 = time.time(); log = open(out + ".log", "w+")
        pr = subprocess.Popen([absint, mod, out, e, "--repo", REPO + "/"], stdout=log, stderr=subprocess.STDOUT, preexec_fn=cap)
        while True:
            try:
                pr.wait(0.2); break
            except subprocess.TimeoutExpired:
                if time.time() - t0 < limit and (not found or time.time() - found[0] < 60): continue
                pr.kill(); pr.wait()
                return stopped("%s (%s): analysis exceeded %d s" % (e, units[i][0], limit), deep(e))
        log.seek(0); text = log.read(); log.close()
        try:
            res = json.load(open(out))
        except Exception:
            return stopped("%s (%s): analysis ended abnormally (status %d): %s" % (e, units[i][0], pr.returncode, text[-500:]), deep(e))
        if not res: raise Broken("entry %s missing" % e)
        res[0]["unit"] = units[i][0] + ("[" + " ".join(units[i][1]) + "]" if units[i][1] else "")
        if any(counts_here(res[0], v) for v in res[0]["violations"]): found.append(time.time())
        if os.environ.get("VERIF_VERBOSE") and text: print(text)
        return res[0]

    # Entries named deep go beyond the bounds the property is decided for: running out of
    # resources there (slower but equivalent code) is recorded, and is no lack of an answer.
    deep = lambda e: e.startswith("chk_deep")
    undecided = []; beyond = []
    def stopped(msg, more):
        (beyond if more else undecided).append(msg)
    results = [f.result() for f in [pool.submit(run, j) for j in jobs]]
    results = [r for r in results if r is not None]
    wn = 0; viol = []
    for f in witf:
        n, v = f.result(); wn += n; viol += v
    extra = {}
    for fn in P.get("lints", []):
        ob, v, info = fn(REPO, HERE, tmp, CXX, tier)
        viol += v; extra.setdefault("lint_obligations", 0); extra["lint_obligations"] += ob
        extra.update(info)
    rules = {}; funcs = set(); tot = dict(obligations=0, discharged=0, symbolic=0, steps=0, joins=0, branches=0, accesses=0, widened=0, shared_writes=0, shared_reads=0)
    for r in results:
        for k in tot: tot[k] += r[k]
        for k, n in r["rules"].items(): rules[k] = rules.get(k, 0) + n
        funcs.update(r["funcs"])
        for v in r["violations"]:
            if not counts_here(r, v): continue
            v["entry"] = r["entry"]; v["unit"] = r["unit"]; viol.append(v)
        if r["undecided"]: stopped("%s (%s): %s" % (r["entry"], r["unit"], r["undecided"]), deep(r["entry"]) and r["undecided"].startswith("step limit"))
    files = sorted(set(f.split(":")[0] for f in funcs))
    sure = [r for r in results if not deep(r["entry"])]
    srules = {}
    for r in sure:
        for k, n in r["rules"].items(): srules[k] = srules.get(k, 0) + n
    counts = dict(entries=len(sure) + sum(deep(j[2]) for j in jobs), witnesses=wn, rules=srules, files=files, lint=extra.get("lint_obligations", 0), **{k: sum(r[k] for r in sure) for k in ("obligations", "symbolic", "accesses", "joins")})

    known = [k for k in load_known() if k["property"] == pid]
    fresh = []; seen_known = set()
    for v in viol:
        k = next((k for k in known if matches(k, v)), None)
        if k: seen_known.add(k["what"])
        else: fresh.append(v)
    for w in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (pid, w))

    expf = HERE + "/tools/expected.json"
    exp = json.load(open(expf)) if os.path.exists(expf) else {}
    key = pid + ":" + tier
    if record:
        exp[key] = counts; json.dump(exp, open(expf, "w"), indent=1, sort_keys=True)
    missing = []
    if not only:
        e = exp.get(key)
        if e is None: missing.append("no confirmed counts for %s" % key)
        else:
            for k in ("entries", "witnesses"):
                if counts[k] < e[k]: missing.append("%s: %d, confirmed %d" % (k, counts[k], e[k]))
            for k in ("obligations", "lint"):
                if counts[k] * 2 < e[k]: missing.append("%s: %d, confirmed %d" % (k, counts[k], e[k]))
            for k, n in e["rules"].items():
                if srules.get(k, 0) * 2 < n: missing.append("rule '%s': %d instances, confirmed %d" % (k, srules.get(k, 0), n))
            for f in P.get("anchors", []):
                if f not in files: missing.append("no function of %s was analysed" % f)
    tot_ob = tot["obligations"] + wn + counts["lint"]
    cov = {
        "explanation": P["explanation"],
        "obligations": tot_ob, "discharged": tot["discharged"] + wn + counts["lint"] - sum(1 for v in viol if "entry" not in v),
        "obligations_over_symbolic_values": tot["symbolic"], "entries": len(results), "compile_time_witnesses": wn,
        "rules_applied": rules, "abstract_steps": tot["steps"], "branches": tot["branches"], "joins": tot["joins"], "loops_widened": tot["widened"],
        "memory_accesses_checked": tot["accesses"], "repo_functions_analysed": len(funcs), "repo_files": files,
        "functions_sample": sorted(funcs)[:40], "units": sorted(set(r["unit"] for r in results)),
    }
    if tot["shared_writes"] or tot["shared_reads"]:
        cov["shared_writes_checked"] = tot["shared_writes"]; cov["shared_reads_checked"] = tot["shared_reads"]
    for k, v in extra.items():
        if k != "lint_obligations": cov[k] = v
    if undecided: cov["undecided"] = undecided
    if beyond: cov["deeper_bounds_not_reached"] = beyond
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
    rep = "%s/evidence/%s.violations.txt" % (HERE, pid)
    if os.path.exists(rep): os.unlink(rep)
    if fresh:
        with open(rep, "w") as f:
            for v in fresh:
                f.write("rule:     %s: %s\nconstruct: %s\nwhen:     %s\ninstance: %s\nclaim at: %s\nentry:    %s %s\n\n" % (v["kind"], v["msg"], v["where"], v["cond"] or "always", v["instance"], v["claim_at"], v.get("entry", ""), v.get("unit", "")))
        for v in fresh[:12]:
            print("%s: %s\n    at %s\n    %s%s" % (v["kind"], v["msg"][:400], v["where"][:400], v["instance"], "   when " + v["cond"][:300] if v["cond"] else ""))
        if len(fresh) > 12: print("... %d more" % (len(fresh) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if undecided:
        print("check error: property=%s not decided:" % pid)
        for u in undecided[:10]: print("   " + u[:600])
        return 2
    if missing:
        print("check error: property=%s less was analysed than confirmed:" % pid)
        for m in missing[:20]: print("   " + m)
        return 2
    print("property=%s holds: %d obligations (%d over symbolic values) in %d entries, %d witnesses, %d functions of /repo, %.1f s" % (pid, tot_ob, tot["symbolic"], len(results), wn, len(funcs), time.time() - t0))
    return 0


def load_known():
    f = HERE + "/known_findings.jsonl"
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    return out


def matches(k, v):
    return k["kind"] == v["kind"] and k["where"] in v["where"] and k["msg"] in v["msg"]


if __name__ == "__main__":
    sys.exit(main())
