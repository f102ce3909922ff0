#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only LABEL]

Decides one property of /repo's current working tree: rebuilds LLVM IR of /repo + harness, explores the harness
entries of the property symbolically, replays every counterexample on a native build, writes evidence/<property>.json.
Exit 0: held on everything explored. 1: violation (VIOLATION line). 2: no answer (an error of the check).
"""
import json, os, sys, time, subprocess, threading, resource, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build_ir, specs

REPEAT = 60          # native replays of one counterexample (hash seeds differ between them)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def native(binary, lines, timeout, verbose=False):
    """-> (returncode or 'timeout', stdout, stderr)"""
    e = dict(os.environ)
    e.pop("RUST_BACKTRACE", None)
    if verbose: e["SX_VERBOSE"] = "1"
    try:
        p = subprocess.run([binary], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits, env=e, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        return "timeout", out.decode(errors="replace") if isinstance(out, bytes) else out, ""

def confirm(binary, line, rep):
    """Replays a counterexample against the real code. -> description or None"""
    rc, out, err = native(binary, [line] * rep, 30)
    if rc == "timeout":
        rc, out, err = native(binary, [line], 30)
        return "does not terminate (30 s)" if rc == "timeout" else None
    if "ASSUME-FAILED" in out: return None
    for l in out.splitlines():
        if l.startswith("CHECK-FAILED"): return l[len("CHECK-FAILED "):]
    if rc != 0:
        return "crash (exit %s): %s" % (rc, " ".join(err.split())[:300])
    return None

def demangle(names):
    try:
        p = subprocess.run(["/usr/bin/c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    except Exception:
        return names

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sp = specs.PROPS[pid]
    jobs = [j for j in sp["jobs"] if (tier == "thorough" or not j.get("thorough_only")) and (not only or j["label"] == only)]
    if tier == "thorough": jobs = [j for j in jobs if not j.get("quick_only")]
    ext = sp.get("ext", False)
    ents = sorted(set(j["entry"] for j in jobs))
    ll = os.path.join(build_ir.TARGET, "ll", pid + ".ll")
    res, errs = {}, []
    def go(k, f, *a):
        try: res[k] = f(*a)
        except Exception as x: errs.append("%s: %s" % (k, x))
    th = [threading.Thread(target=go, args=("engine", build_ir.build_engine)), threading.Thread(target=go, args=("native", build_ir.build_native, ext)), threading.Thread(target=go, args=("ir", build_ir.build_ir, ents, ll, ext))]
    for t in th: t.start()
    for t in th: t.join()
    if errs:
        print("ERROR: build failed: " + "\n".join(errs)); return 2
    t_build = time.time() - t0
    evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
    known = specs.known_findings(os.path.join(HERE, "known_findings.txt"), pid)
    viol, unconfirmed, jobev, warn = [], [], [], []
    fns = set()
    tot = dict(paths=0, forks=0, instructions=0, checks_symbolic=0, checks_concrete=0, solver_queries=0, solver_s=0.0, domain_decisions=0, witness_hits=0, cache_hits=0, assume_dead=0, concretisations=0, solver_unknown=0)
    validated = mism = 0
    samples = []
    complete = True
    for k in known:
        # a finding is an input recorded in the known-findings file: replay it
        what = confirm(res["native"], k["line"], 1)
        if what: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for j in jobs:
        budget = j["budget"][1 if tier == "thorough" else 0] if isinstance(j["budget"], (list, tuple)) else j["budget"]
        a, b = j.get("a", 0), j.get("b", 0)
        if tier == "thorough": a, b = j.get("ta", a), j.get("tb", b)
        out = os.path.join(build_ir.TARGET, "out-%s.json" % pid)
        if os.path.exists(out): os.remove(out)
        cmd = [res["engine"], "--ll", ll, "--entry", j["entry"], "--arg0", str(a), "--arg1", str(b), "--budget", str(budget), "--samples", str(j.get("samples", 40)), "--reports", "6", "--seed", str(seed), "--out", out, "--threads", str(os.cpu_count() or 8)]
        if j.get("steps"): cmd += ["--steps", str(j["steps"])]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget * 3 + 300)
        if p.returncode != 0 or not os.path.exists(out):
            print("ERROR: engine failed on %s: exit %s %s" % (j["label"], p.returncode, p.stderr[-1500:])); return 2
        r = json.load(open(out))
        os.remove(out)
        for k in tot: tot[k] += r[k]
        fns.update(r["functions"])
        # validation: the sampled paths' observations are what the natively compiled code does
        lines = ["%s %d %d %s" % (j["entry"], a, b, s["bytes"]) for s in r["samples"]]
        if lines:
            rc, o, err = native(res["native"], lines, 120)
            k = -1; cur = []
            for l in o.splitlines():
                if l.startswith("CHECK-FAILED"): cur.append(l[13:])
                elif l.startswith("OBS "):
                    k += 1
                    f = l.split()
                    if k < len(r["samples"]):
                        exp = [int(x) for x in r["samples"][k]["obs"]]
                        got = [int(x) for x in f[2:]]
                        validated += 1
                        if int(f[1]) > 0: viol.append((j, lines[k], "check", cur[0] if cur else "?", [], "witness of an explored path fails natively")); 
                        elif exp != got:
                            mism += 1
                            warn.append("%s: observation of the symbolic path differs from the native run (%s): %s / %s" % (j["label"], lines[k], exp[:12], got[:12]))
                    cur = []
            if rc != 0 and k + 1 < len(lines):
                what = confirm(res["native"], lines[k + 1], 1)
                if what: viol.append((j, lines[k + 1], "crash", what, [], what))
        nconf = 0
        for rep in r["reports"]:
            line = "%s %d %d %s" % (j["entry"], a, b, rep["bytes"])
            what = confirm(res["native"], line, REPEAT)
            if what is None:
                unconfirmed.append((j["label"], rep["kind"], rep["msg"], line))
            else:
                nconf += 1
                viol.append((j, line, rep["kind"], rep["msg"], rep["notes"], what))
        ok = r["complete"] and not r["reports"]
        complete &= r["complete"]
        vac = [c for c in j.get("covers", []) if not (r["covers"] >> c) & 1]
        if vac and r["complete"] and not r["reports"]: warn.append("%s: outcomes %s were not reached" % (j["label"], vac))
        jobev.append({"label": j["label"], "entry": j["entry"], "args": [a, b], "bounds": j.get("bounds", ""), "complete_within_bounds": r["complete"], "timed_out": r["timed_out"], "explore_s": round(r["explore_s"], 2), "paths": r["paths"], "forks": r["forks"], "assertions_decided_by_solver": r["checks_symbolic"], "assertions_concrete_on_path": r["checks_concrete"], "solver_queries": r["solver_queries"], "solver_s": round(r["solver_s"], 2), "slowest_query_s": r["solver_slowest_s"], "solver_unknown": r["solver_unknown"], "max_symbolic_bytes": r["max_symbolic_bytes"], "longest_path_instructions": r["max_path_instructions"], "unsupported": r["unsupported"], "outcomes_covered": bin(r["covers"])})
        for s in r["samples"][:2]: samples.append({"job": j["label"], "assignment": s["bytes"], "observations": s["obs"][:16]})
        print("[%s] %-28s paths %d forks %d solver queries %d (%.1fs) assertions %d+%d  %s %.1fs" % (pid, j["label"], r["paths"], r["forks"], r["solver_queries"], r["solver_s"], r["checks_symbolic"], r["checks_concrete"], "complete" if r["complete"] else ("budget exhausted" if r["timed_out"] else "stopped" if r["reports"] else "incomplete: unsupported %s" % r["unsupported"][:2]), r["explore_s"]))
        sys.stdout.flush()
        if viol and not os.environ.get("VERIF_ALL"): break
    new = []
    for v in viol:
        new.append(v)
    repo_fns = sorted(f for f in fns if "hddl_analyzer" in f or "tower_lsp" in f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
            "samples": samples[:8], "exhaustive": bool(complete and not new and not unconfirmed),
            "functions_encoded": len(fns), "functions_encoded_of_repo": demangle(repo_fns)[:400], "jobs": jobev,
            "symbolic_paths": tot["paths"], "pruned_by_assumption": tot["assume_dead"], "assertions_decided_by_solver": tot["checks_symbolic"], "assertions_concrete_on_path": tot["checks_concrete"],
            "solver_queries": tot["solver_queries"], "solver_s": round(tot["solver_s"], 2), "branches_decided_by_domain_propagation": tot["domain_decisions"], "branches_decided_by_witness": tot["witness_hits"], "query_cache_hits": tot["cache_hits"],
            "validation_mismatches": mism, "unconfirmed_counterexamples": len(unconfirmed), "warnings": warn[:20],
            "states_meaning": "states: path prefixes (completed paths + branch points at which both sides are satisfiable); transitions: IR instructions executed symbolically",
            "build_s": round(t_build, 1),
        },
        "assumptions": specs.ASSUMPTIONS + sp.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    try: os.remove(ll)
    except OSError: pass
    for w in warn[:10]: print("WARNING: " + w)
    if new:
        shown = set()
        for (j, line, kind, msg, notes, what) in new:
            key = (kind, msg)
            if key in shown: continue
            shown.add(key)
            path = os.path.join(evdir, "replay-%s-%s.txt" % (pid, hashlib.sha256(line.encode()).hexdigest()[:8]))
            rc, o, err = native(res["native"], [line], 30, verbose=True)
            with open(path, "w") as f:
                f.write("# property %s, %s: %s: %s\n# native: %s\n# replay: echo '%s' | SX_VERBOSE=1 %s\n" % (pid, j["label"], kind, msg, what, line, res["native"]))
                f.write(o + err)
            print("counterexample (%s, %s): %s -- native: %s" % (j["label"], kind, msg, what))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for u in unconfirmed[:5]: print("WARNING: counterexample not reproduced natively, not reported: %s" % (u,))
    if unconfirmed: complete = False
    print("OK property=%s %s in %.0fs (build %.0fs)" % (pid, "held for every value within the bounds" if complete else "held on everything explored", time.time() - t0, t_build))
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit: raise
    except Exception as x:
        import traceback; traceback.print_exc()
        sys.exit(2)
