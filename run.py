#!/usr/bin/env python3
"""run.py <property> [quick|thorough] -- decide one property.  See DESIGN.md."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import sx
from checks import CHECKS


def known():
    p = os.path.join(sx.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def replay(B, h, viol, tmo=40):
    """run the counterexample against the plain build of the real code; True if it shows"""
    memory = viol["kind"] in ("memory", "crash")
    vals = ",".join(str(v[2]) for v in viol["vals"])
    for san in (("", "asan") if memory else ("",)):
        exe = B.build_native(h["src"], h["flags"], h["lib"], san)
        d = tempfile.mkdtemp(prefix="sxr-")
        env = dict(os.environ, SX_INPUT=vals, ASAN_OPTIONS="exitcode=43:detect_leaks=0:detect_stack_use_after_return=0")
        try:
            p = subprocess.run([exe], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo)
            rc, out = p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, out = None, ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            if viol["kind"] == "timeout":
                return True, "did not terminate in %d s" % tmo
            continue
        if viol["kind"] == "assert":
            if rc == 42:
                m = re.findall(r"SXREPLAY assert: (.*)", out)
                return True, "assertion failed: " + (m[-1] if m else "?") + "\n" + out[-3000:]
            if rc < 0 or rc == 43:
                return True, "process died (%d)\n%s" % (rc, out[-3000:])
        elif viol["kind"] == "exit":
            if rc not in (0, 40, 42):
                return True, "exit code %d\n%s" % (rc, out[-3000:])
        elif viol["kind"] != "timeout":
            if rc < 0 or rc in (42, 43):
                return True, "process died (%d)\n%s" % (rc, out[-3000:])
    return False, "rc=%s\n%s" % (rc, out[-2000:])


def setup():
    """compile the engine once, to show that the toolchain is there (every check builds for itself)"""
    d = tempfile.mkdtemp(prefix="sx-setup-")
    sx.CACHE = d
    try:
        B = sx.Build()
        exes = B.build([("h_cont", ["-DWHICH=1", "-DSX_TIER=0"], "none")])
        r = sx.run_exe(exes[0], os.path.join(d, "o.json"), 20)
        print("engine self-test: paths %d, assertions %d, violations %d" % (r["paths"], r["asserts_checked"], len(r["violations"])))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    C = CHECKS[prop]
    t0 = time.time()
    hs = []
    for h in C["harnesses"]:
        if only and h["name"] != only:
            continue
        if tier == "quick" and h.get("thorough_only"):
            continue
        h = dict(h)
        fl = h.get("flags", []) + ["-DSX_TIER=%d" % (1 if tier == "thorough" else 0)]
        h["flags"] = fl
        h["src"] = h.get("src", h["name"])
        h["lib"] = h.get("lib", "full")
        h["budget"] = h.get("budget", {}).get(tier, {"quick": 60, "thorough": 900}[tier])
        hs.append(h)
    work = tempfile.mkdtemp(prefix="sx-" + prop + "-")
    status = 0
    try:
        B = sx.Build()
        exes = B.build([(h["src"], h["flags"], h["lib"]) for h in hs])
        tb = time.time() - t0
        parts, viols, suppressed, funcs, samples = [], [], [], set(), []
        for i, h in enumerate(hs):
            out = os.path.join(work, h["name"] + ".json")
            try:
                r = sx.run_exe(exes[i], out, h["budget"], env={"SX_XCHECK": "1"} if tier == "thorough" else None)
            except sx.BuildError as e:
                # died before the symbolic part: does the plain build, too?
                print("%s/%s: %s" % (prop, h["name"], e))
                viols.append((h, {"kind": "crash", "msg": "the harness ends before its first symbolic input", "note": str(e)[-600:], "vals": []}))
                continue
            fn = sx.functions_of(exes[i], r.pop("pcs"))
            funcs.update(fn)
            missing = [l for l in h.get("reach", []) if l not in r["reach"]]
            parts.append({"harness": h["name"], "bounds": h.get("bounds", {}).get(tier) if isinstance(h.get("bounds"), dict) else h.get("bounds", ""),
                          "paths": r["paths"], "completed": r["ok"], "assumption_pruned": r["assumed"], "error_exits": r["exits"],
                          "timeouts": r["timeouts"], "diverged": r["diverged"], "queries": r["q"], "z3_sat": r["qsat"], "z3_unsat": r["qunsat"], "finite_domain_sat": r["fastsat"] + r["fdsat"],
                          "finite_domain_unsat": r["fastunsat"] + r["fdunsat"], "solver_unknown": r["qunk"], "symbolic_branches": r["events"],
                          "assertions": r["asserts_checked"], "assertions_symbolic": r["asserts_sym"], "assertions_proved_unsat": r["asserts_unsat"], "output_bytes_proved_over_domain": r.get("domvalid", 0),
                          "solver_s": r["solver_s"], "wall_s": r["wall_s"], "exhaustive_within_bounds": r["exhaustive"],
                          "unexplored_frontier": r["frontier_left"], "concretised": r["reasons"], "reached": r["reach"], "witness_missing": missing,
                          "functions_encoded": len(fn)})
            print("%s/%s: paths %d ok %d exits %d diverged %d timeouts %d queries %d solver %.1fs wall %.1fs %s%s" % (
                prop, h["name"], r["paths"], r["ok"], r["exits"], r["diverged"], r["timeouts"], r["q"], r["solver_s"], r["wall_s"],
                "exhaustive" if r["exhaustive"] else "PARTIAL(frontier %d)" % r["frontier_left"],
                (" MISSING " + ",".join(missing)) if missing else ""))
            if r["reasons"]:
                print("   ", json.dumps(r["reasons"])[:600])
            for s in r["samples"][:3]:
                samples.append({"harness": h["name"], "note": s["note"], "inputs": [[v[0], v[2]] for v in s["vals"]][:64]})
            for v in r["violations"]:
                viols.append((h, v))
            if r["asserts_checked"] == 0 and not r["violations"]:
                print("%s/%s: no assertion was reached" % (prop, h["name"]))
                status = max(status, 2)
        kf = [k for k in known() if k["property"] == prop]
        confirmed = []
        unconfirmed = 0
        seenk = set()
        for h, v in viols:
            hit = None
            for k in kf:
                if k.get("harness", h["name"]) == h["name"] and re.search(k["match"], v["msg"] + " | " + v["note"], re.S):
                    hit = k
                    break
            if hit:
                suppressed.append(hit["id"])
                if hit["id"] not in seenk:
                    seenk.add(hit["id"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
                continue
            if len(confirmed) >= 2 or len([1 for c in confirmed if c[1]["msg"] == v["msg"]]) >= 1 or unconfirmed >= 6:
                continue
            ok, txt = replay(B, h, v)
            if ok:
                confirmed.append((h, v, txt))
            else:
                unconfirmed += 1
                print("unconfirmed candidate (%s: %s), not reported: %s" % (v["kind"], v["msg"], v["note"][:300]))
                print("   ", [x[2] for x in v["vals"]], txt[:600].replace("\n", "\\n"))
        # every listed finding is announced, whether or not this run met it again
        for k in kf:
            if k["id"] not in seenk:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        ev = os.path.join(sx.VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for n, (h, v, txt) in enumerate(confirmed):
            rp = os.path.join(ev, "replay-%s-%d.json" % (prop, n))
            json.dump({"property": prop, "harness": h["name"], "kind": v["kind"], "assertion": v["msg"], "note": v["note"],
                       "inputs": v["vals"], "SX_INPUT": ",".join(str(x[2]) for x in v["vals"]), "replay_output": txt}, open(rp, "w"), indent=1)
            print("   %s %s: %s" % (v["kind"], v["msg"], v["note"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            status = 1
        cov = {
            "states": sum(p["paths"] for p in parts),
            "transitions": sum(p["symbolic_branches"] for p in parts),
            "traces_validated_against_impl": sum(p["completed"] for p in parts),
            "samples": samples[:12],
            "exhaustive": all(p["exhaustive_within_bounds"] for p in parts),
            "explanation": "concolic/symbolic execution of the compiled IR of the real code; states = paths executed, transitions = symbolic branch "
                           "decisions put to the solver or its exact 8-bit fragment, traces_validated = paths run to their end on the real code with every assertion checked",
            "queries": sum(p["queries"] for p in parts),
            "solver_s": round(sum(p["solver_s"] for p in parts), 3),
            "functions_encoded": sorted(funcs)[:400],
            "functions_encoded_count": len(funcs),
            "parts": parts,
            "build_s": round(tb, 1),
            "unconfirmed_candidates": unconfirmed,
            "known_findings_met": sorted(set(suppressed)),
        }
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": C.get("level", "model_checking"),
                   "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
                   "assumptions": C.get("assumptions", [])}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
        B.prune()
        print("%s %s: %s in %.0fs (build %.0fs)" % (prop, tier, {0: "held on everything explored", 1: "VIOLATED", 2: "no answer"}[status], time.time() - t0, tb))
    except Exception as e:
        traceback.print_exc()
        status = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(status)


if __name__ == "__main__":
    main()
