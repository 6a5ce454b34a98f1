#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE] [--tier quick|thorough] [--seed N]
Builds the harness against /repo's working tree, drives the generators of one property in parallel streams, merges the
statistics into /verif/evidence/PROPERTY.json. Exit 0: held on everything explored. Exit 1: VIOLATION line printed."""
import os, sys, json, time, subprocess, hashlib, shutil, tempfile, argparse, glob, re, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from table import CHECKS
VERIF = build.VERIF
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=0:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=64:malloc_context_size=12:strict_string_checks=0:print_summary=1:max_malloc_fill_size=0:abort_on_error=0:exitcode=99"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["OPENBLAS_NUM_THREADS"] = "1"; ENV["LC_ALL"] = "C"

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) case=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--replay"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--sub"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--print", action="store_true"); ap.add_argument("--no-evidence", action="store_true"); ap.add_argument("--first", action="store_true")
    a = ap.parse_args()
    prop = a.prop; spec = CHECKS[prop]; tier = "thorough" if a.tier == "thorough" else "quick"; t0 = time.time()
    streams = spec["streams"]            # list of (variant, cases per stream, number of streams)
    variants = []
    for s in streams:
        if s[0] not in variants: variants.append(s[0])
    wants = [("bin", v, spec["files"]) for v in variants]
    if spec.get("tools"): wants.append(("tools",))
    try: built = build.build_many(wants)
    except build.BuildError as e:
        # the tree does not build together with the harness: no verdict is possible
        print("BUILD ERROR\n" + str(e)); return 2
    bins = dict(zip(variants, built)); tools = built[-1] if spec.get("tools") else None
    scratch = tempfile.mkdtemp(prefix="vt-%s-" % prop)
    env = dict(ENV)
    if tools:
        td = os.path.join(scratch, "tools"); os.mkdir(td)
        for n, p in tools.items(): os.symlink(p, os.path.join(td, n))
        env["VT_TOOLS"] = td
    tbuild = time.time() - t0
    try:
        if a.replay:
            info = json.load(open(a.replay)); v = info.get("variant", variants[0])
            if v not in bins: v = variants[0]
            r = subprocess.run([bins[v], "--prop", prop, "--replay", os.path.abspath(a.replay), "--variant", v, "--scratch", scratch + "/s"] + (["--print"] if a.print else []) + (["--thorough"] if info.get("tier") == "thorough" else []), env=env)
            return r.returncode
        jobs = []; k = 0
        rdir = os.path.join(build.BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
        for v, cases, ns, *only in streams:          # optional fields: restriction of the stream to one kind of case, "xl" / "strip" for large inputs
            for i in range(ns):
                tag = v + "".join("/" + o for o in only)
                seed = int.from_bytes(hashlib.sha256(("%s/%d/%s/%d" % (prop, a.seed, tag, i)).encode()).digest()[:8], "big") >> 1
                f = spec.get("thorough", 8) if tier == "thorough" else 1
                n = max(1, int(cases * f * a.scale))
                out = os.path.join(scratch, "out%d.json" % k); rp = os.path.join(rdir, "%s-%s-%d-%d.json" % (prop, tag.replace("/", "-"), a.seed, i))
                if os.path.exists(rp): os.unlink(rp)
                wall = (spec.get("wall", 140) if tier == "quick" else spec.get("twall", 700))
                cmd = [bins[v], "--prop", prop, "--seed", str(seed), "--cases", str(n), "--out", out, "--variant", v, "--scratch", os.path.join(scratch, "s%d" % k), "--replay-out", rp, "--wall", str(wall), "--hang", str(spec.get("hang", 20)), "--shrink", "30" if tier == "quick" else "90"]
                sub = a.sub or next((o for o in only if o not in ("xl", "strip")), None)
                if sub: cmd += ["--sub", sub]
                cmd += ["--" + o for o in only if o in ("xl", "strip")]
                if tier == "thorough": cmd += ["--thorough"]
                jobs.append((v, seed, out, rp, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if a.first else subprocess.PIPE))); k += 1
        if a.first:   # development only: the first stream that fails ends the others
            live = list(jobs)
            while live:
                for j in list(live):
                    if j[4].poll() is not None:
                        live.remove(j)
                        if j[4].returncode != 0:
                            for k2 in live: k2[4].kill()
                            for k2 in live: k2[4].wait()
                            print("VIOLATION (first) %s status %d" % (prop, j[4].returncode)); return 1
                time.sleep(0.05)
            return 0
        res = []
        for v, seed, out, rp, p in jobs:
            err = p.communicate()[1]
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("stream %s/%d ended with status %d: %s" % (v, seed, p.returncode, err.decode(errors="replace")[-1000:])); continue
            res.append(json.loads(open(out, errors="replace").read()))
        if not res: print("no stream gave a result"); return 2
        labels = {}
        for r in res:
            for l, c in r["labels"].items(): labels[l] = labels.get(l, 0) + c
        samples = []
        for i in range(12):
            for r in res:
                if i < len(r["samples"]) and len(samples) < 16 and r["samples"][i] not in samples: samples.append(r["samples"][i])
        fails = [r for r in res if r["failure"]]
        kf = known_findings(prop); unlisted = []; listed = []
        for r in fails:
            hit = [x for x in kf if x[0] == r["failure"]["key"] and re.search(x[1], r["failure"]["case"])]
            (listed if hit else unlisted).append((r, hit))
        cov = {"evaluations": sum(r["evaluations"] for r in res), "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in res),
               "rule": "; ".join(res[0]["rules"]), "samples": samples[:16], "labels": dict(sorted(labels.items())),
               "nontrivial": sum(r["nontrivial"] for r in res), "distinct": sum(r["distinct"] for r in res), "discarded": sum(r["discarded"] for r in res),
               "coverage_guided_mutants": sum(r["mutated"] for r in res), "edges_max": max(r["edges"] for r in res), "schedule_switches": sum(r["switches"] for r in res),
               "streams": [{"variant": r["variant"], "seed": r["seed"], "evaluations": r["evaluations"], "requested": r["requested"], "wall_s": r["wall"], "infra": r["infra"]} for r in res], "build_s": round(tbuild, 1)}
        ev = {"property": prop, "tier": tier, "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(unlisted)}
        if not a.no_evidence:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1fs (build %.1fs)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["discarded"], time.time() - t0, tbuild))
        if a.print: print(json.dumps(cov["labels"], indent=0))
        for r, hit in listed: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
        for q, (r, _) in enumerate(unlisted):
            if q >= 3: print("VIOLATION property=%s replay=%s" % (prop, r["failure"]["replay"])); continue
            f = r["failure"]; print("VIOLATION property=%s replay=%s" % (prop, f["replay"])); print("  [%s] %s: %s\n  case: %s\n  %s" % (r["variant"], f["key"], f["msg"], f["case"][:600], f["log"].replace("\n", "\n  ")[:900]))
        return 1 if unlisted else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
