#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property by symbolic execution + SMT over the current /repo tree.

For every job of the property: compile the harness and the named /repo sources to LLVM bitcode, run the
engine (build/mse) over all feasible paths, replay every counterexample natively (ASan build of the real
code, real C library), and replay sample path models natively to validate the encoding."""
import sys, os, json, subprocess, time, shutil, threading, glob, re, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, V)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = int(os.environ.get("VP_CORES", str(min(8, os.cpu_count() or 8))))
BUDGET = {"quick": 660.0, "thorough": 6 * 3600.0}[TIER if TIER in ("quick", "thorough") else "quick"]
if "VP_BUDGET" in os.environ: BUDGET = float(os.environ["VP_BUDGET"])
T0 = time.time()
CF = "-O1 -Xclang -disable-llvm-passes -g -fwrapv -fno-strict-aliasing -fno-builtin -ffp-contract=off -D__NO_CTYPE -U__SIZEOF_INT128__ -U_FORTIFY_SOURCE -D_GNU_SOURCE -Wno-everything".split()
OPT = "always-inline,internalize,globaldce,function(sroa,early-cse,simplifycfg<sink-common-insts;hoist-common-insts;switch-to-lookup>,instcombine<no-verify-fixpoint>,simplifycfg<sink-common-insts;hoist-common-insts>,early-cse)"
LF = "-fsanitize=address -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -no-pie".split()
NF = "-O1 -g -ffunction-sections -fdata-sections -fsanitize=address -fno-sanitize-recover=all -fsanitize=integer-divide-by-zero -fwrapv -fno-strict-aliasing -ffp-contract=off -fno-omit-frame-pointer -D_GNU_SOURCE -Wno-everything".split()

class Job:
    def __init__(s, name, src, entry=None, defs=(), repo=(), extra=("stubs_log.c",), time=120, procs=4, tiers=("quick", "thorough"),
                 opts=(), reach=("end",), bounds="", incl=()):
        s.name, s.src, s.entry, s.defs, s.repo, s.extra = name, src, entry or "h_" + name, list(defs), list(repo), list(extra)
        s.time, s.procs, s.tiers, s.opts, s.reach, s.bounds, s.incl = time, procs, tiers, list(opts), list(reach), bounds, list(incl)

def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return "timeout", ""

bc_lock = threading.Lock(); bc_cache = {}
def bitcode(work, path, defs):
    key = (path, tuple(defs))
    with bc_lock:
        ev = bc_cache.get(key); mine = ev is None
        if mine: ev = bc_cache[key] = [threading.Event(), None, None]
    if mine:
        out = "%s/%d_%s.bc" % (work, len(bc_cache), os.path.basename(path))
        rc, o = sh(["clang"] + CF + ["-DVP_SE", "-I" + V + "/harness", "-I" + REPO + "/libmseed", "-I" + REPO] + defs + ["-emit-llvm", "-c", path, "-o", out], 300)
        ev[1], ev[2] = (out if rc == 0 else None), o; ev[0].set()
    ev[0].wait()
    return ev[1], ev[2]

def srcs(job):
    return [V + "/harness/" + job.src] + [V + "/harness/" + x for x in job.extra] + [REPO + "/" + (r if "/" in r else "libmseed/" + r) for r in job.repo]

class Tokens:
    def __init__(s, n): s.n, s.c = n, threading.Condition()
    def take(s, k):
        with s.c:
            while s.n < k: s.c.wait()
            s.n -= k
    def give(s, k):
        with s.c: s.n += k; s.c.notify_all()

def merge(parts):
    R = {}
    for p in parts:
        for k, v in p.items():
            if isinstance(v, bool): R[k] = R.get(k, True) and v
            elif isinstance(v, (int, float)): R[k] = max(R.get(k, 0), v) if k in ("wall_s", "max_query_s") else R.get(k, 0) + v
            elif isinstance(v, list): R.setdefault(k, []).extend(x for x in v if x not in R.get(k, []))
            elif v: R[k] = v
    return R

def run_engine(job, work, res, tok):
    p = min(job.procs, CORES); tok.take(p)
    try:
        bcs, err = [], None
        for f in srcs(job) + [V + "/harness/libc_model.c"]:
            b, o = bitcode(work, f, job.defs if f.startswith(V) and not f.endswith("libc_model.c") else [])
            if not b: err = "compile failed: %s: %s" % (f, o[-600:]); break
            bcs.append(b)
        base = "%s/%s" % (work, job.name)
        if not err:
            rc, o = sh(["llvm-link", "--suppress-warnings"] + bcs + ["-o", base + ".link.bc"], 300)
            if rc != 0: err = "link failed: " + o[-600:]
        if not err:
            rc, o = sh(["opt", "-passes=" + OPT, "-internalize-public-api-list=" + job.entry, base + ".link.bc", "-o", base + ".bc"], 300)
            if rc != 0: err = "opt failed: " + o[-600:]
        if err: res["error"] = err; return
        left = BUDGET - (time.time() - T0) - 20
        tl = max(5.0, min(job.time if TIER == "quick" else job.time * 20, left))
        cmd = ["bash", "-c", "ulimit -s unlimited; ulimit -v %d; exec \"$@\"" % (24 << 20), "x", V + "/build/mse", base + ".bc", "--entry", job.entry, "--out", base + ".out", "--time", "%.0f" % tl, "--repo", REPO + "/", "--procs", str(p)] + job.opts
        rc, o = sh(cmd, tl * 1.6 + 60)
        parts = []
        for f in glob.glob(base + ".out*"):
            try: parts.append(json.load(open(f)))
            except Exception as e: res["error"] = "engine output unreadable"
        if rc != 0: res["error"] = "engine ended with %s: %s" % (rc, o[-400:])
        if not parts: res.setdefault("error", "no engine output: " + o[-400:]); return
        res.update(merge(parts))
        want = p > 1 and len(parts) > 1 and len(parts) != p
        if want: res["error"] = "%d of %d workers reported" % (len(parts), p)
        seen, errs = {}, []
        for e in res.get("errors", []):
            key = (e["kind"], e["loc"], e["msg"] if e["kind"] == "assert" else "")
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2: errs.append(e)
        res["errors"] = errs
    finally:
        tok.give(p)

def nobj(work, path, defs):
    key = ("native", path, tuple(defs))
    with bc_lock:
        ev = bc_cache.get(key); mine = ev is None
        if mine: ev = bc_cache[key] = [threading.Event(), None, None]
    if mine:
        out = "%s/n%d_%s.o" % (work, len(bc_cache), os.path.basename(path))
        rc, o = sh(["clang"] + NF + ["-DVP_REPLAY", "-I" + V + "/harness", "-I" + REPO + "/libmseed", "-I" + REPO] + defs + ["-c", path, "-o", out], 300)
        ev[1], ev[2] = (out if rc == 0 else None), o; ev[0].set()
    ev[0].wait()
    return ev[1], ev[2]

def native(job, work):
    exe = "%s/%s.native" % (work, job.name)
    if not os.path.exists(exe):
        objs = []
        for f in [V + "/harness/replay_main.c"] + srcs(job):
            b, o = nobj(work, f, (job.defs + (["-DVP_ENTRY=" + job.entry] if f.endswith("replay_main.c") else [])) if f.startswith(V) else [])
            if not b: return None, o
            objs.append(b)
        rc, o = sh(["clang"] + LF + objs + ["-o", exe, "-lm"], 300)
        if rc != 0: return None, o
    return exe, ""

def play(exe, inputs, fn, tmo=20):
    with open(fn, "w") as f: f.write("\n".join(map(str, inputs)) + "\n")
    for fill in (190, 0, 255):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=86:max_malloc_fill_size=1048576:malloc_fill_byte=%d:allocator_may_return_null=1:detect_stack_use_after_return=0" % fill, UBSAN_OPTIONS="exitcode=86")
        rc, o = sh([exe, fn], tmo, env=env)
        if rc == "timeout" or (rc != 0 and rc != 77): return rc, o
    return rc, o

def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    import jobs
    J = [j for j in jobs.JOBS[pid] if TIER in j.tiers and (not only or re.fullmatch(only, j.name))]
    rc, o = sh([V + "/engine/build.sh"], 900)
    work = "%s/build/work/%s.%d" % (V, pid, os.getpid()); os.makedirs(work)
    rep = "%s/evidence/replay/%s" % (V, pid)
    if os.path.isdir(rep): shutil.rmtree(rep)
    os.makedirs(V + "/evidence", exist_ok=True)
    tok = Tokens(CORES); R = {j.name: {} for j in J}; th = []
    for j in sorted(J, key=lambda j: -j.time * j.procs):
        t = threading.Thread(target=run_engine, args=(j, work, R[j.name], tok)); t.start(); th.append(t)
    for t in th: t.join()
    known = []
    if os.path.exists(V + "/known_findings.jsonl"):
        known = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
        known = [k for k in known if k.get("property") == pid and k.get("status") == "open"]
    viol, notes, samples, validated = [], [], [], 0
    for j in J:
        r = R[j.name]
        if r.get("error"): notes.append("%s: %s" % (j.name, r["error"]))
        if not r.get("paths") and not r.get("errors"): notes.append(j.name + ": no path completed")
        miss = [x for x in j.reach if x not in r.get("reached", [])]
        if miss: notes.append("%s: VACUITY: not reached: %s" % (j.name, miss))
        if not r.get("complete"): notes.append("%s: exploration incomplete (%s; %s)" % (j.name, r.get("why", ""), "; ".join(r.get("unsupported", [])[:5])))
        todo = [("error", e) for e in r.get("errors", [])] + [("sample", s) for s in r.get("samples", [])[:6]]
        done = set()
        for k, (typ, e) in enumerate(todo):
            key = (typ, e["kind"], e["loc"], e["msg"] if e["kind"] == "assert" else "") if typ == "error" else None
            if key and key in done: continue
            if time.time() - T0 > BUDGET + 150: notes.append(j.name + ": replay time exhausted"); break
            exe, o = native(j, work)
            if not exe: notes.append("%s: native build failed: %s" % (j.name, o[-300:])); break
            fn = "%s/%s.in%d" % (work, j.name, k)
            inputs = e["inputs"] if typ == "error" else e
            rc, o = play(exe, inputs, fn)
            bad = rc == "timeout" or rc not in (0, 77)
            if typ == "sample":
                if rc == 0: validated += 1; samples.append({"job": j.name, "inputs": inputs[:40], "native": "agrees"}); continue
                if rc == 77: notes.append(j.name + ": a path model does not satisfy the harness assumptions natively"); continue
                e = {"kind": "native", "msg": "path model fails natively", "loc": "?", "stack": "", "inputs": inputs}
            desc = "%s in %s: %s [%s]" % (e["kind"], j.name, e["msg"], e["loc"])
            if not bad: notes.append("not reproduced natively (not reported): " + desc); continue
            fnname = e["loc"].rsplit(":", 1)[-1]
            kn = [x for x in known if re.fullmatch(x["job"], j.name) and x["kind"] == e["kind"] and x["function"] == fnname and re.search(x["msg"], e["msg"])]
            if kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[0]["what"])); continue
            d = "%s/%s-%d" % (rep, j.name, k); os.makedirs(d)
            shutil.copy(fn, d + "/inputs.txt")
            with open(d + "/info.txt", "w") as f: f.write("%s\nstack: %s\nnative exit: %s\n%s\n" % (desc, e["stack"], rc, o[-6000:]))
            with open(d + "/run.sh", "w") as f:
                f.write("#!/bin/bash\n# rebuilds the harness with the real code and replays the counterexample (exit 42: assertion, 86: sanitizer)\nt=$(mktemp -d); clang %s -DVP_REPLAY -DVP_ENTRY=%s -I%s/harness -I%s/libmseed -I%s %s %s/harness/replay_main.c %s -o $t/x -fsanitize=address -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -no-pie -lm && ASAN_OPTIONS=detect_leaks=0:exitcode=86 timeout 30 $t/x \"$(dirname \"$0\")/inputs.txt\"; r=$?; rm -r \"$t\"; exit $r\n" % (" ".join(NF), j.entry, V, REPO, REPO, " ".join("'%s'" % x for x in j.defs), V, " ".join(srcs(j))))
            viol.append((desc, d + "/run.sh")); done.add(key)
    tot = lambda k: sum(R[j.name].get(k, 0) or 0 for j in J)
    fns = sorted({f for j in J for f in R[j.name].get("functions", [])})
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
          "coverage": {"states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples[:6] or [{"none": "no completed path"}],
                       "explanation": "states = symbolic paths explored to their end (each covers every input value satisfying its path condition); transitions = instructions executed symbolically; traces_validated = solver models of completed paths whose native replay (ASan, real libc) agreed",
                       "functions_encoded": fns, "queries_discharged": tot("queries"), "queries_answered_from_cache": tot("cachehits"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
                       "assertions_checked": tot("asserts"), "memory_accesses_checked": tot("memchecks"), "all_jobs_complete": all(R[j.name].get("complete") for j in J),
                       "jobs": [{"job": j.name, "bounds": j.bounds, "paths": R[j.name].get("paths"), "complete": R[j.name].get("complete"), "wall_s": R[j.name].get("wall_s"), "solver_s": R[j.name].get("solver_s"), "queries": R[j.name].get("queries")} for j in J],
                       "notes": notes},
          "assumptions": jobs.ASSUME + jobs.ASSUME_PER.get(pid, []), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    with open("%s/evidence/%s.json" % (V, pid), "w") as f: json.dump(ev, f, indent=1)
    for n in notes: print("note:", n)
    print("%s: %d jobs, %d paths, %d queries (%.1fs solver), %d native validations, %.1fs" % (pid, len(J), tot("paths"), tot("queries"), tot("solver_s"), validated, time.time() - T0))
    if os.environ.get("VP_KEEP"): print("work dir", work)
    else: shutil.rmtree(work)
    for d, p in viol:
        print(d); print("VIOLATION property=%s replay=%s" % (pid, p))
    sys.stdout.flush()
    dead = [j.name for j in J if not R[j.name].get("paths") and not R[j.name].get("errors")]
    os._exit(1 if viol else 2 if len(dead) == len(J) else 0)
if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); os._exit(2)
