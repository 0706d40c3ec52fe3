#!/usr/bin/env python3
"""Driver: compile the monitors of one property against /repo's working tree, run them under
sanitizers, match violations against known_findings.json, write the evidence file.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--keep]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
import argparse, fnmatch, json, os, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
from checks import CHECKS

DEFS = ("-DHAVE_ARPACKPP=1 -DHAVE_CONFIG_H -DHAVE_GMP=1 -DHAVE_METIS=1 -DHAVE_MPI=1 -DHAVE_PARMETIS=1 -DHAVE_QUADMATH=1 "
 "-DHAVE_SUITESPARSE_AMD=1 -DHAVE_SUITESPARSE_BTF=1 -DHAVE_SUITESPARSE_CAMD=1 -DHAVE_SUITESPARSE_CCOLAMD=1 -DHAVE_SUITESPARSE_CHOLMOD=1 "
 "-DHAVE_SUITESPARSE_COLAMD=1 -DHAVE_SUITESPARSE_KLU=1 -DHAVE_SUITESPARSE_LDL=1 -DHAVE_SUITESPARSE_SPQR=1 -DHAVE_SUITESPARSE_UMFPACK=1 "
 "-DHAVE_SUPERLU=1 -DMETIS_API_VERSION=5 -DMPICH_SKIP_MPICXX=1 -DMPIPP_H -DMPI_NO_CPPBIND=1 -DOMPI_SKIP_MPICXX=1 "
 "-D_GLIBCXX_USE_FLOAT128 -D_MPICC_H").split()
MPIINC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
INC = ["-I" + REPO, "-I" + VERIF + "/harness", "-I" + VERIF + "/harness/cfg", "-isystem", "/opt/dune/prefix/include", "-isystem", "/usr/include/superlu",
       "-isystem", "/usr/include/suitesparse", "-isystem", MPIINC, "-isystem", MPIINC + "/openmpi", "-isystem", "/usr/include/arpack++"]
LIBS = ("/opt/dune/prefix/lib/libdunecommon.a -larpack++ -larpack -lsuperlu -lparmetis -lmetis -lgmpxx -lgmp -lopenblas -ltbb -lldl -lspqr -lumfpack "
        "-lcholmod -lamd -lcolamd -lcamd -lccolamd -lsuitesparseconfig -lquadmath /usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so -lpthread").split()
BASE = ["-std=gnu++20", "-fext-numeric-literals", "-w", "-fmax-errors=5", "-pipe"]
SAN = {
 "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
 "asan0": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
 # address only (large template instantiations: the undefined-behaviour checks double compile time)
 "asanonly": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
 "tsan": ["-O1", "-g1", "-fsanitize=thread"],
 "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = dict(os.environ)
ENV.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_plm": "isolated",
 "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
 "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_orte_tmpdir_base": "",
 "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
 "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:handle_abort=1",
 "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4"})

class Err(Exception): pass

def compile_one(run, wd):
    exe = os.path.join(wd, run["name"])
    cmd = ["g++"] + BASE + SAN[run.get("san", "asan")] + DEFS + run.get("flags", []) + INC + [os.path.join(VERIF, "harness", run["src"]), "-o", exe] + LIBS
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV)
    if p.returncode != 0:
        raise Err("compile of %s failed:\n%s" % (run["src"], p.stdout[-6000:]))
    return exe, time.time() - t

def run_one(run, exe, wd, tier, seed, jobs):
    """returns list of output records"""
    recs = []
    scratch = os.path.join(wd, run["name"] + ".d"); os.makedirs(scratch, exist_ok=True)
    out = os.path.join(wd, run["name"] + ".jsonl")
    env = dict(ENV); env["TMPDIR"] = scratch; env["OMPI_MCA_orte_tmpdir_base"] = scratch; env["VERIF_SEED"] = str(seed); env["VERIF_TIER"] = tier
    env.update(run.get("env", {}))
    kind = run.get("kind", "vh")
    if kind == "vh":
        cmd = [exe, "--seed", str(seed), "--jobs", str(jobs), "--out", out, "--hang", str(run.get("hang", 60))] + (["--thorough"] if tier == "thorough" else ["--scale", str(run.get("scale", 1))])
        lim = run.get("limit", 700 if tier == "quick" else 6 * 3600)
        rc, txt = execute(cmd, scratch, env, lim)
        if rc is None: raise Err("%s ran out of its time limit (inconclusive)" % run["name"])
        recs = read(out)
        if rc != 0: raise Err("%s ended with status %s\n%s" % (run["name"], rc, txt[-3000:]))
        return recs
    if kind == "mpi":
        for np in run["np"][tier] if isinstance(run["np"], dict) else run["np"]:
            o = out + ".np%d" % np
            for attempt in (1, 2):
                for f in os.listdir(wd):
                    if f.startswith(os.path.basename(o)): os.unlink(os.path.join(wd, f))
                e = dict(env)
                cmd = ["mpirun", "-np", str(np), exe, "--seed", str(seed), "--out", o] + (["--thorough"] if tier == "thorough" else [])
                rc, txt = execute(cmd, scratch, e, run.get("limit", 240 if tier == "quick" else 3600))
                rs = []
                for r in range(np): rs += read(o + ".%d" % r)
                if rc == 0 and sum(1 for x in rs if x["t"] == "done") == np: break
                viol = [x for x in rs if x["t"] == "viol"]
                if viol: break
                if rc is not None and attempt == 1 and not is_report(txt): continue   # not explained: once more
                if rc is None and attempt == 1: continue                               # hang: inconclusive, once more
            else:
                pass
            done = sum(1 for x in rs if x["t"] == "done")
            if done != np and not [x for x in rs if x["t"] == "viol"]:
                at = "; ".join(sorted(set(x.get("group", "?") for x in rs if x["t"] == "at")) ) if rs else "?"
                last = {}
                for r in range(np):
                    for x in read(o + ".%d" % r):
                        if x["t"] == "at": last[r] = x
                l = next(iter(last.values()), {"group": "?", "case": -1, "desc": ""})
                rs.append({"t": "viol", "group": l["group"], "case": l["case"], "np": np, "key": "%s/%s" % (l["group"], "hang" if rc is None else "crash"),
                           "detail": ("deadlock or no progress, twice" if rc is None else "abnormal end") + "\n" + report(txt), "desc": l.get("desc", "")})
            for x in rs: x.setdefault("np", np)
            recs += rs
        return recs
    raise Err("unknown kind " + kind)

def is_report(txt): return "AddressSanitizer" in txt or "runtime error:" in txt or "Assertion" in txt
def report(txt):
    for k in ("runtime error:", "ERROR: AddressSanitizer", "Assertion", "terminate called"):
        i = txt.find(k)
        if i >= 0: return txt[max(0, i - 300):i + 2500]
    return txt[-2500:]

def execute(cmd, cwd, env, limit):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    buf = []
    def rd():
        n = 0
        for l in p.stdout:
            if n < 4_000_000: buf.append(l); n += len(l)
    th = threading.Thread(target=rd, daemon=True); th.start()
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        rc = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait(); th.join(5)
    return rc, b"".join(buf).decode(errors="replace")

def read(path):
    r = []
    if not os.path.exists(path): return r
    with open(path, errors="replace") as f:
        for l in f:
            try: r.append(json.loads(l))
            except ValueError: pass
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--keep", action="store_true"); ap.add_argument("--only")
    a = ap.parse_args(); prop = a.property; tier = "thorough" if a.tier == "thorough" else "quick"
    spec = CHECKS[prop]; t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir="/tmp")
    os.chmod(wd, 0o755)
    runs = [dict(r) for r in spec["runs"] if (tier == "thorough" or not r.get("thorough_only")) and (not a.only or r["name"] == a.only)]
    ncpu = os.cpu_count() or 4
    records = []; errors = []; times = {}
    lock = threading.Lock()
    running = [0]
    def work(run):
        try:
            exe, ct = compile_one(run, wd)
            t = time.time()
            if run.get("kind") == "mpi":
                with mpilock: rs = run_one(run, exe, wd, tier, a.seed, 1)
            else:
                rs = run_one(run, exe, wd, tier, a.seed, run.get("jobs", max(2, ncpu // max(1, len(runs)))))
            with lock:
                times[run["name"]] = {"compile_s": round(ct, 1), "run_s": round(time.time() - t, 1)}
                for r in rs: r["run"] = run["name"]
                records.extend(rs)
            os.unlink(exe)
        except Err as e:
            with lock: errors.append(str(e))
        except Exception as e:
            with lock: errors.append("%s: %r" % (run["name"], e))
    mpilock = threading.Semaphore(1)
    with ThreadPoolExecutor(max_workers=ncpu) as ex:
        list(ex.map(work, runs))
    # -- aggregate
    evaluations = sum(r["cases"] for r in records if r["t"] == "n")
    events = sum(r.get("events", 0) for r in records if r["t"] == "n")
    distinct = len({(r["run"].split("@")[0], r["h"]) for r in records if r["t"] == "s"})
    samples = [r["s"] for r in records if r["t"] == "sample"]
    bygroup = {}
    for r in records:
        if r["t"] == "n": bygroup[r["run"] + ":" + r["group"]] = bygroup.get(r["run"] + ":" + r["group"], 0) + r["cases"]
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == prop and k["status"] == "open"]
    viols = [r for r in records if r["t"] == "viol"]
    new, hit = [], {}
    for v in viols:
        m = [k for k in known if any(fnmatch.fnmatchcase(v["key"], p) for p in k["keys"]) and (("match" not in k) or k["match"] in v.get("detail", "") + v.get("desc", ""))]
        if m: hit.setdefault(m[0]["id"], v)
        else: new.append(v)
    for k in known:
        if k["id"] in hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif not errors and (tier == "quick" or True): print("note: known finding %s was not observed in this run" % k["id"])
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples[:12] if len(samples) <= 12 else [samples[i * len(samples) // 12] for i in range(12)],
                       "oracle_checks": events, "cases_by_group": bygroup, "sanitizers": sorted({r.get("san", "asan") for r in runs}), "timing": times,
                       "inconclusive_cases_rerun": sum(1 for r in records if r["t"] == "inconclusive")},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    seen = set()
    if new:
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new):
            if v["key"] in seen or len(seen) >= 10: continue
            seen.add(v["key"])
            path = os.path.join(rd, "%s-%d.json" % (prop, len(seen)))
            run = next((r for r in runs if r["name"] == v["run"]), {})
            v["replay"] = "python3 %s/replay.py %s" % (VERIF, path); v["seed"] = a.seed; v["tier"] = tier; v["property"] = prop
            with open(path, "w") as f: json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s run=%s case=%s\n  %s\n  case: %s" % (v["key"], v["run"], v.get("case"), v.get("detail", "")[:1200], v.get("desc", "")[:600]))
    if not a.keep: shutil.rmtree(wd, ignore_errors=True)
    else: print("kept", wd)
    for e in errors: print("ERROR:", e)
    print("%s %s: %d cases, %d oracle checks, %d distinct, %d violations, %.0f s" % (prop, tier, evaluations, events, distinct, len(new), time.time() - t0))
    if os.environ.get("VERIF_TIMES"): print(json.dumps(times, indent=1))
    if new: return 1
    if errors: return 2
    if evaluations == 0 or distinct < spec.get("min_distinct", 10): print("ERROR: observed too little"); return 2
    return 0
if __name__ == "__main__": sys.exit(main())
