# development helper: compile and run one run of a check, print a digest.  dev.py RUN [seed] [tier] [--nobuild]
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check_lib as L, checks
name = sys.argv[1]; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
wd = "/tmp/w/dev"; os.makedirs(wd, exist_ok=True)
for cid, c in checks.CHECKS.items():
    for r in c["runs"]:
        if r["name"] == name:
            exe = os.path.join(wd, name)
            if "--nobuild" not in sys.argv:
                try: exe, t = L.compile_one(r, wd); print("compiled %.1fs" % t)
                except L.Err as e:
                    import re; print("\n".join([l[:300] for l in str(e).split("\n") if re.search("error|required from here", l)][:12])); sys.exit(1)
            import time; t = time.time()
            recs = L.run_one(r, exe, wd, tier, seed, 8)
            n = collections.Counter(); v = collections.OrderedDict(); cases = ev = 0; sigs = set()
            for x in recs:
                n[x["t"]] += 1
                if x["t"] == "n": cases += x["cases"]; ev += x["events"]
                if x["t"] == "s": sigs.add(x["h"])
                if x["t"] == "viol": v.setdefault(x["key"], []).append(x)
            print("ran %.1fs" % (time.time() - t), dict(n), "cases", cases, "events", ev, "sigs", len(sigs))
            for k, xs in v.items(): print("VIOL", k, "x%d" % len(xs), "case", xs[0]["case"], "|", xs[0]["detail"][:int(os.environ.get("DL", "400"))], "|", xs[0].get("desc", "")[:300])
