#!/usr/bin/env python3
"""Runs the one case recorded in a replay file again (same build, seed and case) and prints what the monitor says.
usage: replay.py evidence/replay/<file>.json"""
import json, os, shutil, subprocess, sys, tempfile
sys.argv, args = [sys.argv[0]], sys.argv[1:]
import check_lib as cl
v = json.load(open(args[0])); prop = v["property"]
run = next(r for r in cl.CHECKS[prop]["runs"] if r["name"] == v["run"])
wd = tempfile.mkdtemp(prefix="replay-")
try:
    exe, _ = cl.compile_one(run, wd)
    env = dict(cl.ENV); env.update({"TMPDIR": wd, "VERIF_SEED": str(v["seed"]), "OMPI_MCA_orte_tmpdir_base": wd}); env.update(run.get("env", {}))
    th = ["--thorough"] if v.get("tier") == "thorough" else []
    if run.get("kind") == "mpi":
        cmd = ["mpirun", "-np", str(v["np"]), exe, "--seed", str(v["seed"]), "--out", wd + "/o", "--only", v["group"], "--case", str(v["case"])] + th
    else:
        cmd = [exe, "--seed", str(v["seed"]), "--only", v["group"], "--case", str(v["case"])] + th
    print(" ".join(cmd)); rc = subprocess.call(cmd, cwd=wd, env=env)
    for f in sorted(os.listdir(wd)):
        if f.startswith("o."): print(f, open(wd + "/" + f).read())
    print("status", rc)
finally:
    shutil.rmtree(wd, ignore_errors=True)
