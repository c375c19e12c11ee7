#!/usr/bin/env python3
"""Prepare an out-of-tree build of the harness inside /repo's module without
touching /repo: a go overlay for the added files and an alternative go.mod
that points asynq at a copy carrying one extra exported helper.
usage: mkoverlay.py OUTDIR   ->  OUTDIR/overlay.json, OUTDIR/go.mod, OUTDIR/go.sum"""
import json, os, sys, subprocess, shutil
H = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("ZZ_REPO", "/repo")
O = os.path.abspath(sys.argv[1])
os.makedirs(O, exist_ok=True)
asynq = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/hibiken/asynq"],
                       cwd=R, capture_output=True, text=True, check=True).stdout.strip()
A = os.path.join(O, "asynq")
shutil.rmtree(A, ignore_errors=True)
shutil.copytree(asynq, A, ignore=shutil.ignore_patterns("*_test.go", "tools", "x", "docs", "example*"))
subprocess.run(["chmod", "-R", "u+w", A], check=True)
for f in os.listdir(os.path.join(H, "asynqx")):
    shutil.copy(os.path.join(H, "asynqx", f), A)
for f in ("go.mod", "go.sum"):
    shutil.copy(os.path.join(R, f), os.path.join(O, f))
with open(os.path.join(O, "go.mod"), "a") as f:
    f.write("\nreplace github.com/hibiken/asynq => %s\n" % A)
rep = {}
for d, dst in (("pgsim", R + "/internal/zzverif/pgsim"), ("cmdtest", R + "/cmd"),
               ("databasex", R + "/database")):
    p = os.path.join(H, d)
    for f in sorted(os.listdir(p)):
        if f.endswith(".go"):
            rep[os.path.join(dst, f)] = os.path.join(p, f)
json.dump({"Replace": rep}, open(os.path.join(O, "overlay.json"), "w"), indent=1)
