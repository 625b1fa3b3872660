#!/usr/bin/env python3
"""Builds all workers once, so that the Go build cache is warm."""
import os, shutil, sys, tempfile
sys.argv = [sys.argv[0], "--setup"]
import run  # noqa: E402
env = run.go_env()
base = os.path.join(run.ROOT, ".build")
os.makedirs(base, exist_ok=True)
tmp = tempfile.mkdtemp(dir=base)
try:
    done = set()
    for p in run.PROPS.values():
        for part in p["parts"]:
            key = (part["cmd"], part.get("race", False), part.get("goarch"), part.get("test", False))
            if key not in done:
                done.add(key)
                run.build(tmp, part["cmd"], part.get("race", False), env, part.get("goarch"), part.get("test", False))
                print("built", key, flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
