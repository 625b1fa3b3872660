#!/usr/bin/env python3
"""Driver: python3 run.py ID [--replay FILE] [--tier quick|thorough] [--seed N]

Builds the worker for property ID from /repo's working tree, runs it in shards,
merges what the monitors observed, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict.
"""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

SHARDS = 8
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


def say(*a):
    print(*a, flush=True)


def go_env():
    env = dict(os.environ)
    for d in ("/usr/local/bin", "/opt/veriftools/go1.27.3/bin"):
        if os.path.isdir(d) and d not in env.get("PATH", "").split(":"):
            env["PATH"] = env.get("PATH", "/usr/bin:/bin") + ":" + d
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOTELEMETRY="off")
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GOGC", "GOMEMLIMIT", "GOTRACEBACK", "GORACE", "GOMAXPROCS"):
        env.pop(k, None)
    return env


def find_go(env):
    for cand in ("/opt/veriftools/go1.27.3/bin/go",):
        if os.path.exists(cand):
            return cand
    return shutil.which("go", path=env["PATH"]) or "go"


class Inconclusive(Exception):
    pass


def build(tmp, cmd, race, env, goarch=None, test=False):
    out = os.path.join(tmp, "worker-" + cmd + ("-race" if race else "") + ("-" + goarch if goarch else ""))
    args = [find_go(env)] + (["test", "-c"] if test else ["build"]) + ["-o", out]
    if race:
        args.insert(2, "-race")
    env = dict(env)
    env["CGO_ENABLED"] = "1" if race else "0"
    if goarch:
        env["GOARCH"] = goarch
    p = subprocess.run(args + ["./cmd/" + cmd], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Inconclusive("build failed:\n" + p.stdout[-4000:])
    return out


def limits(race, gb=8):
    def f():
        os.setsid()
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def read(path, n=400000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def run_part(tmp, prop, part, tier, seed, env, only=None):
    """Run one part (a worker configuration) and return merged results."""
    race = part.get("race", False)
    worker = build(tmp, part["cmd"], race, env, part.get("goarch"), part.get("test", False))
    shards = 1 if only else part.get("shards", SHARDS)
    procs = []
    for i in range(shards):
        out = os.path.join(tmp, "%s-%s-%d" % (part["cmd"], part.get("name", ""), i))
        args = [worker, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(i), "-shards", str(shards), "-out", out]
        scale = part.get("scale", 1) if tier == "quick" else part.get("tscale", part.get("scale", 1))
        args += ["-scale", str(scale)]
        if part.get("name"):
            args += ["-part", part["name"]]
        if only:
            args += ["-group", only["group"], "-case", str(only["case"])]
        e = dict(env)
        e["GOMAXPROCS"] = str(part.get("procs", 2))
        e["GOTRACEBACK"] = "all" if race else "single"
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        for k, v in part.get("env", {}).items():
            e[k] = v
        err = open(out + ".stderr", "wb")
        procs.append((i, out, subprocess.Popen(args, cwd=tmp, env=e, stdout=err, stderr=err, preexec_fn=limits(race, part.get("as_gb", 8)), stdin=subprocess.DEVNULL)))
        err.close()
    res = dict(evaluations=0, counters={}, maxima={}, samples=[], violations=[], errors=[], hashes=set())
    end = time.time() + DEADLINE[tier]
    for i, out, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            # No verdict from wall-clock time: the dump may still show a
            # genuine hang, but the case watchdog decides that, not we.
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            res["errors"].append("shard %d: deadline" % i)
            continue
        collect(res, i, out, p.returncode, race, part)
    return res


CRASH = re.compile(r"fatal error: |^panic: |runtime: goroutine stack exceeds|WARNING: DATA RACE|WATCHDOG-|unexpected fault address|SIGSEGV", re.M)


def collect(res, i, out, rc, race, part):
    err = read(out + ".stderr")
    data = None
    if os.path.exists(out + ".json"):
        try:
            data = json.loads(read(out + ".json", 1 << 26))
        except ValueError:
            pass
    if data is None or not data.get("done"):
        j = read(out + ".journal").replace("\0", " ").split()
        group, case = (j[0], int(j[1])) if len(j) >= 2 else ("", -1)
        if CRASH.search(err) and "/repo/" in err:
            m = CRASH.search(err)
            first = err[m.start():].split("\n", 1)[0]
            if "DATA RACE" in first:
                first = "data race: " + " / ".join(re.findall(r"^  (github\.com/itstarsun/go-thrift/(?!xverif)\S+)\(", err[m.start():], re.M)[:4])
            res["violations"].append(dict(group=group, case=case, msg="process died: " + first, detail=err[:20000], part=part))
        elif rc == -signal.SIGKILL:
            res["errors"].append("shard %d was killed (memory?)" % i)
        else:
            res["errors"].append("shard %d exit %d: %s" % (i, rc, err[-3000:]))
        return
    res["evaluations"] += data["evaluations"]
    for k, v in (data["counters"] or {}).items():
        res["counters"][k] = res["counters"].get(k, 0) + v
    for k, v in (data["maxima"] or {}).items():
        res["maxima"][k] = max(res["maxima"].get(k, 0), v)
    res["samples"] += data["samples"] or []
    for v in data["violations"] or []:
        v["part"] = part
        res["violations"].append(v)
    res["errors"] += data["errors"] or []
    if rc not in (0, 1, 3):
        res["errors"].append("shard %d exit %d: %s" % (i, rc, err[-3000:]))
    try:
        with open(out + ".hashes", "rb") as f:
            b = f.read()
        res["hashes"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
    except OSError:
        pass


def known_findings(prop):
    out = {}
    for line in read(os.path.join(ROOT, "known_findings.txt")).splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in DEADLINE:
        a.tier = "quick"
    spec = PROPS[a.prop]
    t0 = time.time()
    env = go_env()
    base = os.path.join(ROOT, ".build")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=a.prop + "-", dir=base)
    try:
        rc = check(a, spec, env, tmp, t0)
    except Inconclusive as e:
        say("INCONCLUSIVE property=%s %s" % (a.prop, e))
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            os.rmdir(base)
        except OSError:
            pass
    sys.exit(rc)


def check(a, spec, env, tmp, t0):
    only = None
    parts = list(spec["parts"])
    if a.tier == "thorough":
        parts += spec.get("thorough_parts", [])
    if a.replay:
        only = json.load(open(a.replay))
        a.seed, a.tier = only["seed"], only["tier"]
        parts = [only["part"]]
    total = dict(evaluations=0, counters={}, maxima={}, samples=[], violations=[], errors=[], hashes=set())
    for part in parts:
        try:
            r = run_part(tmp, a.prop, part, a.tier, a.seed, env, only)
        except Inconclusive as e:
            if "goarch" not in part or a.replay:
                raise
            # A tree that does not compile for another platform is judged on this one.
            say("note: no %s run: %s" % (part["goarch"], str(e)[:300]))
            continue
        total["evaluations"] += r["evaluations"]
        for k, v in r["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        for k, v in r["maxima"].items():
            total["maxima"][k] = max(total["maxima"].get(k, 0), v)
        for k in ("samples", "violations", "errors"):
            total[k] += r[k]
        total["hashes"] |= r["hashes"]
    known = known_findings(a.prop)
    new, seen = [], {}
    for v in total["violations"]:
        k = v.get("key")
        if k and k in known:
            seen[k] = v
        else:
            new.append(v)
    for k in sorted(seen):
        say("KNOWN-FINDING: property=%s %s [%s]" % (a.prop, known[k], k))
    cov = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": len(total["hashes"]),
        "rule": spec["rule"],
        "samples": total["samples"][:6],
        "observed": dict(sorted(total["counters"].items())),
    }
    if total["maxima"]:
        cov["maxima"] = dict(sorted(total["maxima"].items()))
    if spec["level"] == "other":
        cov["explanation"] = spec["rule"]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": spec["level"],
        "coverage": cov, "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", a.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    say("%s: %d cases, %d distinct non-trivial, %.1fs; observed %s" % (
        a.prop, total["evaluations"], len(total["hashes"]), time.time() - t0,
        " ".join("%s=%d" % kv for kv in sorted(total["counters"].items()))))
    if total["maxima"]:
        say("  maxima: " + " ".join("%s=%d" % kv for kv in sorted(total["maxima"].items())))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for v in new[:5]:
            say("  %s/%s: %s" % (v["group"], v["case"], v["msg"][:1500]))
            if a.v or only:
                say(v.get("detail", "")[:8000])
        v = new[0]
        path = os.path.join(ROOT, "replays", "%s-%s-%s-%d.json" % (a.prop, re.sub(r"\W", "_", v["group"]), v["case"], a.seed))
        rep = dict(property=a.prop, group=v["group"], case=v["case"], seed=a.seed, tier=a.tier, part=v["part"],
                   msg=v["msg"], detail=v.get("detail", ""),
                   cmd="python3 run.py %s --replay %s" % (a.prop, os.path.relpath(path, ROOT)))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        say("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(path, ROOT)))
        return 1
    if total["errors"]:
        raise Inconclusive("harness error: " + "\n".join(total["errors"])[:6000])
    if not only and (total["evaluations"] == 0 or len(total["hashes"]) < spec.get("min_distinct", 2)):
        raise Inconclusive("the monitors observed too little")
    return 0


if __name__ == "__main__":
    main()
