#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property id> [case to replay [tool]]

Builds the monitors against /repo's working tree, drives them, writes
evidence/<id>.json and reports the verdict:
  exit 0  held on everything observed
  exit 1  violated, after a line  VIOLATION property=<id> replay=<path>
  exit 2  no verdict (build failure, time out, killed, nothing observed)
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED") or 1)
START = time.time()
# Inner watchdog; firing means "no verdict".
LIMIT = 840 if TIER == "quick" else 6 * 3600

sys.dont_write_bytecode = True
sys.path.insert(0, HARNESS)
from steps import STEPS, LEVELS  # noqa: E402


def say(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for sub in ("src", "narrow-ffi", "narrow-derive", "Cargo.toml", "Cargo.lock"):
        top = os.path.join(REPO, sub)
        if os.path.isfile(top):
            h.update(open(top, "rb").read())
            continue
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def target_dir(kind):
    base = os.path.join(TARGET, kind)
    want = os.path.join(base, tree_hash())
    if os.path.isdir(base):
        old = sorted(
            (os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base)
        )
        for _, d in old[:-1]:
            p = os.path.join(base, d)
            if p != want:
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(want, exist_ok=True)
    return want


def no_verdict(msg, code=2):
    say("NO VERDICT:", msg)
    sys.exit(code)


def remaining():
    left = LIMIT - (time.time() - START)
    if left <= 5:
        no_verdict("time is up")
    return left


def run(cmd, env=None, cwd=HARNESS):
    """Runs cmd in its own process group; returns (rc, output)."""
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True,
                         errors="replace")
    try:
        out, _ = p.communicate(timeout=remaining())
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        no_verdict("time out: " + " ".join(cmd))
    return p.returncode, out


def build_plan(step):
    """(environment, command or None, executable or None) of a step."""
    kind, b = step["kind"], step["bin"]
    env = {"CARGO_TARGET_DIR": target_dir(kind)}
    trip = "x86_64-unknown-linux-gnu"
    cmd, exe = None, None
    if kind == "native":
        cmd = ["cargo", "build", "--offline", "-q", "--bin", b]
        exe = os.path.join(env["CARGO_TARGET_DIR"], "debug", b)
    elif kind == "ship":
        cmd = ["cargo", "build", "--offline", "-q", "--profile", "ship", "--bin", b]
        exe = os.path.join(env["CARGO_TARGET_DIR"], "ship", b)
    elif kind == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        cmd = ["cargo", "+nightly", "build", "--offline", "-q", "--target", trip, "--bin", b]
        exe = os.path.join(env["CARGO_TARGET_DIR"], trip, "debug", b)
    elif kind == "tsan":
        # The standard library is built along, so that nothing runs unobserved.
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        cmd = ["cargo", "+nightly", "build", "--offline", "-q", "-Zbuild-std", "--target", trip, "--bin", b]
        exe = os.path.join(env["CARGO_TARGET_DIR"], trip, "debug", b)
    return env, cmd, exe


def prebuild(steps):
    """Builds the monitors of all steps side by side; each step reports its own failure when it is driven."""
    def one(cmd, env):
        try:
            e = dict(os.environ)
            e.pop("RUSTFLAGS", None)
            e.update({"CARGO_NET_OFFLINE": "true", **env})
            subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=max(LIMIT - (time.time() - START) - 60, 1))
        except subprocess.TimeoutExpired:
            pass
    plans = [build_plan(s) for s in steps]
    threads = [threading.Thread(target=one, args=(cmd, env)) for env, cmd, _ in plans if cmd]
    for x in threads:
        x.start()
    for x in threads:
        x.join()


def build(step):
    env, cmd, exe = build_plan(step)
    if cmd is None:
        return env, None
    rc, out = run(cmd, env)
    if rc != 0:
        say(out[-6000:])
        no_verdict("build of %s (%s) failed" % (step["bin"], step["kind"]))
    return env, exe


CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def crumbs(d):
    out = []
    for f in sorted(os.listdir(d)):
        s = open(os.path.join(d, f), errors="replace").read().strip()
        if s:
            out.append(s.split("\n")[0].strip())
    return out


def drive(pid, step, replay=None):
    """Returns (summary or None, violations)."""
    env, exe = build(step)
    kind, b = step["kind"], step["bin"]
    work = os.path.join(EVIDENCE, "work")
    os.makedirs(work, exist_ok=True)
    crumb_dir = os.path.join(work, "%s-%s-crumbs" % (pid, kind))
    shutil.rmtree(crumb_dir, ignore_errors=True)
    os.makedirs(crumb_dir)
    out_file = os.path.join(work, "%s-%s.json" % (pid, kind))
    if os.path.exists(out_file):
        os.remove(out_file)
    scale = step.get("scale", {}).get(TIER, 1)
    env.update({
        "VERIF_SEED": str(SEED), "VERIF_TIER": TIER,
        "VH_SCALE": str(scale), "VH_OUT": out_file, "VH_CRUMBS": crumb_dir,
        "VH_BUDGET": str(step.get("budget", {}).get(TIER, 400 if TIER == "quick" else 3600)),
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
        "TSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:second_deadlock_stack=1",
        "RUST_BACKTRACE": "0",
    })
    for k, v in step.get("env", {}).items():
        env[k] = v[TIER] if isinstance(v, dict) else v
    if replay:
        env["VH_REPLAY"] = replay
    violations, summary = [], None
    if kind in ("native", "ship", "asan", "tsan"):
        rc, out = run([exe], env)
        tail = out[-4000:]
        if replay:
            say(out)
            sys.exit(0 if rc == 0 else 1)
        if os.path.exists(out_file):
            try:
                summary = json.load(open(out_file))
            except ValueError:
                summary = None
        if rc < 0 and -rc in CRASH:
            cases = crumbs(crumb_dir)
            # Pin the case that crashes by running the candidates alone.
            pinned = []
            for c in cases:
                e = dict(env)
                e["VH_REPLAY"] = c
                r, o = run([exe], e)
                if r < 0 and -r in CRASH:
                    pinned.append((c, o[-2500:]))
            first = pinned[0] if pinned else (cases[0] if cases else "?", tail)
            violations.append({
                "case": first[0],
                "message": "process died from signal %d (%s)" % (-rc, signal.Signals(-rc).name),
                "trace": first[1].splitlines()[-30:], "candidates": cases,
            })
        elif rc == 1 and summary and summary["violations"]:
            violations = summary["violations"]
        elif rc != 0 or summary is None:
            say(tail)
            no_verdict("%s (%s) ended with %s" % (b, kind, rc))
    else:
        summary = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "observed": {},
                   "samples": [], "rule": "", "subjects": 0, "truncated": False, "wall_s": 0.0,
                   "planned": 0, "exhaustive": False, "violations": []}
        runs = step["runs"][TIER]
        # Build once, so the runs can share it and go in parallel.
        target = ["--target", step["target"]] if "target" in step else []
        rc, out = run(["cargo", "+nightly", "miri", "setup", "-q"] + target, env)
        if rc != 0:
            say(out[-3000:])
            no_verdict("miri setup failed")
        rc, out = run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", b] + target,
                      {**env, "VH_ONLY": "no such subject", "MIRIFLAGS": "-Zmiri-disable-isolation"})
        if rc != 3:
            say(out[-6000:])
            no_verdict("build of %s (miri) failed" % b)
        pending, active, results = list(enumerate(runs)), [], []
        while pending or active:
            while pending and len(active) < 8:
                i, r = pending.pop(0)
                e = dict(os.environ)
                e.update(env)
                e.pop("RUSTFLAGS", None)
                e["MIRIFLAGS"] = "-Zmiri-disable-isolation " + r.get("flags", "")
                for k, v in r.get("env", {}).items():
                    e[k] = v
                log = open(os.path.join(work, "%s-miri-%d.log" % (pid, i)), "w+")
                p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", b] + target,
                                     cwd=HARNESS, env=e, stdout=log, stderr=subprocess.STDOUT,
                                     start_new_session=True)
                active.append((i, r, p, log))
            time.sleep(0.2)
            if time.time() - START > LIMIT - 5:
                for _, _, p, _ in active:
                    os.killpg(p.pid, signal.SIGKILL)
                no_verdict("time out under miri")
            still = []
            for i, r, p, log in active:
                if p.poll() is None:
                    still.append((i, r, p, log))
                    continue
                log.seek(0)
                results.append((i, r, p.returncode, log.read()))
                log.close()
            active = still
        for i, r, rc, out in sorted(results, key=lambda x: x[0]):
            m = re.search(r"^VHJSON (\{.*\})$", out, re.M)
            name = "miri%s run %d (%s %s)" % ("".join(" " + t for t in target[1:]), i, r.get("flags", ""), r.get("env", {}))
            if m:
                s = json.loads(m.group(1))
                for k in ("evaluations", "nontrivial", "planned", "wall_s"):
                    summary[k] += s[k]
                for k in ("distinct_nontrivial", "subjects"):
                    summary[k] = max(summary[k], s[k])
                for k, v in s["observed"].items():
                    summary["observed"][k] = summary["observed"].get(k, 0) + v
                summary["samples"] += s["samples"][:1]
                summary["rule"] = s["rule"]
                for v in s["violations"]:
                    v["case"] = name + " " + v["case"]
                    violations.append(v)
            ub = re.search(r"error: (Undefined Behavior: .*|memory leaked: .*|.*data race.*|abnormal termination: .*|the evaluated program deadlocked.*|the evaluated program leaked.*)", out)
            if ub:
                violations.append({"case": name, "message": ub.group(1), "trace": out.splitlines()[-60:]})
            elif rc != 0 and not violations:
                say(out[-4000:])
                no_verdict(name + " ended with %s" % rc)
        summary["samples"] = summary["samples"][:3]
        summary["miri_runs"] = len(results)
    return summary, violations


def main():
    pid = sys.argv[1]
    replay = sys.argv[2] if len(sys.argv) > 2 else None
    os.makedirs(EVIDENCE, exist_ok=True)
    steps = STEPS[pid]
    if replay:
        tool = sys.argv[3] if len(sys.argv) > 3 else "native"
        drive(pid, next(s for s in steps if s["kind"] == tool), replay)
    steps = [s for s in steps if "tiers" not in s or TIER in s["tiers"]]
    prebuild(steps)
    violations, parts = [], []
    for step in steps:
        summary, v = drive(pid, step)
        if summary:
            parts.append((step, summary))
        for x in v:
            x["tool"] = step["kind"]
        violations += v
        if violations:
            break
    cov = {
        "evaluations": sum(s["evaluations"] for _, s in parts),
        "distinct_nontrivial": max([s["distinct_nontrivial"] for _, s in parts] or [0]),
        "rule": parts[0][1]["rule"] if parts else "",
        "samples": [x for _, s in parts for x in s["samples"]][:6],
        "observed": {},
        "steps": [
            {"tool": st["kind"], "workload": st["bin"], "evaluations": s["evaluations"],
             "nontrivial": s["nontrivial"], "distinct_nontrivial": s["distinct_nontrivial"],
             "subjects": s["subjects"], "planned": s["planned"], "truncated": s["truncated"],
             "wall_s": round(s["wall_s"], 2), "observed": s["observed"],
             **({"runs": s["miri_runs"]} if "miri_runs" in s else {})}
            for st, s in parts
        ],
    }
    for _, s in parts:
        for k, v in s["observed"].items():
            cov["observed"][k] = cov["observed"].get(k, 0) + v
    if parts and all(s.get("exhaustive") for _, s in parts):
        cov["exhaustive"] = True
    known = known_findings(pid)
    fresh = []
    for v in violations:
        hit = next((k for k in known if k["match"] in (v.get("message", "") + " " + v.get("case", ""))), None)
        if hit:
            say("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
        else:
            fresh.append(v)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": LEVELS.get(pid, "exploration"),
          "coverage": cov, "wall_s": round(time.time() - START, 2), "violations": len(fresh)}
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + ".json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": SEED, "tier": TIER,
                       "how": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s '<case>' <tool>" % (SEED, TIER, pid),
                       "violations": fresh[:10]}, f, indent=1)
        for v in fresh[:5]:
            say("  [%s] %s: %s" % (v.get("tool"), v.get("case"), v.get("message", "")[:600]))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if not parts or cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 2:
        no_verdict("nothing was observed")
    say("%s held: %d evaluations, %d distinct non-trivial, %.1f s (%s)" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - START, TIER))


def known_findings(pid):
    """Lines `known: property=<id> match=<text> | <what fails>` of KNOWN_FINDINGS."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) \| (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


if __name__ == "__main__":
    main()
