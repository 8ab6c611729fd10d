#!/usr/bin/env python3
"""Runs the check of one property: check.py P01 [--replay FILE]

Builds the test binaries of the check from the harness in /verif/harness and the working tree
in /repo, runs them with a seed derived from VERIF_SEED, and writes /verif/evidence/P01.json.

exit 0: the property held on everything explored
exit 1: violated, with a line "VIOLATION property=P01 replay=FILE"
exit 2: the check itself did not work (build failure, lack of memory, ...)
"""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checkconfig import CHECKS, ASSUMPTIONS  # noqa: E402


def log(*args):
    print(*args, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    for go in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(go):
            env["PATH"] = go + ":" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*",
               GONOSUMCHECK="1", GOFLAGS_EXTRA="", GOSUMDB="off", CGO_ENABLED="1")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(workdir, pkg, race=False, main=False, fuzz=False):
    """Compiles a package of the harness against REPO, returns the path of the binary."""
    out = os.path.join(workdir, pkg.strip("./").replace("/", "_") + ("_race" if race else "") + (".bin" if main else ".test"))
    if os.path.exists(out):
        return out
    harness = os.path.join(HERE, "harness")
    modfile = os.path.join(workdir, "go.mod")
    if not os.path.exists(modfile):
        with open(os.path.join(harness, "go.mod")) as f:
            content = f.read()
        content = re.sub(r"(replace github.com/flachnetz/dd-zipkin-proxy =>) .*", r"\1 " + REPO, content)
        with open(modfile, "w") as f:
            f.write(content)
        shutil.copy(os.path.join(harness, "go.sum"), os.path.join(workdir, "go.sum"))
    cmd = ["go", "build"] if main else ["go", "test", "-c", "-vet=off"]
    cmd += ["-modfile", modfile, "-o", out]
    if race:
        # checkptr is not part of any property, and the unsafe code of reflect2 is not ours
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    cmd.append("./" + pkg)
    started = time.time()
    r = subprocess.run(cmd, cwd=harness, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise CheckError("build of %s failed:\n%s" % (pkg, r.stdout[-4000:]))
    log("built %s%s in %.1fs" % (pkg, " with the race detector" if race else "", time.time() - started))
    return out


def limit_memory():
    """A worker that needs more than this fails by itself, before the machine runs out of memory."""
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))


class Worker:
    def __init__(self, workdir, binary, name, env, timeout, race=False):
        self.dir = os.path.join(workdir, name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.binary, self.env, self.timeout = binary, env, timeout
        self.out = os.path.join(self.dir, "out.json")
        self.journal = os.path.join(self.dir, "journal")
        self.stderr = os.path.join(self.dir, "stderr")
        full = dict(os.environ)
        full.update(env)
        full.update(VF_OUT=self.out, VF_JOURNAL=self.journal, TMPDIR=self.dir, GOTRACEBACK="all", TZ="UTC",
                    GORACE="halt_on_error=1 exitcode=66 log_path=%s/race history_size=3" % self.dir)
        full.pop("GOFLAGS", None)
        self.started = time.time()
        with open(self.stderr, "wb") as err:
            self.proc = subprocess.Popen([binary, "-test.run=^TestCheck$", "-test.timeout=0", "-test.count=1"],
                                         cwd=self.dir, env=full, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                                         start_new_session=True, preexec_fn=None if race else limit_memory)

    def poll(self):
        if self.proc.poll() is None and time.time() - self.started > self.timeout:
            self.kill()
            self.proc.wait()
            raise CheckError("worker did not finish within %ds" % self.timeout)
        return self.proc.returncode

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass

    def reap(self):
        """Ends whatever the worker left running."""
        self.kill()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def wait(self):
        while self.poll() is None:
            time.sleep(0.02)
        return self.outcome()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def journaled(self):
        try:
            with open(self.journal, "rb") as f:
                data = f.read()
            n, = struct.unpack("<Q", data[:8])
            return json.loads(data[8:8 + n])
        except (OSError, ValueError, struct.error):
            return None

    def tail(self, n=6000):
        with open(self.stderr, "rb") as f:
            text = f.read().decode("utf-8", "replace")
        return text if len(text) <= n else text[:n // 2] + "\n...\n" + text[-n // 2:]

    def races(self):
        text = ""
        for name in sorted(os.listdir(self.dir)):
            if name.startswith("race."):
                with open(os.path.join(self.dir, name), errors="replace") as f:
                    text += f.read()
        return text

    def outcome(self):
        """Returns (kind, detail): ok, violation, race, died, hang, memory, error."""
        code = self.proc.returncode
        races = self.races()
        if races or code == 66:
            if REPO + "/" not in races:
                return "error", "race outside of the code under test:\n" + races + self.tail()
            return "race", races[:6000]
        res = self.result()
        if res is not None:
            if res["status"] in ("hang", "memory"):
                return res["status"], res["error"] + "\n" + self.tail()
            if res["status"] == "error":
                return "error", res.get("error", "")
            return res["status"], None
        if code < 0:
            return ("error" if -code in (signal.SIGKILL, signal.SIGTERM) else "died"), "signal %d\n%s" % (-code, self.tail())
        text = self.tail()
        if "panic:" in text or "fatal error:" in text or "[signal " in text or "runtime:" in text:
            return "died", text
        text = "exit code %d without a result\n%s" % (code, text)
        # the code under test may end the process too, it has to do so again to count
        return ("died" if self.journaled() else "error"), text


def save_replay(prop, failure):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    data = json.dumps(failure, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(data.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(data + "\n")
    return path


def replay_failure(workdir, run, prop, failure, n=0):
    """Runs a failure in a fresh process, returns its outcome."""
    path = os.path.join(workdir, "replay%d.json" % n)
    with open(path, "w") as f:
        json.dump(failure, f)
    w = Worker(workdir, run["binary"], "replay-run%d" % n, {"VF_REPLAY": path, **run["env"]}, 600, run.get("race"))
    try:
        kind, detail = w.wait()
        return kind, detail, w.result()
    finally:
        w.reap()


def confirm(workdir, run, prop, kind, detail, worker):
    """A worker died, hung, or saw a race. Returns the failure, or raises CheckError."""
    case = worker.journaled()
    failure = {"property": prop, "sub": case["sub"] if case else "", "run": run["name"], "reproduced": False,
               "error": "%s: %s" % (kind, detail), "case": case["case"] if case else None, "env": worker.env}
    if case:
        for n in range(3):
            k, d, _ = replay_failure(workdir, run, prop, failure, n)
            if k not in ("ok", "error"):
                failure["reproduced"] = True
                return failure
    if kind == "race":
        # a reported race is one, even if it does not show up each time
        return failure
    # maybe it needs the cases before it too
    w = Worker(workdir, run["binary"], "again", worker.env, 700, run.get("race"))
    try:
        k, d = w.wait()
    finally:
        w.reap()
    if k == kind or k in ("died", "violation"):
        failure["reproduced"] = True
        failure["error"] = "(only after the cases before it) " + failure["error"]
        return failure
    raise CheckError("%s, but not again: %s" % (kind, detail))


def validate_limits():
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def main():
    prop = sys.argv[1]
    if prop == "--build":
        workdir = tempfile.mkdtemp(prefix="verif-build-")
        try:
            for cfg in CHECKS.values():
                prepare(cfg, workdir, "quick")
            return 0
        finally:
            shutil.rmtree(workdir, ignore_errors=True)
    cfg = CHECKS[prop]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    validate_limits()
    started = time.time()
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run_check(prop, cfg, tier, seed, replay, workdir, started)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e), flush=True)
        return 2
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def prepare(cfg, workdir, tier):
    runs = []
    for i, run in enumerate(cfg["runs"]):
        run = dict(run)
        if tier not in run.get("tiers", ("quick", "thorough")):
            continue
        run.setdefault("name", "race" if run.get("race") else "plain")
        env = {"VF_TIER": tier}
        for name, pkg in run.get("programs", {}).items():
            env[name] = build(workdir, pkg, race=run.get("race_programs", False), main=True)
        if "subs" in run:
            env["VF_SUBS"] = ",".join(run["subs"])
        run["binary"] = build(workdir, run["pkg"], race=run.get("race", False))
        run["env"] = env
        runs.append(run)
    return runs


def run_check(prop, cfg, tier, seed, replay, workdir, started):
    runs = prepare(cfg, workdir, tier)

    if replay:
        with open(replay) as f:
            failure = json.load(f)
        for run in runs:
            if failure.get("run", run["name"]) != run["name"]:
                continue
            kind, detail, res = replay_failure(workdir, run, prop, failure)
            print("%s: %s" % (run["name"], kind))
            if kind == "ok":
                return 0
            if kind == "error":
                print(detail)
                return 2
            print(detail or res["failure"]["error"])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 2

    failures = []
    subs = {}
    for run in runs:
        workers = []
        count = run.get("workers", 8)
        scale = run.get("scale", 1.0) * float(os.environ.get("VERIF_SCALE", "1"))
        try:
            for i in range(count):
                env = dict(run["env"])
                env.update(VF_SEED=str(seed), VF_WORKER=str(i), VF_WORKERS=str(count), VF_SCALE=str(scale),
                           VF_DEADLINE=str(run.get("deadline", 500 if tier == "quick" else 3600)))
                if "procs" in run:
                    env["GOMAXPROCS"] = str(run["procs"])
                workers.append(Worker(workdir, run["binary"], "%s-%d" % (run["name"], i), env, 800 if tier == "quick" else 7200, run.get("race")))
            pending = list(workers)
            while pending and not failures:
                time.sleep(0.05)
                for w in list(pending):
                    if w.poll() is None:
                        continue
                    pending.remove(w)
                    kind, detail = w.outcome()
                    if kind == "error":
                        raise CheckError(detail)
                    res = w.result()
                    for s in (res or {}).get("subs") or []:
                        t = subs.setdefault(s["name"], {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [], "not_run": 0, "wall_s": 0})
                        t["evaluations"] += s["evaluations"]
                        t["not_run"] += s["not_run"]
                        t["wall_s"] += s["wall_s"]
                        t["hashes"].update(s["hashes"] or [])
                        for k, v in (s["labels"] or {}).items():
                            t["labels"][k] = t["labels"].get(k, 0) + v
                        if len(t["samples"]) < 3:
                            t["samples"] += s["samples"] or []
                    if kind == "violation":
                        f = res["failure"]
                        f["run"] = run["name"]
                        failures.append(f)
                        break
                    if kind in ("race", "died", "hang", "memory"):
                        failures.append(confirm(workdir, run, prop, kind, detail, w))
                        break
        finally:
            for w in workers:
                w.reap()
        if failures:
            break

    wall = time.time() - started
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in subs.values()),
            "distinct_nontrivial": sum(len(t["hashes"]) for t in subs.values()),
            "rule": cfg["rule"],
            "samples": [{"check": n, "case": c} for n, t in sorted(subs.items()) for c in t["samples"][:3]],
            "checks": {n: {"evaluations": t["evaluations"], "distinct_nontrivial": len(t["hashes"]),
                           "not_run_after_deadline": t["not_run"], "cpu_s": round(t["wall_s"], 1),
                           "classes": dict(sorted(t["labels"].items()))}
                       for n, t in sorted(subs.items())},
        },
        "assumptions": cfg.get("assumptions", []) + ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if failures:
        path = save_replay(prop, failures[0])
        print(failures[0]["error"][:3000])
        print("case: " + json.dumps(failures[0]["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("OK property=%s tier=%s seed=%d: %d cases, %d distinct and non-trivial, %.1fs" % (
        prop, tier, seed, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
