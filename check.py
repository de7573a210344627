#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property by generated-input search.

Builds the harness package of the property from the current tree of /repo, runs
it in shards with seeds derived from VERIF_SEED, writes evidence/ID.json and
exits 0 (held on everything explored), 1 (VIOLATION line) or 2/3 (no answer).

VERIF_SEED, VERIF_TIER (quick, thorough) are the inputs; VERIF_REPO (default
/repo) lets development runs point at a scratch copy.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/andrewkroh/go-sawmill"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import prep  # noqa: E402

# Package, and what is built besides it.
CONFIG = {}
# together: how many searches of each test also run at the same time in one
# process, under the race detector.
for i in (1, 2, 3, 4, 5, 6, 7, 8, 25, 27, 30):
    CONFIG["C%02d" % i] = dict(pkg="ev", together=4)
for i in (9, 10, 11, 13, 14, 16, 17, 18, 19, 24):
    CONFIG["C%02d" % i] = dict(pkg="pipe", together=4)
CONFIG["C12"] = dict(pkg="pipe", race=True, together=4)
CONFIG["C15"] = dict(pkg="pipe")
# mixed: six shards of searches of all these properties at the same time, each
# shard those of one package; and one shard per package of C28's own. All under
# the race detector.
MIXED = {"ev": "^TestC(01|02|03|04|05|06|07|08|25|27|29|30)_",
         "pipe": "^TestC(09|10|11|12|13|14|16|17|18|19|24|29)_(Fail|Drop|Met|Hist|Ind|Def|Beh|Kinds|Nil|Set|App|Low|Upp|Rem|Opt)"}
CONFIG["C28"] = dict(pkg="pipe", race=True, mixed=True)
# pkgs: the shards take the packages in turn.
CONFIG["C29"] = dict(pkg="ev", pkgs=["ev", "pipe"], together=4)
CONFIG["C20"] = dict(pkg="pipe", prep=[prep.sawmill])
CONFIG["C21"] = dict(pkg="pipe", prep=[prep.sawmill])
CONFIG["C31"] = dict(pkg="pipe", prep=[prep.sawmill])
CONFIG["C22"] = dict(pkg="gen", prep=[prep.generator, prep.exports])
CONFIG["C23"] = dict(pkg="gen", prep=[prep.docs])
CONFIG["C26"] = dict(pkg="pipe", prep=[prep.cshared, prep.wasm])


class NoAnswer(Exception):
    pass


def go_env(scratch):
    env = dict(os.environ)
    env["PATH"] = "/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
               CGO_ENABLED="1", GOTRACEBACK="all")
    for k in ("GOOS", "GOARCH", "GODEBUG"):
        env.pop(k, None)
    return env


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def modfile(scratch):
    """A copy of the harness's go.mod whose replace names REPO."""
    with open(os.path.join(HARNESS, "go.mod")) as f:
        mod = f.read()
    mod = re.sub(r"(replace %s => ).*" % re.escape(MODULE), lambda m: m.group(1) + REPO, mod)
    path = os.path.join(scratch, "harness.mod")
    with open(path, "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "harness.sum"))
    return path


def build(prop, cfg, scratch, env):
    """Builds the harness's binaries: a function from package and race detector to file."""
    mod = modfile(scratch)
    plain = bool(cfg.get("race"))
    want = {(pkg, plain) for pkg in cfg.get("pkgs", [cfg["pkg"]])}
    if cfg.get("together"):
        want.add((cfg["pkg"], True))
    if cfg.get("mixed"):
        want |= {(pkg, True) for pkg in MIXED}
    for pkg, race in sorted(want):
        run(["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", binary(scratch, pkg, race)] +
            ["-race"] * race + ["./" + pkg], "building the harness", cwd=HARNESS, env=env)
    env["VERIF_REPO"] = REPO
    env["VERIF_SCRATCH"] = scratch
    for p in cfg.get("prep", ()):
        p(dict(repo=REPO, scratch=scratch, env=env, harness=HARNESS, run=run))


def binary(scratch, pkg, race):
    return os.path.join(scratch, pkg + (".race" if race else "") + ".test")


FATAL = [
    ("VERIF-HANG", "a case did not end"),
    ("VERIF-MEMORY", "memory without bound"),
    ("stack overflow", "stack overflow"),
    ("goroutine stack exceeds", "stack overflow"),
    ("unexpected fault address", "write to memory of a string"),
    ("fatal error: concurrent map", "unsynchronised map access"),
    ("fatal error: all goroutines are asleep", "deadlock"),
]


def judge(out, rc):
    """Returns (verdict, test, reason) of one shard's output."""
    if rc == 0:
        return "ok", None, None
    if "VERIF-ERROR" in out or "[rapid] only generated" in out:
        return "error", None, "harness error"
    m = re.search(r"VERIF-(?:HANG|MEMORY): a case of (\S+)", out)
    test = m.group(1) if m else None
    for text, reason in FATAL:
        if text in out:
            return "violation", test or last_test(out), reason
    m = re.search(r"^--- FAIL: (\S+)", out, re.M)
    if m:
        reason = "DATA RACE" if "WARNING: DATA RACE" in out else first_reason(out)
        return "violation", m.group(1), reason
    if "WARNING: DATA RACE" in out:
        return "violation", last_test(out), "DATA RACE"
    if re.search(r"^panic: ", out, re.M) and "test timed out" not in out and MODULE + "/" in out:
        return "violation", last_test(out), re.search(r"^panic: .*", out, re.M).group(0)
    return "error", None, "exit status %d" % rc


def last_test(out):
    names = re.findall(r"^=== RUN\s+(\S+)", out, re.M)
    return names[-1] if names else "unknown"


def first_reason(out):
    m = re.search(r"\[rapid\] (?:failed|panic|flaky)[^\n]*", out)
    return m.group(0) if m else "test failed"


def shard_cmd(binary, pattern, seed, timeout, extra=()):
    return [binary, "-test.run", pattern, "-test.v", "-test.timeout", "%ds" % timeout,
            "-rapid.seed", str(seed), "-rapid.shrinktime", "25s"] + list(extra)


def mode_of(cfg, i):
    """What shard i is: the package, its tests, whether under the race detector,
    and environment and arguments besides the usual."""
    n = cfg.get("shards", 8)
    m = dict(kind="plain", pkg=cfg["pkg"], pattern=None, race=bool(cfg.get("race")), env={}, args=[])
    if cfg.get("mixed"):
        m["pkg"] = sorted(MIXED)[i % 2]
    if cfg.get("mixed") and i < 6:
        m.update(kind="mixed", env=dict(VERIF_MIXED="1", GOMAXPROCS="4"),
                 args=["-test.parallel", "6"])
        m["pattern"] = MIXED[m["pkg"]]
    elif cfg.get("pkgs") and i < n:
        k = len(cfg["pkgs"])
        m.update(pkg=cfg["pkgs"][i % k], env=dict(VERIF_SHARDS=str(n // k)))
    elif i == n:  # The last one is that of the searches at the same time.
        k = str(cfg["together"])
        m.update(kind="together", race=True, env=dict(VERIF_TOGETHER=k, GOMAXPROCS=k), args=["-test.parallel", k])
    return m


def run_shards(prop, cfg, scratch, env, seed, tier, deadline, name="stats"):
    n = cfg.get("shards", 8)
    stats = os.path.join(scratch, name)
    os.mkdir(stats)
    procs = []
    for i in range(n + bool(cfg.get("together"))):
        cwd = os.path.join(scratch, name + "-shard%d" % i)
        os.mkdir(cwd)
        m = mode_of(cfg, i)
        e = dict(env, VERIF_STATS_DIR=stats, VERIF_SHARD=str(i), VERIF_SHARDS=str(n), VERIF_TIER=tier,
                 VERIF_SEED=str(seed), GOMAXPROCS=str(cfg.get("procs", 2)), TMPDIR=cwd)
        e.update(m["env"])
        rseed = (seed * 1000003 + i * 7919 + 1) & 0x7FFFFFFFFFFFFFFF
        log = open(os.path.join(cwd, "log"), "wb")
        cmd = shard_cmd(binary(scratch, m["pkg"], m["race"]), m["pattern"] or "^Test%s_" % prop, rseed or 1,
                        int(deadline - time.time()) + 30, m["args"])
        procs.append(dict(i=i, cwd=cwd, seed=rseed or 1, log=log, kind=m["kind"],
                          p=subprocess.Popen(cmd, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT,
                                             start_new_session=True)))
    try:
        pending = list(procs)
        failed = None
        while pending:
            for s in list(pending):
                if s["p"].poll() is not None:
                    pending.remove(s)
                    if s["p"].returncode != 0 and failed is None:
                        failed = time.time()
            if time.time() > deadline:
                raise NoAnswer("out of time")
            if failed and time.time() > failed + 3:
                break
            time.sleep(0.05)
    finally:
        for s in procs:
            if s["p"].poll() is None:
                s["killed"] = True
            try:  # The shard and everything it started.
                os.killpg(s["p"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            s["p"].wait()
            s["log"].close()
    for s in procs:
        with open(os.path.join(s["cwd"], "log"), errors="replace") as f:
            s["out"] = f.read()
    return procs, stats


def late(s):
    """Whether a shard failed just because something did not happen in time, once
    and not again."""
    return (s["kind"] == "plain" and "VERIF-LATE" in s["out"] and "[rapid] flaky test" in s["out"] and
            len(re.findall(r"^\s*--- FAIL: ", s["out"], re.M)) == 1)


def known_findings():
    """The listed findings: {(property, key): text}."""
    found = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                found[m.group(1), m.group(2)] = m.group(3)
    return found


def write_replay(prop, cfg, test, kind, seed, tier, shard, failfile, out, reason):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_]", "_", test or "x")))
    data = dict(property=prop, test=test, kind=kind, seed=seed, tier=tier, shard=shard, shards=cfg.get("shards", 8),
                reason=reason, failfile=failfile, output=out[-6000:])
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def failfile_of(shard, test):
    files = sorted(glob.glob(os.path.join(shard["cwd"], "testdata", "rapid", "*", "*.fail")))
    for f in files:
        if os.path.basename(os.path.dirname(f)) == test:
            with open(f, errors="replace") as fh:
                return fh.read()
    return None


def evidence(prop, seed, tier, stats, wall, violations, extra):
    tests = {}
    for path in sorted(glob.glob(os.path.join(stats, "*.json"))):
        with open(path) as f:
            d = json.load(f)
        t = tests.setdefault(d["test"], dict(rule=d["rule"], evaluations=0, hashes=set(), classes={}, samples=[]))
        t["evaluations"] += d["evaluations"]
        t["hashes"].update(d["hashes"] or ())
        for k, v in (d["classes"] or {}).items():
            t["classes"][k] = t["classes"].get(k, 0) + v
        t["samples"] += d["samples"] or []
    cov = dict(
        evaluations=sum(t["evaluations"] for t in tests.values()),
        distinct_nontrivial=sum(len(t["hashes"]) for t in tests.values()),
        rule=" || ".join("%s: %s" % (n, t["rule"]) for n, t in tests.items()),
        samples=[dict(test=n, case=s) for n, t in tests.items() for s in t["samples"][:4]],
        tests={n: dict(evaluations=t["evaluations"], distinct_nontrivial=len(t["hashes"]), classes=t["classes"])
               for n, t in tests.items()},
    )
    cov.update(extra)
    data = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                wall_s=round(wall, 3), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
    os.replace(path + ".tmp", path)
    return cov


def check(prop, scratch):
    cfg = CONFIG[prop]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    deadline = start + (780 if tier == "quick" else 4 * 3600)
    env = go_env(scratch)
    build(prop, cfg, scratch, env)
    built = time.time()
    procs, stats = run_shards(prop, cfg, scratch, env, seed, tier, deadline)
    # What was late, once, is asked again: the machine may have stood still.
    again, failing = 0, [s for s in procs if not s.get("killed") and s["p"].returncode != 0]
    while failing and all(late(s) for s in failing) and again < 2:
        again += 1
        for s in failing:
            print("shard %d, asked again: %s" % (s["i"], "; ".join(re.findall(r".*VERIF-LATE.*", s["out"])[:2])[:1000]))
        # All shards, as those that were still at work have been stopped.
        procs, stats = run_shards(prop, cfg, scratch, env, seed, tier, deadline, name="stats%d" % again)
        failing = [s for s in procs if not s.get("killed") and s["p"].returncode != 0]
    verdicts = [(s,) + judge(s["out"], s["p"].returncode) for s in procs if not s.get("killed")]
    bad = [v for v in verdicts if v[1] == "violation"]
    errors = [v for v in verdicts if v[1] == "error"]
    # Findings that the harness's probes report, listed ones and others.
    listed = known_findings()
    lines, known = {}, 0
    for s in procs:
        for key, what in re.findall(r"^VERIF-FINDING (\S+) (.*)$", s["out"], re.M):
            lines[key] = (what, s)
    unlisted = []
    for key, (what, s) in sorted(lines.items()):
        if (prop, key) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, what))
            known += 1
        else:
            unlisted.append((key, what, s))
    cov = evidence(prop, seed, tier, stats, time.time() - start, len(bad) + len(unlisted),
                   dict(known_findings=known, build_s=round(built - start, 1), asked_again=again))
    if bad:
        # Prefer one with a shrunk fail file, which searches at the same time do
        # not have: what fails there is found again by running all of them.
        bad.sort(key=lambda v: (v[0]["kind"] != "plain", failfile_of(v[0], v[2]) is None))
        s, _, test, reason = bad[0]
        ff = failfile_of(s, test) if s["kind"] == "plain" else None
        path = write_replay(prop, cfg, test, s["kind"] if s["kind"] != "plain" else "rapid" if ff else "seed", s["seed"], tier, s["i"], ff, s["out"], reason)
        print(s["out"][-3000:])
        print("%s: %s" % (test, reason))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unlisted:
        key, what, s = unlisted[0]
        test = last_test(s["out"][:s["out"].index("VERIF-FINDING " + key)])
        path = write_replay(prop, cfg, test, "finding:" + key, s["seed"], tier, s["i"], None, s["out"], what)
        print("unlisted finding %s: %s" % (key, what))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        s, _, _, reason = errors[0]
        raise NoAnswer("shard %d: %s\n%s" % (s["i"], reason, s["out"][-4000:]))
    if cov["evaluations"] == 0:
        raise NoAnswer("no case was run")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, held on all (%.0f s)" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - start))
    return 0


def replay(prop, path, scratch):
    cfg = CONFIG[prop]
    with open(path) as f:
        r = json.load(f)
    env = go_env(scratch)
    build(prop, cfg, scratch, env)
    m = mode_of(cfg, r["shard"])
    extra, pattern = m["args"], "^%s$" % re.escape(r["test"].split("/")[0])
    if r["kind"] == "mixed":
        pattern = m["pattern"]
    if r["kind"] == "rapid":
        ff = os.path.join(scratch, "replay.fail")
        with open(ff, "w") as f:
            f.write(r["failfile"])
        extra = ["-rapid.failfile", ff, "-rapid.nofailfile"]
    e = dict(env, VERIF_SHARD=str(r["shard"]), VERIF_SHARDS=str(r["shards"]), VERIF_TIER=r["tier"],
             VERIF_STATS_DIR=scratch, VERIF_SEED=str(r["seed"]))
    e.update(m["env"])
    cwd = os.path.join(scratch, "run")
    os.mkdir(cwd)
    p = subprocess.run(shard_cmd(binary(scratch, m["pkg"], m["race"]), pattern, r["seed"], 3600, extra), cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(p.stdout[-6000:])
    if r["kind"].startswith("finding:"):
        hit = re.search(r"^VERIF-FINDING %s " % re.escape(r["kind"][8:]), p.stdout, re.M)
        verdict, test, reason = ("violation", r["test"], r["reason"]) if hit else ("ok", None, None)
    else:
        verdict, test, reason = judge(p.stdout, p.returncode)
    if verdict == "violation":
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if verdict == "error":
        raise NoAnswer(reason)
    print("not reproduced")
    return 0


def main():
    prop = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    os.chmod(scratch, 0o755)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(prop, sys.argv[3], scratch)
        return check(prop, scratch)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
