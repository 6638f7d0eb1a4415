#!/usr/bin/env python3
"""Run one property check: build the harness against /repo's working tree,
run several seeded workers, merge their counters into evidence/<id>.json.

usage: check.py ID            run the check (VERIF_SEED, VERIF_TIER)
       check.py ID --replay F replay a saved case
Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: an error
of the check itself."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
             GOFLAGS="-mod=readonly", GOTRACEBACK="all", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("RAPID_") or k.startswith("HV_"):
            del e[k]
    return e


def die(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build(tmp, race):
    out = os.path.join(tmp, "hv.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./checks"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("cannot build the harness:\n" + p.stdout[-4000:])
    return out


CRASH = re.compile(r"^(fatal error: .*|WARNING: DATA RACE.*|panic: .*|SIGSEGV.*|unexpected fault address.*|runtime: goroutine stack exceeds.*)$", re.M)


def crash_text(txt):
    m = CRASH.search(txt)
    return m.group(0) if m else None


class Worker:
    def __init__(self, tmp, binary, pid, i, seed, n, case_timeout, extra):
        self.dir = os.path.join(tmp, "w%d" % i)
        os.makedirs(self.dir)
        e = env()
        e.update(HV_PROP=pid, HV_DIR=self.dir, HV_CHECKS=str(n), HV_KNOWN=KNOWN, HV_CASE_TIMEOUT=str(case_timeout),
                 TMPDIR=self.dir, HV_SEED=str(seed))
        e.update(extra)
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen(
            [binary, "-test.run=^TestProp$", "-test.timeout=0", "-rapid.checks=%d" % n, "-rapid.seed=%d" % seed,
             "-rapid.nofailfile", "-rapid.shrinktime=%s" % os.environ.get("VERIF_SHRINK", "15s")],
            cwd=self.dir, env=e, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def text(self):
        self.log.flush()
        with open(os.path.join(self.dir, "log"), "rb") as f:
            return f.read().decode("utf8", "replace")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def replay(binary, pid, path, tmp, case_timeout, extra, repeat=1):
    """Returns (status, text): pass, fail, crash, hang or error."""
    d = tempfile.mkdtemp(dir=tmp)
    e = env()
    e.update(HV_PROP=pid, HV_DIR=d, HV_REPLAY=os.path.abspath(path), HV_CASE_TIMEOUT=str(case_timeout), TMPDIR=d,
             HV_REPEAT=str(repeat))
    e.update(extra)
    try:
        p = subprocess.run([binary, "-test.run=^TestProp$", "-test.timeout=0"], cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=case_timeout * repeat + 120)
    except subprocess.TimeoutExpired:
        return "hang", "replay did not end"
    txt = p.stdout.decode("utf8", "replace")
    if p.returncode == 0 and "REPLAY-PASS" in txt:
        return "pass", txt
    if p.returncode == 7:
        return "hang", txt
    if p.returncode == 4:
        return "error", txt
    if "REPLAY-FAIL" in txt:
        return "fail", txt
    if crash_text(txt):
        return "crash", txt
    return "error", txt


def main():
    pid = sys.argv[1]
    conf = CONF[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    race = bool(conf.get("race"))
    case_timeout = int(conf.get("case_timeout", 90))
    extra = {}
    if race:
        extra["GORACE"] = "halt_on_error=1 exitcode=66"
    if conf.get("gomaxprocs"):
        extra["GOMAXPROCS"] = str(conf["gomaxprocs"])
    extra["GOMEMLIMIT"] = conf.get("memlimit", "3GiB")
    tmp = tempfile.mkdtemp(prefix="hv-%s-" % pid)
    os.chmod(tmp, 0o755)
    try:
        t0 = time.time()
        binary = build(tmp, race)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            st, txt = replay(binary, pid, sys.argv[3], tmp, case_timeout, extra, repeat=int(conf.get("replay_repeat", 1)))
            print(txt[-6000:])
            if st in ("fail", "crash", "hang"):
                print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
                return 1
            return 0 if st == "pass" else 3
        return run(pid, conf, seed, tier, tmp, binary, case_timeout, extra, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, conf, seed, tier, tmp, binary, case_timeout, extra, t0):
    workers = int(conf.get("workers", 8))
    n = int(conf["quick"] if tier == "quick" else conf["thorough"])
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    per = max(1, (n + workers - 1) // workers)
    # Budget of the whole run: reaching it is inconclusive, never a violation.
    budget = int(conf.get("budget", 780 if tier == "quick" else 6 * 3600))
    ws = [Worker(tmp, binary, pid, i, (seed * 1000003 + i * 7919 + 1) & 0x7fffffffffffffff or 1, per, case_timeout, extra)
          for i in range(workers)]
    violation = None
    note = []
    try:
        pending = set(range(workers))
        while pending and violation is None:
            if time.time() - t0 > budget:
                die("out of time budget after %ds" % budget)
            for i in sorted(pending):
                rc = ws[i].p.poll()
                if rc is None:
                    continue
                pending.discard(i)
                violation = judge(ws[i], rc, binary, pid, tmp, case_timeout, extra, note, conf)
                if violation:
                    break
            time.sleep(0.05)
    finally:
        for w in ws:
            w.kill()
    # merge
    cases = evals = nontriv = 0
    hashes, classes, samples = set(), {}, []
    rule = ""
    for w in ws:
        try:
            s = json.load(open(os.path.join(w.dir, "stats.json")))
        except (OSError, ValueError):
            if violation is None:
                die("a worker left no counters:\n" + w.text()[-3000:])
            continue
        rule = s["rule"]
        cases += s["cases"]
        evals += s["evals"]
        nontriv += s["nontrivial"]
        hashes.update(s["hashes"] or [])
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
        samples += (s["samples"] or [])[:2]
    if violation is None and cases < per * workers:
        die("only %d of %d cases ran" % (cases, per * workers))
    known = []
    for w in ws:
        for f in sorted(os.listdir(w.dir)):
            if f.startswith("known-") and f.endswith(".json") and f not in known:
                known.append(f)
                try:
                    d = json.load(open(os.path.join(w.dir, f)))
                except ValueError:  # the worker was ended while writing it
                    continue
                print("KNOWN-FINDING: property=%s %s" % (pid, d["error"].splitlines()[0][:300]))
    if violation is None:
        for f in known_lines(pid):
            if "known-%s.json" % f[0] not in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, f[1]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
          "coverage": {"evaluations": max(cases, evals), "cases": cases, "nontrivial_cases": nontriv,
                       "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples[:8],
                       "classes": dict(sorted(classes.items())), "workers": workers},
          "assumptions": conf.get("assumptions", []) + ["the encoders and the archive writer in /verif/harness are correct; they are cross-checked against xz and independent decoders in harness/dev"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if note:
        ev["coverage"]["notes"] = note
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if violation:
        err, path = violation
        print(err[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, cases, max(cases, evals), len(hashes), time.time() - t0))
    return 0


def known_lines(pid):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r"KNOWN property=%s key=(\S+) match=(.*)" % pid, l)
            if m:
                out.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def save(pid, src, err):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    b = json.load(open(src))
    if "case" not in b:
        b = {"property": pid, "error": err[:20000], "case": b}
    data = json.dumps(b, indent=1)
    import hashlib
    p = os.path.join(d, hashlib.sha256(data.encode()).hexdigest()[:12] + ".json")
    open(p, "w").write(data)
    return p


def judge(w, rc, binary, pid, tmp, case_timeout, extra, note, conf):
    """None if the worker passed, (error, replay path) for a violation."""
    if rc == 0:
        return None
    txt = w.text()
    fail, cur = os.path.join(w.dir, "fail.json"), os.path.join(w.dir, "current.json")
    if rc == 4:
        die("harness error:\n" + txt[-4000:])
    if rc == 7:
        # The case did not end. Confirm alone in a fresh process.
        st, t2 = replay(binary, pid, cur, tmp, case_timeout, extra)
        if st == "hang":
            return "case does not terminate (limit %ds, twice)\n%s" % (case_timeout, t2[-1500:]), save(pid, cur, "hang")
        if st in ("fail", "crash"):
            return t2[-3000:], save(pid, cur, t2[-3000:])
        die("a case exceeded %ds but ended when replayed" % case_timeout)
    if rc < 0:
        die("worker was killed by signal %d (inconclusive)\n%s" % (-rc, txt[-1500:]))
    crash = crash_text(txt)
    if os.path.exists(fail) and ("rapid" in txt):
        err = json.load(open(fail))["error"]
        return err, save(pid, fail, err)
    if crash and os.path.exists(cur):
        if "out of memory" in crash or "cannot allocate" in txt:
            st, t2 = replay(binary, pid, cur, tmp, case_timeout, extra)
            if st != "crash" and st != "fail":
                die("worker ran out of memory, not reproducible:\n" + crash)
        if "panic: harness" in txt:
            die("harness error:\n" + txt[-4000:])
        i = txt.find(crash)
        return txt[i:i + 3000], save(pid, cur, txt[i:i + 6000])
    die("worker ended with status %d:\n%s" % (rc, txt[-4000:]))


if __name__ == "__main__":
    sys.exit(main())
