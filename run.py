#!/usr/bin/env python3
"""Decides one property: run.py ID [--replay FILE].

Builds the check of the property together with the current tree of /repo (the
sources of the check go in through an overlay), runs it in several processes
and writes evidence/ID.json. Exit 0: held on everything explored. Exit 1 and a
VIOLATION line: broken. Exit 2: no answer (the tree does not build, a budget
ran out, the machine is out of memory).
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/gernest/requiemdb"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
LIMIT = {"quick": 700, "thorough": 6 * 3600}
children = set()


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


def go_env(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    root = "/opt/veriftools/go1.23.12"
    home = e.get("HOME") or "/root"
    e.update(GOROOT=root, PATH=root + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOENV="off", GOWORK="off",
             GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
             GOTELEMETRY="off", TZ="UTC", HOME=home, GOTMPDIR=scratch)
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


# Where the databases write to disk: they call VerifHook with the path of the file
# before they do. C08 copies the files there, which is what a crash leaves.
INSTRUMENT = {
    "github.com/dgraph-io/badger/v4": [
        ("memtable.go", "\tif mt.wal != nil {\n", "\tif mt.wal != nil {\n\t\tverifHook(mt.wal.path)\n"),
        ("manifest.go", "func (mf *manifestFile) addChanges(changesParam []*pb.ManifestChange) error {\n",
         "func (mf *manifestFile) addChanges(changesParam []*pb.ManifestChange) error {\n\tverifHook(mf.directory)\n"),
    ],
    "github.com/dgraph-io/ristretto": [
        ("z/file.go", "\t\tif err := fd.Truncate(int64(sz)); err != nil {\n", "\t\tverifHook(filename)\n\t\tif err := fd.Truncate(int64(sz)); err != nil {\n"),
        ("z/file.go", "\tif err := m.Fd.Truncate(0); err != nil {\n", "\tverifHook(m.Fd.Name())\n\tif err := m.Fd.Truncate(0); err != nil {\n"),
        ("z/file.go", "\treturn os.Remove(m.Fd.Name())\n", "\tverifHook(m.Fd.Name())\n\treturn os.Remove(m.Fd.Name())\n"),
    ],
    "github.com/gernest/rbf": [
        ("tx.go", "bufio.NewWriterSize(tx.db.walFile, 65536)", "bufio.NewWriterSize(verifHooked(tx.db.walFile), 65536)"),
        ("db.go", "db.file.WriteAt(", "verifHooked(db.file).WriteAt("),
        ("db.go", "db.walFile.Truncate(", "verifHooked(db.walFile).Truncate("),
        ("db.go", "db.file.Truncate(", "verifHooked(db.file).Truncate("),
    ],
}
HOOK = """
// VerifHook is called before a write to a file of the database.
var VerifHook func(path string)

func verifHook(path string) {
	if VerifHook != nil {
		VerifHook(path)
	}
}

type verifFile interface {
	Name() string
	Write(p []byte) (int, error)
	WriteAt(p []byte, at int64) (int, error)
	Truncate(n int64) error
}

type verifWriter struct{ verifFile }

func verifHooked(f verifFile) verifWriter { return verifWriter{f} }

func (w verifWriter) Write(p []byte) (int, error) {
	verifHook(w.Name())
	return w.verifFile.Write(p)
}

func (w verifWriter) WriteAt(p []byte, at int64) (int, error) {
	verifHook(w.Name())
	return w.verifFile.WriteAt(p, at)
}

func (w verifWriter) Truncate(n int64) error {
	verifHook(w.Name())
	return w.verifFile.Truncate(n)
}
"""


def instrument(mod, edits, rep, scratch):
    """Adds the edited files of a dependency to the overlay."""
    with open(os.path.join(REPO, "go.mod")) as f:
        v = re.search(r"(?m)^\s*(?:require\s+)?%s\s+(\S+)" % re.escape(mod), f.read())
    if not v:
        die("no answer: %s is not a dependency" % mod)
    root = "/root/go/pkg/mod/%s@%s" % (mod, v.group(1))
    out = os.path.join(scratch, "dep-" + mod.replace("/", "_"))
    os.makedirs(out, exist_ok=True)
    texts = {}
    for name, old, new in edits:
        if name not in texts:
            with open(os.path.join(root, name)) as f:
                texts[name] = f.read()
        if old not in texts[name]:
            die("no answer: %s of %s is not as expected" % (name, mod))
        texts[name] = texts[name].replace(old, new)
    texts[edits[0][0]] += HOOK
    for name, text in texts.items():
        p = os.path.join(out, name.replace("/", "_"))
        with open(p, "w") as f:
            f.write(text)
        rep[os.path.join(root, name)] = p


# Workers run in one of these time zones each: nothing the program does depends on it.
ZONES = ["UTC", "America/St_Johns", "Asia/Kathmandu", "Pacific/Kiritimati", "America/Los_Angeles"]


def zone(n):
    z = ZONES[n % len(ZONES)]
    return z if os.path.exists("/usr/share/zoneinfo/" + z) else "UTC"


# The thorough tier also mutates cases by what they cover.
FUZZ = """package %s

import (
	"testing"

	"github.com/gernest/requiemdb/internal/zzverif/kit"
)

func FuzzCase(f *testing.F) { kit.Fuzz(f, TestProperty) }
"""


def fuzzed(cfg):
    return [t for t in cfg.get("tests", []) if t.get("fuzz") and TIER == "thorough"]


def overlay(cfg, scratch):
    """Maps the sources of the check into the module."""
    rep = {}
    base = os.path.join(VERIF, "harness")
    for d in ["kit"] + cfg.get("packages", []):
        for f in sorted(glob.glob(os.path.join(base, d, "*.go"))):
            rep[os.path.join(REPO, "internal/zzverif", d, os.path.basename(f))] = f
    # what does not need the database, for builds that are costly
    for f in ["kit.go", "otlp.go"]:
        rep[os.path.join(REPO, "internal/zzverif/kitlite", f)] = os.path.join(base, "kit", f)
    # programs get the codec of the kit as well, see DESIGN.md
    for pkg in cfg.get("programs", []):
        src = os.path.join(scratch, "zstd_%s.go" % os.path.basename(pkg))
        with open(os.path.join(base, "kit/zstd.go")) as f, open(src, "w") as o:
            o.write(f.read().replace("package kit", "package main", 1))
        rep[os.path.join(REPO, pkg, "zzverif_zstd.go")] = src
    for d in {t.get("target", cfg["targets"][0]) for t in fuzzed(cfg)} if "targets" in cfg else ():
        src = os.path.join(scratch, "fuzz_%s_test.go" % os.path.basename(d))
        with open(src, "w") as o:
            o.write(FUZZ % os.path.basename(d))
        rep[os.path.normpath(os.path.join(REPO, d, "zzfuzz_test.go"))] = src
    for mod, edits in (INSTRUMENT.items() if cfg.get("instrument") else []):
        instrument(mod, edits, rep, scratch)
    p = os.path.join(scratch, "overlay.json")
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f)
    return p


def modfile(scratch):
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = f.read()
    with open(os.path.join(REPO, "go.sum")) as f:
        s = f.read()
    if "pgregory.net/rapid" not in mod:
        mod += "\nrequire pgregory.net/rapid v1.3.0\n"
        mod = re.sub(r"(?m)^go 1\.2[0-2](\.\d+)?$", "go 1.23", mod)
    with open(os.path.join(VERIF, "harness/mod/rapid.sum")) as f:
        for line in f:
            if line not in s:
                s += line
    with open(os.path.join(scratch, "go.mod"), "w") as f:
        f.write(mod)
    with open(os.path.join(scratch, "go.sum"), "w") as f:
        f.write(s)
    return os.path.join(scratch, "go.mod")


def racy(cfg, t):
    """Whether a test runs with the race detector."""
    return bool(t.get("race")) or bool(cfg.get("race") and TIER == "thorough")


def build(cfg, scratch):
    ov, mf = overlay(cfg, scratch), modfile(scratch)
    bins = {}
    want = {(t.get("target", cfg["targets"][0]), racy(cfg, t)) for t in cfg["tests"]}
    if cfg.get("plain"):
        want.add((cfg["targets"][0], racy(cfg, {})))

    want |= {(t.get("target", cfg["targets"][0]), "fuzz") for t in fuzzed(cfg)}

    def one(pkg, race):
        kind = "" if not race else "_fuzz" if race == "fuzz" else "_race"
        out = os.path.join(scratch, pkg.strip("./").replace("/", "_") + kind + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", mf, "-o", out]
        if race == "fuzz":
            cmd.append("-fuzz=FuzzCase")
        elif race:
            cmd.append("-race")
        cmd.append(pkg)
        p = subprocess.run(cmd, cwd=REPO, env=go_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return out, "" if not p.returncode and os.path.exists(out) else p.stdout + "\nfailed"

    def program(pkg):
        out = os.path.join(scratch, "prog-" + os.path.basename(pkg))
        p = subprocess.run(["go", "build", "-overlay", ov, "-modfile", mf, "-o", out, pkg], cwd=REPO, env=go_env(scratch),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return out, "" if not p.returncode and os.path.exists(out) else p.stdout + "\nfailed"

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = {k: ex.submit(one, *k) for k in sorted(want, key=str)}
        for pkg in cfg.get("programs", []):
            fs["program", pkg] = ex.submit(program, pkg)
    for k, f in fs.items():
        out, err = f.result()
        if err:
            die("the check does not build with this tree\n" + err[-6000:])
        bins[k] = out
    return bins


def worker(job, scratch, deadline, failfile=None, again=False):
    """One process that checks one test with one seed."""
    d = tempfile.mkdtemp(prefix="w-", dir=scratch)
    tmp = os.path.join(d, "tmp")
    cwd = os.path.join(d, "cwd")
    os.mkdir(tmp)
    os.mkdir(cwd)
    e = go_env(scratch)
    e.update(VERIF_OUT=d, TMPDIR=tmp, HOME=cwd, XDG_CACHE_HOME=tmp, GOMAXPROCS=str(job.get("procs", 2)), VERIF_TIER=TIER,
             VERIF_KNOWN=os.path.join(VERIF, "KNOWN_FINDINGS"), GOTRACEBACK="all", GOGC="400", GOMEMLIMIT="1500MiB", GORACE="atexit_sleep_ms=0")
    e["VERIF_REPO"] = REPO
    e["TZ"] = job.get("zone", "UTC")
    e["VERIF_BIN"] = scratch  # prog-NAME of each program
    left = max(5, int(deadline - time.time()))
    cmd = [job["bin"], "-test.run", "^%s$" % job["test"], "-test.timeout", "%ds" % left, "-test.count=1"]
    if job["checks"]:
        cmd += ["-rapid.checks", str(job["checks"]), "-rapid.seed", str(job["seed"]),
                "-rapid.shrinktime", job.get("shrink", "20s")]
        if job.get("steps"):
            cmd += ["-rapid.steps", str(job["steps"])]
    if job.get("fuzz"):
        cmd = [job["bin"], "-test.run", "^$", "-test.fuzz", "^FuzzCase$", "-test.fuzztime", "%ds" % job["fuzz"],
               "-test.fuzzcachedir", os.path.join(d, "corpus"), "-test.parallel", "8", "-test.fuzzminimizetime", "60s"]
    if job.get("fuzz") and (failfile or again):
        inputs = os.path.join(cwd, "testdata/fuzz/FuzzCase")
        os.makedirs(inputs)
        if failfile:
            shutil.copy(failfile, inputs)
        cmd = [job["bin"], "-test.run", "^FuzzCase$", "-test.timeout", "%ds" % left]
    elif failfile:
        cmd += ["-rapid.failfile", failfile]
    log = os.path.join(d, "log")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        children.add(p)
        try:
            rc = p.wait(timeout=left + 20)
            why = ""
        except subprocess.TimeoutExpired:
            rc, why = -9, "timeout"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            children.discard(p)
    with open(log, errors="replace") as f:
        text = f.read()
    st = None
    try:
        with open(os.path.join(d, "stats.json")) as f:
            st = json.load(f)
    except (OSError, ValueError):
        pass
    for name in glob.glob(os.path.join(d, "fuzz-*.json")):
        with open(name) as f:
            x = json.load(f)
        st = st or {"evaluations": 0, "nontrivial": 0, "hashes": [], "classes": {}, "excluded": {}, "samples": [], "failed": False}
        st["evaluations"] += x["evaluations"]
        st["nontrivial"] += x["nontrivial"]
        st["hashes"] += x["hashes"] or []
        st["samples"] += x["samples"] or []
        st["failed"] = rc != 0
        for k in ("classes", "excluded"):
            for n, v in (x[k] or {}).items():
                st[k][n] = st[k].get(n, 0) + v
    cur = ""
    try:
        with open(os.path.join(d, "current")) as f:
            cur = f.read()
    except OSError:
        pass
    fails = glob.glob(os.path.join(cwd, "testdata/rapid/*/*.fail")) + glob.glob(os.path.join(cwd, "testdata/fuzz/FuzzCase/*"))
    if not why and "panic: test timed out" in text:
        why = "timeout"
    if not why and (rc in (-9, 137) or "cannot allocate memory" in text or "out of memory" in text or "no space left" in text):
        why = "resources"
    return {"job": job, "rc": rc, "log": text, "stats": st, "current": cur, "fail": fails[0] if fails else None,
            "why": why, "dir": d, "stuck": rc == 70}


def known(log):
    return [l for l in log.splitlines() if l.startswith("KNOWN-FINDING: ")]


def tail(s, n=12000):
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def violation(pid, r, how):
    d = os.path.join(VERIF, "replay", pid)
    os.makedirs(d, exist_ok=True)
    name = "%s-%d" % (r["job"]["test"], r["job"]["seed"])
    ff = None
    if r["fail"]:
        ff = name + ".fail"
        shutil.copy(r["fail"], os.path.join(d, ff))
    path = os.path.join(d, name + ".json")
    job = {k: v for k, v in r["job"].items() if k != "bin"}
    with open(path, "w") as f:
        json.dump({"property": pid, "how": how, "job": job, "tier": TIER, "failfile": ff, "case": (r["stats"] or {}).get("fail_case", ""),
                   "log": tail(r["log"])}, f, indent=1)
    print(tail(r["log"], 6000))
    print("VIOLATION property=%s replay=%s" % (pid, path))


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    pid = args[0]
    if pid == "--setup":
        # checks build everything themselves from the tree they find
        sys.exit(subprocess.run(["go", "version"], env=go_env("/tmp")).returncode)
    with open(os.path.join(VERIF, "checks.json")) as f:
        cfg = json.load(f)[pid]
    start = time.time()
    replay = args[2] if len(args) > 2 and args[1] == "--replay" else None
    # quick: 600 s in all, the sandbox allows 900 s
    deadline = start + LIMIT[TIER]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)

    def stop(*_):
        for p in list(children):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)

    for sig in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(sig, stop)
    try:
        rc = run(pid, cfg, scratch, start, deadline, replay)
    finally:
        for p in list(children):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(pid, cfg, scratch, start, deadline, replay):
    global TIER
    if replay:
        with open(replay) as f:
            r = json.load(f)
        TIER = r["tier"]
    bins = build(cfg, scratch)
    jobs = []
    if replay:
        job = r["job"]
        job["bin"] = bins[job["target"], job.get("race", False)]
        ff = os.path.join(os.path.dirname(os.path.abspath(replay)), r["failfile"]) if r.get("failfile") else None
        res = worker(job, scratch, deadline, ff, True)
        print(tail(res["log"], 30000))
        if res["rc"] and not res["why"]:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 2 if res["why"] else 0
    n = 0
    for test in cfg["tests"]:
        t = dict(test)
        workers = t.get("workers", 7)
        checks = t["thorough" if TIER == "thorough" else "quick"]
        per = max(1, checks // workers)
        for w in range(workers):
            n += 1
            jobs.append({"test": t["name"], "target": t.get("target", cfg["targets"][0]), "checks": per,
                         "race": racy(cfg, t), "seed": (SEED * 1000003 + n * 7919) % (1 << 62) + 1, "steps": t.get("steps"),
                         "procs": t.get("procs", 2), "zone": zone(n + SEED), "shrink": t.get("shrink", "20s")})
    # they use all processors: one after another, after the others
    jobs += [{"test": "FuzzCase", "target": t.get("target", cfg["targets"][0]), "checks": 0, "race": "fuzz", "seed": 0, "fuzz": t["fuzz"]} for t in fuzzed(cfg)]
    for t in cfg.get("plain", []):
        jobs.insert(0, {"test": t, "target": cfg["targets"][0], "checks": 0, "seed": 0, "race": racy(cfg, {}), "plain": True})
    for j in jobs:
        j["bin"] = bins[j["target"], j["race"]]
    results, bad, unknown = [], None, None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(worker, j, scratch, deadline) for j in jobs]
        for f in concurrent.futures.as_completed(fs):
            r = f.result()
            results.append(r)
            if r["rc"] == 0 and (r["stats"] or r["job"].get("plain")):
                shutil.rmtree(r["dir"], ignore_errors=True)
                continue
            if r["why"]:
                unknown = unknown or r
                continue
            if bad is None:
                bad = r
                for g in fs:
                    g.cancel()
                for p in list(children):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                break
    for r in results:
        for l in known(r["log"]):
            print(l)
    if bad is not None and not bad["job"].get("fuzz") and "WARNING: DATA RACE" not in bad["log"] and not (bad["stats"] and bad["stats"]["failed"]) and not bad["job"].get("plain"):
        # the process died: confirm that it is not an accident
        again = worker(bad["job"], scratch, deadline)
        if again["why"] or again["rc"] == 0:
            unknown, bad = bad, None
            unknown["why"] = "the process died once: not confirmed"
        elif again["stuck"] != bad["stuck"] or (bad["stuck"] and again["current"] != bad["current"]):
            unknown, bad = bad, None
            unknown["why"] = "stuck: not confirmed"
        else:
            bad = again
    elif bad is not None and bad["job"].get("fuzz"):
        # the input that was found, or one of those it starts with
        again = worker(bad["job"], scratch, deadline, bad["fail"], True)
        if again["why"] or again["rc"] == 0:
            unknown, bad = bad, None
            unknown["why"] = "the input that was found does not fail again"
        else:
            bad["log"] += again["log"]
    write_evidence(pid, cfg, results, start, bad)
    if bad is not None:
        how = "stuck" if bad["stuck"] else "failed" if bad["stats"] else "died"
        violation(pid, bad, how)
        return 1
    if unknown is not None:
        print(tail(unknown["log"], 8000), file=sys.stderr)
        die("no answer: %s (exit %s)" % (unknown["why"], unknown["rc"]))
    ev = sum((r["stats"] or {}).get("evaluations", 0) for r in results)
    if not ev:
        die("no case was evaluated")
    print("%s: held on %d cases (%.0f s)" % (pid, ev, time.time() - start))
    return 0


def write_evidence(pid, cfg, results, start, bad):
    hashes, classes, excluded, samples, per = set(), {}, {}, [], {}
    ev = nt = 0
    for r in sorted(results, key=lambda r: (r["job"]["test"], r["job"]["seed"])):
        st = r["stats"]
        if not st:
            continue
        t = r["job"]["test"]
        ev += st["evaluations"]
        nt += st["nontrivial"]
        p = per.setdefault(t, {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": set()})
        p["evaluations"] += st["evaluations"]
        p["nontrivial"] += st["nontrivial"]
        for h in st["hashes"] or []:
            hashes.add((t, h))
            p["distinct_nontrivial"].add(h)
        for k, v in (st["classes"] or {}).items():
            classes[t + "/" + k] = classes.get(t + "/" + k, 0) + v
        for k, v in (st["excluded"] or {}).items():
            excluded[t + "/" + k] = excluded.get(t + "/" + k, 0) + v
        n = sum(1 for s in samples if s.startswith(t + ": "))
        if n < 3:
            samples += [t + ": " + s[:3000] for s in (st["samples"] or [])[:1]]
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
    if not samples:
        samples = ["(no non-trivial case completed)"]
    e = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples,
                      "tests": per, "classes": dict(sorted(classes.items())), "excluded": excluded, "workers": len(results)},
         "violations": 1 if bad else 0, "wall_s": round(time.time() - start, 2)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


main()
