#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

usage: check.py ID [--tier quick|thorough] [--seed N] [--case NAME --mode MODE]
       check.py --prebuild

Exit 0: the property held on everything explored. Exit 1 with VIOLATION lines: it did not.
Exit 2: the check itself could not be run (no build, no disk ...).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from checks_conf import CONF  # noqa: E402

MODE_FLAGS = {
    "plain": [],
    "race": ["-race"],
    "asan": ["-asan", "-gcflags=github.com/jfcg/sorty/v2=-l"],
    "checkptr": ["-gcflags=all=-d=checkptr=2"],
}
STALL = {"plain": 90, "race": 180, "asan": 180, "checkptr": 120}


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOEXPERIMENT="arenas",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="", CGO_ENABLED="1")
    e.pop("GOFLAGS_EXTRA")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


class Infra(Exception):
    pass


def build(mode, outdir):
    out = os.path.join(outdir, "mon-" + mode)
    cmd = ["go", "build", "-buildvcs=false", "-o", out] + MODE_FLAGS[mode] + ["."]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        # a cache directory that cannot be used
        e = env()
        e["GOCACHE"] = os.path.join(outdir, "gocache")
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise Infra("build (%s) failed:\n%s%s" % (mode, r.stdout, r.stderr))
    return out


def build_cli(outdir):
    r = subprocess.run(["go", "build", "-buildvcs=false", "-o", os.path.join(outdir, "precision"), "./cmd/precision"], cwd=REPO,
                       env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Infra("build of cmd/precision failed:\n%s%s" % (r.stdout, r.stderr))


class Shard:
    def __init__(self, binary, mode, prop, tier, seed, shard, n, tmp, budget, scale, case=None, extra=(), again=False):
        self.mode, self.shard, self.case = mode, shard, case
        tag = "%s-%d%s" % (mode, shard, "-r" if again else "")
        self.dir = os.path.join(tmp, tag)
        os.makedirs(self.dir)
        self.report, self.prog = os.path.join(tmp, tag + ".json"), os.path.join(tmp, tag + ".prog")
        self.log = os.path.join(tmp, tag + ".log")
        cmd = [binary, "-prop", prop, "-tier", tier, "-mode", mode, "-seed", str(seed), "-shard", str(shard),
               "-nshards", str(n), "-out", self.report, "-progress", self.prog, "-tmp", self.dir,
               "-budget", str(budget), "-scale", str(scale)] + list(extra)
        if case:
            cmd += ["-case", case]
        e = env()
        e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=67"
        e["GOTRACEBACK"] = "all"
        if "procs" in CONF[prop]:
            e["GOMAXPROCS"] = str(CONF[prop]["procs"])
        e["MON_TMP"] = self.dir
        if os.path.isdir(tmp + "-fs"):
            e["TMPDIR"] = os.path.realpath(tmp + "-fs")
        e["MON_BIN"] = binary
        if "cli" in CONF[prop]:
            e["MON_CLI"] = os.path.join(tmp, "precision")
        self.lf = open(self.log, "wb")
        self.p = subprocess.Popen(cmd, env=e, stdout=self.lf, stderr=subprocess.STDOUT, cwd=self.dir,
                                  start_new_session=True)
        self.t0 = time.time()
        self.last, self.since, self.cpu0 = None, time.time(), 0
        self.stalled = self.hog = self.idle = False

    def current(self):
        try:
            return open(self.prog).read().strip()
        except OSError:
            return ""

    def cpu(self):
        """CPU seconds used so far."""
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0

    def poll(self, rss_limit):
        if self.p.poll() is not None:
            return True
        cur = self.current()
        now = time.time()
        if cur != self.last:
            self.last, self.since, self.cpu0 = cur, now, self.cpu()
        elif now - self.since > STALL[self.mode] and cur not in ("", "-"):
            self.stalled = True
            self.idle = self.cpu() - self.cpu0 < 0.05 * STALL[self.mode]
            self.kill(signal.SIGQUIT)
            return True
        try:
            rss = int(open("/proc/%d/statm" % self.p.pid).read().split()[1]) * 4096
            if rss > rss_limit:
                self.hog = True
                self.kill(signal.SIGKILL)
                return True
        except (OSError, IndexError):
            pass
        return False

    def kill(self, sig):
        try:
            os.killpg(self.p.pid, sig)
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        except ProcessLookupError:
            pass

    def close(self):
        self.kill(signal.SIGKILL)
        self.lf.close()

    def logtext(self, n=12000):
        t = open(self.log, "rb").read().decode("utf-8", "replace")
        return t if len(t) <= n else t[:n // 2] + "\n...\n" + t[-n // 2:]


def run_all(shards, rss_limit, hard):
    t0 = time.time()
    live = list(shards)
    while live:
        time.sleep(0.05)
        live = [s for s in live if not s.poll(rss_limit)]
        if time.time() - t0 > hard:
            for s in live:
                s.kill(signal.SIGKILL)
            raise Infra("the check ran out of its %d s" % hard)
    for s in shards:
        s.close()


def clean_case(name):
    return re.sub(r"[^A-Za-z0-9_.-]", "_", name)[:60]


def other_fs(tmp):
    """A directory for temporary files (TMPDIR) that is not on the file system of the files that are
    saved: what is made there cannot be renamed into place."""
    try:
        if os.stat("/dev/shm").st_dev == os.stat(tmp).st_dev:
            return None
        d = tempfile.mkdtemp(prefix=os.path.basename(tmp) + "-", dir="/dev/shm")
    except OSError:
        return None
    os.chmod(d, 0o777)
    os.symlink(d, tmp + "-fs")
    return d


def main():
    a = sys.argv[1:]
    if a and a[0] == "--prebuild":
        tmp = tempfile.mkdtemp(prefix="goannoy-pre-")
        try:
            for m in MODE_FLAGS:
                build(m, tmp)
            build_cli(tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("prebuilt")
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    case = mode = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--case":
            case = a[i + 1]
        elif a[i] == "--mode":
            mode = a[i + 1]
        i += 2
    conf = CONF[prop]
    t0 = time.time()
    modes = conf["modes"]
    if mode:
        modes = [x for x in modes if x[0] == mode]
    rss = int(conf.get("rss_gb", 3) * (1 << 30))
    budget = float(os.environ.get("VERIF_BUDGET", conf.get("budget", 900)))
    hard = 840 if tier == "quick" else budget * len(modes) * 3 + 1800
    tmp = tempfile.mkdtemp(prefix="goannoy-%s-" % prop)
    os.chmod(tmp, 0o755)
    shm = other_fs(tmp)
    viol, reports = [], []
    try:
        if "cli" in conf:
            build_cli(tmp)
        for m, n, scale in modes:
            b = build(m, tmp)
            if case:
                n = 1
            shards = [Shard(b, m, prop, tier, seed, s, n, tmp, budget / len(modes), scale, case) for s in range(n)]
            try:
                run_all(shards, rss, hard)
            finally:
                for s in shards:
                    s.close()
            for s in sorted(shards, key=lambda s: s.stalled):
                rep = None
                if s.p.returncode == 0 and os.path.exists(s.report):
                    rep = json.load(open(s.report))
                    reports.append(rep)
                    viol += rep["violations"] or []
                    continue
                log, cur = s.logtext(), s.current()
                if "HARNESS:" in log or s.p.returncode == 3:
                    raise Infra(log)
                if s.stalled and viol:
                    continue  # enough is known
                if s.stalled and not s.idle and not case:
                    # busy for very long: once more, alone, before calling it endless
                    again = [Shard(b, m, prop, tier, seed, s.shard, 1, tmp, budget, scale, cur, again=True)]
                    run_all(again, rss, STALL[m] * 3 + 60)
                    if not again[0].stalled and again[0].p.returncode == 0 and os.path.exists(again[0].report):
                        v2 = json.load(open(again[0].report))["violations"] or []
                        viol += v2
                        if v2:
                            continue
                        raise Infra("a case stalled once but not again: " + cur)
                    log = again[0].logtext()
                what = ("no progress for %d s (%s)" % (STALL[m], "blocked" if s.idle else "busy") if s.stalled else
                        "memory grew beyond %d GB" % (rss >> 30) if s.hog else
                        "data race" if "DATA RACE" in log else
                        "the process died (exit %s)" % s.p.returncode)
                viol.append(dict(Prop=prop, Case=cur, Msg=what, Detail=log, Seed=seed, Tier=tier, Mode=m))
            if viol:
                break
    except Infra as e:
        if not viol:
            print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
            return 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", tmp], capture_output=True)
        shutil.rmtree(tmp, ignore_errors=True)
        if shm:
            os.unlink(tmp + "-fs")
            shutil.rmtree(shm, ignore_errors=True)

    # merge
    counters, distinct, evals, cases, samples = {}, set(), 0, 0, []
    for r in reports:
        for k, x in (r["counters"] or {}).items():
            if k.startswith("max "):
                counters[k] = max(counters.get(k, 0), x)
            elif k.startswith("min "):
                counters[k] = min(counters.get(k, x), x)
            else:
                counters[k] = counters.get(k, 0) + x
        distinct.update((r["mode"], d) for d in (r["distinct"] or []))
        evals += r["evaluations"]
        cases += r["cases"]
        for s in (r["samples"] or [])[:2]:
            if len(samples) < 8:
                samples.append(s)

    known = load_known(prop)
    new = []
    for v in viol:
        k = [x for x in known if x["match"] in v["Msg"]]
        if not k:
            new.append(v)
        else:
            k[0]["seen"] = True
    if not case:
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=conf["rule"],
                                samples=samples or ["none"], cases=cases,
                                modes=[m for m, _, _ in modes], observed=counters, exhaustive=False),
                  assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in new[:3]:
            p = os.path.join(rd, "%s-%s-%s.json" % (prop, v["Mode"], clean_case(v["Case"])))
            v["replay"] = "python3 /verif/check.py %s --tier %s --seed %s --mode %s --case '%s'" % (
                prop, tier, seed, v["Mode"], v["Case"])
            json.dump(v, open(p, "w"), indent=1)
            print("%s: %s" % (v["Case"], v["Msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if not case:
        for k, least in conf.get("must_see", {}).items():
            if counters.get(k, 0) < least:
                print("CHECK-ERROR %s: the monitors saw only %d of '%s', %d expected" % (prop, counters.get(k, 0), k, least), file=sys.stderr)
                return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tier, seed, evals, len(distinct), time.time() - t0))
    return 0


def load_known(prop):
    """known-findings.txt: lines 'finding: property=ID match=<<text in the message>> what fails'."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) match=<<(.*?)>> (.*)", l)
            if m and m.group(1) == prop:
                out.append(dict(match=m.group(2), text=m.group(3)))
    return out


if __name__ == "__main__":
    sys.exit(main())
