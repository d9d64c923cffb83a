#!/usr/bin/env python3
"""Runs the monitors of one property against the tracker in /repo.

usage: check.py PROPERTY    (VERIF_SEED and VERIF_TIER from the environment)

Builds what the property needs from /repo's working tree, runs the monitors in
a scratch directory, collects what they observed, race detector reports and
crashes, and writes evidence/PROPERTY.json.
exit 0: held on everything observed; 1: VIOLATION line; 2: no verdict.
"""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
INSTRUMENTED = ["tracker/storage/map", "tracker/udp", "tracker/http", "tracker/stats", "pools"]
sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402


def base_env(home):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("TRAKX_") and k not in ("PORT", "DATABASE_URL", "GORACE", "GODEBUG", "GOFLAGS", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GOTRACEBACK", "GOEXPERIMENT")}
    env.update(HOME=home, LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOSUMDB="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOTELEMETRY="off")
    return env


def usual_process():
    """The monitors and trackers start with signals and a mask like in any shell:
    what was started in the background, say, has its interrupts ignored."""
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    for s in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.umask(0o022)


class NoVerdict(Exception):
    pass


class Runner:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.dir = tempfile.mkdtemp(prefix="vmon-")
        os.chmod(self.dir, 0o755)
        self.home = os.path.join(self.dir, "home")
        os.mkdir(self.home)
        self.built = {}
        self.notes = []
        self.violations = []
        self.known = {}  # listed findings that were seen
        self.builds = []

    # ---- building
    def overlay(self, instrument, export):
        """Writes an overlay of yield-instrumented sources and exports."""
        key = "ov%d%d" % (instrument, export)
        out = os.path.join(self.dir, key)
        if os.path.isdir(out):
            done = os.path.join(out, "overlay.json")
            return done if os.path.exists(done) else None
        os.mkdir(out)
        tool = os.path.join(self.dir, "instr.bin")
        if not os.path.exists(tool):
            self.go(["build", "-o", tool, "./instr"])
        args = []
        if instrument:
            args += INSTRUMENTED
        if export:
            for root, _, files in os.walk(os.path.join(HARNESS, "export")):
                for f in files:
                    src = os.path.join(root, f)
                    args.append(os.path.relpath(src, os.path.join(HARNESS, "export"))[:-4] + "=" + src)
        p = subprocess.run([tool, REPO, out] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            self.notes.append("instrumentation failed: " + p.stdout[-300:])
            return None
        return os.path.join(out, "overlay.json")

    def go(self, args, cwd=HARNESS, check=True):
        env = base_env("/root")
        p = subprocess.run(["go"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if check and p.returncode:
            raise NoVerdict("go %s failed:\n%s" % (" ".join(args), p.stdout[-3000:]))
        return p

    def flags(self, spec):
        fl = ["-buildvcs=false"]
        if "race" in spec:
            fl.append("-race")
        tags = [t for t in ("fast", "heroku", "vexport") if t in spec]
        if tags:
            fl += ["-tags", ",".join(tags)]
        return fl

    def build(self, spec):
        """spec: words out of test|bin race yield fast heroku vexport"""
        key = " ".join(spec)
        if key in self.built:
            return self.built[key]
        out = os.path.join(self.dir, "b-" + "-".join(spec))
        tries = [spec]
        if "vexport" in spec:  # the inside of a package may have been renamed
            tries.append([w for w in spec if w != "vexport"])
        if "yield" in spec:
            tries.append([w for w in tries[-1] if w != "yield"])
        for i, sp in enumerate(tries):
            ov = None
            if "yield" in sp or "vexport" in sp:
                ov = self.overlay("yield" in sp, "vexport" in sp)
                if ov is None:
                    continue
            args = self.flags(sp) + (["-overlay", ov] if ov else [])
            if "bin" in sp:
                p = self.go(["build"] + args + ["-o", out, "."], cwd=REPO, check=False)
            else:
                p = self.go(["test", "-c", "-vet=off"] + args + ["-o", out, "./mon"], check=False)
            if p.returncode == 0:
                if i:
                    self.notes.append("built without %s" % (set(spec) - set(sp)))
                self.builds.append(" ".join(sp))
                self.built[key] = out
                return out
            last = p.stdout
        raise NoVerdict("build %s failed:\n%s" % (spec, last[-3000:]))

    # ---- running
    def addresses(self):
        """A network namespace of its own where the loopback has addresses of every class."""
        rnd = random.Random(self.seed)
        v4 = ["10.1.2.3", "192.168.7.8", "172.20.1.1", "100.64.1.1", "8.8.4.4", "169.254.3.3", "240.0.0.7"]
        v4 += ["%d.%d.%d.%d" % (rnd.randint(1, 126), rnd.randint(0, 255), rnd.randint(0, 255), rnd.randint(1, 254)) for _ in range(3)]
        v6 = ["2001:db8::5", "fd00::7", "2a01:4f8::9", "fe80::7", "::102:304", "64:ff9b::102:304", "2002:102:304::1"]
        v6 += ["2001:" + ":".join("%x" % rnd.randint(1, 65535) for _ in range(7)) for _ in range(3)]
        script = "ip link set lo up && "
        script += " && ".join(["ip addr add %s/32 dev lo" % a for a in v4] + ["ip -6 addr add %s/128 dev lo nodad" % a for a in v6])
        for flags in ("-Urn", "-n"):
            wrap = ["unshare", flags, "sh", "-c", script + ' && exec "$@"', "sh"]
            try:
                p = subprocess.run(wrap + ["true"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=60)
            except (OSError, subprocess.TimeoutExpired) as e:
                self.notes.append("no network namespace: %s" % e)
                return [], ""
            if p.returncode == 0:
                return wrap, ",".join(v4 + [a + "%lo" if a.startswith("fe80") else a for a in v6])
        self.notes.append("no network namespace, clients have loopback addresses only: " + p.stdout[-200:])
        return [], ""

    def run(self, n, step):
        spec = step["build"].split()
        exe = self.build(["test"] + spec)
        wd = os.path.join(self.dir, "run%d" % n)
        os.makedirs(os.path.join(wd, "home"))
        env = base_env(os.path.join(wd, "home"))
        for var, bs in step.get("bins", {}).items():
            env[var] = self.build(["bin"] + bs.split())
        scale = step.get("scale", 1) if self.tier == "quick" else step.get("thorough", 10 * step.get("scale", 1))
        out = os.path.join(wd, "out.json")
        racelog = os.path.join(wd, "race")
        env.update(VMON=step["mon"], VMON_OUT=out, VMON_DIR=wd, VMON_SCALE=str(scale), VERIF_SEED=str(self.seed),
                   VMON_VARIANT=step["build"], VERIF_TIER=self.tier, VMON_SELF=exe,
                   GORACE="halt_on_error=0 exitcode=0 history_size=5 log_path=" + racelog,
                   GOTRACEBACK="all", VMON_HARNESS=HARNESS)
        env.update(step.get("env", {}))
        wrap = []
        if step.get("net"):
            wrap, env["VMON_ADDRS"] = self.addresses()
        log = os.path.join(wd, "log")
        limit = step.get("limit", 500) if self.tier == "quick" else 6 * 3600
        start = time.time()
        timed_out = False
        with open(log, "wb") as f:
            p = subprocess.Popen(wrap + [exe, "-test.run", "^TestMon$", "-test.timeout", "0"], cwd=wd, env=env, stdout=f,
                                 stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(limit)
            except subprocess.TimeoutExpired:
                timed_out = True
                os.kill(p.pid, signal.SIGQUIT)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        wall = time.time() - start
        text = open(log, errors="replace").read()
        res = None
        if os.path.exists(out):
            res = json.load(open(out))
        where = "%s [%s]" % (step["mon"], step["build"])
        for v in (res or {}).get("violations") or []:
            self.violations.append({"monitor": where, **v})
        for name, x in ((res or {}).get("findings") or {}).items():
            if name in known_findings(self.prop):
                self.known[name] = self.known.get(name, 0) + x["times"]
            else:
                self.violations.append({"monitor": where, "what": x["what"]})
        races = 0
        for fn in sorted(os.listdir(wd)):
            if fn.startswith("race"):
                for blk in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", open(os.path.join(wd, fn), errors="replace").read(), re.S):
                    if race_in_tracker(blk, step.get("races") == "mixed"):
                        races += 1
                        if races <= 3 and step.get("races", True):
                            self.violations.append({"monitor": where, "what": "data race: " + race_title(blk), "detail": blk.split("\n")[:60]})
                    else:
                        self.notes.append("race outside the tracker: " + race_title(blk))
        if not (res and res.get("done")) and p.returncode != 0 and not timed_out and not (res and res.get("nviol")):
            crash = crash_in_tracker(text)
            if crash:
                self.violations.append({"monitor": where, "what": "crash: " + crash, "detail": tail_of_crash(text)})
            elif p.returncode == 3:
                m = re.findall(r"INCONCLUSIVE: .*", text)
                raise NoVerdict("%s: %s" % (where, m[-1] if m else text[-2000:]))
            else:
                raise NoVerdict("%s ended with %d:\n%s" % (where, p.returncode, text[-6000:]))
        if timed_out and not self.violations:
            raise NoVerdict("%s exceeded %d s\n%s" % (where, limit, text[:200] + text[-6000:]))
        if res is None:
            res = {"evaluations": 0, "distinct": 0, "counts": {}, "samples": [], "notes": ["no result file"]}
        res["wall"] = round(wall, 2)
        res["where"] = where
        res["races"] = races
        return res

    def main(self):
        start = time.time()
        p = PROPS[self.prop]
        results = []
        error = None
        try:
            for n, step in enumerate(p["steps"]):
                if self.tier == "quick" and step.get("thorough_only"):
                    continue
                results.append(self.run(n, step))
                if self.violations:
                    break
            # a monitor that had to do without the inside of a package sees less
            if not self.violations and not any("vexport" in n for n in self.notes):
                for k, least in p.get("least", {}).items():
                    got = sum(r["counts"].get(k, 0) for r in results)
                    if got < least:
                        raise NoVerdict("only %d %s observed, %d needed for a verdict" % (got, k, least))
        except NoVerdict as e:
            error = str(e)
        except subprocess.TimeoutExpired as e:
            error = str(e)
        counts = {}
        for r in results:
            for k, v in (r.get("counts") or {}).items():
                counts[k] = max(counts[k], v) if k.startswith("max_") and k in counts else counts.get(k, 0) + v
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": p.get("level", "exploration"),
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in results),
                "distinct_nontrivial": sum(r["distinct"] for r in results),
                "rule": p["rule"],
                "samples": [s for r in results for s in (r.get("samples") or [])][:6],
                "observed": counts,
                "race_detector_reports": sum(r["races"] for r in results),
                "runs": [{"run": r["where"], "evaluations": r["evaluations"], "distinct": r["distinct"], "wall_s": r["wall"]} for r in results],
                "builds": self.builds,
            },
            "assumptions": p.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(self.violations),
        }
        if self.known:
            ev["coverage"]["known_findings_seen"] = self.known
        notes = self.notes + [x for r in results for x in (r.get("notes") or [])]
        if notes:
            ev["coverage"]["notes"] = notes[:20]
        if error:
            ev["coverage"]["error"] = error[-2000:]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for name in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, known_findings(self.prop)[name]))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.prop),
                           "violations": self.violations}, f, indent=1, ensure_ascii=True)
            for v in self.violations[:5]:
                print("violated: %s: %s" % (v["monitor"], v["what"]))
                if v.get("detail"):
                    print("  " + json.dumps(v["detail"], ensure_ascii=True)[:4000])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if error:
            print("no verdict: " + error)
            return 2
        print("held: %s, %d cases, %d distinct, %s, %.1f s" % (self.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], counts, ev["wall_s"]))
        return 0


def known_findings(prop):
    """what KNOWN_FINDINGS.txt lists as not repaired: open: property=ID NAME what fails"""
    res = {}
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"open: property=(\S+) (\S+) (.*)", line)
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3).strip()
    return res


def user_frames(stack):
    """functions of a stack that are neither the runtime's nor the library's"""
    return [m for m in re.findall(r"^\s*((?:github\.com/crimist/trakx|main\.|vmon/)[^\s(]*)", stack, re.M) if "vyield" not in m]


def race_in_tracker(blk, mixed=False):
    """mixed: the monitor shares objects with the tracker, one side of it is enough"""
    parts = re.split(r"\n\n", blk)
    acc = [p for p in parts if re.search(r"(?:read|write|Read|Write|access) at 0x", p)]
    if len(acc) < 2:
        return "github.com/crimist/trakx" in blk
    if mixed:
        return any(fr and not fr[0].startswith("vmon/") for fr in map(user_frames, acc[:2]))
    for a in acc[:2]:
        fr = user_frames(a)
        if fr and fr[0].startswith("vmon/"):
            return False
    return any(user_frames(a) for a in acc[:2])


def race_title(blk):
    return " / ".join((user_frames(p) or ["?"])[0] for p in re.split(r"\n\n", blk)[:2])


def crash_in_tracker(text):
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*|SIGSEGV.*)", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    if re.search(r"fatal error: (out of memory|runtime: out of memory)", rest[:300]):
        return None
    # the first goroutine listed is the one that failed
    g = re.search(r"^goroutine \d+ .*?(?=^goroutine |\Z)", rest, re.M | re.S)
    stack = g.group(0) if g else rest
    if "all goroutines are asleep" in m.group(0):
        return m.group(0) if "crimist/trakx" in rest else None
    fr = user_frames(stack)
    fr = [x for x in fr if not x.startswith("vmon/mon.(*Ctx)")]
    if fr and not fr[0].startswith("vmon/"):
        return m.group(0)[:300] + " in " + fr[0]
    return None


def tail_of_crash(text):
    m = re.search(r"^(panic: |fatal error: |unexpected fault)", text, re.M)
    return text[m.start():].split("\n")[:60]


if __name__ == "__main__":
    usual_process()
    r = Runner(sys.argv[1])
    try:
        rc = r.main()
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
    sys.exit(rc)
