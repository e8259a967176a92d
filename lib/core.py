"""Common machinery of the checks: building the harness from /repo's working tree,
running its drivers, running TLC, and reporting."""

import concurrent.futures
import itertools
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
NOBODY = 65534

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

GOENV = {
    "HOME": "/root",
    "LANG": "C.UTF-8",
    "PATH": "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local",
    "GOPROXY": "off",
    "GOSUMDB": "off",
    "CGO_ENABLED": "1",
    "GOPATH": "/root/go",
    "GOCACHE": "/root/.cache/go-build",
    "GOFLAGS": "-mod=mod",
    "GOWORK": "off",
}


class CheckError(Exception):
    """The check could not be carried out.  (Not a verdict about the code.)"""


class Violation:
    def __init__(self, key, what, replay):
        self.key = key  # identifies the failure (for known findings)
        self.what = what  # one line
        self.replay = replay  # JSON-able


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.lines = out.splitlines()
        m = re.findall(r"^([0-9,]+) states generated, ([0-9,]+) distinct states found", out, re.M)
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"^The number of states generated: ([0-9,]+)", out, re.M)
            self.generated = int(m[-1].replace(",", "")) if m else 0
            self.distinct = self.generated

    def tagged(self, tag):
        """The JSON documents printed with PrintT(tag \\o " " \\o ToJson(...))."""
        pre = '"' + tag + " "
        return [json.loads(json.loads(l)[len(tag) + 1:]) for l in self.lines if l.startswith(pre)]

    def text(self):
        return "\n".join(l for l in self.lines if not re.match(r"Parsing|Semantic|Linting|\"BEH|Progress", l))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.problems = []  # what could not be done
        self.notes = {}
        self.assumptions = []
        self.counter = itertools.count()
        self.only = None  # when replaying
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(self.scratch, "spec"))
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)

    # -- scale: how much to do
    def scale(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def map(self, f, items):
        return list(self.pool.map(f, items))

    def subseed(self, *what):
        return random.Random("%d %r" % (self.seed, what)).randrange(1, 2**31)

    # -- building

    def build(self, perturb=False, pkg="vh"):
        """Builds the harness against /repo's working tree.  Returns the binary's name."""
        name = self.path("bin", pkg + ("-perturbed" if perturb else ""))
        if os.path.exists(name):
            return name
        src = self.path("src-" + pkg)
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            with open(os.path.join(REPO, "go.mod")) as f:
                mod = f.read()
            mod = re.sub(r"^module .*$", "module verifharness", mod, flags=re.M)
            mod += "\nrequire github.com/bobg/fab v0.0.0\n\nreplace github.com/bobg/fab => %s\n" % REPO
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write(mod)
            shutil.copy(os.path.join(REPO, "go.sum"), src)
        os.makedirs(self.path("bin"), exist_ok=True)
        cmd = ["go", "build", "-o", name]
        if perturb:
            instr = self.path("bin", "instr")
            if not os.path.exists(instr):
                self.sh(["go", "build", "-o", instr, "./instr"], cwd=src, env=GOENV)
            over = self.path("overlay")
            os.makedirs(over, exist_ok=True)
            self.sh([instr, REPO, over], env=GOENV)
            cmd += ["-overlay", os.path.join(over, "overlay.json")]
        self.sh(cmd + ["."], cwd=src, env=GOENV)
        return name

    def build_fab(self, version, crash=False):
        """Builds the fab command, as one of several versions.  crash: able to kill itself anywhere (see instr)."""
        self.build()
        name = self.path("bin", "fab%s%s" % (version, "-crash" if crash else ""))
        cmd = ["go", "build", "-ldflags", "-X main.verifVersion=%s" % version, "-o", name]
        if crash:
            instr = self.path("bin", "instr")
            if not os.path.exists(instr):
                self.sh(["go", "build", "-o", instr, "./instr"], cwd=self.path("src-vh"), env=GOENV)
            over = self.path("overlay-crash")
            if not os.path.isdir(over):
                os.makedirs(over)
                self.sh([instr, REPO, over, "crash"], env=GOENV)
            cmd += ["-overlay", os.path.join(over, "overlay.json")]
        self.sh(cmd + ["github.com/bobg/fab/cmd/fab"], cwd=self.path("src-vh"), env=GOENV)
        return name

    def sh(self, cmd, timeout=600, **kw):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace", **kw)
        if p.returncode != 0:
            raise CheckError("command failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout[-4000:]))
        return p.stdout

    def go_for_nobody(self):
        """Makes an environment in which an unprivileged user can compile things with the modules that there are."""
        mods, cache = self.path("gomod"), self.path("gocache")
        for src, dst in ((GOENV["GOPATH"] + "/pkg/mod", mods), (GOENV["GOCACHE"], cache)):
            if not os.path.isdir(dst):
                p = subprocess.run(["cp", "-al", src, dst], stderr=subprocess.DEVNULL)
                if p.returncode != 0:
                    subprocess.run(["rm", "-rf", dst])
                    self.sh(["cp", "-a", src, dst])
        for d, _, _ in os.walk(cache):
            os.chown(d, NOBODY, NOBODY)
            os.chmod(d, 0o755)
        os.chmod(mods, 0o755)
        # (Unoptimized, because sqlite takes minutes to compile otherwise.)
        return {"PATH": GOENV["PATH"], "GOMODCACHE": mods, "GOCACHE": cache, "GOFLAGS": "-mod=mod -ldflags=-w", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local",
                "GOWORK": "off", "CGO_ENABLED": "1", "CGO_CFLAGS": "-O0 -g0", "GOGC": "400", "GOMAXPROCS": "2"}

    # -- running drivers

    def as_nobody(self, d):
        os.makedirs(d, exist_ok=True)
        os.chown(d, NOBODY, NOBODY)
        return d

    def drive(self, sub, scripts, binary=None, args=(), env=None, timeout=None, chunks=NCPU, crash_event=None):
        """Runs the scripts with a driver of the harness, as an unprivileged user in a scratch directory.
        Returns one trace (a list of events with the script's program) per script,
        or None for those not executed (after something got stuck)."""
        if not scripts:
            return []
        binary = binary or self.build()
        timeout = timeout or self.scale(300, 3000)
        chunks = min(chunks, len(scripts))
        crash_event = crash_event or {"e": "crash", "x": 0, "a": "", "ok": False, "errs": []}
        parts = [list(range(c, len(scripts), chunks)) for c in range(chunks)]
        base = next(self.counter)

        def one(c):
            idx = parts[c]
            d = self.as_nobody(self.path("run%d-%d" % (base, c)))
            work = self.as_nobody(os.path.join(d, "work"))
            inp = os.path.join(d, "in.json")
            out = os.path.join(d, "out")
            with open(inp, "w") as f:
                json.dump([scripts[i] for i in idx], f)
            e = {"PATH": GOENV["PATH"], "HOME": work, "TMPDIR": work, "LANG": "C.UTF-8", "GOTRACEBACK": "all"}
            e.update(env or {})
            crashed = {}
            killed = 0
            deadline = time.time() + timeout
            while True:
                try:
                    p = subprocess.run([binary, sub, "-in", inp, "-out", out, "-dir", work] + list(args),
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=work,
                                       user=NOBODY, group=NOBODY, extra_groups=[], timeout=max(1, deadline - time.time()),
                                       start_new_session=True)
                except subprocess.TimeoutExpired:
                    self.problems.append("driver %s took more than %d s" % (sub, timeout))
                    break
                if p.returncode == 0:
                    break
                err = p.stderr.decode(errors="replace")
                if "HARNESS" in err or "-- flag" in err:
                    raise CheckError("driver %s: %s" % (sub, err[:3000]))
                if p.returncode < 0 and -p.returncode in (signal.SIGKILL, signal.SIGTERM):
                    killed += 1
                    if killed > 2:
                        raise CheckError("driver %s killed" % sub)
                try:
                    cur = int(open(out + ".cur").read())
                except (OSError, ValueError):
                    raise CheckError("driver %s failed: %s" % (sub, err[:3000]))
                if killed == 0:
                    if "fatal error: out of memory" in err or "cannot allocate memory" in err:
                        raise CheckError("driver %s: out of memory" % sub)
                    crashed[cur] = err
                    if len(crashed) > 3:
                        break
                with open(out + ".next", "w") as f:
                    f.write(str(cur + (0 if killed else 1)))
            result = {}
            if os.path.exists(out):
                with open(out, errors="surrogateescape") as f:
                    for line in f:
                        if not line.endswith("\n"):  # cut off
                            break
                        k, _, doc = line.partition(" ")
                        result[idx[int(k)]] = json.loads(doc)
            for k, err in crashed.items():
                s = scripts[idx[k]]
                result[idx[k]] = {"prog": s.get("prog", s), "events": [dict(crash_event)], "stderr": err[:6000]}
            subprocess.run(["rm", "-rf", d])
            return result

        traces = [None] * len(scripts)
        for res in self.map(one, range(chunks)):
            for i, t in res.items():
                traces[i] = t
        return traces

    # -- TLC

    def tlc(self, module, config=None, opts=(), env=None, timeout=None, mem="2g", workers=1, allow=(0,)):
        n = next(self.counter)
        meta = self.path("tlc%d" % n)
        os.makedirs(meta)
        timeout = timeout or self.scale(500, 5000)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=%d" % (1 if workers == 1 else 4), "-Xss64m", "-Xmx" + mem,
               "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", (config or module) + ".cfg"] + list(opts) + [module + ".tla"]
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": meta, "LANG": "C.UTF-8"}
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=self.path("spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s took more than %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult(p.stdout.decode(errors="replace"), p.returncode)
        if p.returncode not in allow:
            raise CheckError("TLC on %s ended with %d:\n%s" % (module, p.returncode, r.text()[-5000:]))
        return r

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def model_check(self, module, config=None, env=None, workers=NCPU, mem="8g", opts=(), timeout=None):
        """Checks the properties of a specification itself."""
        r = self.tlc(module, config, env=env, workers=workers, mem=mem, opts=opts, timeout=timeout)
        if "No error has been found" not in r.out:
            raise CheckError("TLC on %s:\n%s" % (module, r.text()[-5000:]))
        self.count(r)
        self.notes.setdefault("design_models", []).append(
            {"module": module, "config": config or module, "states": r.distinct, "transitions": r.generated})
        return r

    def generate(self, module, progs, num, config=None, depth=3000, chunks=NCPU, env=None, seed=None):
        """Has TLC simulate behaviours of a specification.  Returns what it printed with tag BEH."""
        chunks = max(1, min(chunks, len(progs) if progs is not None else chunks))
        n = next(self.counter)
        parts = [list(range(c, len(progs), chunks)) for c in range(chunks)] if progs is not None else [None] * chunks

        def one(c):
            e = dict(env or {})
            if progs is not None:
                name = self.path("progs%d-%d.json" % (n, c))
                with open(name, "w") as f:
                    json.dump([progs[i] for i in parts[c]], f)
                e["PROGS"] = name
            r = self.tlc(module, config, env=e, opts=["-simulate", "num=%d" % max(1, num // chunks), "-depth", str(depth),
                                                      "-seed", str((seed or self.subseed(module, n)) + c)])
            if "Finished in" not in r.out or "Error:" in r.out:
                raise CheckError("TLC on %s:\n%s" % (module, r.text()[-5000:]))
            behs = r.tagged("BEH")
            for b in behs:
                if progs is not None:
                    b["tid"] = parts[c][b["tid"] - 1]  # 0-based
            return r, behs

        behs = []
        for r, b in self.map(one, range(chunks)):
            self.count(r)
            behs += b
        if not behs:
            raise CheckError("TLC generated no behaviours of " + module)
        return behs

    def validate(self, module, progs, traces, config=None, chunks=NCPU, env=None, count=True):
        """Has TLC check recorded traces (event lists) against a trace specification.
        Returns the list of rejections, as dicts with tid (0-based), at (1-based), why, ev."""
        if not traces:
            return []
        chunks = max(1, min(chunks, len(traces) // 4))
        n = next(self.counter)
        parts = [list(range(c, len(traces), chunks)) for c in range(chunks)]

        def one(c):
            pn, tn = self.path("p%d-%d.json" % (n, c)), self.path("t%d-%d.json" % (n, c))
            with open(pn, "w") as f:
                json.dump([progs[i] for i in parts[c]], f)
            with open(tn, "w") as f:
                json.dump([traces[i] for i in parts[c]], f)
            e = {"PROGS": pn, "TRACES": tn}
            e.update(env or {})
            r = self.tlc(module, config, env=e)
            if "Model checking completed. No error has been found" not in r.out:
                raise CheckError("TLC on %s:\n%s" % (module, r.text()[-5000:]))
            rejects = {}
            for j in r.tagged("REJECT"):
                j["tid"] = parts[c][j["tid"] - 1]
                # A trace spec may be nondeterministic:
                # the rejection that counts is the one that got furthest.
                if j["tid"] not in rejects or rejects[j["tid"]]["at"] < j["at"]:
                    rejects[j["tid"]] = j
            incomplete = {}
            for l in r.lines:
                m = re.match(r'"INCOMPLETE ([0-9]+) ([0-9]+)"', l)
                if m:
                    incomplete[parts[c][int(m[1]) - 1]] = int(m[2])
            for i, at in incomplete.items():
                if i not in rejects:
                    raise CheckError("trace %d incomplete at %d but not rejected\n%s" % (i, at, json.dumps(traces[i])[:3000]))
            bad = [rejects[i] for i in incomplete]
            os.remove(pn)
            os.remove(tn)
            return r, bad

        result = []
        for r, bad in self.map(one, range(chunks)):
            if count:
                self.count(r)
            result += bad
        if count:
            self.traces += len(traces)
        return sorted(result, key=lambda j: j["tid"])

    # -- results

    def violation(self, key, what, replay):
        self.violations.append(Violation(key, what, replay))

    def sample(self, s):
        if len(self.samples) < 3:
            txt = json.dumps(s)
            self.samples.append(s if len(txt) < 6000 else txt[:6000] + "...")

    def cleanup(self):
        self.pool.shutdown(wait=False)
        subprocess.run(["rm", "-rf", self.scratch])

    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            with open(kf) as f:
                for e in json.load(f)["findings"]:
                    if e["property"] == self.prop:
                        known[e["key"]] = e["what"]
        fresh, seen = [], set()
        for v in self.violations:
            if v.key in known:
                seen.add(v.key)
            else:
                fresh.append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples},
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        ev["coverage"].update(self.notes)
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        if not fresh:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        done = {}
        for v in fresh:
            if done.get(v.key, 0) >= 2 or sum(done.values()) >= 12:
                continue
            done[v.key] = done.get(v.key, 0) + 1
            name = os.path.join(d, "%s-%d.json" % (self.prop, sum(done.values())))
            with open(name, "w") as f:
                json.dump({"property": self.prop, "key": v.key, "what": v.what, "seed": self.seed, "tier": self.tier, "replay": v.replay},
                          f, indent=1)
            print("-- %s" % v.what)
            print("VIOLATION property=%s replay=%s" % (self.prop, name))
        print("%d violations" % len(fresh))
        return 1


def main(prop, run):
    c = Check(prop)
    try:
        run(c)
        if c.problems and not c.violations:
            raise CheckError(c.problems[0])
        rc = c.finish()
    except CheckError as e:
        # Violations found so far were found in the real code; they count.
        if c.violations:
            print("(also: %s)" % str(e)[:2000])
            rc = c.finish()
        else:
            print("CHECK ERROR: %s" % e)
            rc = 3
    finally:
        c.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
