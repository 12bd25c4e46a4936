"""Builds, runs TLC and the driver, and reports."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")         # a copy only while developing the checks
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
CORES = max(2, min(8, os.cpu_count() or 2))
EVENT_LIMIT = 20            # violations looked at per run


class ToolError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(PATH="/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin"),
               HOME=env.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
               GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


class Run:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.started = time.time()
        self.models = []            # what was model checked
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.assumptions = []
        self.counts = {}
        self.bins = {}

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.started), *a, flush=True)

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # -- building ---------------------------------------------------------
    def build(self, race=False):
        if race in self.bins:
            return self.bins[race]
        src = self.path("harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            # the library's own requirements, as they are now
            mod = open(os.path.join(REPO, "go.mod")).read()
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
            reqs = sorted(set(re.findall(r"^\s*(?:require\s+)?([\w./-]+ v[\w.+-]+)", mod, re.M)))
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write("module verif/harness\n\ngo 1.25\n\nrequire (\n")
                f.write("\tgithub.com/codeallergy/value v0.0.0\n")
                for r in reqs:
                    f.write("\t%s\n" % r)
                f.write(")\n\nreplace github.com/codeallergy/value => %s\n" % REPO)
        out = self.path("harness-race" if race else "harness-bin")
        cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise ToolError("the driver does not build:\n" + p.stdout + p.stderr)
        self.bins[race] = out
        return out

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", stack="256m", timeout=800,
            extra=(), ok_codes=(0,)):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE"]
        cmd += ["-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC takes too long on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if p.returncode not in ok_codes:
            raise TlcError("TLC fails on %s (%d):\n%s" % (module, p.returncode, tlc_message(p.stdout + p.stderr)),
                           p.stdout)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        return p.stdout, gen, dist

    def model(self, module, cfg=None, env=None, workers=CORES, expect=None, **kw):
        """Check a model; the property of the design it states must hold."""
        t = time.time()
        out, gen, dist = self.tlc(module, cfg, env, workers, **kw)
        self.states += dist
        self.transitions += gen
        self.models.append({"model": module, "config": os.path.basename(cfg or module + ".cfg"), "states": dist,
                            "generated": gen, "seconds": round(time.time() - t, 1)})
        self.log("model %s (%s): %d states, %d generated" % (module, os.path.basename(cfg or "default"), dist, gen))
        return out

    def cfg(self, name, text):
        path = self.path(name + ".cfg")
        with open(path, "w") as f:
            f.write(text)
        return path

    def breaks(self, module, cfg, env=None):
        """A model with a defect in the design, which TLC must report."""
        out, gen, dist = self.tlc(module, cfg, env, CORES, ok_codes=(12, 13))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": module, "config": os.path.basename(cfg), "states": dist, "generated": gen,
                            "expected": "violated"})
        self.log("model %s (%s): violated, as it must be" % (module, os.path.basename(cfg)))

    def generate(self, module, cfg=None, env=None, **kw):
        """Have TLC write cases (behaviours of the specification) to a file."""
        out = self.path("gen-%s-%s.ndjson" % (module, hashlib.md5(repr((cfg, env)).encode()).hexdigest()[:6]))
        e = dict(env or {})
        e["OUT"] = out
        e.setdefault("SEED", str(self.seed))
        self.model(module, cfg, e, **kw)
        with open(out) as f:
            # TLC writes each case as a string that holds JSON
            return [json.loads(json.loads(line)) for line in f if line.strip()]

    # -- the driver -------------------------------------------------------
    def drive(self, cases, name, race=False, limit=40, shards=CORES, extra_env=None, memory=6 << 30):
        """Run the cases on the real code; gives the events, in order."""
        binary = self.build(race)
        shards = max(1, min(shards, (len(cases) + 49) // 50))
        parts = split(cases, shards)
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda ip: self._drive(binary, ip[1], "%s-%d" % (name, ip[0]), race, limit,
                                                     extra_env, memory), enumerate(parts)))
        return [e for r in res for e in r]

    def _drive(self, binary, cases, name, race, limit, extra_env, memory):
        fin, fout, fj = self.path(name + ".cases"), self.path(name + ".events"), self.path(name + ".journal")
        with open(fin, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        if os.path.exists(fout):
            os.remove(fout)
        skip, deaths, notes = 0, 0, {}
        while True:
            cmd = [binary, "-test.run", "^TestHarness$", "-in", fin, "-out", fout, "-journal", fj, "-skip", str(skip), "-limit", str(limit)]
            env = go_env()
            env.update(GOTRACEBACK="single", GOMAXPROCS="4")
            env.update(extra_env or {})
            if race:
                env["GORACE"] = "halt_on_error=1 exitcode=66"

            def limits():
                if not race:
                    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               preexec_fn=limits, timeout=850)
            at = open(fj).read().strip() if os.path.exists(fj) else ""
            if p.returncode == 0 and at == "done":
                break
            err = p.stderr.decode("utf8", "replace")
            if p.returncode == 2 and ("harness:" in err) and "goroutine" not in err:
                raise ToolError("the driver fails: " + tail(err))
            if not at.isdigit():
                raise ToolError("the driver does not start: %d %s" % (p.returncode, tail(err)))
            n = int(at)
            # the case that ended the process
            kind = "hang" if p.returncode == 7 else "race" if p.returncode == 66 else "crash"
            with open(fout, "rb") as f:
                have = f.read().count(b"\n")
            with open(fout, "ab") as f:
                if have == n:
                    c = dict(cases[n])
                    c["out"] = kind
                    c["what"] = tail(err, 1500)
                    f.write((json.dumps(c) + "\n").encode())
            deaths += 1
            skip = n + 1
            if deaths > 3 or skip >= len(cases):
                break
        with open(fout) as f:
            return [json.loads(line) for line in f]

    # -- judging ----------------------------------------------------------
    def judge(self, events, module, cfg=None, env=None, shards=CORES, group=None, heap="3g", minimum=30,
              timeout=800):
        """Have TLC decide for each event whether it is a behaviour of the
        specification; gives the indexes of those that are not, with reasons.
        With group, events are histories: consecutive events of the same
        group must stay together."""
        if not events:
            raise ToolError("no events to judge")
        if group:
            units = []
            for e in events:
                if units and units[-1][0][group] == e[group]:
                    units[-1].append(e)
                else:
                    units.append([e])
        else:
            units = [[e] for e in events]
        shards = max(1, min(shards, (len(units) + minimum - 1) // minimum))
        # deal by size, so that the shards take about as long
        order = sorted(range(len(units)), key=lambda i: -sum(len(json.dumps(e)) for e in units[i]))
        bins, load = [[] for _ in range(shards)], [0] * shards
        for i in order:
            k = load.index(min(load))
            bins[k].append(i)
            load[k] += 60 + sum(len(json.dumps(e)) for e in units[i])
        base, n = [], 0
        for u in units:
            base.append(n)
            n += len(u)

        def one(k):
            idx = sorted(bins[k])
            where = [base[i] + j for i in idx for j in range(len(units[i]))]
            dist = gen = 0
            odd = []
            while where:
                tag = "%s-%d-%d" % (module, k, random.getrandbits(40))
                trace, report = self.path(tag + ".trace"), self.path(tag + ".report")
                with open(trace, "w") as f:
                    for w in where:
                        f.write(json.dumps(events[w], separators=(",", ":")) + "\n")
                e = {"TRACE": trace, "REPORT": report, "PROP": self.prop}
                e.update(env or {})
                try:
                    out, g, d = self.tlc(module, cfg, e, 1, heap=heap, timeout=timeout)
                except TlcError as err:
                    # an event of another shape than any behaviour of the specification has
                    pos = re.findall(r"^/\\ pos = (\d+)$", err.out, re.M)
                    if not pos or not re.search(r"evaluating the nested|unable to fingerprint", err.out) or re.search(r"StackOverflow|OutOfMemory", err.out):
                        raise
                    n = int(pos[-1])
                    self.log("not of the form the specification gives it: event %d" % where[n], tlc_message(err.out)[:300])
                    odd.append((where[n], ["not of the form the specification gives it"]))
                    if group or len(odd) >= 4:
                        break
                    del where[n]
                    continue
                finally:
                    if os.path.exists(trace):
                        os.remove(trace)
                dist, gen = dist + d, gen + g
                if not os.path.exists(report):
                    raise ToolError("TLC gives no report on %s:\n%s" % (module, tail(out)))
                rep = json.load(open(report))
                if rep["events"] != len(where):
                    raise ToolError("TLC judged %s of %d events" % (rep["events"], len(where)))
                odd += [(where[b[0] - 1], b[1]) for b in rep["bad"]]
                break
            return odd, dist, gen

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        bad = sorted(b for r in res for b in r[0])
        self.states += sum(r[1] for r in res)
        self.transitions += sum(r[2] for r in res if len(r) > 2)
        self.traces += len(units)
        self.events += len(events)
        self.log("judged %d events (%d traces) with %s: %d bad" % (len(events), len(units), module, len(bad)))
        return bad

    def check(self, cases, module, name, cfg=None, env=None, drive=None, group=None, sample=None, **kw):
        """Drive the cases, judge the events, and keep what is bad."""
        events = self.drive(cases, name, **(drive or {}))
        bad = self.judge(events, module, cfg, env, group=group, **kw)
        self.counts[name] = self.counts.get(name, 0) + len(cases)
        for e in (events[:1] if sample is None else sample(events)):
            if len(self.samples) < 12:
                self.samples.append(shorten(e))
        for i, why in bad:
            self.violation(events[i], why, events, i, group, module)
        return events

    def violation(self, event, why, events=None, i=None, group=None, module=None):
        item = {"property": self.prop, "why": sorted(why), "judge": module, "event": event}
        if group:
            item["history"] = [e for e in events[:i] if e[group] == event[group]]
        k = known_finding(self.prop, event, why)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        self.violations.append(item)

    # -- reporting --------------------------------------------------------
    def finish(self, level):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_judged": self.events,
            "models": self.models, "cases": self.counts,
            "samples": self.samples or ["none"],
        }
        if level == "fault_enumeration" or level == "exploration":
            cov["evaluations"] = self.events
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.started, 1), "violations": len(self.violations)}
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not self.violations:
            self.log("property %s holds on everything explored" % self.prop)
            return 0
        rd = os.path.join(EVIDENCE, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (self.prop, self.seed))
        self.violations.sort(key=lambda v: len(json.dumps(v)))
        with open(path, "w") as f:
            json.dump(self.violations[:EVENT_LIMIT], f, indent=1)
            f.write("\n")
        for v in self.violations[:5]:
            print("  %s: %s" % ("; ".join(v["why"]), json.dumps(shorten(v["event"]))[:600]))
        print("%d violations" % len(self.violations))
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
        return 1

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def known_finding(prop, event, why):
    path = os.path.join(VERIF, "known-findings.jsonl")
    if not os.path.exists(path):
        return None
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("kind") != "known" or k["property"] != prop:
                continue
            if set(why) <= set(k["why"]) and all(event.get(a) == b for a, b in k["event"].items()):
                return k["what"]
    return None


def shorten(x, n=40):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > n:
            return [shorten(v, n) for v in x[:n]] + ["... %d in all" % len(x)]
        return [shorten(v, n) for v in x]
    if isinstance(x, str) and len(x) > 2000:
        return x[:2000] + "..."
    return x


class TlcError(ToolError):
    def __init__(self, text, out):
        ToolError.__init__(self, text)
        self.out = out


def tlc_message(s):
    """what TLC says went wrong, without the behaviour that led to it"""
    at = s.find("\nError: ")
    if at < 0:
        return tail(s)
    lines, keep = s[at:].splitlines(), []
    for line in lines:
        if line.startswith("Error: The behavior up to this point"):
            break
        keep.append(line)
    more = [x for x in lines[len(keep):] if not x.startswith(("State ", "/\\ ")) and x.strip()]
    return tail("\n".join(keep + more), 3000)


def tail(s, n=3000):
    return s if len(s) <= n else s[:600] + "\n...\n" + s[-(n - 600):]


def split(xs, n):
    out = [xs[i * len(xs) // n:(i + 1) * len(xs) // n] for i in range(n)]
    return [x for x in out if x]


def replay(run, path):
    """run the cases of a replay file again"""
    found = 0
    with open(path) as f:
        items = json.load(f)
    for module in sorted({x["judge"] for x in items if x["judge"]}):
        cases = [x["event"] for x in items if x["judge"] == module]
        events = run.drive(cases, "replay", race=run.prop == "C21", limit=60)
        for i, why in run.judge(events, module):
            found += 1
            print("  %s: %s" % ("; ".join(sorted(why)), json.dumps(shorten(events[i]))[:2000]))
    print("%d violations" % found)
    return 1 if found else 0


def main(args):
    if not args:
        print(__doc__ or "run.py PROPERTY")
        return 2
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if "--quick" in args:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    run = Run(prop, tier, seed)
    try:
        if "--replay" in args:
            return replay(run, args[args.index("--replay") + 1])
        mod = importlib.import_module("checks")
        level = mod.CHECKS[prop](run)
        return run.finish(level)
    except ToolError as e:
        print("ERROR:", e, flush=True)
        return 2
    finally:
        run.close()
