#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the harness against /repo's working tree, model-checks the property's
specifications with TLC, records traces of the real code (random ones and
behaviours generated by TLC) and validates them against the trace
specifications.  Exit 0: held.  1: VIOLATION printed.  2: the check is broken.
"""
import collections, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import derive
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(VERIF, "harness/target")
BIN = os.path.join(TARGET, "debug")


class Broken(Exception):
    pass


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.violations = []          # (what, replay)
        self.known = set()
        self.cov = collections.Counter()
        self.events = collections.Counter()
        self.results = collections.Counter()
        self.samples = []
        self.jobs = []                # per job summary
        self.nreplay = 0

    # ---------------------------------------------------------------- build
    def build(self):
        # With debug assertions and overflow checks, and as in a release build.
        for profile in ("dev", "plain"):
            rc, out = self.cargo("harness", profile, "--bins")
            if rc != 0:
                sys.stdout.write(out[-6000:])
                raise Broken("the harness does not build against /repo")
        self.types = os.path.join(self.dir, "types.json")
        subprocess.run([os.path.join(BIN, "codec"), "types", self.types], check=True, timeout=60)

    def cargo(self, crate, profile, *args, **env):
        e = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", **env)
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): e.pop(k, None)
        p = subprocess.run(["cargo", "build", "--offline", "--profile", profile, *args], cwd=os.path.join(VERIF, crate), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        return p.returncode, p.stdout

    def programs(self, rounds, count):
        """Random declarations with the derive macros; True if they are accepted."""
        rc, out = self.cargo("programs", "dev", "--package", "oct")
        if rc != 0:
            sys.stdout.write(out[-3000:])
            raise Broken("the crate does not build")
        self.rounds = []
        for k in range(rounds):
            d = os.path.join(self.dir, f"program-{k}")
            derive.Prog(self.seed * 1000 + k, count, k % 2).write(d)
            rc, out = self.cargo("programs", "dev", "--lib", PROGRAMS=d)
            with self.lock: self.cov["programs"] += count + len(derive.patterns()) // 2
            if rc != 0:
                errs = re.findall(r"^error.*?(?=\n\n)", out, re.S | re.M)
                if not any("decl.rs" in e for e in errs): raise Broken("the generated program does not build:\n" + out[-3000:])
                path = os.path.join(self.dir, f"replay-program-{k}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, what="derivable declarations do not compile", seed=self.seed * 1000 + k, errors=errs[:20],
                                   declarations=os.path.join(d, "decl.rs")), f, indent=1)
                self.violations.append(("derivable declarations do not compile: " + errs[0].split("\n")[0], path))
            self.rounds.append(d)
        return not self.violations

    def declared(self, k, count):
        """The recorder for some declarations, for properties other than the derive macros' own; None if they are not accepted."""
        d = os.path.join(self.dir, f"declared-{k}")
        derive.Prog(self.seed * 1000 + 500 + k, count, large=True).write(d)
        try: return self.recorder(d)
        except Broken: return None

    def program(self, k):
        """The recorder for the declarations of one round."""
        return self.recorder(self.rounds[k])

    def recorder(self, d):
        for profile, sub in (("dev", "debug"), ("plain", "plain")):
            rc, out = self.cargo("programs", profile, "--features", "glue", "--bin", "derived", PROGRAMS=d)
            if rc != 0: raise Broken("the recorder of generated declarations does not build:\n" + out[-3000:])
            shutil.copy(os.path.join(VERIF, "programs/target", sub, "derived"), os.path.join(d, sub))
        types = os.path.join(d, "types.json")
        subprocess.run([os.path.join(d, "debug"), "types", types], check=True, timeout=60)
        return dict(TYPES=types), d

    # ------------------------------------------------------------------ tlc
    def tlc(self, name, spec, cfg, env, workers, heap, timeout, args=()):
        meta = os.path.join(self.dir, "meta-" + name)
        out = os.path.join(self.dir, name + ".tlc")
        cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, "-metadir", meta, *args, spec]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        vs, ks, scripts, end, ok, extra = [], [], [], None, False, []
        with open(out, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('"@@'):
                    try:
                        s = json.loads(line)
                    except ValueError:
                        s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                    tag, _, rest = s.partition(" ")
                    if tag == "@@V": vs.append(json.loads(rest))
                    elif tag == "@@K": ks.append(json.loads(rest))
                    elif tag == "@@END": end = int(rest)
                    elif tag == "@@S": scripts.append(rest)
                    elif tag == "@@I": extra.append(rest)
                elif "No error has been found" in line: ok = True
                else:
                    m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
                    if m: gen, dist = (int(x.replace(",", "")) for x in m.groups())
        if not ok:
            tail = subprocess.run(["grep", "-n", "-A8", "Error", out], capture_output=True, text=True).stdout[:3000]
            raise Broken(f"TLC did not complete on {spec} ({name}, rc {rc}):\n{tail}")
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        return dict(v=vs, k=ks, end=end, scripts=scripts, states=dist, transitions=gen, extra=extra)

    def mc(self, name, spec, cfg, env=None, workers=4, heap="6g", timeout=1500, args=()):
        """Exhaustive model checking of a specification at small bounds."""
        t = time.time()
        r = self.tlc(name, spec, cfg, dict(dict(TYPES=self.types), **(env or {})), workers, heap, timeout, args)
        with self.lock:
            self.jobs.append(dict(job=name, kind="model checking", spec=spec, states=r["states"], transitions=r["transitions"],
                                  generated=len(r["scripts"]), wall_s=round(time.time() - t, 1)))
        return r

    # --------------------------------------------------------------- traces
    def record(self, name, cmd, timeout=300):
        """Runs the harness; returns the trace, and what it died in, if it did."""
        path = os.path.join(self.dir, name + ".nd")
        args = [a.replace("{out}", path) for a in cmd]
        # Odd shards run the build without debug assertions.
        odd = re.search(r"-(\d*[13579])$", name) is not None
        sub = "plain" if odd else "debug"
        args[0] = os.path.join(args[0], sub) if "/" in args[0] else os.path.join(TARGET, sub, args[0])
        log = os.path.join(self.dir, name + ".log")
        died = None
        with open(log, "w") as f:
            p = subprocess.Popen(args, stdout=f, stderr=subprocess.STDOUT, cwd=self.dir)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = "no return after %d s" % timeout
        if rc == 3 or not os.path.exists(path):
            raise Broken(f"harness {args} failed: {open(log).read()[-500:]}")
        if rc != 0:
            try:
                died = (open(path + ".cur").read().strip() or "?") + f" (exit {rc})"
            except OSError:
                died = f"exit {rc}"
        return path, died

    def validate(self, name, spec, path, died, env=None, timeout=800, starts=("onew",), cmd=None):
        """Checks a recorded trace against its specification."""
        t = time.time()
        with open(path, errors="replace") as f:
            lines = f.read().split("\n")
        while lines and not lines[-1]: lines.pop()
        if died is not None and lines:
            try: json.loads(lines[-1])
            except ValueError: lines.pop()
        if died is not None:
            with open(path, "w") as f: f.write("\n".join(lines) + "\n")
        nsess = 0
        ev = collections.Counter()
        res = collections.Counter()
        for ln in lines:
            m = re.match(r'\{"ev":"(\w+)"', ln)
            if m:
                ev[m.group(1)] += 1
                nsess += m.group(1) in starts
            m = re.search(r'"r":"(\w+)"', ln)
            if m: res[m.group(1)] += 1
        r = dict(v=[], k=[], end=0, states=0, transitions=0)
        if lines:
            r = self.tlc(name, spec, spec.replace(".tla", ".cfg"), dict(dict(TYPES=self.types), TRACE=path, **(env or {})), 1, "3g", timeout)
            if r["end"] != len(lines):
                raise Broken(f"{name}: validated {r['end']} of {len(lines)} events")
        with self.lock:
            self.events.update(ev)
            self.results.update(res)
            self.cov["traces_validated_against_impl"] += nsess
            self.cov["events"] += len(lines)
            if len(self.samples) < 3 and lines:
                self.samples.append(dict(trace=name, events=[l[:400] for l in lines[min(40, len(lines) // 3):][:4]]))
            self.jobs.append(dict(job=name, kind="trace validation", spec=spec, events=len(lines), traces=nsess,
                                  states=r["states"], transitions=r["transitions"], wall_s=round(time.time() - t, 1)))
        for v in r["v"]:
            mine = [x["w"] for x in v["vs"] if x["p"] == self.prop]
            if mine: self.violation("; ".join(sorted(set(mine))), name, lines, v["l"], v.get("exp"), starts, cmd)
        for k in r["k"]:
            p, _, what = k["key"].partition(" ")
            if p == self.prop: self.finding(what, name, lines, k["l"], starts, cmd)
        if died is not None:
            self.violation("the call never returned: " + died, name, lines + [json.dumps(dict(ev="crash", what=died))], len(lines) + 1, None, starts, cmd)
        keep = any(x[1].endswith(name + ".json") for x in self.violations)
        if not keep and not os.environ.get("KEEP"):
            for x in (path, path + ".cur"):
                if os.path.exists(x): os.remove(x)

    def violation(self, what, name, lines, l, exp, starts, cmd):
        with self.lock:
            self.nreplay += 1
            n = self.nreplay
        if n > 20: 
            with self.lock: self.violations.append((what, "-"))
            return
        path = os.path.join(self.dir, f"replay-{n:02d}-{name}.json")
        a = l - 1
        while a > 0 and not any(lines[a].startswith('{"ev":"%s"' % s) for s in starts) and l - a < 400: a -= 1
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, expected=exp, event=l, trace=name, recorded_by=cmd,
                           seed=self.seed, history=[x[:20000] for x in lines[a:l]]), f, indent=1)
        with self.lock:
            self.violations.append((what, path))

    def finding(self, what, name, lines, l, starts, cmd):
        with self.lock:
            if what in self.known: return
            self.known.add(what)
        if what not in findings().get(self.prop, {}):
            self.violation(f"unlisted finding: {what}", name, lines, l, None, starts, cmd)

    def trace(self, name, spec, cmd, starts=("onew",), timeout=300, env=None):
        path, died = self.record(name, cmd, timeout)
        self.validate(name, spec, path, died, env=env, starts=starts, cmd=cmd)

    def scripts(self, name, spec, lines, cmd, shards, starts=("onew",), env=None):
        """Replays generated behaviours in the real code and validates what it did."""
        groups = [lines[k::shards] for k in range(shards)]
        jobs = []
        for k, g in enumerate(groups):
            if not g: continue
            p = os.path.join(self.dir, f"{name}-{k}.script")
            with open(p, "w") as f: f.write("\n".join(g) + "\n")
            c = [a.replace("{script}", p) for a in cmd]
            jobs.append(lambda k=k, c=c: self.trace(f"{name}-{k}", spec, c, starts, env=env))
        with self.lock: self.cov["generated_behaviours"] += len(lines)
        return jobs

    def par(self, jobs, n=8):
        with cf.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(j) for j in jobs]
            out = []
            while fs:
                f = fs.pop(0)
                r = f.result()
                if isinstance(r, list) and r and callable(r[0]):
                    fs.extend(ex.submit(j) for j in r)
                out.append(r)
            return out

    # ---------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=self.cov["states"], transitions=self.cov["transitions"],
                   traces_validated_against_impl=self.cov["traces_validated_against_impl"],
                   samples=self.samples, events_validated=self.cov["events"], events_by_kind=dict(self.events),
                   results_by_kind=dict(self.results), generated_declarations=self.cov["programs"], generated_behaviours=self.cov["generated_behaviours"],
                   jobs=sorted(self.jobs, key=lambda j: j["job"]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=ASSUMPTIONS, wall_s=round(wall, 1),
                  violations=[dict(what=w, replay=p) for w, p in self.violations[:50]])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for what in sorted(self.known):
            if what in findings().get(self.prop, {}):
                print(f"KNOWN-FINDING: property={self.prop} {what}: {findings()[self.prop][what]}")
        print(f"{self.prop} {self.tier}: {cov['states']} states, {cov['transitions']} transitions, {cov['events_validated']} events of "
              f"{cov['traces_validated_against_impl']} traces validated, {wall:.0f} s")
        if self.violations:
            for w, c in collections.Counter(w for w, _ in self.violations).most_common(12): print(f"  {c} x {w[:300]}")
            print(f"VIOLATION property={self.prop} replay={self.violations[0][1]}")
            return 1
        return 0


ASSUMPTIONS = [
    "64-bit little-endian host, unoptimised build of the working tree, half of the traces with debug assertions and overflow checks and half without",
    "the harness's projections of values and errors (harness/src/model.rs, errs.rs) are right",
    "histories beyond the enumerated bounds and the recorded random ones are not covered",
]


def findings():
    out = collections.defaultdict(dict)
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\w+) (\S+): (.*)", line)
            if m: out[m.group(1)][m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import plans
    r = Run(prop, tier)
    try:
        if prop != "C13" or r.programs(*((2, 80) if r.quick else (16, 120))):
            r.build()
            plans.PLANS[prop](r)
    except Broken as e:
        # What was found before the breakdown is still a violation.
        if not r.violations:
            print(f"BROKEN: {e}")
            return 2
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
