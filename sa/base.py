"""Shared plumbing: building the MIR extractor, extracting /repo, reporting, evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CONFIGS = {"default": [], "cu": ["--features", "coerce-unsized"]}


class ToolError(Exception):
    """The machinery itself failed (not a property violation)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = run(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise ToolError("no nightly toolchain: " + r.stdout)
    return r.stdout.strip()


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def driver():
    """Build the extractor if its source changed; return its path."""
    src = os.path.join(VERIF, "driver", "main.rs")
    root = sysroot()
    key = hashlib.sha256((file_hash([src]) + root).encode()).hexdigest()[:16]
    out = os.path.join(CACHE, "vpdriver-" + key)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".tmp"
        r = run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp], cwd=CACHE)
        if r.returncode:
            raise ToolError("driver does not build:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
    return out


def repo_files():
    fs = []
    for d, ds, names in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "target", "node_modules")]
        for n in names:
            if n.endswith((".rs", ".toml")) or d.endswith(".cargo") or n in ("Cargo.lock",):
                p = os.path.join(d, n)
                if n != "Cargo.lock" and os.path.isfile(p):
                    fs.append(p)
    return fs


def cargo_env(extra=None):
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    env.update(extra or {})
    return env


class BuildFailure(Exception):
    """/repo does not compile in one of the analysed configurations."""


def extract():
    """Dump the resolved program of every configuration; returns {config: json path}.

    The result is cached by the content of /repo's sources and of the extractor, so each distinct
    working tree is extracted afresh."""
    with Lock():
        drv = driver()
        key = hashlib.sha256((file_hash(repo_files()) + drv).encode()).hexdigest()[:20]
        outdir = os.path.join(CACHE, "ex-" + key)
        done = os.path.join(outdir, "done")
        if not os.path.exists(done):
            if os.path.isdir(outdir):
                shutil.rmtree(outdir)
            olds = sorted(glob.glob(os.path.join(CACHE, "ex-*")), key=os.path.getmtime)
            for o in olds[:-6]:
                shutil.rmtree(o)
            os.makedirs(outdir)
            for cfg, feats in CONFIGS.items():
                tgt = os.path.join(CACHE, "tgt-" + cfg)
                env = cargo_env({"VP_CRATES": "dumpster", "VP_OUT": outdir, "VP_TAG": cfg,
                                 "RUSTC_WORKSPACE_WRAPPER": drv, "CARGO_TARGET_DIR": tgt})
                man = os.path.join(REPO, "dumpster", "Cargo.toml")
                run(["cargo", "+nightly", "clean", "--offline", "--manifest-path", man, "-p", "dumpster",
                     "-p", "dumpster_derive"], env=env)
                r = run(["cargo", "+nightly", "check", "--offline", "--manifest-path", man, "-p",
                         "dumpster", "--lib"] + feats, env=env)
                out = os.path.join(outdir, "dumpster.%s.json" % cfg)
                if r.returncode:
                    raise BuildFailure("configuration %s does not build:\n%s" % (cfg, r.stdout[-3000:]))
                if not os.path.exists(out):
                    raise ToolError("extractor produced nothing for %s:\n%s" % (cfg, r.stdout[-2000:]))
                libs = os.path.join(outdir, "libs-" + cfg)
                os.makedirs(libs)
                for d, _, names in os.walk(os.path.join(tgt, "debug")):
                    for n in names:
                        if n.endswith((".rmeta", ".so")) and "incremental" not in d:
                            shutil.copy2(os.path.join(d, n), os.path.join(libs, n))
            with open(done, "w") as f:
                f.write("ok")
        os.utime(outdir)
        return {c: os.path.join(outdir, "dumpster.%s.json" % c) for c in CONFIGS}


def known_findings():
    """{(property, key): text} of suppressed findings, and the list of fixed ones."""
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


class Report:
    """Collects what a check analysed and what it found."""

    def __init__(self, prop, level="other"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = {}
        self.counts = {}
        self.rules = {}
        self.samples = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules.setdefault(name, {"text": text, "instances": 0})

    def inst(self, name, n=1, sample=None):
        self.rules.setdefault(name, {"text": "", "instances": 0})
        self.rules[name]["instances"] += n
        if sample and len(self.samples) < 60:
            self.samples.append("%s: %s" % (name, sample))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def bad(self, key, msg):
        """key identifies the violation without line numbers; msg names the construct and location."""
        self.viol.setdefault(key.replace(" ", "_"), msg)

    def floor(self, name, n):
        """Fail closed if a rule matched fewer instances than were confirmed by hand."""
        got = self.rules.get(name, {}).get("instances", 0)
        if got < n:
            self.bad("floor:" + name, "rule %s matched %d instances, expected at least %d: the analysed "
                     "construct is gone or is no longer recognised" % (name, got, n))

    def finish(self, explanation):
        known, _ = known_findings()
        new = {}
        for k, m in sorted(self.viol.items()):
            if (self.prop, k) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[(self.prop, k)]))
            else:
                new[k] = m
        cov = {"explanation": explanation, "counts": self.counts, "rules": self.rules,
               "rule_instances": sum(r["instances"] for r in self.rules.values()),
               "samples": self.samples}
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new), "violation_details": new}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n, r in sorted(self.rules.items()):
            print("rule %-28s instances=%d" % (n, r["instances"]))
        print("counts " + json.dumps(self.counts, sort_keys=True))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".report.txt")
            with open(rp, "w") as f:
                for k, m in new.items():
                    f.write("[%s] %s\n\n" % (k, m))
            for k, m in new.items():
                print("  [%s] %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s wall=%.1fs" % (self.prop, time.time() - self.t0))
        return 0
