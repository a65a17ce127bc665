#!/usr/bin/env python3
"""Decide one property of TTGraph on /repo's current tree by running it under the monitors.

  check.py C07                 one property; VERIF_TIER (quick, thorough) and VERIF_SEED from the environment
  check.py replay FILE         run a recorded violation again
  check.py build               just build the default configuration

Exit 0: held on everything explored.  1: violated (VIOLATION line).  Anything else: no verdict.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
LEVEL = "exploration"

# configuration: name -> (cargo arguments, sub directory of the target directory)
CONFIGS = {
    "dev": ([], "debug"),
    "release": (["--release"], "release"),
    "dev-nodebug": (["--no-default-features"], "debug"),
    "release-nodebug": (["--release", "--no-default-features"], "release"),
}
# the standard library and everything else instrumented by ThreadSanitizer
TRIPLE = "x86_64-unknown-linux-gnu"
TSAN = (["-Zbuild-std", "--target", TRIPLE], os.path.join(TRIPLE, "debug"))
RULES = {
    "C01": "at least two commits were compared with the model",
    "C02": "a commit in a history with remove operations was compared with the model",
    "C03": "a commit in a history with redirects was compared with the model",
    "C04": "a declaration made the library add or remove a counterpart link",
    "C05": "a declaration made the library add or remove a counterpart link, or a conflict had to panic",
    "C06": "at least two indexes were handed out and compared with all earlier ones of the context",
    "C07": "some misuse had to panic, and did",
    "C08": "all views were compared after at least two steps, one of them a commit",
    "C09": "a graph went through a serialization round trip",
    "C10": "a graph was switched to another context",
    "C11": "a graph was merged and committed",
    "C12": "a commit was checked against link type declarations",
    "C13": "a registered check was called and the calls compared with the changes",
    "C14": "a node (distinct by schema, variant and links) was reflected",
    "C15": "closures ran and payloads were counted at least twice",
    "C16": "at least three commits, each compared with a model that only knows the contents",
    "C17": "a history with a commit whose indexes, orders and printed forms were digested",
    "C18": "a history with a commit whose outcome was digested in every build configuration",
    "C19": "a typed mutating macro was used and compared with its untyped meaning",
    "C20": "several graphs or several open transactions existed at once",
    "C21": "the self check was called on graphs with and without external links, with commits in between",
    "C22": "a declaration that is wrong in one place, while the same one without that place compiles",
}


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    except subprocess.TimeoutExpired:
        return None


def limit():
    # an operation that eats memory without end must not take the sandbox with it
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Bench:
    """Generated schemas and the harness built against /repo."""

    def __init__(self, seed, nrandom, tag):
        self.seed, self.nrandom, self.tag = seed, nrandom, tag
        self.gen = os.path.join(BUILD, tag)
        self.dropped = {}
        self.macros = None  # why the typed macros are left out
        self.reflection = None  # the part of reflection that is left out, because its interface changed
        os.makedirs(self.gen, exist_ok=True)
        self.generate()

    def generate(self):
        cmd = [sys.executable, os.path.join(ROOT, "tools", "gen_schemas.py"), os.path.join(self.gen, "schemas.rs"),
               str(self.seed), str(self.nrandom)]
        cmd.append(",".join(self.dropped))
        if self.macros:
            cmd.append("nomacros")
        if self.reflection:
            cmd.append(self.reflection)
        subprocess.run(cmd, check=True)

    def target(self, config):
        return os.path.join(ROOT, "target" if config == "dev" else os.path.join("target", config))

    def binary(self, config):
        return os.path.join(self.target(config), (TSAN if config == "tsan" else CONFIGS[config])[1], "vmon")

    def cargo(self, config, timeout=800):
        env = dict(os.environ, VMON_GEN=self.gen, CARGO_TARGET_DIR=self.target(config), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        args = CONFIGS.get(config, TSAN)[0]
        tool = ["cargo"]
        if config == "tsan":
            tool, env["RUSTFLAGS"] = ["cargo", "+nightly"], "-Zsanitizer=thread"
        more = ["--features", self.reflection] if self.reflection else []
        r = run(tool + ["build", "--offline", "--message-format", "short"] + args + more, timeout, cwd=HARNESS, env=env)
        if r is None:
            raise NoVerdict("the build takes too long")
        return r

    def blamed(self, text):
        """the schemas that do not compile, with the first message"""
        src = open(os.path.join(self.gen, "schemas.rs")).read().split("\n")
        starts = [(i + 1, m.group(1)) for i, l in enumerate(src) for m in [re.match(r"pub mod (\w+) \{", l)] if m]
        bad = {}
        for m in re.finditer(r"schemas\.rs:(\d+):\d+: error(.*)", text):
            ln = int(m.group(1))
            name = [n for s, n in starts if s <= ln]
            if name:
                bad.setdefault(name[-1], m.group(2).strip())
        return bad

    def errors(self, text):
        return "; ".join(re.findall(r": error(.*)", text)[:3])

    def build(self, config="dev"):
        """Build; schemas that the library's macros no longer accept are left out and remembered."""
        for _ in range(5):
            r = self.cargo(config)
            if r.returncode == 0:
                return
            if config == "dev" and not self.macros and not self.dropped:
                # is it the typed macros?
                self.macros = self.errors(r.stdout + r.stderr) or "the harness does not build"
                self.generate()
                if self.cargo(config).returncode == 0:
                    log("the typed macros do not compile:", self.macros)
                    return
                self.macros = None
                # or reflection?
                for part in ("nodeclared", "noreflect"):
                    self.reflection = part
                    self.generate()
                    if self.cargo(config).returncode == 0:
                        log("part of the reflection interface is left out:", part, self.errors(r.stdout + r.stderr))
                        return
                self.reflection = None
                self.generate()
            bad = {k: v for k, v in self.blamed(r.stdout + r.stderr).items() if k not in self.dropped}
            if not bad or config != "dev":
                raise NoVerdict(f"the harness does not build ({config}):\n" + (r.stdout + r.stderr)[-3000:])
            log("declarations that do not compile:", bad)
            self.dropped.update(bad)
            self.generate()
        raise NoVerdict("the harness does not build")


def repo_builds(config):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target", "repo"), CARGO_NET_OFFLINE="true")
    r = run(["cargo", "build", "--offline"] + CONFIGS[config][0], 600, cwd=REPO, env=env)
    if r is None:
        raise NoVerdict("building /repo takes too long")
    return r


def compile_all(where, cases):
    """compiles every source on its own against /repo; returns the first error of each, and the names of those that compile"""
    bins = os.path.join(where, "src", "bin")
    os.makedirs(bins, exist_ok=True)
    for n, src in cases:
        with open(os.path.join(bins, n + ".rs"), "w") as f:
            f.write(src)
    with open(os.path.join(where, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "decls"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ttgraph = {{ path = "{REPO}" }}
ordermap = {{ version = "0.5", features = ["serde"] }}
indexmap = {{ version = "2", features = ["serde"] }}
[profile.dev]
incremental = false
""")
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), where)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(where, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format", "json"], 850, cwd=where, env=env)
    if r is None:
        raise NoVerdict("compiling the declarations takes too long")
    errors, accepted, seen = {}, set(), set()
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m["reason"] == "compiler-artifact":
            seen.add(m["target"]["name"])
            if "bin" in m["target"]["kind"]:
                accepted.add(m["target"]["name"])
        elif m["reason"] == "compiler-message" and m["message"]["level"] == "error":
            errors.setdefault(m["target"]["name"], m["message"]["message"])
    if "ttgraph" not in seen:
        raise NoVerdict("the library does not build for the declarations:\n" + r.stderr[-2000:])
    odd = [n for n, _ in cases if n not in accepted and n not in errors]
    if odd:
        raise NoVerdict(f"no message about {odd[:3]}:\n" + r.stderr[-2000:])
    return errors, accepted


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.start = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.observed = {}
        self.violation = None
        self.bench = Bench(seed, 3 if self.quick else 12, tier)
        self.scratch = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
        os.makedirs(self.scratch, exist_ok=True)

    # -------------------------------------------------------------- pieces

    def violate(self, kind, message, **kw):
        if self.violation is None:
            self.violation = dict(property=self.prop, kind=kind, message=message, schema_seed=self.bench.seed,
                                  schema_count=self.bench.nrandom, seed=self.seed, tier=self.tier, **kw)

    def explore(self, config="dev", secs=20, first=0, least=15000):
        """Histories in lockstep with the model, judged for this property."""
        out = os.path.join(self.scratch, f"{config}-{first}.json")
        cmd = [self.bench.binary(config), "run", f"prop={self.prop}", f"seed={self.seed}", f"secs={secs}", f"min={least}",
               f"cap={secs * 5}", f"first={first}", f"out={out}", f"scratch={self.scratch}"]
        r = run(cmd, secs * 6 + 120, preexec_fn=limit)
        if r is None:
            raise NoVerdict("the run does not end")
        rep = {}
        if os.path.exists(out):
            rep = json.load(open(out))
            c = self.cov
            c["evaluations"] += rep["evaluations"]
            c["distinct_nontrivial"] += rep["distinct_nontrivial"]
            c["samples"] = (c["samples"] + rep["samples"])[:3]
            c["distinct_graph_shapes"] = c.get("distinct_graph_shapes", 0) + rep["distinct_graph_shapes"]
            c["schemas"] = rep["schemas"]
            for k, v in rep["observed"].items():
                self.observed[k] = max(self.observed.get(k, 0), v) if k.startswith("max ") else self.observed.get(k, 0) + v
            for k, v in rep["unattributed"].items():
                u = c.setdefault("deviations_of_other_properties_or_undecided", {})
                u[k] = u.get(k, 0) + v
        if r.returncode == 1:
            f = rep["found"][0]
            self.violate(f["kind"], f["message"], config=config, step=f["step"], index=f["index"], history=f["history"], before=f.get("before") or [],
                         extra=f["extra"])
        elif r.returncode in (0, 3):
            for i in rep.get("orphans", []):
                self.orphan(config, i)
            if r.returncode == 3 and not self.violation:
                raise NoVerdict("the harness panicked:\n" + r.stderr[-3000:])
        elif r.returncode == 4:
            for i, step in rep["hangs"][:3]:
                self.judge(config, i, step, "Hang", "a call does not return")
                self.orphan(config, i)
            if not self.violation:
                self.cov.setdefault("deviations_of_other_properties_or_undecided", {})["call does not return"] = len(rep["hangs"])
        else:
            # the process died: find out on which history
            culprits = 0
            for k in range(8):
                p = os.path.join(self.scratch, f"busy{k}")
                b = open(p, "rb").read() if os.path.exists(p) else b""
                if len(b) != 16:
                    continue
                i, step = int.from_bytes(b[:8], "little"), int.from_bytes(b[8:], "little")
                one = run([self.bench.binary(config), "one", f"prop={self.prop}", f"seed={self.seed}", f"i={i}"], 60, preexec_fn=limit)
                if one is not None and one.returncode != 0:
                    culprits += 1
                    self.judge(config, i, step, "Crash", f"the process dies (status {one.returncode}) {one.stderr[-300:]}")
            if not culprits:
                raise NoVerdict(f"the process died with status {r.returncode}, and not again:\n" + r.stderr[-3000:])
            if not self.violation:
                self.cov.setdefault("deviations_of_other_properties_or_undecided", {})["process dies"] = culprits
        return rep

    def judge(self, config, i, step, kind, message):
        r = run([self.bench.binary(config), "judge", f"prop={self.prop}", f"seed={self.seed}", f"i={i}", f"step={step}"], 60, preexec_fn=limit)
        if r is not None and r.returncode == 1:
            h = json.loads(r.stdout)["history"]
            self.violate(kind, message, config=config, step=step, index=i, history=h)

    def orphan(self, config, i):
        """A history went wrong in a process that had run many others. If it always holds in a process of its own, something connects graphs
        that have nothing to do with each other."""
        if self.prop != "C20" or self.violation:
            return
        for _ in range(3):
            r = run([self.bench.binary(config), "one", f"prop={self.prop}", f"seed={self.seed}", f"i={i}"], 60, preexec_fn=limit)
            if r is None or r.returncode != 0 or r.stdout.strip() != "held":
                return
        h = run([self.bench.binary(config), "show", f"prop={self.prop}", f"seed={self.seed}", f"i={i}"], 60)
        self.violate("Process", f"history {i} holds in a process of its own, but not after others in the same process", config=config, index=i,
                     history=json.loads(h.stdout.split(" ", 1)[1]))

    def crowd(self, config, sizes, secs):
        """histories run at the same time by several threads that share a context, and (sizes below zero) also from within each other's closures and checks"""
        tot = self.cov.setdefault("histories_in_parallel", {})
        for nt in sizes:
            nest, nt = int(nt < 0), abs(nt)
            r = run([self.bench.binary(config), "crowd", f"seed={self.seed}", f"threads={nt}", f"nest={nest}", f"secs={secs}"], secs * 6 + 120,
                    preexec_fn=limit)
            if self.prop == "C20" and (r is None or r.returncode < 0):
                # one after the other, many more histories came to an end
                self.violate("Threads", f"histories in one context, {nt} threads, nested: {nest}: " + ("a call does not return" if r is None else f"the process dies ({r.returncode})"),
                             threads=nt)
                return
            if r is None or r.returncode not in (0, 1):
                raise NoVerdict("histories in parallel: " + ("timeout" if r is None else r.stderr[-1500:]))
            d = json.loads(r.stdout.strip().split("\n")[-1])
            for k in ("rounds", "histories", "commits", "nested", "indexes", "alternations", "distinct_interleavings"):
                tot[k] = tot.get(k, 0) + d[k]
            bad = d["bad"]
            if self.prop == "C06" and d["twice"]:
                self.violate("Threads", d["twice"], threads=nt)
            elif bad and self.prop == "C06" and bad["kind"] == "Fresh" and bad["alone"]:
                self.violate("Threads", bad["message"], threads=nt, history=bad["history"])
            elif bad and self.prop == "C20" and bad["alone"] and bad["kind"] != "Fresh":
                self.violate("Threads", "holds alone, but not next to (or within) other work in the same context: " + bad["message"], threads=nt, history=bad["history"])
            elif bad or d["twice"]:
                u = self.cov.setdefault("deviations_of_other_properties_or_undecided", {})
                u["in parallel"] = u.get("in parallel", 0) + 1
            if self.violation:
                return

    def races(self, secs):
        """the thread workloads once more with ThreadSanitizer; reports that involve the library's code count"""
        r = self.bench.cargo("tsan")
        d = self.cov["thread_sanitizer"] = {}
        if r.returncode != 0:
            d["not_run"] = self.bench.errors(r.stdout + r.stderr)[:500] or "the instrumented build fails"
            return
        logs = os.path.join(self.scratch, "tsan")
        env = dict(os.environ, TSAN_OPTIONS=f"halt_on_error=0 exitcode=0 report_signal_unsafe=0 log_path={logs}")
        jobs = [["threads", f"threads={n}", "per=400", "rounds=1000"] for n in (2, 8)] + [["crowd", f"threads={n}", f"nest={k}"] for n, k in ((2, 0), (8, 0), (4, 1))]
        for j in jobs:
            r = run([self.bench.binary("tsan")] + j + [f"seed={self.seed}", f"secs={secs}"], secs * 6 + 300, env=env)
            if r is None or r.returncode not in (0, 1):
                d.setdefault("not_ended", []).append(" ".join(j))
                continue
            o = json.loads(r.stdout.strip().split("\n")[-1])
            for k in ("rounds", "histories", "commits", "nested", "indexes"):
                d[k] = d.get(k, 0) + o.get(k, 0)
        reports = []
        for f in os.listdir(self.scratch):
            if f.startswith("tsan"):
                reports += re.findall(r"WARNING: ThreadSanitizer: .*?\n={10,}", open(os.path.join(self.scratch, f), errors="replace").read(), re.S)
        d["reports"] = len(reports)
        for x in reports:
            if "ttgraph" in x and "data race" in x:
                self.violate("Race", x[:4000])

    def digests(self, jobs, prop, n, threads):
        """jobs: list of (label, config); compares the digests line by line with those of the first job"""
        outs, errs = {}, []

        def work(k, label, config):
            out = os.path.join(self.scratch, f"digest-{k}")
            r = run([self.bench.binary(config), "digest", f"prop={prop}", f"seed={self.seed}", f"max={n}", f"threads={threads}", f"out={out}"],
                    700, preexec_fn=limit)
            if r is None or r.returncode != 0:
                errs.append(f"{label}: {'timeout' if r is None else r.stderr[-1500:]}")
            else:
                outs[label] = open(out).read().split("\n")

        ths = [threading.Thread(target=work, args=(k, *j)) for k, j in enumerate(jobs)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            raise NoVerdict("digest runs failed: " + "; ".join(errs))
        base = outs[jobs[0][0]]
        cmp = len([l for l in base if l and "skip" not in l and "invalid" not in l])
        d = self.cov.setdefault("digest_comparisons", {})
        for label, _ in jobs[1:]:
            d[label] = d.get(label, 0) + cmp
            for a, b in zip(base, outs[label]):
                if a and b and a != b and "skip" not in a and "skip" not in b:
                    i = int((a or b).split()[0])
                    show = run([self.bench.binary("dev"), "show", f"prop={prop}", f"seed={self.seed}", f"i={i}"], 60)
                    h = show.stdout.split(" ", 1)[1] if show is not None and show.returncode == 0 else "null"
                    self.violate("Difference", f"history {i}: {jobs[0][0]} gives '{a}', {label} gives '{b}'", index=i, history=json.loads(h))
                    return
        return

    # -------------------------------------------------------------- properties

    def decide(self):
        q, p = self.quick, self.prop
        secs = 34 if q else 300
        if p == "C18":
            return self.c18()
        if p == "C22":
            return self.c22()
        try:
            self.bench.build("dev")
        except NoVerdict as e:
            m = re.search(r"`[^`]*` cannot be (sent|shared) between threads safely", str(e))
            if p == "C06" and m:
                self.violate("Compile", "a context can no longer be used by several threads: " + m.group(0))
                return
            raise
        if p == "C14" and self.bench.reflection == "noreflect":
            raise NoVerdict("the reflection interface changed")
        if p == "C14" and self.bench.dropped:
            k, m = next(iter(self.bench.dropped.items()))
            self.violate("Compile", f"declaration '{k}' is no longer accepted: {m}", schema=k)
            return
        if p == "C19" and self.bench.macros:
            self.violate("Compile", f"a form of the typed macros is no longer accepted: {self.bench.macros}")
            return
        if p == "C06":
            self.explore("dev", secs // 2)
            if self.violation:
                return
            rounds, t = (400, 12) if q else (4000, 200)
            done = {"rounds": 0, "indexes": 0}
            for nt in (2, 4, 8, 16):
                r = run([self.bench.binary("dev"), "threads", f"seed={self.seed}", f"threads={nt}", "per=4000", f"rounds={rounds}", f"secs={t // 4}"], 300,
                        preexec_fn=limit)
                if r is None or r.returncode not in (0, 1):
                    raise NoVerdict("the thread stress does not end: " + ("timeout" if r is None else r.stderr[-1500:]))
                d = json.loads(r.stdout.strip().split("\n")[-1])
                done["rounds"] += d["rounds"]
                done["indexes"] += d["indexes"]
                if r.returncode == 1:
                    self.violate("Threads", d["error"], threads=nt)
                    break
            self.cov["thread_stress"] = done
            if not self.violation:
                self.crowd("dev", (2, 4, 8, -4), 3 if q else 45)
            if not q and not self.violation:
                self.races(15)
            return
        if p == "C17":
            self.explore("dev", secs // 2)
            if not self.violation:
                self.digests([("process 1", "dev"), ("process 2", "dev"), ("process 3", "dev")], "C17", 6000 if q else 120000, 3)
            return
        # with and without debug assertions; the second build is made during the first run
        both = threading.Thread(target=lambda: self.try_build("release"))
        both.start()
        self.explore("dev", secs * 3 // 5)
        both.join()
        if p == "C20" and not self.violation:
            self.crowd("dev", (2, 8, -1, -4), 4 if q else 60)
            if not q and not self.violation:
                self.races(15)
        self.cov["builds"] = ["dev"]
        if self.violation:
            return
        if self.built is None or self.built.returncode != 0:
            if p == "C07":
                raise NoVerdict("the harness does not build (release): " + (self.built.stderr[-2000:] if self.built else ""))
            return
        self.cov["builds"].append("release")
        self.explore("release", secs * 2 // 5, first=10_000_000, least=5000)

    built = None

    def try_build(self, config):
        self.built = self.bench.cargo(config)

    def c18(self):
        self.bench.build("dev")
        res = {}

        def go(c):
            res[c] = self.bench.cargo(c)

        others = [c for c in CONFIGS if c != "dev"]
        ths = [threading.Thread(target=go, args=(c,)) for c in others]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for c in others:
            if res[c].returncode != 0:
                r = repo_builds(c)
                if r.returncode != 0:
                    self.violate("Build", f"/repo does not build in configuration {c}: " + r.stderr[-1500:], config=c)
                else:
                    # the declarations of the harness compile in the default configuration, but not in this one
                    self.violate("Build", f"declarations do not compile in configuration {c}: " + (res[c].stdout + res[c].stderr)[-1500:], config=c)
                return
        n = 14000 if self.quick else 250000
        self.digests([(c, c) for c in CONFIGS], "C18", n, 2)
        self.cov["builds"] = list(CONFIGS)
        if not self.violation:
            # what the digested histories contained (same generator, more seeds)
            self.explore("dev", 4)

    def c22(self):
        sys.path.insert(0, os.path.join(ROOT, "tools"))
        import decls
        cases = decls.cases(self.seed, *((24, 17) if self.quick else (240, 17)))
        r = repo_builds("dev")
        if r.returncode != 0:
            raise NoVerdict("/repo does not build: " + r.stderr[-1500:])
        errors, accepted = compile_all(os.path.join(self.scratch, "decls"), [(n, s) for n, _, s in cases])
        why = {}
        for n, rule, src in cases:
            self.cov["evaluations"] += 1
            if rule is None:
                self.observed["right declarations"] = self.observed.get("right declarations", 0) + 1
                if n not in accepted:
                    self.violate("Compile", f"a declaration that names only declared things is rejected: {errors.get(n)}", source=src, accept=True)
                continue
            base = n.split("_")[0]
            if base not in accepted:
                continue
            self.cov["distinct_nontrivial"] += 1
            why.setdefault(rule, {}).setdefault(re.sub(r"`[^`]*`", "`..`", errors.get(n) or "accepted"), 0)
            why[rule][re.sub(r"`[^`]*`", "`..`", errors.get(n) or "accepted")] += 1
            if n in accepted:
                self.violate("Compile", f"a wrong declaration is accepted: {rule.replace('_', ' ')}", source=src, accept=False)
        self.observed["wrong declarations"] = self.cov["distinct_nontrivial"]
        self.cov["messages_by_kind_of_mistake"] = why
        self.cov["samples"] = [{"mistake": rule, "source": src} for n, rule, src in cases if rule][:3]

    # -------------------------------------------------------------- outcome

    def finish(self):
        c = self.cov
        c["rule"] = ("histories of graph, transaction, context and serialization calls are drawn at random (seeded) over curated and "
                     "seed dependent node declarations, executed against the library and a reference model in lockstep; non-trivial: "
                     + RULES[self.prop])
        if self.prop == "C14":
            c["rule"] = "random contents for every declared node type, reflected and compared with the declaration; non-trivial: " + RULES["C14"]
        if self.prop == "C22":
            c["rule"] = ("random node declarations (seeded), as they are, written differently, and with one mistake each, compiled one by one against the "
                         "library while the macros' verdicts are recorded; non-trivial: " + RULES["C22"])
        c["observed"] = dict(sorted(self.observed.items()))
        if self.bench.reflection:
            c["reflection_left_out"] = self.bench.reflection
        if self.bench.macros:
            c["typed_macros_left_out"] = self.bench.macros
        if self.bench.dropped:
            c["declarations_left_out"] = self.bench.dropped
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": c,
            "assumptions": [
                "the reference model (harness/core/src/model.rs) states the documented semantics; steps that the documentation leaves open are not executed",
                "held on the executions produced here, which are sampled, not enumerated",
            ],
            "wall_s": round(time.time() - self.start, 2), "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def main(self):
        try:
            self.decide()
            if not self.violation and self.cov["distinct_nontrivial"] < 100:
                raise NoVerdict(f"only {self.cov['distinct_nontrivial']} non-trivial executions were observed")
        finally:
            self.finish()
            shutil.rmtree(self.scratch, ignore_errors=True)
        c = self.cov
        print(f"{self.prop} {self.tier} seed {self.seed}: {c['evaluations']} executions, {c['distinct_nontrivial']} distinct non-trivial, "
              f"{time.time() - self.start:.0f} s")
        if self.violation:
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            path = os.path.join(ROOT, "replay", f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(self.violation, f, indent=1)
            print(f"{self.violation['kind']}: {self.violation['message']}"[:2000])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0


def replay(path):
    v = json.load(open(path))
    if "source" in v:
        where = os.path.join(BUILD, f"replay-{os.getpid()}")
        try:
            errors, accepted = compile_all(where, [("case", v["source"])])
        finally:
            shutil.rmtree(where, ignore_errors=True)
        print("accepted" if accepted else f"rejected: {errors.get('case')}")
        return int(bool(accepted) != v["accept"])
    b = Bench(v["schema_seed"], v["schema_count"], v["tier"])
    b.build("dev")
    config = v.get("config", "dev")
    if config != "dev":
        r = b.cargo(config)
        if r.returncode:
            print(r.stdout[-3000:] + r.stderr[-3000:])
            return 2
    print(v["kind"] + ": " + v["message"])
    if not v.get("history"):
        print("no history to replay")
        return 2
    return subprocess.run([b.binary(config), "replay", f"file={path}"]).returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else tier
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "build":
            b = Bench(seed, 3 if tier == "quick" else 12, tier)
            b.build("dev")
            for c in CONFIGS:
                if c != "dev":
                    b.cargo(c)
            return 0
        return Check(sys.argv[1], tier, seed).main()
    except NoVerdict as e:
        print(f"NO VERDICT: {e}")
        return 2


sys.exit(main())
