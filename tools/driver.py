import json, os, re, shutil, signal, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TLA = "/opt/veriftools/tla"
WORKERS = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: no verdict."""


class NoHooks(Exception):
    """The tree does not offer the hooks this workload needs."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------------------------- building

def cargo_env():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    return env


def build(binary="core", profile="release"):
    """Builds one of the harness programs, with the hooks if they compile.  Returns (path, hooks)."""
    out = ""
    for hooks in (True, False):
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile, "--bin", binary]
        if not hooks:
            cmd += ["--no-default-features", "--target-dir", os.path.join(HARNESS, "target", "plain")]
        p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            base = os.path.join(HARNESS, "target") if hooks else os.path.join(HARNESS, "target", "plain")
            return os.path.join(base, profile, binary), hooks
        out += p.stdout
        log("harness does not build %s hooks" % ("with" if hooks else "without"))
    raise CheckError("harness build failed:\n" + out[-4000:])


# --------------------------------------------------------------------------------------------- running

class Run:
    """One check: scratch directory, accumulated coverage, verdict."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.started = time.time()
        self.dir = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.binary = None
        self.hooks = None
        self.deadline = self.started + (780 if tier == "quick" else 6 * 3600)

    @property
    def quick(self):
        return self.tier == "quick"

    def build(self, binary, profile):
        t = time.time()
        path, hooks = build(binary, profile)
        self.cov["build_s"] = round(self.cov.get("build_s", 0) + time.time() - t, 1)
        self.cov["hooks"] = hooks
        if not hooks and self.hooks is not False:
            self.assumptions.append("the verification hooks did not compile in this tree: insertion orders were the library's own random ones")
        self.hooks = hooks
        return path

    def harness(self, name, command, seconds=120, binary="core", profile="release", **kw):
        """Runs the harness; returns its output directory and statistics.  A crash of the library becomes a trace."""
        self.binary = self.build(binary, profile)
        out = os.path.join(self.dir, name)
        cmd = [self.binary, command, "--out", out, "--seed", str(self.seed), "--seconds", str(seconds)]
        for k, v in kw.items():
            cmd += ["--" + k.replace("_", "-"), str(v)]

        def limit():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def once(env, binary_cmd, timeout):
            try:
                return subprocess.run(binary_cmd, cwd=self.dir, env=env, preexec_fn=limit, timeout=timeout,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            except subprocess.TimeoutExpired:
                raise CheckError("harness %s did not finish in %d s" % (name, timeout))

        env = dict(os.environ)
        p = once(env, cmd, seconds * 2 + 120)
        if p.returncode == 0:
            stats = json.load(open(os.path.join(out, "stats.json")))
            return out, stats
        if p.returncode == 3:
            raise NoHooks()
        if p.returncode > 0:
            raise CheckError("harness %s exited with %d: %s" % (name, p.returncode, p.stderr[-2000:]))
        # Killed by a signal: find the case with the journal
        log("harness %s was ended by signal %d; looking for the case" % (name, -p.returncode))
        journal = os.path.join(self.dir, "journal")
        shutil.rmtree(journal, ignore_errors=True)
        os.makedirs(journal)
        env["HARNESS_JOURNAL"] = journal
        p = once(env, cmd, seconds * 2 + 400)
        def crashed(entry):
            trace = entry["trace"]
            trace["ev"].append({"e": "ret", "v": [], "r": "crash"})
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "traces.ndjson"), "w").write(json.dumps(trace) + "\n")
            open(os.path.join(out, "meta.ndjson"), "w").write(json.dumps(entry["meta"]) + "\n")
            return out, {"counts": {"crashes": 1}, "traces": 1, "suspicious": 1, "seconds": 0}

        replayable = command in ("core", "faults")
        for f in sorted(os.listdir(journal)) if replayable else []:
            case = os.path.join(journal, f)
            q = once(dict(os.environ), [self.binary, "replay", "--case", case, "--out", os.path.join(self.dir, "replayed")], 120)
            if q.returncode < 0:
                return crashed(json.load(open(case)))
        # one thread: the case under way is the one that crashed
        shutil.rmtree(journal, ignore_errors=True)
        os.makedirs(journal)
        env["HARNESS_THREADS"] = "1"
        cmd[cmd.index("--seconds") + 1] = "300"
        p = once(env, cmd, 400)
        f = os.path.join(journal, "0.json")
        if p.returncode < 0 and -p.returncode != signal.SIGKILL and os.path.exists(f):
            return crashed(json.load(open(f)))
        raise CheckError("harness %s was ended by signal %d, and no single case reproduces it" % (name, -p.returncode))

    # ----------------------------------------------------------------------------------------- TLC

    def tlc(self, module, cfg, env=None, name=None, heap="12g", timeout=None, extra=(), workers=WORKERS):
        """Runs TLC; returns a dict with the verdict ('ok' or 'violation'), counts and output."""
        name = name or module
        d = os.path.join(self.dir, "tlc-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cfgfile = os.path.join(d, name + ".cfg")
        open(cfgfile, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss1g", "-cp",
               "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", cfgfile, *extra, os.path.join(SPEC, module + ".tla")]
        timeout = timeout or max(60, self.deadline - time.time())
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in %d s" % (name, timeout))
        out = p.stdout
        open(os.path.join(d, "out.txt"), "w").write(out)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
        r = {"seconds": round(time.time() - t, 1), "out": out}
        if m:
            r["generated"], r["distinct"], r["left"] = (int(x) for x in m.groups())
        m = re.search(r"Finished computing initial states: (\d+) distinct", out) or re.search(r"Finished computing initial states: (\d+) states", out)
        r["initial"] = int(m.group(1)) if m else (1 if "1 distinct state generated" in out else 0)
        v = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Assumption .* is false", out)
        if v:
            r["verdict"] = "violation"
            r["violated"] = v.group(1) or v.group(2) or v.group(0)
        elif p.returncode == 0 and "No error has been found" in out and r.get("left", 1) == 0:
            r["verdict"] = "ok"
        else:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (name, p.returncode, out[-3000:]))
        if "generated" in r:
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"] - r["initial"]
        return r

    def validate(self, name, module, watch, traces_dir, expected_extra_states=1, heap="12g", what=None, spec="Spec"):
        """Lets TLC judge recorded executions.  Every line must be walked to its end."""
        path = os.path.join(traces_dir, "traces.ndjson")
        lens = []
        with open(path) as f:
            for line in f:
                lens.append(len(json.loads(line)["ev"]))
        if not lens:
            raise CheckError("no traces recorded for " + name)
        cfg = "SPECIFICATION %s\nCONSTANT Watch = {%s}\nINVARIANTS HarnessSound Holds\nCHECK_DEADLOCK FALSE\n" % (spec, ", ".join('"%s"' % w for w in watch))
        r = self.tlc(module, cfg, env={"TRACES": path}, name=name, heap=heap)
        if r["verdict"] == "violation":
            if r["violated"] != "Holds":
                raise CheckError("%s: %s\n%s" % (name, r["violated"], r["out"][-3000:]))
            tr = int(re.findall(r"/\\ tr = (\d+)", r["out"])[-1])
            bad = re.findall(r"/\\ bad = (\{.*?\})", r["out"], re.S)[-1]
            self.violation(name, traces_dir, tr, bad, module, watch, what)
        else:
            want = sum(n + 1 + expected_extra_states for n in lens)
            if r["distinct"] != want:
                raise CheckError("%s: TLC walked %d states, the traces have %d" % (name, r["distinct"], want))
            self.cov["traces_validated_against_impl"] += len(lens)
        self.cov.setdefault("tlc_runs", []).append({"name": name, "module": module, "traces": len(lens), "distinct_states": r.get("distinct"), "seconds": r["seconds"]})
        if len(self.cov["samples"]) < 4:
            with open(path) as f:
                self.cov["samples"].append(json.loads(f.readline()))
        return r

    def model(self, name, module, cfg, heap="12g", env=None, extra=(), timeout=None, workers=WORKERS):
        """Model checks a specification on its own.  A violation here is an error of the specification, not of the code."""
        r = self.tlc(module, cfg, name=name, heap=heap, env=env, extra=extra, timeout=timeout, workers=workers)
        if r["verdict"] != "ok":
            raise CheckError("the specification %s violates %s:\n%s" % (name, r["violated"], r["out"][-3000:]))
        self.cov.setdefault("models", []).append({"name": name, "module": module, "distinct_states": r["distinct"], "generated": r["generated"], "seconds": r["seconds"]})
        return r

    def agree(self, name, module, traces_dir, wanted, limit):
        """Compares recorded executions with an algorithm-level specification, step by step.  The library is free to work
        differently, so a disagreement is written down as a limit of that specification and is never a violation."""
        path = os.path.join(self.dir, name + ".ndjson")
        chosen = []
        with open(os.path.join(traces_dir, "traces.ndjson")) as f:
            for line in f:
                t = json.loads(line)
                if len(t["pts"]) <= 40 and all(e["e"] in wanted for e in t["ev"]):
                    chosen.append(line)
        step = max(1, len(chosen) // limit)
        chosen = chosen[::step][:limit]
        if not chosen:
            return
        with open(path, "w") as f:
            f.writelines(chosen)
        try:
            r = self.tlc(module, "SPECIFICATION Spec\nINVARIANTS Agrees\nCHECK_DEADLOCK FALSE\n", env={"TRACES": path}, name=name, timeout=200 if self.quick else 1800)
            agrees = r["verdict"] == "ok"
        except CheckError:
            agrees = False
        os.remove(path)
        self.cov.setdefault("algorithm_level_agreement", []).append({"module": module, "executions": len(chosen), "agrees": agrees})
        if not agrees:
            self.assumptions.append("in this tree the library works differently from the algorithm-level specification %s; what TLC shows about that specification does not carry over" % module)

    def violation(self, name, traces_dir, tr, bad, module, watch, what=None):
        def nth(f, k):
            if not os.path.exists(f):
                return None
            with open(f) as fh:
                for i, line in enumerate(fh, 1):
                    if i == k:
                        return json.loads(line)
        path = os.path.join(self.dir, "replay-%d.json" % (len(self.violations) + 1))
        json.dump({"property": self.prop, "broken": bad, "specification": module, "watch": list(watch),
                   "case": nth(os.path.join(traces_dir, "meta.ndjson"), tr), "trace": nth(os.path.join(traces_dir, "traces.ndjson"), tr),
                   "how": "harness replay --case <this file> runs a recorded case again; the trace is what TLC rejected"},
                  open(path, "w"), indent=1)
        self.violations.append({"replay": path, "broken": bad, "what": what or name})

    def add_stats(self, stats):
        c = self.cov.setdefault("implementation", {})
        for k, v in stats["counts"].items():
            c[k] = c.get(k, 0) + v

    def finish(self, level):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.started, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.violations:
            log("  broken: %s (%s)" % (v["broken"], v["what"]))
            log("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        if not self.violations:
            log("%s: held on everything explored (%d executions validated, %d states, %.0f s)" % (self.prop, self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.started))
        # keep the replay files, drop the bulk
        for d in os.listdir(self.dir):
            p = os.path.join(self.dir, d)
            if os.path.isdir(p) and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(p, ignore_errors=True)
        return 1 if self.violations else 0


def main(argv):
    import properties
    if not argv or argv[0] not in properties.CHECKS:
        log("usage: check.py %s" % "|".join(sorted(properties.CHECKS)))
        sys.exit(2)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(argv[0], "thorough" if tier == "thorough" else "quick", seed)
    try:
        level = properties.CHECKS[argv[0]](run)
        code = run.finish(level)
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        # a violation found before the error still counts
        code = run.finish("model_checking") if run.violations else 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
