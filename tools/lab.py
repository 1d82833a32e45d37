#!/usr/bin/env python3
"""Runs checks against patches of /repo, each in a scratch copy (never in /repo itself).

  lab.py [-j N] [-c C01,C02 | -c own] [-t] [-d] patch-or-seeded-dir ...

With `first` among the checks, stops at the first that catches.
-t runs the repository's tests on the patched copy, -d runs demo.sh of a seeded directory.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/lab"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env or ENV)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def one(patch, checks, tests, demo):
    seeded = patch if os.path.isdir(patch) else None
    diff = os.path.join(patch, "patch.diff") if seeded else patch
    meta = json.load(open(os.path.join(patch, "meta.json"))) if seeded and os.path.exists(os.path.join(patch, "meta.json")) else {}
    name = os.path.basename(patch.rstrip("/")).replace(".diff", "")
    d = os.path.join(BASE, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    res = {"name": name, "property": meta.get("property")}
    sh(["git", "clone", "-q", "/repo", d + "/repo"], d)
    if tests:
        sh("cp -a /repo/target repo/target", d)
    rc, out = sh(["git", "apply", os.path.abspath(diff)], d + "/repo")
    if rc:
        res["apply"] = out
        shutil.rmtree(d)
        return res
    if tests:
        rc, out = sh("cargo test --offline --lib --no-fail-fast -- --test-threads 8 --skip tests::negative:: 2>&1", d + "/repo", 500)
        base = json.load(open("/opt/vp/BASELINE.json"))
        ok = set(re.findall(r"^test (\S+) \.\.\. ok", out, re.M))
        stable = base.get("stable") or base.get("passed") or base
        names = [t if isinstance(t, str) else t.get("name") for t in (stable if isinstance(stable, list) else stable.keys())]
        missing = [n for n in names if not any(n.endswith(o) or o.endswith(n) for o in ok)]
        res["tests"] = "pass" if not missing else "FAIL %s %s" % (missing[:3], out[-300:] if not ok else "")
    if demo and seeded:
        shutil.copytree(seeded, d + "/demo")
        for p in (d + "/demo/patch.diff", d + "/demo/meta.json"):
            if os.path.exists(p):
                os.remove(p)
        rc, out = sh(["bash", d + "/demo/demo.sh"], d + "/repo", 300)
        res["demo_patched"] = rc
        sh(["git", "stash", "-q"], d + "/repo")
        rc, out = sh(["bash", d + "/demo/demo.sh"], d + "/repo", 300)
        res["demo_clean"] = rc
        sh(["git", "stash", "pop", "-q"], d + "/repo")
    if checks == ["own"]:
        checks = [meta["property"]]
    if checks:
        stop = "first" in checks
        sh("mkdir verif && cp -a %s/check.py %s/tools %s/spec %s/harness verif/ && sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' verif/harness/Cargo.toml" % (ROOT, ROOT, ROOT, ROOT, d), d)
        for c in checks:
            if c == "first" or "caught" in res:
                continue
            t = time.time()
            rc, out = sh(["python3", "check.py", c], d + "/verif", 1800, dict(ENV, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            broken = re.findall(r"broken: (.*)", out)
            if stop and rc == 1:
                res["caught"] = c
            res[c] = "%s %s (%.0fs)" % ({0: "missed", 1: "CAUGHT"}.get(rc, "ERROR"), broken[0] if broken else (out[-1500:] if rc not in (0, 1) else ""), time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    args = sys.argv[1:]
    j, checks, tests, demo, items = 1, [], False, False, []
    while args:
        a = args.pop(0)
        if a == "-j": j = int(args.pop(0))
        elif a == "-c": checks = args.pop(0).split(",")
        elif a == "-t": tests = True
        elif a == "-d": demo = True
        else: items.append(a)
    os.makedirs(BASE, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda p: one(p, checks, tests, demo), items):
            print(json.dumps(r), flush=True)


main()
