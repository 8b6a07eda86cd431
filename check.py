#!/usr/bin/env python3
"""Decides one property of /repo by generated-input search.

  check.py ID                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py ID --replay FILE   run one recorded case again
  check.py --build            only build the harness

exit 0: held on everything explored;  exit 1: VIOLATION line printed;  exit 2: the check itself could not run.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RDV_REPO", "/repo")  # always /repo for the registered commands
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")

# per property: how much of the case list each profile runs, and the sizes used in the thorough tier
PROFILES = {"release": 1.0, "checked": 0.3}
SCALE = json.load(open(os.path.join(VERIF, "tools", "scales.json")))
THOROUGH_S = {"release": 600, "checked": 200, "plain": 100}
MEM_LIMIT = 20 << 30


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def dictionary():
    """numbers written in the source under test: inputs worth trying (an environment variable names the file)"""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import literals

    os.makedirs(REPLAYS, exist_ok=True)
    f = os.path.join(REPLAYS, ".dict-%d.json" % os.getpid())
    try:
        d = literals.literals(REPO)
    except Exception as e:  # source it cannot read: do without
        log("no dictionary: %r" % e)
        d = {"ints": [], "floats": []}
    json.dump(d, open(f, "w"))
    os.environ["RDV_DICT"] = f
    return f


def tree_hash():
    """content of everything a build of the harness depends on"""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "corpus", "artifacts"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if not (f.endswith((".rs", ".toml", ".lock")) or d.endswith(".cargo")):
                    continue
                if root == REPO and f == "Cargo.lock":
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


def mono_files():
    d = os.path.join(HARNESS, "mono")
    return [os.path.join(d, "Cargo.toml"), os.path.join(d, "src", "lib.rs")]


def mono_hash():
    h = hashlib.sha256()
    for f in mono_files():
        h.update(open(f, "rb").read())
    return h.hexdigest()


def settle_mono(prof):
    """the crate with the FFT instantiations does not depend on /repo: keep its build when its content is unchanged, whatever the file times say"""
    stamp = os.path.join(TARGET, ".rdv-mono-" + prof)
    same = os.path.exists(stamp) and open(stamp).read() == mono_hash()
    for f in mono_files():
        os.utime(f, (1.6e9, 1.6e9) if same else None)
    if not same:
        cargo("clean", "--offline", "--profile", prof, "-p", "rdvmono")


def cargo(*args, env=None, timeout=840):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(["cargo", *args], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(profiles=("release", "checked", "plain")):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".rdv-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        procs = []
        for prof in profiles:
            stamp = os.path.join(TARGET, ".rdv-stamp-" + prof)
            exe = os.path.join(TARGET, prof, "rdv")
            if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
                continue
            if os.path.exists(stamp):
                os.remove(stamp)
            settle_mono(prof)
            # never trust file times: the tree may have been copied or reverted. Drop the two crates of ours.
            cargo("clean", "--offline", "--profile", prof, "-p", "rustdct", "-p", "rdv")
            r = cargo("build", "--offline", "--locked", "--profile", prof)
            if r.returncode != 0:
                raise HarnessError("the harness does not build against the current tree (profile %s):\n%s" % (prof, r.stdout[-6000:]))
            open(stamp, "w").write(h)
            open(os.path.join(TARGET, ".rdv-mono-" + prof), "w").write(mono_hash())


def exe(profile):
    return os.path.join(TARGET, profile, "rdv")


def limits():
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))


def run(argv, timeout):
    """-> (returncode or None on timeout, result json or None, tail of output)"""
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    res = None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            try:
                res = json.loads(line[7:])
            except ValueError:
                pass
    return rc, res, out[-2000:]


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def crashed(rc):
    return rc is not None and rc < 0 and signal.Signals(-rc) in CRASH_SIGNALS


def one(prop, profile, case, timeout=120, reps=1):
    """run one case in its own process -> message of the failure, or None if it passes, or 'HARNESS: ...'"""
    os.makedirs(REPLAYS, exist_ok=True)
    f = os.path.join(REPLAYS, ".case-%d.json" % os.getpid())
    json.dump(case, open(f, "w"))
    try:
        rc, res, out = run([exe(profile), "one", "--prop", prop, "--case", f, "--reps", str(reps)], timeout)
    finally:
        os.remove(f)
    if rc is None:
        return "did not finish within %d s" % timeout
    if crashed(rc):
        return "the process was ended by %s" % signal.Signals(-rc).name
    if rc == 0:
        return None
    if rc == 3 and res:
        return res["message"]
    return "HARNESS: run of a single case ended with %s: %s" % (rc, out[-500:])


def is_harness(msg):
    return "HARNESS:" in msg


def candidates(prop, profile, case):
    f = os.path.join(REPLAYS, ".cand-%d.json" % os.getpid())
    json.dump(case, open(f, "w"))
    try:
        rc, res, out = run([exe(profile), "candidates", "--prop", prop, "--case", f], 60)
    finally:
        os.remove(f)
    return res if rc == 0 and isinstance(res, list) else []


def shrink(prop, profile, case, msg, budget_s=60, case_timeout=20):
    """greedy shrinking, each attempt in its own process"""
    t0 = time.time()
    steps = tries = 0
    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        for c in candidates(prop, profile, case):
            if time.time() - t0 > budget_s:
                break
            tries += 1
            m = one(prop, profile, c, timeout=case_timeout)
            if m is not None and not is_harness(m) and not m.startswith("did not finish"):
                case, msg, progress = c, m, True
                steps += 1
                break
    return case, msg, steps, tries


def write_replay(prop, profile, case, msg, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": prop, "profile": profile, "case": case, "message": msg, "how": "python3 check.py %s --replay <this file>" % prop}
    body.update(extra)
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps([profile, case], sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    json.dump(body, open(path, "w"), indent=1)
    return os.path.relpath(path, VERIF)


def violation(prop, replay, msg):
    log("property %s is violated: %s" % (prop, msg.strip()[:1500]))
    log("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1


def in_flight(prop, profile, tier, seed, scale, progress):
    """the cases that were running when the worker died"""
    out = []
    try:
        lines = open(progress, errors="replace").read().splitlines()
    except OSError:
        return out
    for l in lines:
        w = l.replace("\0", " ").split()
        if len(w) == 2 and w[0].isdigit() and w[1].isdigit():
            rc, res, _ = run([exe(profile), "case", "--prop", prop, "--tier", tier, "--seed", str(seed), "--profile", profile, "--scale", str(scale), "--round", w[0], "--index", w[1]], 120)
            if rc == 0 and res is not None:
                out.append(res)
    return out


def check(prop, tier, seed):
    t0 = time.time()
    cfg = SCALE[prop]
    profs = cfg.get("profiles", PROFILES)
    dic = dictionary()
    try:
        return search(prop, tier, seed, cfg, profs, t0)
    finally:
        os.remove(dic)


def search(prop, tier, seed, cfg, profs, t0):
    build(tuple(profs))
    tb = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {}, "wall_s": 0.0, "violations": 0}
    cov = ev["coverage"]
    cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "individual_checks": 0, "classes": {}, "per_profile": {}})
    status, note = 0, None
    fail = None
    for prof, share in profs.items():
        scale = cfg.get("quick", 1.0) * share
        budget = 0
        if tier == "thorough":
            budget = cfg.get("thorough_s", THOROUGH_S).get(prof, 0)
            scale = cfg.get("thorough", cfg.get("quick", 1.0)) * share
        os.makedirs(REPLAYS, exist_ok=True)
        progress = os.path.join(REPLAYS, ".progress-%s-%d" % (prof, os.getpid()))
        argv = [exe(prof), "worker", "--prop", prop, "--tier", tier, "--seed", str(seed), "--profile", prof, "--scale", str(scale), "--budget", str(budget), "--progress", progress]
        limit = 780 - (time.time() - t0) if tier == "quick" else budget + 1500
        rc, res, out = run(argv, max(60, limit))
        try:
            if rc == 0 and res and res["status"] == "ok":
                merge(cov, res, prof)
                continue
            if res is not None and res.get("status") == "fail":
                merge(cov, res, prof)
                if is_harness(res["message"]):
                    raise HarnessError(res["message"])
                fail = confirm(prop, prof, res, argv, limit)
                if fail is None:
                    raise HarnessError("a failure was seen but never again: " + res["message"])
                break
            if crashed(rc):
                fail = attribute(prop, prof, rc, tier, seed, scale, progress, argv, limit)
                break
            raise HarnessError("worker ended with %s\n%s" % ("a timeout" if rc is None else rc, out))
        finally:
            if os.path.exists(progress):
                os.remove(progress)
    if fail:
        prof, case, msg, extra = fail
        extra.update({"seed": seed, "tier": tier})
        ev["violations"] = 1
        cov["violation"] = {"profile": prof, "case": case, "message": msg[:2000]}
        replay = write_replay(prop, prof, case, msg, extra)
    finish(ev, prop, t0, tb)
    if fail:
        return violation(prop, replay, msg)
    log("%s held: %d cases (%d distinct non-trivial), %d individual checks, build %.0f s, total %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["individual_checks"], tb, time.time() - t0))
    return 0


def merge(cov, res, prof):
    cov["per_profile"][prof] = {k: res.get(k) for k in ("evaluations", "checks", "nontrivial", "distinct_nontrivial", "rounds", "wall_s", "worst_ratio", "worst_case", "slowest_case_s")}
    if "evaluations" not in res:
        return
    cov["evaluations"] += res["evaluations"]
    cov["individual_checks"] += res["checks"]
    # the profiles may repeat each other's cases: count distinct ones once
    cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], res["distinct_nontrivial"])
    cov["rule"] = res["rule"]
    if len(cov["samples"]) < 12:
        cov["samples"] += res["samples"][: 12 - len(cov["samples"])]
    for k, v in res["tags"].items():
        cov["classes"][k] = cov["classes"].get(k, 0) + v


def confirm(prop, prof, res, argv, limit):
    """a case failed inside the worker: reproduce it alone, shrink it"""
    case, msg = res["case"], res["message"]
    if res.get("hang"):
        m = one(prop, prof, case, timeout=110)
        if m is not None and is_harness(m):
            raise HarnessError(m)
        if m is not None:
            return prof, case, m, {"hang": True}
        # it finishes alone: only a second hang of the whole run counts
        rc, r2, out = run(argv, max(60, min(limit, 400)))
        if r2 is not None and r2.get("status") == "fail" and r2.get("hang"):
            return prof, r2["case"], r2["message"], {"whole_run": argv[1:], "hang": True, "note": "does not finish inside the run, but does alone"}
        return None
    alone = None
    for reps in (1, 5, 50):
        alone = one(prop, prof, case, timeout=200, reps=reps)
        if alone is not None:
            break
    if alone is not None and is_harness(alone):
        raise HarnessError(alone)
    if alone is not None:
        c, m, steps, tries = shrink(prop, prof, case, alone)
        return prof, c, m, {"shrink_steps": steps, "shrink_attempts": tries, "original_case": case, "original_message": msg}
    # not reproducible alone (needs other work in the same process): the whole run is the replay if it fails again
    for _ in range(3):
        rc, r2, out = run(argv, max(60, limit))
        if r2 is not None and r2.get("status") == "fail" and not is_harness(r2["message"]):
            return prof, r2["case"], r2["message"], {"whole_run": argv[1:], "note": "fails inside the run, not alone"}
        if crashed(rc):
            return prof, case, "the process was ended by a signal", {"whole_run": argv[1:]}
    return None


def attribute(prop, prof, rc, tier, seed, scale, progress, argv, limit):
    """the worker was ended by a signal: find the case that does it"""
    sig = signal.Signals(-rc).name
    for case in in_flight(prop, prof, tier, seed, scale, progress):
        for reps in (1, 20):
            m = one(prop, prof, case, reps=reps)
            if m is not None and is_harness(m):
                raise HarnessError(m)
            if m is not None:
                c, m, steps, tries = shrink(prop, prof, case, m)
                return prof, c, m, {"shrink_steps": steps, "shrink_attempts": tries, "original_case": case}
    for _ in range(2):
        rc, res, out = run(argv, max(60, limit))
        if crashed(rc):
            return prof, None, "the run was ended by %s" % sig, {"whole_run": argv[1:]}
        if res is not None and res.get("status") == "fail" and not is_harness(res["message"]):
            f = confirm(prop, prof, res, argv, limit)
            if f:
                return f
    raise HarnessError("worker ended by %s once, and never again" % sig)


def finish(ev, prop, t0, tb):
    ev["coverage"]["build_s"] = round(tb, 1)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["assumptions"] = ["the f64 direct-sum oracle (integer-reduced angles) and its rustfft embedding for long lengths, cross-checked against direct sums", "the rustfft version in Cargo.lock", "x86-64 with the SIMD units of this machine"]
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))


def replay(prop, path):
    body = json.load(open(path))
    prof = body.get("profile", "release")
    build((prof,))
    if body.get("whole_run"):
        dictionary()
        rc, res, out = run([exe(prof)] + body["whole_run"], 900)
        bad = crashed(rc) or (res or {}).get("status") == "fail"
        msg = (res or {}).get("message", "the run was ended by a signal")
    else:
        msg = one(prop, prof, body["case"], timeout=300, reps=5)
        bad = msg is not None
        if bad and is_harness(msg):
            raise HarnessError(msg)
    if bad:
        return violation(prop, path, msg)
    log("%s: the recorded case passes" % prop)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--build":
            build()
            log("built")
            return 0
        prop = a[0]
        if len(a) == 3 and a[1] == "--replay":
            return replay(prop, a[2])
        return check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or "1"))
    except HarnessError as e:
        log("CHECK-ERROR: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
