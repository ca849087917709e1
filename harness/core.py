"""Driver: generated-input search with Hypothesis (CPython 3.12) over cases that are executed against
/repo's pieshell by PyPy fork servers (worker/zygote.py); merging, confirmation, replay and evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, importlib, select, argparse, traceback, signal, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYPY = "/opt/venv/bin/python"
NOBODY = 65534


class HarnessError(Exception):
    pass


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:12]


# ---------------------------------------------------------------- workers

class Worker:
    def __init__(self, scratch):
        self.scratch = scratch
        self.proc = None

    def start(self):
        env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "dumb", "PYTHONHASHSEED": "0",
               "HOME": self.scratch, "PYTHONPYCACHEPREFIX": self.scratch + "/pyc", "PYTHONNOUSERSITE": "1"}
        user = {}
        if os.geteuid() == 0 and worker_user():
            user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        self.errfile = open(self.scratch + "/zygote.err", "ab")
        self.proc = subprocess.Popen([PYPY, "-W", "ignore", self.scratch + "/worker/zygote.py", self.scratch],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile, env=env, cwd=self.scratch, **user)

    def run(self, mod, case, timeout, fn="run"):
        for attempt in range(2):
            if self.proc is None or self.proc.poll() is not None:
                self.start()
            req = {"mod": mod, "fn": fn, "case": case, "timeout": timeout}
            try:
                self.proc.stdin.write(json.dumps(req).encode() + b"\n")
                self.proc.stdin.flush()
                r, _, _ = select.select([self.proc.stdout], [], [], timeout + 60)
                line = self.proc.stdout.readline() if r else b""
            except BrokenPipeError:
                line = b""
            if line:
                res = json.loads(line)
                if res.get("status") == "harness":
                    raise HarnessError("worker failed on %s:\n%s\n%s" % (canon(case)[:2000], res.get("error"), res.get("err")))
                return res
            self.stop()
        raise HarnessError("fork server died; see\n%s" % open(self.scratch + "/zygote.err", errors="replace").read()[-2000:])

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.errfile.close()
            self.proc = None


_user_ok = None


def worker_user():
    """Whether the unprivileged user can run PyPy on /repo; if so cases run as that user."""
    global _user_ok
    if _user_ok is None:
        try:
            _user_ok = subprocess.run([PYPY, "-c", "import os; open('%s/pieshell/__init__.py').close(); os.listdir('%s/pieshell.egg-info')" % (REPO, REPO)],
                                      user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      stderr=subprocess.DEVNULL, cwd="/", env={"PATH": "/usr/bin:/bin"}).returncode == 0
        except (OSError, PermissionError):
            _user_ok = False
    return _user_ok


def make_scratch():
    """Scratch directory of one worker, under /tmp: worker code, probe, case directories, byte code cache."""
    base = "/tmp" if os.access("/tmp", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="pvf.", dir=base)
    os.chmod(d, 0o755)
    for n in ("cases", "pyc", "bin"):
        os.mkdir(d + "/" + n)
    shutil.copytree(VERIF + "/worker", d + "/worker", ignore=shutil.ignore_patterns("__pycache__"))
    for top, dirs, files in os.walk(d + "/worker"):
        os.chmod(top, 0o755)
        for f in files:
            os.chmod(os.path.join(top, f), 0o644)
    return d


def fill_scratch(d, probe):
    shutil.copy(probe, d + "/bin/probe")
    os.chmod(d + "/bin/probe", 0o755)
    if os.geteuid() == 0 and worker_user():
        for n in ("cases", "pyc"):
            os.chown(d + "/" + n, NOBODY, NOBODY)


def build_probe(d):
    out = d + "/probe"
    subprocess.run(["gcc", "-O1", "-o", out, VERIF + "/worker/probe.c"], check=True, stdin=subprocess.DEVNULL)
    return out


def prepare_repo():
    """pieshell does not import without the files setup.py generates (ignored by git)."""
    if not (os.path.exists(REPO + "/pieshell/version.py") and os.path.exists(REPO + "/pieshell/README.md")
            and os.path.exists(REPO + "/pieshell.egg-info/entry_points.txt")):
        subprocess.run([PYPY, "setup.py", "-q", "egg_info"], cwd=REPO, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "HOME": "/tmp"})


# ---------------------------------------------------------------- checks

class Check:
    """Base of the checks in checks/cNN.py."""
    id = None
    worker = None              # module in worker/
    rule = ""                  # how cases are made, what is non-trivial
    quick = 60                 # examples per shard
    thorough = 1500
    timeout = 15.0             # seconds after which a case counts as hanging (confirmed with twice as much)
    budget = {"quick": 40, "thorough": 700}
    shards = 8
    assumptions = ()

    def strategy(self):
        raise NotImplementedError

    def judge(self, case, obs):
        """Returns None or a text that says what is wrong.  obs is what worker.run returned."""
        raise NotImplementedError

    def nontrivial(self, case, obs):
        return True

    def classify(self, case, obs):
        return []

    def known(self, case, problem):
        return None

    # -- common part of judging
    def verdict(self, case, obs):
        if obs["status"] == "hang":
            return "did not finish within %d s (stdout %r, stderr %r)" % (obs.get("limit", 0), obs.get("out", "")[-300:], obs.get("err", "")[-1500:])
        if obs.get("dups"):
            return "the calling Python code went on in more than one process: %s" % (obs["dups"],)
        if obs["status"] == "died":
            return "the Python process died: %s; stderr %r" % (obs.get("error"), obs.get("err", "")[-800:])
        if obs["status"] == "error":
            return "unexpected exception: %s" % (obs.get("error"),)
        return self.judge(case, obs["result"])

    def execute(self, worker, case):
        obs = worker.run(self.worker, case, self.timeout)
        obs["limit"] = self.timeout
        if obs["status"] == "hang":
            obs = worker.run(self.worker, case, self.timeout * 2)
            obs["limit"] = self.timeout * 2
        return obs


def load(cid):
    mod = importlib.import_module("checks." + cid.lower())
    return mod.CHECK


class Violation(Exception):
    pass


def shard_main(args):
    """Runs one shard; writes a JSON report."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    check = load(args.id)
    worker = Worker(args.scratch)
    st = {"evaluations": 0, "nontrivial": {}, "classes": {}, "samples": [], "skipped": 0, "hangs": 0, "known": {}, "fail": None, "error": None, "slow": 0.0}
    t0 = time.monotonic()
    deadline = t0 + args.budget
    memo = {}
    state = {"first_fail": None, "best": None}
    shrink_s = 45 if args.tier == "quick" else 120

    def evaluate(case):
        t = time.monotonic()
        obs = check.execute(worker, case)
        st["slow"] = max(st["slow"], time.monotonic() - t)
        st["evaluations"] += 1
        if obs["status"] == "hang":
            st["hangs"] += 1
        problem = check.verdict(case, obs)
        res = obs.get("result")
        if obs["status"] == "ok":
            for c in check.classify(case, res):
                st["classes"][c] = st["classes"].get(c, 0) + 1
            if check.nontrivial(case, res):
                st["nontrivial"][digest(case)] = 1
                if len(st["samples"]) < 3 and len(canon(case)) < 3000:
                    st["samples"].append(case)
        if problem:
            k = check.known(case, problem)
            if k:
                st["known"][k] = st["known"].get(k, 0) + 1
                problem = None
        return problem

    def body(case):
        key = canon(case)
        now = time.monotonic()
        if key in memo:
            problem = memo[key]
        elif state["first_fail"] is None and now > deadline:
            st["skipped"] += 1
            return
        elif state["first_fail"] is not None and now > state["first_fail"] + shrink_s:
            return
        else:
            problem = memo[key] = evaluate(case)
        if problem:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            state["best"] = (case, problem)
            raise Violation(problem)

    test = given(check.strategy())(body)
    test = settings(max_examples=args.examples, deadline=None, database=None, derandomize=False, print_blob=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])(test)
    test = hypothesis.seed(args.seed * 1000003 + args.shard)(test)
    try:
        test()
    except HarnessError as e:
        st["error"] = "".join(traceback.format_exception(e))[-6000:]
    except BaseException as e:
        if state["best"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-6000:]
    if state["best"]:
        st["fail"] = {"case": state["best"][0], "problem": state["best"][1]}
    worker.stop()
    st["nontrivial"] = sorted(st["nontrivial"])
    st["wall_s"] = time.monotonic() - t0
    with open(args.out, "w") as f:
        json.dump(st, f)


def known_lines(cid):
    res = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % cid):
                res.append(line[len("finding: "):].strip())
    return res


def confirm(check, worker, case, tries=8):
    """Re-runs a failing case in fresh processes; the text of the failure, or None if it never fails again."""
    for i in range(tries):
        obs = check.execute(worker, case)
        p = check.verdict(case, obs)
        if p and not check.known(case, p):
            return p, obs
    return None, None


def write_replay(cid, case, problem, obs):
    d = VERIF + "/replays"
    os.makedirs(d, exist_ok=True)
    path = "%s/%s-%s.json" % (d, cid, digest(case))
    with open(path, "w") as f:
        json.dump({"property": cid, "case": case, "problem": problem, "observed": obs}, f, indent=1, ensure_ascii=True)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--shards", type=int)
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.shard is not None:
        return shard_main(args)
    cid = args.id.upper()
    check = load(cid)
    t0 = time.time()
    prepare_repo()
    scratches = []

    def scratch():
        d = make_scratch()
        scratches.append(d)
        if len(scratches) == 1:
            scratch.probe = build_probe(d)
        fill_scratch(d, scratch.probe)
        return d
    procs = []
    try:
        worker = Worker(scratch())
        if args.replay:
            with open(args.replay) as f:
                case = json.load(f)["case"]
            p, obs = confirm(check, worker, case, 5)
            if p:
                print("%s\n%s" % (canon(case), p))
                print("VIOLATION property=%s replay=%s" % (cid, os.path.abspath(args.replay)))
                return 1
            print("the case passes")
            return 0

        # saved cases first
        fails, regress = [], 0
        rd = VERIF + "/regress/" + cid
        base = dict(evaluations=0, nontrivial=set(), classes={}, samples=[], skipped=0, hangs=0, known={}, slow=0.0)
        saved = sorted(os.listdir(rd)) if os.path.isdir(rd) else []

        n = args.shards or check.shards
        examples = args.examples or (check.quick if args.tier == "quick" else check.thorough)
        budget = args.budget or check.budget[args.tier]
        errors = []
        for i in range(n):
            d = scratch()
            out = d + "/report.json"
            cmd = [sys.executable, "-W", "ignore", os.path.abspath(sys.argv[0]), cid, "--tier", args.tier, "--seed", str(args.seed), "--shard", str(i),
                   "--scratch", d, "--out", out, "--examples", str(examples), "--budget", str(budget)]
            procs.append((subprocess.Popen(cmd, stdin=subprocess.DEVNULL), out))
        for name in saved:
            with open(rd + "/" + name) as f:
                case = json.load(f)["case"]
            obs = check.execute(worker, case)
            regress += 1
            base["evaluations"] += 1
            p = check.verdict(case, obs)
            if obs["status"] == "ok" and check.nontrivial(case, obs["result"]):
                base["nontrivial"].add(digest(case))
            if p and not check.known(case, p):
                fails.append({"case": case, "problem": p, "saved": name})
        for p, out in procs:
            p.wait()
            try:
                with open(out) as f:
                    r = json.load(f)
            except (OSError, ValueError):
                errors.append("a shard ended with %r and no report" % (p.returncode,))
                continue
            for k in ("evaluations", "skipped", "hangs"):
                base[k] += r[k]
            base["slow"] = max(base["slow"], r["slow"])
            base["nontrivial"].update(r["nontrivial"])
            for k in ("classes", "known"):
                for a, b in r[k].items():
                    base[k][a] = base[k].get(a, 0) + b
            base["samples"] += r["samples"]
            if r["error"]:
                errors.append(r["error"])
            if r["fail"]:
                fails.append(r["fail"])
        fails.sort(key=lambda f: len(canon(f["case"])))
        violation, unconfirmed = None, []
        for f in fails[:6]:
            p, obs = confirm(check, worker, f["case"])
            if p:
                path = write_replay(cid, f["case"], p, obs)
                violation = (f["case"], p, path)
                break
            unconfirmed.append(f)
        ev = {"property": cid, "tier": args.tier, "seed": args.seed, "level": "exploration",
              "coverage": {"evaluations": base["evaluations"], "distinct_nontrivial": len(base["nontrivial"]), "rule": check.rule,
                           "samples": sorted(base["samples"], key=lambda c: len(canon(c)))[:6], "classes": dict(sorted(base["classes"].items())),
                           "saved_cases_replayed": regress, "not_run_for_lack_of_time": base["skipped"], "cases_that_hung": base["hangs"],
                           "slowest_case_s": round(base["slow"], 2), "shards": n, "known_finding_cases": base["known"]},
              "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
        if unconfirmed:
            ev["coverage"]["failures_that_did_not_reproduce"] = [{"case": f["case"], "problem": f["problem"][:1000]} for f in unconfirmed]
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % cid, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for line in known_lines(cid):
            print("KNOWN-FINDING: " + line)
        print("%s: %d cases, %d distinct non-trivial, %d saved, %.1f s, classes %s" % (
            cid, base["evaluations"], len(base["nontrivial"]), regress, time.time() - t0, ev["coverage"]["classes"]))
        for f in unconfirmed:
            print("note: a failure that did not reproduce: %s: %s" % (canon(f["case"])[:1500], f["problem"][:1500]))
        if violation:
            print("case: %s\nproblem: %s" % (canon(violation[0])[:6000], violation[1][:4000]))
            print("VIOLATION property=%s replay=%s" % (cid, violation[2]))
            return 1
        if errors:
            print("ERROR: %s" % errors[0])
            return 2
        if not base["evaluations"]:
            print("ERROR: nothing was run")
            return 2
        return 0
    finally:
        for p, out in procs:
            if p.poll() is None:
                p.kill()
        try:
            worker.stop()
        except Exception:
            pass
        for d in scratches:
            shutil.rmtree(d, ignore_errors=True)
