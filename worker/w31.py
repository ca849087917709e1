from wlib import *
import getpass, socket, subprocess, shutil, time

DIRS = ["home", "home/sub", "home2", "home/repo", "home/repo/deep/er", "repo", "repo/sub dir", "repo/.git", "repo2", "plain", "é%s [x]", "gone", "", "/"]
REPOS = ["home/repo", "repo", "repo2", "home2"]


def run(ctx, case):
    home = ctx.work + "/home"
    os.environ["HOME"] = home + case["slash"]
    for k in [k for k in os.environ if k.startswith("GIT_")]: del os.environ[k]
    for d in DIRS:
        if d != "/" and ".git" not in d: os.makedirs(ctx.work + "/" + d, exist_ok=True)
    pieshell = ctx.pieshell()
    scope = pieshell.envScope
    problems, shown = [], []
    kinds = set()
    path = lambda d: "/" if d == "/" else ctx.work + ("/" + d if d else "")

    def git(d, *args):
        p = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "-c", "commit.gpgsign=false", "-c", "advice.detachedHead=false"] + list(args), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, LC_ALL="C.UTF-8"))
        return p.stdout.decode("utf-8", "surrogateescape") if p.returncode == 0 else None

    for d in REPOS:
        if case["repos"].get(d):
            r = case["repos"][d]
            git(path(d), "init", "-q", "-b", r["branch"])
            for k in range(r["commits"]):
                with open(path(d) + "/c%d" % k, "w") as f: f.write("x")
                git(path(d), "add", "-A"), git(path(d), "commit", "-q", "-m", "c%d" % k)
            if r["detached"]: git(path(d), "checkout", "-q", "--detach")
            for k in range(r["changes"]):
                with open(path(d) + "/" + ("c%d" % k if k < r["commits"] else "new %d é" % k), "a") as f: f.write("y")
            kinds.add("repository")
    if not os.path.exists(path("repo/.git")): os.mkdir(path("repo/.git"))

    with scope:
        scope.execute_startup()
        if not os.path.exists(home + "/.config/pieshell"): problems.append("no configuration was installed")
        envs = [pieshell.env(cwd=path(d), interactive=i) for d, i in case["envs"]]
        scope["env"] = envs[0]
        bg = []

        def branch(d):
            if not os.path.isdir(d) or (git(d, "rev-parse", "--is-inside-work-tree") or "").strip() != "true": return ""
            ref = git(d, "symbolic-ref", "-q", "HEAD")
            name = (git(d, "rev-parse", "HEAD") or "")[:7] if ref is None else ref.strip()
            if name.startswith("refs/heads/"): name = name[len("refs/heads/"):]
            n = len((git(d, "status", "--porcelain") or "").splitlines())
            kinds.add("detached" if ref is None else "branch")
            if n: kinds.add("changes")
            return "[%s%s]" % (name, " +%d" % n if n else "")

        def expected(d):
            if d == home or d.startswith(home + "/"): short = "~" + d[len(home):]
            else: short = d
            return "%s@%s:%s%s >>> " % (getpass.getuser(), socket.gethostname(), short, branch(d))

        def state():
            # What has ended is not listed any more after some turns of the loop
            spin(0.001)
            for p in bg:
                if p[2]: wait_until(lambda: p[1] not in [x for e in envs for x in e.running_pipelines] , 5)
            return {"last pipelines": [id(e.__dict__["last_pipeline"]) if isinstance(e.__dict__.get("last_pipeline"), pieshell.RunningPipeline) else 0 for e in envs],
                    "running pipelines": [sorted(id(x) for x in e.running_pipelines) for e in envs],
                    "directories": [e._cwd for e in envs], "the directory of the process": os.getcwd() if os.path.exists("/proc/self/cwd/.") else None,
                    "variables": [dict(e._exports) for e in envs], "names of the shell": sorted(dict.keys(scope)), "environment": id(scope["env"]),
                    "temporary files": sorted(os.listdir(tempfile.gettempdir())), "descriptors": {k: v[0] for k, v in fds().items()}, "sys.ps1": id(sys.ps1), "children": sorted(child_pids()),
                    "background": [p[1].is_running for p in bg]}

        def show(i, how):
            e = envs[i]
            if how in ("scope", "ps1"): e = scope["env"]
            d = e._cwd
            want = expected(d)
            before = state()
            sys.stdout.flush(), sys.stderr.flush()
            out = "%s/shown%d" % (ctx.dir, len(shown))
            old = [(fd, os.dup(fd)) for fd in (1, 2)]
            f = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            for fd, _ in old: os.dup2(f, fd)
            os.close(f)
            try:
                try: got = "%s" % e if how == "format" else str(scope) if how == "scope" else str(sys.ps1) if how == "ps1" else str(e)
                except Exception as x: got = "%s: %s" % (type(x).__name__, str(x)[:300])
                sys.stdout.flush(), sys.stderr.flush()
            finally:
                for fd, o in old: os.dup2(o, fd), os.close(o)
            shown.append(got)
            what = "after %d, %s of the environment in %s" % (step, how, d)
            if got != want: problems.append("%s is %r, expected %r" % (what, got, want))
            text = read(out)
            if text and os.path.isdir(d): problems.append("%s writes %r" % (what, text[:300]))
            now = state()
            for k in before:
                if k in ("descriptors", "children", "temporary files"):
                    wait_until(lambda: state()[k] == before[k], 3)
                    now = state()
                if now[k] != before[k]: problems.append("%s changes the %s: %r, before %r" % (what, k, now[k], before[k]))

        show_n = 0
        for step, (op, a, b) in enumerate(case["ops"]):
            e = envs[a % len(envs)] if isinstance(a, int) else None
            repo = path(REPOS[a % len(REPOS)]) if isinstance(a, int) else None
            if op == "show": show(a % len(envs), ["str", "str", "format", "scope", "ps1"][b % 5])
            elif op == "cd":
                d = path(DIRS[b % len(DIRS)])
                if os.path.isdir(d): +e.cd(d)
            elif op == "switch": scope["env"] = e
            elif op == "touch":
                with open("%s/f%d é" % (repo, b), "a") as f: f.write("x%d\n" % step)
            elif op == "commit": git(repo, "add", "-A"), git(repo, "commit", "-q", "--allow-empty", "-m", "m%d" % step)
            elif op == "branch": git(repo, "checkout", "-q", "-B" if git(repo, "rev-parse", "HEAD") else "--orphan", ["main", "feature/x", "é", "a+1", "refs/heads/odd", "x%s"][b % 6])
            elif op == "detach": git(repo, "checkout", "-q", "--detach")
            elif op == "gone":
                if all(x._cwd != path("gone") or not x._interactive for x in envs): shutil.rmtree(path("gone"), ignore_errors=True)
            elif op == "bg":
                gate = "%s/gate%d" % (ctx.dir, step)
                if os.path.isdir(e._cwd): bg.append([gate, e._(ctx.probe, pieshell.R("u:" + gate)).run(), False])
            elif op == "end" and bg:
                p = bg[b % len(bg)]
                open(p[0], "w").close()
                p[2] = True
                wait_until(lambda: not p[1].is_running)
            elif op == "run" and os.path.isdir(e._cwd):
                try: +e._(ctx.probe, pieshell.R("x:%d" % (b % 3)))
                except pieshell.PipelineFailed: pass
            if len(problems) > 3: break
        if not problems and not shown: step = len(case["ops"]); show(0, "str")
        for p in bg:
            open(p[0], "w").close()
            if not wait_until(lambda: not p[1].is_running): problems.append("a pipeline in the background does not end")
    return {"problems": problems[:4], "shown": len(shown), "kinds": sorted(kinds), "bg": len(bg)}
