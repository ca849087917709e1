from wlib import *
import pathlib


def run(ctx, case):
    pieshell = ctx.pieshell()
    base = ctx.home
    for d in ["a", "a/b", "a/b/c", "a/a", "b", "b/x y", "b/x y/é", "PARENTS", "a/PARENT", "~", "~/ROOT", "100%s", "...", "gone", "noread", "noread/in", "locked", "locked/in", "nox", "nox/in"]: os.mkdir(base + "/" + d)
    for f in ["file", "a/file", "b/x y/file"]: open(base + "/" + f, "w").close()
    for n, t in [("ln", "a/b"), ("a/up", ".."), ("lnfile", "file"), ("broken", "nothing"), ("loop", "loop")]: os.symlink(t, base + "/" + n)
    os.chmod(base + "/noread", 0o311); os.chmod(base + "/locked", 0); os.chmod(base + "/nox", 0o644)
    secure = not os.access(base + "/locked", os.X_OK)
    os.chdir(ctx.work)
    problems = []
    env = pieshell.env(cwd=base, interactive=case["interactive"])
    scope = pieshell.environ.EnvScope(env=env)
    env._scope = scope
    cwd = base
    proc = os.getcwd()
    ok = bad = 0
    for n, st in enumerate(case["steps"]):
        if n in case.get("away", []):   # something else moved the process
            os.chdir(ctx.work)
            proc = os.getcwd()
        # A walk from the current directory or from an anchor; every step exists, except maybe the last
        kind, comps, last, how = st
        parts, target = [], cwd
        if kind == "~": parts, target = ["~"], base
        elif kind == "/": parts, target = ["/"] if how in ("args", "names") else [""], "/"
        elif kind == "abs": parts, target = [base], base
        elif kind == "cwd": parts, target = [cwd], cwd
        if kind == "/" and comps and isinstance(comps[0], int): # down to the base again, or part of the way
            for c in base[1:].split("/")[:comps[0] % 9]:
                parts.append(c)
                target = os.path.join(target, c)
            comps = comps[1:]
        for c in comps:
            if not parts and c == "~": continue
            if c == "..": target = os.path.dirname(target)
            elif c == ".": pass
            elif isinstance(c, int):
                try:
                    subs = sorted(x for x in os.listdir(target) if os.path.isdir(target + "/" + x) and os.access(target + "/" + x, os.X_OK))
                except OSError:
                    subs = []
                if not target.startswith(base) or not subs: continue
                c = subs[c % len(subs)]
                if c.startswith("~") and not parts: continue
                target = target + "/" + c
            parts.append(c)
        fails = False
        if last == "file": extra = ["file", "a/file", "lnfile"][n % 3]
        elif last == "missing": extra = ["nothing", "broken", "a/nothing/b", "loop"][n % 4]
        elif last == "locked" and secure: extra = ["locked", "nox", "nox/in", "locked/in"][n % 4]
        elif last == "unknown": extra = "~no_such_user" + ["", "/a", "/a/b"][n % 3]
        elif last == "gone":
            extra = "gone"
            if cwd == base + "/gone":
                env._cd(base)
                cwd = base
                if case["interactive"]: proc = os.path.realpath(cwd)
            try: os.rmdir(base + "/gone")
            except OSError: pass
        else: extra = None
        if extra is not None:
            fails = True
            if last == "unknown": parts = extra.split("/")
            else: parts = [base] + extra.split("/")
        if not parts: parts = ["."]
        home = False
        path = "/".join(parts) or "/"
        if path.startswith("//"): path = path[1:]
        if path in ("PARENT", "ROOT"): path = "./" + path   # cd replaces these
        if how == "args": f = lambda: env.cd(*parts)
        elif how == "names":
            names = [{"..": "PARENT"}.get(p, p) for p in parts]
            if names[0] == "/": names[0] = "ROOT"
            if any(p in ("PARENT", "ROOT") and q == p for p, q in zip(names, parts)):
                how = "args"    # a directory of that name cannot be given this way
                names = parts
            if "PARENT" in parts or "ROOT" in parts: names = None
            def f():
                p = env.cd
                for x in names: p = getattr(p, x) if x.isidentifier() else p(x)
                return p
            if names is None: how, f = "one", lambda: env.cd(path)
        elif how == "_": f = lambda: env._("cd", path)
        else: f = lambda: env.cd(path)
        if how == "args" and ("PARENT" in parts or "ROOT" in parts): how, f = "one", lambda: env.cd(path)
        if how == "home" and not fails: f, target = lambda: env.cd, base
        what = "step %d: %s %r from %s" % (n, how, parts, cwd[len(ctx.dir):])
        raised = None
        newenv = None
        try:
            if how == "_cd": env._cd(path)
            elif how == "call": newenv = env(path)
            elif how == "item": newenv = env[path]
            elif how == "scope": scope.execute_expr("cd(%r)" % path) if case["interactive"] else scope.execute_expr("+cd(%r)" % path)
            elif how == "run": f().run()
            elif how == "await": asyncio.get_event_loop().run_until_complete(aw(f()))
            elif how == "repr" and case["interactive"]: sys.displayhook(f())
            else: +f()
        except Exception as e:
            raised = e
        if fails:
            bad += 1
            if raised is None and how != "scope": problems.append("%s succeeded, but is not a usable directory" % what)
            if raised is not None and not isinstance(raised, (IOError, OSError)): problems.append("%s raised %r" % (what, raised))
        else:
            ok += 1
            if raised is not None: problems.append("%s failed: %r" % (what, raised))
        if newenv is not None:
            if newenv._cwd != target and not fails: problems.append("%s gave an environment in %r, expected %r" % (what, newenv._cwd, target))
            if env._cwd != cwd: problems.append("%s moved the original environment to %r" % (what, env._cwd))
            if not fails:
                env = newenv
                scope = pieshell.environ.EnvScope(env=env)
                env._scope = scope
        if not fails:
            cwd = target
            if case["interactive"]: proc = os.path.realpath(cwd)
        if env._cwd != cwd: problems.append("%s: the environment is in %r, expected %r" % (what, env._cwd, cwd))
        if os.getcwd() != proc: problems.append("%s: the process is in %r, expected %r" % (what, os.getcwd(), proc))
        if problems: break
        if n % 4 == 3 or n == len(case["steps"]) - 1:
            got = ctx.path()
            +env._(ctx.probe, "c:" + got)
            if (read(got) or b"?").decode() != os.path.realpath(cwd): problems.append("%s: a command runs in %r, expected %r" % (what, read(got), cwd))
    for d in ("noread", "locked", "nox"): os.chmod(base + "/" + d, 0o700)
    return {"problems": problems, "ok": ok, "bad": bad}


async def aw(p):
    await p
