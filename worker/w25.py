from wlib import *


def run(ctx, case):
    # Packages that bring builtins
    pk = ctx.dir + "/site"
    os.mkdir(pk)
    sys.path.insert(0, pk)
    record = []
    import builtins
    builtins.w25_record = record
    names_by_package = {}
    for i, p in enumerate(case["packages"]):
        d = "%s/pack%d-1.0.dist-info" % (pk, i)
        os.mkdir(d)
        with open(d + "/METADATA", "w") as f: f.write("Metadata-Version: 2.1\nName: pack%d\nVersion: 1.0\n" % i)
        with open(d + "/entry_points.txt", "w") as f:
            f.write("[console_scripts]\nzz = zz:main\n[pieshell.builtin]\n" + "".join("%s = pack%d:B%d\n" % (n, i, k) for k, n in enumerate(p)))
        with open("%s/pack%d.py" % (pk, i), "w") as f:
            f.write("from pieshell.pipeline.builtin import Builtin\nimport builtins\n" + "".join(
                "class B%d(Builtin):\n    name = %r\n    def _run(self, redirects, sess, indentation=''):\n        builtins.w25_record.append([%r, self._arg])\n        return []\n" % (k, "other" if case["othername"] else n, "pack%d.%s" % (i, n)) for k, n in enumerate(p)))
        for n in p: names_by_package[n] = "pack%d.%s" % (i, n)
    pieshell = ctx.pieshell()
    Registry = pieshell.pipeline.BuiltinRegistry
    from pieshell.pipeline.builtin import Builtin
    problems = []
    stats = {"looks": 0, "runs": 0}
    registered = dict(names_by_package)
    own = ["cd", "bg", "fg", "clear_dir_cache", "bashsource", "subshell", "remote"]
    env0 = pieshell.env(cwd=ctx.work, exports=dict(os.environ)) if case["own"] else pieshell.env
    envs = [{"env": env0, "cwd": ctx.work, "path": os.environ["PATH"], "fresh": True}]
    scope = pieshell.environ.EnvScope(env=env0)
    dirs = [ctx.dir + "/p%d" % i for i in range(3)] + [ctx.work, ctx.work + "/sub", ctx.work + "/lib é"]
    for d in dirs[:2] + dirs[4:5]: os.mkdir(d)

    def entry(e):
        k = e[0]
        if k == "abs": return dirs[e[1] % len(dirs)]
        if k == "slash": return dirs[e[1] % len(dirs)] + "/"
        if k == "dots": return dirs[e[1] % len(dirs)] + "/../" + os.path.basename(dirs[e[1] % len(dirs)])
        if k == "rel": return ["sub", ".", "..", "./sub/", "lib é", "../p0"][e[1] % 6]
        if k == "empty": return ""
        if k == "missing": return ctx.dir + "/missing"
        if k == "file": return ctx.dir + "/afile"
        if k == "unreadable": return ctx.dir + "/unreadable"
        if k == "link": return ctx.dir + "/link"
        if k == "sys": return "/usr/bin"
        raise ValueError(k)
    with open(ctx.dir + "/afile", "w") as f: pass
    os.mkdir(ctx.dir + "/unreadable")
    os.chmod(ctx.dir + "/unreadable", 0)
    os.symlink(dirs[0], ctx.dir + "/link")

    def entries(E):
        path = E["path"] if E["path"] is not None else os.defpath
        return [os.path.join(E["cwd"], p) for p in path.split(":")]

    def available(E):
        """(programs, everything that lies there)"""
        progs, names = set(), set()
        for d in entries(E):
            try: l = os.listdir(d)
            except OSError: continue
            names |= set(l)
            progs |= {n for n in l if os.path.isfile(d + "/" + n) and os.access(d + "/" + n, os.X_OK)}
        return progs, names

    def look(E, what):
        stats["looks"] += 1
        l = dir(E["env"])
        progs, names = available(E)
        bs = set(own) | set(registered)
        miss = (progs | bs) - set(l)
        if miss: problems.append("%s: %r is not offered" % (what, sorted(miss)[:5]))
        extra = set(l) - names - bs
        if extra: problems.append("%s: %r is offered" % (what, sorted(extra)[:5]))
        if E is envs[0]:
            k = list(scope.keys())
            miss = (set(progs) | bs | set(E["env"]._exports) | set(variables)) - set(k)
            if miss: problems.append("%s: the scope does not offer %r" % (what, sorted(miss)[:5]))
            if set(list(scope)) != set(k): problems.append("%s: iterating the scope" % what)
    variables = ["env"]

    def which(E, name):
        for d in entries(E):
            p = d + "/" + name
            if os.path.isfile(p) and os.access(p, os.X_OK): return os.path.realpath(p)

    def setpath(E, path):
        ex = E["env"]._exports
        if path is None: ex.pop("PATH", None)
        else: ex["PATH"] = path
        for F in envs:
            if F["env"]._exports is ex: F["path"] = path
    made = []
    for n, op in enumerate(case["ops"]):
        k = op[0]
        what = "step %d %r" % (n, op)
        E = envs[op[1] % len(envs)]
        if k == "add":
            d = dirs[op[2] % len(dirs)]
            if os.path.isdir(d) and not os.path.exists(d + "/" + op[3]):
                with open(d + "/" + op[3], "w") as f: f.write("#!/bin/sh\necho '%s'\n" % os.path.realpath(d + "/" + op[3]))
                os.chmod(d + "/" + op[3], 0o755 if op[4] else 0o644)
                made.append(d + "/" + op[3])
        elif k == "remove":
            if made: os.unlink(made.pop(op[2] % len(made)))
        elif k == "mkdir":
            d = dirs[op[2] % len(dirs)]
            if not os.path.exists(d): os.mkdir(d)
        elif k == "path": setpath(E, ":".join(entry(e) for e in op[2]))
        elif k == "unset": setpath(E, None)
        elif k == "cd":
            E["env"]._cd(dirs[op[2] % 2])
            E["cwd"] = dirs[op[2] % 2]
        elif k == "derive":
            if len(envs) < 3:
                kw = {}
                if op[2]: kw["cwd"] = dirs[1]
                new = E["env"](**kw)
                envs.append({"env": new, "cwd": dirs[1] if op[2] else E["cwd"], "path": E["path"], "fresh": True})
                look(envs[-1], what)
        elif k == "register":
            tag = "registered%d" % n
            def make(tag):
                class B(Builtin):
                    name = op[3]
                    def _run(self, redirects, sess, indentation=""):
                        record.append([tag, self._arg])
                        return []
                return B
            if op[2]: Registry.register(make(tag))
            else: Registry.register(make(tag), op[3])
            registered[op[3]] = tag
        elif k == "var":
            scope["var" + op[3]] = 1
            variables.append("var" + op[3])
        elif k == "clear":
            # What the user types
            c = E["env"].clear_dir_cache
            if op[2]: +c()
            else: +c
            look(E, what)
        elif k == "look": dir(E["env"])
        elif k == "run":
            name = op[3]
            stats["runs"] += 1
            c = getattr(E["env"], name) if op[2] else scope[name] if E is envs[0] and name not in variables else E["env"]._(name) if name != "_" else None
            if c is None: continue
            if not hasattr(c, "_arg"):
                problems.append("%s: %s is %r" % (what, name, c))
                continue
            del record[:]
            if name in registered:
                try: +c("x")
                except Exception as e: problems.append("%s: %s: %s" % (what, type(e).__name__, e))
                if record != [[registered[name], [name, "x"]]]: problems.append("%s: %r ran, expected %s" % (what, record, registered[name]))
            else:
                w = which(E, name)
                try: got = [str(x) for x in c("x")]
                except pieshell.pipeline.running.PipelineFailed: got = None
                if record: problems.append("%s: a builtin %r ran" % (what, record))
                if got != (None if w is None else [w]): problems.append("%s: %r ran, expected %r" % (what, got, w))
        if problems: break
    if not problems:
        for E in envs:
            E["env"]._clear_dir_cache()
            look(E, "at the end")
    os.chmod(ctx.dir + "/unreadable", 0o755)
    return {"problems": problems[:4], "stats": stats}
