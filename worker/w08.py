from wlib import *


def run(ctx, case):
    pieshell = ctx.pieshell()
    redir = pieshell.redir
    base = ctx.dir + "/t"
    dirs = ["", "a", "a/b", "a/b/c", "b", "b/x y", "é"]
    for d in dirs: os.mkdir(base + "/" + d)
    os.symlink("a/b", base + "/ln")
    dirs.append("ln")
    for d in ["p0", "p1", "p2", "p3", None]:
        d = ctx.bin if d is None else ctx.dir + "/" + d
        os.makedirs(d, exist_ok=True)
        if d[-2:] == "p3": continue     # has no such program
        with open(d + "/who", "w") as f: f.write("#!%s\n" % ctx.probe)
        os.chmod(d + "/who", 0o644 if d[-2:] == "p0" else 0o755)
    os.chdir(base)
    problems, log = [], []
    envs = [pieshell.env(cwd=base) if case["root"] == "derived" else pieshell.env]
    # cwd, variables, interactive, default output file, live: os.environ itself
    model = [{"cwd": base if case["root"] == "derived" else ctx.work, "vars": dict(os.environ) if case["root"] == "derived" else os.environ, "int": False, "out": None, "err": None}]
    proc = base
    outs = {}
    held = []
    bg = []

    def where(op, m):
        kind, v = op
        if kind == "abs": return base + "/" + dirs[v % len(dirs)]
        subs = sorted(n for n in os.listdir(m["cwd"]) if os.path.isdir(m["cwd"] + "/" + n)) + ["..", "."]
        return subs[v % len(subs)]

    def resolve(m, p):
        return os.path.normpath(os.path.join(m["cwd"], p))

    def probe(i, tag):
        files = ctx.path("c"), ctx.path("e")
        return files, envs[i]._(ctx.probe, "c:" + files[0], "e:" + files[1], "w:1:" + (tag + "\n").encode().hex())

    def check(files, m, what):
        got = read(files[0])
        want = os.path.realpath(m["cwd"])
        if got is None:
            problems.append("%s: the command did not run" % what)
            return
        if got.decode("utf-8", "replace") != want:
            problems.append("%s: ran in %r, expected %r" % (what, got, want))
        e = read(files[1]).decode("utf-8", "surrogateescape").split("\0")[:-1]
        w = sorted("%s=%s" % kv for kv in m["vars"].items())
        if sorted(e) != w:
            problems.append("%s: ran with variables %r, expected %r" % (what, sorted(set(e) - set(w)) or [x for x in e if e.count(x) > 1], sorted(set(w) - set(e))))

    def snap(m): return dict(m, vars=dict(m["vars"]))

    def new(e, m, creates):
        nonlocal proc
        envs.append(e)
        model.append(m)
        if m["int"]:
            now = os.getcwd()
            if now not in (os.path.realpath(proc), os.path.realpath(m["cwd"])):
                problems.append("creating an interactive environment moved the process to %r" % now)
            proc = now
    runs = 0
    for n, op in enumerate(case["ops"]):
        k = op[0]
        i = op[1] % len(envs)
        env, m = envs[i], model[i]
        what = "step %d, %s of environment %d" % (n, k, i)
        if k == "derive":
            kw, nm = {}, {"cwd": m["cwd"], "vars": dict(m["vars"]), "int": m["int"], "out": m["out"], "err": m["err"]}
            if op[2] is not None:
                kw["cwd"] = where(op[2], m)
                nm["cwd"] = resolve(m, kw["cwd"])
            if op[3] is not None:
                kw["exports"] = dict(op[3])
                nm["vars"] = dict(op[3])
            if op[4] is not None: kw["interactive"] = nm["int"] = op[4]
            new(env(**kw), nm, True)
        elif k == "item":
            p = where(op[2], m)
            new(env[p], {"cwd": resolve(m, p), "vars": dict(m["vars"]), "int": m["int"], "out": m["out"], "err": m["err"]}, True)
        elif k == "cd":
            p = where(op[2], m)
            if op[3]: +env.cd(p)
            else: env._cd(p)
            m["cwd"] = resolve(m, p)
            if m["int"]: proc = m["cwd"]
        elif k == "set":
            env._exports[op[2]] = op[3]
            if m["vars"] is not os.environ: m["vars"][op[2]] = op[3]
        elif k == "del":
            env._exports.pop(op[2], None)
            if m["vars"] is not os.environ: m["vars"].pop(op[2], None)
        elif k == "chdir":
            proc = base + "/" + dirs[op[2] % len(dirs)]
            os.chdir(proc)
        elif k == "osenv":
            os.environ[op[2]] = op[3]
        elif k == "out":
            name = ctx.path("out")
            if op[2]: env | name
            else: env | redir.Redirect("stdout", name, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            m["out"] = (name, not op[2])
            outs[name] = ""
        elif k == "err":
            name = ctx.path("err")
            env | redir.Redirect("stderr", name)
            m["err"] = name
        elif k in ("run", "pipe", "group", "hold", "bg"):
            tag = "%d" % n
            runs += 1
            files, p = probe(i, tag)
            if k == "hold":
                held.append((i, files, p, tag))
                continue
            if k == "bg":
                bg.append((files, p.run(), snap(m), what))
                if m["out"]: outs[m["out"][0]] = (outs[m["out"][0]] if m["out"][1] else "") + tag + "\n" if m["out"][1] else None
                spin(0.05)
                continue
            j = op[2] % len(envs)
            if k == "run":
                +p
                writes = [(m, tag)]
            elif k == "pipe":
                files2, p2 = probe(j, tag + "b")
                p2 = p2("r") if False else envs[j]._(ctx.probe, "c:" + files2[0], "e:" + files2[1], pieshell.R("r"), "w:1:" + (tag + "b\n").encode().hex())
                q = p | p2
                +q
                check(files2, model[j], what + " into environment %d" % j)
                # the pipeline's output follows the default redirections of the first part's environment
                writes = [(m, tag + "b")]
            else:
                files2, p2 = probe(j, tag + "b")
                if op[3]:
                    out = list(p + p2)
                    if sorted(out) != [tag, tag + "b"]: problems.append("%s: the group's output was %r" % (what, out))
                    writes = []
                else:
                    +p2
                    +p
                    writes = [(model[j], tag + "b"), (m, tag)]
                check(files2, model[j], what + " (other part in environment %d)" % j)
            check(files, m, what)
            for mm, t in writes: written(outs, mm, t)
            shells = [x for x in (m, model[j]) if x["out"]]
        elif k == "which":
            ps = op[2] + ([] if 1 in op[2] or 2 in op[2] else [1])
            env._exports["PATH"] = m["vars"]["PATH"] = ":".join("%s/p%d" % (ctx.dir, x) for x in ps)
            f = ctx.path("who")
            +env.who("a:" + f)
            got = (read(f) or b"\0nothing").split(b"\0")[1].decode()
            want = "%s/p%d/who" % (ctx.dir, [x for x in ps if x in (1, 2)][0])
            if got != want: problems.append("%s: the command who ran %r, on the PATH of the environment it is %r" % (what, got, want))
            runs += 1
        elif k == "release" and held:
            j, files, p, tag = held.pop(op[2] % len(held))
            +p
            check(files, model[j], what + " (held pipeline)")
            written(outs, model[j], tag)
        now = os.getcwd()
        if now != os.path.realpath(proc):
            problems.append("%s: the process is in %r, expected %r" % (what, now, os.path.realpath(proc)))
            proc = now
        for x, (e, mm) in enumerate(zip(envs, model)):
            if os.path.realpath(e._cwd) != os.path.realpath(mm["cwd"]):
                problems.append("%s: environment %d is in %r, expected %r" % (what, x, e._cwd, mm["cwd"]))
                mm["cwd"] = e._cwd
            if dict(e._exports) != dict(mm["vars"]):
                d = set(e._exports.items()) ^ set(mm["vars"].items())
                problems.append("%s: the variables of environment %d differ: %r" % (what, x, sorted(d)[:5]))
        if problems: break
    for x, (e, m) in enumerate(zip(envs, model)):
        # Only an interactive environment takes the process along
        if problems: break
        p = base + "/" + dirs[x % 4 + 1]
        os.chdir("/")
        +e.cd(p)
        if os.getcwd() != (p if m["int"] else "/"):
            problems.append("finally changing the directory of %sinteractive environment %d to %r left the process in %r" % ("" if m["int"] else "non-", x, p, os.getcwd()))
    for files, rp, m, what in bg:
        async def go(): await rp.wait()
        run_(go())
        check(files, m, what)
    for name, want in outs.items():
        got = read(name)
        if want is not None and (got or b"").decode() != want:
            problems.append("the default output file %s contains %r, expected %r" % (name[-6:], got, want))
    return {"problems": problems, "envs": len(envs), "runs": runs}


def written(outs, m, tag):
    if not m["out"] or outs[m["out"][0]] is None: return
    name, append = m["out"]
    old = outs[name]
    t = tag + "\n"
    outs[name] = old + t if append else t + old[len(t):]


def run_(c):
    return asyncio.get_event_loop().run_until_complete(c)
