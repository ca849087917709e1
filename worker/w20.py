from wlib import *
import subprocess

SKIP = ("_", "SHLVL", "PWD", "OLDPWD")


def split_env(data):
    return dict(x.split("=", 1) for x in data.decode("utf-8", "surrogateescape").split("\0")[:-1])


def run_(x):
    async def go(): return await x
    return loop().run_until_complete(go())


def run(ctx, case):
    pieshell = ctx.pieshell()
    os.environ.update({"GIVEN": "given", "CHANGED": "before", "UNSET": "before"})
    env = {"default": lambda: pieshell.env, "own": lambda: pieshell.env(exports=dict(os.environ)), "derived": lambda: pieshell.env(), "interactive": lambda: pieshell.env(interactive=True)}[case["env"]]()
    scope = pieshell.environ.EnvScope(env=env) if case["scope"] else None
    problems = []
    n = 0
    for name, ls in case.get("profile", []):
        with open(ctx.home + "/" + name, "wb") as f: f.write("".join(l + "\n" for l in ls).encode("utf-8", "surrogateescape"))
    model = dict(env._exports)
    for call in case["calls"]:
        paths, more = [], []
        for s in call["scripts"]:
            n += 1
            d = ctx.work + "/" + str(n)
            os.mkdir(d)
            p = d + "/" + s["name"]
            with open(p, "wb") as f: f.write("".join(l + "\n" for l in s["lines"]).encode("utf-8", "surrogateescape"))
            paths.append(p)
        pattern = []
        if call.get("glob"):    # scripts that don't depend on each other, as their order is not specified
            n += 1
            d = ctx.work + "/" + str(n)
            os.mkdir(d)
            for i in range(call["glob"]):
                with open("%s/g%d.sh" % (d, i), "w") as f: f.write("export XG%d='value %d of %d'\n" % (i, i, n))
                more.append("%s/g%d.sh" % (d, i))
            pattern = [d + "/g*.sh"]    # expands to relative paths, so it comes before any cd
        # What bash itself does
        e = ctx.path("env")
        quoted = ["'" + p.replace("'", "'\\''") + "'" for p in more + paths]
        bash = subprocess.run(["bash", "-l", "-i", "-c", "".join("source " + q + "; " for q in quoted) + "%s e:%s; exit 0" % (ctx.probe, e)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env._exports), cwd=env._cwd)
        want = read(e)
        if want is None: raise Exception("bash failed: %r" % bash.stderr)
        want = {k: v for k, v in split_env(want).items() if k not in SKIP and not k.startswith("BASH_FUNC_")}
        model.update(want)
        args = pattern + [p if call["raw"] == "plain" and not any(c in p for c in "%*?[~") else p.replace("%", "%%") if call["raw"] == "percent" and not any(c in p for c in "*?[~") else pieshell.R(p) for p in paths]
        b = env.bashsource(*args)
        out = None
        if call["how"] == "plus": +b
        elif call["how"] == "await": run_(b)
        elif call["how"] == "run":
            rp = b.run()
            run_(rp)
        else: out = list(b)
        got = dict(env._exports)
        for k in sorted(set(got) | set(model)):
            if k in SKIP: continue
            if got.get(k) != model.get(k): problems.append("after call %d export %s is %r, expected %r" % (case["calls"].index(call), k, got.get(k), model.get(k)))
        if scope is not None:
            for k, v in model.items():
                if k not in SKIP and k.startswith(("X", "G")) and scope[k] != v: problems.append("in the scope %s is %r, expected %r" % (k, scope[k], v))
        e = ctx.path("env")
        +env._(ctx.probe, "e:" + e)
        child = split_env(read(e))
        for k in sorted(set(child) | set(model)):
            if k not in SKIP and child.get(k) != model.get(k): problems.append("a child process has %s=%r, expected %r" % (k, child.get(k), model.get(k)))
        if problems: break
    if env.running_pipelines: problems.append("listed as running: %r" % env.running_pipelines)
    return {"problems": problems[:4], "n": len(model)}
