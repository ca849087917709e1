from wlib import *
import pickle, re, pathlib

SHOW = '''o=; for a in "$@"; do case $a in /dev/fd/*|--*=/dev/fd/*) o="$o{$(cat "${a#*=}")}";; *) o="$o<$a>";; esac; done; printf "%s|%s|%s|%s|\n" "$o" "$(pwd)" "$VA" "$VB"; '''


def upper(stdin):
    for l in stdin: yield l.upper()


async def aupper(stdin):
    async for l in stdin: yield "a" + l


def items(stdin):
    for i in range(3): yield "item %d" % i


def build(pieshell, env, node, first=True):
    k = node[0]
    if k == "cmd":
        args = []
        cmd = env.sh
        spec = node[1]
        script = SHOW + ("cat; " if spec["reads"] and not first else "cat; " if spec["reads"] == "stdin" else "")
        if spec["err"]: script += "echo E%d >&2; " % spec["err"]
        script += "exit %d" % spec["code"] if spec["code"] >= 0 else "kill -9 $$"
        cmd = cmd("-c", pieshell.R(script), "sh")
        for a in spec["args"]:
            if a[0] == "s": cmd = cmd(a[1])
            elif a[0] == "R": cmd = cmd(pieshell.R(a[1]))
            elif a[0] == "kw": cmd = cmd(**{a[1]: a[2]})
            elif a[0] == "kwp": cmd = cmd(**{a[1]: build(pieshell, env, a[2])})
            elif a[0] == "dict": cmd = cmd({a[1]: a[2]})
            elif a[0] == "attr": cmd = getattr(cmd, a[1])
            elif a[0] == "arg": cmd = cmd(build(pieshell, env, a[1]))
            elif a[0] == "list": cmd = cmd(list(a[1]))
        return cmd
    if k == "fn":
        f = {"upper": upper, "aupper": aupper, "items": items}["items" if first else "aupper"]
        return pieshell.pipeline.function.Function(env, f) if first else f
    if k == "list": return list(node[1])
    if k == "pipe":
        p = build(pieshell, env, node[1], first)
        for n in node[2:]:
            q = build(pieshell, env, n, False)
            if not isinstance(p, pieshell.pipeline.base.Pipeline) and not isinstance(q, pieshell.pipeline.base.Pipeline): q = pieshell.pipeline.function.Function(env, q)
            p = p | q
        return p
    if k == "add": return build(pieshell, env, node[1], first) + build(pieshell, env, node[2], first)
    if k == "redir":
        p = build(pieshell, env, node[2], first)
        how, where = node[1]
        if how == "out": return p > where
        if how == "append": return p | pieshell.Redirect("stdout", where, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        if how == "err": return p | pieshell.Redirect("stderr", where)
        if how == "in": return where | p
        if how == "inpath": return p < pathlib.Path(where)
        if how == "null": return p | pieshell.Redirect("stderr", "/dev/null")
        if how == "both": return p | pieshell.Redirects(pieshell.Redirect("stdout", where), pieshell.Redirect("stderr", where + ".err"), defaults=False) if hasattr(pieshell, "Redirects") else (p > where)
    raise ValueError(k)


def text(p):
    return re.sub(r"in \[\d+:", "in [", re.sub(r" at 0x[0-9a-f]+", "", repr(p)))


def snapshot(dirs):
    """The files below the directories, and the removal of those that are not inputs."""
    res = {}
    for d in dirs:
        for root, _, files in os.walk(d):
            for f in files:
                if f.startswith("in"): continue
                p = os.path.join(root, f)
                res[os.path.relpath(p, d)] = read(p).decode("utf-8", "replace")
                os.unlink(p)
    return res


def norm(s): return re.sub(r"as \d+", "as PID", s)


def perform(pieshell, p, mode, dirs):
    """Runs p and returns everything one can see of it."""
    out, e = [], None
    rp = None
    try:
        if mode == "list": out = list(p)
        elif mode == "str": out = [str(p)]
        elif mode == "tmp":
            rp = p.run([pieshell.Redirect("stdout", dirs[0] + "/.captured")])
            run_(rp)
        else: +(p | pieshell.Redirect("stdout", dirs[0] + "/.captured"))
    except Exception as x: e = x
    res = {"out": out, "exc": type(e).__name__ if e is not None else None}
    if e is not None and not isinstance(e, pieshell.pipeline.running.PipelineFailed): res["text"] = str(e)
    rp = e.pipeline if hasattr(e, "pipeline") else rp or p._env.__dict__.get("last_pipeline")
    if rp is not None:
        res["procs"] = [[x.exit_code if hasattr(x, "pid") else None, bool(x.is_failed), x.output_content.get(2)] for x in rp.processes]
    res["files"] = snapshot(dirs)
    res["cwd"] = p._env._cwd
    return res


def run_(awaitable):
    async def go(): await awaitable
    return loop().run_until_complete(go())


def helper(ctx, case, rfd, wfd):
    """A process of its own that restores what it gets, and runs it."""
    with os.fdopen(rfd, "rb") as f: data = f.read()
    try:
        pieshell = ctx.pieshell()
        os.chdir("/")
        if case["env"]["kind"] == "own": os.environ.pop("VA")
        q = pickle.loads(data)
        res = {"text": text(q)}
        res.update(perform(pieshell, q, case["mode"], [ctx.work]))
    except BaseException as e:
        res = {"error": traceback.format_exc()[-1500:]}
    with os.fdopen(wfd, "wb") as f: f.write(json.dumps(res).encode())
    os._exit(0)


def run(ctx, case):
    return remote(ctx, case) if case["fn"] == "remote" else local(ctx, case)


def local(ctx, case):
    for d in ("d1", "d2/sub", "dir with spaces*"): os.makedirs(ctx.work + "/" + d)
    for root in (".", "d1", "d2/sub", "dir with spaces*", "d2"):
        with open(os.path.join(ctx.work, root, "in"), "w") as f: f.write("input of %s\nmore\n" % root)
    os.environ["VA"] = "va"
    other = None
    if case["fresh"]:
        a, b = os.pipe(), os.pipe()
        other = os.fork()
        if other == 0:
            os.close(a[1]); os.close(b[0])
            try: helper(ctx, case, a[0], b[1])
            finally: os._exit(97)
        os.close(a[0]); os.close(b[1])
    pieshell = ctx.pieshell()
    e0 = case["env"]
    env = pieshell.env if e0["kind"] == "default" else pieshell.env(cwd=e0["cwd"], exports=dict(os.environ, VA="va", **e0["exports"]) if e0["kind"] == "own" else None, interactive=e0["interactive"])
    if e0["scope"]: pieshell.environ.EnvScope(env=env)["x"] = 1
    held = []
    gate = ctx.dir + "/gate"
    p = build(pieshell, env, case["p"], True) if case["built"] == "first" else None
    for op in case["history"]:
        k = op[0]
        if k == "run": list(env.echo("x"))
        elif k == "fail":
            try: +env.sh("-c", "echo oops >&2; exit 3")
            except Exception: pass
        elif k == "start": held.append(env._(ctx.probe, "u:" + gate).run([pieshell.Redirect("stdout", "/dev/null")]))
        elif k == "reading":
            rp = env._(ctx.probe, "w:1:610a", "u:" + gate).run([pieshell.Redirect("stdout", pieshell.PIPE)])
            it = rp.__aiter__()
            loop().run_until_complete(it.__anext__())
            held += [rp, it]
        elif k == "cd": +env._("cd", ctx.work + "/" + op[1])
        elif k == "export":
            if e0["kind"] == "own" or not case["fresh"]: env._exports[op[1]] = op[2]
        elif k == "dir": dir(env)
        elif k == "iter":
            +(iter(["a", "b"]) | env.cat | pieshell.Redirect("stdout", "/dev/null"))
        elif k == "default":
            env | pieshell.Redirect("stderr", "/dev/null")
        elif k == "self":
            if p is not None:
                try: +(p | pieshell.Redirect("stdout", "/dev/null"))
                except Exception: pass
        elif k == "text":
            if p is not None: repr(p)
    if p is None: p = build(pieshell, env, case["p"], True)
    snapshot([ctx.work])
    before = text(p)
    data = pickle.dumps(p, *([case["protocol"]] if case["protocol"] is not None else []))
    res = {"before": before, "after": text(p)}
    q = pickle.loads(data)
    if case["twice"]: q = pickle.loads(pickle.dumps(q))
    res["texts"] = [text(q)]
    res["same_env"] = q._env is p._env
    runs = []
    if case["fresh"]:
        # first, for it starts where the pickle was made
        with os.fdopen(a[1], "wb") as f: f.write(data)
        with os.fdopen(b[0], "rb") as f: got = json.loads(f.read() or b'{"error": "no answer"}')
        os.waitpid(other, 0)
        if "error" in got: return dict(res, error="in the other process: " + got["error"])
        res["texts"].append(got.pop("text"))
        runs.append(["restored in another process", got])
    q2 = pickle.loads(data) if case["again"] else None
    for name, x in (["restored", q], ["original", p]) if case["order"] else (["original", p], ["restored", q]):
        runs.append([name, perform(pieshell, x, case["mode"], [ctx.work])])
    if q2 is not None: runs.append(["restored a second time", perform(pieshell, q2, case["mode"], [ctx.work])])
    res["runs"] = runs
    open(gate, "w").close()
    for x in held:
        if hasattr(x, "is_running") and hasattr(x, "processes"): wait_until(lambda: not x.is_running, 10)
    return res


def remote(ctx, case):
    """The same pipeline locally and through remote()"""
    os.makedirs(ctx.work + "/d1")
    for root in (".", "d1"):
        with open(os.path.join(ctx.work, root, "in"), "w") as f: f.write("input of %s\nmore\n" % root)
    with open(ctx.bin + "/ssh", "w") as f:
        # As the real one, gives the command to a shell on the other side, in the home directory
        f.write('#!/bin/sh\nfor a in "$@"; do printf "%%s\\0" "$a"; done > %s/ssh-args\nfor a in "$@"; do last="$a"; done\ncd /\nunset VA VB\nexec sh -c "$last"\n' % ctx.dir)
    with open(ctx.bin + "/pieshell", "w") as f:
        f.write("#!/bin/sh\nexport PYTHONPATH=/repo:%s\nexec %s -W ignore -c 'from pieshell.shell import main; main()' \"$@\"\n" % (os.path.dirname(os.path.abspath(__file__)), sys.executable))
    for n in ("ssh", "pieshell"): os.chmod(ctx.bin + "/" + n, 0o755)
    pieshell = ctx.pieshell()
    e0 = case["env"]
    env = pieshell.env(cwd=e0["cwd"], exports=dict(os.environ, VA="va", **e0["exports"]))
    caller = pieshell.env
    res = {"runs": []}
    for how in ("remote", "local"):
        p = build(pieshell, env, case["p"], True)
        if how == "remote":
            opts = [{o[1]: o[2]} if o[0] == "dict" else pieshell.R(o[1]) if o[0] == "R" else o[1] for o in case["opts"]]
            p = caller.remote(*opts + [p])
        if case["input"] is not None: p = list(case["input"]) | p
        if case["cat"]: p = p | caller.cat
        out, e = [], None
        try:
            if case["mode"] == "list":
                for l in p: out.append(l)
            else: +(p > (ctx.work + "/.captured"))
        except pieshell.pipeline.running.PipelineFailed as x: e = x
        res["runs"].append({"out": out, "failed": e is not None, "text": str(e) if how == "remote" else None, "files": snapshot([ctx.work])})
    res["args"] = (read(ctx.dir + "/ssh-args") or b"").decode().split("\0")[:-1]
    return res
