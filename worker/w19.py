from wlib import *
import atexit


class Boom(Exception): pass


class World(object): pass


def lines(tag, n, size): return "".join("%s%d%s\n" % (tag, i, "x" * (size if i % 2 else 0)) for i in range(n))


def stage(w, s, first, tag):
    """One stage: commands and functions that pass on what they read, after what they make themselves"""
    env = w.env
    if s["kind"] == "cmd":
        a = ["k" + tag]
        if not first: a.append("i")
        a.append(w.R("W:1:%s:%d" % (w.ctx.store(lines(tag, s["n"], s["size"]).encode()), 4096)))
        if s["err"]: a.append("w:2:" + b"error".hex())
        if s["end"][0] == "exit": a.append("x:%d" % s["end"][1])
        elif s["end"][0] == "kill": a.append("k:%d" % s["end"][1])
        c = env._(w.ctx.probe, *a)
        return c
    if s["kind"] == "missing": return env._("no-such-program-" + tag)
    if s["kind"] == "arg":
        x = env._(w.ctx.probe, w.R("W:1:%s:%d" % (w.ctx.store(lines(tag, s["n"], s["size"]).encode()), 4096)))
        return env.cat(x) if first else env.cat(x, "-")
    if s["kind"] == "sub":
        return env.subshell(pipeline(w, s["stages"], first, tag))
    own = lines(tag, s["n"], s["size"]).splitlines()
    def fail():
        if s["end"][0] != "exit" or s["end"][1]: raise Boom(tag)
    def effects():
        # must not be seen by whoever started the subshell
        if tag[0] in "mg":
            env._exports["SUBVAR"] = tag
            os.environ["SUBVAR2"] = tag
            env._cd("/")
            os.chdir("/")
    if s["n"] % 2:
        async def fn(stdin):
            effects()
            w.calls.append(tag)
            if not first:
                async for l in stdin: yield l + "'"
            for l in own: yield l
            fail()
    elif first:
        def fn(stdin):
            effects()
            w.calls.append(tag)
            for l in own: yield l
            fail()
    else:
        async def fn(stdin):
            effects()
            w.calls.append(tag)
            async for l in stdin: yield "'" + l
            for l in own: yield l
            fail()
    return w.Function(env, fn) if first else fn


def pipeline(w, stages, first, tag):
    p = None
    for i, s in enumerate(stages):
        x = stage(w, s, first and i == 0, tag + "abcdefgh"[i])
        if p is None and not isinstance(x, w.Pipeline): x = w.Function(w.env, x)
        p = x if p is None else p | x
    return p


def build(w, case, sub):
    p = pipeline(w, case["inner"], not case["before"], "m")
    if case["group"]: p = p + pipeline(w, case["group"], not case["before"], "g")
    if case["file"]: p = p > (w.ctx.work + "/file")
    if sub:
        for i in range(case["depth"]): p = w.env.subshell(p)
    if case["before"]:
        b = pipeline(w, case["before"], True, "b")
        p = b | p
    if case["after"]:
        p = p | pipeline(w, case["after"], False, "z")
    return p


def perform(w, case, sub, finals):
    out, e = [], None
    p = build(w, case, sub)
    w.calls = calls = []
    mode = case["mode"]
    me = os.getpid()
    try:
        try:
            if mode == "list": out = [l for l in p]
            elif mode == "str": out = str(p).splitlines()
            elif mode == "plus": +(p > (w.ctx.work + "/out"))
            elif mode == "task":
                async def go():
                    async for l in p: out.append(l)
                run_(go())
            elif mode == "fn":
                # a function of another pipeline uses it
                async def fn(stdin):
                    async for l in p: yield l
                out = [l for l in w.Function(w.env, fn)]
            elif mode == "two":
                async def one(k): await k
                q = build(w, case, sub)
                r = w.env._(w.ctx.probe, "s:5")
                run_(asyncio.gather(one(p > (w.ctx.work + "/out")), one(r)))
        except w.PF as x: e = x
    finally:
        with open(finals, "a") as f: f.write("finally\n")
    if mode in ("plus", "two"): out = (read(w.ctx.work + "/out") or b"").decode().splitlines()
    if e is not None and mode == "fn": pass
    f = read(w.ctx.work + "/file")
    for n in ("out", "file"):
        if os.path.exists(w.ctx.work + "/" + n): os.unlink(w.ctx.work + "/" + n)
    return {"out": out, "failed": e is not None, "file": f.decode().splitlines() if f is not None else None, "text": str(e)[-600:] if e is not None else None, "calls": sorted(calls)}


def run_(x):
    async def go(): return await x
    return loop().run_until_complete(go())


def state(w):
    return {"cwd": os.getcwd(), "env": w.env._cwd, "exports": dict(w.env._exports), "environ": dict(os.environ), "running": len(w.env.running_pipelines), "signals": [repr(signal.getsignal(s)) for s in (2, 13, 15, 17, 20)],
            "mask": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))), "loop": id(loop()), "fds": sorted(fds().items()), "children": child_pids(), "tmp": sorted(os.listdir(w.ctx.tmp))}


def run(ctx, case):
    pieshell = ctx.pieshell()
    w = World()
    w.ctx, w.R, w.Function, w.PF, w.Pipeline = ctx, pieshell.R, pieshell.pipeline.function.Function, pieshell.pipeline.running.PipelineFailed, pieshell.pipeline.base.Pipeline
    w.env = pieshell.env(interactive=case["interactive"], exports=dict(os.environ)) if case["own"] else pieshell.env
    list(w.env.echo("warm up"))
    finals, exits, buffered = ctx.path("finals"), ctx.path("exits"), ctx.path("buffered")
    def handler():
        with open(exits, "a") as f: f.write("exit of %d\n" % os.getpid())
    atexit.register(handler)
    b = open(buffered, "w")
    b.write("buffered")
    sys.stdout.write("partial line")
    def hook(*a):
        with open(exits, "a") as f: f.write("hook\n")
    sys.excepthook = hook
    def old(signo, frame): pass
    signal.signal(signal.SIGUSR1, old)
    s0 = state(w)
    sub = perform(w, case, True, finals)
    ended = wait_until(lambda: not w.env.running_pipelines and not child_pids(), 5)
    spin(0.002)
    s1 = state(w)
    res = {"sub": sub, "state": [[k, str(s0[k])[:300], str(s1[k])[:300]] for k in s0 if s0[k] != s1[k]], "ended": ended}
    b.close()
    sys.stdout.flush()
    res["buffered"] = read(buffered).decode()
    res["stdout"] = read(ctx.dir + "/out").decode()
    res["exits"] = (read(exits) or b"").decode()
    res["finals"] = read(finals).decode()
    res["direct"] = perform(w, case, False, ctx.path("f2"))
    res["later"] = list(w.env.echo("still works"))
    atexit.unregister(handler)
    return res
