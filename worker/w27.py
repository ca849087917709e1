from wlib import *

FOREGROUND = ("pos", "inter", "await", "wait", "wait2", "display", "typed", "fgcall")


class Run(object):
    """One run of a pipeline of commands and functions, of which the first command may be held."""
    def __init__(self, ctx, pieshell, env, i, spec):
        self.ctx, self.i, self.spec, self.env = ctx, i, spec, env
        self.gate = "%s/gate%d" % (ctx.dir, i)
        R = pieshell.R
        self.tags, self.codes, self.names = [], [], []
        p = None
        for k, (kind, code) in enumerate(spec["stages"]):
            tag = "r%d-%d" % (i, k)
            if kind == "fn" and p is not None:
                async def f(stdin, tag=tag, code=code):
                    async for l in stdin: yield l
                    yield tag
                    if code: raise ValueError(tag)
                p = p | f
                if code: self.codes.append("function")
            else:
                acts = ["id-" + tag, R("t:%s/ran-%s" % (ctx.dir, tag)), "i"] + ([R("u:" + self.gate)] if p is None else []) + [
                    R("w:1:" + (tag + "\n").encode().hex())] + ([R("x:%d" % code)] if code else [])
                c = env._(ctx.probe, *acts)
                if p is None and spec["input"]:
                    p = ["in%d" % i] | c
                    self.tags.append("in%d" % i)
                else: p = c if p is None else p | c
                self.names.append(tag)
                if code: self.codes.append(str(code))
            self.tags.append(tag)
        self.p = p
        self.nprocs = len(spec["stages"]) + (1 if spec["input"] else 0)
        self.out = "out"      # where its output is to be
        self.got = []         # what a function has read of it
        self.rp = self.task = None
        self.released = False

    def release(self):
        self.released = True
        open(self.gate, "w").close()

    def ran(self):
        return [len((read("%s/ran-%s" % (self.ctx.dir, n)) or b"").splitlines()) for n in self.names]


def failures(rp):
    return sorted((str(x.exit_code) if hasattr(x, "pid") else "function") for x in rp.failed_processes)


def run(ctx, case):
    pieshell = ctx.pieshell()
    RD, PIPE = pieshell.Redirect, pieshell.PIPE
    scope = pieshell.envScope
    problems, stats = [], {"overlap": 0, "fg while bg": 0}
    envs = [pieshell.env(interactive=False), pieshell.env(interactive=True)]
    scope["env"] = envs[1]
    last = {0: None, 1: None}
    runs = []
    L = loop()

    def bad(r, what, *a): problems.append("run %d (%s of %r): " % (r.i, r.spec["way"], r.spec["stages"]) + what % a)

    def settle(r):
        """r, in the background, has been released: it ends"""
        async def go():
            try:
                if r.task is not None: await r.task
                else: await r.rp.wait()
                return []
            except pieshell.PipelineFailed as e:
                if r.rp is not None and e.pipeline is not r.rp: bad(r, "the failure is of %r", e.pipeline)
                r.rp = e.pipeline
                return failures(e.pipeline)
        ended(r, L.run_until_complete(go()))

    def ended(r, codes):
        if codes != sorted(r.codes): bad(r, "ended as %r, expected %r", codes, sorted(r.codes))
        if r.rp is not None:
            if r.rp.is_running: bad(r, "still running afterwards: %r", r.rp.running_processes)
            if r.rp.is_failed != bool(r.codes): bad(r, "is_failed is %r", r.rp.is_failed)
            if len(r.rp.processes) != r.nprocs: bad(r, "has %d processes, expected %d", len(r.rp.processes), r.nprocs)
        if r.ran() != [1] * len(r.names): bad(r, "its commands ran %r times", r.ran())
        # by then all of the output is where it is to be
        if r.out == "out":
            lines = [l for l in read(ctx.dir + "/out").decode("utf-8", "replace").splitlines() if l in r.tags]
        elif r.out == "got": lines = r.got
        elif r.out is None: lines = r.tags
        else: lines = (read(r.out) or b"").decode().splitlines()
        if lines != r.tags: bad(r, "its output is %r, expected %r", lines, r.tags)

    for d in ("sub0", "sub1"): os.makedirs(ctx.work + "/" + d, exist_ok=True)

    def changedir(how, env, name, held):
        """A builtin that starts nothing ends at once, whatever else runs"""
        stuck = []
        def free():
            stuck.append(True)
            for x in held: x.release()
        timer = L.call_later(5, free)
        path = ctx.work + "/" + name
        if how in ("display", "typed"): env = envs[1]
        c = env.cd(path)
        before = env.__dict__.get("last_pipeline"), list(env.running_pipelines)
        rp = None
        try:
            if how == "pos": rp = +c
            elif how == "inter": rp = c.run_interactive()
            elif how == "await":
                async def go(): return await c
                rp = L.run_until_complete(go())
            elif how == "run": rp = c.run()
            elif how == "inv": rp = ~c
            elif how == "display": sys.displayhook(c)
            else:
                scope["c"] = c
                scope.execute_expr("c")
        except pieshell.PipelineFailed as x:
            problems.append("cd (%s) gave the failure of %r" % (how, x.pipeline))
        timer.cancel()
        sys.stdout.flush()
        what = "cd (%s) while %d others run" % (how, len(held))
        if stuck: problems.append("%s: waited for them" % what)
        elif env._cwd != path: problems.append("%s: in %r, expected %r" % (what, env._cwd, path))
        else:
            if any(not x.rp.is_running for x in held): problems.append("%s: one of them ended" % what)
            if env.__dict__.get("last_pipeline") is not before[0]: problems.append("%s: the last pipeline is %r" % (what, env.last_pipeline))
            now = list(env.running_pipelines)
            # those released may have ended by now
            if any(not any(y is x for x in before[1]) for y in now) or any(x.env is env and not any(y is x.rp for y in now) for x in held): problems.append("%s: running now: %r" % (what, now))
        if rp is not None and (rp.is_running or rp.is_failed or rp.processes): problems.append("%s gave %r, with %r" % (what, rp, rp.processes))

    for i, spec in enumerate(case["runs"]):
        e = spec["env"]
        if spec["way"] in ("display", "typed"): e = 1
        env = envs[e]
        r = Run(ctx, pieshell, env, i, spec)
        runs.append(r)
        way, p = spec["way"], r.p
        held = [x for x in runs if x is not r and not x.released]
        if held: stats["overlap"] += 1
        if spec.get("cd"): changedir(spec["cd"], envs[e], "sub%d" % (i % 2), held)
        text = repr(p) if e == 0 else None

        def collect(r):
            async def f(stdin):
                async for l in stdin:
                    r.got.append(l)
            r.out = "got"
            r.nprocs += 1
            return f
        if way in FOREGROUND:
            if held: stats["fg while bg"] += 1
            # released while it is waited for
            hs = [L.call_later(spec["hold"] / 1000.0, r.release)]
            with_ = None
            try:
                if spec["dest"] == "file":
                    r.out = ctx.path("dest")
                    p = p > r.out
                elif spec["dest"] == "null":
                    r.out = None
                    p = p | None
                if way == "pos": r.rp = +p
                elif way == "inter": r.rp = p.run_interactive()
                elif way == "await":
                    async def go(): return await p
                    r.rp = L.run_until_complete(go())
                elif way == "fgcall":
                    async def go(): return await p.async_run_interactive()
                    r.rp = L.run_until_complete(go())
                elif way in ("wait", "wait2"):
                    async def go():
                        r.rp = p.run()
                        await (r.rp if way == "wait" else r.rp.wait())
                    L.run_until_complete(go())
                elif way == "display": sys.displayhook(p)
                elif way == "typed":
                    scope["p%d" % i] = p
                    scope.execute_expr("p%d" % i)
                codes = []
            except pieshell.PipelineFailed as x:
                if r.rp is not None and x.pipeline is not r.rp: bad(r, "the failure is of %r", x.pipeline)
                codes, r.rp = failures(x.pipeline), x.pipeline
            sys.stdout.flush()
            if not r.released: bad(r, "returned before it had ended")
            if way in ("display", "typed"):
                r.rp = env.last_pipeline
                codes = failures(r.rp) if way == "typed" else codes
            if type(r.rp).__name__ != "RunningPipeline": bad(r, "gave %r", r.rp)
            elif env.last_pipeline is not r.rp: bad(r, "the last pipeline is %r", env.last_pipeline)
            last[e] = r.rp
            ended(r, codes)
        else:
            if way == "run": r.rp = p.run()
            elif way == "inv": r.rp = ~p
            elif way == "true": r.rp = p & True
            elif way == "null":
                r.out = None
                r.rp = p & None
            elif way == "file":
                r.out = ctx.path("dest")
                r.rp = p & (r.out if spec["dest"] == "" else os.fsencode(r.out))
            elif way == "red":
                r.out = ctx.path("dest")
                r.rp = p & RD("stdout", r.out, flag=os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            elif way == "runred":
                r.out = ctx.path("dest")
                r.rp = p.run([RD("stdout", r.out)])
            elif way == "fn": r.rp = p & collect(r)
            elif way == "fnobj": r.rp = p & pieshell.pipeline.function.Function(env, collect(r))
            elif way == "cmd":
                r.out = ctx.path("dest")
                r.nprocs += 1
                r.rp = p & env._(ctx.probe, "R:" + r.out)
            elif way == "pipefile":
                r.out = ctx.path("dest")
                r.nprocs += 1
                r.rp = p & (env.cat > r.out)
            elif way == "task":
                r.task = L.create_task(p.async_run_interactive())
                spin(0)
            elif way == "read":
                # in the background, and read there
                r.rp = p.run([RD("stdout", PIPE)])
                r.out = "got"
                async def reader(r=r):
                    async for l in r.rp: r.got.append(l)
                r.task = L.create_task(reader())
            if r.rp is None and r.task is not None: r.rp = env.last_pipeline
            if type(r.rp).__name__ != "RunningPipeline": bad(r, "gave %r", r.rp)
            elif not r.rp.is_running: bad(r, "not running once started: %r", r.rp)
            elif env.last_pipeline is not r.rp: bad(r, "the last pipeline is %r", env.last_pipeline)
            elif not any(x is r.rp for x in env.running_pipelines): bad(r, "not listed as running: %r", list(env.running_pipelines))
            elif r.rp.is_failed: bad(r, "reported failed while it runs")
            last[e] = r.rp
            if spec["release"]: r.release()
        if problems: break
        spin(spec["spin"] / 1000.0)
        for k in spec["settle"]:
            # some earlier one is let go on, and ends
            r2 = runs[k % len(runs)]
            if r2.spec["way"] not in FOREGROUND and not getattr(r2, "done", False):
                r2.done = True
                r2.release()
                settle(r2)
        for e2 in (0, 1):
            held = [x.rp for x in runs if x.env is envs[e2] and not x.released]
            listed = list(envs[e2].running_pipelines)
            for x in runs:
                if x.env is not envs[e2]: continue
                n = sum(y is x.rp for y in listed)
                if n != 1 and not x.released: bad(x, "running, but listed %d times", n)
                if n and (getattr(x, "done", False) or x.spec["way"] in FOREGROUND): bad(x, "ended, but listed")
            for y in listed:
                if not any(y is x.rp for x in runs): problems.append("listed as running: %r" % (y,))
            if last[e2] is not None and envs[e2].last_pipeline is not last[e2]: problems.append("after run %d the last pipeline of environment %d is %r" % (r.i, e2, envs[e2].last_pipeline))
        for x in runs:
            if not x.released and not x.rp.is_running: bad(x, "does not run any more after run %d", r.i)
        if text is not None and repr(r.p) != text: bad(r, "its text became %r, was %r", repr(r.p), text)
        if problems: break
    if not problems:
        bg = [r for r in runs if r.spec["way"] not in FOREGROUND and not getattr(r, "done", False)]
        for r in (bg[::-1] if case["rev"] else bg):
            r.release()
            if not case["together"]: settle(r)
        if case["together"]:
            for r in bg: settle(r)
        lines = sorted(read(ctx.dir + "/out").decode("utf-8", "replace").splitlines())
        want = sorted(t for r in runs if r.out == "out" for t in r.tags)
        if [l for l in lines if l and not l.startswith("No signalfd") and "signalsupport" not in l] != want: problems.append("the shell's output is %r, expected %r" % (lines, want))
        for r in runs:
            if r.ran() != [1] * len(r.names): bad(r, "its commands ran %r times in the end", r.ran())
        for e2 in (0, 1):
            if list(envs[e2].running_pipelines): problems.append("still listed: %r" % (envs[e2].running_pipelines,))
    for r in runs: r.release()
    return dict(stats, problems=problems[:4])
