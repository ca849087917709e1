from wlib import *
import gc


class Boom(Exception): pass


def snapshot(pieshell):
    sel = getattr(loop(), "_selector", None)
    watched = sorted("%s %d" % (k.fd, k.events) for k in sel.get_map().values()) if sel is not None else []
    m = pieshell.signalio.manager.get_signal_manager() if hasattr(pieshell.signalio, "manager") else None
    return {"fds": sorted("%d %s" % (k, re_target(v[0])) for k, v in fds().items()), "watched": watched,
            "handlers": len(getattr(m, "signal_handlers", ())), "tasks": len([t for t in asyncio.all_tasks(loop()) if not t.done()]),
            "children": len(child_pids())}


def re_target(t):
    return t


class Build(object):
    def __init__(self, ctx, pieshell, env):
        self.ctx, self.ps, self.env, self.R = ctx, pieshell, env, pieshell.R
        self.Function = pieshell.pipeline.function.Function

    def cmd(self, s, first):
        a = ["xx"]
        arg = s.get("arg")
        extra = []
        if arg:
            for i, x in enumerate(arg["list"]):
                a.append(self.argument(x))
                if x["use"] == "read" and x["kind"] != "fn": extra.append("F:%d:r:/dev/null" % (i + 2))
                elif x["use"] == "read": extra.append("F:%d:w:%s" % (i + 2, self.ctx.store(b"a\nb\n" * x["n"])))
        if s["err"]: extra.append("w:2:%s" % (b"e" * s["err"]).hex())
        how = s["how"]
        if how == "copy": extra.append(self.R("r" if first else "i"))
        elif how == "part": extra.append("n:%d" % s["n"])
        elif how == "exit": pass
        if s["n"] and how != "part": extra.append("W:1:%s:4096" % self.ctx.store(b"0123456789abcde\n" * s["n"]))
        if s["ms"]: extra.append("s:%d" % s["ms"])
        e = s["end"]
        if e == "missing": return self.env._("no-such-program-at-all", *[x for x in a if not isinstance(x, str)])
        if e == "exit": extra.append("x:3")
        elif e == "kill": extra.append("k:9")
        return self.env._(self.ctx.probe, *(a + extra))

    def argument(self, x):
        if x["kind"] == "iter":
            return iter([("line %d" % i) for i in range(x["n"])])
        if x["kind"] == "aiter":
            async def agen():
                for i in range(x["n"]): yield "line %d" % i
                if x["end"] == "raise": raise Boom()
            return agen()
        if x["kind"] == "fn":
            async def fn(stdin):
                if x["use"] != "ignore":
                    async for l in stdin: pass
                if x["end"] == "raise": raise Boom()
                if False: yield
            return fn
        q = self.env._(self.ctx.probe, "xx", "W:1:%s:4096" % self.ctx.store(b"0123456789abcde\n" * x["n"]), "x:%d" % (1 if x["end"] == "raise" else 0))
        if x.get("own"): q = q | self.ps.Redirect(3, self.ps.redir.STRING, os.O_WRONLY)
        return (q | self.env._(self.ctx.probe, "i")) if x["kind"] == "pipe" else q

    def fn(self, s, first):
        kind = s["fkind"]
        def items():
            for i in range(s["n"]): yield "f%d" % i
            if s["end"] == "raise": raise Boom()
        async def aitems():
            for i in range(s["n"]):
                if s["ms"] and i % 50 == 0: await asyncio.sleep(s["ms"] / 1000.0)
                yield "f%d" % i
            if s["end"] == "raise": raise Boom()
        async def through(stdin):
            if s["how"] == "copy":
                async for l in stdin: yield l
            elif s["how"] == "part":
                k = 0
                async for l in stdin:
                    k += 1
                    if k > 3: break
            async for x in aitems(): yield x
        async def coro(stdin):
            if s["end"] == "raise": raise Boom()
            return b"coro"
        def plain(stdin):
            if s["end"] == "raise": raise Boom()
            return b"plain"
        if first and kind in ("iter", "aiter"): return {"iter": items, "aiter": aitems}[kind]()
        f = {"iter": through, "aiter": through, "fn": through, "coro": coro, "plain": plain, "list": lambda stdin: items()}[kind]
        return self.Function(self.env, f) if first else f

    def linear(self, ss):
        p = None
        for i, s in enumerate(ss):
            x = self.cmd(s, i == 0) if s["kind"] == "cmd" else self.fn(s, i == 0)
            if i == 0 and s["kind"] == "fn" and s["fkind"] in ("iter", "aiter"): x = self.Function(self.env, x)
            p = x if p is None else p | x
        return p


def run(ctx, case):
    pieshell = ctx.pieshell()
    env = pieshell.env
    RD, PIPE, TMP, STRING = pieshell.Redirect, pieshell.PIPE, pieshell.TMP, pieshell.redir.STRING
    os.mkdir(ctx.work + "/gone")
    b = Build(ctx, pieshell, env)
    stdin = os.open(ctx.store(b"stdin\n"), os.O_RDONLY)
    os.dup2(stdin, 0)
    os.close(stdin)
    # Once, for whatever is created when first used
    list(env._(ctx.probe, "w:1:61"))
    spin(0.01)
    gc.collect()
    before = snapshot(pieshell)
    tmp = sorted(os.listdir(ctx.tmp))
    asked = [0]
    keep, problems, outcomes = [], [], []

    def one(item):
        p = b.linear(item["a"])
        if item["b"]: p = p + b.linear(item["b"])
        for r in item["redir"]:
            if r == "in": p = ctx.store(b"input\n" * 50) | p
            elif r == "err": p = p | RD("stderr", ctx.path("err"))
            elif r == "errnull": p = p | RD("stderr", "/dev/null")
            elif r == "errstr": p = p | RD("stderr", STRING)
            elif r == "badin": p = ctx.dir + "/no/such" | p
            elif r == "baderr": p = p | RD("stderr", ctx.dir + "/no/such")
            elif r == "fd5": p = p | RD(5, ctx.path("five"), os.O_WRONLY | os.O_CREAT)
        mode = item["mode"]
        if mode == "list": list(p)
        elif mode == "bytes": bytes(p)
        elif mode == "aiter":
            async def go():
                async for x in p: pass
            run_(go())
        elif mode == "interactive": (p > ctx.path("o")).run_interactive()
        elif mode == "null": (p | None).run_interactive()
        elif mode == "string":
            rp = (p | RD("stdout", STRING)).run()
            run_(aw(rp))
        elif mode == "tmp":
            rp = (p | RD("stdout", TMP)).run()
            keep.append(rp)
            asked[0] += 2 if item["b"] else 1     # each part of a group has its own
            run_(aw(rp))
        elif mode == "borrowed":
            f = os.open(ctx.path("o"), os.O_WRONLY | os.O_CREAT)
            try: (p | RD("stdout", f, borrowed=True)).run_interactive()
            finally: os.close(f)
        elif mode == "ownfd":
            f = os.open(ctx.path("o"), os.O_WRONLY | os.O_CREAT)
            (p | RD("stdout", f)).run_interactive()
        elif mode == "subshell": (env.subshell(p) > ctx.path("o")).run_interactive()
        elif mode == "gone":
            e = env("gone")
            os.rmdir(ctx.work + "/gone")
            try: (e._(ctx.probe, "w:1:61") | e._(ctx.probe, "r")).run_interactive()
            finally: os.mkdir(ctx.work + "/gone")
        elif mode == "cancelled":
            async def go():
                rp = (p > ctx.path("o")).run()
                t = loop().create_task(aw(rp))
                await asyncio.sleep(0.001)
                t.cancel()
                try: await t
                except asyncio.CancelledError: pass
                await rp
            run_(go())
        elif mode == "two":
            async def go():
                await asyncio.gather(aw((p > ctx.path("o")).run()), aw(env._(ctx.probe, "s:3").run()), return_exceptions=True)
            run_(go())
        elif mode == "late":
            rp = (p > ctx.path("o")).run()
            spin(0.03)
            run_(aw(rp))

    async def aw(rp): await rp
    PF = pieshell.pipeline.running.PipelineFailed
    for item in case["items"]:
        try:
            one(item)
            outcomes.append("ok")
        except PF: outcomes.append("failed")
        except OSError as e: outcomes.append("oserror")
    # The shell reference to the last pipeline does not own anything
    tmps = []
    for rp in keep:
        for x in rp.processes: tmps += [getattr(f, "path", f) for f in x.output_files.values()]
    gc.collect()
    now = [None]

    def settled():
        gc.collect(0)
        now[0] = snapshot(pieshell)
        return now[0] == before
    if not wait_until(settled, 3, 0.02):
        for k in before:
            if before[k] != now[0][k]:
                if isinstance(before[k], list): problems.append("%s: left over %r, lost %r" % (k, [x for x in now[0][k] if x not in before[k]], [x for x in before[k] if x not in now[0][k]]))
                else: problems.append("%s: %r before, %r afterwards" % (k, before[k], now[0][k]))
    tmps = sorted(set(tmps))     # a function that is an argument has the files of its command
    files = sorted(ctx.tmp + "/" + f for f in os.listdir(ctx.tmp) if f not in tmp)
    if files != sorted(tmps): problems.append("temporary files %r, expected %r" % (files, sorted(tmps)))
    if len(tmps) != asked[0]: problems.append("%d temporary files for %d requests" % (len(tmps), asked[0]))
    for rp in keep: rp.remove_output_files()
    files = sorted(f for f in os.listdir(ctx.tmp) if f not in tmp)
    if files: problems.append("temporary files %r after they were removed" % files)
    if not wait_until(lambda: not len(env.running_pipelines), 5): problems.append("listed as running: %r" % env.running_pipelines)
    return {"problems": problems, "outcomes": outcomes}


def run_(c): return loop().run_until_complete(c)
