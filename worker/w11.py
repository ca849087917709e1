from wlib import *


class Custom(Exception): pass


def raising(kind, tag):
    if kind == "ValueError": raise ValueError(tag)
    if kind == "KeyError": raise KeyError("é" + tag)
    if kind == "OSError": raise OSError(5, tag)
    if kind == "Custom": raise Custom(tag, 1)
    if kind == "Assertion": assert False, tag
    if kind == "Zero": 1 / 0
    if kind == "Timeout": raise asyncio.TimeoutError()
    if kind == "EOF": raise EOFError()


class Build(object):
    def __init__(self, ctx, pieshell):
        self.ctx, self.env = ctx, pieshell.env
        self.R = pieshell.R
        self.Function = pieshell.pipeline.function.Function
        self.tags = {}

    def cmd(self, s, first):
        args = []
        if s["arg"]: args.append(self.linear(s["arg"]))
        else: args.append("xx")
        args.append(self.R("t:" + self.ctx.dir + "/tag-" + s["tag"]))
        if s["early"]: args.append("s:%d" % s["delay"])
        if not first: args.append(self.R("i"))
        if s["arg"]: args.append("F:1:r:" + self.ctx.path())
        if s["stderr"]: args.append("w:2:" + s["stderr"].encode("latin-1").hex())
        args.append("w:1:" + (s["tag"] + "\n").encode().hex())
        if not s["early"]: args.append("s:%d" % s["delay"])
        e = s["end"]
        if e[0] == "exit": args.append("x:%d" % e[1])
        elif e[0] == "kill": args.append("k:%d" % e[1])
        return self.env._(self.ctx.probe, *args)

    def fn(self, s, first):
        e, tag = s["end"], s["tag"]
        kind = s["fkind"]
        async def body(stdin):
            if e[0] == "pre": raising(e[1], tag)
            if not first:
                async for l in stdin: yield l
            if s["delay"]: await asyncio.sleep(s["delay"] / 1000.0)
            yield tag
            if e[0] == "raise": raising(e[1], tag)
        def plain(stdin):
            if e[0] == "pre": raising(e[1], tag)
            return body(stdin)
        def gen(stdin):
            if e[0] == "pre": raising(e[1], tag)
            yield tag
            if e[0] == "raise": raising(e[1], tag)
        if first and kind == "iter": return gen(None)
        if first and kind == "aiter": return body(None)
        return {"agen": body, "plain": plain, "iter": body, "aiter": body}[kind]

    def linear(self, stages):
        p = None
        for i, s in enumerate(stages):
            x = self.cmd(s, i == 0) if s["kind"] == "cmd" else self.fn(s, i == 0)
            if i == 0 and s["kind"] == "fn": x = self.Function(self.env, x)
            p = x if p is None else p | x
        return p


def describe(rp):
    res = []
    for x in rp.processes:
        cmd = repr(x.cmd)
        d = {"cmd": cmd if len(cmd) < 4000 else cmd[:4000], "running": bool(x.is_running), "failed": bool(x.is_failed), "fn": type(x).__name__ == "RunningFunction"}
        if d["fn"]:
            ex = x.iohandler.exception
            d["exc"] = None if ex is None else [type(ex).__name__, str(ex)]
        else:
            d["code"] = x.exit_code
            d["state"] = proc_state(x.pid)
        d["err"] = x.output_content.get(2)
        res.append(d)
    return res


def run(ctx, case):
    pieshell = ctx.pieshell()
    env = pieshell.env
    results = []
    for rep in range(case["repeat"]):
        b = Build(ctx, pieshell)
        p = b.linear(case["a"])
        if case["b"]: p = p + b.linear(case["b"])
        out, exc = [], None
        mode = case["mode"]
        try:
            if mode == "list":
                for l in p: out.append(l)
            elif mode == "bytes":
                rp = p.run([pieshell.Redirect("stdout", pieshell.redir.PIPE)])
                async def rd():
                    async for d in rp.iterbytes(): out.append(d)
                run_(rd())
            elif mode == "str": out = str(p).split("\n")[:-1]
            elif mode == "async":
                async def go():
                    async for l in p: out.append(l)
                run_(go())
            else:
                f = ctx.path("out")
                q = p > f
                if mode == "plus": +q
                elif mode == "await":
                    async def go(): await q
                    run_(go())
                elif mode == "interactive": q.run_interactive()
                else:
                    rp = q.run()
                    if mode == "late": spin(0.15)
                    async def go(): await rp
                    run_(go())
        except Exception as e:
            exc = e
        if mode == "bytes": out = b"".join(out).decode().split("\n")[:-1]
        if mode not in ("list", "bytes", "str", "async"): out = (read(f) or b"").decode().split("\n")[:-1]
        rp = env.last_pipeline
        r = {"out": out, "exc": type(exc).__name__ if exc is not None else None, "procs": describe(rp), "running": bool(rp.is_running), "listed": rp in env.running_pipelines}
        if isinstance(exc, pieshell.pipeline.running.PipelineFailed):
            r["same"] = exc.pipeline is rp
            r["failed"] = [rp.processes.index(x) for x in exc.pipeline.failed_processes]
            r["text"] = str(exc)
        elif exc is not None:
            r["text"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:]
        results.append(r)
    return results


def run_(c):
    return asyncio.get_event_loop().run_until_complete(c)
