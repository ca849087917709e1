from wlib import *


BAD = {"nul-value": "a\0b", "int-value": 8080}


class Fault(object):
    """One reason why a command cannot be set up.  break_() before running, repair() makes it possible."""
    def __init__(self, ctx, kind, key):
        self.ctx, self.kind, self.key = ctx, kind, key
        self.root = os.geteuid() == 0
        self.path = "%s/x-%s" % (ctx.dir, key)

    def program(self):
        k, c = self.kind, self.ctx
        if k == "missing": return "prog-" + self.key
        if k == "missing-path": return self.path + "/prog"
        if k == "relative": return "./prog-" + self.key
        if k in ("noexec", "directory", "format", "interpreter"): return self.path
        return c.probe

    def redirect(self, RD):
        k = self.kind
        if k == "out-dir": return RD("stdout", self.path + "/o")
        if k == "out-isdir": return RD("stdout", self.path)
        if k == "out-locked": return RD("stdout", self.path + "/o")
        if k == "in-missing": return RD("stdin", self.path)
        if k == "in-locked": return RD("stdin", self.path)
        if k == "err-dir": return RD("stderr", self.path + "/o")
        if k == "err-fd": return RD("stderr", 99, borrowed=True)
        if k == "five-in": return RD(5, self.path, os.O_RDONLY)
        if k == "five-out": return RD(5, self.path + "/o", os.O_WRONLY | os.O_CREAT)
        if k == "excl": return RD(7, self.path, os.O_WRONLY | os.O_CREAT | os.O_EXCL)

    def break_(self):
        k, p = self.kind, self.path
        if k in ("noexec",):
            with open(p, "wb") as f: f.write(read(self.ctx.probe))
            os.chmod(p, 0o644)
        elif k == "directory": os.mkdir(p)
        elif k == "format":
            with open(p, "wb") as f: f.write(b"\0\1\2 nothing that could be run")
            os.chmod(p, 0o755)
        elif k == "interpreter":
            with open(p, "wb") as f: f.write(b"#!%s/no/such\n" % p.encode())
            os.chmod(p, 0o755)
        elif k == "out-isdir": os.mkdir(p)
        elif k == "out-locked": os.mkdir(p, 0 if not self.root else 0o700); self.root and os.rmdir(p)
        elif k == "in-locked" and not self.root:
            with open(p, "w") as f: pass
            os.chmod(p, 0)
        elif k == "excl":
            with open(p, "w") as f: pass

    def repair(self):
        k, p, c = self.kind, self.path, self.ctx
        if k == "missing": os.symlink(c.probe, c.bin + "/prog-" + self.key)
        elif k == "missing-path":
            os.mkdir(p)
            os.symlink(c.probe, p + "/prog")
        elif k == "relative": os.symlink(c.probe, c.work + "/prog-" + self.key)
        elif k == "noexec": os.chmod(p, 0o755)
        elif k == "directory":
            os.rmdir(p)
            os.symlink(c.probe, p)
        elif k in ("format", "interpreter"):
            os.unlink(p)
            os.symlink(c.probe, p)
        elif k in ("out-dir", "err-dir", "five-out"): os.mkdir(p)
        elif k == "out-isdir": os.rmdir(p)
        elif k == "out-locked": os.path.isdir(p) and os.rmdir(p); os.mkdir(p)
        elif k in ("in-missing", "in-locked", "five-in"):
            if os.path.exists(p): os.unlink(p)
            with open(p, "w") as f: pass
        elif k == "err-fd":
            f = os.open("/dev/null", os.O_WRONLY)
            os.dup2(f, 99)
            os.close(f)
        elif k == "excl": os.unlink(p)
        elif k == "cwd": os.mkdir(c.work + "/gone-" + self.key)


def run(ctx, case):
    pieshell = ctx.pieshell()
    env = pieshell.env
    R, RD, PIPE = pieshell.R, pieshell.Redirect, pieshell.PIPE
    Function = pieshell.pipeline.function.Function
    PF = pieshell.pipeline.running.PipelineFailed
    faults = []

    def tag(key): return "%s/tag-%s" % (ctx.dir, key)

    def build(ss):
        p = None
        for i, s in enumerate(ss):
            key = s["key"]
            if s["kind"] == "fn":
                async def fn(stdin, s=s, first=i == 0):
                    if not first:
                        async for l in stdin: yield l
                    yield "T" + s["key"]
                async def it(s=s): yield "T" + s["key"]
                x = Function(env, it() if False else fn) if i == 0 else fn
            else:
                f = Fault(ctx, s["fault"], key)
                if s["fault"]:
                    faults.append(f)
                    f.break_()
                e = env
                if s["fault"] == "cwd":
                    os.mkdir(ctx.work + "/gone-" + key)
                    e = env("gone-" + key)
                    os.rmdir(ctx.work + "/gone-" + key)
                elif s["fault"] in BAD:
                    e = env(exports=dict(os.environ, BAD=BAD[s["fault"]]))
                    values.append(e)
                elif s["fault"] == "nopath": e = env(exports={"PATH": ctx.dir + "/nowhere"})
                a = ["k" + key]
                if s["arg"]: a.append(build(s["arg"]))
                a.append(R("t:" + tag(key)))
                if s["arg"]: a.append("F:2:r:/dev/null")
                if i: a.append("i")
                a.append("w:1:" + ("T%s\n" % key).encode().hex())
                if s["fault"] == "nul-arg":
                    args.append(R("s:0\0"))
                    a.append(args[-1])
                x = e._(f.program() if s["fault"] != "nopath" else "prog-" + key, *a)
                if s["fault"] == "nopath": nopath.append((e, key))
                for k in s["extra"]: x = x | RD(k, "%s/extra-%s-%d" % (ctx.dir, key, k), os.O_WRONLY | os.O_CREAT)
                r = f.redirect(RD)
                if r is not None: x = x | r
            p = x if p is None else p | x
        return p
    nopath = []
    values = []
    args = []
    p = build(case["a"])
    if case["b"]: p = p + build(case["b"])
    if case["wrap"]:
        # The redirection belongs to the whole
        w = Fault(ctx, case["wrap"], "w")
        w.break_()
        faults.append(w)
        p = p | w.redirect(RD)
    before = "%s/after" % ctx.dir
    results = []

    def once(mode):
        for n in os.listdir(ctx.dir):
            if n.startswith("tag-"): os.unlink(ctx.dir + "/" + n)
        out, exc = [], None
        try:
            if mode == "list":
                for l in p: out.append(l)
            elif mode == "bytes": out = bytes(p).decode().splitlines()
            else:
                o = ctx.path("o")
                if mode == "subshell": (env.subshell(p) > o).run_interactive()
                elif mode == "plus": +(p > o)
                elif mode == "await": run_(aw((p > o)))
                elif mode == "bare": p.run_interactive()
        except Exception as e: exc = e
        if mode in ("subshell", "plus", "await"): out = (read(o) or b"").decode().splitlines()
        # so that a second copy of this code leaves its mark
        with open(before, "a") as f: f.write("%d\n" % os.getpid())
        r = {"out": out, "exc": type(exc).__name__ if exc else None, "ran": sorted(n[4:] for n in os.listdir(ctx.dir) if n.startswith("tag-"))}
        rp = exc.pipeline if isinstance(exc, PF) else (env if mode == "subshell" else p._env).last_pipeline
        r["codes"], r["failed"] = {}, []
        if mode != "subshell":
            for x in rp.processes:
                if type(x).__name__ == "RunningProcess":
                    k = [a for a in x.cmd._arg if isinstance(a, str) and a.startswith("k")][0][1:]
                    r["codes"][k] = x.exit_code
                    if x.is_failed: r["failed"].append(k)
            r["running"] = rp.is_running
            if isinstance(exc, PF): r["text"] = str(exc)
        elif isinstance(exc, PF): r["code"] = rp.exit_code
        if exc is not None and not isinstance(exc, PF): r["trace"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:]
        return r

    async def aw(x): await x
    modes = case["modes"]
    for m in modes: results.append(once(m))
    for f in faults: f.repair()
    for a in args: a.str = "s:0"
    for e in values: e._exports["BAD"] = "good"
    for e, key in nopath:
        os.mkdir(ctx.dir + "/nowhere") if not os.path.isdir(ctx.dir + "/nowhere") else None
        os.symlink(ctx.probe, ctx.dir + "/nowhere/prog-" + key)
    results.append(once(modes[-1]))
    pids = read(before).decode().split()
    return {"runs": results, "afters": len(pids), "pids": len(set(pids)), "root": os.geteuid() == 0, "wrapout": (read(w.path + "/o") or b"").decode().splitlines() if case["wrap"] and case["wrap"] == "out-dir" else None}


def run_(c): return loop().run_until_complete(c)
