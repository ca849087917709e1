from wlib import *
import pickle

TREES = []          # what the builtins of this case stand for
MADE = {}


def hexl(lines): return "".join(l + "\n" for l in lines).encode().hex()


class Build(object):
    """Builds the pipeline of a tree, with its builtins, or with what they stand for in their place."""
    def __init__(self, ctx, pieshell, env, plain):
        self.ctx, self.pieshell, self.env, self.plain = ctx, pieshell, env, plain

    def acts(self, t):
        R = self.pieshell.R
        return ["id-" + t[1], R("t:%s/ran-%s-%s" % (self.ctx.dir, "p" if self.plain else "b", t[1])), "i",
                R("w:1:" + hexl([t[1]] + t[2])), R("w:2:" + hexl(["err " + t[1]]))] + ([R("x:%d" % t[3])] if t[3] else [])

    def __call__(self, t):
        k, env, R, RD = t[0], self.env, self.pieshell.R, self.pieshell.Redirect
        if k == "cmd": return env._(self.ctx.probe, *self.acts(t))
        if k == "fn":
            async def f(stdin):
                async for l in stdin: yield l
                yield t[1]
                if t[2]: raise ValueError(t[1])
            return self.pieshell.pipeline.function.Function(env, f)
        if k == "pipe": return self(t[1]) | self(t[2])
        if k == "add": return self(t[1]) + self(t[2])
        if k == "list": return list(t[1]) | self(t[2])
        if k == "file": return self.ctx.store(hexl2(t[1])) | self(t[2])
        if k == "null": return None | self(t[1])
        if k == "err": return self(t[1]) | RD("stderr", self.errfile(), flag=os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        if k == "string": return self(t[1]) | RD("stderr", self.pieshell.STRING)
        if k == "arg": return env.cat("-", self(t[1]))
        if k == "kwarg": return env._(self.ctx.scratch + "/bin/probe", "id-" + t[1], R("t:%s/ran-%s-%s" % (self.ctx.dir, "p" if self.plain else "b", t[1])), "i", R("F:5:r:" + self.ctx.dir + "/kw-" + t[1]), file=self(t[2]))
        if k == "bi":
            if t[1] == "pass":
                # its arguments are those of the command it runs
                if self.plain: return env._(self.ctx.probe, *self.acts(t[2]))
                a = self.acts(t[2])
                return env.passing(*a[:1])(*a[1:])
            if t[1] == "passarg":
                if self.plain: return env.cat("-", self(t[2]))
                return env.catting("-", self(t[2]))
            if t[1] in ("given", "given_"):
                # it runs the pipeline it is given
                if self.plain: return self(t[2])
                return env.given(self(t[2])) if t[1] == "given" else env._("given", self(t[2]))
            if self.plain: return self(t[2])
            TREES.append((self, t[2]))
            n = str(len(TREES) - 1)
            return {"str": lambda: env.standing(n), "kw": lambda: env.standing(which=n), "attr": lambda: getattr(env.standing, "n" + n),
                    "split": lambda: env.standing("ignored")(n), "under": lambda: env._("standing", n)}[t[1]]()
        raise ValueError(k)

    def errfile(self): return self.ctx.dir + "/stderr-" + ("p" if self.plain else "b")


def hexl2(lines): return "".join(l + "\n" for l in lines).encode()


def builtins(ctx, pieshell):
    Builtin = pieshell.pipeline.builtin.Builtin

    class Standing(Builtin):
        """Runs a pipeline"""
        name = "standing"
        def _run(self, redirects, sess, indentation=""):
            a = self._arg[-1]
            n = a["which"] if isinstance(a, dict) else a
            build, t = TREES[int(n.lstrip("n"))]
            self._cmd = build(t)
            return self._cmd._run(redirects, sess, indentation)

    class Passing(Builtin):
        name = "passing"
        def _run(self, redirects, sess, indentation=""):
            self._cmd = self._env._(ctx.probe, *self._arg[1:])
            return self._cmd._run(redirects, sess, indentation)

    class Catting(Builtin):
        name = "catting"
        def _run(self, redirects, sess, indentation=""):
            self._cmd = self._env.cat(*self._arg[1:])
            return self._cmd._run(redirects, sess, indentation)

    class Given(Builtin):
        name = "given"
        def _run(self, redirects, sess, indentation=""):
            self._cmd = self._arg[1]
            return self._cmd._run(redirects, sess, indentation)
    for c in (Standing, Passing, Catting, Given):
        # as pickle finds classes
        c.__qualname__ = c.__name__
        c.__module__ = "w28"
        globals()[c.__name__] = c
        pieshell.pipeline.BuiltinRegistry.register(c)


def use(ctx, pieshell, p, how, env):
    """Runs p; what it gives and how it ends"""
    async def wait(rp):
        try:
            await rp.wait()
            return "ok"
        except pieshell.PipelineFailed as e:
            return sorted(exits(e.pipeline))
    if how in ("list", "bytes", "str", "aiter"):
        try:
            if how == "list": v = list(p)
            elif how == "bytes": v = bytes(p).decode().splitlines()
            elif how == "str": v = str(p).splitlines()
            else:
                v = []
                async def go():
                    async for l in p: v.append(l)
                loop().run_until_complete(go())
            return v, "ok", None
        except pieshell.PipelineFailed as e:
            return v if how == "aiter" else None, sorted(exits(e.pipeline)), strings(e.pipeline)
    if how in ("read", "bg", "file"):
        f = None
        if how == "read":
            rp = p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
            async def go():
                v = b""
                try:
                    async for d in rp.iterbytes(): v += d
                except pieshell.PipelineFailed as e:
                    return v, sorted(exits(e.pipeline))
                return v, "ok"
            v, o = loop().run_until_complete(go())
            v = v.decode()
        else:
            f = ctx.path("of")
            rp = ~(p > f) if how == "bg" else (p > f).run()
            o = loop().run_until_complete(wait(rp))
            v = read(f, b"").decode()
        return v.splitlines(), o, strings(rp)
    if how in ("pos", "inter", "await"):
        f = ctx.path("of")
        q = p > f
        try:
            if how == "pos": rp = +q
            elif how == "inter": rp = q.run_interactive()
            else:
                async def go(): return await q
                rp = loop().run_until_complete(go())
            o = "ok"
        except pieshell.PipelineFailed as e:
            rp, o = e.pipeline, sorted(exits(e.pipeline))
        return read(f, b"").decode().splitlines(), o, strings(rp)
    if how == "out":
        before = len(read(ctx.dir + "/out"))
        rp = p.run()
        o = loop().run_until_complete(wait(rp))
        return read(ctx.dir + "/out")[before:].decode().splitlines(), o, strings(rp)
    raise ValueError(how)


def exits(rp):
    return [(str(x.exit_code) if hasattr(x, "pid") else "function") for x in rp.failed_processes]


def strings(rp):
    return sorted(c for x in rp.processes for c in x.output_content.values())


def run(ctx, case):
    pieshell = ctx.pieshell()
    builtins(ctx, pieshell)
    env = pieshell.env(interactive=False)
    problems = []
    res = {"runs": []}
    plain = Build(ctx, pieshell, env, True)(case["tree"])
    p = Build(ctx, pieshell, env, False)(case["tree"])
    text = repr(p)
    for how in case["uses"]:
        row = [how]
        for q, who in ((p, "b"), (plain, "p")):
            if how == "pickle":
                # written to and read from a pickle, if what is in it can be
                try:
                    q = pickle.loads(pickle.dumps(q))
                except Exception as e:
                    if case["picklable"]: problems.append("%s can not be pickled: %r" % (repr(q), e))
            for f in os.listdir(ctx.dir):
                if f.startswith(("kw-", "ran-" + who, "stderr-" + who)): os.unlink(ctx.dir + "/" + f)
            v, o, s = use(ctx, pieshell, q, "read" if how == "pickle" else how, env)
            ran = {f[6:]: len(read(ctx.dir + "/" + f).splitlines()) for f in os.listdir(ctx.dir) if f.startswith("ran-" + who)}
            kw = {f: sorted(read(ctx.dir + "/" + f).decode().splitlines()) for f in os.listdir(ctx.dir) if f.startswith("kw-")}
            row.append([v, o, s, ran, kw, sorted((read(ctx.dir + "/stderr-" + who) or b"").decode().splitlines()), os.listdir(ctx.tmp)])
        res["runs"].append(row)
        if repr(p) != text: problems.append("the text of the pipeline changed from %r to %r" % (text, repr(p)))
    if case["show"]:
        ienv = pieshell.env(interactive=True)
        q = Build(ctx, pieshell, ienv, False)(case["tree"])
        before = len(read(ctx.dir + "/out"))
        try:
            sys.displayhook(q)
            o = "ok"
        except pieshell.PipelineFailed as e:
            o = sorted(exits(e.pipeline))
        sys.stdout.flush()
        res["shown"] = [read(ctx.dir + "/out")[before:].decode().splitlines(), o]
    res["problems"] = problems
    res["text"] = text
    return res
