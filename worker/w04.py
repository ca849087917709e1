from wlib import *


def expand(spec):
    return [s for l in spec for s in ([l] if isinstance(l, str) else [l[0]] * l[1])]


class Build(object):
    def __init__(self, ctx, pieshell):
        self.ctx, self.env, self.R, self.got, self.fnfiles = ctx, pieshell.env, pieshell.R, {}, {}

    def iterable(self, kind, lines):
        if kind == "list": return list(lines)
        if kind == "tuple": return tuple(lines)
        if kind == "iter": return iter(list(lines))
        if kind == "gen": return (l for l in lines)
        if kind == "bytes": return [l.encode("utf-8") for l in lines]
        async def agen():
            for i, l in enumerate(lines):
                if i % 100 == 1: await asyncio.sleep(0.001)
                yield l
        return agen()

    def function(self, kind, tag):
        got = self.got[tag] = []
        async def f(stdin):
            async for l in stdin:
                got.append(l)
                yield "%s>%s" % (tag, l)
        class C(object):
            async def m(self, stdin):
                async for l in f(stdin): yield l
        async def all(stdin):
            async for l in stdin: got.append(l)
            return "%s>%d" % (tag, len(got))
        return {"agen": f, "method": C().m, "coro": all}[kind]

    def arg(self, s):
        if s[0] == "s": return s[1]
        if s[0] == "R": return self.R(s[1])
        if s[0] == "T": return True
        if s[0] == "F": return False
        if s[0] == "it": return self.iterable(s[1], expand(s[2]))
        if s[0] == "fn": return self.function(s[1], s[2])
        return self.pipe(s[1])

    def pipe(self, n):
        env = self.env
        t = n["t"]
        if t == "file": return env.cat(self.ctx.store("".join(l + "\n" for l in expand(n["lines"])).encode("utf-8")))
        if t == "stdin": return env.cat()
        if t == "src": return self.iterable(n["kind"], expand(n["lines"])) | env.cat
        if t == "cat": return env.cat(*[self.arg(a) for a in n["args"]])
        if t == "cmd": return self.pipe(n["a"]) | {"tac": env.tac, "sort": env.sort, "tr": env.tr("a", "b")}[n["name"]]
        if t == "pyfn":
            async def up(stdin):
                async for l in stdin: yield "=" + l
            return self.pipe(n["a"]) | up
        if t == "tee": return self.pipe(n["a"]) | env.tee(self.function(n["kind"], n["tag"]))


def run(ctx, case):
    pieshell = ctx.pieshell()
    b = Build(ctx, pieshell)
    p = pieshell.env._(ctx.probe)
    made = {}
    n = 0
    actions = []
    argv = ctx.path()
    for call in case["calls"]:
        args, kw = [], {}
        for name, s in call:
            if s[0] == "same":
                v = made[s[1]]
            else:
                v = made[n] = b.arg(s)
            n += 1
            if name is None: args.append(v)
            else: kw[name] = v
        p = p(*args, **kw)
    outs, idx = [], 0
    flat = []
    for call in case["calls"]:
        flat += [c for c in call if c[0] is None] + [c for c in call if c[0] is not None]
    specs = [c[1] for call in case["calls"] for c in call]
    todo = []
    for name, s in flat:
        if s[0] == "F": continue
        idx += 1
        if s[0] == "same": s = specs[s[1]]
        if s[0] in ("it", "pl"):
            f = ctx.path()
            outs.append(f)
            todo.append("F:%d:r:%s" % (idx, f))
        elif s[0] == "fn":
            todo.append("F:%d:w:%s" % (idx, ctx.store("".join(l + "\n" for l in expand(s[3])).encode("utf-8"))))
    for i in case["order"]:
        if todo: actions.append(todo.pop(i % len(todo)))
    actions += todo
    actions.insert(case["talk"] % (len(actions) + 1), "w:1:" + "P>hej\n".encode().hex())
    p = p("a:" + argv, *([pieshell.R("i")] if case["stdin"] is not None and not case["via"] else []), *actions)
    if case["stdin"] is not None:
        p = ["I>" + l for l in case["stdin"]] | p
    if case["after"] == "cat": p = p | pieshell.env.cat
    if case["after"] == "fn":
        async def same(stdin):
            async for l in stdin: yield l
        p = p | same
    out = list(p) if case["mode"] == "list" else bytes(p).decode("utf-8")
    return {"out": out, "argv": b64(read(argv)), "files": [None if read(f) is None else read(f).decode("utf-8", "replace") for f in outs], "got": b.got}
