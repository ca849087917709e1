from wlib import *

run_ = lambda c: asyncio.get_event_loop().run_until_complete(c)


def make_fn(name, kind, delay):
    """A Python function stage: name says what it computes, kind how it is written."""
    def per_line(i, l):
        if name == "upper": return [l.upper()]
        if name == "dup": return [l, l]
        if name == "number": return ["%d:%s" % (i, l)]
        if name == "drop": return [l] if i % 2 == 0 else []
        if name == "none": return [None, l, None]
        if name == "bytes": return [l.encode("utf-8")]
        if name == "split": return ["<\n" + l]
        if name == "pad": return [l + "=" * 3000]
        if name == "len": return [len(l)]
        raise ValueError(name)
    if name == "reverse":
        async def fn(lines):
            ls = []
            async for l in lines: ls.append(l)
            for l in reversed(ls): yield l
        return fn
    if name == "count":
        async def fn(lines):
            n = 0
            async for l in lines:
                n += 1
                if delay and n < 4: await asyncio.sleep(delay / 1000.0)
            return n
        return fn
    if name == "join":
        async def fn(lines):
            ls = []
            async for l in lines: ls.append(l)
            yield "+".join(ls)
        return fn
    if name == "ident":
        return lambda lines: lines
    if kind == "comp":
        return lambda lines: (x async for i, l in aenum(lines) for x in per_line(i, l))
    if kind == "class":
        class A(object):
            def __init__(self, lines): self.lines, self.i, self.q = lines, 0, []
            def __aiter__(self): return self
            async def __anext__(self):
                while not self.q:
                    l = await self.lines.__anext__()
                    self.q = per_line(self.i, l)
                    self.i += 1
                return self.q.pop(0)
        return lambda lines: A(lines)
    if kind == "method":
        class M(object):
            async def meth(self, lines):
                i = 0
                async for l in lines:
                    for x in per_line(i, l): yield x
                    i += 1
        return M().meth
    async def fn(lines):
        i = 0
        async for l in lines:
            if delay and i < 4: await asyncio.sleep(delay / 1000.0)
            for x in per_line(i, l): yield x
            i += 1
    return fn


async def aenum(lines):
    i = 0
    async for l in lines:
        yield i, l
        i += 1

CMDS = {"cat": ["cat"], "cat2": ["cat", "-"], "tr": ["tr", "a-z", "A-Z"], "sort": ["sort"], "tac": ["tac"], "sed": ["sed", "s/a/b-b/g"], "uniq": ["uniq"],
        "firsts": ["sed", "-n", "1,3p"], "evens": ["sed", "-n", "0~2p"], "rot": ["tr", "abc", "bca"], "nl": ["sed", "="]}


class Builder(object):
    def __init__(self, ctx, pieshell):
        self.ctx, self.p, self.env = ctx, pieshell, pieshell.env

    def text(self, n):
        return "".join(l + "\n" for l in gen_lines(n["lines"]))

    def build(self, n, raw_ok=False):
        F = self.p.pipeline.function.Function
        t = n["t"]
        if t == "pipe":
            # plain Python objects can stand next to a pipeline, but not next to each other
            b = self.build(n["b"], raw_ok=not n["b"].get("wrap", True))
            a = self.build(n["a"], raw_ok=isinstance(b, self.p.Pipeline) and not n["a"].get("wrap", True))
            if not isinstance(a, self.p.Pipeline) and not isinstance(b, self.p.Pipeline):
                b = F(self.env, b)
            return a | b
        if t == "group":
            return self.build(n["a"]) + self.build(n["b"])
        if t == "cmd":
            return self.env._(*CMDS[n["name"]])
        if t == "fn":
            f = make_fn(n["name"], n["kind"], n["delay"])
            args = n.get("args")
            if args:
                # Functions can be given arguments of their own
                a, k = ((1, "x")[:args % 2 + (args > 1)], {"key": "v", "_other": 2} if args > 1 else {})
                if args == 3: a = ()
                g = f
                def f(stdin, *arg, **kw):
                    if (arg, kw) != (a, k): raise Exception("called with %r, %r, expected %r, %r" % (arg, kw, a, k))
                    return g(stdin)
                return F(self.env, f, *a, **k)
            return f if raw_ok else F(self.env, f)
        if t == "src":
            k = n["kind"]
            if k == "list":
                r = gen_lines(n["lines"])
            elif k == "gen":
                r = iter(gen_lines(n["lines"]))
            elif k == "fn":
                ls = gen_lines(n["lines"])
                r = lambda stdin: ls
            elif k == "agen":
                ls = gen_lines(n["lines"])
                async def r(stdin):
                    for i, l in enumerate(ls):
                        if i < 3 and n["delay"]: await asyncio.sleep(n["delay"] / 1000.0)
                        yield l
            elif k == "file":
                return self.ctx.store(self.text(n).encode("utf-8")) | self.env.cat
            elif k == "cat":
                return self.env.cat(self.ctx.store(self.text(n).encode("utf-8")))
            else:
                acts = []
                for i, l in enumerate(self.text(n).splitlines(True)):
                    acts.append("w:1:" + l.encode("utf-8").hex())
                    if i < 3 and n["delay"]: acts.append("s:%d" % n["delay"])
                return self.env._(self.ctx.probe, *acts)
            return r if raw_ok else F(self.env, r)
        raise ValueError(t)


def gen_lines(spec):
    return [s for l in spec for s in ([l] if isinstance(l, str) else [l[0]] * l[1])]


def run(ctx, case):
    pieshell = ctx.pieshell()
    p = Builder(ctx, pieshell).build(case["tree"])
    m = case["mode"]
    if m == "list": got = list(p)
    elif m == "bytes": return {"text": bytes(p).decode("utf-8")}
    elif m == "str": return {"text": str(p)}
    elif m == "async":
        got = []
        async def go():
            async for l in p: got.append(l)
        run_(go())
    elif m == "file":
        f = ctx.path()
        if case["nested"]:
            tree = case["tree"]
            p = Builder(ctx, pieshell)
            if tree["t"] == "pipe":
                p = p.build(tree["a"]) | (p.build(tree["b"]) | f)
            else:
                p = p.build(tree) | f
        else:
            p = p | f
        r = +p
        return {"text": read(f).decode("utf-8")}
    return {"lines": got}
