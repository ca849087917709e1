from wlib import *
import types


def make_item(spec):
    k = spec[0]
    if k == "s": return gen_text(spec[1])
    if k == "b": return gen_bytes(spec[1])
    if k == "n": return None
    if k == "v": return eval(spec[1], {"pathlib": __import__("pathlib")})
    if k == "c":
        async def co(v=spec[1]):
            if spec[2]:
                await asyncio.sleep(spec[2] / 1000.0)
            return make_item(v)
        return co()
    raise ValueError(k)


class It(object):
    def __init__(self, n, f): self.n, self.f, self.i = n, f, 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.f(self.i - 1)


class AIt(object):
    def __init__(self, n, f, delays): self.n, self.f, self.i, self.delays = n, f, 0, delays
    def __aiter__(self): return self
    async def __anext__(self):
        if self.i >= self.n: raise StopAsyncIteration
        self.i += 1
        if self.i < len(self.delays): await asyncio.sleep(self.delays[self.i] / 1000.0)
        return self.f(self.i - 1)


class Seq(object):
    def __init__(self, n, f): self.n, self.f = n, f
    def __iter__(self): return It(self.n, self.f)


def source(kind, items, pulls, delays):
    """The Python side of the pipeline, of the wanted kind.  Every item is made when it is asked for, and noted."""
    def item(i):
        pulls.append(i)
        return make_item(items[i])
    n = len(items)
    def gen(*stdin):
        for i in range(n):
            if i < len(delays) and delays[i]: time.sleep(delays[i] / 1000.0)
            yield item(i)
    async def agen(*stdin):
        for i in range(n):
            if i < len(delays) and delays[i]: await asyncio.sleep(delays[i] / 1000.0)
            yield item(i)
    if kind == "list": return [item(i) for i in range(n)]
    if kind == "tuple": return tuple(item(i) for i in range(n))
    if kind == "iter": return iter([item(i) for i in range(n)])
    if kind == "iterator": return It(n, item)
    if kind == "iterable": return Seq(n, item)
    if kind == "map": return map(item, range(n))
    if kind == "gen": return gen()
    if kind == "agen": return agen()
    if kind == "aiterator": return AIt(n, item, delays)
    if kind == "genfn": return gen
    if kind == "agenfn": return agen
    if kind == "listfn": return lambda stdin: [item(i) for i in range(n)]
    if kind == "method":
        class A(object):
            def meth(self, stdin): return gen()
        return A().meth
    if kind == "amethod":
        class A(object):
            async def meth(self, stdin):
                async for x in agen(): yield x
        return A().meth
    if kind == "corofn":
        async def coro(stdin):
            await asyncio.sleep((delays + [0])[0] / 1000.0)
            return item(0)
        return coro
    raise ValueError(kind)


def run(ctx, case):
    pieshell = ctx.pieshell()
    pulls = []
    out = ctx.path()
    src = source(case["kind"], case["items"], pulls, case["delays"])
    rd = "S:%s:%d" % (out, case["us"]) if case["us"] else "R:" + out
    env = pieshell.env
    cmd = env._(ctx.probe, *(["s:%d" % case["wait"]] if case["wait"] else []), rd, "w:1:646f6e650a")
    if case["via"] == "cat":
        p = src | env.cat | cmd
    elif case["via"] == "fn":
        async def same(lines):
            async for l in lines: yield l
        p = src | env.cat | same | cmd
    else:
        p = src | cmd
    if case["mode"] == "list":
        done = list(p)
    elif case["mode"] == "plus":
        r = +p
        done = ["done"] if not r.is_running else ["running"]
    else:
        async def go(): await p
        run_(go())
        done = ["done"]
    return {"b64": b64(read(out)), "pulls": pulls, "done": done}


def run_(c):
    return asyncio.get_event_loop().run_until_complete(c)
