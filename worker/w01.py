from wlib import *


def text_or_bytes(case):
    if case["mode"] in ("bytes", "iterbytes"):
        return gen_bytes(case["data"])
    return gen_text(case["data"]).encode("utf-8")


def run(ctx, case):
    pieshell = ctx.pieshell()
    data = text_or_bytes(case)
    acts = []
    if case["chunk"]:
        acts.append("W:1:%s:%d:%d" % (ctx.store(data), case["chunk"], case["us"]))
    else:
        cuts = sorted(set(min(len(data), c) for c in case["cuts"]))
        prev = 0
        for i, c in enumerate(cuts + [len(data)]):
            acts.append("W:1:%s:100000" % ctx.store(data[prev:c]))
            prev = c
            if case["noise"]:
                acts.append("w:2:" + (b"noise%d\n" % i).hex())
            if i < len(case["delays"]):
                acts.append("s:%d" % case["delays"][i])
    p = getattr(pieshell.env, "_")(ctx.probe, *acts)
    mode, slow = case["mode"], list(case["slow"])
    got = []
    if mode in ("iter", "next"):
        it = iter(p)
        while True:
            try:
                got.append(next(it))
            except StopIteration:
                break
            if slow:
                time.sleep(slow.pop(0) / 1000.0)
    elif mode == "aiter":
        async def go():
            async for x in p:
                got.append(x)
                if slow:
                    await asyncio.sleep(slow.pop(0) / 1000.0)
        run_(go())
    elif mode == "runaiter":
        r = p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
        async def go():
            async for x in r:
                got.append(x)
                if slow:
                    time.sleep(slow.pop(0) / 1000.0)
        run_(go())
    elif mode == "iterbytes":
        r = p.run([pieshell.Redirect("stdout", pieshell.PIPE)])
        async def go():
            async for x in r.iterbytes():
                got.append(x)
                if slow:
                    await asyncio.sleep(slow.pop(0) / 1000.0)
        run_(go())
        return {"types": sorted(set(type(x).__name__ for x in got)), "b64": b64(b"".join(got))}
    elif mode == "bytes":
        x = bytes(p)
        return {"types": [type(x).__name__], "b64": b64(x)}
    elif mode == "str":
        x = str(p)
        return {"types": [type(x).__name__], "b64": b64(x.encode("utf-8", "surrogatepass"))}
    return {"types": sorted(set(type(x).__name__ for x in got)), "lines": got}


run_ = asyncio.get_event_loop().run_until_complete if False else (lambda c: asyncio.get_event_loop().run_until_complete(c))
