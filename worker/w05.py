from wlib import *
import pathlib, fcntl


def run(ctx, case):
    pieshell = ctx.pieshell()
    redir = pieshell.redir
    wd = ctx.path("wd")
    os.mkdir(wd)
    base = wd if case["cd"] else ctx.work
    names = []
    for i, f in enumerate(case["files"]):
        n = "%s/file %d" % (base, i)
        names.append(n)
        if f["exists"]:
            with open(n, "wb") as h: h.write(b"old content %d\n" % i)
            os.chmod(n, f["mode"])
    shell = {}
    for i, s in enumerate(case["shellfds"]):
        n = "%s/shell%d" % (ctx.dir, i)
        with open(n, "wb") as h: h.write(b"shell content %d\n" % i)
        fd = os.open(n, {"r": os.O_RDONLY, "w": os.O_WRONLY, "a": os.O_WRONLY | os.O_APPEND, "rw": os.O_RDWR}[s["open"]])
        os.dup2(fd, s["fd"], inheritable=s["inherit"])
        if fd != s["fd"]: os.close(fd)
        os.lseek(s["fd"], s["seek"], os.SEEK_SET)
        shell[s["fd"]] = n
    env = pieshell.env
    if case["cd"]: env = env(wd)
    elif case["copy"]: env = env()

    def source(r):
        s = r["src"]
        if s[0] == "path":
            n = names[s[1]]
            if s[3]: n = os.path.relpath(n, base)
            return {"str": str, "bytes": os.fsencode, "Path": pathlib.Path}[s[2]](n)
        if s[0] == "fd": return s[1]
        if s[0] == "null": return None
        return getattr(redir, s[0])

    def explicit(r):
        kw = {}
        if r["flag"] is not None: kw["flag"] = eval(r["flag"], {"os": os})
        if r["mode"] is not None: kw["mode"] = r["mode"]
        if r["src"][0] == "fd": kw["borrowed"] = True
        src = source(r)
        return redir.Redirect(r["fd"], "/dev/null" if src is None else src, **kw)
    for r in case["redirs"]:
        if r["ch"] == "env":
            if r["plain"]:
                if r["fd"] == 0: source(r) | env
                else: env | source(r)
            else: env | explicit(r)
    defaults = [r for r in case["redirs"] if r["ch"] == "envcall"]
    if defaults:
        env = env(redirects=redir.Redirects(env._redirects, *[explicit(r) for r in defaults]))
    fdfile, done = ctx.path(), ctx.path()
    writes = ["w:%d:%s" % (fd, ("%dw\n" % fd).encode().hex()) for fd in case["writes"]]
    p = env._(ctx.probe, "f:" + fdfile, *writes, *([pieshell.R("r")] if case["place"] in ("middle", "last") else []))
    for r in case["redirs"]:
        if r["ch"] == "op":
            if not r["plain"]: p = p | explicit(r)
            elif r["fd"] == 0: p = (p < source(r)) if r["sign"] else (source(r) | p)
            else: p = (p > source(r)) if r["sign"] else (p | source(r))
    extra = [explicit(r) for r in case["redirs"] if r["ch"] == "run"]
    out = None
    place = case["place"]
    q = p
    if place in ("middle", "last"): q = ["in"] | env.cat | q
    if place in ("middle", "first"): q = q | env.cat | env._(ctx.probe, "R:" + done)
    before = {fd: os.fstat(fd)[1:3] for fd in list(shell) + [0, 1, 2]}
    rp = q.run(extra)
    ctx_run(rp)
    me = [x for x in rp.processes if "f:" in repr(x.cmd)][0]
    res = {"fds": parse_fds(read(fdfile, b"").decode("utf-8", "replace")), "files": [], "strings": {str(k): v for k, v in me.output_content.items()},
           "failed": [repr(x)[:300] for x in rp.failed_processes]}
    for n in names:
        d = read(n)
        res["files"].append([n, None if d is None else d.decode("latin-1"), os.stat(n).st_mode & 0o7777 if d is not None else None, os.stat(n).st_ino if d is not None else None])
    res["tmp"] = {}
    for fd, t in me.output_files.items():
        t = getattr(t, "path", t)
        res["tmp"][str(fd)] = [t, read(t, b"<missing>").decode("latin-1")]
    rp.remove_output_files()
    res["left"] = [t for t, c in res["tmp"].values() if os.path.exists(t)]
    res["shell"] = {str(fd): [n, read(n).decode("latin-1"), os.stat(n).st_ino] for fd, n in shell.items()}
    res["lost"] = [fd for fd, b in before.items() if not opened(fd, b)]
    res["std"] = [os.fstat(fd)[1] for fd in (0, 1, 2)]
    res["null"] = os.stat("/dev/null")[1]
    res["log"] = pieshell.log.logfd
    res["tmpleft"] = [f for f in os.listdir(ctx.tmp)]
    return res


def opened(fd, b):
    try:
        return os.fstat(fd)[1:3] == b
    except OSError:
        return False


def ctx_run(rp):
    async def go():
        try:
            await rp.wait()
        except Exception:
            pass
    asyncio.get_event_loop().run_until_complete(go())
