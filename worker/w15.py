from wlib import *


class Node(object):
    def __init__(self, p, kind, tags, runs, top, reads=True, cmd=False):
        self.p, self.kind = p, kind
        self.tags = tags        # the lines a run adds to its input
        self.runs = runs        # ids of the commands one run executes
        self.top = top          # ids of the commands its text names
        self.cmd = cmd
        self.text = None
        self.err = []           # files that get the standard error of the commands
        self.input = None       # not None if it does not read its input

    def size(self): return len(self.runs)


def run(ctx, case):
    pieshell = ctx.pieshell()
    R, RD, PIPE = pieshell.R, pieshell.Redirect, pieshell.PIPE
    Function = pieshell.pipeline.function.Function
    env = pieshell.env(interactive=False)
    ienv = pieshell.env(interactive=True)
    counts, expect = {}, {}
    problems = []
    nodes = []
    ids = [0]
    stats = {"runs": 0, "shared": 0, "concurrent": 0, "shown": 0}

    options = {"a": "b", "c": True, "d": False}

    def action(tag): return R("w:1:" + (tag + "\n").encode().hex())

    def base(e):
        ids[0] += 1
        i = "c%d" % ids[0]
        expect[i] = 0
        return Node(e._(ctx.probe, "id-" + i, R("t:%s/tag-%s" % (ctx.dir, i)), "i", action(i)), "cmd", [i], [i], [i], cmd=True)

    def add(n):
        nodes.append(n)
        n.text = repr(n.p)
        for i in set(n.top):
            if n.text.count("'id-%s'" % i) != n.top.count(i):
                problems.append("the text %r names command %s %d times, expected %d" % (n.text, i, n.text.count("'id-%s'" % i), n.top.count(i)))

    def get(k): return nodes[k % len(nodes)]

    def seen():
        if options != {"a": "b", "c": True, "d": False}: problems.append("the options given to a command became %r" % options)
        for i in expect:
            c = len((read("%s/tag-%s" % (ctx.dir, i)) or b"").splitlines())
            if c != expect[i]: problems.append("command %s ran %d times, expected %d" % (i, c, expect[i]))

    def started(n):
        stats["runs"] += 1
        for i in n.runs: expect[i] += 1

    def out(n): return sorted(n.tags)

    async def reading(n, how):
        rp = n.p.run([RD("stdout", PIPE)])
        res = []
        if how % 2:
            async for l in rp: res.append(l)
        else:
            b = b""
            async for d in rp.iterbytes(): b += d
            res = b.decode().splitlines()
        pids = [x.pid for x in rp.processes if hasattr(x, "pid")]
        for x in rp.processes:
            if hasattr(x, "pid") and str(x.pid) not in repr(x.cmd):
                problems.append("process %d of %r is described as %r" % (x.pid, pids, repr(x.cmd)))
        return res
    for k in range(case["bases"]): add(base(env))
    inode = base(ienv)
    inode2 = Node(inode.p | ienv.cat, "pipe", inode.tags, inode.runs, inode.top)
    for step, op in enumerate(case["ops"]):
        k, a, b = op[0], get(op[1]), get(op[2])
        what = "step %d %r" % (step, op)
        if k == "call":
            if a.cmd:
                ids[0] += 1
                t = "x%d" % ids[0]
                args, kw = [action(t)], {}
                if op[3] % 3 == 1: kw = {"opt": "v"}
                if op[3] % 3 == 2: args.append({"a": "b", "c": True})
                if op[3] in (6, 7):
                    # a dictionary of the user's, used again and again
                    args.append(options)
                    kw = {"opt": "v", "a": "z"} if op[3] == 6 else {}
                add(Node(a.p(*args, **kw), "cmd", a.tags + [t], a.runs, a.top, cmd=True))
        elif k == "attr":
            if a.cmd: add(Node(getattr(a.p, "status"), "cmd", a.tags, a.runs, a.top, cmd=True))
        elif k == "neg":
            if a.cmd: add(Node(a.p - env.la, "cmd", a.tags, a.runs, a.top, cmd=True))
        elif k in ("pipe", "add"):
            if a.size() + b.size() <= 9:
                if a is b or set(a.runs) & set(b.runs): stats["shared"] += 1
                if k == "pipe" and b.input is not None: continue
                p = a.p | b.p if k == "pipe" else a.p + b.p
                n = Node(p, k, a.tags + b.tags, a.runs + b.runs, a.top + b.top)
                n.input = a.input if k == "pipe" else ([] if a.input is not None or b.input is not None else None)
                add(n)
        elif k == "fn":
            ids[0] += 1
            t = "f%d" % ids[0]
            async def f(stdin, t=t):
                async for l in stdin: yield l
                yield t
            async def g(stdin, ts, kw=None):
                # Its arguments are its own: what it does to them doesn't change the pipeline
                async for l in stdin: yield l
                while ts: yield ts.pop()
                if kw: yield kw.pop("t")
            async def h(stdin, q):
                async for l in stdin: yield l
                async for l in q: yield l
            how = op[3] % 4
            if how == 0: add(Node(a.p | f, "fn", a.tags + [t], a.runs, a.top))
            elif how == 1: add(Node(a.p | Function(env, g, [t]), "fn", a.tags + [t], a.runs, a.top))
            elif how == 2: add(Node(a.p | Function(env, g, [t], kw={"t": t + "k"}), "fn", a.tags + [t, t + "k"], a.runs, a.top))
            elif a.size() + b.size() > 8: continue
            else: add(Node(a.p | Function(env, h, b.p), "fn", a.tags + b.tags, a.runs + b.runs, a.top + b.top))
            nodes[-1].input = a.input
        elif k == "list":
            if a.input is None and a.size() < 9:
                ids[0] += 1
                l = ["l%d" % ids[0], "m%d" % ids[0]]
                n = Node(l | a.p, "list", l + a.tags, a.runs, a.top)
                n.input = []
                add(n)
        elif k == "infile":
            if a.input is None and a.kind == "cmd":
                ids[0] += 1
                l = "n%d" % ids[0]
                n = Node(ctx.store((l + "\n").encode()) | a.p, "infile", [l] + a.tags, a.runs, a.top)
                n.input = []
                add(n)
        elif k == "err":
            add(Node(a.p | RD("stderr", "/dev/null"), "err", a.tags, a.runs, a.top))
            nodes[-1].input = a.input
        elif k == "arg":
            if a.size() + b.size() <= 8:
                if a is b: stats["shared"] += 1
                args = [a.p, b.p] if op[3] % 2 else [a.p]
                runs = a.runs + (b.runs if op[3] % 2 else [])
                p = env.cat("-", *args)
                if op[3] % 4 > 1: p = env.cat("-")(*args)
                add(Node(p, "arg", a.tags + (b.tags if op[3] % 2 else []), runs, []))
        elif k == "run":
            how = op[3] % 5
            started(a)
            if how == 0: got = list(a.p)
            elif how == 1: got = bytes(a.p).decode().splitlines()
            elif how == 2: got = str(a.p).splitlines()
            elif how == 3:
                f = ctx.path("o")
                +(a.p > f)
                got = read(f).decode().splitlines()
            else: got = run_(reading(a, 1))
            if sorted(got) != out(a): problems.append("%s: %r gave %r, expected %r" % (what, a.text, sorted(got), out(a)))
        elif k == "both":
            ns = [a, b, a] if op[3] % 2 else [a, b]
            if sum(n.size() for n in ns) <= 16:
                stats["concurrent"] += 1
                for n in ns: started(n)
                async def go(): return await asyncio.gather(*[reading(n, op[3] + i) for i, n in enumerate(ns)])
                for n, got in zip(ns, run_(go())):
                    if sorted(got) != out(n): problems.append("%s: %r, run concurrently, gave %r, expected %r" % (what, n.text, sorted(got), out(n)))
        elif k == "print":
            for t in (repr(a.p), "%s" % [a.p], "%r" % (a.p,), "{!r}".format(a.p)):
                if a.text not in t: problems.append("%s: printed as %r, before as %r" % (what, t, a.text))
            dir(a.p) if not a.cmd else None
        elif k == "show":
            n = [inode, inode2][op[3] % 2]
            started(n)
            stats["shown"] += 1
            sys.displayhook(n.p)
            sys.stdout.flush()
            ienv_out = read(ctx.dir + "/out").decode("utf-8", "replace")
            if ienv_out.count(inode.tags[0] + "\n") != expect[inode.runs[0]]:
                problems.append("%s: the terminal shows %r after %d runs" % (what, ienv_out, expect[inode.runs[0]]))
        seen()
        left = os.listdir(ctx.tmp)
        if left: problems.append("%s: left %d temporary files" % (what, len(left)))
        for n in nodes:
            t = repr(n.p)
            if t != n.text: problems.append("%s: the text of a pipeline changed from %r to %r" % (what, n.text, t))
        if problems: break
    for n in nodes[:] if not problems else []:
        started(n)
        got = list(n.p)
        if sorted(got) != out(n): problems.append("finally %r gave %r, expected %r" % (n.text, sorted(got), out(n)))
        if problems: break
    seen()
    return dict(stats, problems=problems[:4], nodes=len(nodes))


def run_(c): return loop().run_until_complete(c)
