from wlib import *
import keyword, re, subprocess


def slug(name):
    """The identifier for a plain name"""
    s = re.sub("[^a-z0-9]+", "_", name.lower()).strip("_")
    return "n" + s if s[:1].isdigit() else s


def attributes(obj):
    """Names that the object has anyway"""
    res = set(obj.__dict__)
    for c in type(obj).__mro__: res |= set(c.__dict__)
    return res


def offered(obj, is_leaf):
    return [n for n in dir(obj) if n not in attributes(obj)] if not is_leaf else []


class Walk(object):
    def __init__(self, leaf, problems, what):
        self.leaf, self.problems, self.what = leaf, problems, what
        self.found = []

    def names(self, obj, path):
        own = attributes(obj)
        names = [n for n in dir(obj) if n not in own]
        if len(set(names)) != len(names): self.problems.append("%s: %s offers a name twice: %r" % (self.what, path, sorted(names)))
        for n in names:
            if not isinstance(n, str) or not n.isidentifier() or keyword.iskeyword(n):
                self.problems.append("%s: %s offers %r, which is not an attribute name" % (self.what, path, n))
        return names

    def walk(self, obj, path, depth=0):
        if depth > 8:
            self.problems.append("%s: %s is too deep" % (self.what, path))
            return
        for n in self.names(obj, path):
            try: x = getattr(obj, n)
            except Exception as e:
                self.problems.append("%s: %s.%s does not resolve: %s %s" % (self.what, path, n, type(e).__name__, e))
                continue
            if self.leaf(x): self.found.append((path + "." + n, x))
            else: self.walk(x, path + "." + n, depth + 1)


def run(ctx, case):
    pieshell = ctx.pieshell()
    from pieshell.pipeline.function import Function
    from pieshell.pipeline import running
    from pieshell import ps
    env = pieshell.env
    problems = []
    os.environ["PATH"] = ctx.work + "/bin:" + os.environ["PATH"]
    gate = ctx.dir + "/gate"
    gates = []
    for d in ("bin", "bin2"):
        os.mkdir(ctx.work + "/" + d)
    made = set()

    def binary(name, d="bin"):
        p = ctx.work + "/" + d + "/" + name
        if p not in made:
            made.add(p)
            import shutil
            shutil.copy(ctx.probe, p)
        return p

    for s in case["names"]:
        binary(s)
        binary(s, "bin2")

    async def release():
        f = loop().create_future()
        gates.append(f)
        await f

    def function(name, kind):
        async def producer():
            await release()
            yield "x"
        async def filt(stdin):
            async for l in stdin: pass
            await release()
            yield "y"
        async def gen(stdin, *a, **kw):
            await release()
            yield "z"
        f = filt if kind != "gen" else gen
        f.__name__ = name
        f.__qualname__ = name
        if kind == "module": f.__module__ = "other_mod"
        if kind == "nomodule": f.__module__ = None
        if kind == "method":
            class Obj(object): pass
            Obj.__name__ = "Obj"
            async def m(self, stdin):
                async for l in stdin: pass
                await release()
                yield "y"
            m.__name__ = name
            import types
            return types.MethodType(m, Obj())
        if kind == "lambda": return lambda stdin: filt(stdin)
        return f

    class It(object):
        def __aiter__(self):
            async def g():
                await release()
                yield "i"
            return g()

    parts = []

    def arguments(s):
        res = []
        for a in s["args"]:
            if isinstance(a, dict): res.append({k: v for k, v in a.items()})
            else: res.append(a)
        return res

    def command(s):
        name = case["names"][s["bin"] % len(case["names"])]
        parts.append(["cmd", name])
        if s["path"]: arg0 = ctx.work + "/bin%s/%s" % ("2" if s["path"] == 2 else "", name)
        else: arg0 = name
        c = env._(arg0)
        c._arg = [arg0]
        for a in s["args"]:
            c = c(**a) if isinstance(a, dict) else c(a) if not a.startswith(".") else getattr(c, a[1:])
        c = c("r", "u:" + gate)
        if s["sub"]:
            c = c(pipeline(s["sub"]), "--in")
        return c

    def stage(s, first):
        if s["kind"] == "cmd": return command(s)
        if s["kind"] == "iter":
            parts.append(["iter", None])
            return Function(env, It())
        f = function(s["name"], s["fn"])
        parts.append(["fn", None if s["fn"] == "lambda" else s["name"]])
        return Function(env, f)

    def pipeline(spec):
        p = None
        for g in spec:
            q = None
            for i, s in enumerate(g):
                x = stage(s, i == 0)
                q = x if q is None else q | x
            p = q if p is None else p + q
        return p

    p = pipeline(case["pipe"])
    rp = p.run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
    if len(rp.processes) != len(parts): problems.append("%d processes for %d parts" % (len(rp.processes), len(parts)))
    is_item = lambda x: isinstance(x, running.BaseRunningItem)
    spin(0.003)
    if case["state"] == "mixed":
        # Some have ended
        for x in rp.processes[::2]:
            if hasattr(x.__class__, "pid") or "iohandler" in x.__dict__ and hasattr(x.iohandler, "pid"): os.kill(x.iohandler.pid, signal.SIGKILL)
        wait_until(lambda: len(rp.running_processes) < len(rp.processes), 5)

    def look(what):
        w = Walk(is_item, problems, what)
        w.walk(rp, "rp")
        n = {}
        for path, x in w.found: n.setdefault(id(x), []).append(path)
        for x in rp.processes:
            if id(x) not in n: problems.append("%s: %r is not reachable, the names are %r" % (what, str(repr(x.cmd))[:200], [q for q, y in w.found]))
            elif len(n[id(x)]) > 1: problems.append("%s: %r is reachable as %r" % (what, repr(x.cmd)[:200], n[id(x)]))
            else: n.pop(id(x), None)
        for k, v in n.items():
            if k not in [id(x) for x in rp.processes]: problems.append("%s: %r is none of the pipeline's processes" % (what, v))
        # By name
        names = [slug(x[1]) if x[1] is not None else None for x in parts]
        for kind, name in parts:
            if name is None or not re.match(r"^[A-Za-z0-9]([-._A-Za-z0-9]*[A-Za-z0-9])?$", name): continue
            if any(x[1] is not None and not x[1].isascii() for x in parts): continue
            s = slug(name)
            if keyword.iskeyword(s) or s in attributes(rp) or names.count(s) > 1 or None in names: continue
            try: x = getattr(rp, s)
            except AttributeError:
                problems.append("%s: %s is not reachable as %s, the names are %r" % (what, name, s, [q for q, y in w.found]))
                continue
            if not is_item(x): problems.append("%s: %s is %r" % (what, s, x))
            elif kind == "cmd":
                if os.path.basename(x.cmd._arg[0]) != name: problems.append("%s: %s is %r" % (what, s, x.cmd))
                if what == "running":
                    wait_until(lambda: b"zygote.py" not in read("/proc/%d/cmdline" % x.iohandler.pid, b""))
                    argv = read("/proc/%d/cmdline" % x.iohandler.pid, b"")
                    if argv and os.path.basename(argv.split(b"\0")[0].decode()) != name: problems.append("%s: %s has the command line %r" % (what, s, argv))
            elif x.cmd._function_name().split(".")[-1] != name: problems.append("%s: %s is %r" % (what, s, x.cmd))
    look("running")
    # Processes started by a process
    root = ps.PstreeProcess(os.getpid())
    kids = []
    for k in case["kids"]:
        name = case["names"][k["bin"] % len(case["names"])]
        path = ctx.work + "/bin%s/%s" % ("2" if k["dir"] else "", name)
        q = subprocess.Popen([k["argv0"] or name] + k["args"] + ["u:" + gate], executable=path, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        if k["zombie"]:
            q.kill()
            while proc_state(q.pid) != 'Z': time.sleep(0.001)
        kids.append((name, q, k))
    if kids and case["kids"][0]["under"]:
        # The children of a process of a pipeline
        sh = env.sh("-c", "".join('%s/bin/%s "$@" & ' % (ctx.work, "'" + case["names"][k["bin"] % len(case["names"])] + "'") for k in case["kids"]) + "echo started > '%s'; wait" % (ctx.dir + "/started"), "x", "u:" + gate)
        rp2 = sh.run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
        wait_until(lambda: read(ctx.dir + "/started"))
        shp = rp2.sh
        wanted = lambda: sorted(x for x in subpids(shp.iohandler.pid))
        # until each has exec'ed
        wait_until(lambda: all(b"/bin/" in (read("/proc/%d/cmdline" % x) or b"") and not (read("/proc/%d/cmdline" % x) or b"").startswith(b"sh\0") for x in wanted()))
        pstree(ps, shp, wanted(), problems, "children of sh", [(case["names"][k["bin"] % len(case["names"])], None) for k in case["kids"]])
    else: rp2 = None
    if kids:
        pids = child_pids()
        pstree(ps, root, sorted(pids), problems, "children of this process", None)
        for name, q, k in kids:
            if q.pid not in pids: continue # pieshell may have waited for it
            y = ps.PstreeProcess(q.pid)
            if y.PARENT.INFO.pid != os.getpid(): problems.append("PARENT is %r" % y.PARENT.INFO)
            if y.GROUP.INFO.pid != os.getpgid(q.pid) or y.SESS.INFO.pid != os.getsid(q.pid): problems.append("GROUP or SESS")
    # All end
    ctx_open = open(gate, "wb")
    ctx_open.close()
    done = lambda: not rp.is_running and (rp2 is None or not rp2.is_running)
    t = time.monotonic()
    while not done() and time.monotonic() - t < 10:
        for f in gates[:]:
            if not f.done(): f.set_result(None)
        spin(0.002)
    if not done(): problems.append("the pipeline does not end: %r" % [(repr(x.cmd), proc_state(x.iohandler.pid)) for y in (rp, rp2) if y for x in y.running_processes])
    look("finished")
    for name, q, k in kids:
        q.kill()
        q.wait()
    return {"problems": problems[:4], "n": len(parts), "found": len(rp.processes)}


def subpids(pid):
    try: return [int(x) for x in read("/proc/%d/task/%d/children" % (pid, pid), b"").split()]
    except OSError: return []


def pstree(ps, obj, pids, problems, what, kids):
    w = Walk(lambda x: isinstance(x, ps.PstreeProcess), problems, what)
    w.walk(obj, "p")
    got = sorted(x.INFO.pid for q, x in w.found)
    if got != pids: problems.append("%s: the names %r reach %r, the processes are %r" % (what, [q for q, x in w.found], got, pids))
    exe = {}
    for pid in pids:
        try: exe[pid] = os.path.basename(os.readlink("/proc/%d/exe" % pid))
        except OSError: exe[pid] = None
    names = [slug(n) if n is not None else None for n in exe.values()]
    for pid, n in exe.items():
        if n is None or not re.match(r"^[A-Za-z0-9]([-._A-Za-z0-9]*[A-Za-z0-9])?$", n) or not all(m is None or m.isascii() for m in exe.values()): continue
        s = slug(n)
        if names.count(s) > 1 or keyword.iskeyword(s) or s in attributes(obj): continue
        try:
            x = getattr(obj, s)
            if x.INFO.pid != pid: problems.append("%s: %s is %r, not %d" % (what, s, x, pid))
        except AttributeError as e: problems.append("%s: %d is not reachable as %s, the names are %r" % (what, pid, s, [q for q, y in w.found]))
