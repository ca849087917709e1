from wlib import *
import re, shutil
from w22 import slug, attributes, Walk


def stat(pid):
    """state, parent, group, session"""
    s = read("/proc/%d/stat" % pid, b"").decode("utf-8", "replace")
    if not s: return None
    f = s[s.rindex(")") + 2:].split()
    return f[0], int(f[1]), int(f[2]), int(f[3])


def children(pid):
    try: tasks = os.listdir("/proc/%d/task" % pid)
    except OSError: return []
    return sorted(int(x) for t in tasks for x in read("/proc/%d/task/%s/children" % (pid, t), b"").split())


def run(ctx, case):
    pieshell = ctx.pieshell()
    import psutil
    from pieshell import ps
    problems, states, kinds = [], set(), set()
    gate = ctx.dir + "/gate"
    procs = []          # every process of the trees: number, specification

    def binary(name):
        p = "%s/bin/%s" % (ctx.work, name)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copy(ctx.probe, p)
        return p

    def number(t):
        t["n"] = len(procs)
        procs.append(t)
        binary(t["name"])
        for k in t["kids"]: number(k)

    def argv(t): return t["args"] + ["T:%d" % t["threads"], "t:%s/ready-%d" % (ctx.dir, t["n"]), "u:" + gate]

    def spawn(t):
        pid = os.fork()
        if pid: return pid
        try:
            if t["leads"] == "session": os.setsid()
            elif t["leads"] == "group": os.setpgid(0, 0)
            n = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2): os.dup2(n, fd)
            for k in t["kids"]: spawn(k)
            os.execv(binary(t["name"]), [t["name"]] + argv(t))
        finally:
            os._exit(127)

    sys.stdout.flush()
    for t in case["trees"]: number(t)
    for t in case["trees"]: spawn(t)
    ready = lambda t: (read("%s/ready-%d" % (ctx.dir, t["n"])) or b"").endswith(b"\n")
    pipe = []
    rp = None
    for t in case["pipe"]:
        t["n"] = len(procs) + len(pipe)
        pipe.append(t)
        c = pieshell.env._(pieshell.R(binary(t["name"])), *[pieshell.R(a) for a in argv(t)])
        rp = c if rp is None else rp | c
    if rp is not None: rp = rp.run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
    if not wait_until(lambda: all(ready(t) for t in procs + pipe)): return {"problems": ["processes do not start"], "n": 0, "states": [], "kinds": []}
    pids = [int(read("%s/ready-%d" % (ctx.dir, t["n"])).split()[0]) for t in procs]
    objects = {}

    def attempt(what, f, *may):
        try: return f()
        except Exception as e:
            if not isinstance(e, may): problems.append("%s: %s: %s" % (what, type(e).__name__, str(e)[:200]))
            return Ellipsis

    def expect(what, got, want):
        if got is not Ellipsis and got != want: problems.append("%s: %r, expected %r" % (what, got, want))

    def look(o, pid, what, item=False):
        """o denotes the process pid, which exists"""
        st = stat(pid)
        if st is None: return
        state, ppid, pgid, sid = st
        states.add({"Z": "zombie", "T": "stopped"}.get(state, "runs"))
        direct = psutil.Process(pid)
        info = o.details.INFO if item else o.INFO
        own = set(dir(o)) if not item else set()   # its children are offered in place of them
        cmdline = [x.decode("utf-8", "surrogateescape") for x in read("/proc/%d/cmdline" % pid, b"").split(b"\0")[:-1]]
        if state == "Z": cmdline = None
        expect(what + ".INFO.pid", info.pid, pid)
        for m, want in (("pid", pid), ("ppid", ppid), ("cmdline", cmdline), ("num_threads", direct.num_threads()), ("create_time", direct.create_time()), ("name", direct.name()), ("status", direct.status()), ("username", direct.username()), ("is_running", True)):
            if m in own or want is None or item and m == "is_running" or state == "Z" and m == "num_threads": continue
            got = attempt("%s.%s" % (what, m), lambda: getattr(o, m))
            if got is not Ellipsis and m != "pid": got = attempt("%s.%s()" % (what, m), got)
            if m == "status" and got is not Ellipsis and state not in "ZT": got, want = got in ("zombie", "stopped"), False
            expect("%s.%s" % (what, m), got, want)
        for m, want in (("PARENT", ppid), ("GROUP", pgid), ("SESS", sid)):
            if want == 0:
                if m == "PARENT" and pid == 1: expect("%s.PARENT" % what, attempt("%s.PARENT" % what, lambda: o.PARENT), None)
                continue
            if stat(want) is None: continue     # it has ended
            kinds.add(m)
            x = attempt("%s.%s" % (what, m), lambda: getattr(o, m))
            if x is Ellipsis: continue
            if not isinstance(x, ps.PstreeProcess): problems.append("%s.%s is %r" % (what, m, x))
            elif x.INFO.pid != want and stat(pid) == st: problems.append("%s.%s is process %d, expected %d" % (what, m, x.INFO.pid, want))
        if not item:
            tasks = sorted(int(x) for x in os.listdir("/proc/%d/task" % pid)) if pid != 1 and state != "Z" else None
            if tasks is not None:
                expect("len(%s)" % what, attempt("len(%s)" % what, lambda: len(o)), len(tasks))
                expect("the threads of %s" % what, attempt("the threads of %s" % what, lambda: sorted(t.id for t in o)), tasks)
                expect("the threads of %s by index" % what, attempt("the threads of %s by index" % what, lambda: sorted(o[i].id for i in range(len(o)))), tasks)
                if len(tasks) > 1: kinds.add("threads")
            show(o, pid, what, cmdline)
            kids = children(pid)
            if pid != 1:
                kinds.add("children" if kids else "no children")
                w = Walk(lambda x: isinstance(x, ps.PstreeProcess), problems, what)
                try: w.walk(o, "p")
                except Exception as e: problems.append("the children of %s: %r" % (what, e))
                if kids == children(pid): expect("the children of %s, as %r" % (what, [q for q, x in w.found]), sorted(x.INFO.pid for q, x in w.found), sorted(kids))

    def show(o, pid, what, cmdline):
        text = attempt("repr of " + what, lambda: repr(o))
        if text is Ellipsis: return
        if not re.search(r"\b%d$" % pid, text): problems.append("%s is shown as %r, its pid is %d" % (what, text, pid))
        for k, a in enumerate(cmdline or []):
            # Of an option given several times only the last is shown
            if a.startswith("--") and "=" in a and any(b.startswith(a.split("=")[0] + "=") for b in cmdline[k + 1:]): continue
            if a not in text and repr(a) not in text and a[2:] not in text: problems.append("%s is shown as %r, its arguments are %r" % (what, text, cmdline))

    def everything(when):
        for t, pid in zip(procs, pids):
            if stat(pid) is None: continue
            if when == "first": objects[pid] = ps.PstreeProcess(pid)
            look(objects[pid], pid, "%s process %d (%s)" % (when, t["n"], t["name"]))
            look(ps.PstreeProcess(pid), pid, "%s new object of process %d (%s)" % (when, t["n"], t["name"]))
        if rp is not None:
            for t, x in zip(pipe, rp.processes):
                if x.is_running: look(x, x.pid, "%s part %d (%s) of the pipeline" % (when, t["n"], t["name"]), True)
        look(ps.CURRENT, os.getpid(), when + " CURRENT")
        look(ps.INIT, 1, when + " INIT")
        users(when)

    def users(when):
        import collections
        S = collections.namedtuple("suser", "name terminal host started pid")
        logins = []
        for i, (name, host, k) in enumerate(case["logins"]):
            pid = pids[k] if k < len(pids) else 4000000 + i    # there is no such process
            logins.append(S(name, "pts/%d" % i, host, 100.0 + i, pid))
        before, psutil.users = psutil.users, lambda: list(logins)
        try:
            here = [l for l in logins if stat(l.pid) is not None]
            if len(here) != len(logins): kinds.add("stale login")
            leaf = lambda x: isinstance(x, ps.PstreeLogin)
            w = Walk(leaf, problems, when + " USERS")
            try: w.walk(ps.USERS, "USERS")
            except Exception as e:
                problems.append("%s USERS, with %r: %r" % (when, logins, e))
                return
            found = sorted(x.details for q, x in w.found) if all(l.host is not None for l in here) else sorted((x.details for q, x in w.found), key=str)
            expect("%s USERS, as %r" % (when, [q for q, x in w.found]), found, sorted(here) if all(l.host is not None for l in here) else sorted(here, key=str))
            for q, x in w.found:
                l = x.details
                if x.process.INFO.pid != l.pid or x.host != l.host or x.started != l.started: problems.append("%s %s is %r" % (when, q, (x.process.INFO.pid, x.host, x.started)))
                text = repr(x)
                if str(l) not in text or not text.endswith(" %d" % l.pid): problems.append("%s %s is shown as %r" % (when, q, text))
                look(x.process, l.pid, "%s %s" % (when, q))
                if x.PARENT.INFO.pid != stat(l.pid)[1]: problems.append("%s %s.PARENT" % (when, q))
            for l in here:
                same = [m for m in here if slug(m.name) == slug(l.name)]
                if not l.name.isascii(): continue
                x = attempt("USERS.%s" % l.name, lambda: getattr(ps.USERS, slug(l.name)))
                if len(same) > 1:
                    if not l.host: continue
                    y = x
                    x = attempt("USERS.%s.%s" % (l.name, l.host), lambda: getattr(y, slug(l.host)))
                    kinds.add("login by host")
                    same = [m for m in same if slug(m.host) == slug(l.host)]
                    if len(same) > 1 and x is not Ellipsis:
                        import keyword
                        named = procs[pids.index(l.pid)]["name"]
                        if not named.isascii() or keyword.iskeyword(named) or not slug(named): continue
                        prog = lambda l: slug(procs[pids.index(l.pid)]["name"])
                        if any(stat(m.pid)[0] == "Z" for m in same) or [prog(m) for m in same].count(prog(l)) > 1: continue
                        z = x
                        x = attempt("USERS.%s.%s.%s" % (l.name, l.host, prog(l)), lambda: getattr(z, prog(l)))
                        kinds.add("login by program")
                if x is not Ellipsis and not (leaf(x) and x.details == l): problems.append("%s USERS.%s is %r" % (when, slug(l.name), x))
        finally:
            psutil.users = before

    everything("first")
    # Some end or stop
    for t, pid in reversed(list(zip(procs, pids))):
        if t["n"] == 0 or t in case["trees"]: continue      # pieshell reaps the children of this process
        if t["then"] == "stop": os.kill(pid, signal.SIGSTOP)
        elif t["then"] == "kill": os.kill(pid, signal.SIGKILL)
    time.sleep(0.002)
    for t, pid in zip(procs, pids):
        if t["n"] == 0 or t in case["trees"] or not t["then"]: continue
        end = time.monotonic() + 5
        while time.monotonic() < end and stat(pid) is not None and stat(pid)[0] not in "ZT": time.sleep(0.001)
    if not problems: everything("then")
    # All end
    open(gate, "w").close()
    for pid in pids:
        if stat(pid) is not None and stat(pid)[0] == "T": os.kill(pid, signal.SIGKILL)
    roots = set(pids[t["n"]] for t in case["trees"])

    def over():
        for pid in list(roots):
            try:
                if os.waitpid(pid, os.WNOHANG)[0]: roots.discard(pid)
            except ChildProcessError: roots.discard(pid)    # pieshell was first
        return not roots and all(stat(pid) is None or stat(pid)[0] == "Z" for pid in pids)
    wait_until(over, 10)
    for t, pid in zip(procs, pids):
        if stat(pid) is not None: continue
        o = objects[pid]
        what = "ended process %d" % t["n"]
        kinds.add("ended")
        show(o, pid, what, None)
        expect(what + ".INFO.is_running()", o.INFO.is_running(), False)
    users("last")
    return {"problems": problems[:4], "n": len(procs) + len(pipe), "states": sorted(states), "kinds": sorted(kinds)}
