from wlib import *
import resource


class Boom(Exception): pass


def status(path):
    text = (read(path) or b"").decode()
    res = {}
    for l in text.splitlines():
        k, v = l.split(":", 1)
        if k in ("SigBlk", "SigIgn"): res[k] = {i + 1 for i in range(64) if int(v, 16) >> i & 1}
        elif k in ("Umask", "Uid", "Gid"): res[k] = v.strip()
    return res


def run(ctx, case):
    handled = []
    # What whoever starts the shell has set up
    for s in case["ignored"]: signal.signal(s, signal.SIG_IGN)
    for s in case["handled"]:
        if s not in case["ignored"]: signal.signal(s, lambda *a: handled.append(a))
    signal.pthread_sigmask(signal.SIG_BLOCK, case["blocked"])
    os.umask(case["umask"])
    if case["nofile"]: resource.setrlimit(resource.RLIMIT_NOFILE, (case["nofile"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    mine = read("/proc/self/limits")
    nice = os.nice(0)
    pieshell = ctx.pieshell()
    from pieshell.pipeline.function import Function
    env = pieshell.env(interactive=case["interactive"])
    R = pieshell.environ.R
    problems = []
    n = [0]
    kinds = {}

    def cmd(s, first):
        n[0] += 1
        f = ctx.dir + "/st%d" % n[0]
        # An argument is what a file of this pipeline is named by
        args = [R("O:/proc/self/status:" + f + ".status"), R("O:/proc/self/limits:" + f + ".limits"), R("O:/proc/self/stat:" + f + ".stat"), R("O:/proc/self/oom_score_adj:" + f + ".oom")]
        if not first: args.append("i")
        args.append("w:1:" + b"x\n".hex())
        k = kinds[n[0]] = s["kind"]
        if k == "cmd": return env._(ctx.probe, *args)
        if k == "sh": return env.sh("-c", R('"$@"'), "sh", ctx.probe, *args)
        if k == "arg": return env._(ctx.probe, env._(ctx.probe, *(args if first else args[:4] + args[5:])), R("F:1:r:" + f + ".arg"), "r")
        if k == "subshell": return env.subshell(env._(ctx.probe, *args))
        if k == "fn":
            async def f(stdin):
                if not first:
                    async for l in stdin: yield l
                async for l in env._(ctx.probe, *(args if first else args[:4] + args[5:])): yield l
            return Function(env, f)
        if k == "redir":
            return env._(ctx.probe, *args) > ctx.path("out")
        raise ValueError(k)
    p = None
    for g in case["groups"]:
        q = None
        for i, s in enumerate(g):
            x = cmd(s, i == 0)
            q = x if q is None else q | x
        p = q if p is None else p + q
    how = case["how"]
    if how == "run":
        rp = p.run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
        loop().run_until_complete(rp.wait())
    elif how == "during":
        # While another one is waited for
        async def both():
            a = env._(ctx.probe, "u:" + ctx.dir + "/gate").run([pieshell.Redirect("stdin", "/dev/null")])
            t = loop().create_task(a.wait())
            await asyncio.sleep(0.01)
            rp = p.run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
            await rp.wait()
            open(ctx.dir + "/gate", "w").close()
            await t
        loop().run_until_complete(both())
    elif how == "await":
        async def a(): await (env.cat("/dev/null") + p > "/dev/null")
        loop().run_until_complete(a())
    else: list(p)
    # TSTP: pieshell keeps it from its commands, it stops them itself
    blocked = set(int(s) for s in case["blocked"])
    ignored = set(int(s) for s in case["ignored"])
    seen = 0
    for i in range(1, n[0] + 1):
        f = ctx.dir + "/st%d" % i
        st = status(f + ".status")
        if not st:
            problems.append("command %d did not run" % i)
            continue
        seen += 1
        # sh unblocks all signals
        if kinds[i] != "sh" and st["SigBlk"] - {signal.SIGTSTP} != blocked - {signal.SIGTSTP}: problems.append("command %d has signals %r blocked, expected %r" % (i, sorted(st["SigBlk"]), sorted(blocked)))
        if st["SigIgn"] != ignored: problems.append("command %d has signals %r ignored, expected %r" % (i, sorted(st["SigIgn"]), sorted(ignored)))
        if int(st["Umask"], 8) != case["umask"]: problems.append("command %d has umask %s" % (i, st["Umask"]))
        if read(f + ".limits") != mine: problems.append("limits of command %d: %r, expected %r" % (i, read(f + ".limits"), mine))
        stat = (read(f + ".stat") or b"").decode()
        pgid, sid = [int(x) for x in stat[stat.rindex(")") + 2:].split()[2:4]]
        if int(stat[stat.rindex(")") + 2:].split()[16]) != nice: problems.append("command %d has priority %s" % (i, stat))
        if pgid != os.getpgid(0) or sid != os.getsid(0): problems.append("command %d is in process group %d, session %d" % (i, pgid, sid))
    # A command whose reader has gone ends, and can wait for its own children
    b = case["behave"]
    if b == "pipe" and signal.SIGPIPE not in ignored and signal.SIGPIPE not in blocked:
        rp = (env.sh("-c", R("while :; do echo y; done")) | env.head("-n", "2")).run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
        if not wait_until(lambda: not rp.is_running, 8):
            problems.append("a command that writes to a pipe nobody reads any more does not end")
            for x in rp.running_processes: os.kill(x.iohandler.pid, 9)
    elif b == "wait" and signal.SIGCHLD not in blocked:
        rp = env.sh("-c", R("sleep 0.01 & wait; trap 'exit 7' CHLD; sleep 0.01 & wait; exit 8")).run([pieshell.Redirect("stdin", "/dev/null"), pieshell.Redirect("stdout", "/dev/null")])
        if not wait_until(lambda: not rp.is_running, 8):
            problems.append("a shell that waits for its children does not end")
            for x in rp.running_processes: os.kill(x.iohandler.pid, 9)
    return {"problems": problems[:4], "n": seen}
