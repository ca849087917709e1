from wlib import *


class Boom(Exception): pass


class World(object):
    def __init__(self, ctx, pieshell, env):
        self.ctx, self.pieshell, self.env = ctx, pieshell, env
        self.R = pieshell.R
        self.Function = pieshell.pipeline.function.Function
        self.gates = {}

    def command(self, s, key, out):
        a = ["k" + key]
        if not s["fast"]: a.append(self.R("u:%s/gate-%s" % (self.ctx.dir, key)))
        if out and s["early"]: a.insert(1, "w:1:%s0a" % out.encode().hex())
        elif out: a.append("w:1:%s0a" % out.encode().hex())
        if s["end"][0] == "exit": a.append("x:%d" % s["end"][1])
        elif s["end"][0] == "kill": a.append("k:%d" % s["end"][1])
        return self.env._(self.ctx.probe, *a)

    def function(self, s, key, out):
        gate = self.gates[key] = loop().create_future()
        async def gen(stdin):
            if out and s["early"]: yield out
            if not s["fast"]: await asyncio.shield(gate)
            if out and not s["early"]: yield out
            if s["end"][0] == "raise": raise Boom(key)
        if s["fkind"] == "coro" and not out:
            async def coro(stdin):
                if not s["fast"]: await asyncio.shield(gate)
                if s["end"][0] == "raise": raise Boom(key)
            return coro
        if s["fkind"] == "slow":
            # None means that there is no output yet
            async def none(stdin):
                if out and s["early"]: yield out
                while not s["fast"] and not gate.done():
                    await asyncio.sleep(0.001)
                    yield None
                if out and not s["early"]: yield out
                if s["end"][0] == "raise": raise Boom(key)
            return none
        return gen

    def part(self, s, key, out):
        return self.command(s, key, out) if s["kind"] == "cmd" else self.function(s, key, out)

    def pipeline(self, spec, n):
        p, i = None, 0
        for group in spec["groups"]:
            q = None
            for j, s in enumerate(group):
                s["key"] = "%d_%d" % (n, i)
                x = self.part(s, s["key"], "out" + s["key"] if s["kind"] and j == len(group) - 1 else None)
                if j == 0 and s["kind"] == "fn": x = self.Function(self.env, x)
                q = x if q is None else q | x
                i += 1
            # A builtin that starts nothing, and so has no output to read
            if spec["zero"] and spec["reader"] == "none": q = self.env._("cd", ".") + q
            p = q if p is None else p + q
        return p


def run(ctx, case):
    pieshell = ctx.pieshell()
    env = pieshell.env
    PF = pieshell.pipeline.running.PipelineFailed
    w = World(ctx, pieshell, env)
    problems = []
    pipes = []
    tasks = []
    done_at = []
    n = [0]
    for pi, spec in enumerate(case["pipes"]):
        p = w.pipeline(spec, pi)
        parts = [s for g in spec["groups"] for s in g]
        if p is None: p = env._("cd", ".")
        pipes.append({"spec": spec, "parts": parts, "p": p, "rp": None, "reader": False, "left": {s["key"] for s in parts if not s["fast"]}, "start": spec["start"]})

    def where(s):
        return "step %d (%s)" % (n[0], json.dumps(s))

    def start(P):
        rd = P["spec"]["reader"]
        kw = {"none": [pieshell.Redirect("stdout", "/dev/null")]}.get(rd, [pieshell.Redirect("stdout", pieshell.PIPE)])
        P["rp"] = P["p"].run(kw)
        P["procs"] = {}
        for x in P["rp"].processes:
            if type(x).__name__ == "RunningProcess":
                P["procs"][x.cmd._arg[1][1:]] = x
        fns = [x for x in P["rp"].processes if type(x).__name__ == "RunningFunction"]
        for s, x in zip([s for s in P["parts"] if s["kind"] == "fn"], fns): P["procs"][s["key"]] = x
        if len(P["rp"].processes) != len(P["parts"]): problems.append("%d processes for %d parts" % (len(P["rp"].processes), len(P["parts"])))
        if rd != "none" and P["parts"]: waiter(P, rd)
    lines = {}

    def waiter(P, kind):
        rp, k = P["rp"], len(tasks)
        async def body():
            if kind == "await": await rp
            elif kind == "wait": await rp.wait()
            elif kind == "lines":
                l = lines.setdefault(k, [])
                async for x in rp: l.append(x)
            elif kind == "bytes":
                l = lines.setdefault(k, [])
                async for x in rp.iterbytes(): l.append(x.decode())
            elif kind == "fg": await env._("fg", rp)
            elif kind == "gather": await asyncio.gather(rp.wait(), rp.wait())
            elif kind == "timeout": await asyncio.wait_for(rp.wait(), 50)
        t = loop().create_task(body())
        tasks.append({"t": t, "P": P, "kind": kind, "cancelled": False})

    def alive(key, P):
        x = P["procs"][key]
        if type(x).__name__ == "RunningProcess": return proc_state(x.pid) in ("R", "S", "D", "T", "t")
        return True

    def check(what):
        for P in pipes:
            if P["rp"] is None: continue
            for key in P["left"]:
                if key in P["procs"] and not P["procs"][key].is_running:
                    problems.append("%s: part %s, which has not ended, is reported as not running" % (what, key))
            run_ = P["rp"].is_running
            if P["left"] and not run_: problems.append("%s: the pipeline is reported as not running, but %r have not ended" % (what, sorted(P["left"])))
            if P["left"] and P["rp"] not in env.running_pipelines: problems.append("%s: the pipeline is not listed as running, but %r have not ended" % (what, sorted(P["left"])))
            if P["left"]:
                for T in tasks:
                    if T["P"] is P and T["t"].done() and not T["cancelled"]:
                        problems.append("%s: a waiter (%s) returned, but %r have not ended: %r" % (what, T["kind"], sorted(P["left"]), T["t"]))

    def end(P, key, how):
        if key not in P["left"]: return
        P["left"].discard(key)
        x = P["procs"].get(key)
        s = next(s for s in P["parts"] if s["key"] == key)
        if s["kind"] == "cmd":
            if how and how != "gate":
                s["end"] = ["kill", how]
                s["killed"] = True
                os.kill(x.pid, how)
            else: ctx_store(ctx.dir + "/gate-" + key)
        else: w.gates[key].set_result(None)

    def cpart(P, i):
        return P["parts"][i % len(P["parts"])]["key"] if P["parts"] else None
    for P in pipes:
        if P["start"] == "first": start(P)
    for op in case["ops"]:
        n[0] += 1
        k = op[0]
        P = pipes[op[1] % len(pipes)]
        if P["rp"] is None and k != "spin":
            start(P)
        if k == "wait": waiter(P, op[2])
        elif k == "cancel":
            mine = [T for T in tasks if T["P"] is P and not T["t"].done()]
            if mine:
                T = mine[op[2] % len(mine)]
                T["t"].cancel()
                T["cancelled"] = True
                if T["kind"] in ("lines", "bytes"): T["kind"] += " "
        elif k == "end":
            keys = [cpart(P, i) for i in op[2]]
            keys = [x for x in keys if x is not None and x in P["left"]]
            for x in keys: end(P, x, op[3])
            if op[4] == "block": time.sleep(0.03)   # the events pile up
            elif op[4] == "see":
                for x in keys:
                    if not wait_until(lambda: not P["procs"][x].is_running): problems.append("%s: part %s has ended (%r), but is still reported as running" % (where(op), x, proc_state(P["procs"][x].pid) if hasattr(P["procs"][x], "pid") else None))
        elif k == "stop":
            key = cpart(P, op[2])
            if key in P["left"] and hasattr(P["procs"][key], "pid") and not [T for T in tasks if T["P"] is P]:
                x = P["procs"][key]
                os.kill(x.pid, signal.SIGSTOP)
                wait_until(lambda: proc_state(x.pid) == "T", 5)
                spin(0.003)
                check(where(op) + " stopped")
                os.kill(x.pid, signal.SIGCONT)
        elif k == "spin": spin(op[2] / 1000.0)
        check(where(op))
        if problems: return problems[:5]
    spin(0.002)
    check("before the last parts end")
    order = []
    for P in pipes:
        if P["rp"] is None: start(P)
    check("all started")
    for P in pipes:
        order += [(P, key) for key in sorted(P["left"])]
    if case["rev"]: order.reverse()
    for P, key in order:
        end(P, key, None)
        if case["slow"] == "spin": spin(0.004)
        check("ending " + key)
        if problems: return problems[:5]
    if case["slow"] == "block": time.sleep(0.04)
    for T in tasks:
        if not wait_until(lambda: T["t"].done(), 8):
            problems.append("a waiter (%s) does not return although all parts have ended; parts: %r" % (T["kind"], [(k, x.is_running) for k, x in T["P"]["procs"].items()]))
            return problems[:5]
    for P in pipes:
        if not wait_until(lambda: not P["rp"].is_running, 8): problems.append("the pipeline is still reported as running")
    spin(0.005)
    for P in pipes:
        # a waiter that starts after the end
        k = len(tasks)
        waiter(P, "await")
        if not wait_until(lambda: tasks[k]["t"].done(), 8): problems.append("a waiter started after the end does not return")
    for P in pipes:
        if P["rp"].is_running or P["rp"].running_processes: problems.append("the pipeline is reported as running at the end")
        if not wait_until(lambda: P["rp"] not in env.running_pipelines, 5): problems.append("the pipeline is listed as running at the end")
        for key, x in P["procs"].items():
            if x.is_running: problems.append("part %s is reported as running at the end" % key)
            if hasattr(x, "pid") and proc_state(x.pid) is not None: problems.append("part %s is %r at the end" % (key, proc_state(x.pid)))
    for T in tasks:
        bad = any(s["end"][0] == "raise" or s["end"][0] in ("exit", "kill") and s["end"][1] for s in T["P"]["parts"])
        if not T["t"].done(): continue          # reported above
        if T["t"].cancelled():
            if not T["cancelled"]: problems.append("a waiter (%s) was cancelled by somebody else" % T["kind"])
            continue
        if T["cancelled"]:
            T["t"].exception()
            continue
        e = T["t"].exception()
        if e is not None and not isinstance(e, PF): problems.append("waiter %s: %r" % (T["kind"], e))
        elif (e is not None) != bad: problems.append("waiter (%s) %s, but the parts ended with %r" % (T["kind"], "got " + type(e).__name__ if e else "succeeded", [s["end"] for s in T["P"]["parts"]]))
        elif e is not None and e.pipeline is not T["P"]["rp"] and T["kind"] != "fg": problems.append("waiter %s got the failure of another pipeline" % T["kind"])
        if T["kind"] in ("lines", "bytes"):
            got = sorted("".join(l + "\n" if T["kind"] == "lines" else l for l in lines[tasks.index(T)]).splitlines())
            last = [g[-1] for g in T["P"]["spec"]["groups"] if g]
            want = ["out" + x["key"] for x in last if not x.get("killed")]
            maybe = ["out" + x["key"] for x in last if x.get("killed")]    # it may have been killed before it wrote
            got = [x for x in got if x not in maybe]
            if got != sorted(want): problems.append("the reader got %r, expected %r" % (got, want))
    return problems[:5]


def ctx_store(p):
    with open(p, "wb"): pass
