from wlib import *

STOP, CONT, TERM, KILL, HUP = signal.SIGSTOP, signal.SIGCONT, signal.SIGTERM, signal.SIGKILL, signal.SIGHUP


class Proc(object):
    """What is known about a process: its real state follows from what was done to it"""
    def __init__(self, x, end):
        self.x, self.end = x, end
        self.state = "run"
        self.event = None       # the last change, as (code, status)
        self.vague = False      # changes in quick succession: some of them may not happen
        self.pending = None
        self.gate = False

    def stop(self):
        if self.state == "run": self.state, self.event, self.vague = "stopped", (5, int(STOP)), False

    def cont(self):
        if self.state == "stopped":
            self.state, self.event = "run", (6, int(CONT))
            if self.pending is not None: self.finish(self.pending)

    def finish(self, ev):
        if self.state == "stopped":
            if self.pending is None: self.pending = ev
        elif self.state == "run": self.state, self.event, self.vague = "ended", ev, False

    def kill(self, sig):
        if sig == KILL and self.state != "ended": self.state, self.event, self.vague = "ended", (2, int(KILL)), False
        elif sig == KILL: pass
        elif self.state == "stopped": self.pending = (2, int(sig))   # signals are handled before anything else is done
        else: self.finish((2, int(sig)))


def run(ctx, case):
    pieshell = ctx.pieshell()
    PF = pieshell.pipeline.running.PipelineFailed
    R, RD = pieshell.R, pieshell.Redirect
    env = pieshell.env(interactive=case["interactive"])
    problems, jobs, tasks = [], [], []
    last = [None]
    fn_gates = {}
    stats = {"stops": 0, "conts": 0}

    def start(j):
        spec = case["jobs"][j]
        p = None
        for i, s in enumerate(spec["procs"]):
            key = "%d-%d" % (j, i)
            e = s["end"]
            a = ["k" + key, R("u:%s/gate-%s" % (ctx.dir, key)), "x:%d" % e[1] if e[0] == "exit" else "k:%d" % e[1]]
            q = env._(ctx.probe, *a)
            p = q if p is None else (p | q if spec["shape"] == "pipe" else p + q)
        gate = None
        if spec["fn"]:
            gate = loop().create_future()
            async def f(stdin):
                await asyncio.shield(gate)
                yield "done"
            p = p | f
        p = p | RD("stdout", "/dev/null")
        rp = p.run()
        xs = [x for x in rp.processes if type(x).__name__ == "RunningProcess"]
        job = {"rp": rp, "procs": [Proc(x, (1, s["end"][1]) if s["end"][0] == "exit" else (2, s["end"][1])) for x, s in zip(xs, spec["procs"])], "gate": gate, "spec": spec, "j": j, "waited": False, "fgs": 0}
        jobs.append(job)
        last[0] = job

    def check(what):
        for job in jobs:
            for n, P in enumerate(job["procs"]):
                x = P.x
                real = {"run": ("S", "R", "D"), "stopped": ("T",), "ended": (None,)}[P.state]

                def settled():
                    if P.state == "run" and proc_state(x.pid) in ("S", "R", "D") and not P.vague and P.event is not None: return P.event == event(x)
                    return proc_state(x.pid) in real and (P.vague or event(x) == P.event) and x.is_running == (P.state != "ended")
                ok = wait_until(settled, 6)
                if not ok:
                    problems.append("%s: process %d of job %d should be %s after %r (pending %r); it is %r, the last event is %r, is_running is %r" % (
                        what, n, job["j"], P.state, P.event, P.pending, proc_state(x.pid), event(x), x.is_running))
                if P.vague and P.state != "ended" and x.iohandler.last_event is not None and event(x)[0] not in (5, 6): problems.append("%s: last event %r of a process that has not ended" % (what, event(x)))
                if P.state == "ended":
                    if x.exit_code != P.event[1]: problems.append("%s: exit code %r, expected %r" % (what, x.exit_code, P.event[1]))
            rp = job["rp"]
            alive = [P for P in job["procs"] if P.state != "ended"]
            running = bool(alive) or (job["gate"] is not None and not job["gate"].done())
            if job["gate"] is not None and job["gate"].done() and not alive: wait_until(lambda: not rp.is_running, 5)
            if rp.is_running != running: problems.append("%s: is_running of job %d is %r, expected %r" % (what, job["j"], rp.is_running, running))
            if running and (rp in env.running_pipelines) != running: problems.append("%s: job %d is%s listed as running" % (what, job["j"], "" if rp in env.running_pipelines else " not"))
            got = [x for x in rp.running_processes if hasattr(x, "pid")]
            if got != [P.x for P in alive]: problems.append("%s: running_processes of job %d is %r" % (what, job["j"], got))
            bad = [P.x for P in job["procs"] if P.state == "ended" and P.event[1] != 0]
            if rp.failed_processes != bad: problems.append("%s: failed_processes of job %d is %r, expected %r" % (what, job["j"], rp.failed_processes, bad))
            for T in tasks:
                if T["job"] is job and running and T["t"].done(): problems.append("%s: %s of job %d returned before it ended: %r" % (what, T["kind"], job["j"], T["t"]))

    def event(x):
        e = x.iohandler.last_event
        return None if e is None else (e["ssi_code"], int(e["ssi_status"]))

    def waiter(job, kind):
        async def go():
            if kind == "fg": res = await env._("fg")
            elif kind == "fgrp": res = await env._("fg", job["rp"])
            else:
                await job["rp"].wait()
                res = job["rp"]
            return res
        tasks.append({"t": loop().create_task(go()), "job": job, "kind": kind})
        spin(0)
        spin(0.001)

    start(0)
    for n, op in enumerate(case["ops"]):
        k = op[0]
        what = "step %d %r" % (n, op)
        job = jobs[op[1] % len(jobs)]
        P = job["procs"][op[2] % len(job["procs"])]
        rp = job["rp"]
        if k == "start":
            if len(jobs) < len(case["jobs"]): start(len(jobs))
        elif k == "suspend":
            if not job["waited"]:
                rp.suspend()
                stats["stops"] += 1
                for Q in job["procs"]: Q.stop()
        elif k == "restart":
            rp.restart()
            stats["conts"] += 1
            for Q in job["procs"]: Q.cont()
        elif k == "psuspend":
            P.x.suspend()
            P.stop()
        elif k == "prestart":
            P.x.restart()
            P.cont()
        elif k == "kill":
            if P.state != "ended":
                os.kill(P.x.pid, op[3])
                P.kill(op[3])
        elif k == "ext":
            if P.state != "ended":
                os.kill(P.x.pid, STOP if op[3] % 2 else CONT)
                P.stop() if op[3] % 2 else P.cont()
        elif k == "burst":
            if P.state != "ended" and P.pending is None:
                for s in range(op[3]):
                    os.kill(P.x.pid, STOP if s % 2 == 0 else CONT)
                if op[3] % 2: P.state, P.event = "stopped", (5, int(STOP))
                else:
                    P.state, P.event = "run", None
                    P.vague = True
        elif k == "gate":
            if not P.gate:
                P.gate = True
                with open("%s/gate-%d-%d" % (ctx.dir, job["j"], job["procs"].index(P)), "w"): pass
                P.finish(P.end)
        elif k == "bg":
            +env._("bg")
            stats["conts"] += 1
            for Q in last[0]["procs"]: Q.cont()
        elif k == "bgrp":
            +env._("bg", rp)
            for Q in job["procs"]: Q.cont()
        elif k == "fg":
            job = last[0]
            waiter(job, "fg")
            for Q in job["procs"]: Q.cont()
        elif k == "fgrp":
            waiter(job, "fgrp")
            last[0] = job
            for Q in job["procs"]: Q.cont()
        elif k == "wait":
            job["waited"] = True
            waiter(job, "wait")
            for Q in job["procs"]: Q.cont()
        elif k == "other":
            # A pipeline that starts no process is not what bg and fg are for
            +env._("cd", ".")
        elif k == "gatefn":
            if job["gate"] is not None and not job["gate"].done(): job["gate"].set_result(None)
        check(what)
        if problems: return dict(stats, problems=problems[:4])
    for job in jobs:
        job["rp"].restart()
        for Q in job["procs"]: Q.cont()
        check("continuing all")
        if case["final"]: waiter(job, "fgrp")
        for i, Q in enumerate(job["procs"]):
            if not Q.gate:
                with open("%s/gate-%d-%d" % (ctx.dir, job["j"], i), "w"): pass
                Q.finish(Q.end)
        if job["gate"] is not None and not job["gate"].done(): job["gate"].set_result(None)
        check("ending job %d" % job["j"])
        if problems: return dict(stats, problems=problems[:4])
    for T in tasks:
        if not wait_until(T["t"].done, 6):
            problems.append("%s of job %d does not return although the job has ended" % (T["kind"], T["job"]["j"]))
            continue
        job = T["job"]
        bad = any(Q.event[1] for Q in job["procs"])
        e = T["t"].exception()
        if e is not None and not isinstance(e, PF): problems.append("%s: %r" % (T["kind"], e))
        elif (e is not None) != bad: problems.append("%s of job %d %s, but its processes ended with %r" % (T["kind"], job["j"], "raised PipelineFailed" if e else "succeeded", [Q.event for Q in job["procs"]]))
        else:
            rp = e.pipeline if e else T["t"].result()
            if not job["gate"] and rp.exit_code != job["procs"][-1].event[1]: problems.append("%s of job %d has exit code %r, expected %r" % (T["kind"], job["j"], rp.exit_code, job["procs"][-1].event[1]))
    if not wait_until(lambda: not env.running_pipelines, 5): problems.append("listed as running at the end: %r" % env.running_pipelines)
    return dict(stats, problems=problems[:4])


