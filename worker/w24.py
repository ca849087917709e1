from wlib import *
import subprocess


def run(ctx, case):
    pieshell = ctx.pieshell()
    running = pieshell.pipeline.running
    PF, PI, PS = running.PipelineFailed, running.PipelineInterrupted, running.PipelineSuspended
    from pieshell.pipeline.function import Function
    R, RD = pieshell.R, pieshell.Redirect
    env = pieshell.env(interactive=case["interactive"])
    log = pieshell.log
    problems = []
    jobs = []
    stats = {"signals": 0, "raised": 0}
    me = os.getpid()
    helpers = []

    def part(j, i, s, first, last):
        key = "%d-%d" % (j["n"], i)
        if s["kind"] == "fn":
            async def f(stdin):
                if not first:
                    async for l in stdin: yield l
                yield "pre" + key
                while not os.path.exists(j["gate"]): await asyncio.sleep(0.002)
                yield "post" + key
                if s["end"]: raise ValueError(key)
            return Function(env, f)
        a = ["k" + key]
        if not first: a.append("i")
        a += [R("w:1:" + ("pre%s\n" % key).encode().hex()), R("t:%s/started%d" % (ctx.dir, j["n"])), R("u:" + j["gate"]), R("w:1:" + ("post%s\n" % key).encode().hex()), "x:%d" % s["end"]]
        # Middle parts read all their input before: what comes in arrives when the part before ends
        return env._(ctx.probe, *a)

    def build(spec):
        j = {"n": len(jobs), "spec": spec, "open": False, "killed": False, "rp": None, "stopped": False}
        j["gate"] = ctx.dir + "/gate%d" % j["n"]
        j["out"] = ctx.dir + "/out%d" % j["n"]
        p = None
        for i, s in enumerate(spec["parts"]):
            q = part(j, i, s, i == 0, i == len(spec["parts"]) - 1)
            p = q if p is None else p | q
        if spec["sink"]: p = p | env._(ctx.probe, "R:" + j["out"])
        else: p = p > j["out"]
        j["p"] = p
        want = []
        for i in range(len(spec["parts"])): want += ["pre%d-%d" % (j["n"], i), "post%d-%d" % (j["n"], i)]
        j["want"] = want
        jobs.append(j)
        return j

    def procs(j): return [x for x in j["rp"].processes if type(x).__name__ == "RunningProcess"]

    def send(j, op):
        """Arranges for the signal to arrive while the event loop runs"""
        sig = "INT" if op["sig"] == "int" else "TSTP"
        stats["signals"] += 1
        target = "-%d" % me if op["group"] else str(me)
        gate = j["gate"] if op["race"] else None
        if gate: j["open"] = True
        def kill():
            if op["race"] == 2: open(gate, "w").close()
            os.kill(int(target), getattr(signal, "SIG" + sig)) if not op["group"] else os.killpg(me, getattr(signal, "SIG" + sig))
            if op["race"] == 1: open(gate, "w").close()
            j["sent"] = True
        trigger = ctx.path("trigger")
        if op.get("also"):
            # Tasks in the background await pipelines, that end before the signal is sent
            left = [len(op["also"])]

            async def companion(when, kind):
                e2 = pieshell.env(interactive=kind != "noninteractive")
                gate2 = ctx.path("gate2")
                loop().call_later(0.004, lambda: open(gate2, "w").close())
                try: await e2._(ctx.probe, R("u:" + gate2), *(["x:1"] if kind == "fails" else []))
                except PF: pass
                left[0] -= 1
                if not left[0]: later()
            for when, kind in op["also"]:
                if when == "before": loop().create_task(companion(when, kind))
                else: loop().call_later(0.002, lambda kind=kind: loop().create_task(companion("after", kind)))
            if any(when == "before" for when, kind in op["also"]): spin(0)

            def later(): loop().call_later(op["delay"] / 1000.0, start)
        else:
            def later(): start()

        def start():
            if op["inside"]:
                loop().call_later(op["delay"] / 1000.0, kill)
            else:
                loop().call_later(op["delay"] / 1000.0, lambda: open(trigger, "w").close())
        if not op["inside"]:
            q = subprocess.Popen(["/bin/sh", "-c", 'while ! [ -e %s ]; do sleep 0.002; done; %s kill -s %s -- %s; %s : > %s.sent' % (
                trigger, ": > %s;" % gate if op["race"] == 2 else "", sig, target, ": > %s;" % gate if op["race"] == 1 else "", trigger)], stdin=subprocess.DEVNULL, start_new_session=True)
            helpers.append(q)
            j["trigger"] = trigger
        if not op.get("also"): start()

    def arrived(j):
        """Until the signal certainly has"""
        end = time.monotonic() + 10
        while time.monotonic() < end:
            try:
                if j.pop("sent", None) or "trigger" in j and os.path.exists(j["trigger"] + ".sent"):
                    j.pop("trigger", None)
                    spin(0.003)
                    return
                spin(0.002)
            except KeyboardInterrupt:
                j["late"] = True
        problems.append("harness: no signal was sent")

    def wait(j, how):
        """Waits for the pipeline, in the foreground. Returns what was raised"""
        try:
            if how == "plus":
                j["rp"] = +j["p"]
            elif how == "await":
                async def go(): j["rp"] = await j["p"]
                run_(go())
            elif how == "repr":
                # What the console does: shows what happened
                before = env.__dict__.get("last_pipeline")
                sys.displayhook(j['p'])
                j["rp"] = env.last_pipeline
                return "shown"
            elif how == "wait": run_(j["rp"].wait())
            elif how == "awaitrp":
                async def go(): await j["rp"]
                run_(go())
            elif how == "fg": +env._("fg", j["rp"])
            elif how == "fglast": +env._("fg")
            elif how == "bgwait":
                env._("bg", j["rp"]).run()
                run_(j["rp"].wait())
            elif how == "restartwait":
                j["rp"].restart()
                run_(j["rp"].wait())
            return "ok"
        except (PI, PS, PF) as e:
            if how in ("plus", "await"): j["rp"] = e.pipeline
            elif how not in ("fg", "fglast") and e.pipeline is not j["rp"]: problems.append("the exception has the pipeline %r" % (e.pipeline,))
            return type(e).__name__
        except KeyboardInterrupt:
            return "KeyboardInterrupt"

    def run_(c): return loop().run_until_complete(c)

    def states(j, what, wanted):
        for x in procs(j):
            ok = wait_until(lambda: proc_state(x.pid) in wanted, 3)
            if not ok: problems.append("%s: process %r is in state %r" % (what, repr(x.cmd)[-60:], proc_state(x.pid)))
    bg = None
    if case["bg"]:
        # One in the background all the time
        bg = build({"parts": [{"kind": "cmd", "end": 0}, {"kind": "fn", "end": 0}], "sink": False})
        bg["rp"] = bg["p"].run()
    for ri, spec in enumerate(case["rounds"]):
        j = build(spec)
        what = "round %d" % ri
        how = spec["start"]
        if how in ("wait", "awaitrp"): j["rp"] = j["p"].run()
        k = -1
        finished = False
        for k, op in enumerate(spec["ops"]):
            what = "round %d signal %d %r %s" % (ri, k, op, how)
            if j["killed"] or j["open"]: break
            send(j, op)
            j["stopped"] = False
            res = wait(j, how)
            arrived(j)
            if problems: return {"problems": problems[:4], "stats": stats}
            late = j.pop("late", False)
            cmdparts = len(procs(j))
            if op["group"] and op["sig"] == "int" and cmdparts: j["killed"] = True
            if op["group"] and op["sig"] == "tstp" and not case["interactive"]: pass
            if res == "ok" or op["race"] and res in ("PipelineFailed", "shown", "KeyboardInterrupt"):
                pass
            if not op["race"]:
                if op["sig"] == "int":
                    good = {"shown"} if how == "repr" else {"PipelineInterrupted"}
                    if j["killed"]: good |= {"PipelineFailed", "KeyboardInterrupt"}
                    if res not in good: problems.append("%s: interrupting gave %s" % (what, res))
                elif case["interactive"]:
                    good = {"shown"} if how == "repr" else {"PipelineSuspended"}
                    if res not in good: problems.append("%s: suspending gave %s" % (what, res))
                if late: problems.append("%s: another KeyboardInterrupt" % what)
            elif res == "ok" or res == "PipelineFailed":
                finished = True
            if problems: return {"problems": problems[:4], "stats": stats}
            if res in ("PipelineInterrupted", "PipelineSuspended", "shown"): stats["raised"] += 1
            if op["sig"] == "tstp" and not op["race"]:
                states(j, what, ("T",))
                j["stopped"] = True
            elif op["sig"] == "int" and not op["race"] and not op["group"]:
                states(j, what, ("S", "R", "D"))
            if not j["killed"] and not op["race"]:
                if not j["rp"].is_running: problems.append("%s: the pipeline is reported as ended" % what)
                if j["rp"] not in env.running_pipelines: problems.append("%s: the pipeline is not listed" % what)
            if bg: states(bg, what + ": in the background", ("S", "R", "D"))
            # Something else meanwhile
            m = op["other"]
            if m == "list":
                if [str(x) for x in env._(ctx.probe, "w:1:" + b"a\nb\n".hex())] != ["a", "b"]: problems.append("%s: another pipeline gives other output" % what)
            elif m == "plus":
                f = ctx.path("t")
                +env._(ctx.probe, R("t:" + f))
                if not read(f): problems.append("%s: another pipeline did not run" % what)
            elif m == "fail":
                try:
                    +env._(ctx.probe, "x:4")
                    problems.append("%s: no PipelineFailed for another pipeline" % what)
                except PF: pass
            elif m == "bg" and j["stopped"] and not j["killed"] and not j["open"]:
                env._("bg", j["rp"]).run()
                states(j, what + ": after bg", ("S", "R", "D"))
                j["stopped"] = False
            how = op["resume"]
            if problems: return {"problems": problems[:4], "stats": stats}
        # Now it ends
        what = "round %d end %s" % (ri, how)
        if not j["open"]:
            open(j["gate"], "w").close()
            j["open"] = True
        failing = [s for s in spec["parts"] if s["end"]]
        if not finished:
            if j["rp"] is not None and how in ("plus", "await", "repr"): how = "wait"
            if how == "repr":
                try: sys.displayhook(j['p'])
                except PF: pass
                j["rp"] = env.last_pipeline
                res = "shown"
            else: res = wait(j, how)
            if j["killed"]:
                if procs(j) and res != "PipelineFailed" and res != "ok": problems.append("%s: waiting for a killed pipeline gave %s" % (what, res))
            elif res != ("PipelineFailed" if failing else "ok") and res != "shown": problems.append("%s: waiting gave %s, failing parts %r" % (what, res, failing))
        rp = j["rp"]
        if not wait_until(lambda: not rp.is_running, 5): problems.append("%s: it does not end: %r" % (what, rp))
        if not j["killed"]:
            got = (read(j["out"]) or b"").decode().split()
            if sorted(got) != sorted(j["want"]): problems.append("%s: the output is %r, expected %r" % (what, got, j["want"]))
            else:
                for i in range(len(spec["parts"])):
                    if got.index("pre%d-%d" % (j["n"], i)) > got.index("post%d-%d" % (j["n"], i)): problems.append("%s: order of the output %r" % (what, got))
            if len(rp.failed_processes) != len(failing): problems.append("%s: failed processes %r" % (what, rp.failed_processes))
        if problems: return {"problems": problems[:4], "stats": stats}
    if bg:
        open(bg["gate"], "w").close()
        run_(bg["rp"].wait())
        got = (read(bg["out"]) or b"").decode().split()
        if got != bg["want"]: problems.append("output of the one in the background is %r, expected %r" % (got, bg["want"]))
    if not wait_until(lambda: not env.running_pipelines, 3): problems.append("at the end %r are listed as running" % (env.running_pipelines,))
    if list(env._(ctx.probe, "w:1:" + b"z\n".hex())) != ["z"]: problems.append("a pipeline at the end gives other output")
    # Nobody is told of a signal that comes when nothing is waited for
    try:
        os.kill(me, signal.SIGINT)
        for i in range(1000): pass
        time.sleep(0.01)
        problems.append("an interrupt while nothing runs is lost")
    except KeyboardInterrupt: pass
    return {"problems": problems[:4], "stats": stats}
