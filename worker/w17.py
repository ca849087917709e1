from wlib import *


class Boom(Exception): pass


class P(object):
    """One pipeline of the history, with everything that belongs to it."""
    def __init__(self, world, spec, j):
        self.w, self.spec, self.j = world, spec, j
        self.ctx, self.env = world.ctx, world.env
        lines = ["%d-%d-%s" % (j, k, "x" * (spec["len"] if k % 3 else 1)) for k in range(spec["n"])]
        self.lines = lines
        self.text = "".join(l + "\n" for l in lines)
        cut = {"before": 0, "middle": len(lines) // 2, "after": len(lines), "none": len(lines)}[spec["gate"]]
        self.head, self.tail = lines[:cut], lines[cut:]
        self.gate = self.ctx.dir + "/gate-%d" % j
        self.future = loop().create_future()
        self.open_ = spec["gate"] == "none"
        if self.open_: self.future.set_result(None)
        self.rps, self.tasks, self.got, self.files, self.tickets = [], [], [], [], []
        self.cancelled = set()
        self.errs = []
        self.bad = []
        self.p = self.build()

    def build(self):
        s = self.spec
        R = self.w.R
        if s["src"] == "cmd":
            a = ["k%da" % self.j]
            if s["arg"]:
                o = self.ctx.path("arg")
                self.argfile = o
                p = self.env._(self.ctx.probe, "k%dc" % self.j, "w:1:%s" % ("arg%d" % self.j).encode().hex())
                a.append(p)
                a.append(R("F:2:r:%s" % o))
            h = self.ctx.store("".join(l + "\n" for l in self.head).encode(), "h")
            t = self.ctx.store("".join(l + "\n" for l in self.tail).encode(), "t")
            if s["err"]: a.append("w:2:%s" % ("E%da" % self.j * s["err"]).encode().hex()); self.errs += [("E%da" % self.j) * s["err"]] * (2 if s["arg"] else 1)    # shared with the argument's command
            if self.head: a.append(R("W:1:%s:%d:%d" % (h, s["chunk"], s["us"])))
            if not self.open_: a.append(R("u:%s" % self.gate))
            if self.tail: a.append(R("W:1:%s:%d:%d" % (t, s["chunk"], s["us"])))
            if s["bad"] in ("first", "both"): a.append("x:3"); self.bad.append("k%da" % self.j)
            p = self.env._(self.ctx.probe, *a)
        else:
            async def gen(*stdin):
                for l in self.head: yield l
                await asyncio.shield(self.future)
                for i, l in enumerate(self.tail):
                    if s["us"] and i < 5: await asyncio.sleep(s["us"] / 1e6)
                    yield l
            p = self.w.Function(self.env, gen) if s["src"] == "fn" else gen()
        for i, m in enumerate(s["mid"]):
            if m == "fn":
                async def same(stdin):
                    async for l in stdin: yield l
                p = p | (same if i or s["src"] != "items" else self.w.Function(self.env, same))
            else:
                p = p | self.env._(self.ctx.probe, "k%dm%d" % (self.j, i), "i")
        a = ["k%dz" % self.j, "i"]
        if s["err"] > 1: a.append("w:2:%s" % ("E%dz" % self.j).encode().hex()); self.errs.append("E%dz" % self.j)
        if s["bad"] in ("last", "both"): a.append("k:9" if s["kill"] else "x:7"); self.bad.append("k%dz" % self.j)
        return p | self.env._(self.ctx.probe, *a)

    def start(self):
        k = len(self.rps)
        rd = self.spec["reader"]
        self.got.append([])
        self.files.append(None)
        if rd in ("lines", "bytes"):
            rp = self.p.run([self.w.Redirect("stdout", self.w.PIPE)])
        else:
            self.files[k] = self.ctx.path("out")
            rp = self.p.run([self.w.Redirect("stdout", self.files[k])])
        self.rps.append(rp)
        self.tickets.append(asyncio.Semaphore(0))
        async def body():
            if rd == "lines":
                async for x in rp:
                    self.got[k].append(x + "\n")
                    if not self.free(k): await self.tickets[k].acquire()
            elif rd == "bytes":
                async for x in rp.iterbytes():
                    self.got[k].append(x.decode())
                    if not self.free(k): await self.tickets[k].acquire()
            elif rd == "await": await rp
            elif rd == "timeout": await asyncio.wait_for(rp.wait(), 50)
            elif rd == "poll":
                while rp.is_running: await asyncio.sleep(0.001)
        self.tasks.append(loop().create_task(body()))

    def free(self, k): return not self.spec["partial"] or self.w.draining

    def release(self):
        if self.open_: return
        self.open_ = True
        open(self.gate, "w").close()
        self.future.set_result(None)

    def blocked(self): return self.spec["partial"] and self.spec["reader"] in ("lines", "bytes") and not self.w.draining

    def check(self, k, what):
        """The result of run k, which has to have ended."""
        res = []
        rp, t = self.rps[k], self.tasks[k]
        if not wait_until(lambda: t.done(), 20):
            return ["%s: the reader of pipeline %d does not end (got %d of %d)" % (what, self.j, len("".join(self.got[k])), len(self.text))]
        if not wait_until(lambda: not rp.is_running, 20): return ["%s: pipeline %d does not end" % (what, self.j)]
        if not wait_until(lambda: rp not in self.env.running_pipelines, 5): res.append("%s: pipeline %d is listed as running" % (what, self.j))
        e = None if t.cancelled() else t.exception()
        if k in self.cancelled:
            if not self.text.startswith("".join(self.got[k])): res.append("%s: pipeline %d gave %r before its reader was cancelled" % (what, self.j, "".join(self.got[k])[:200]))
        else:
            if t.cancelled(): return ["%s: the reader of pipeline %d was cancelled by somebody else" % (what, self.j)]
            got = "".join(self.got[k]) if self.files[k] is None else (read(self.files[k]) or b"").decode()
            if got != self.text:
                i = next((i for i, (a, b) in enumerate(zip(got, self.text)) if a != b), min(len(got), len(self.text)))
                res.append("%s: output of pipeline %d differs at %d: %r, expected %r (%d of %d)" % (what, self.j, i, got[max(0, i - 10):i + 40], self.text[max(0, i - 10):i + 40], len(got), len(self.text)))
            if e is not None and not isinstance(e, self.w.PF): return res + ["%s: pipeline %d: %r" % (what, self.j, e)]
            if self.spec["reader"] != "poll" and (e is not None) != bool(self.bad): res.append("%s: pipeline %d %s, but should%s" % (what, self.j, "failed" if e else "succeeded", "" if self.bad else " not fail"))
            if e is not None and e.pipeline is not rp: res.append("%s: the failure of pipeline %d is attributed to another one" % (what, self.j))
        if not self.cancelled:
            failed = [x.cmd._arg[1] for x in rp.failed_processes]
            if failed != self.bad: res.append("%s: failed processes of pipeline %d: %r, expected %r" % (what, self.j, failed, self.bad))
            errs = []
            for x in rp.processes:
                o = x.output_content.get(2)
                if o: errs.append(o.decode() if isinstance(o, bytes) else o)
            if errs != self.errs: res.append("%s: captured errors of pipeline %d: %r, expected %r" % (what, self.j, errs, self.errs))
            if self.spec["arg"] and self.spec["src"] == "cmd" and read(self.argfile) != ("arg%d" % self.j).encode(): res.append("%s: argument of pipeline %d gave %r" % (what, self.j, read(self.argfile)))
        return res


class World(object): pass


def run(ctx, case):
    pieshell = ctx.pieshell()
    w = World()
    w.ctx, w.env, w.R, w.Function, w.PF = ctx, pieshell.env, pieshell.R, pieshell.pipeline.function.Function, pieshell.pipeline.running.PipelineFailed
    w.Redirect, w.PIPE = pieshell.Redirect, pieshell.PIPE
    w.draining = False
    problems = []
    stats = {"most": 0, "sync": 0, "burst": 0}
    ps = [P(w, s, j) for j, s in enumerate(case["pipes"])]
    checked = set()

    def started(): return [p for p in ps if p.rps]

    def quick(how, k):
        """A pipeline run to its end by synchronous code while the others are under way"""
        text = "".join("q%d-%d\n" % (k, i) for i in range(case["quick"]))
        p = w.env._(ctx.probe, w.R("W:1:%s:4096" % ctx.store(text.encode()))) | w.env.cat
        if how == "fail": p = p | w.env._(ctx.probe, "i", "x:9")
        got, e = [], None
        try:
            if how == "str": got = str(p).splitlines()
            elif how == "plus":
                f = ctx.path("q")
                +(p > f)
                got = read(f).decode().splitlines()
            elif how == "fn":
                async def pick(stdin):
                    # a function that runs a pipeline of its own
                    async for l in p: yield l
                got = list(w.Function(w.env, pick))
            else:
                for l in p: got.append(l)
        except w.PF as x: e = x
        stats["sync"] += 1
        if got != text.splitlines(): problems.append("a pipeline run in between (%s) gave %r, expected %d lines" % (how, got[:5], case["quick"]))
        if (e is not None) != (how == "fail"): problems.append("a pipeline run in between (%s): %r" % (how, e))

    def alive(n):
        for p in started():
            stats["most"] = max(stats["most"], len([1 for q in ps for r in q.rps if r.is_running]))
            if p.open_ or p.cancelled: continue
            for k, rp in enumerate(p.rps):
                if not rp.is_running: problems.append("step %d: pipeline %d is reported as ended, but is still held" % (n, p.j))
                if p.tasks[k].done(): problems.append("step %d: the reader of pipeline %d ended, but it is still held: %r" % (n, p.j, p.tasks[k]))
                if rp.failed_processes and p.spec["bad"] in ("none", "first"): problems.append("step %d: pipeline %d has failed processes, but is still held" % (n, p.j))

    for n, op in enumerate(case["ops"]):
        k, p = op[0], ps[op[1] % len(ps)]
        if k == "start":
            if not p.rps or p.spec["src"] == "cmd" and len(p.rps) < 2 and not p.spec["arg"]: p.start()
        elif k == "startall":
            for q in ps:
                if not q.rps: q.start()
        elif k == "spin": spin(op[2] / 1000.0)
        elif k == "read":
            for t in p.tickets:
                for i in range(op[2]): t.release()
            spin(0.003)
        elif k == "finish":
            # held pipelines, and those nobody reads, do not delay this one
            if p.rps and not p.blocked():
                p.release()
                for i in range(len(p.rps)): problems += p.check(i, "step %d" % n)
        elif k == "burst":
            # several end while nobody is looking
            for q in ps: q.release()
            time.sleep(op[2] / 1000.0)
            stats["burst"] += 1
        elif k == "release": p.release()
        elif k == "cancel":
            i = len(p.tasks) - 1
            if i >= 0 and p.spec["reader"] in ("await", "timeout", "poll") and not p.tasks[i].done():
                p.tasks[i].cancel()
                p.cancelled.add(i)
        elif k == "stop":
            # a reader which gives up; its pipeline is killed
            i = len(p.tasks) - 1
            if i >= 0 and p.spec["partial"] and p.spec["reader"] in ("lines", "bytes") and not p.tasks[i].done() and not p.cancelled and len(p.rps) == 1 and p.spec["src"] == "cmd" and "fn" not in p.spec["mid"]:
                p.tasks[i].cancel()
                spin(0.001)
                p.cancelled.add(i)
                for x in p.rps[i].processes:
                    if x.is_running: os.kill(x.pid, 9)
        elif k == "quick": quick(op[2], n)
        alive(n)
        if problems: return dict(stats, problems=problems[:4])
    w.draining = True
    for q in ps:
        for t in q.tickets: t.release()
    for q in (ps if case["order"] else ps[::-1]):
        if not q.rps: q.start()
        q.release()
        if case["order"] == 1: problems += [x for i in range(len(q.rps)) for x in q.check(i, "at the end")]
        if problems: break
    if not problems:
        for q in ps: problems += [x for i in range(len(q.rps)) for x in q.check(i, "at the end")]
    if not problems and w.env.running_pipelines: problems.append("listed as running at the end: %r" % w.env.running_pipelines)
    if not problems and child_pids(): problems.append("children left: %r" % child_pids())
    return dict(stats, problems=problems[:4])
