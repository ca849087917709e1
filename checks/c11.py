import itertools
from hypothesis import strategies as st
from harness.core import Check
from harness import gen

EXC = ["ValueError", "KeyError", "OSError", "Custom", "Assertion", "Zero", "Timeout", "EOF"]
NAMES = {"Assertion": "AssertionError", "Zero": "ZeroDivisionError", "Timeout": "TimeoutError", "EOF": "EOFError"}
ok = st.just(["ok"])
cend = st.one_of(ok, ok, st.tuples(st.just("exit"), st.sampled_from([0, 1, 2, 9, 17, 126, 127, 128, 255])).map(list), st.tuples(st.just("kill"), st.sampled_from([1, 2, 3, 6, 9, 11, 13, 15, 10])).map(list))
fend = st.one_of(ok, ok, st.tuples(st.sampled_from(["pre", "raise"]), st.sampled_from(EXC)).map(list))
delay = st.sampled_from([0, 0, 0, 1, 5, 20, 60])
err = st.one_of(st.just(""), st.text(alphabet="ab \n\r%\xff\xe9\x00\t", max_size=8))


def stage(arg):
    c = gen.fixed(kind=st.just("cmd"), end=cend, delay=delay, early=st.booleans(), stderr=err, arg=arg)
    f = gen.fixed(kind=st.just("fn"), fkind=st.sampled_from(["agen", "plain", "iter", "aiter"]), end=fend, delay=delay)
    return st.one_of(c, c, f)


inner = st.lists(stage(st.none()), min_size=1, max_size=2)
full = stage(st.one_of(st.none(), st.none(), st.none(), inner))


def number(c):
    n = [0]

    def walk(ss, prefix):
        if ss and "x" in prefix and ss[0]["kind"] == "fn" and ss[0]["fkind"] in ("agen", "plain"):
            ss[0]["fkind"] = "iter"     # a function would read the standard input of the command
        for s in ss or []:
            n[0] += 1
            s["tag"] = "%sT%d" % (prefix, n[0])
            if s.get("arg"): walk(s["arg"], prefix + "x")
    walk(c["a"], "A")
    walk(c["b"], "B")
    return c


def lines(ss):
    out = []
    for i, s in enumerate(ss):
        if s["kind"] == "fn" and s["end"][0] == "pre": out = []
        else: out = (out if i else []) + [s["tag"]]
    return out


def everything(ss):
    return [x for s in ss or [] for x in everything(s.get("arg")) + [s]]


def failing(s):
    return s["end"][0] in ("pre", "raise", "kill") or s["end"][0] == "exit" and s["end"][1] != 0


class C11(Check):
    id = "C11"
    worker = "w11"
    quick = 80
    rule = ("A pipeline of 1 to 4 parts, maybe grouped with a second one and with pipelines as arguments; every part is a command or a Python function or iterator that writes a line, maybe to standard error, and ends at "
            "its own time with an exit code, a signal, an exception or well. It is run or read in 9 ways. Oracle: which parts fail is known; exception, its moment, failed_processes, exit codes, exceptions, captured "
            "errors and the output delivered are compared. Non-trivial: two or more parts, at least one failing.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, a=st.lists(full, min_size=1, max_size=4), b=st.one_of(st.none(), st.none(), st.lists(stage(st.none()), min_size=1, max_size=2)), repeat=st.sampled_from([1, 1, 2]),
                         mode=st.sampled_from(["list", "bytes", "str", "async", "plus", "await", "interactive", "wait", "late"])).map(number)

    def judge(self, case, rs):
        parts = everything(case["a"]) + everything(case["b"])
        for r in rs:
            d = self.one(case, parts, r)
            if d: return d

    def one(self, case, parts, r):
        bad = [s for s in parts if failing(s)]
        if r["exc"] not in (None, "PipelineFailed"):
            return "unexpected exception %s" % r["text"]
        if (r["exc"] is not None) != bool(bad):
            return "PipelineFailed was %s, but failing parts are %s" % ("raised" if r["exc"] else "not raised", [[s["tag"], s["end"]] for s in bad])
        if r["running"] or r["listed"] or any(p["running"] for p in r["procs"]):
            return "the pipeline still runs (running %r, listed %r): %r" % (r["running"], r["listed"], [p["cmd"][-60:] for p in r["procs"] if p["running"]])
        if any(p.get("state") for p in r["procs"]):
            return "a process has not ended: %r" % [(p["cmd"][-60:], p["state"]) for p in r["procs"] if p.get("state")]
        if len(r["procs"]) != len(parts):
            return "%d parts, expected %d" % (len(r["procs"]), len(parts))
        if r["exc"] and not r["same"]:
            return "the exception's pipeline is not the last pipeline"
        left = list(enumerate(r["procs"]))
        shared = {}

        def share(ss, group):
            for x in ss or []:
                g = group if group is not None else everything([x])
                shared[x["tag"]] = g
                share(x.get("arg"), g)
        share(case["a"], None)
        share(case["b"], None)
        for s in parts:
            if s["kind"] == "cmd":
                mine = [(i, p) for i, p in left if not p["fn"] and ("tag-" + s["tag"] + "'") in p["cmd"]]
                if len(mine) != 1: return "%d processes for part %s" % (len(mine), s["tag"])
                i, p = mine[0]
                left.remove(mine[0])
                want = s["end"][1] if s["end"][0] in ("exit", "kill") else 0
                if p["code"] != want: return "part %s has exit code %r, expected %r (%r)" % (s["tag"], p["code"], want, s["end"])
                # A command and the pipelines it has as arguments share their captured error; each is written at once
                es = [x["stderr"].encode("latin-1") for x in shared[s["tag"]] if x["kind"] == "cmd"]
                e = next((x for x in (b"".join(o).decode("utf-8", "backslashreplace") for o in itertools.permutations(es)) if x == p["err"]), None)
                if e is None: return "part %s's captured error is %r, expected %r" % (s["tag"], p["err"], es)
                if failing(s) and e not in r["text"]: return "the exception's text lacks the captured error %r: %s" % (e, r["text"])
            if s["kind"] == "cmd" and p["failed"] != failing(s): return "part %s: failed is %r, ended with %r" % (s["tag"], p["failed"], s["end"])
            if s["kind"] == "cmd" and r["exc"] and (i in r["failed"]) != failing(s): return "part %s is%s in failed_processes, ended with %r" % (s["tag"], "" if i in r["failed"] else " not", s["end"])
        fns = sorted([NAMES.get(s["end"][1], s["end"][1]) if failing(s) else "" for s in parts if s["kind"] == "fn"])
        got = sorted([p["exc"][0] if p["exc"] else "" for i, p in left])
        if got != fns: return "exceptions of the functions are %r, expected %r" % (got, fns)
        for i, p in left:
            if p["failed"] != (p["exc"] is not None) or (r["exc"] and (i in r["failed"]) != p["failed"]): return "function %r: failed %r, in failed_processes %r" % (p, p["failed"], r.get("failed"))
        if case["mode"] == "str" and r["exc"]: return
        a = lines(case["a"])
        b = lines(case["b"]) if case["b"] else []
        if [l for l in r["out"] if l.startswith("A")] != a or [l for l in r["out"] if l.startswith("B")] != b or len(r["out"]) != len(a) + len(b):
            return "the output was %r, expected %r and %r" % (r["out"], a, b)

    def nontrivial(self, case, r):
        parts = everything(case["a"]) + everything(case["b"])
        return len(parts) > 1 and any(failing(s) for s in parts)

    def classify(self, case, r):
        parts = everything(case["a"]) + everything(case["b"])
        return [case["mode"], case["manager"], "parts %d" % len(parts), "failing %d" % len([s for s in parts if failing(s)])] + sorted(set(s["kind"] + " " + s["end"][0] for s in parts)) + (["group"] if case["b"] else []) + (
            ["argument"] if any(s.get("arg") for s in parts) else []) + (["last ends well"] if not failing(case["a"][-1]) else [])


CHECK = C11()
