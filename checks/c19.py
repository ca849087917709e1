from hypothesis import strategies as st
from harness.core import Check
from harness import gen

end = st.sampled_from([["exit", 0]] * 5 + [["exit", 1], ["exit", 3], ["exit", 255], ["kill", 9], ["kill", 15], ["kill", 11]])
base = dict(n=st.sampled_from([0, 1, 2, 3, 40, 500]), size=st.sampled_from([0, 5, 200]), err=st.booleans(), end=end)
cmd = gen.fixed(kind=st.sampled_from(["cmd", "cmd", "cmd", "arg"]), **base)
fn = gen.fixed(kind=st.just("fn"), **base)
some = st.one_of(cmd, cmd, fn)
sub = st.lists(some, min_size=1, max_size=2).map(lambda l: {"kind": "sub", "stages": l, "n": 0, "size": 0, "err": False, "end": ["exit", 0]})
any_ = st.one_of(some, some, some, some, sub, st.just({"kind": "missing", "n": 0, "size": 0, "err": False, "end": ["exit", 1]}))
ok = some.map(lambda s: dict(s, end=["exit", 0]))


def leaves(l):
    for s in l:
        if s["kind"] == "sub":
            yield from leaves(s["stages"])
        else: yield s


def limit(c):
    for part in (c["before"], c["inner"], c["group"], c["after"]):
        for s in leaves(part):
            if s["kind"] == "arg": s["end"] = ["exit", 0]
            if s["kind"] == "fn": s["n"] = min(s["n"], 41)
            if s["n"] == 500: s["size"] = min(s["size"], 200)
    if c["before"]:
        # both parts would read the same input, and what does not read its input fails its writer at random
        c["group"] = []
        c["inner"] = [s for s in c["inner"] if s["kind"] != "missing"] or [c["before"][0]]
    for part in (c["inner"], c["group"]):
        # whoever writes to what cannot be started fails or not
        part[:] = [s for i, s in enumerate(part) if s["kind"] != "missing" or i == 0]
    if c["mode"] == "two": c["after"] = c["after"][:1]
    if c["file"]: c["after"], c["mode"] = [], "plus" if c["mode"] != "two" else "two"
    return c


class C19(Check):
    id = "C19"
    worker = "w19"
    quick = 60
    rule = ("Pipelines of commands, functions, argument pipelines, groups, programs that do not exist and further subshells, ending in any way, run through 1 to 3 nested subshells, as the first, middle or last stage, read, awaited, from tasks, from functions of other pipelines, "
            "with buffered output, clean-up handlers and finally clauses in the caller. Oracle: the same pipeline run directly, a model of success, and the caller's state before and after. Non-trivial: over one stage, or something fails.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, inner=st.lists(any_, min_size=1, max_size=3), group=st.one_of(st.just([]), st.just([]), st.lists(any_, min_size=1, max_size=2)), before=st.one_of(st.just([]), st.lists(ok, min_size=1, max_size=2)),
                         after=st.one_of(st.just([]), st.lists(ok, min_size=1, max_size=2)), depth=st.sampled_from([1, 1, 1, 2, 3]), file=st.sampled_from([False, False, False, True]), mode=st.sampled_from(["list", "str", "plus", "task", "fn", "two"]), interactive=st.booleans(), own=st.booleans()).map(limit)

    def judge(self, case, r):
        a, b = r["sub"], r["direct"]
        srt = sorted if case["group"] else list
        for k in ("out", "file"):
            x, y = (srt(t[k]) if t[k] is not None else None for t in (a, b))
            if b["failed"] and k == "out" and case["mode"] == "fn" : continue    # whatever arrived before the failure
            d = gen.diff_text(x, y, "%s through the subshell" % k)
            if d: return d
        if a["failed"] != b["failed"]: return "through the subshell the pipeline %s, directly it %s: %r" % (*["failed" if t["failed"] else "succeeded" for t in (a, b)], a["text"] or b["text"])
        bad = any(s["end"] != ["exit", 0] for s in leaves(case["inner"] + case["group"]))
        if a["failed"] != bad: return "through the subshell the pipeline %s, but it should%s: %r" % ("failed" if a["failed"] else "succeeded", "" if bad else " not", a["text"])
        if not r["ended"]: return "processes or pipelines are left"
        if r["state"]: return "the caller changed: %r" % r["state"][:3]
        if r["buffered"] != "buffered": return "buffered output of the caller: %r" % r["buffered"]
        if r["stdout"].count("partial line") != 1: return "standard output of the caller: %r" % r["stdout"][:300]
        if r["exits"]: return "clean-up handlers ran in the subshell: %r" % r["exits"]
        if r["finals"] != "finally\n": return "the caller's finally clause ran %d times" % r["finals"].count("finally")
        inner = [c for c in a["calls"] if c[0] in "mg"]
        if inner: return "functions of the subshell ran in the caller: %r" % inner
        if r["later"] != ["still works"]: return "a later pipeline gave %r" % r["later"]

    def nontrivial(self, case, r):
        return len(list(leaves(case["inner"]))) > 1 or r["direct"]["failed"] or bool(case["before"]) or bool(case["after"])

    def classify(self, case, r):
        return [case["manager"], case["mode"], "depth %d" % case["depth"], "failed" if r["direct"]["failed"] else "ok"] + sorted(set("inner " + s["kind"] for s in case["inner"])) + [k for k in ("before", "after", "group", "file") if case[k]]


CHECK = C19()
