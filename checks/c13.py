from hypothesis import strategies as st
from harness.core import Check
from harness import gen

N = st.sampled_from([0, 1, 3, 3, 3000, 9000])
end = st.sampled_from(["ok", "ok", "ok", "exit", "kill", "missing"])
fend = st.sampled_from(["ok", "ok", "raise"])
arg = gen.fixed(kind=st.sampled_from(["cmd", "pipe", "iter", "aiter", "fn"]), n=st.sampled_from([0, 1, 5, 5, 6000]), own=st.sampled_from([0, 0, 1]), use=st.sampled_from(["read", "read", "ignore"]), end=fend)
args = st.one_of(st.none(), st.none(), gen.fixed(list=st.lists(arg, min_size=1, max_size=2)))
ms = st.sampled_from([0, 0, 1, 5])
how = st.sampled_from(["copy", "copy", "part", "exit"])
cmd = gen.fixed(kind=st.just("cmd"), n=N, ms=ms, how=how, end=end, err=st.sampled_from([0, 0, 4, 3000]), arg=args)
fn = gen.fixed(kind=st.just("fn"), n=st.sampled_from([0, 1, 3, 400]), ms=ms, how=how, end=fend, fkind=st.sampled_from(["fn", "fn", "iter", "aiter", "coro", "plain", "list"]))
linear = st.lists(st.one_of(cmd, cmd, fn), min_size=1, max_size=3)
MODES = ["list", "bytes", "aiter", "interactive", "null", "string", "tmp", "borrowed", "ownfd", "subshell", "gone", "cancelled", "two", "late"]
item = gen.fixed(a=linear, b=st.one_of(st.none(), st.none(), linear), mode=st.sampled_from(MODES),
                 redir=st.lists(st.sampled_from(["in", "err", "errnull", "errstr", "badin", "baderr", "fd5"]), max_size=2))


def fix(c):
    # Functions open their redirections themselves, and raise what that raises
    for it in c["items"]:
        ss = it["a"] + (it["b"] or [])
        if any(s["kind"] == "fn" for s in ss): it["redir"] = [r for r in it["redir"] if not r.startswith("bad")]
        for s in ss:
            # An input pipe nobody opens or ends ends with the command
            if s.get("arg") and s["end"] == "missing": s["end"] = "exit"
    return c


class C13(Check):
    id = "C13"
    worker = "w13"
    quick = 36
    rule = ("Histories of 1 to 6 pipelines: commands, functions and iterators, groups, pipeline, iterator and function arguments (used or not), consumers that stop reading early, failures of every kind (exit codes, "
            "signals, exceptions, missing programs, bad redirections, a removed directory), 14 ways to run, capture or cancel. Oracle: descriptors with what they refer to, watched descriptors, tasks, signal handlers, "
            "children and temporary files before and after are the same, except requested temporary files. Non-trivial: 2 or more pipelines with 3 or more parts in all.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, items=st.lists(item, min_size=1, max_size=6)).map(fix)

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return len(case["items"]) > 1 and sum(len(i["a"]) for i in case["items"]) > 2

    def classify(self, case, r):
        return [case["manager"]] + sorted(set(i["mode"] for i in case["items"])) + sorted(set(r["outcomes"])) + sorted(set(x for i in case["items"] for x in i["redir"]))


CHECK = C13()
