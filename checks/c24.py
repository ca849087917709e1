from hypothesis import strategies as st
from harness.core import Check
from harness import gen

part = gen.fixed(kind=st.sampled_from(["cmd", "cmd", "fn"]), end=st.sampled_from([0, 0, 0, 3]))
op = gen.fixed(sig=st.sampled_from(["int", "tstp"]), group=st.sampled_from([False, False, True]), race=st.sampled_from([0, 0, 0, 1, 2]), inside=st.booleans(), delay=st.sampled_from([5, 10, 20, 30]), other=st.sampled_from(["", "list", "plus", "fail", "bg"]),
               also=st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(["before", "after"]), st.sampled_from(["interactive", "noninteractive", "fails"])).map(list), min_size=1, max_size=2)), resume=st.sampled_from(["wait", "awaitrp", "fg", "bgwait", "restartwait"]))
rnd = gen.fixed(parts=st.lists(part, min_size=1, max_size=3), sink=st.booleans(), start=st.sampled_from(["plus", "await", "wait", "awaitrp", "repr"]), ops=st.lists(op, max_size=4))


def fix(case):
    for r in case["rounds"]:
        if not case["interactive"]:
            if r["start"] == "repr": r["start"] = "plus"
            # The stop signal means nothing there
            for o in r["ops"]: o["sig"] = "int"
        for o in r["ops"]:
            # There are no process groups of jobs: the terminal's interrupt ends whatever runs
            if case["bg"] and o["sig"] == "int": o["group"] = False
    return case


class C24(Check):
    id = "C24"
    worker = "w24"
    quick = 90
    rule = ("Rounds of pipelines (commands and functions, failing or not) held by a gate, waited for in the foreground in every way, interrupted or suspended up to 4 times by signals that arrive at generated times (from inside or outside, for the shell alone or its group, also just when the pipeline ends), other pipelines run in between and in the background, resumed in every way; tasks in the background await other pipelines that end before the signal. "
            "Oracle: what is raised, process states, complete output and outcome at the end. Non-trivial: a signal.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, interactive=st.sampled_from([True, True, False]), bg=st.booleans(), rounds=st.lists(rnd, min_size=1, max_size=3)).map(fix)

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["stats"]["signals"] > 0

    def classify(self, case, r):
        ops = [o for x in case["rounds"] for o in x["ops"]]
        return [case["manager"]] + sorted(set(o["sig"] for o in ops)) + sorted(set(o["resume"] for o in ops)) + (["race"] if any(o["race"] for o in ops) else []) + (["other awaited"] if any(o["also"] for o in ops) else []) + (["group"] if any(o["group"] for o in ops) else [])


CHECK = C24()
