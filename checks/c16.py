from hypothesis import strategies as st
from harness.core import Check
from harness import gen

end = st.one_of(st.just(["exit", 0]), st.just(["exit", 0]), st.tuples(st.just("exit"), st.sampled_from([1, 5, 19, 20, 255])).map(list), st.tuples(st.just("kill"), st.sampled_from([1, 9, 11, 15])).map(list))
job = gen.fixed(procs=st.lists(gen.fixed(end=end), min_size=1, max_size=3), shape=st.sampled_from(["pipe", "add"]), fn=st.sampled_from([False, False, True]))
J, I = st.integers(0, 1), st.integers(0, 2)


def o(k, x=st.just(0)): return st.tuples(st.just(k), J, I, x).map(list)


op = st.one_of(o("suspend"), o("suspend"), o("suspend"), o("restart"), o("restart"), o("psuspend"), o("prestart"), o("kill", st.sampled_from([9, 15, 1])), o("ext", st.integers(0, 1)), o("ext", st.integers(0, 1)),
               o("burst", st.integers(2, 6)), o("gate"), o("gate"), o("bg"), o("bg"), o("bgrp"), o("fg"), o("fgrp"), o("wait"), o("other"), o("start"), o("gatefn"))


class C16(Check):
    id = "C16"
    worker = "w16"
    quick = 60
    rule = ("1 or 2 jobs of 1 to 3 processes (piped or grouped, maybe with a function at the end) held by gates, and histories of up to 14 steps: suspend, restart, bg, fg, wait, single processes suspended, continued, "
            "killed from outside (also while stopped, also in quick succession), ending. Oracle: a model of each process's state, and its real state. Non-trivial: a process is stopped and later continued or killed.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, interactive=st.booleans(), jobs=st.lists(job, min_size=1, max_size=2), ops=st.lists(op, min_size=2, max_size=14), final=st.booleans())

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        ks = [o[0] for o in case["ops"]]
        return any(k in ("suspend", "psuspend", "ext", "burst") for k in ks[:-1])

    def classify(self, case, r):
        return [case["manager"]] + sorted(set(o[0] for o in case["ops"])) + (["function"] if any(j["fn"] for j in case["jobs"]) else []) + ["jobs %d" % len(case["jobs"])]


CHECK = C16()
