from hypothesis import strategies as st
from harness.core import Check
from harness import gen

FG = ["pos", "inter", "await", "wait", "wait2", "display", "typed", "fgcall"]
BG = ["run", "inv", "true", "null", "file", "red", "runred", "fn", "fnobj", "cmd", "pipefile", "task", "read"]
stage = st.tuples(st.sampled_from(["cmd", "cmd", "fn"]), st.sampled_from([0, 0, 0, 0, 1, 5])).map(list)
one = gen.fixed(stages=st.lists(stage, min_size=1, max_size=3), way=st.sampled_from(FG + BG), dest=st.sampled_from(["", "", "file", "null"]), env=st.integers(0, 1), input=st.booleans(),
                cd=st.sampled_from(["", "", "", "pos", "inter", "await", "run", "display", "typed", "inv"]), hold=st.sampled_from([0, 0, 5, 30]), release=st.integers(0, 3).map(lambda x: x == 3), spin=st.sampled_from([0, 0, 2, 20]), settle=st.lists(st.integers(0, 6), max_size=2))


class C27(Check):
    id = "C27"
    worker = "w27"
    quick = 70
    rule = ("1 to 6 runs of pipelines (1 to 3 commands and functions, some failing, with or without an input), each in one of 21 ways (8 that wait for it, 13 that do not), in an interactive or a non-interactive environment, "
            "held back so that those in the background still run while later ones are run, and released in a generated order; with cd, which starts nothing, run in between in 7 ways. Oracle: the schedule and the tags the commands write. Non-trivial: one is run while another one is held.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, runs=st.lists(one, min_size=1, max_size=6), rev=st.booleans(), together=st.booleans())

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["overlap"] > 0

    def classify(self, case, r):
        return [case["manager"]] + sorted(set(x["way"] for x in case["runs"])) + ["runs %d" % len(case["runs"])] + sorted(set("cd " + x["cd"] for x in case["runs"] if x.get("cd"))) + (["waited for while others run"] if r["fg while bg"] else []) + (
            ["fails"] if any(c for x in case["runs"] for k, c in x["stages"]) else [])


CHECK = C27()
