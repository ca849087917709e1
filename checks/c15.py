from hypothesis import strategies as st
from harness.core import Check
from harness import gen

i = st.integers(0, 30)
k = st.sampled_from(["call", "call", "attr", "neg", "pipe", "pipe", "pipe", "add", "add", "fn", "list", "infile", "err", "arg", "arg", "run", "run", "both", "both", "print", "show", "show"])


class C15(Check):
    id = "C15"
    worker = "w15"
    quick = 60
    rule = ("Histories of building new pipelines from earlier ones (calls, attributes, options, pipes, groups, functions, lists, redirections, as arguments; the same object may be used several times), running them in 5 ways, "
            "two or three at once, printing them, and displaying pipelines of an interactive environment. Oracle: a model of every object's output and of how often each command must have run; every object's text must "
            "stay as it was. Non-trivial: an object is used twice in another one, or concurrently.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, bases=st.integers(1, 3), ops=st.lists(st.tuples(k, i, i, st.integers(0, 7)).map(list), min_size=3, max_size=14))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["shared"] or r["concurrent"]

    def classify(self, case, r):
        return [case["manager"]] + sorted(set(o[0] for o in case["ops"])) + (["object used twice"] if r["shared"] else []) + ["nodes %d" % min(10, r["nodes"])]


CHECK = C15()
