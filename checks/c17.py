from hypothesis import strategies as st
from harness.core import Check
from harness import gen

pipe = gen.fixed(src=st.sampled_from(["cmd", "cmd", "cmd", "items", "fn"]), n=st.sampled_from([0, 1, 2, 5, 30, 300, 2000]), len=st.sampled_from([1, 20, 300]), gate=st.sampled_from(["before", "middle", "after", "none"]),
                 chunk=st.sampled_from([7, 100, 1024, 4096, 65536]), us=st.sampled_from([0, 0, 0, 300]), err=st.integers(0, 2), bad=st.sampled_from(["none", "none", "none", "first", "last", "both"]), kill=st.booleans(),
                 arg=st.sampled_from([False, False, True]), mid=st.lists(st.sampled_from(["cmd", "fn"]), max_size=2), reader=st.sampled_from(["lines", "bytes", "lines", "await", "timeout", "poll"]), partial=st.sampled_from([False, True]))
J = st.integers(0, 5)


def o(k, x=st.just(0)): return st.tuples(st.just(k), J, x).map(list)


op = st.one_of(o("start"), o("start"), o("startall"), o("startall"), o("spin", st.sampled_from([0, 1, 5, 20])), o("read", st.integers(1, 20)), o("finish"), o("finish"), o("burst", st.sampled_from([0, 5, 30])), o("release"), o("cancel"),
               o("stop"), o("quick", st.sampled_from(["list", "str", "plus", "fail", "fn"])))


def limit(c):
    for p in c["pipes"]:
        if p["us"] or p["chunk"] < 100: p["n"] = min(p["n"], 30)
        if p["src"] != "cmd" or "fn" in p["mid"]: p["n"] = min(p["n"], 300)
        if p["n"] == 2000: p["len"] = min(p["len"], 100)
        if p["src"] != "cmd" and p["bad"] in ("first", "both"): p["bad"] = "last"
    return c


class C17(Check):
    id = "C17"
    worker = "w17"
    quick = 60
    rule = ("2 to 6 pipelines of commands, functions and iterators, with outputs of 0 to 2000 lines, captured errors, argument pipelines, failing or killed processes, read line by line, by bytes, partially, awaited, polled; "
            "histories of starting (also twice the same), reading some items, letting one end, letting all end at once while nobody looks, cancelling waiters, giving up readers, and running further pipelines synchronously in between. "
            "Oracle: each pipeline's own output, outcome, errors; those held do not end, those not held end. Non-trivial: at least 2 run at once and 3 operations.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, pipes=st.lists(pipe, min_size=2, max_size=6), ops=st.lists(op, min_size=2, max_size=14), order=st.integers(0, 2), quick=st.sampled_from([1, 10, 500])).map(limit)

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["most"] > 1 and len(case["ops"]) > 2

    def classify(self, case, r):
        return [case["manager"], "at once %d" % min(r["most"], 9)] + sorted(set(o[0] for o in case["ops"])) + sorted(set("src " + p["src"] for p in case["pipes"])) + sorted(set(p["reader"] for p in case["pipes"]))


CHECK = C17()
