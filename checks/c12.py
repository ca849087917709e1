from hypothesis import strategies as st
from harness.core import Check
from harness import gen

cend = st.one_of(st.just(["ok"]), st.just(["ok"]), st.tuples(st.just("exit"), st.sampled_from([1, 2, 255])).map(list), st.tuples(st.just("kill"), st.sampled_from([1, 9, 11, 15, 6])).map(list))
fend = st.sampled_from([["ok"], ["ok"], ["raise"]])
fast = st.sampled_from([False, False, False, True])
cmd = gen.fixed(kind=st.just("cmd"), end=cend, fast=fast, early=st.booleans())
fn = gen.fixed(kind=st.just("fn"), end=fend, fast=fast, early=st.booleans(), fkind=st.sampled_from(["gen", "coro", "slow"]))
part = st.one_of(cmd, cmd, fn)
pipe = gen.fixed(groups=st.integers(0, 11).flatmap(lambda k: st.just([]) if k == 11 else st.lists(st.lists(part, min_size=1, max_size=3), min_size=1, max_size=2)), zero=st.sampled_from([False, False, False, True]), crowd=st.sampled_from([0, 0, 0, 2, 5, 9]),
                 start=st.sampled_from(["first", "first", "later"]), reader=st.sampled_from(["none", "none", "lines", "bytes"]))
P = st.integers(0, 1)
op = st.one_of(
    st.tuples(st.just("wait"), P, st.sampled_from(["await", "wait", "gather", "timeout", "fg"])),
    st.tuples(st.just("end"), P, st.lists(st.integers(0, 5), min_size=1, max_size=4), st.sampled_from(["gate", "gate", "gate", 9, 15, 1]), st.sampled_from(["see", "see", "block", "no"])),
    st.tuples(st.just("cancel"), P, st.integers(0, 3)),
    st.tuples(st.just("stop"), P, st.integers(0, 5)),
    st.tuples(st.just("spin"), P, st.sampled_from([0, 1, 5]))).map(list)


def crowd(c):
    """Parts that end together"""
    for p in c["pipes"]:
        if p["groups"]: p["groups"] += [[{"kind": "cmd", "end": ["ok"], "fast": False, "early": True}] for i in range(p["crowd"])]
    return c


class C12(Check):
    id = "C12"
    worker = "w12"
    quick = 80
    rule = ("1 or 2 pipelines of 0 to 15 parts (commands and functions, linear and grouped), each part held by a gate until a generated schedule lets it end (exit code, signal, exception, killed from outside), with "
            "waiters of 7 kinds started, and cancelled, between these events. Oracle: the schedule; no waiter or report may run ahead of it and all must follow once the last part ended. "
            "Non-trivial: two or more parts end at different steps with a waiter present.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, pipes=st.lists(pipe, min_size=1, max_size=2), ops=st.lists(op, min_size=2, max_size=12), rev=st.booleans(), slow=st.sampled_from(["", "spin", "block"])).map(crowd)

    def judge(self, case, problems):
        if problems: return "; ".join(problems)

    def nontrivial(self, case, r):
        return sum(len([1 for g in p["groups"] for s in g if not s["fast"]]) for p in case["pipes"]) > 1 and (
            any(o[0] == "wait" for o in case["ops"]) or any(p["reader"] != "none" for p in case["pipes"]))

    def classify(self, case, r):
        return [case["manager"], "pipes %d" % len(case["pipes"])] + sorted(set(o[0] + (" " + o[2] if o[0] == "wait" else "") for o in case["ops"])) + sorted(set("parts %d" % min(9, sum(map(len, p["groups"]))) for p in case["pipes"]))


CHECK = C12()
