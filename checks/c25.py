from hypothesis import strategies as st
from harness.core import Check
from harness import gen

N = st.sampled_from(["foo", "bar", "zed", "foo2", "é", "x-y", "Foo", "keys", "env_x", "ls2", "if", ".hidden", "_zz"])
B = st.sampled_from(["foo", "bar", "zed", "newb", "ls2", "Foo"])
I = st.integers(0, 5)
entry = st.one_of(st.tuples(st.sampled_from(["abs", "abs", "slash", "dots", "rel", "rel"]), I).map(list), st.sampled_from([["empty"], ["missing"], ["file"], ["unreadable"], ["link"], ["sys"]]))
E = st.integers(0, 2)


def o(k, *xs): return st.tuples(st.just(k), E, *xs).map(list)


add = o("add", I, N, st.sampled_from([True, True, False]))
path = o("path", st.lists(entry, max_size=5))
op = st.one_of(add, add, add, path, path, o("remove", I), o("mkdir", I), o("unset"), o("cd", I), o("derive", st.booleans()), o("register", st.booleans(), B), o("var", st.just(0), st.sampled_from(["A", "b", "é"])),
               o("clear", st.booleans()), o("clear", st.booleans()), o("look"), o("run", st.booleans(), st.one_of(N, B)), o("run", st.booleans(), st.one_of(N, B)))


class C25(Check):
    id = "C25"
    worker = "w25"
    quick = 60
    rule = ("Histories: programs added, made without x bit, removed, directories made, PATH set (absolute, relative, empty, missing, repeated, unreadable entries, links, plain files) or unset, cd, environments derived, builtins registered and brought by packages (entry points), the cache filled and cleared, names run. "
            "Oracle: the directories themselves and a registry model. Non-trivial: a look after a change.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, own=st.booleans(), packages=st.lists(st.lists(st.sampled_from(["foo", "pk1", "pk2", "zed"]), min_size=1, max_size=2, unique=True), max_size=1), othername=st.booleans(),
                         ops=st.lists(op, min_size=1, max_size=14))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["stats"]["looks"] + r["stats"]["runs"] > 1

    def classify(self, case, r):
        return sorted(set(x[0] for x in case["ops"])) + (["packages"] if case["packages"] else [])


CHECK = C25()
