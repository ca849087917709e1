from hypothesis import strategies as st
from harness.core import Check
from harness import gen

ALPHA = "abxyzABZ019-_.+@=é ß,"
name = st.one_of(
    st.sampled_from(["cat2", "foo", "Foo", "foo-bar", "foo_bar", "foo.bar", "7z", "n7z", "import", "lambda", "class", "n1", "1", "++", "-", "_", "foo__bar", "sha256sum2", "python3.9", "is", "children", "key", "é", "x" * 40, "日本", "None"]),
    st.text(alphabet="abcdefghij", min_size=1, max_size=4),
    st.text(alphabet=ALPHA, min_size=1, max_size=6).filter(lambda s: s.strip() and s not in (".", "..")))
fname = st.one_of(st.sampled_from(["foo", "helper", "f_1", "Foo", "import", "_private", "__x__", "foo_bar", "cat2", "é"]), st.text(alphabet="abcdefghij", min_size=1, max_size=4))
arg = st.one_of(st.sampled_from(["status", "foo", "--long", "-e", "two words", "é", "1.5", ".sub", ".status"]), st.sampled_from([{"opt": "v"}, {"flag": True}, {"opt": "w"}]))


def stage(d):
    cmd = st.fixed_dictionaries({"kind": st.just("cmd"), "bin": st.integers(0, 5), "path": st.sampled_from([0, 0, 0, 1, 2]), "args": st.lists(arg, max_size=2), "sub": st.one_of(st.none(), st.none(), st.none(), pipe(d - 1)) if d else st.none()})
    fn = st.fixed_dictionaries({"kind": st.just("fn"), "name": fname, "fn": st.sampled_from(["plain", "plain", "module", "nomodule", "method", "lambda", "gen"])})
    return st.one_of(cmd, cmd, cmd, cmd, fn, fn)


def pipe(d):
    first = st.one_of(stage(d), stage(d), stage(d), st.just({"kind": "iter"}))
    return st.lists(st.tuples(first, st.lists(stage(d), max_size=3 if d else 1)).map(lambda t: [t[0]] + t[1]), min_size=1, max_size=3 if d else 1)


def same(case):
    if case["dup"]:
        g = case["pipe"][0]
        case["pipe"].append([dict(x) for x in g])
    return case


class C22(Check):
    id = "C22"
    worker = "w22"
    quick = 60
    rule = ("Pipelines of commands with generated names (any characters, equal, equal but for case or punctuation, keywords, digits, paths), equal and different arguments, functions, lambdas, methods, iterators, argument pipelines, groups; while running, when some parts were killed, and finished; and child processes (of the shell, of a process of a pipeline, zombies). "
            "Oracle: the set of processes; walking dir()/getattr() must find each exactly once, by identifiers; unique plain names directly. Non-trivial: two parts.")

    def strategy(self):
        kid = st.fixed_dictionaries({"bin": st.integers(0, 5), "dir": st.booleans(), "args": st.lists(st.sampled_from(["-x", "foo", "two words"]), max_size=1), "argv0": st.sampled_from(["", "", "other"]), "zombie": st.sampled_from([False, False, False, True]), "under": st.booleans()})
        return st.fixed_dictionaries({"names": st.lists(name, min_size=1, max_size=4), "pipe": pipe(1), "dup": st.booleans(), "kids": st.one_of(st.just([]), st.lists(kid, max_size=4)), "state": st.sampled_from(["run", "run", "mixed"]), "manager": gen.managers}).map(same)

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["n"] > 1

    def classify(self, case, r):
        return [case["state"]] + (["children"] if case["kids"] else []) + (["zombies"] if any(k["zombie"] for k in case["kids"]) else []) + (["duplicates"] if case["dup"] else [])


CHECK = C22()
