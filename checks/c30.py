from hypothesis import strategies as st
from harness.core import Check
from harness import gen

name = st.sampled_from(["tool", "foo", "foo-bar", "Foo", "7z", "sh2", "é", "pid", "name", "cwd", "ppid", "status", "import", "x" * 20, "with space", "parent", "info", "threads", "++"])
arg = st.one_of(st.sampled_from(["status", "foo", "--long", "--opt=v", "--opt=two words", "-e", "two words", "é", "1.5", "", "'", "a\nb", "--"]), gen.safe_name().filter(lambda a: len(a) > 1))


def node(d):
    return st.fixed_dictionaries({
        "name": name, "args": st.lists(arg, max_size=3), "leads": st.sampled_from(["", "", "group", "session"]), "threads": st.sampled_from([0, 0, 0, 1, 3]),
        "then": st.sampled_from(["", "", "", "stop", "kill", "kill"]), "kids": st.lists(node(d - 1), min_size=int(d == 2), max_size=3) if d else st.just([])})


login = st.tuples(st.sampled_from(["al", "al", "al", "bob", "carol-x", "é", "7up"]), st.sampled_from(["", "h1", "h1", "h1", "h-1", "192.168.0.1", "localhost"]), st.integers(0, 12)).map(list)

# Several of one name and host
same = st.lists(st.tuples(st.just("al"), st.sampled_from(["h1", "h1", "h1", "h2", ""]), st.integers(0, 4)).map(list), min_size=2, max_size=4, unique_by=lambda l: l[2])


class C30(Check):
    id = "C30"
    worker = "w30"
    quick = 60
    rule = ("Trees of 1 to 40 processes (3 levels) with generated names, arguments, threads, some leading a process group or a session; pipelines of 1 to 3 of them, with children of their own or not; logins of them and of processes that have ended; looked at when all run, when some are stopped, ended (zombies, orphans), and when all have ended. "
            "Oracle: /proc, the system calls, and psutil asked directly. Non-trivial: at least two processes.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, trees=st.lists(node(2), min_size=1, max_size=2), pipe=st.lists(node(0), max_size=3), logins=st.one_of(st.lists(login, max_size=4, unique_by=lambda l: l[2]), same))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["n"] > 1

    def classify(self, case, r):
        return [case["manager"], "processes %s" % min(r["n"], 10)] + sorted(set(r["states"])) + (["pipeline"] if case["pipe"] else []) + (["logins"] if case["logins"] else []) + sorted(r["kinds"])


CHECK = C30()
