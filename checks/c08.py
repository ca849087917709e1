from hypothesis import strategies as st
from harness.core import Check
from harness import gen

i = st.integers(0, 7)
path = st.one_of(st.tuples(st.just("abs"), st.integers(0, 7)), st.tuples(st.just("rel"), st.integers(0, 5))).map(list)
var = st.sampled_from(["A", "B", "LONG_NAME_1", "PATH", "HOME", "é", "lower"])
val = st.text(alphabet="ab =%$'\"\né€", max_size=6)
exports = st.dictionaries(var, val, max_size=4).map(lambda d: sorted(map(list, d.items())))
none = st.none()
ops = {
    "derive": st.tuples(st.just("derive"), i, st.one_of(none, path), st.one_of(none, none, exports), st.sampled_from([None, None, True, False])),
    "item": st.tuples(st.just("item"), i, path),
    "cd": st.tuples(st.just("cd"), i, path, st.booleans()),
    "set": st.tuples(st.just("set"), i, var, val),
    "del": st.tuples(st.just("del"), i, var),
    "chdir": st.tuples(st.just("chdir"), i, i),
    "osenv": st.tuples(st.just("osenv"), i, var.filter(lambda v: v not in ("PATH", "HOME")), val),
    "out": st.tuples(st.just("out"), i, st.booleans()),
    "err": st.tuples(st.just("err"), i),
    "run": st.tuples(st.just("run"), i, i),
    "pipe": st.tuples(st.just("pipe"), i, i),
    "group": st.tuples(st.just("group"), i, i, st.booleans()),
    "hold": st.tuples(st.just("hold"), i),
    "bg": st.tuples(st.just("bg"), i),
    "which": st.tuples(st.just("which"), i, st.lists(st.integers(0, 3), min_size=1, max_size=3)),
    "release": st.tuples(st.just("release"), i, i),
}
op = st.one_of(*[ops[k] for k in ["derive", "derive", "derive", "item", "cd", "cd", "set", "set", "del", "chdir", "osenv", "out", "err", "run", "run", "pipe", "group", "hold", "bg", "which", "release"]]).map(list)


class C08(Check):
    id = "C08"
    worker = "w08"
    quick = 80
    rule = ("A history of 6 to 25 operations on a growing set of environments: derive (with or without a directory, variables, mode), index, cd, set or delete a variable, change the process's own directory or "
            "environment, set default redirections, set PATH and run a command by name, and run commands (alone, piped across environments, grouped, in the background, or built earlier and run later). Oracle: a model of every environment; each command "
            "reports its directory and environment; after each step all environments and the process's directory are compared. Non-trivial: a command run with two or more environments.")

    def strategy(self):
        run = ops["run"].map(list)
        return gen.fixed(manager=gen.managers, root=st.sampled_from(["derived", "derived", "root"]), ops=st.tuples(st.lists(op, min_size=5, max_size=22), st.lists(run, min_size=1, max_size=3)).map(lambda t: t[0] + t[1]))

    def judge(self, case, r):
        return r["problems"][0] if r["problems"] else None

    def nontrivial(self, case, r):
        return r["envs"] > 1 and r["runs"] > 0

    def classify(self, case, r):
        return [case["manager"], case["root"], "environments %d" % min(r["envs"], 8)] + sorted(set(o[0] for o in case["ops"]))


CHECK = C08()
