from hypothesis import strategies as st
from harness.core import Check
from harness import gen

comp = st.one_of(st.integers(0, 12), st.integers(0, 12), st.sampled_from(["..", ".."]), st.sampled_from([".", "~"]))
step = st.tuples(st.sampled_from(["", "", "", "~", "/", "abs", "cwd"]), st.lists(comp, max_size=5), st.sampled_from([None] * 7 + ["file", "missing", "locked", "unknown", "gone"]),
                 st.sampled_from(["args", "args", "names", "names", "one", "_cd", "call", "item", "scope", "run", "await", "repr", "home", "_"])).map(list)


class C09(Check):
    id = "C09"
    worker = "w09"
    quick = 90
    rule = ("1 to 12 changes of directory in a tree with links, unreadable, unsearchable and removed directories and files: walks through existing directories with .. and ., from the current directory, ~, the root or an "
            "absolute path, given as one path, several arguments, attribute names (PARENT, ROOT), through cd in 7 ways, env(), env[] and the scope, interactive or not, the process itself having moved elsewhere in between or not; or a change that has to fail. Oracle: a model of "
            "logical cd; environment, process and a command's directory are compared. Non-trivial: at least two steps, one of them not a plain name.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, interactive=st.booleans(), steps=st.lists(step, min_size=1, max_size=12).map(self.tidy), away=st.lists(st.integers(0, 11), max_size=2))

    @staticmethod
    def tidy(steps):
        for s in steps:
            s[1] = [c for i, c in enumerate(s[1]) if c != "~"]
            if s[0] == "/": s[1] = [c for c in s[1] if isinstance(c, int)][:1] + s[1]
        return steps

    def judge(self, case, r):
        return r["problems"][0] if r["problems"] else None

    def nontrivial(self, case, r):
        return len(case["steps"]) > 1 and (r["bad"] > 0 or any(s[0] or ".." in s[1] for s in case["steps"]))

    def classify(self, case, r):
        return [case["manager"], "interactive" if case["interactive"] else "not interactive"] + sorted(set(s[3] for s in case["steps"])) + sorted(set("fail " + s[2] for s in case["steps"] if s[2])) + sorted(
            set("from " + (s[0] or "here") for s in case["steps"]))


CHECK = C09()
