from hypothesis import strategies as st
from harness.core import Check
from harness import gen

name = st.sampled_from(["a", "a", "b", "x1", "E1", "E1", "NEW", "len", "sorted", "é", "p", "q", "Long_Name"])
val = st.text(alphabet="ab %(*é'\"\n=$~", max_size=5)
anyval = st.one_of(val, val, st.integers(-5, 5), st.booleans(), st.none(), st.lists(st.integers(0, 3), max_size=2))
how = st.sampled_from(["expr", "file", "api", "for", "tuple", "walrus", "with", "global", "setitem"])
src = st.sampled_from(["expr", "file"])
api = st.sampled_from(["expr", "file", "api"])
op = st.one_of(
    st.tuples(st.just("assign"), name, anyval, how), st.tuples(st.just("assign"), name, val, how), st.tuples(st.just("assign"), name, val, how),
    st.tuples(st.just("def"), name, val, st.just("file")),
    st.tuples(st.just("import"), name, st.booleans(), src),
    st.tuples(st.just("add"), name, val, src),
    st.tuples(st.just("export"), name, val, api), st.tuples(st.just("export"), name, val, api),
    st.tuples(st.just("unexport"), name, st.booleans()),
    st.tuples(st.just("del"), name, src),
    st.tuples(st.just("read"), name, src), st.tuples(st.just("read"), name, src),
    st.tuples(st.just("function"), name),
    st.tuples(st.just("newenv"), st.just(""), st.booleans()),
    st.tuples(st.just("temp"), name, val, name, st.booleans()),
    st.tuples(st.just("child"), st.just(""), st.sampled_from(["expr", "api"])),
    st.tuples(st.just("expand"), name, st.sampled_from(["expr", "api"])), st.tuples(st.just("expand"), name, st.sampled_from(["expr", "api"]))).map(list)


class C10(Check):
    id = "C10"
    worker = "w10"
    quick = 120
    rule = ("A history of 4 to 25 operations in a shell scope: assign (9 ways: statements, loops, with, walrus, global, files, the dictionary), +=, def, import, del, export, un-export, replace the environment (also temporarily, left normally or by an exception), and observations: read "
            "(also within functions and classes), % expansion in an argument, the environment of a child process. Oracle: a model with locals, exports, surrounding module, builtins and commands. Non-trivial: an "
            "assignment or export and a later observation.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, parent_used=st.booleans(), parent=st.dictionaries(st.sampled_from(["p", "q", "a", "len", "b"]), val, max_size=4).map(lambda d: sorted(map(list, d.items()))),
                         ops=st.lists(op, min_size=4, max_size=25))

    def judge(self, case, r):
        return r["problems"][0] if r["problems"] else None

    def nontrivial(self, case, r):
        c = r["counts"]
        return any(k in c for k in ("assign", "export", "add")) and any(k in c for k in ("read", "function", "child", "expand"))

    def classify(self, case, r):
        return [case["manager"], "parent" if case["parent_used"] else "no parent"] + sorted(r["counts"]) + sorted(set("assign by " + o[3] for o in case["ops"] if o[0] == "assign"))


CHECK = C10()
