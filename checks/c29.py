from hypothesis import strategies as st
from harness.core import Check
from harness import gen

text = st.text(alphabet="ab -_=/%'\"$`\\;&|<>(){}#!^,:@é\n\t", max_size=8)
arg = st.one_of(
    st.tuples(st.just("s"), text), st.tuples(st.just("s"), text), st.tuples(st.just("r"), st.text(alphabet="ab *?[]~%'\"$\\é", max_size=8)),
    st.tuples(st.just("danger"), st.integers(0, 10), st.booleans()), st.tuples(st.just("danger"), st.integers(0, 10), st.booleans()),
    st.tuples(st.just("kw"), st.sampled_from(["a", "long_name", "x1"]), st.one_of(st.booleans(), text)),
    st.sampled_from([("glob",), ("var",), ("svar",), ("pipe",), ("fn",), ("iter",)])).map(list)
args = st.lists(arg, max_size=4)
item = st.one_of(st.sampled_from(["status", "stash", "commit", "--all", "--sort=", "a b", "x.txt", "dir/", "é", "$HOME", "two  spaces", "-x", "trailing ", "Zed", "%s"]), gen.safe_name())
items = st.lists(item, min_size=1, max_size=6, unique_by=lambda x: x.strip())
option = st.tuples(st.sampled_from(["all", "almost-all", "color", "sort", "Block-Size", "from", "class", "no-x", "help", "version", "name", "value", "aa"]), st.sampled_from(["flag", "flag", "value", "value", "optional"]),
                   st.sampled_from(["WHEN", "<number>", "<file>", "N", "a|b", "{x,y}", "always", "KEY=VAL", "FMT:X", "_N_", "MRO", "1", "é", "mro", "__init__", "x..."]), st.integers(0, 4)).map(list)
part = st.sampled_from(["a", "a/b", "b", "PARENT", "PARENT", "ROOT", "@/tree", "@/tree/x y", "x y", "link", "missing", "file", "here", ".", ".dot"])
help_text = st.lists(st.text(alphabet="ab -=é%'\"\t<>", max_size=20), max_size=6).flatmap(lambda l: st.sampled_from(["\n".join(l), "\n".join(l) + "\n"]))
op = st.one_of(
    st.tuples(st.just("complete"), st.sampled_from(["tool", "tool", "t", "my-tool", "tool2.sh"]), args, items, st.booleans()),
    st.tuples(st.just("complete"), st.sampled_from(["tool", "tool", "t", "my-tool", "tool2.sh"]), args, items, st.booleans()),
    st.tuples(st.just("cd"), st.lists(part, max_size=3), st.booleans()), st.tuples(st.just("cd"), st.sampled_from([["~"], ["~/docs"], ["~", "PARENT"]]), st.just(True)),
    st.tuples(st.just("help"), args, help_text, st.booleans()),
    st.tuples(st.just("sig"), args, st.lists(option, max_size=5)),
    st.tuples(st.just("describe"), st.sampled_from(["pipe", "group", "redirect", "iter", "input", "fn", "subshell", "subshell2", "remote", "source", "cd", "fg", "pipesub"]), st.sampled_from(["dir", "doc", "sig", "pydoc"])),
    st.tuples(st.just("rl"), items, st.sampled_from(["", "sta", "x"])),
    st.tuples(st.sampled_from(["rl", "rl", "jedi"]), items, st.sampled_from(["", "sta", "x"])),
    st.tuples(st.sampled_from(["last", "last", "last", "pydoc"]), st.booleans())).map(list)


class C29(Check):
    id = "C29"
    worker = "w29"
    quick = 60
    rule = ("1 to 6 operations: completing commands with arguments of every kind (also ones that are shell code, keywords, patterns, variables, pipelines, functions), directly, through readline's completer and jedi's; completing cd; help texts and signatures of programs with generated --help output; completion, signature and help of all other kinds of pipelines and builtins; in any directory, with a pipeline in the background. "
            "bash's completion is real, with a generated completion function that reports what it was asked. Oracle: the words denoted, the directory tree, the option list; nothing else run; state of the environment. Non-trivial: something completed or described.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, interactive=st.booleans(), scope=st.sampled_from([True, True, False]), cwd=st.integers(0, 2), bg=st.booleans(), ops=st.lists(op, min_size=1, max_size=6))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return any(k != "last" for k in r["stats"])

    def classify(self, case, r):
        return [case["manager"], "interactive" if case["interactive"] else "not interactive"] + sorted(r["stats"]) + sorted(set("argument " + a[0] for o in case["ops"] if o[0] == "complete" for a in o[2]))


CHECK = C29()
