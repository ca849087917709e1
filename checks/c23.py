from hypothesis import strategies as st
from harness.core import Check
from harness import gen

simple = st.one_of(
    st.sampled_from(["py", "print", "value", "semi", "def", "class", "try", "args", "args", "args", "name", "import", "startup", "std", "env", "var", "capture", "names"]).map(lambda k: [k]),
    st.integers(0, 3).map(lambda n: ["for", n]), st.booleans().map(lambda b: ["if", b]), st.sampled_from(["é", "a=b=c", "--cmd=x", "%d %s", "'\"", "日本"]).map(lambda s: ["uni", s]),
    st.sampled_from(["", "", "cat", "group", "plus", "wait"]).map(lambda f: ["cmd", f]))
special = st.one_of(st.just(["raise"]), st.just(["fail"]), st.integers(0, 5).map(lambda n: ["exit", n]), st.just(["stdin"]))
stmt = st.one_of(simple, simple, simple, simple, special)
once = st.one_of(simple, simple, simple, special)
opt = st.one_of(st.sampled_from(["--foo", "--foo=bar", "--a=b=c", "--empty=", "--é=ü", "--cmdx=1", "--logs", "--x-y=z w"]), st.tuples(gen.safe_name(1), st.text(alphabet="ab =-'\"%*", max_size=6)).map(lambda t: "--q%s=%s" % t))

# Names the shell, its start-up file and the statements above define, also used as environment variables
NAMES = ["TMP", "R", "PIPE", "STRING", "INIT", "CURRENT", "USERS", "pieshell", "PipelineError", "Redirect", "args", "kws", "env", "exports", "a", "system", "os", "i", "fs1", "startup_value", "OTHER"]


class C23(Check):
    id = "C23"
    worker = "w23"
    quick = 45
    timeout = 40.0
    rule = ("Command lines: an action (--cmd, files, --pcmd, --version, --help, the console), options in any order (--no-startup, --log, others), arguments; statements and commands with observable effects; home directories with and without start-up file, unwritable, with a start-up file that raises. The program is really started. "
            "Oracle: a model of the effects each statement has, in order, each once; output; exit status; home directory. Non-trivial: some effect, or nothing expected.")

    def strategy(self):
        return st.fixed_dictionaries({
            "action": st.sampled_from(["cmd", "cmd", "cmd", "files", "files", "pcmd", "version", "help", "console"]), "both": st.booleans(),
            "opts": st.lists(opt, max_size=2, unique_by=lambda s: s.split("=")[0]), "positional": st.lists(st.sampled_from(["arg", "two words", "-", "-x", "é", "", "a=b"]), max_size=2),
            "order": st.lists(st.integers(0, 9), max_size=4), "startup": st.booleans(), "log": st.sampled_from(["", "", "", "", "cmd", "io,ioevent,ioreg", "signal,cmd", "nonesuch"]),
            "home": st.sampled_from(["missing", "config", "given", "given", "raises", "unwritable"]), "stmt": once, "files": st.lists(st.lists(stmt, min_size=1, max_size=4), min_size=1, max_size=3), "spaces": st.booleans(), "final": st.booleans(),
            "input": st.sampled_from(["", "one\ntwo\n", "no newline", "é" * 50]), "var": st.sampled_from(["v", "é x", "1"]), "manager": gen.managers,
            "names": st.one_of(st.just([]), st.dictionaries(st.sampled_from(NAMES), st.sampled_from(["v", "/tmp/x", "é", ""]), max_size=4).map(lambda d: sorted(map(list, d.items()))))})

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["n"] > 0 or case["action"] in ("version", "help")

    def classify(self, case, r):
        return [case["action"], "startup " + case["home"] if case["startup"] else "no start-up"] + (["log"] if case["log"] else [])


CHECK = C23()
