import json
from hypothesis import strategies as st
from harness.core import Check
from harness import gen

word = st.one_of(st.sampled_from(["a", "b c", "x=y", "é€", "-v", "--opt", "'\"$`\\", "", "in", "a\nb", "100%%", "%(VA)s", "*", "d*", "~"]), st.text(alphabet="ab \t'\"\\$-=", max_size=5))
rword = st.one_of(word.filter(lambda s: s not in ("100%%", "%(VA)s")), st.sampled_from(["100%", "*", "%(VA)s"]))
name = st.sampled_from(["opt", "verbose", "x", "name"])


def arg(node):
    return st.one_of(st.tuples(st.just("s"), word), st.tuples(st.just("s"), word), st.tuples(st.just("R"), rword), st.tuples(st.just("kw"), name, st.one_of(word, st.integers(0, 9))), st.tuples(st.just("dict"), name, word), st.tuples(st.just("attr"), name),
                     *([st.tuples(st.just("arg"), node), st.tuples(st.just("kwp"), name, node), st.tuples(st.just("list"), st.lists(gen.safe_name(), max_size=3))] if node is not None else [])).map(list)


def cmd(node): return st.tuples(st.just("cmd"), gen.fixed(args=st.lists(arg(node), max_size=3), reads=st.just(True), err=st.sampled_from([0, 0, 1, 2]), code=st.sampled_from([0, 0, 0, 0, 1, 7, -9]))).map(list)


simple = cmd(None)
fn = st.just(["fn"])


def node(depth):
    if not depth: return simple
    n = node(depth - 1)
    c = cmd(n)
    src = st.one_of(c, c, c, fn, st.tuples(st.just("list"), st.lists(gen.safe_name(), max_size=3)).map(list))
    pipe = st.tuples(src, st.lists(st.one_of(c, c, fn), min_size=1, max_size=2)).map(lambda t: ["pipe", t[0]] + t[1])
    redir = st.tuples(st.just("redir"), st.one_of(st.tuples(st.sampled_from(["err", "in", "inpath", "null"]), st.none()).map(lambda t: [t[0], {"err": "err-file", "in": "in", "inpath": "in", "null": None}[t[0]]])), n).map(list)
    return st.one_of(c, pipe, pipe, redir, st.tuples(st.just("add"), n, n).map(list), n)


def quiet(n, seen):
    if n[0] == "cmd":
        if seen[0]: n[1]["err"] = 0
        seen[0] = seen[0] or n[1]["err"] > 0
        for a in n[1]["args"]:
            if a[0] in ("arg", "kwp"): quiet(a[-1], seen)
    elif n[0] != "list":
        for x in n[1:]:
            if isinstance(x, list) and x and x[0] in ("cmd", "pipe", "add", "redir"): quiet(x, seen)


class _Fix(object):
    """Only commands read their input, only the first stage of a pipeline has one from a file, and so on."""
    def __init__(self): self.n = 0

    def __call__(self, n, top=True):
        k = n[0]
        if k == "cmd":
            for a in n[1]["args"]:
                if a[0] == "arg": a[1] = self(a[1], False)
                if a[0] == "kwp": a[2] = self(a[2], False)
        elif k in ("pipe",): n[1:] = [self(x, False) for x in n[1:]]
        elif k == "add": n[1:] = [self(x, False) for x in n[1:]]
        elif k == "redir":
            n[2] = self(n[2], False)
            if n[1][0] == "err":
                self.n += 1
                quiet(n[2], [False])     # one writer per file
                n[1][1] = ".err-file%d" % self.n
        return n


history = st.one_of(st.sampled_from([["run"], ["fail"], ["start"], ["reading"], ["dir"], ["iter"], ["default"], ["self"], ["text"]]), st.tuples(st.just("cd"), st.sampled_from(["d1", "d2/sub", "d2", ".", "dir with spaces*"])).map(list),
                    st.tuples(st.just("export"), st.sampled_from(["VA", "VB"]), st.sampled_from(["1", "x y", "", "é'\"$"])).map(list))
exports = st.dictionaries(st.just("VB"), st.sampled_from(["vb", "", "é 'x'"]), max_size=1)
DIRS = ["d1", "d2/sub", "d2", ".", "dir with spaces*"]


def feed(c):
    n = c["p"] if c["p"][0] != "pipe" else c["p"][1]
    if n[0] != "cmd": c["input"] = None
    elif c["input"] is not None: n[1]["reads"] = "stdin"
    return c


def canon(case, run):
    """Parts of groups run at the same time, so their lines come in any order."""
    if run.get("procs"): run = dict(run, procs=[[a, b, c and sorted(c)] for a, b, c in run["procs"]])    # shared with the commands of arguments
    if '["add"' not in json.dumps(case["p"]): return run
    l = lambda t: sorted(t)
    return dict(run, out=l("\n".join(run["out"])), files={k: l(v) for k, v in run["files"].items()})


class C18(Check):
    id = "C18"
    worker = "w18"
    quick = 60
    rule = ("Pipelines of commands with all forms of arguments, pipes, groups, redirections, functions of modules and lists, in the default or an own environment (directory, variables, redirections, scope), pickled at any point of a history (pipelines run, failed, "
            "running, being read, itself already run, directory and variables changed) with any protocol, and restored in the same and in another process; and pipelines run through remote() with a stand-in for ssh. Oracle: text, output, files, "
            "outcome, exit codes and captured errors equal those of the original; the arguments of ssh. Non-trivial: over one command, or a history.")

    def strategy(self):
        own = gen.fixed(kind=st.sampled_from(["own", "own", "derived"]), cwd=st.one_of(st.none(), st.sampled_from(DIRS)), exports=exports, interactive=st.sampled_from([False, False, True]), scope=st.booleans())
        env = st.one_of(own, own, st.just({"kind": "default", "cwd": None, "exports": {}, "interactive": False, "scope": False}))
        tree = st.integers(0, 3).flatmap(node).map(lambda n: _Fix()(n))
        local = gen.fixed(fn=st.just("run"), manager=gen.managers, p=tree, env=env, history=st.lists(history, max_size=6), built=st.sampled_from(["first", "last"]), mode=st.sampled_from(["list", "str", "tmp", "plus"]), fresh=st.booleans(),
                          again=st.booleans(), twice=st.booleans(), order=st.booleans(), protocol=st.sampled_from([None, None, 2, 3, 4]))
        opts = st.lists(st.one_of(st.sampled_from(["-v", "-p", "22", "-oUser=x y", "me@host"]).map(lambda s: ["s", s]), st.tuples(st.just("dict"), st.just("opt"), st.sampled_from(["1", "a b"])).map(list), st.just(["R", "100%*"])), max_size=3)
        rem = gen.fixed(fn=st.just("remote"), manager=gen.managers, p=tree, env=gen.fixed(cwd=st.sampled_from(["d1", None]), exports=exports), opts=st.tuples(opts, st.just(["s", "host"])).map(lambda t: t[0] + [t[1]]), input=st.one_of(st.none(), st.lists(gen.safe_name(), max_size=3)),
                        cat=st.booleans(), mode=st.sampled_from(["list", "plus"])).map(feed)
        return st.integers(0, 11).flatmap(lambda k: local if k else rem)

    def judge(self, case, r):
        if case["fn"] == "remote":
            a, b = [canon(case, x) for x in r["runs"]]
            for k in ("out", "failed", "files"):
                if a[k] != b[k]: return "through remote(): %s is %s, locally it is %s" % (k, gen.short(a[k]), gen.short(b[k]))
            want = ["--%s=%s" % (o[1], o[2]) if o[0] == "dict" else o[1] for o in case["opts"]]
            if r["args"][:-1] != want: return "ssh got the arguments %r, expected %r and the command" % (r["args"], want)
            return None
        if "error" in r: return r["error"]
        if r["before"] != r["after"]: return "pickling changed the pipeline: %r, was %r" % (r["after"], r["before"])
        for t in r["texts"]:
            if t != r["before"]: return "the restored pipeline is %r, the original is %r" % (t, r["before"])
        if r["same_env"]: return "the restored pipeline shares the environment of the original"
        runs = {name: canon(case, x) for name, x in r["runs"]}
        o = runs["original"]
        for name, x in runs.items():
            if name == "original": continue
            for k in sorted(set(o) | set(x)):
                if o.get(k) != x.get(k): return "%s: %s is %s, of the original it is %s" % (name, k, gen.short(x.get(k)), gen.short(o.get(k)))

    def nontrivial(self, case, r):
        return case["p"][0] != "cmd" or bool(case.get("history"))

    def classify(self, case, r):
        if case["fn"] == "remote": return ["remote"]
        return [case["manager"], case["env"]["kind"], case["mode"], "exc %s" % dict(r["runs"])["original"]["exc"] if "runs" in r else "error"] + sorted(set(h[0] for h in case["history"])) + (["fresh"] if case["fresh"] else [])


CHECK = C18()
