from hypothesis import strategies as st
from harness.core import Check
from harness import gen

USES = ["list", "bytes", "str", "aiter", "read", "read", "bg", "file", "pos", "inter", "await", "out", "pickle"]
FORMS = ["str", "kw", "attr", "split", "under", "given", "given_", "pass", "passarg"]


class Draw(object):
    def __init__(self, draw):
        self.draw, self.n, self.size = draw, 0, 0

    def name(self):
        self.n += 1
        return "c%d" % self.n

    def leaf(self, cmd=False):
        self.size += 1
        if not cmd and self.draw(st.integers(0, 4)) == 4: return ["fn", self.name(), self.draw(st.integers(0, 5)) == 5]
        return ["cmd", self.name(), self.draw(st.lists(st.sampled_from(["x", "y y", "é"]), max_size=2)), self.draw(st.sampled_from([0, 0, 0, 0, 0, 3, 7]))]

    def tree(self, depth, head=True):
        """head: may have an input of its own; a part that another one writes to must read that"""
        k = self.draw(st.sampled_from(["leaf", "pipe", "pipe", "pipe", "add", "list", "file", "err", "string", "arg", "kwarg", "bi", "bi", "bi", "bi"]))
        if self.size > 6 or depth <= 0: k = "leaf"
        if k in ("list", "file") and not head: k = "bi"
        d = depth - 1
        if k == "leaf": return self.leaf()
        if k == "pipe": return [k, self.tree(d, head), self.tree(d, False)]
        if k == "add": return [k, self.tree(d, head), self.tree(d, head)]
        if k in ("list", "file"): return [k, self.draw(st.lists(st.sampled_from(["l1", "l 2", "é"]), max_size=3)), self.tree(d, k == "file")]
        if k == "kwarg":
            self.size += 1
            return [k, self.name(), self.tree(d, head)]
        if k == "bi":
            form = self.draw(st.sampled_from(FORMS))
            if form == "pass": return [k, form, self.leaf(cmd=True)]
            return [k, form, self.tree(d, head)]
        return [k, self.tree(d, head)]


def walk(t):
    yield t
    for x in t:
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in KINDS:
            for y in walk(x): yield y


KINDS = {"cmd", "fn", "pipe", "add", "list", "file", "err", "string", "arg", "kwarg", "bi"}


class File(list): pass


class Model(object):
    """Lines of a pipeline: (lines, ordered?), given its input; records what its commands do."""
    def __init__(self, tree):
        self.ran, self.kw, self.failed, self.err, self.strings = {}, {}, [], [], []
        self.ordered, self.shared = True, False
        self.out = self(tree, [], "string")

    @staticmethod
    def again(inp):
        """What another reader gets: each opens a file by itself, but they share the content of a pipe."""
        return inp if isinstance(inp, File) else []

    def __call__(self, t, inp, err):
        k = t[0]
        if k == "cmd":
            self.ran[t[1]] = self.ran.get(t[1], 0) + 1
            if t[3]: self.failed.append(str(t[3]))
            self.stderr(err, t[1])
            return list(inp) + [t[1]] + t[2]
        if k == "fn":
            if t[2]: self.failed.append("function")
            if err == "string": self.strings.append("")
            return list(inp) + [t[1]]
        if k == "pipe": return self(t[2], self(t[1], inp, err), err)
        if k == "add":
            self.ordered = False
            return self(t[1], inp, err) + self(t[2], self.again(inp), err)
        if k in ("list", "file"):
            if k == "list" and err == "string": self.strings.append("")
            return self(t[2], File(t[1]) if k == "file" else list(t[1]), err)
        if k == "err": return self(t[1], inp, "file")
        if k == "string": return self(t[1], inp, "string")
        if k in ("arg", "kwarg") or (k, t[1]) == ("bi", "passarg"):
            # The argument reads the same input
            self.ordered, self.shared = False, True
            a = self(t[-1], self.again(inp), err)
            if k == "kwarg":
                self.ran[t[1]] = self.ran.get(t[1], 0) + 1
                self.kw["kw-" + t[1]] = a
                self.stderr(err, None)
                return list(inp)
            self.stderr(err, None)
            return list(inp) + a
        if k == "bi": return self(t[2], inp, err)
        raise ValueError(k)

    def stderr(self, err, name):
        if err == "file" and name: self.err.append("err " + name)
        if err == "string": self.strings.append("err %s\n" % name if name else "")


class C28(Check):
    id = "C28"
    worker = "w28"
    quick = 60
    rule = ("Trees of commands, functions, pipes, groups, lists, files, error redirections, pipelines as arguments, and builtins (written as in the README) that run a generated tree of their own, the pipeline they are given, "
            "or a command with their arguments; each run in 1 to 3 of 12 ways, and displayed. Oracle: the lines, exit codes, captured errors and starts of the same tree with each builtin replaced by what it runs, from a model "
            "and from running that. Non-trivial: a builtin inside of something.")

    def strategy(self):
        @st.composite
        def case(draw):
            d = Draw(draw)
            t = d.tree(4)
            nodes = list(walk(t))
            if not any(x[0] == "bi" for x in nodes):
                # some part of it
                x = nodes[-1 - draw(st.integers(0, len(nodes) - 1))]
                x[:] = ["bi", draw(st.sampled_from(FORMS[:7])), list(x)]
            return dict(manager=draw(gen.managers), tree=t, uses=draw(st.lists(st.sampled_from(USES), min_size=1, max_size=3)), show=draw(st.integers(0, 3)) == 0,
                        picklable=not any(x[0] == "fn" for x in walk(t)))
        return case()

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])
        t = case["tree"]
        m = Model(t)
        fails = "ok" if not m.failed else sorted(m.failed)
        for how, got, plain in r["runs"]:
            for (v, o, s, ran, kw, err, tmp), who in ((plain, "the pipeline without builtins of %r" % r["text"]), (got, r["text"])):
                def bad(what, g, w): return "%s, %s: %s %s, expected %s" % (who, how, what, gen.short(g), gen.short(w))
                # Where several parts read the same input, any of them may get it
                allv = None if v is None else v + sorted(sum(kw.values(), []))
                want = m.out + sorted(sum(m.kw.values(), []))
                if o != fails: return bad("ended as", o, fails)
                if allv is not None and sorted(allv) != sorted(want): return bad("gave", allv, want)
                if v is not None and m.ordered and v != m.out: return bad("gave", v, m.out)
                if ran != m.ran: return bad("started", ran, m.ran)
                # An argument writes its errors to where the command does
                if m.shared: s, strings = [sorted(set("".join(x).splitlines())) for x in (s or m.strings, m.strings)]
                else: strings = sorted(m.strings)
                if s is not None and sorted(s) != strings: return bad("captured", s, strings)
                if sorted(err) != sorted(m.err): return bad("wrote errors", err, m.err)
                if tmp: return bad("left", tmp, [])
        if "shown" in r:
            v, o = r["shown"]
            if sorted(x for x in v if x) != sorted(m.out) and not m.kw: return "%s, displayed: gave %s, expected %s" % (r["text"], v, m.out)
            if o != fails: return "%s, displayed: ended as %s, expected %s" % (r["text"], o, fails)

    def nontrivial(self, case, r):
        return case["tree"][0] != "bi" or sum(x[0] == "bi" for x in walk(case["tree"])) > 1

    def classify(self, case, r):
        t = list(walk(case["tree"]))
        return [case["manager"]] + sorted(set(case["uses"])) + sorted(set(x[0] for x in t)) + sorted(set("builtin " + x[1] for x in t if x[0] == "bi")) + (
            ["fails"] if any(x[0] == "cmd" and x[3] or x[0] == "fn" and x[2] for x in t) else []) + ["builtins %d" % min(4, sum(x[0] == "bi" for x in t))]


CHECK = C28()
