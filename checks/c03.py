from hypothesis import strategies as st
from harness.core import Check
from harness import gen

CMDS = ["cat", "cat2", "tr", "sort", "tac", "sed", "uniq", "firsts", "evens", "rot", "nl"]
FNS = ["upper", "dup", "number", "drop", "none", "bytes", "split", "pad", "len", "reverse", "count", "join", "ident"]
PERLINE_C = ["cat", "cat2", "tr", "sed", "rot"]
PERLINE_F = ["upper", "none", "bytes", "ident"]


def expand(spec):
    return [s for l in spec for s in ([l] if isinstance(l, str) else [l[0]] * l[1])]


def lines(t):
    l = t.split("\n")
    return l[:-1] if l[-1] == "" else l


def cmd(name, t):
    ls = t[:-1].split("\n") if t else []
    b = None
    if name in ("cat", "cat2"): return t
    if name == "tr": return "".join(c.upper() if "a" <= c <= "z" else c for c in t)
    if name == "rot": return t.translate(str.maketrans("abc", "bca"))
    if name == "sed": return t.replace("a", "b-b")
    if name == "sort": b = sorted(ls, key=lambda l: l.encode("utf-8"))
    if name == "tac": b = ls[::-1]
    if name == "uniq": b = [l for i, l in enumerate(ls) if i == 0 or l != ls[i - 1]]
    if name == "firsts": b = ls[:3]
    if name == "evens": b = ls[1::2]
    if name == "nl": b = [x for i, l in enumerate(ls) for x in (str(i + 1), l)]
    return "".join(l + "\n" for l in b)


def fn(name, t):
    ls = t[:-1].split("\n") if t else []
    f = {"upper": lambda i, l: [l.upper()], "dup": lambda i, l: [l, l], "number": lambda i, l: ["%d:%s" % (i, l)], "drop": lambda i, l: [l] if i % 2 == 0 else [],
         "none": lambda i, l: [l], "bytes": lambda i, l: [l], "split": lambda i, l: ["<\n" + l], "pad": lambda i, l: [l + "=" * 3000], "len": lambda i, l: [str(len(l))],
         "ident": lambda i, l: [l]}
    if name == "reverse": b = ls[::-1]
    elif name == "count": b = [str(len(ls))]
    elif name == "join": b = ["+".join(ls)]
    else: b = [x for i, l in enumerate(ls) for x in f[name](i, l)]
    return "".join(l + "\n" for l in b)


def model(n, t):
    """Text -> text, for trees without groups."""
    if n["t"] == "pipe": return model(n["b"], model(n["a"], t))
    if n["t"] == "src": return "".join(l + "\n" for l in expand(n["lines"]))
    return (cmd if n["t"] == "cmd" else fn)(n["name"], t)


def parts(n, t=""):
    """The outputs of the parts of a tree given t as input: one, unless it contains a group."""
    if n["t"] == "group": return parts(n["a"], t) + parts(n["b"], t)
    if n["t"] == "pipe":
        ps = parts(n["a"], t)
        return parts(n["b"], ps[0]) if len(ps) == 1 else [model(n["b"], x) for x in ps]
    return [model(n, t)]


def leftmost(n):
    while n["t"] == "pipe": n = n["a"]
    return n


def leaves(n):
    return leaves(n["a"]) + leaves(n["b"]) if n["t"] in ("pipe", "group") else [n]


@st.composite
def bracket(draw, stages, spine=False):
    """Some parenthesisation of a | b | c ..."""
    if len(stages) == 1: return stages[0]
    i = len(stages) - 1 if spine else draw(st.integers(1, len(stages) - 1))
    return {"t": "pipe", "a": draw(bracket(stages[:i], spine)), "b": draw(bracket(stages[i:]))}


delay = st.sampled_from([0, 0, 0, 1, 5, 15])


def source(line):
    return gen.fixed(t=st.just("src"), wrap=st.booleans(), delay=delay, kind=st.sampled_from(["list", "gen", "fn", "agen", "file", "cat", "probe"]),
                     lines=line)


def stage(cmds=CMDS, fns=FNS):
    c = gen.fixed(t=st.just("cmd"), name=st.sampled_from(cmds))
    f = gen.fixed(t=st.just("fn"), wrap=st.booleans(), name=st.sampled_from(fns), kind=st.sampled_from(["", "comp", "class", "method"]), delay=delay, args=st.sampled_from([0, 0, 0, 1, 2, 3]))
    return st.one_of(c, f)


word = st.text(alphabet="abcxyzABé 09", max_size=7)
bulk = st.tuples(word, st.integers(2, 3000)).map(list)
linesspec = st.one_of(st.lists(word, max_size=6), st.lists(st.one_of(word, word, bulk), max_size=5))


@st.composite
def linear(draw):
    return draw(bracket([draw(source(linesspec))] + draw(st.lists(stage(), min_size=1, max_size=5))))


@st.composite
def grouped(draw):
    n = draw(st.integers(2, 3))
    fed = draw(st.integers(0, 5))  # the part that reads what is piped into the group, if any
    ps = []
    for i in range(n):
        src = draw(source(st.lists(word.map(lambda w: "%d>%s" % (i, w)), max_size=6)))
        # Every function reads ahead, so one that ignores its input takes some from the part that doesn't
        if fed < n and i != fed and src["kind"] in ("fn", "agen"): src["kind"] = "gen"
        ps.append([src] + draw(st.lists(stage(PERLINE_C, PERLINE_F + ["dup"]), min_size=1 if fed == i else 0, max_size=2)))
    before = ps[fed][:1] if fed < n else []
    if before: ps[fed] = ps[fed][1:]
    ps = [draw(bracket(p)) for p in ps]
    g = {"t": "group", "a": ps[0], "b": ps[1]}
    if n == 3:
        g = {"t": "group", "a": g, "b": ps[2]} if draw(st.booleans()) else {"t": "group", "a": ps[2], "b": g}
    return draw(bracket(before + [g] + draw(st.lists(stage(PERLINE_C, PERLINE_F), max_size=2)), spine=True))


@st.composite
def shared(draw):
    """A group of which every part reads what is piped into it.  Less than what a function reads at once, so that no line is divided."""
    src = draw(source(st.lists(st.text(alphabet="abcxyé 09", max_size=5), min_size=1, max_size=40).map(lambda ws: ["%d>%s" % (i, w) for i, w in enumerate(ws)])))
    src["kind"] = draw(st.sampled_from(["list", "gen", "fn", "agen", "agen", "probe"]))
    ps = [draw(bracket(draw(st.lists(stage(PERLINE_C, PERLINE_F), min_size=1, max_size=2)))) for i in range(draw(st.integers(2, 4)))]
    for p in ps:
        for l in leaves(p): l.update({"wrap": True, "delay": 0} if l["t"] == "fn" else {})
    g = ps[0]
    for p in ps[1:]: g = {"t": "group", "a": g, "b": p}
    return {"t": "pipe", "shared": True, "a": src, "b": g}


class C03(Check):
    id = "C03"
    worker = "w03"
    quick = 90
    rule = ("A tree of a source (Python list, iterator, function, async generator, redirected file, command) and 1 to 5 stages (11 external text filters, 13 Python functions written in 4 ways), with "
            "every parenthesisation, or groups of 2 or 3 such pipelines joined with +, one of which may read what is piped into the group, or all of which do, and followed by line-wise stages, is read as list, bytes, str, async or through a file. Oracle: a pure Python model of "
            "each stage; for groups the output must be an interleaving of the parts' lines (each line of a shared input is read by exactly one part). Non-trivial: at least 2 stages, or a group.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, tree=st.one_of(linear(), linear(), grouped(), shared()), mode=st.sampled_from(["list", "bytes", "str", "async", "file"]), nested=st.booleans()).map(self.limit)

    @staticmethod
    def limit(c):
        # padded output is to stay below some megabytes
        pads = sum(n.get("name") in ("pad",) for n in leaves(c["tree"]))
        dups = sum(n.get("name") in ("dup", "split", "nl") for n in leaves(c["tree"]))
        for n in leaves(c["tree"]):
            if n["t"] == "src":
                n["lines"] = [l if isinstance(l, str) else [l[0], min(l[1], 3000 // (1 + 30 * pads) // (2 ** dups) + 1)] for l in n["lines"]]
                if n["kind"] == "probe" and sum(len(l) for l in expand(n["lines"])) + len(expand(n["lines"])) > 2000:
                    n["kind"] = "cat"
        return c

    def judge(self, case, r):
        if case["tree"].get("shared"): return self.judge_shared(case["tree"], r)
        ps = parts(case["tree"])
        if len(ps) == 1:
            if "text" in r:
                return gen.diff_text(r["text"], ps[0], "output")
            return gen.diff_text(r["lines"], lines(ps[0]), "lines")
        got = lines(r["text"]) if "text" in r else r["lines"]
        n = 0
        for p in ps:
            ls = lines(p)
            tag = None
            if ls:
                tag = ls[0].split(">")[0] + ">"
                mine = [l for l in got if l.startswith(tag)]
                n += len(mine)
                d = gen.diff_text(mine, ls, "output of part %s of the group" % tag)
                if d:
                    return d + "; whole output %s" % gen.short(got)
        if n != len(got):
            return "the output of the group has extra lines: %s" % gen.short(got)

    @staticmethod
    def judge_shared(t, r):
        got = lines(r["text"]) if "text" in r else r["lines"]
        inp = expand(t["a"]["lines"])
        if len(got) != len(inp): return "a group that reads %d lines writes %d: %s" % (len(inp), len(got), gen.short(got))
        for l in inp:
            out = sorted(set(lines(x)[0] for x in parts(t["b"], l + "\n")))
            if sum(got.count(x) for x in out) != 1: return "the line %r, read by a group, comes out as none, or several, of %r: %s" % (l, out, gen.short(got))

    def nontrivial(self, case, r):
        return len(leaves(case["tree"])) > 2

    def classify(self, case, r):
        ls = leaves(case["tree"])
        return [case["mode"], case["manager"], "leaves %d" % len(ls), "source " + ls[0].get("kind", "?"), "linear" if len(parts(case["tree"])) == 1 else "shared group" if case["tree"].get("shared") else "group" if leftmost(case["tree"])["t"] == "group" else "fed group"] + (
            ["ends in function"] if ls[-1]["t"] == "fn" else []) + (["bulk"] if sum(map(len, expand(leftmost(case["tree"]).get("lines", [])))) > 4096 else [])


CHECK = C03()
