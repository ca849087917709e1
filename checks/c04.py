import base64, re
from hypothesis import strategies as st
from harness.core import Check
from harness import gen

word = st.text(alphabet="abcxyzABé 09", max_size=7)
bulk = st.tuples(word, st.one_of(st.integers(2, 1000), st.integers(2, 1000), st.integers(2, 12000))).map(list)
lines = st.one_of(st.lists(word, max_size=5), st.lists(word, max_size=5), st.lists(st.one_of(word, bulk), max_size=3))
few = st.lists(word, max_size=5)
iterable = st.tuples(st.just("it"), st.sampled_from(["list", "tuple", "iter", "gen", "agen", "bytes"]), lines).map(list)
plain = st.one_of(st.text(alphabet="xyz/.-é=", max_size=5).map(lambda t: ["s", "xx" + t]), st.text(alphabet="%*?[]~ $'\n", max_size=4).map(lambda t: ["R", "xx" + t]))

src = st.one_of(gen.fixed(t=st.just("file"), lines=lines), gen.fixed(t=st.just("src"), kind=st.sampled_from(["list", "gen", "agen"]), lines=lines))


def extend(child):
    return st.one_of(
        gen.fixed(t=st.just("cmd"), name=st.sampled_from(["tac", "sort", "tr"]), a=child),
        gen.fixed(t=st.just("pyfn"), a=child),
        gen.fixed(t=st.just("cat"), args=st.lists(st.one_of(child.map(lambda t: ["pl", t]), iterable), min_size=1, max_size=3)))


tree = st.recursive(src, extend, max_leaves=4)
# tee writes blocks: what it writes must fit in one write, for lines of the function not to end up within
teed = gen.fixed(t=st.just("tee"), a=st.one_of(gen.fixed(t=st.just("file"), lines=few), gen.fixed(t=st.just("src"), kind=st.sampled_from(["list", "gen", "agen"]), lines=few)), kind=st.sampled_from(["agen", "method", "coro"]), tag=st.just("t"))
pipeline = st.one_of(tree, tree, tree, teed).map(lambda t: ["pl", t])
function = st.tuples(st.just("fn"), st.sampled_from(["agen", "method", "coro"]), st.just("?"), lines).map(list)
filearg = st.one_of(iterable, pipeline, pipeline, function)
anyarg = st.one_of(plain, filearg, filearg)


def expand(spec):
    return [s for l in spec for s in ([l] if isinstance(l, str) else [l[0]] * l[1])]


def join(ls):
    return "".join(l + "\n" for l in ls)


def model(n):
    """Lines that the pipeline writes."""
    t = n["t"]
    if t == "stdin": return ["I>" + l for l in n["lines"]]
    if t in ("file", "src"): return expand(n["lines"])
    if t == "cat": return [l for a in n["args"] for l in (model(a[1]) if a[0] == "pl" else expand(a[2]))]
    ls = model(n["a"])
    if t == "pyfn": return ["=" + l for l in ls]
    if n["name"] == "tac": return ls[::-1]
    if n["name"] == "sort": return sorted(ls, key=lambda l: l.encode("utf-8"))
    return [l.replace("a", "b") for l in ls]


def total(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], int): return x[1]
        return sum(map(total, x))
    if isinstance(x, dict): return sum(map(total, x.values()))
    return 0


@st.composite
def calls(draw):
    res, n, tags = [], 0, 0
    kinds = []
    for i in range(draw(st.integers(1, 2))):
        call = [[None, a] for a in draw(st.lists(anyarg, max_size=4))]
        names = draw(st.lists(st.sampled_from(["o", "file_name", "x1"]), unique=True, max_size=2))
        call += [[k, draw(st.one_of(filearg, filearg, plain, st.sampled_from([["T"], ["F"]])))] for k in names]
        res.append(call)
    flat = [c for call in res for c in call]
    if not any(c[1][0] in ("it", "pl", "fn") for c in flat):
        res[0].insert(0, [None, draw(filearg)])
        flat = [c for call in res for c in call]
    for i, c in enumerate(flat):
        s = c[1]
        if s[0] == "fn" or (s[0] == "pl" and s[1]["t"] == "tee"):
            tags += 1
            if s[0] == "fn": c[1] = ["fn", s[1], "f%d" % tags, s[3]]
            else: c[1] = ["pl", dict(s[1], tag="f%d" % tags)]
    if draw(st.integers(0, 3)) == 0:
        re_use = [i for i, c in enumerate(flat) if (c[1][0] == "it" and c[1][1] in ("list", "tuple", "bytes")) or (c[1][0] == "pl" and reusable(c[1][1]))]
        if re_use:
            res[-1].insert(len([c for c in res[-1] if c[0] is None]), None)
            flat2 = [c for call in res for c in call]
            pos = flat2.index(None)
            ok = [i for i in re_use if i < pos]
            k = res[-1].index(None)
            if ok: res[-1][k] = [None, ["same", draw(st.sampled_from(ok))]]
            else: del res[-1][k]
    return res


def reusable(n):
    """Whether a pipeline can be used twice: no iterators or function results that are used up."""
    if n["t"] == "src": return n["kind"] == "list"
    if n["t"] == "file": return True
    if n["t"] == "cat": return all(reusable(a[1]) if a[0] == "pl" else a[1] in ("list", "tuple", "bytes") for a in n["args"])
    if n["t"] in ("tee", "stdin"): return False
    return reusable(n["a"])


class C04(Check):
    id = "C04"
    worker = "w04"
    quick = 40
    rule = ("A probe command gets 1 to 13 arguments over one or two calls: ordinary strings, R() strings, flags, lists, iterators, generators, asynchronous generators, pipelines (nested: with functions, "
            "filters, and commands that take such arguments themselves, or tee to a function) and functions of 3 kinds, positionally and as keywords, some twice, one perhaps reading the command's standard input. It stores its argument vector and reads or "
            "writes the named files in a random order. Oracle: the vector's positions, the exact contents of each file, what each function received, and the joint output. Non-trivial: two or more file arguments.")

    def strategy(self):
        def via(c):
            # An argument that reads the standard input of the command
            if c["via"] and c["stdin"] is not None:
                t = {"t": "stdin", "lines": c["stdin"]}
                c["calls"][-1].append([None, ["pl", {"cat": t, "tac": {"t": "cmd", "name": "tac", "a": t}, "fn": {"t": "pyfn", "a": t}}[c["via"]]]])
            return c
        return gen.fixed(via=st.sampled_from(["", "", "cat", "tac", "fn"]), manager=gen.managers, calls=calls(), order=st.lists(st.integers(0, 12), max_size=6), talk=st.integers(0, 5), stdin=st.one_of(st.none(), few),
                         after=st.sampled_from(["", "", "cat", "fn"]), mode=st.sampled_from(["list", "bytes"])).map(via).filter(lambda c: total(c["calls"]) < 25000)

    def flat(self, case):
        specs = [c[1] for call in case["calls"] for c in call]
        res = []
        for call in case["calls"]:
            res += [c for c in call if c[0] is None] + [c for c in call if c[0] is not None]
        return [(n, specs[s[1]] if s[0] == "same" else s) for n, s in res if s[0] != "F"]

    def judge(self, case, r):
        if r["argv"] is None:
            return "the command never ran"
        argv = base64.b64decode(r["argv"]).decode("utf-8", "replace").split("\0")[1:-1]
        flat = self.flat(case)
        fds = []
        for (name, s), a in zip(flat, argv):
            pre = "--%s=" % name.replace("_", "-") if name else ""
            if s[0] in ("s", "R"): want = pre + s[1]
            elif s[0] == "T": want = pre[:-1]
            else:
                if not re.match("^%s/dev/fd/[0-9]+$" % re.escape(pre), a):
                    return "argument %r where %r and a file name were expected; all: %r" % (a, pre, argv)
                fds.append(a)
                continue
            if a != want:
                return "argument %r where %r was expected; all: %r" % (a, want, argv)
        if not argv[len(flat)].startswith("a:"):
            return "%r arguments before the actions, expected %r: %r" % (len(argv), len(flat), argv)
        if len(set(f.split("/")[-1] for f in fds)) != len(fds):
            return "two arguments share a descriptor: %r" % fds
        files = [s for n, s in flat if s[0] in ("it", "pl")]
        outs = [["P>hej"]] + ([["I>" + l for l in case["stdin"]]] if case["stdin"] and not case["via"] else [])
        for s, got in zip(files, r["files"]):
            if s[0] == "pl" and s[1]["t"] == "tee":
                tag = s[1]["tag"]
                ls = model(s[1]["a"])
                if got is None: return "a file was not read"
                gl = got.split("\n")[:-1]
                d = (gen.diff_text(r["got"].get(tag), ls, "input of function %s" % tag) or gen.diff_text([l for l in gl if not l.startswith(tag + ">")], ls, "output of tee")
                     or gen.diff_text([l for l in gl if l.startswith(tag + ">")], self.fnout(s[1]["kind"], tag, ls), "output of function %s of tee" % tag))
            else:
                want = join(expand(s[2]) if s[0] == "it" else model(s[1]))
                d = gen.diff_text(got, want, "contents of the file for %s" % gen.short(s))
            if d: return d
        for n, s in flat:
            if s[0] == "fn":
                ls = expand(s[3])
                d = gen.diff_text(r["got"].get(s[2]), ls, "input of function %s" % s[2])
                if d: return d
                outs.append(self.fnout(s[1], s[2], ls))
        got = r["out"] if isinstance(r["out"], list) else r["out"].split("\n")[:-1]
        for o in outs:
            if o:
                tag = o[0].split(">")[0] + ">"
                d = gen.diff_text([l for l in got if l.startswith(tag)], o, "part %s of the output" % tag)
                if d: return d
        if len(got) != sum(map(len, outs)):
            return "the output has %d lines, expected %d: %s" % (len(got), sum(map(len, outs)), gen.short(got))

    def fnout(self, kind, tag, ls):
        return ["%s>%d" % (tag, len(ls))] if kind == "coro" else ["%s>%s" % (tag, l) for l in ls]

    def nontrivial(self, case, r):
        return len([1 for n, s in self.flat(case) if s[0] in ("it", "pl", "fn")]) > 1

    def classify(self, case, r):
        f = self.flat(case)
        k = [s[0] + ("" if s[0] != "pl" else " " + s[1]["t"]) for n, s in f if s[0] in ("it", "pl", "fn")]
        return [case["manager"], "files %d" % len(k)] + sorted(set(k)) + (["keyword file"] if any(n and s[0] in ("it", "pl", "fn") for n, s in f) else []) + (
            ["reads stdin"] if case["via"] and case["stdin"] is not None else []) + (["same twice"] if any(c[1][0] == "same" for call in case["calls"] for c in call) else []) + (["over 64k"] if any(len(x or "") > 65536 for x in r["files"]) else [])


CHECK = C04()
