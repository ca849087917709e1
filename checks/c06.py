from hypothesis import strategies as st
from harness.core import Check
from harness import gen

NAMES = ["foo", "bar2", "my_cmd", "X", "Foo"]
VARS = ["VAR", "a b", "EMPTY", "v_1"]
lit = st.text(alphabet="ab -_=%$\"'\\é€😀\n\t{}()~.:,;&|<>!#x\x01\x7f", max_size=8)
pat = st.text(alphabet="ab*?[]!-", max_size=5)
piece = st.one_of(lit.map(lambda t: ["lit", t]), lit.map(lambda t: ["lit", t]), pat.map(lambda t: ["lit", t]), st.sampled_from(VARS).map(lambda v: ["var", v]))
string = st.tuples(st.just("s"), st.lists(piece, max_size=4), st.sampled_from([None] * 6 + ["", "/", "/x", "root", "root/y", "nosuchuser/z"])).map(list)
raw = st.text(alphabet=st.one_of(st.sampled_from("ab*?[]~%/(){}$\"'\\ \n-="), st.characters(exclude_categories=["Cs"], exclude_characters="\0")), max_size=12).map(lambda t: ["R", t])
big = st.tuples(st.just("big"), st.sampled_from(["ab", "é ", "x"]), st.integers(100, 20000)).map(list)
value = st.one_of(string, string, raw, raw, st.sampled_from([["R", "~"], ["R", "%s"], ["R", "*"], ["R", ""], ["s", [], None], ["s", [["lit", "%"]], None]]), big)
number = st.one_of(st.sampled_from([0, 1, 0, 1, 2, -1, 10 ** 20, 0.0, 1.0, 1.5]), st.integers(-1000, 1000)).map(lambda n: ["n", n])
flag = st.sampled_from([["b", True], ["b", False]])
ident = st.text(alphabet="abcXYZ_019", min_size=1, max_size=8).map(lambda t: "k" + t).filter(lambda t: t not in ("self", "keyword"))
option = st.tuples(ident, st.one_of(value, value, flag, number)).map(list)
dname = st.one_of(ident, st.text(alphabet="ab_-é .", min_size=1, max_size=5))
darg = st.lists(st.tuples(dname, st.one_of(value, flag, number)).map(list), max_size=3, unique_by=lambda t: t[0]).map(lambda l: ["d", l])
arg = st.one_of(value, value, value, value, darg)
call = st.tuples(st.just("call"), st.lists(arg, max_size=4), st.lists(option, max_size=3, unique_by=lambda t: t[0])).map(list)
attr = st.tuples(st.just("attr"), st.sampled_from(["status", "log", "push_x", "a1", "X", "Foo_", "commit", "__x", "é", "classs", "from_"])).map(list)
opt = st.tuples(st.sampled_from(["opt", "opt", "neg"]), st.sampled_from(["l", "a", "la", "rf", "verbose", "x_y", "L"])).map(list)


@st.composite
def cases(draw):
    ops = draw(st.lists(st.one_of(call, call, attr, opt), max_size=5))
    name = draw(st.sampled_from(NAMES))
    if draw(st.booleans()):
        ops = [["attr", name]] + ops
    else:
        c = draw(call)
        ops = [["call", [["s", [["lit", name]], None]] + c[1], c[2]]] + ops
    vars = {v: draw(st.text(alphabet="ab %(*é'\n", max_size=6)).lstrip("~") for v in VARS}
    vars["EMPTY"] = ""
    c = {"manager": draw(gen.managers), "spelling": draw(st.sampled_from(["api", "api", "expr", "file"])), "ops": ops, "vars": vars, "how": draw(st.sampled_from(["plus", "plus", "list", "pipe", "group"]))}
    return c


class C06(Check):
    id = "C06"
    worker = "w06"
    quick = 110
    rule = ("A command line is built by a random sequence of attributes, calls (strings made of literal text, %(VAR)s references, ~ prefixes and patterns matching nothing; R() strings of any characters; dicts; "
            "keyword options with strings, numbers or flags; arguments up to 40 kB), -x options and negated names, through the Python API, execute_expr or a script file, and run in 4 ways; the program stores its argv. "
            "Oracle: a model of the expression. Non-trivial: at least two operations or a special character.")

    def strategy(self):
        return cases()

    def expand(self, case, s, home):
        k = s[0]
        if k == "R": return s[1]
        if k == "big": return s[1] * s[2]
        t = "".join(p[1] if p[0] == "lit" else case["vars"][p[1]] for p in s[1])
        if s[2] is not None: t = "~" + s[2] + t
        if t.startswith("~"):
            user = t[1:].split("/", 1)[0]
            rest = t[1 + len(user):]
            if user == "": t = (home.rstrip("/") + rest) or "/"
            elif user == "root": t = ("/root" + rest) or "/"
        return t

    def option(self, case, n, v, home):
        n = "--" + n.replace("_", "-")
        if v[0] == "b": return [n] if v[1] else []
        if v[0] == "n": return [n + "=" + repr(v[1])]
        return [n + "=" + self.expand(case, v, home)]

    def want(self, case, home):
        res = []
        for op in case["ops"]:
            if op[0] == "attr": res.append(op[1])
            elif op[0] in ("opt", "neg"): res.append("-" + op[1])
            else:
                for a in op[1]:
                    if a[0] == "d":
                        for n, v in a[1]: res += self.option(case, n, v, home)
                    else: res.append(self.expand(case, a, home))
                for n, v in op[2]: res += self.option(case, n, v, home)
        return res

    def judge(self, case, r):
        want = self.want(case, r["home"])
        if len(r["argv"]) != 1:
            return "the command ran %d times" % len(r["argv"])
        got = [x.encode("utf-8", "surrogateescape").decode("utf-8", "replace") for x in r["argv"][0]]
        return gen.diff_text(got, want, "argument vector")

    def nontrivial(self, case, r):
        return len(case["ops"]) > 1 or any(a[0] in ("R", "d", "big", "n") or len(a[1]) > 1 for op in case["ops"] if op[0] == "call" for a in op[1])

    def classify(self, case, r):
        return [case["manager"], case["spelling"], case["how"]] + sorted(set(op[0] for op in case["ops"])) + sorted(set("arg " + a[0] for op in case["ops"] if op[0] == "call" for a in op[1] + [v for n, v in op[2]]))


CHECK = C06()
