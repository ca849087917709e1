from hypothesis import strategies as st
from harness.core import Check
from harness import gen

V = st.sampled_from(["v0", "v1", "v2", "v3"])
L = st.sampled_from(["l0", "l1"])


def ind(s, n=4): return "\n".join(" " * n + l if l else l for l in s.split("\n"))


@st.composite
def expr(draw, d=2, walrus=True):
    """An integer expression"""
    k = draw(st.integers(0, 15 if d else 2))
    e = lambda: draw(expr(d - 1, walrus))
    if k <= 1: return str(draw(st.integers(-3, 20)))
    if k == 2: return draw(V)
    if k == 3: return "(%s %s %s)" % (e(), draw(st.sampled_from(["+", "-", "&", "|", "^"])), e())
    if k == 4: return "(%s * %s %% 997)" % (e(), e())
    if k == 5: return "(%s if %s %s %s else %s)" % (e(), e(), draw(st.sampled_from(["<", "==", ">=", "!="])), e(), e())
    if k == 6: return "len(%s)" % draw(L)
    if k == 7: return "sum(%s for i in range(%d) if i != %s)" % (draw(st.sampled_from(["i", "i * v1", "(lambda: i + v0)()", "len(l0) + i"])), draw(st.integers(0, 4)), draw(V))
    if k == 8: return "(lambda a, b=%s: a + b)(%s)" % (e(), e())
    if k == 9: return "(%s := %s)" % (draw(V), e()) if walrus else e()
    if k == 10: return "max([%s, %s])" % (e(), e())
    if k == 11: return "d0.get('k', %s)" % e()
    if k == 12: return "int(f'{%s}')" % draw(V)
    if k == 13: return "(lambda *a, k=%s: sum(a) + k)(%s, *%s)" % (e(), e(), draw(L))
    if k == 14: return "[%s for a in [%s] for b in range(2)][-1]" % (draw(st.sampled_from(["a + b", "a * v0 % 997 + b", "(lambda: a + b)()"])), draw(expr(d - 1, False)))
    return "(%s or %s and not %s) * 1" % (e(), e(), e())


@st.composite
def block(draw, d, infunc=False):
    return "\n".join(draw(st.lists(simple(d, infunc), min_size=1, max_size=3)))


@st.composite
def simple(draw, d=2, infunc=False):
    """Statements allowed anywhere; in functions the variables are local or global by declaration"""
    k = draw(st.integers(0, 19 if d else 8))
    e = lambda: draw(expr(2, False if infunc else True))
    v = draw(V)
    if k <= 1: return "%s = %s" % (v, e())
    if k == 2: return "%s += %s" % (v, e())
    if k == 3: return "T(%r, %s)" % (draw(st.sampled_from(["a", "b", "é"])), e())
    if k == 4: return "%s = [%s]" % (draw(L), ", ".join(e() for i in range(draw(st.integers(0, 3)))))
    if k == 5: return "%s, *%s = [%s, %s, 3]" % (v, draw(L), e(), e())
    if k == 6: return "T(f'{s0!r:>{%d}} {%s:03d}', s0[::-1], %s)" % (draw(st.integers(0, 9)), draw(V), e())
    if k == 7: return "d0[%s] = %s; %s = %s" % (draw(st.sampled_from(["'k'", "'é'", "1"])), e(), v, e())
    if k == 8: return "assert %s is not None, 'message'" % v
    b = lambda: ind(draw(block(d - 1, infunc)))
    if k == 9: return "if %s > %s:\n%s\nelif %s:\n%s\nelse:\n%s" % (e(), e(), b(), e(), b(), b())
    if k == 10: return "for %s in range(%d):\n%s\n    if %s == 2: break\n    if %s: continue\n    T('loop')\nelse:\n%s" % (v, draw(st.integers(0, 4)), b(), v, e(), b())
    if k == 11: return "%s = %d\nwhile %s > 0:\n    %s -= 1\n%s" % ("w", draw(st.integers(0, 3)), "w", "w", "    T(w)")
    if k == 12: return "try:\n%s\n    raise ValueError(%s)\nexcept (ValueError, TypeError) as x:\n    T('caught', x.args)\n%s\nfinally:\n    T('finally')" % (b(), e(), b())
    if k == 13: return "try:\n%s\nexcept KeyError:\n    T('never')\nelse:\n%s" % (b(), b())
    if k == 14: return "import contextlib\nwith contextlib.suppress(ZeroDivisionError), contextlib.nullcontext(%s) as n:\n    T(n)\n    %s = n // 0\n    T('not reached')" % (e(), v)
    if k == 15: return "import math as m2\nfrom os.path import join as j2, basename\nimport collections.abc\nT(m2.floor(2.5), j2('a', s0), basename('x/y'), collections.abc.Sized.__name__)"
    if k == 16: return "T(sorted({i: i * %s %% 7 for i in range(3)}.items()), {i for i in %s} == set(%s))" % (draw(V), "l0", "l0")
    if k == 17: return "T('''multi\nline %s ''' \"\\t\", (1,\n   2,\n\n   # comment\n   %s))" % (draw(st.sampled_from(["x", "é", "# no comment"])), e())
    if k == 18: return "fs = [lambda i=i: i + %s for i in range(3)]\nT([f() for f in fs])" % draw(V)
    return "T(*map(str, filter(None, %s)), *reversed(%s))" % (draw(L), draw(L))


@st.composite
def definition(draw, n):
    """(text, name, can be wrapped, calls)"""
    f = "f%d" % n
    k = draw(st.integers(0, 10))
    e = lambda: draw(expr(1, False))
    ints = st.integers(-2, 9)
    args = draw(st.lists(ints, max_size=3))
    body = ind(draw(block(1, True)))
    g = "    global v0, v1, v2, v3, l0, l1, w, m2, fs, j2, basename, collections, contextlib, n, x\n"
    wrap, calls = True, [[args, {}]]
    if k == 0:
        t = "def %s(a=%s, b=%s, /, c=%s, *args, d=%s, **kw):\n    '''doc'''\n    return [a, b, c, args, d, sorted(kw.items()), v0]" % (f, e(), e(), e(), e())
        calls += [[args, {"d": 1, "zz": 2}], [[1, 2], {"c": 4}]]
    elif k == 1:
        t = "def %s(*, k=%s, j: int = %s) -> int:\n    return k + j * 2" % (f, e(), e())
        calls = [[[], {}], [[], {"k": 5}], [[], {"j": 1, "k": 2}]]
    elif k == 2:
        t = "def %s(n=%s):\n    def inner(x):\n        nonlocal n\n        n += x\n        return n\n    return [inner(1), inner(2), n, (lambda: n + v1)()]" % (f, e())
    elif k == 3:
        t = "def %s(n=5):\n    return 1 if n < 2 else n * %s(n - 1) %% 997" % (f, f)
        calls = [[[a], {}] for a in args] + [[[], {}]]
    elif k == 4:
        t = "def %s(n=3):\n    for i in range(n):\n        got = yield i + v0\n    yield from [7, %s]" % (f, e())
        calls = [[[a], {}] for a in args] + [[[], {}]]
    elif k == 5:
        t = "def mk%d(c):\n    def %s(a=c, *, b=c + 1):\n        return a + b + c\n    return %s\n%s = mk%d(%s)" % (n, f, f, f, n, e())
        calls = [[[], {}], [[1], {"b": 2}]]
    elif k == 6:
        t = "@deco\ndef %s(a=%s, *rest, k=2):\n    return a + sum(rest) + k" % (f, e())
        calls.append([args, {"k": 9}])
    elif k == 7:
        t, wrap = "def %s(a=%s):\n%s%s\n    return a" % (f, e(), g, body), False
        calls = [[args[:1], {}]]
    elif k == 8:
        t = "class %s:\n    y = %s\n    l = [i + v0 for i in range(2)]\n    def __init__(self, a=%s): self.a = a\n    def m(self, b=y): return self.a + b + v0\n    @property\n    def p(self): return self.m() + self.y\n    @staticmethod\n    def s(x=3): return x + v1\n    @classmethod\n    def c(cls): return cls.y\n    def __call__(self, q): return q + self.a\nclass Sub%d(%s):\n    def m(self, b=1): return super().m(b) + 1\nT(%s().m(), Sub%d(4).p, Sub%d.s(), %s.c(), Sub%d(2)(3), %s.__name__, isinstance(Sub%d(), %s))" % (f, e(), e(), n, f, f, n, n, f, n, f, n, f)
        calls = []
    elif k == 9:
        t = "async def %s(a=%s):\n    async def inner(x): return x + v0\n    return [await inner(i) for i in range(a %% 5)]\nT(drive(%s()))" % (f, e(), f)
        calls = [[[3], {}], [[], {}]]
    else:
        t = "%s = lambda a=%s, *b, c=%s: (a, b, c, v2)" % (f, e(), e())
    return {"text": t, "name": f, "wrap": wrap, "calls": [[f, a, kw] for a, kw in calls]}


top = st.one_of(simple(2), simple(2), simple(2), st.sampled_from([
    "globals()['v2'] = 11\nT('v2' in globals(), globals()['v2'], 'nope' in globals())", "exec('v3 = v1 + 100')\nT(v3, eval('v0 + v1'))", "del v3\nv3 = 5", "x1: int = 3\nx2: str\nT(x1, sorted(__annotations__))", "'just a string'", "pass", "v0 = v1 = v2 = 9", "len = lambda x: 42\nT(len([]))\ndel len\nT(len([]))",
    "T(__name__.split('.')[-1])", "T(callable(print), None is None, Ellipsis, __debug__)", "if 1: v0 = 2; T(v0)", "v0 = \\\n   4", "T('a' 'b', b'\\xff', r'\\n', 1_000, 0x1f, 1e3, 2j)", "class E1(Exception): pass\ntry: raise E1(1) from None\nexcept E1 as e2: T(type(e2).__name__)", "T([*l0, *range(2)], {**d0, 'z': 1} != d0)",
    "def gen1():\n    yield from (i * v0 for i in range(3))\nT(list(gen1()))", "T((lambda: [v0 for q in range(2)])(), [[v1 for a in range(b)] for b in range(3)])", "ls = 3\nT(ls)", "T(sum(1 for line in ['a', 'b']))", "import sys\nT(sys.modules.__class__.__name__)", "\x0cv0 = 3", "if v0:\n\tT('tab')", "T({'a': 1} | {'b': 2})"]))
cmds = st.sampled_from(["zz_one", "zz_two", "zzé"])
usecmd = st.tuples(cmds, st.sampled_from(["U({0})", "U({0}('-a', k=v0))", "U({0}.sub('x').y)", "def h9():\n    U({0}('in function'))\nh9()", "[U({0}(i)) for i in range(2)]", "class Z9:\n    U({0})", "U((lambda: {0}('lambda'))())", "U(eval('{0}'))", "try:\n    U({0})\nexcept NameError:\n    T('NameError')"])).map(lambda t: t[1].format(t[0]))


@st.composite
def program(draw):
    n = draw(st.integers(1, 8))
    stmts, defines, wrappable, calls = [], [], [], []
    for i in range(n):
        if draw(st.integers(0, 2)) == 0:
            d = draw(definition(i))
            stmts.append(d["text"])
            defines.append(d["name"])
            if d["wrap"]: wrappable.append(d["name"])
            calls += d["calls"]
        elif draw(st.integers(0, 4)) == 0: stmts.append(draw(usecmd))
        else: stmts.append(draw(top))
    how = draw(st.sampled_from(["module", "module", "package", "star", "file", "file", "exec", "text", "expr", "pyshfn", "pyshfn"]))
    crlf = draw(st.sampled_from([False, False, False, True]))
    enc = draw(st.sampled_from(["", "", "", "bom", "latin"]))
    seps = draw(st.lists(st.sampled_from(["\n", "\n", "\n\n", "\n# comment é\n", "\n   \n", "\n\n\n", "\n    # indented\n"]), max_size=n))
    if how == "expr":
        crlf, enc, seps = False, "", []
        # what one types has no blank lines within statements, and is one statement
        stmts = [p for s in stmts for p in split(s)]
    if how == "text": crlf, enc = False, enc if enc != "bom" else ""
    if enc == "latin": stmts = [s for s in stmts]
    return {"stmts": stmts, "defines": defines, "wrappable": wrappable, "calls": calls, "how": how, "crlf": crlf, "enc": enc, "seps": seps, "final": draw(st.integers(0, 2)), "name": draw(gen.safe_name()), "undefined": ["zz_one", "zz_two", "zzé"],
            "evals": draw(st.lists(expr(2, False), max_size=2)), "path": draw(st.sampled_from(["plain", "decoy", "decoy", "empty"])), "manager": draw(gen.managers)}


def split(text):
    import ast
    lines = text.split("\n")
    try: nodes = ast.parse(text).body
    except SyntaxError: return [text]
    res = []
    for a in nodes:
        first = min([a.lineno] + [d.lineno for d in getattr(a, "decorator_list", [])])
        if res and res[-1][1] > first - 1:
            res[-1][1] = max(res[-1][1], a.end_lineno)
            continue
        res.append([first - 1, a.end_lineno])
    return ["\n".join(lines[a:b]) for a, b in res]


class C21(Check):
    id = "C21"
    worker = "w21"
    quick = 60
    rule = ("Generated Python programs (assignments, control flow, exceptions, comprehensions, walrus, closures, functions with all kinds of parameters and defaults, generators, coroutines, decorators, classes, imports, eval/exec/globals, annotations, undefined names used as commands) "
            "with varied layout and encoding, run as a pysh module, submodule, import *, file, exec, typed statements, or wrapped shell functions. Oracle: the same program in an ordinary module: values traced, names, signatures, results of calls. Non-trivial: a definition, or 3 statements.")

    def strategy(self): return program()

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"]) + (" (%s)" % r["err"] if r["err"] else "")

    def nontrivial(self, case, r):
        return len(case["stmts"]) > 2 or bool(case["defines"])

    def classify(self, case, r):
        return [case["how"], "enc " + (case["enc"] or "utf-8")] + (["crlf"] if case["crlf"] else []) + (["definitions"] if case["defines"] else []) + (["commands"] if any("U(" in s for s in case["stmts"]) else [])


CHECK = C21()
