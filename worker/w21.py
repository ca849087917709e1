from wlib import *
import types, inspect, importlib

TRACE = []


def T(*xs):
    """The programs' only output"""
    TRACE.append(" ".join(repr(x) for x in xs))
    return xs[0] if xs else None


def U(x):
    """Records what a command denotes"""
    TRACE.append("command %r" % (getattr(x, "_arg", x),))


def drive(co):
    try:
        while True: co.send(None)
    except StopIteration as e: return e.value


def deco(g):
    def w(*a, **k):
        T("call", g.__name__)
        return g(*a, **k)
    return w


PRELUDE = "from w21 import T, U, drive, deco\nv0, v1, v2, v3 = 1, 2, 3, 4\nl0 = [1, 2]; l1 = []\ns0 = 'abc'\nd0 = {'k': 1}\n"
NAMES = ["v0", "v1", "v2", "v3", "l0", "l1", "s0", "d0"]


class Cmd(object):
    """What a command denotes, for the reference"""
    def __init__(self, arg): self._arg = arg
    def __call__(self, *a, **k): return Cmd(self._arg + list(a) + ([k] if k else []))
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return Cmd(self._arg + [name])


def sig(f):
    """The parameters and their defaults (annotations aren't claimed)"""
    return [(p.name, p.kind, p.default) for p in inspect.signature(f).parameters.values()]


def summary(get, names):
    res = {}
    for n in names:
        try: v = get(n)
        except Exception as e: v = "%s: %s" % (type(e).__name__, e)
        if isinstance(v, types.FunctionType): res[n] = "function %s%s" % (v.__name__, inspect.signature(v))
        elif isinstance(v, type): res[n] = "class %s %s" % (v.__name__, sorted(k for k in v.__dict__ if not k.startswith("__")))
        else: res[n] = repr(v)
    return res


def call_all(get, calls, res):
    for name, args, kw in calls:
        try: r = get(name)(*args, **kw)
        except TypeError as e: r = "TypeError"
        if inspect.isgenerator(r): r = list(r)
        if inspect.iscoroutine(r): r = drive(r)
        res.append("%s%r%r -> %r" % (name, args, kw, r))


def layout(case):
    text = PRELUDE
    for s, sep in zip(case["stmts"], case["seps"] + ["\n"] * len(case["stmts"])):
        text += s + sep
    text = text.rstrip("\n") + ("\n" if case["final"] else "")
    if case["final"] == 2: text += "\n   \n# the end"
    if case["crlf"]: text = text.replace("\n", "\r\n")
    data = text.encode("utf-8")
    if case["enc"] == "bom": data = b"\xef\xbb\xbf" + data
    elif case["enc"] == "latin": data = b"# -*- coding: latin-1 -*-\n" + text.encode("latin-1", "replace")
    return data


def run(ctx, case):
    pieshell = ctx.pieshell()
    for n in case["undefined"]:
        assert n not in os.environ
    data = layout(case)
    # What is found first counts: the decoys come later
    decoy = ctx.dir + "/decoy"
    os.mkdir(decoy)
    sys.path[:0] = [ctx.work if case["path"] != "empty" else ""] + ([ctx.dir + "/nowhere", decoy] if case["path"] != "plain" else [])
    with open("%s/mod_%s.pysh" % (decoy, case["name"]), "w") as f: f.write("T('decoy')\nraise Exception('the wrong module')\n")
    if case["path"] == "empty": os.chdir(ctx.work)
    names = NAMES + case["defines"]
    how = case["how"]
    # The reference
    ref = types.ModuleType("mod_" + case["name"])
    ref.__file__ = "x"
    for n in case["undefined"]: ref.__dict__[n] = Cmd([n])
    exec(compile(data, "ref", "exec"), ref.__dict__)
    want = [list(TRACE)]
    del TRACE[:]
    EnvScope = pieshell.environ.EnvScope
    problems = []
    calls = [c for c in case["calls"] if c[0] in ref.__dict__]
    if how in ("module", "package", "star"):
        where, full = ctx.work, "mod_" + case["name"]
        if how == "package":
            where = ctx.work + "/pkg_" + case["name"]
            os.mkdir(where)
            with open(where + "/__init__.py", "w") as f: f.write("__path__.append(%r)\n" % decoy)
            full = "pkg_%s.mod_%s" % (case["name"], case["name"])
        with open(where + "/mod_" + case["name"] + ".pysh", "wb") as f: f.write(data)
        if how == "star":
            ns = {}
            exec("from %s import *" % full, ns)
            get = ns.__getitem__
            names = [n for n in names if not n.startswith("_")]
            if "env" in ns: problems.append("import * brings env")
            m = sys.modules[full]
        else:
            m = importlib.import_module(full)
            get = lambda n: getattr(m, n)
        for n in names:
            if n in ref.__dict__ and n not in dir(m): problems.append("the module does not list %s" % n)
        if get("T") is not T: problems.append("T is %r" % (get("T"),))
        if importlib.import_module(full) is not m: problems.append("importing it again gives another module")
        if how != "star":
            m.v0 = 77
            ref.v0 = 77
            if m.v0 != 77: problems.append("setting an attribute of the module has no effect")
    elif how == "pyshfn":
        names = []
        env = pieshell.env(interactive=case["final"] == 1)
        wrapped = {}
        for n, v in list(ref.__dict__.items()):
            if isinstance(v, types.FunctionType) and n in case["wrappable"]: wrapped[n] = env.pyshfunction(v)
        TRACE.extend(want[0])
        calls = [c for c in calls if c[0] in wrapped]
        get = wrapped.__getitem__
        for n, v in wrapped.items():
            for attr in ("__name__", "__defaults__", "__kwdefaults__", "__closure__", "__code__"):
                if getattr(v, attr) != getattr(ref.__dict__[n], attr): problems.append("%s of %s is %r, was %r" % (attr, n, getattr(v, attr), getattr(ref.__dict__[n], attr)))
            if sig(v) != sig(ref.__dict__[n]): problems.append("signature of %s is %s" % (n, inspect.signature(v)))
    else:
        env = pieshell.env(interactive=case["final"] == 1)
        scope = EnvScope(env=env, __name__=ref.__name__)
        get = scope.__getitem__
        if how == "file":
            p = ctx.store(data, "s")
            scope.execute_file(p)
        elif how == "exec": exec(compile(data, "x", "exec"), scope)
        elif how == "text": exec(data.decode("utf-8-sig") if case["enc"] != "latin" else data.decode("latin-1"), scope)
        elif how == "expr":
            for l in PRELUDE.split("\n")[:-1]: scope.execute_expr(l)
            for s in case["stmts"]: scope.execute_expr(s)
    got = [list(TRACE)]
    del TRACE[:]
    want.append(summary(ref.__dict__.__getitem__, [n for n in names if n in ref.__dict__]))
    got.append(summary(get, [n for n in names if n in ref.__dict__]))
    for res, g in ((want, ref.__dict__.__getitem__), (got, get)):
        r = []
        call_all(g, calls, r)
        res += [r, list(TRACE)]
        del TRACE[:]
    if how not in ("pyshfn", "star"):
        # Values after the functions were called
        for res, g in ((want, ref.__dict__.__getitem__), (got, get)): res.append(summary(g, [n for n in NAMES if n in ref.__dict__]))
    if how not in ("pyshfn",):
        for e in case["evals"]:
            r = repr(eval(e, ref.__dict__))
            s = sys.modules[full]._scope if how in ("module", "package", "star") else scope
            if how == "star": continue
            q = repr(eval(e, s))
            if r != q: problems.append("%s evaluates to %s, expected %s" % (e, q, r))
    err = ""
    for what, a, b in zip(("output", "names", "calls", "output of the calls", "names after the calls"), got, want):
        if a != b:
            if isinstance(a, dict): d = ["%s is %s, expected %s" % (k, a.get(k), b.get(k)) for k in b if a.get(k) != b.get(k)][:3]
            else:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                d = "line %d: %r, expected %r" % (i, a[i:i + 2], b[i:i + 2])
            problems.append("%s: %s" % (what, d))
    sys.stderr.flush()
    if problems: err = (read(ctx.dir + "/err") or b"").decode("utf-8", "replace")[-600:]
    return {"problems": problems[:4], "err": err, "n": len(want[0])}
