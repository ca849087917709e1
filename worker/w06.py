from wlib import *

NAMES = ["foo", "bar2", "my_cmd", "X", "Foo"]


def text(spec, R):
    """The argument as Python source, and as value"""
    k = spec[0]
    if k == "s": s = ("~" + spec[2] if spec[2] is not None else "") + "".join(p[1].replace("%", "%%") if p[0] == "lit" else "%%(%s)s" % p[1] for p in spec[1])
    if k == "s": return repr(s), s
    if k == "big":
        s = spec[1] * spec[2]
        return repr(s), s
    if k == "R": return "R(%r)" % spec[1], R(spec[1])
    if k in ("b", "n"): return repr(spec[1]), spec[1]
    if k == "d":
        v = [(n, text(a, R)) for n, a in spec[1]]
        return "{%s}" % ", ".join("%r: %s" % (n, t[0]) for n, t in v), {n: t[1] for n, t in v}


def run(ctx, case):
    pieshell = ctx.pieshell()
    R = pieshell.R
    for n in NAMES: os.symlink(ctx.probe, ctx.bin + "/" + n)
    got = ctx.path("argv")
    os.mkdir(got)
    env = pieshell.env(exports=dict(os.environ, PROBE_ARGV_DIR=got, **case["vars"]))
    if case["spelling"] == "api":
        p = env
        for op in case["ops"]:
            if op[0] == "attr": p = getattr(p, op[1])
            elif op[0] == "call":
                args = [text(a, R)[1] for a in op[1]]
                kw = {n: text(a, R)[1] for n, a in op[2]}
                p = p._(*args, **kw) if p is env else p(*args, **kw)
            elif op[0] == "opt": p = p - getattr(env, op[1])
            elif op[0] == "neg": p = p(-getattr(env, op[1]))
    else:
        scope = pieshell.environ.EnvScope(env=env)
        scope["R"] = R
        env._scope = scope
        t = ""
        for op in case["ops"]:
            if op[0] == "attr": t = t + ("." if t else "") + op[1]
            elif op[0] == "call":
                t = (t or "_") + "(%s)" % ", ".join([text(a, R)[0] for a in op[1]] + ["%s=%s" % (n, text(a, R)[0]) for n, a in op[2]])
            elif op[0] == "opt": t = "(%s -%s)" % (t, op[1])
            elif op[0] == "neg": t = "%s(-%s)" % (t, op[1])
        if case["spelling"] == "expr":
            scope.execute_expr("p = " + t)
            p = dict.__getitem__(scope, "p")
        else:
            f = ctx.store(("p = (%s)\n" % t).encode("utf-8"), "s") + ""
            scope.execute_file(f)
            p = dict.__getitem__(scope, "p")
    if case["how"] == "plus": +p
    elif case["how"] == "pipe": list(p | env.cat)
    elif case["how"] == "group": list(p + env.true)
    else: list(p)
    res = []
    for f in os.listdir(got):
        res.append(read(got + "/" + f).decode("utf-8", "surrogateescape").split("\0")[:-1])
    return {"argv": res, "home": ctx.home, "args": len(res[0]) if res else 0}
