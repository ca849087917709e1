from wlib import *

BUILTINS = ["len", "sorted", "id"]


def run(ctx, case):
    pieshell = ctx.pieshell()
    EnvScope = pieshell.environ.EnvScope
    base = {"PATH": os.environ["PATH"], "E1": "one", "a": "exported a"}
    env = pieshell.env(exports=dict(base))
    parent = dict(case["parent"])
    scope = EnvScope(env=env, _parent_scope=parent) if case["parent_used"] else EnvScope(env=env)
    if not case["parent_used"]: parent = {}
    env._scope = scope
    local, exported = {}, dict(base)
    problems = []
    seen = []
    dict.__setitem__(scope, "seen", seen)
    n = 0
    counts = {}

    def value(name):
        if name in local: return local[name]
        if name in exported: return exported[name]
        if name in parent: return parent[name]
        if name in BUILTINS: return __builtins__[name] if isinstance(__builtins__, dict) else getattr(__builtins__, name)
        return ("command", name)

    def assign(name, v):
        # Only strings can be exported
        if name in exported and isinstance(v, str):
            exported[name] = v
            local.pop(name, None)
        else: local[name] = v

    def execute(src, how):
        if how == "file":
            f = ctx.store(src.encode("utf-8"), "s")
            scope.execute_file(f)
        else: scope.execute_expr(src)

    def compare(what, name, got, want):
        if isinstance(want, tuple) and want and want[0] == "command":
            if getattr(got, "_arg", None) != [name]: problems.append("%s: %s is %r, expected the command" % (what, name, got))
        elif got is not want and got != want: problems.append("%s: %s is %r, expected %r" % (what, name, got, want))
    for op in case["ops"]:
        n += 1
        k, name = op[0], op[1]
        counts[k] = counts.get(k, 0) + 1
        what = "step %d (%s)" % (n, " ".join(map(repr, op)))
        if k == "assign":
            v, how = op[2], op[3]
            if how == "api": scope[name] = v
            elif how == "for": execute("for %s in [%r, %r]: pass" % (name, "other", v), "expr")
            elif how == "tuple": execute("%s, zz = %r, 1\n" % (name, v), "file")
            elif how == "walrus": execute("(%s := %r)" % (name, v), "expr")
            elif how == "with": execute("import contextlib\nwith contextlib.nullcontext(%r) as %s: pass\n" % (v, name), "file")
            elif how == "global": execute("def setter():\n    global %s\n    %s = %r\nsetter()\n" % (name, name, v), "file")
            elif how == "setitem": execute("globals()[%r] = %r" % (name, v), "expr")
            else: execute("%s = %r" % (name, v), how)
            if how == "for": assign(name, "other")
            assign(name, v)
        elif k == "def":
            execute("def %s(): return %r\n" % (name, op[2]), op[3])
            f = dict.get(scope, name)
            if not callable(f) or f() != op[2]: problems.append("%s: is %r" % (what, f))
            local[name] = f
        elif k == "import":
            execute("import os.path as %s\n" % name if op[2] else "from os import path as %s\n" % name, op[3])
            local[name] = os.path
        elif k == "add":
            v = value(name)
            if not isinstance(v, str): continue
            execute("%s += %r" % (name, op[2]), op[3])
            assign(name, v + op[2])
        elif k == "export":
            if op[3] == "expr": execute("exports[%r] = %r" % (name, op[2]), "expr")
            elif op[3] == "file": execute("exports.update({%r: %r})\n" % (name, op[2]), "file")
            else: dict.__getitem__(scope, "env")._exports[name] = op[2]
            exported[name] = op[2]
        elif k == "unexport":
            if name not in exported: continue
            if op[2]: execute("del exports[%r]" % name, "expr")
            else: dict.__getitem__(scope, "env")._exports.pop(name)
            del exported[name]
        elif k == "del":
            if name not in local: continue
            execute("del %s" % name, op[2])
            del local[name]
        elif k == "read":
            del seen[:]
            execute("seen.append(%s)" % name, op[2])
            if len(seen) != 1: problems.append("%s: reading did not work" % what)
            else: compare(what, name, seen[0], value(name))
            compare(what, name, scope[name], value(name))
        elif k == "function":
            # reading from within a function, a comprehension and a class body
            del seen[:]
            execute("def f():\n    return [(%s) for x in [1]][0]\nseen.append(f())\nclass C:\n    seen.append(%s)\nseen.append((lambda: %s)())\n" % (name, name, name), "file")
            if len(seen) != 3: problems.append("%s: reading did not work" % what)
            for s in seen: compare(what, name, s, value(name))
        elif k == "newenv":
            e = dict.__getitem__(scope, "env")
            if op[2]:
                execute("env = env(exports=dict(exports, NEW=%r))" % ("v%d" % n), "expr")
                exported["NEW"] = "v%d" % n
            else: scope["env"] = e()
            # An export of the same name is updated by assignments from now on
        elif k == "temp":
            # Another environment in a with block, with name exported, and the name in op[3] assigned to and read
            e = dict.__getitem__(scope, "env")
            before, inner = exported, {"PATH": base["PATH"], name: op[2]}
            other = e(exports=dict(inner))
            dict.__setitem__(scope, "other", other)
            del seen[:]
            execute("try:\n    with env.temporary_env(other):\n        seen.append(%s)\n        seen.append(env)\n        %s = 'T%d'\n        seen.append(%s)\n        %s\nexcept ZeroDivisionError: pass\nseen.append(env)\n" % (name, op[3], n, op[3], "1 // 0" if op[4] else "pass"), "file")
            exported = inner
            want = [value(name), other]
            assign(op[3], "T%d" % n)
            want += [value(op[3]), e]
            exported = before
            if len(seen) != 4: problems.append("%s: the block did not work, %r" % (what, seen))
            for s, w in zip(seen, want): compare(what, name, s, w)
            if other._exports != inner: problems.append("%s: the exports of the other environment are %r, expected %r" % (what, other._exports, inner))
        elif k == "child":
            f = ctx.path()
            if op[2] == "expr": execute("+env._(%r, %r)" % (ctx.probe, "e:" + f), "expr")
            else: +dict.__getitem__(scope, "env")._(ctx.probe, "e:" + f)
            got = dict(x.split("=", 1) for x in (read(f) or b"").decode("utf-8", "surrogateescape").split("\0")[:-1])
            if got != exported: problems.append("%s: a child sees %r, expected %r" % (what, got, exported))
        elif k == "expand":
            v = value(name)
            if isinstance(v, tuple) or callable(v): continue
            f = ctx.path()
            arg = "=%%(%s)s=100%%%%" % name
            if op[2] == "expr": execute("+env._(%r, %r, %r)" % (ctx.probe, "a:" + f, arg), "expr")
            else: +dict.__getitem__(scope, "env")._(ctx.probe, "a:" + f, arg)
            got = (read(f) or b"").decode("utf-8", "surrogateescape").split("\0")[2:-1]
            if got != ["=%s=100%%" % v]: problems.append("%s: %r was expanded to %r, expected %r" % (what, arg, got, "=%s=100%%" % v))
        e = dict.__getitem__(scope, "env")
        if dict(e._exports) != exported: problems.append("%s: exports are %r, expected %r" % (what, dict(e._exports), exported))
        if problems: break
    return {"problems": problems, "counts": counts}
