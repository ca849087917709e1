from wlib import *
import inspect

# What a completion script of the user does, reporting what it was asked
LOADER = '''() { _w29() { printf '%s\\0' "${COMP_WORDS[@]}" > "$W29/words"; pwd > "$W29/cwd"; printf '%s' "$W29VAR" > "$W29/var"; printf x >> "$W29/asked"; mapfile -t COMPREPLY < "$W29/items"; }; complete -F _w29 "$1"; }'''
TOOL = '''#!/bin/sh
for a; do last="$a"; done
for a; do printf '%s\\0' "$a"; done >> "$W29/ran"
printf '\\n\\0' >> "$W29/ran"
if [ "$last" = --help ]; then cat "$W29/help"; fi
'''


def run(ctx, case):
    d = ctx.dir + "/q"
    for x in ("", "/bin", "/tree", "/tree/a", "/tree/a/b", "/tree/x y", "/tree/.dot", "/tree/a/PARENT"): os.mkdir(d + x)
    for x in ("/tree/file", "/tree/g1 x.t", "/tree/a/g1 x.t"): open(d + x, "w").close()
    open(ctx.work + "/g1 x.t", "w").close()
    os.symlink(d + "/tree/a", d + "/tree/link")
    os.mkdir(ctx.home + "/docs")
    os.mkdir(ctx.work + "/here")
    for n in ("tool", "my-tool", "tool2.sh", "t"):
        with open(d + "/bin/" + n, "w") as f: f.write(TOOL)
        os.chmod(d + "/bin/" + n, 0o755)
    pieshell = ctx.pieshell()
    R = pieshell.R
    exports = dict(os.environ, W29=d, W29VAR="it's é")
    exports["PATH"] = d + "/bin:/repo/pieshell/resources:" + exports["PATH"]
    exports["BASH_FUNC__completion_loader%%"] = LOADER
    cwds = [ctx.work, d + "/tree", d + "/tree/a"]
    cwd = cwds[case["cwd"]]
    env = pieshell.env(cwd=cwd, exports=exports, interactive=case["interactive"])
    scope = pieshell.environ.EnvScope(env=env, svar="s v") if case["scope"] else None
    if scope is not None: env._scope = scope
    problems, stats = [], {}
    mark = d + "/marker"
    marks = [0]

    def touch():
        marks[0] += 1
    gate = ctx.path("gate")
    bg = None
    if case["bg"]: bg = env._(ctx.probe, R("u:" + gate)).run()
    before_cwd = os.getcwd()

    def state(): return env.__dict__.get("last_pipeline"), [id(x) for x in env.running_pipelines], env._cwd, dict(env._exports), os.getcwd()

    def arguments(spec):
        """The arguments to give, and the words they denote"""
        args, words = [], []
        for a in spec:
            k = a[0]
            if k == "s":
                t = a[1].lstrip("~")
                args.append(t.replace("%", "%%"))
                words.append(t)
            elif k == "r":
                args.append(R(a[1]))
                words.append(a[1])
            elif k == "danger":
                t = [";touch %s", "$(touch %s)", "`touch %s`", "';touch %s;'", '"$(touch${IFS}%s)"', "$(touch${IFS}%s)", "`touch${IFS}%s`", "&&touch${IFS}%s", "\n touch %s\n", ">%s", "'$(touch${IFS}%s)"][a[1] % 11] % mark
                args.append(t if a[2] else R(t))
                words.append(t)
            elif k == "kw":
                args.append({a[1]: a[2] if not isinstance(a[2], str) else a[2].lstrip("~").replace("%", "%%")})
                n = a[1].replace("_", "-")
                if a[2] is True: words.append("--" + n)
                elif a[2] is not False: words.append("--%s=%s" % (n, a[2].lstrip("~")))
            elif k == "glob":
                args.append("g*.t")
                words.append("./g1 x.t")
            elif k == "var":
                args.append("<%(W29VAR)s>")
                words.append("<it's é>")
            elif k == "svar" and scope is not None:
                args.append("%(svar)s")
                words.append("s v")
            elif k == "pipe":
                args.append(env.touch(mark) | env.cat)
                words.append(None)
            elif k == "fn":
                async def f(stdin):
                    touch()
                    yield "x"
                args.append(f)
                words.append(None)
            elif k == "iter":
                def g():
                    touch()
                    yield "x"
                args.append(g())
                words.append(None)
        return args, words

    def same(got, want): return len(got) == len(want) and all(w is None or g == w for g, w in zip(got, want))

    for n, op in enumerate(case["ops"]):
        k = op[0]
        stats[k] = stats.get(k, 0) + 1
        what = "step %d %r" % (n, op)
        def bad(text, *a): problems.append(what + ": " + text % a)
        for f in ("words", "cwd", "var", "asked", "ran"):
            try: os.unlink(d + "/" + f)
            except FileNotFoundError: pass
        if k == "last":
            (env._(ctx.probe) if op[1] else env.tool("x")).run_interactive()
            continue
        before = state()
        allowed = []
        if k == "complete":
            args, words = arguments(op[2])
            with open(d + "/items", "w") as f: f.write("".join(x + "\n" for x in op[3]))
            want = sorted(x.strip() for x in op[3])
            cmd = (getattr(env, op[1]) if op[4] else env._(op[1]))
            if args: cmd = cmd(*args)
            got = dir(cmd)
            if got != want: bad("the completions are %r, expected %r", got, want)
            w = (read(d + "/words") or b"").decode("utf-8", "surrogateescape").split("\0")[:-1]
            if not same(w, [op[1]] + words + [""]): bad("completions were asked for %r, expected %r", w, [op[1]] + words + [""])
            if (read(d + "/cwd") or b"").decode() != cwd + "\n": bad("completed in %r, expected %r", read(d + "/cwd"), cwd)
            if (read(d + "/var") or b"").decode() != exports["W29VAR"]: bad("completed with another environment: %r", read(d + "/var"))
        elif k in ("rl", "jedi") and scope is not None:
            items = [x for x in op[1] if x.isidentifier()]
            with open(d + "/items", "w") as f: f.write("".join(x + "\n" for x in items))
            if k == "rl":
                import rlcompleter
                c = rlcompleter.Completer(scope)
                got = set()
                for i in range(1000):
                    m = c.complete("tool." + op[2], i)
                    if m is None: break
                    got.add(m.rstrip("()"))
            else:
                try:
                    import jedi, readline
                except ImportError: continue
                import pieshell.jedi_completion
                hold = {}
                save = readline.set_completer
                try:
                    readline.set_completer = lambda f: hold.update(f=f)
                    pieshell.jedi_completion.setup_readline([scope])
                finally: readline.set_completer = save
                got = set()
                for i in range(1000):
                    m = hold["f"]("tool." + op[2], i)
                    if m is None: break
                    got.add(m)
            want = {"tool." + x for x in items if x.startswith(op[2])}
            if not want <= got: bad("the completions %r lack %r", sorted(got)[:20], sorted(want - got))
            allowed = [["--help"]]
        elif k == "cd":
            parts = [x.replace("@", d) for x in op[1]]
            p = cwd
            for x in parts:
                x = {"PARENT": "..", "ROOT": "/"}.get(x, x)
                if x[:1] == "~" and x is parts[0]: x = ctx.home + x[1:]
                p = os.path.join(p, x)
            p = os.path.normpath(p)
            want = ["PARENT", "ROOT"]
            if os.path.isdir(p): want += [x for x in os.listdir(p) if os.path.isdir(p + "/" + x)]
            cmd = env.cd
            if parts and op[2]: cmd = cmd(*parts)
            else:
                for x in parts: cmd = getattr(cmd, x)
            got = dir(cmd)
            if p == "/": pass   # Not ours
            elif sorted(got) != sorted(want): bad("the completions are %r, expected %r", got, sorted(want))
        elif k == "help":
            args, words = arguments([a for a in op[1] if a[0] in ("s", "r", "danger", "var", "kw")])
            with open(d + "/help", "w") as f: f.write(op[2])
            lines = op[2].split("\n")
            if lines[-1] == "": lines.pop()
            cmd = env.tool(*args)
            got = inspect.getdoc(cmd) if op[3] else cmd.__doc__
            want = inspect.cleandoc("\n".join(lines)) if op[3] else "\n".join(lines)
            if (got or "") != want: bad("the help is %r, expected %r", got, want)
            allowed = [words + ["--help"]]
        elif k == "sig":
            args, words = arguments([a for a in op[1] if a[0] in ("s", "r", "danger", "var", "kw")])
            text, want = "Usage: tool [OPTION]...\n", {}
            for name, kind, value, layout in op[2]:
                o = "--" + name + {"flag": "", "value": "=" + value, "optional": "[=" + value + "]"}[kind]
                text += ["  -%s, %s   does things\n" % (name[0], o), "      %s\n" % o, "\t%s\tdoes things\n" % o, "  %s  as described in tool(1), =x or [=y]\n" % o, "You can also say %s here.\n" % o][layout]
                key = name.replace("-", "_")
                want.setdefault(key, inspect.Parameter.empty)
                if kind != "value": want[key] = False
            with open(d + "/help", "w") as f: f.write(text)
            cmd = env.tool(*args)
            try:
                s = inspect.signature(cmd)
                got = {p.name: p.default for p in s.parameters.values()}
                if list(got.items()) != list(want.items()): bad("the signature has %r, expected %r", got, want)
                if any(p.kind is not inspect.Parameter.KEYWORD_ONLY for p in s.parameters.values()): bad("kinds of parameters in %s", s)
            except Exception as e: bad("inspect.signature raises %r", e)
            allowed = [words + ["--help"]]
        elif k == "describe":
            inner = env.touch(mark)
            if op[1] == "pipe": o = inner | env.cat
            elif op[1] == "group": o = inner + env.touch(mark)
            elif op[1] == "redirect": o = inner > mark
            elif op[1] == "iter": o = ["x"] | inner
            elif op[1] == "input": o = inner < "/dev/null"
            elif op[1] == "fn":
                async def f(stdin):
                    touch()
                    yield "x"
                o = f | inner
            elif op[1] == "subshell": o = env.subshell(inner)
            elif op[1] == "subshell2": o = env.subshell(inner | env.cat)
            elif op[1] == "remote": o = env.remote("host", inner)
            elif op[1] == "source": o = env.bashsource(mark)
            elif op[1] == "cd": o = env.cd(d)
            elif op[1] == "fg": o = env.fg
            elif op[1] == "pipesub": o = env.subshell(inner) | env.cat
            if op[2] == "dir": dir(o)
            elif op[2] == "doc": inspect.getdoc(o)
            elif op[2] == "sig": inspect.signature(o)
            elif op[2] == "pydoc":
                import pydoc
                pydoc.render_doc(o)
        elif k == "pydoc":
            import pydoc
            with open(d + "/items", "w") as f: f.write("one\ntwo\n")
            with open(d + "/help", "w") as f: f.write("Usage: tool THINGS\n  --alpha=N  things\n")
            t = pydoc.plain(pydoc.render_doc(env.tool))
            if "Usage: tool THINGS" not in t or "alpha" not in t: bad("help() shows %r", t[:300])
            allowed = [["--help"]] + [[x, "--help"] for x in ("one", "two")] + [None]
        ran = [x.strip("\0").split("\0") if x.strip("\0") else [] for x in (read(d + "/ran") or b"").decode("utf-8", "surrogateescape").replace("\0\n\0", "\0\x01").split("\x01")[:-1]] if read(d + "/ran") else []
        if None not in allowed:
            for r in ran:
                if r not in [[y for y in x] for x in allowed] and [x for x in r if x] not in [[y for y in x if y] for x in allowed]: bad("the command was run, with %r, expected at most %r", r, allowed)
        if os.path.exists(mark) or marks[0]:
            bad("something in the arguments was run")
            break
        after = state()
        if after[0] is not before[0] or after[1:] != before[1:]: bad("the environment has changed: %r, was %r", [after[0], after[1], after[2], after[4]], [before[0], before[1], before[2], before[4]])
        if problems: break
    if bg is not None:
        open(gate, "w").close()
        loop().run_until_complete(bg.wait())
    return {"problems": problems[:4], "stats": stats}
