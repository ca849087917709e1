from wlib import *
import subprocess, pickle

BOOT = "import sys; sys.argv[0] = 'pieshell'; from pieshell.shell import main; sys.exit(main())"
L = "__import__('w23rec').L"


def run(ctx, case):
    from w23rec import L as rec
    os.environ["W23REC"] = recfile = ctx.dir + "/rec"
    problems = []
    marks = []          # what commands write, in order
    prints = []         # what Python prints
    want = []           # records
    stdin_files = []
    fdfiles = []
    n = [0]
    displayed = [False]
    exited = [None]

    def live(): return exited[0] is None

    def eff(*a):
        if live(): want.append(" ".join(repr(x) for x in a))

    def statement(s, mode, runs=True):
        """Text of a statement; notes its effects.  Modes: single (typed), file"""
        n[0] += 1
        t = "s%d" % n[0]
        k = s[0]
        probe = "_(%r)" % ctx.probe
        if k == "py":
            eff(t, 1)
            return "%s(%r, 1)" % (L, t)
        if k == "print":
            if live(): prints.append("P%s;" % t)
            return "print('P%s;')" % t
        if k == "value":
            # Only what is typed is displayed
            if mode != "file" and live(): prints.append(repr("V%s;" % t))
            return "'V' + '%s;'" % t
        if k == "for":
            for i in range(s[1]): eff(t, i)
            return "for i in range(%d):\n    %s(%r, i)" % (s[1], L, t)
        if k == "if":
            eff(t, "yes" if s[1] else "no")
            return "if %r:\n  %s(%r, 'yes')\nelse:\n  %s(%r, 'no')" % (s[1], L, t, L, t)
        if k == "semi":
            eff(t, 5)
            eff(t, 6)
            return "a = 5; %s(%r, a); a += 1; %s(%r, a)" % (L, t, L, t)
        if k == "def":
            return "def f%s(x, *, k=3):\n    return x + k\n" % t
        if k == "class":
            eff(t, 7)
            return "class C%s:\n    %s(%r, 7)\n    def m(self): pass" % (t, L, t)
        if k == "try":
            eff(t, "caught")
            return "try:\n    1 // 0\nexcept ZeroDivisionError:\n    %s(%r, 'caught')" % (L, t)
        if k == "uni":
            eff(t, s[1])
            return "%s(%r, %r)" % (L, t, s[1])
        if k == "args":
            eff(t, case_args, case_kws)
            return "%s(%r, args, kws)" % (L, t)
        if k == "name":
            eff(t, "__main__")
            return "%s(%r, __name__)" % (L, t)
        if k == "import":
            eff(t, "a/b")
            return "import os.path, sys as system; %s(%r, os.path.join('a', 'b'))" % (L, t)
        if k == "startup":
            eff(t, case["startup"] and case["home"] in ("given", "raises"))
            return "%s(%r, 'startup_value' in globals() and startup_value == 5)" % (L, t)
        if k == "std":
            if case["startup"]: eff(t, True)
            else: eff(t, None)
            return "%s(%r, %s)" % (L, t, "INIT is pieshell.ps.INIT and CURRENT is pieshell.ps.CURRENT and USERS is pieshell.ps.USERS and PstreeProcess is pieshell.ps.PstreeProcess and R is pieshell.R and all(globals()[x] is getattr(pieshell.redir, x) for x in ('Redirect', 'TMP', 'STRING', 'PIPE')) and all(globals()[x] is getattr(pieshell.pipeline.running, x) for x in ('PipelineError', 'PipelineInterrupted', 'PipelineSuspended')) and env._cwd in str(__import__('sys').ps1)" if case["startup"] else "None")
        if k == "env":
            eff(t, case["var"])
            return "%s(%r, exports['W23VAR'])" % (L, t)
        if k == "var":
            eff(t, case["var"])
            return "%s(%r, W23VAR)" % (L, t)
        if k == "names":
            # Exported variables with the names of things that are not strings
            f = ctx.dir + "/" + t + ".env"
            if live(): envfiles.append(f)
            eff(t, [v for _, v in case.get("names", [])])
            text = "zz = +%s('e:%s')" % (probe, f)
            return "%s\n%s(%r, [exports[x] for x in %r])" % (text, L, t, [x for x, _ in case.get("names", [])]) if mode == "file" else "%s; %s(%r, [exports[x] for x in %r])" % (text, L, t, [x for x, _ in case.get("names", [])])
        if k == "raise":
            return "raise ValueError('%s')" % t
        if k == "exit":
            if live(): exited[0] = s[1]
            return "import sys; sys.exit(%d)" % s[1]
        if k == "cmd":
            f = ctx.dir + "/" + t
            if live():
                marks.append("M%s;" % t)
                cmdfiles.append((f, 1))
            # An argument file gives each command its own process, in any mode
            c = "%s('t:%s', 'w:1:%s')" % (probe, f, ("M%s;" % t).encode().hex())
            form = s[1]
            if form == "cat": c = "%s | cat" % c
            elif form == "group": c = "(%s) + _('true')" % c
            elif form == "fn": c = "%s | fn_" % c if False else c
            elif form == "redir": c = "%s > '/dev/stdout'" % c
            if mode == "file" or form == "plus": return ("" if mode == "file" else "zz = ") + "+(%s)" % c
            if form == "wait": return "import asyncio; asyncio.get_event_loop().run_until_complete((%s).run().wait())" % c
            return c
        if k == "capture":
            eff(t, "M%s;" % t)
            return "%s(%r, str(%s('w:1:%s')))" % (L, t, probe, ("M%s;" % t).encode().hex())
        if k == "stdin":
            f = ctx.dir + "/" + t
            if live() and not stdin_files: stdin_files.append(f)
            if live(): fdfiles.append(f + ".fds")
            return ("+" if mode == "file" else "") + "%s('f:%s', 'R:%s')" % (probe, f + ".fds", f)
        if k == "fail":
            f = ctx.dir + "/" + t
            if live(): cmdfiles.append((f, 1))
            return ("+" if mode == "file" else "") + "%s('t:%s', 'x:3')" % (probe, f)
        raise ValueError(k)
    cmdfiles = []
    envfiles = []
    act = case["action"]
    opts = []
    for o in case["opts"]: opts.append(o)
    positional = list(case["positional"]) if act in ("cmd", "pcmd") else []
    files = []
    extra = []
    # What args and kws will be has to be known before the effects are
    if act == "files": positional = [ctx.dir + "/script %d.pysh" % i if case["spaces"] else ctx.dir + "/script%d" % i for i in range(len(case["files"]))]
    case_args = positional
    case_kws = {}
    words = list(opts)
    if not case["startup"]: words.append("--no-startup")
    if case["log"]: words.append("--log=" + case["log"])
    if act == "cmd": words.append(("cmd",))
    if act == "pcmd": words.append(("pcmd",))
    if act in ("version", "help"): words.append("--" + act)
    if case["both"] and act == "version":
        words.append(("cmd",))
    # The order of the words is arbitrary
    order = [x for _, x in sorted(zip(case["order"] + [0] * 20, range(len(words))))]
    words = [words[i] for i in order]

    def kw(w):
        w = w[2:]
        a, eq, b = w.partition("=")
        return a, (b if eq else True)
    # cmd's own text is part of kws
    for w in words:
        if not isinstance(w, tuple):
            a, b = kw(w)
            case_kws[a] = b
    home = ctx.home
    conf = home + "/.config/pieshell"
    # The start-up file comes first
    startup_text = None
    if case["home"] in ("given", "raises"):
        os.mkdir(home + "/.config")
        startup_text = "startup_value = 5\n" + L + "('startup', sorted(kws) == " + repr(sorted(list(case_kws) + ([act] if act in ("cmd", "pcmd") else []))) + ")\n"
        if case["home"] == "raises": startup_text += "raise ValueError('in startup')\n"
        with open(conf, "w") as f: f.write(startup_text)
        if case["startup"] and act not in ("version", "help"): eff("startup", True)
    elif case["home"] == "config": os.mkdir(home + "/.config")
    elif case["home"] == "unwritable": os.chmod(home, 0o555)
    nothing = act in ("version", "help")
    if nothing: exited[0] = 0
    text = None
    console = ""
    if act == "cmd" or case["both"] and act == "version":
        text = statement(case["stmt"], "single")
        if case["stmt"][0] == "args":
            # contains itself
            if not nothing: want.pop()
            text = "%s('args', args, sorted(kws))" % L
            eff("args", case_args, sorted(list(case_kws) + ["cmd"]))
    elif act == "files":
        for p, stmts in zip(positional, case["files"]):
            body = ""
            for s in stmts:
                body += statement(s, "file") + "\n"
                if s[0] == "raise" or s[0] == "fail":
                    # Ends this file
                    break
            with open(p, "w") as f: f.write(body.rstrip("\n") if case["final"] else body)
    elif act == "console":
        for s in case["files"][0]:
            if s[0] in ("stdin", "exit"): s = ["py"]
            console += statement(s, "single") + "\n" + ("\n" if s[0] in ("for", "if", "def", "class", "try") else "")
    pickled = None
    if act == "pcmd":
        pieshell = ctx.pieshell()
        f = ctx.dir + "/pc"
        cmdfiles.append((f, 1))
        marks.append("Mpc;")
        p = pieshell.env._(ctx.probe, "t:" + f, "w:1:" + b"Mpc;".hex())
        form = case["stmt"][0]
        if form in ("for", "if"): p = p | pieshell.env.cat
        elif form in ("cmd", "py"): p = p + pieshell.env._(ctx.probe, "w:1:" + b"Mqc;".hex()); marks.append("Mqc;")
        elif form == "stdin":
            g = ctx.dir + "/pcin"
            stdin_files.append(g)
            p = p | pieshell.env.cat
            p = pieshell.env._(ctx.probe, "R:" + g) + p
        pickled = base64.b64encode(pickle.dumps(p)).decode()
    argv = []
    for w in words:
        if isinstance(w, tuple): w = "--cmd=" + text if w[0] == "cmd" else "--pcmd=" + pickled
        argv.append(w)
    at = case["order"][0] % (len(argv) + 1) if case["order"] else 0
    argv = argv[:at] + positional + argv[at:]
    data = case["input"].encode()
    inp = ctx.store(console.encode() if act == "console" else data, "stdin")
    out, err = ctx.path("stdout"), ctx.path("stderr")
    env = {"PATH": os.environ["PATH"], "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "xterm", "TMPDIR": ctx.tmp, "PYTHONPATH": "/repo:" + ctx.scratch + "/worker", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "PYTHONPYCACHEPREFIX": ctx.scratch + "/pyc", "W23REC": recfile, "W23VAR": case["var"], "PYTHONWARNINGS": "ignore"}
    env.update(map(tuple, case.get("names", [])))
    boot = BOOT if case["manager"] != "asyncio" else "import sys; sys.modules['signalfd'] = None; " + BOOT[len("import sys; "):]
    before = tree(home)
    with open(inp, "rb") as i, open(out, "wb") as o, open(err, "wb") as e:
        ids = [os.fstat(x.fileno()).st_ino for x in (i, o)]
        p = subprocess.Popen([sys.executable, "-c", boot] + argv, stdin=i, stdout=o, stderr=e, env=env, cwd=ctx.work)
        try: rc = p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "no end"
    stdout, stderr = read(out).decode("utf-8", "replace"), read(err).decode("utf-8", "replace")
    os.chmod(home, 0o755)
    def bad(text): problems.append("%s (arguments %r, stdout %r, stderr %r)" % (text, argv, stdout[-400:], stderr[-500:]))
    if rc != (exited[0] or 0): bad("exit status %r, expected %r" % (rc, exited[0] or 0))
    got = (read(recfile) or b"").decode().split("\n")[:-1]
    if got != want: bad("the program did %r, expected %r" % (got, want))
    for f, k in cmdfiles:
        t = (read(f) or b"").count(b"\n")
        if t != k: bad("a command ran %d times" % t)
    ran = [f for f in os.listdir(ctx.dir) if re_s.match(f) and ctx.dir + "/" + f not in [g for g, k in cmdfiles] and ctx.dir + "/" + f not in stdin_files + fdfiles and not f.endswith((".fds", ".env"))]
    if nothing and ran: bad("commands ran: %r" % ran)
    if not case["log"]:
        import re
        key = sorted if act == "pcmd" else list  # The parts of a group run at the same time
        if key(re.findall(r"M\w+;", stdout)) != key(marks): bad("commands output %r, expected %r" % (re.findall(r"M\w+;", stdout), marks))
        q = re.findall(r"(?<!')P\w+;|'V\w+;'", stdout)
        if q != prints: bad("Python printed %r, expected %r" % (q, prints))
        if act != "console" and not nothing:
            rest = re.sub(r".*No (?:signalfd support|support for signalfd).*\n|M\w+;|P\w+;|'V\w+;'|\s", "", stdout)
            if rest: bad("more output: %r" % rest)
    else:
        import re
        if not set(marks) <= set(re.findall(r"M\w+;", stdout)): bad("output of commands is missing: %r" % marks)
    for f in stdin_files[:1]:
        if read(f) != data: bad("a command read %r from pieshell's standard input, expected %r" % (read(f), data))
    for f in fdfiles:
        d = parse_fds((read(f) or b"").decode())
        if d and (d[0]["ino"] != ids[0] or d[1]["ino"] != ids[1]): bad("descriptors of a command: %r" % d)
        if not d: bad("command did not run")
    for f in envfiles:
        d = dict(x.split("=", 1) for x in (read(f) or b"").decode("utf-8", "surrogateescape").split("\0")[:-1])
        if any(d.get(x) != v for x, v in case.get("names", [])): bad("a command sees the environment %r, expected %r" % (d, case["names"]))
    if act == "version":
        ctx.pieshell()
        lines = [l for l in stdout.split("\n") if "No signalfd support" not in l and "No support for signalfd" not in l]
        if lines != [sys.modules["pieshell.version"].version, ""]: bad("--version")
    if act == "help":
        if [w for w in ("Usage", "--help", "--version", "--cmd", "--pcmd", "--log", "--no-startup", "--ptpython", "FILE") if w not in stdout]: bad("--help")
    after = tree(home)
    after.pop("home/.config/pieshell.history", None)
    if nothing or not case["startup"]:
        if act == "console" : after.pop("home/.config", None) if "home/.config" not in before else None
        if after != before: bad("the home directory changed: %r, %r" % (sorted(before), sorted(after)))
    elif case["home"] in ("missing", "config"):
        if after.get("home/.config/pieshell") != read("/repo/pieshell/resources/default_config.pysh"): bad("no default start-up file: %r" % sorted(after))
    elif startup_text is not None:
        if after.get("home/.config/pieshell") != startup_text.encode(): bad("the start-up file changed")
    if nothing and stderr: bad("--%s writes to stderr" % act)
    clean = not any(w in stderr for w in ("Traceback", "Error"))
    may = any(s[0] in ("raise", "fail") for f in case["files"] + [[case["stmt"]]] for s in f) or case["home"] == "raises"
    # Nothing is claimed about the history of the console
    if not clean and not may and not (act == "console" and "history" in stderr): bad("errors")
    return {"problems": problems[:3], "n": len(want) + len(cmdfiles) + len(prints)}


import re
re_s = re.compile(r"s[0-9]+$")


def tree(top):
    res = {}
    base = os.path.dirname(top)
    for d, dirs, files in os.walk(top):
        for x in dirs: res[os.path.relpath(d + "/" + x, base)] = None
        for x in files: res[os.path.relpath(d + "/" + x, base)] = read(d + "/" + x)
    return res
