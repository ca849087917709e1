BUGS = [
 dict(id="c27-last-wait", property="C27", edits=[("pieshell/pipeline/base.py", "        pipeline = self.run()\n        await pipeline.wait()\n", "        self.run()\n        pipeline = self._env.last_pipeline\n        await pipeline.wait()\n")],
  needs="running a builtin that starts no process, such as cd, interactively while a pipeline runs in the background",
  what="What is waited for is the last pipeline of the environment, which isn't the one just run if that one started no processes: +env.cd(..) waits for the background pipeline.",
  demo='''
import pieshell, os, time
env = pieshell.env
rp = ~env.sleep("5")
t = time.time()
+env.cd("/")
assert time.time() - t < 3, "cd waited for the pipeline in the background"
import signal
os.kill(rp.processes[0].pid, signal.SIGKILL)
'''),
 dict(id="c27-and-none", property="C27", edits=[("pieshell/pipeline/base.py", "        self = self | other\n        return self.run()\n", "        if other is not None:\n            self = self | other\n        return self.run()\n")],
  needs="a pipeline started with `pipeline & None`, which discards its output",
  what="`pipeline & None` doesn't discard the output any more.",
  demo='''
import pieshell, os
env = pieshell.env
e = env(redirects=pieshell.redir.Redirects(env._redirects, pieshell.Redirect("stdout", "out")))
rp = e.echo("x") & None
import asyncio
async def f(): await rp
asyncio.get_event_loop().run_until_complete(f())
got = open("out").read() if os.path.exists("out") else ""
assert got == "", got
'''),
 dict(id="c28-under", property="C28", edits=[("pieshell/pipeline/command.py", "            if arg:\n                builtin_cls", "            if arg and len(arg) == 1:\n                builtin_cls")],
  needs="a builtin named together with its arguments, as in env._('cd', '/tmp')",
  what="A builtin is only recognised if it is named without arguments; otherwise a program of that name is looked for.",
  demo='''
import pieshell, os
os.mkdir("sub")
e = pieshell.env()
+pieshell.pipeline.command.BaseCommand(e, ["cd", "sub"])
assert e._cwd == os.getcwd() + "/sub", e._cwd
'''),
 dict(id="c06-minus-underscore", property="C06", edits=[("pieshell/pipeline/command.py", '        return "-" + self._arg[0]\n', '        return "-" + self._arg[0].replace("_", "-")\n')],
  needs="an option written with a minus, the name of which contains an underscore",
  what="The name of an option written with a minus gets its underscores replaced, like those of keyword options.",
  demo='''
import pieshell
env = pieshell.env
got = list(env.echo - env.a_b)
assert got == ["-a_b"], got
'''),
 dict(id="c06-attr-dash", property="C06", edits=[("pieshell/pipeline/command.py", "        return type(self)(self._env, self._arg + [name])\n", '        return type(self)(self._env, self._arg + [name.replace("_", "-")])\n')],
  needs="an argument written as an attribute, with an underscore in it",
  what="Arguments written as attributes get their underscores replaced by dashes.",
  demo='''
import pieshell
got = list(pieshell.env.echo.a_b("c"))
assert got == ["a_b c"], got
'''),
 dict(id="c07-recursive", property="C07", edits=[("pieshell/environ.py", "            res = glob.glob(os.path.join(glob.escape(self._cwd), arg))\n", "            res = glob.glob(os.path.join(glob.escape(self._cwd), arg), recursive=True)\n")],
  needs="a pattern with ** as a component, in a directory with subdirectories of subdirectories",
  what="** matches any number of directories, rather than the same as *.",
  demo='''
import pieshell, os
os.makedirs("a/b/c")
got = sorted(pieshell.env.echo("**"))
assert got == ["./a"], got
'''),
 dict(id="c25-environ", property="C25", edits=[("pieshell/environ.py", "            e = self._exports\n            self._dir_cache = []\n", "            e = os.environ\n            self._dir_cache = []\n")],
  needs="an environment with a PATH of its own",
  what="The commands offered for completion are those in the PATH of the Python process rather than in that of the environment.",
  demo='''
import pieshell, os
os.mkdir("bin")
with open("bin/mine", "w"): pass
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin"))
assert "mine" in dir(e)
'''),
 dict(id="c23-args-all", property="C23", edits=[("pieshell/shell.py", '            environ.envScope["args"] = args\n', '            environ.envScope["args"] = sys.argv[1:]\n')],
  needs="a script that is given options and looks at args",
  what="args contains the options as well.",
  demo='''
import subprocess, sys
with open("s.pysh", "w") as s: s.write("with open('got', 'w') as f: f.write(repr(args) + repr(kws))\\n")
subprocess.run([sys.executable, "-W", "ignore", "-m", "pieshell.shell", "--no-startup", "--x=1", "s.pysh"])
got = open("got").read()
assert got.startswith("['s.pysh']"), got
'''),
 dict(id="c15-merge-kw", property="C15", edits=[("pieshell/pipeline/command.py", "            arg += [kw]\n", "            if arg and isinstance(arg[-1], dict):\n                arg[-1].update(kw)\n            else:\n                arg += [kw]\n")],
  needs="a dictionary of options that is given to a command together with keyword options, and then used for another",
  what="Keyword options are added to the dictionary given by the user, so that they show up wherever that one is used again.",
  demo='''
import pieshell
env = pieshell.env
opts = {"a": "1"}
x = env.echo(opts, b="2")
y = env.echo(opts)
assert list(y) == ["--a=1"], list(y)
'''),
 dict(id="c15-display-once", property="C15", edits=[("pieshell/pipeline/base.py", "            try:\n                self.run_interactive()\n", "            try:\n                self._started = True\n                self.run_interactive()\n")],
  needs="a pipeline that is displayed twice in an interactive environment",
  what="A pipeline that has been run by displaying it is not run again, but printed.",
  demo='''
import pieshell, sys
e = pieshell.env(interactive=True)
e.touch("f") 
p = e._("sh", "-c", "echo x >> out")
sys.displayhook(p)
sys.displayhook(p)
assert open("out").read() == "x\\nx\\n", open("out").read()
'''),
 dict(id="c16-fg-given", property="C16", edits=[("pieshell/pipeline/builtins.py", "            pipeline = self._arg[1]\n        return [RunnningFg(pipeline)]\n", "            pipeline = pipeline or self._arg[1]\n        return [RunnningFg(pipeline)]\n")],
  needs="fg given a pipeline that isn't the last one run",
  what="fg waits for the last pipeline rather than the one it is given.",
  demo='''
import pieshell, os, signal, time
env = pieshell.env
a = ~env.sleep("2")
b = ~env.sleep("20")
t = time.time()
+env.fg(a)
d = time.time() - t
os.kill(b.processes[0].pid, signal.SIGKILL)
assert d < 10, d
'''),
 dict(id="c16-bg-given", property="C16", edits=[("pieshell/pipeline/builtins.py", "            pipeline = self._arg[1]\n        pipeline.restart()\n", "            pipeline = pipeline or self._arg[1]\n        pipeline.restart()\n")],
  needs="bg given a suspended pipeline that isn't the last one run",
  what="bg continues the last pipeline rather than the one it is given.",
  demo='''
import pieshell, os, time, subprocess
env = pieshell.env
a = ~env._("sh", "-c", "sleep 1; echo x > out")
a.suspend()
b = ~env.true()
time.sleep(1)
+env.bg(a)
for i in range(100):
    if os.path.exists("out"): break
    time.sleep(0.1)
else:
    a.restart()
    raise AssertionError("not continued")
'''),
 dict(id="c29-doc-prefix", property="C29", edits=[("pieshell/pipeline/command.py", '            return "\\n".join(self("--help"))', '            return "\\n".join(type(self)(self._env, self._arg[:1])("--help"))')],
  needs="help on a command with a subcommand",
  what="Help on env.git.status is that on env.git.",
  demo='''
import pieshell, os
os.mkdir("bin")
with open("bin/tool", "w") as f: f.write("#!/bin/sh\\necho help of $0 $* | sed 's,.*/,,'\\n")
os.chmod("bin/tool", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
got = e.tool.sub.__doc__
assert "tool sub --help" in got, got
'''),
 dict(id="c29-optional", property="C29", edits=[("pieshell/pipeline/command.py", '                params[param].add("") # Optional\n', '                pass # Optional\n')],
  needs="the signature of a command with an option that has an optional value",
  what="An option with an optional value, --color[=WHEN], has no default in the signature.",
  demo='''
import pieshell, os, inspect
os.mkdir("bin")
with open("bin/tool", "w") as f: f.write("#!/bin/sh\\necho '  --color[=<when>]  colour it'\\n")
os.chmod("bin/tool", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
p = e.tool.__signature__.parameters["color"]
assert p.default is False, p
'''),
 dict(id="c29-repeat", property="C29", edits=[("pieshell/pipeline/command.py", "            if param not in params:\n                params[param] = set()\n", "            params[param] = set()\n")],
  needs="the signature of a command the help of which mentions an option several times, with different values",
  what="Only the last mention of an option counts.",
  demo='''
import pieshell, os, inspect, typing
os.mkdir("bin")
with open("bin/tool", "w") as f: f.write("#!/bin/sh\\nprintf '  --mode=fast  a\\\\n  --mode=slow  b\\\\n'\\n")
os.chmod("bin/tool", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
p = e.tool.__signature__.parameters["mode"]
assert sorted(x.value for x in p.annotation) == ["fast", "slow"], p
'''),

 dict(id="c30-children-once", property="C30", edits=[("pieshell/ps.py", "    @property\n    def _children(self):\n        children = self", "    @functools.cached_property\n    def _children(self):\n        children = self"), ("pieshell/ps.py", "import os\n", "import os\nimport functools\n")],
  needs="an object of a process that is looked at, after which the process starts or loses children",
  what="The children of a process are remembered by its object from the first time it is looked at.",
  demo='''
import pieshell, os, time
from pieshell import ps
o = ps.PstreeProcess(os.getpid())
assert "sleep" not in dir(o), dir(o)
rp = ~pieshell.env.sleep("20")
end = time.time() + 10
while "sleep" not in dir(ps.PstreeProcess(os.getpid())) and time.time() < end: time.sleep(0.05)
names = dir(o)
import signal
os.kill(rp.processes[0].pid, signal.SIGKILL)
assert "sleep" in names, names
'''),
 dict(id="c30-recursive", property="C30", edits=[("pieshell/ps.py", "        children = self.INFO.children()\n", "        children = self.INFO.children(recursive=True)\n")],
  needs="a process with grandchildren",
  what="All descendants of a process are given as its children.",
  demo='''
import pieshell, os, time, subprocess
from pieshell import ps
p = subprocess.Popen(["sh", "-c", "sh -c 'sleep 20; true'; true"])
try:
    end = time.time() + 10
    import psutil
    while len(psutil.Process(p.pid).children(recursive=True)) < 2 and time.time() < end: time.sleep(0.05)
    names = list(dir(ps.PstreeProcess(p.pid)))
finally:
    for c in psutil.Process(p.pid).children(recursive=True): c.kill()
    p.kill()
assert len(names) == 1 and names[0] != "sleep", names
'''),
 dict(id="c30-attr-first", property="C30", edits=[("pieshell/ps.py", "            return getattr(self._children, key)\n        except:\n            return getattr(self.INFO, key)\n", "            return getattr(self.INFO, key)\n        except AttributeError:\n            return getattr(self._children, key)\n")],
  needs="a child process with the name of an attribute of processes, such as nice",
  what="The attributes of a process hide its children of the same name.",
  demo='''
import pieshell, os, time, subprocess, shutil
from pieshell import ps
shutil.copy(shutil.which("sleep"), "status")
p = subprocess.Popen(["./status", "20"])
try:
    end = time.time() + 10
    while "status" not in dir(ps.CURRENT) and time.time() < end: time.sleep(0.05)
    x = ps.CURRENT.status
finally:
    p.kill()
assert isinstance(x, ps.PstreeProcess) and x.INFO.pid == p.pid, x
'''),
 dict(id="c30-login-details", property="C30", edits=[("pieshell/ps.py", "            return getattr(self.process, key)\n        except:\n            return getattr(self.details, key)\n", "            return getattr(self.details, key)\n        except AttributeError:\n            return getattr(self.process, key)\n")],
  needs="an attribute or child of a login's process that has the name of a field of the login",
  what="The fields of a login hide the attributes of its process: name is the user's name.",
  demo='''
import pieshell, os, collections, psutil
from pieshell import ps
S = collections.namedtuple("suser", "name terminal host started pid")
psutil.users = lambda: [S("al", "pts/0", "h1", 1.0, os.getpid())]
x = ps.USERS.al
assert x.name() == psutil.Process().name(), x.name
'''),
 dict(id="c30-login-level", property="C30", edits=[("pieshell/ps.py", "        return self.process._getkey(level - 2 if level is not None else None)\n", "        return self.process._getkey(level - 1 if level is not None else None)\n")],
  needs="several logins of one user from one host, with different programs",
  what="Logins of one user from one host are named by the path of their program, rather than by its name.",
  demo='''
import pieshell, os, collections, psutil, subprocess, shutil, time
from pieshell import ps
shutil.copy(shutil.which("sleep"), "mysh")
p = subprocess.Popen(["./mysh", "20"])
try:
    S = collections.namedtuple("suser", "name terminal host started pid")
    end = time.time() + 10
    while psutil.Process(p.pid).name() != "mysh" and time.time() < end: time.sleep(0.05)
    psutil.users = lambda: [S("al", "pts/1", "h1", 1.0, os.getpid()), S("al", "pts/0", "h1", 1.0, p.pid)]
    names = list(dir(ps.USERS.al.h1))
finally:
    p.kill()
assert "mysh" in names, names
'''),

 dict(id="c31-last-pipeline", property="C31", edits=[("pieshell/resources/default_config.pysh", "            self.last_pipeline = last_pipeline\n", "")],
  needs="the prompt being shown after a pipeline, and something that uses the last pipeline then, such as fg",
  what="The pipelines run to make the prompt become the last pipeline.",
  demo='''
import pieshell, os
from pieshell import environ
s = environ.envScope
os.environ["HOME"] = os.getcwd()
with s:
    s.execute_startup()
    env = s["env"]
    rp = +env.true()
    p = str(env)
    assert env.last_pipeline is rp, env.last_pipeline
'''),
 dict(id="c31-one-change", property="C31", edits=[("pieshell/resources/default_config.pysh", "    if changes > 0:\n", "    if changes > 1:\n")],
  needs="a git work tree in which exactly one file is changed",
  what="The prompt shows no number of changes if it is one.",
  demo='''
import pieshell, os, subprocess
from pieshell import environ
s = environ.envScope
os.environ["HOME"] = os.getcwd()
os.mkdir("r")
subprocess.run(["git", "init", "-q", "-b", "main", "r"], check=True)
open("r/f", "w").close()
with s:
    s.execute_startup()
    p = str(s["env"](cwd=os.getcwd() + "/r"))
assert "~/r[main +1] >>>" in p, p
'''),
]
