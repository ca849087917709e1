BUGS = [
 dict(id="c01-bytes-lines", property="C01", edits=[("pieshell/pipeline/base.py", '        return b"".join(asyncitertoiter(self.run([redir.Redirect("stdout", redir.PIPE)]).iterbytes()))\n', '        return "".join(line + "\\n" for line in self).encode("utf-8")\n')],
  needs="output without a final newline (or that isn't UTF-8) read as bytes or as a string",
  what="bytes() is put together from lines, so that an unterminated last line gets a newline.",
  demo='''
import pieshell
got = bytes(pieshell.env._("printf", "abc"))
assert got == b"abc", got
'''),
 dict(id="c02-zero", property="C02", edits=[("pieshell/pipeline/function.py", "            if x is None:\n                return x\n", "            if not x and not isinstance(x, (bytes, str)):\n                return None\n")],
  needs="an item that is false but not None, such as 0 or an empty list",
  what="Items like 0, 0.0 and [] are dropped like None.",
  demo='''
import pieshell
env = pieshell.env
got = list([1, 0, 2] | env.cat)
assert got == ["1", "0", "2"], got
'''),
 dict(id="c05-merge-inplace", property="C05", edits=[("pieshell/redir.py", "        return Redirects(self, other)\n", "        return self.register(other)\n")],
  needs="a group whose first part has a redirection of its own",
  what="The redirections of the first part of a group stick to the second.",
  demo='''
import pieshell, os
env = pieshell.env
got = list((env.echo("a") | "f") + env.echo("b"))
assert got == ["b"], got
'''),
 dict(id="c06-empty-value", property="C06", edits=[("pieshell/pipeline/command.py", "                    if value is False: # Flag that is turned off\n", "                    if value is False or value == \"\": # Flag that is turned off\n")],
  needs="a keyword option whose value is the empty string",
  what="Options with an empty value are left out.",
  demo='''
import pieshell
got = list(pieshell.env.echo(a="", b="x"))
assert got == ["--a= --b=x"], got
'''),
 dict(id="c07-replace", property="C07", edits=[("pieshell/environ.py", '                    res[idx] = "./" + res[idx][len(self._cwd + "/"):]', '                    res[idx] = res[idx].replace(self._cwd + "/", "./")')],
  needs="a directory whose own path occurs again below it",
  what="Every occurrence of the directory's path in a match is replaced, not just the one at the start.",
  demo='''
import pieshell, os
cwd = os.getcwd()
os.makedirs(cwd + "/x" + cwd)
open(cwd + "/x" + cwd + "/f", "w").close()
got = list(pieshell.env.ls("x" + cwd + "/*"))
assert got == ["./x" + cwd + "/f"], got
'''),
 dict(id="c08-which", property="C08", edits=[("pieshell/pipeline/command.py", "        os.execvpe(args[0], args, self._env._exports)", "        import shutil\n        os.execve(shutil.which(args[0]) or args[0], args, self._env._exports)")],
  needs="an environment with a PATH other than that of the Python process",
  what="Programs are looked up in the PATH of the Python process instead of that of the environment.",
  demo='''
import pieshell, os
os.mkdir("bin")
with open("bin/echo", "w") as f: f.write("#!/bin/sh\\nprintf 'mine\\\\n'\\n")
os.chmod("bin/echo", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
got = list(e.echo("x"))
assert got == ["mine"], got
'''),
 dict(id="c09-same-dir", property="C09", edits=[("pieshell/environ.py", "        if self._interactive:\n            os.chdir(cwd)\n", "        if self._interactive and cwd != getattr(self, \"_cwd\", None):\n            os.chdir(cwd)\n")],
  needs="an interactive environment told to change to the directory it is in, after the process went elsewhere",
  what="cd to the directory the environment has already does not bring the process back there.",
  demo='''
import pieshell, os
here = os.getcwd()
e = pieshell.env(interactive=True)
os.mkdir("d")
other = e()
+other.cd("d")
+e.cd(here)
assert os.getcwd() == here, os.getcwd()
'''),
 dict(id="c10-builtins", property="C10", edits=[("pieshell/environ.py", "            if name in env._exports:\n                return env._exports[name]\n            if parent is not None and name in parent:\n                return parent[name]\n            if hasattr(builtins, name):\n                return getattr(builtins, name)\n", "            if hasattr(builtins, name):\n                return getattr(builtins, name)\n            if name in env._exports:\n                return env._exports[name]\n            if parent is not None and name in parent:\n                return parent[name]\n")],
  needs="an exported variable with the name of a Python builtin",
  what="Python's builtins hide exported variables and those of the surrounding module of the same name.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ, id="exported"))
s = pieshell.environ.EnvScope(env=e)
assert s["id"] == "exported", s["id"]
'''),
 dict(id="c10-percent", property="C10", edits=[("pieshell/environ.py", "        scope = self._scope or self._exports\n", "        scope = self._exports\n")],
  needs="a %(name)s argument with a name that is a variable of the shell, but not exported",
  what="Only exported variables can be used with %(name)s.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ))
s = pieshell.environ.EnvScope(env=e)
s["env"] = e
s["thing"] = "value"
got = list(e.echo("%(thing)s"))
assert got == ["value"], got
'''),
 dict(id="c11-status-128", property="C11", edits=[("pieshell/signalio/signalutils.py", '                res["ssi_status"] = os.WEXITSTATUS(status)', '                res["ssi_status"] = (status >> 8) & 0x7f')],
  needs="a command that exits with status 128",
  what="The highest bit of exit codes is lost, and 128 taken for success.",
  demo='''
import pieshell
try: +pieshell.env.bash("-c", "exit 128")
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
'''),
 dict(id="c12-bytes-eof", property="C12", edits=[("pieshell/pipeline/running.py", "        return iterio.InputHandler(self.pipeline._redirects.stdout.pipe, usage=self, at_eof=self.wait)", "        return iterio.InputHandler(self.pipeline._redirects.stdout.pipe, usage=self)")],
  needs="a pipeline read as bytes that closes its output before it ends",
  what="bytes() and str() return at the end of the output, whether or not the pipeline has ended, and do not report failures.",
  demo='''
import pieshell, os
env = pieshell.env
bytes(env.bash("-c", "echo a; exec >&-; sleep 1; touch done"))
assert os.path.exists("done")
'''),
 dict(id="c13-handlers", property="C13", edits=[("pieshell/signalio/__init__.py", "            self.done_future.set_result(event)\n            self.destroy()\n", "            self.done_future.set_result(event)\n")],
  needs="many commands over the life of a shell, or a reused process number",
  what="The handlers of processes that have ended stay registered.",
  demo='''
import pieshell
env = pieshell.env
list(env.echo("a"))
n = len(pieshell.signalio.manager.get_signal_manager().signal_handlers)
for i in range(5): list(env.echo("a"))
assert len(pieshell.signalio.manager.get_signal_manager().signal_handlers) == n
'''),
 dict(id="c15-fn-args", property="C15", edits=[("pieshell/pipeline/function.py", 'self.__dict__["function"], *copy.deepcopy(self._arg), **copy.deepcopy(self._kw))', 'self.__dict__["function"], *self._arg, **self._kw)')],
  needs="a function stage with a pipeline or a list as argument, run more than once",
  what="Runs of a function stage share its arguments, so what one run does to them changes the next.",
  demo='''
import pieshell
from pieshell.pipeline.function import Function
env = pieshell.env
async def f(stdin, todo):
    while todo: yield todo.pop(0)
p = Function(env, f, ["a", "b"]) | env.cat
assert list(p) == ["a", "b"]
got = list(p)
assert got == ["a", "b"], got
'''),
 dict(id="c16-fg-failed", property="C16", edits=[("pieshell/pipeline/builtins.py", "        return self.wrapped_pipeline.is_failed\n", "        return self.wrapped_pipeline.exit_code != 0\n")],
  needs="fg of a pipeline in which another part than the last one fails",
  what="fg only reports the failure of the last part of the pipeline.",
  demo='''
import pieshell
env = pieshell.env
rp = (env.bash("-c", "sleep 0.5; exit 3") | env.cat).run()
try: +env.fg(rp)
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
'''),
 dict(id="c17-output-content", property="C17", edits=[("pieshell/pipeline/running.py", "        self.iohandler = iohandler\n        self.output_content = {}\n", "        self.iohandler = iohandler\n"), ("pieshell/pipeline/running.py", "class RunningItem(BaseRunningItem):\n", "class RunningItem(BaseRunningItem):\n    output_content = {}\n")],
  needs="the captured error output of one process looked at after another one has ended",
  what="All processes share what was captured: the last one to end replaces the error output of all others.",
  demo='''
import pieshell
env = pieshell.env
a = (env.bash("-c", "echo one >&2; exit 1"))
errs = []
for t in ("one", "two"):
    try: +env.bash("-c", "echo %s >&2; exit 1" % t)
    except pieshell.PipelineFailed as e: errs.append(e)
got = [e.pipeline.processes[0].output_content[2] for e in errs]
assert got == ["one\\n", "two\\n"], got
'''),
 dict(id="c18-urlsafe", property="C18", edits=[("pieshell/pipeline/builtins.py", "        cmd = base64.b64encode(pickle", "        cmd = base64.urlsafe_b64encode(pickle")],
  needs="a remote pipeline whose pickled form has the bits that base64 writes as + or /",
  what="The encoding of remote pipelines uses - and _, which the receiving side silently skips.",
  demo='''
import pieshell, os, base64, pickle
os.mkdir("bin")
with open("bin/ssh", "w") as f: f.write("#!/bin/sh\\nshift\\necho \\"$*\\"\\n")
os.chmod("bin/ssh", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
for i in range(40):
    got = list(e.remote("host", e.echo("~?>" * 3 + "x" * i)))[0]
    code = got.split("--pcmd='")[1].split("'")[0]
    p = pickle.loads(base64.b64decode(code.encode("ascii")))
    assert p._arg[1] == "~?>" * 3 + "x" * i
'''),
 dict(id="c19-argument-too", property="C19", edits=[("pieshell/pipeline/builtins.py", "        return item\n", "        return command.Command._handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation)\n")],
  needs="a subshell of a pipeline with side effects",
  what="The pipeline of a subshell is also run as an argument, that is, twice.",
  demo='''
import pieshell
env = pieshell.env
+env.subshell(env.bash("-c", "echo x >> log"))
import time
time.sleep(1)
assert open("log").read() == "x\\n"
'''),
 dict(id="c20-first-match", property="C20", edits=[("pieshell/pipeline/builtins.py", "        for arg in self._arg[1:]:\n            for exp in self._env._expand_argument(arg):\n", "        for arg in self._arg[1:]:\n            for exp in self._env._expand_argument(arg)[:1]:\n")],
  needs="a pattern that matches several scripts",
  what="Only the first file matching a pattern is sourced.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ))
for n in "AB":
    with open(n + ".sh", "w") as f: f.write("export FROM_%s=1\\n" % n)
+e.bashsource("*.sh")
assert "FROM_A" in e._exports and "FROM_B" in e._exports
'''),
 dict(id="c21-setattr", property="C21", edits=[("pieshell/module.py", "    def __setattr__(self, name, value):\n        self._scope[name] = value\n", "    def __setattr__(self, name, value):\n        types.ModuleType.__setattr__(self, name, value)\n")],
  needs="a variable of a pysh module that is assigned from outside and used by a function in it",
  what="Assigning to a module's variable from outside is not seen by the code in the module.",
  demo='''
import pieshell, sys, os
with open("mymod.pysh", "w") as f: f.write("x = 1\\ndef f(): return x\\n")
sys.path.insert(0, os.getcwd())
import mymod
mymod.x = 2
assert mymod.f() == 2, mymod.f()
'''),
 dict(id="c10-temporary", property="C10", edits=[("pieshell/environ.py", '        try:\n            yield\n        finally:\n            self._scope["env"] = self    \n', '        yield\n        self._scope["env"] = self\n')],
  needs="an exception within a with env.temporary_env(...) block",
  what="After an exception in the block the temporary environment stays.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ))
s = pieshell.environ.EnvScope(env=e)
s["env"] = e
other = pieshell.env(exports={})
try:
    with e.temporary_env(other): raise KeyError
except KeyError: pass
assert s["env"] is e
'''),
 dict(id="c22-ps-name", property="C22", edits=[("pieshell/pipeline/running.py", "            return os.path.basename(str((prefix + suffix)[0]))\n", "            return os.path.splitext(os.path.basename(str((prefix + suffix)[0])))[0]\n")],
  needs="a program with a dot in its name",
  what="Programs are named without what follows the last dot: python3.12 is python3.",
  demo='''
import pieshell, os, asyncio
os.symlink("/bin/sleep", "tool1.5")
os.symlink("/bin/sleep", "tool1.6")
rp = (pieshell.env._("./tool1.5", "1") + pieshell.env._("./tool1.6", "1")).run()
names = [n for n in dir(rp._children)]
asyncio.get_event_loop().run_until_complete(rp.wait())
assert sorted(names) == ["tool1_5", "tool1_6"], names
'''),
 dict(id="c23-first-file", property="C23", edits=[("pieshell/shell.py", "                for arg in args:\n                    environ.envScope.execute_file(arg)\n", "                environ.envScope.execute_file(args[0])\n")],
  needs="several files on the command line",
  what="Only the first file given is executed.",
  demo='''
import subprocess, os, sys
for n in "ab":
    with open(n + ".pysh", "w") as f: f.write("open('out-%s', 'w').close()\\n" % n)
r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import pieshell.shell; pieshell.shell.main()", "--no-startup", "a.pysh", "b.pysh"], stdin=subprocess.DEVNULL)
assert os.path.exists("out-a") and os.path.exists("out-b")
'''),
 dict(id="c24-not-stopped", property="C24", edits=[("pieshell/pipeline/running.py", "            if self.pipeline_suspended:\n                self.suspend()\n                raise", "            if self.pipeline_suspended:\n                raise")],
  needs="Ctrl-Z, with commands the terminal does not stop itself",
  what="Ctrl-Z returns to the prompt, but the processes go on running.",
  demo='''
import pieshell, asyncio, os, signal, threading, time
env = pieshell.env(interactive=True)
loop = asyncio.get_event_loop()
rp = env.sleep("5").run()
threading.Timer(0.5, lambda: os.kill(os.getpid(), signal.SIGTSTP)).start()
try: loop.run_until_complete(rp.wait())
except pieshell.PipelineSuspended: pass
else: raise SystemExit("not suspended")
time.sleep(0.3)
state = open("/proc/%d/stat" % rp.processes[0].pid).read().rsplit(")", 1)[1].split()[0]
os.kill(rp.processes[0].pid, 9)
assert state == "T", state
'''),
 dict(id="c25-register", property="C25", edits=[("pieshell/pipeline/builtin.py", "        cls.builtins[name or builtin_cls.name] = builtin_cls\n", "        cls.builtins[builtin_cls.name] = builtin_cls\n")],
  needs="a builtin registered with a name of its own",
  what="A name given when registering a builtin is ignored.",
  demo='''
import pieshell
from pieshell.pipeline.builtin import BuiltinRegistry
from pieshell.pipeline.builtins import CdBuiltin
BuiltinRegistry.register(CdBuiltin, "chdir")
e = pieshell.env()
assert "chdir" in dir(e) and isinstance(e.chdir, CdBuiltin)
'''),
]
