BUGS = [
 # --- C01
 dict(id="c01-str-chunks", property="C01", edits=[("pieshell/pipeline/base.py", '        return bytes(self).decode("utf-8")\n', '        return "".join(asyncitertoiter(self._iterstr()))\n    async def _iterstr(self):\n        async for chunk in self.run([redir.Redirect("stdout", redir.PIPE)]).iterbytes():\n            yield chunk.decode("utf-8", "replace")\n')],
  needs="a multi-byte character that straddles two reads",
  what="str() decodes every chunk on its own, and characters at the chunk border are replaced.",
  demo='''
import pieshell
env = pieshell.env
text = "a" + "\\u00e5" * 3000
assert str(env._("printf", pieshell.R("%s"), pieshell.R(text))) == text
'''),
 dict(id="c01-crlf", property="C01", edits=[("pieshell/iterio.py", '        return ret.decode("utf-8")\n', '        return ret.decode("utf-8").rstrip("\\r\\n")\n')],
  needs="a line ending in a carriage return",
  what="Carriage returns at the ends of lines are removed.",
  demo='''
import pieshell
env = pieshell.env
got = list(env._("printf", pieshell.R("a\\\\r\\\\nb\\\\n")))
assert got == ["a\\r", "b"], got
'''),
 # --- C02
 dict(id="c02-empty-item", property="C02", edits=[("pieshell/iterio.py", '            if val is not None:\n                self.write(val + b"\\n")\n', '            if val:\n                self.write(val + b"\\n")\n')],
  needs="an item that is an empty string",
  what="Empty items are dropped like None instead of becoming empty lines.",
  demo='''
import pieshell
env = pieshell.env
got = list(["a", "", "b"] | env.cat)
assert got == ["a", "", "b"], got
'''),
 dict(id="c02-none-ends", property="C02", edits=[("pieshell/utils/asyncutils.py", "        try:\n            value = next(self.it)\n        except StopIteration:\n            raise StopAsyncIteration\n", "        value = next(self.it, None)\n        if value is None:\n            raise StopAsyncIteration\n")],
  needs="an iterable with None before its end",
  what="None ends the input instead of producing nothing.",
  demo='''
import pieshell
env = pieshell.env
got = list(["a", None, "b"] | env.cat)
assert got == ["a", "b"], got
'''),
 # --- C03
 dict(id="c03-function-kw", property="C03", edits=[("pieshell/pipeline/function.py", ", *copy.deepcopy(self._arg), **copy.deepcopy(self._kw))", ", *copy.deepcopy(self._arg))")],
  needs="a function stage with keyword arguments",
  what="Running a function stage forgets its keyword arguments.",
  demo='''
import pieshell
from pieshell.pipeline.function import Function
env = pieshell.env
async def f(stdin, a, suffix="?"):
    async for x in stdin: yield x + a + suffix
got = list(env.echo("x") | Function(env, f, "1", suffix="!"))
assert got == ["x1!"], got
'''),
 dict(id="c03-group-second-stdin", property="C03", edits=[("pieshell/pipeline/group.py", '        b = self.b._run(child_redirects, sess, indentation + "  ")', '        b = self.b._run(redir.Redirects(child_redirects).redirect("stdin", "/dev/null"), sess, indentation + "  ")')],
  needs="a group whose second part reads the group's input",
  what="Only the first part of a group gets the group's standard input.",
  demo='''
import pieshell
env = pieshell.env
got = list(env.printf(pieshell.R("a\\\\nb\\\\n")) | (env._("true") + env.cat))
assert got == ["a", "b"], got
'''),
 # --- C04
 # --- C05
 dict(id="c05-mode-copy", property="C05", edits=[("pieshell/redir.py", "            fd, source, flag, mode, pipe, borrowed = fd.fd, fd.source, fd.flag, fd.mode, fd.pipe, fd.borrowed", "            fd, source, flag, pipe, borrowed = fd.fd, fd.source, fd.flag, fd.pipe, fd.borrowed")],
  needs="a redirection with a creation mode other than the default",
  what="Copying a redirection, as running it does, forgets its creation mode.",
  demo='''
import pieshell, os
os.umask(0)
+(pieshell.env.echo("secret") | pieshell.Redirect("stdout", "secret", mode=0o600))
mode = os.stat("secret").st_mode & 0o777
assert mode == 0o600, oct(mode)
'''),
 dict(id="c05-fd-limit", property="C05", edits=[("pieshell/redir.py", '    MAXFD = os.sysconf("SC_OPEN_MAX")', '    MAXFD = min(os.sysconf("SC_OPEN_MAX"), 64)')],
  needs="an inheritable descriptor numbered 64 or above in the shell",
  what="Descriptors above 63 are not closed in commands.",
  demo='''
import pieshell, os
os.dup2(os.open("/dev/null", os.O_RDONLY), 100)
got = list(pieshell.env.ls("/proc/self/fd"))
assert "100" not in got, got
'''),
 # --- C06
 dict(id="c06-underscore-once", property="C06", edits=[("pieshell/pipeline/command.py", '''args.append("--%s=%s" % (name.replace("_", "-"), match))''', '''args.append("--%s=%s" % (name.replace("_", "-", 1), match))''')],
  needs="a keyword option with more than one underscore",
  what="Only the first underscore of a keyword option becomes a dash.",
  demo='''
import pieshell
got = list(pieshell.env.echo(a_b_c="x"))
assert got == ["--a-b-c=x"], got
'''),
 dict(id="c06-kw-first", property="C06", edits=[("pieshell/pipeline/command.py", "            arg += [kw]\n", "            arg.insert(0, kw)\n")],
  needs="a call with both positional arguments and keyword options",
  what="Keyword options come before the positional arguments of the same call.",
  demo='''
import pieshell
got = list(pieshell.env.echo("a", b="x"))
assert got == ["a --b=x"], got
'''),
 # --- C07
 dict(id="c07-brackets", property="C07", edits=[("pieshell/environ.py", '''        if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):''', '''        if not set(arg) & set("*?"):''')],
  needs="a pattern with brackets only",
  what="Patterns that consist of [...] only are not expanded.",
  demo='''
import pieshell
for n in "abc": open("f" + n, "w").close()
got = list(pieshell.env.echo("f[ab]"))
assert got in (["./fa ./fb"], ["./fb ./fa"]), got
'''),
 # --- C08
 dict(id="c08-shared-exports", property="C08", edits=[("pieshell/environ.py", "            exports = dict(self._exports)\n", "            exports = self._exports\n")],
  needs="a derived environment whose variables are changed",
  what="A derived environment shares the variables of its parent.",
  demo='''
import pieshell, os
a = pieshell.env(exports=dict(os.environ, A="1"))
b = a()
b._exports["A"] = "2"
got = list(a.bash("-c", "echo $A"))
assert got == ["1"], got
'''),
 dict(id="c08-interactive-off", property="C08", edits=[("pieshell/environ.py", "        if interactive is None:\n            interactive = self._interactive\n", "        interactive = interactive or self._interactive\n")],
  needs="a non-interactive environment derived from an interactive one",
  what="interactive=False is ignored when deriving from an interactive environment.",
  demo='''
import pieshell, os
a = pieshell.env(interactive=True)
b = a(interactive=False)
os.mkdir("d")
cwd = os.getcwd()
+b.cd("d")
assert os.getcwd() == cwd
'''),
 dict(id="c08-env-merge", property="C08", edits=[("pieshell/pipeline/command.py", "        os.execvpe(args[0], args, self._env._exports)", "        os.environ.update(self._env._exports)\n        os.execvp(args[0], args)")],
  needs="an environment without a variable that the process has",
  what="Commands also see the variables of the Python process.",
  demo='''
import pieshell, os
os.environ["LEAK"] = "1"
e = pieshell.env(exports={"PATH": os.environ["PATH"]})
got = list(e.bash("-c", "echo $LEAK"))
assert got == [""], got
'''),
 # --- C09
 dict(id="c09-join", property="C09", edits=[("pieshell/pipeline/builtins.py", "            pth = os.path.join(*[self._replacements.get(arg, arg) for arg in self._arg[1:]])", '            pth = "/".join(self._replacements.get(arg, arg) for arg in self._arg[1:])')],
  needs="an absolute part after the first, such as cd.PARENT.ROOT or cd('x', '/y')",
  what="An absolute part is appended instead of starting over from the root.",
  demo='''
import pieshell, os
os.mkdir("a")
e = pieshell.env()
+e.cd("a", "/")
assert e._cwd == "/", e._cwd
'''),
 dict(id="c09-realpath", property="C09", edits=[("pieshell/environ.py", "        pth = os.path.abspath(pth)\n        return pth", "        pth = os.path.realpath(pth)\n        return pth")],
  needs="a symbolic link in the path",
  what="Symbolic links are resolved, so that .. leaves to another directory.",
  demo='''
import pieshell, os
os.makedirs("a/b")
os.symlink("a/b", "l")
e = pieshell.env()
cwd = os.getcwd()
+e.cd("l")
+e.cd("..")
assert e._cwd == cwd, e._cwd
'''),
 # --- C10
 dict(id="c10-parent-first", property="C10", edits=[("pieshell/environ.py", "            if name in env._exports:\n                return env._exports[name]\n            if parent is not None and name in parent:\n                return parent[name]\n", "            if parent is not None and name in parent:\n                return parent[name]\n            if name in env._exports:\n                return env._exports[name]\n")],
  needs="a name that is both exported and defined by the surrounding module",
  what="The surrounding module hides exported variables.",
  demo='''
import pieshell, os
X_NAME = "module"
e = pieshell.env(exports=dict(os.environ, X_NAME="exported"))
def f(): return X_NAME
got = e.pyshfunction(f)()
assert got == "exported", got
'''),
 # --- C11
 dict(id="c11-arg-pipe-last", property="C11", edits=[("pieshell/pipeline/command.py", "        self._running_processes.extend(arg_pipe)\n", "        self._running_processes.append(arg_pipe[-1])\n")],
  needs="an argument that is a pipeline of several processes, one but the last of which fails",
  what="Only the last process of an argument pipeline is a part of the pipeline.",
  demo='''
import pieshell
env = pieshell.env
try:
    +env.cat(env.bash("-c", "echo a; exit 3") | env.cat)
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
'''),
 dict(id="c11-shared-stderr", property="C11", edits=[("pieshell/pipeline/running.py", "                proc.handle_pipeline_finish()\n            for proc in self.processes:\n                proc.handle_pipeline_finish_destructive()\n", "                try:\n                    proc.handle_pipeline_finish()\n                except FileNotFoundError:\n                    pass\n                proc.handle_pipeline_finish_destructive()\n")],
  needs="a command with a pipeline as argument, which share the file with their error output, failing",
  what="The captured error output is deleted before the last process that has it reads it.",
  demo='''
import pieshell
env = pieshell.env
try:
    +env.bash("-c", "cat $0; echo oops >&2; exit 1", env.echo("x"))
except pieshell.PipelineFailed as e:
    got = e.pipeline.failed_processes[0].output_content
    assert got == {2: "oops\\n"}, got
else: raise SystemExit("not reported")
'''),
 # --- C12
 # --- C13
 dict(id="c13-group-source", property="C13", edits=[("pieshell/pipeline/group.py", "        redirects.close_source_fds()\n\n        return a + b", "        return a + b")],
  needs="a group that is piped into or read from",
  what="The shell keeps the ends of the pipes of a group open.",
  demo='''
import pieshell, os
env = pieshell.env
before = os.listdir("/proc/self/fd")
rp = (env.echo("a") | (env.cat + env.cat)).run()
rp = rp
import asyncio
asyncio.get_event_loop().run_until_complete(rp.wait())
after = os.listdir("/proc/self/fd")
assert before == after, (before, after)
'''),
 # --- C14
 dict(id="c14-not-a-string", property="C14", edits=[("pieshell/pipeline/command.py", "            ecode = -1\n", "            ecode = 0\n")],
  needs="a command that cannot be executed for a reason without an errno, such as a NUL character in an argument",
  what="A command whose arguments or variables cannot be passed is reported successful.",
  demo='''
import pieshell
try:
    +pieshell.env.echo("a\\0b")
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
'''),
 dict(id="c14-no-directory", property="C14", edits=[("pieshell/pipeline/command.py", "    def _child(self, redirects, args):\n        os.chdir(self._env._cwd)\n", "    def _child(self, redirects, args):\n        if os.path.isdir(self._env._cwd):\n            os.chdir(self._env._cwd)\n")],
  needs="the directory of the environment being removed",
  what="A command whose directory is gone runs in the directory of the Python process.",
  demo='''
import pieshell, os
os.mkdir("d")
e = pieshell.env("d")
os.rmdir("d")
try:
    +e.touch("f")
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
assert not os.path.exists("f")
'''),
 # --- C15
 dict(id="c15-memo", property="C15", edits=[("pieshell/utils/copy.py", "        copy_state.memo = old_memo or {}\n", "        copy_state.memo = {} if old_memo is None else old_memo\n")],
  needs="one pipeline object used twice inside another",
  what="Uses of the same object inside a pipeline share one copy and the state of its run.",
  demo='''
import pieshell
env = pieshell.env
p = env.bash("-c", "sleep 0.1; exit 1")
rp = (p + p).run()
cmds = [proc.cmd for proc in rp.processes]
assert cmds[0] is not cmds[1] and str(rp.processes[0].pid) in repr(rp.processes[0].cmd), cmds
import asyncio
try: asyncio.get_event_loop().run_until_complete(rp.wait())
except pieshell.PipelineFailed: pass
'''),
 # --- C16
 dict(id="c16-no-continued", property="C16", edits=[("pieshell/signalio/signalutils.py", "os.WUNTRACED | os.WCONTINUED | os.WNOHANG", "os.WUNTRACED | os.WNOHANG")],
  needs="a process that was stopped and resumed",
  what="A resumed process is still reported as stopped.",
  demo='''
import pieshell, asyncio, time
env = pieshell.env
loop = asyncio.get_event_loop()
rp = env.sleep("2").run()
async def spin(): await asyncio.sleep(0.3)
rp.suspend(); loop.run_until_complete(spin())
rp.restart(); loop.run_until_complete(spin())
assert rp.processes[0].iohandler.last_event["ssi_code"] == 6
loop.run_until_complete(rp.wait())
'''),
 # --- C17
 dict(id="c17-pop", property="C17", edits=[("pieshell/pipeline/running.py", "                self.pipeline._env.running_pipelines.remove(self)\n", "                self.pipeline._env.running_pipelines.pop(0)\n")],
  needs="pipelines that end in another order than they were started in",
  what="When a pipeline ends, the one started first is taken off the list of running pipelines.",
  demo='''
import pieshell, asyncio
env = pieshell.env()
loop = asyncio.get_event_loop()
a = env.sleep("2").run()
b = env._("true").run()
loop.run_until_complete(b.wait())
assert len(env.running_pipelines) == 1 and env.running_pipelines[0] is a
loop.run_until_complete(a.wait())
'''),
 # --- C18
 dict(id="c18-options", property="C18", edits=[("pieshell/pipeline/builtins.py", "            *self._arg[1:-1], sshcmd)", "            self._arg[1], sshcmd)")],
  needs="remote() with options besides the host",
  what="Only the first of the host and options given to remote() is passed to ssh.",
  demo='''
import pieshell, os
os.mkdir("bin")
with open("bin/ssh", "w") as f: f.write("#!/bin/sh\\necho $# $1 $2 $3\\n")
os.chmod("bin/ssh", 0o755)
e = pieshell.env(exports=dict(os.environ, PATH=os.getcwd() + "/bin:" + os.environ["PATH"]))
got = list(e.remote("-p", "22", "host", e.echo("x")))
assert got == ["4 -p 22 host"], got
'''),
 # --- C20
 dict(id="c20-no-override", property="C20", edits=[("pieshell/pipeline/builtins.py", "        self._env._exports.update(vars)\n", "        for name, value in vars.items():\n            if value:\n                self._env._exports[name] = value\n")],
  needs="a variable exported with an empty value",
  what="Variables exported with an empty value are not imported, and keep an old value.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ, A="old"))
with open("s", "w") as f: f.write("export A=\\n")
+e.bashsource("s")
assert e._exports["A"] == "", e._exports["A"]
'''),
 dict(id="c20-functions", property="C20", edits=[("pieshell/pipeline/builtins.py", "        self._env._bashfunctions.update(funcs)\n", "        self._env._bashfunctions.update(funcs)\n        self._env._exports.update({\"BASH_FUNC_%s%%%%\" % name: fn[len(name):].lstrip() for name, fn in funcs.items()})\n")],
  needs="a script that defines a function",
  what="Functions that are not exported show up as exported variables.",
  demo='''
import pieshell, os
e = pieshell.env(exports=dict(os.environ))
with open("s", "w") as f: f.write("export A=1\\nfoo() { echo hello; }\\n")
before = set(e._exports)
+e.bashsource("s")
new = {k for k in set(e._exports) - before if "foo" in k}
assert not new, new
'''),
 # --- C21
 dict(id="c21-last-path", property="C21", edits=[("pieshell/module.py", "                found = filepath\n                break\n", "                found = filepath\n")],
  needs="two modules of the same name on the path",
  what="The last directory of the path that has the module wins instead of the first.",
  demo='''
import pieshell, os, sys
for d in "ab":
    os.mkdir(d)
    with open(d + "/mymod.pysh", "w") as f: f.write("x = %r\\n" % d)
sys.path[0:0] = [os.path.abspath("a"), os.path.abspath("b")]
import mymod
assert mymod.x == "a", mymod.x
'''),
 # --- C22
 dict(id="c22-digits", property="C22", edits=[("pieshell/tree.py", '            if re.match(r"^[0-9]", key):\n                key = "n" + key\n            elif', '            if')],
  needs="a program whose name starts with a digit",
  what="Names that start with a digit are offered as they are, though they are not attribute names.",
  demo='''
import pieshell, os, asyncio
os.symlink("/bin/sleep", "7z")
rp = pieshell.env._("./7z", "1").run()
names = dir(rp._children)
asyncio.get_event_loop().run_until_complete(rp.wait())
assert all(n.isidentifier() for n in names), names
'''),
 # --- C23
 # --- C24
 dict(id="c24-stale-future", property="C24", edits=[("pieshell/pipeline/running.py", "                self.current_pipeline.finish_future.set_result(None)\n                self.current_pipeline.finish_future = None\n        return True", "                self.current_pipeline.finish_future.set_result(None)\n        return True")],
  needs="Ctrl-Z while a pipeline is waited for, and that pipeline ending later",
  what="The future of the suspended wait is kept, and set again when the pipeline ends, which raises within the event loop.",
  demo='''
import pieshell, asyncio, os, signal, threading, time
env = pieshell.env(interactive=True)
loop = asyncio.get_event_loop()
rp = env.sleep("2").run()
threading.Timer(0.5, lambda: os.kill(os.getpid(), signal.SIGTSTP)).start()
try: loop.run_until_complete(rp.wait())
except pieshell.PipelineSuspended: pass
else: raise SystemExit("not suspended")
async def go(): await asyncio.wait_for(rp.wait(), 20)
loop.run_until_complete(go())
assert rp.exit_code == 0
'''),
 # --- C25
 dict(id="c25-relative", property="C25", edits=[("pieshell/environ.py", '                if not pth.startswith("/"):\n                    pth = os.path.join(self._cwd, pth)\n', '')],
  needs="a relative directory in PATH, and an environment in another directory than the process",
  what="Relative entries of PATH are looked up from the directory of the Python process.",
  demo='''
import pieshell, os
os.makedirs("d/bin")
open("d/bin/myprog", "w").close()
e = pieshell.env("d", exports={"PATH": "bin"})
assert "myprog" in dir(e)
'''),
 # --- C26
 dict(id="c26-mask", property="C26", edits=[("pieshell/signalio/manager_signalfd.py", "mask = [signal.SIGCHLD, signal.SIGTSTP]", "mask = [signal.SIGCHLD, signal.SIGTSTP, signal.SIGWINCH, signal.SIGHUP]")],
  needs="a command that depends on a signal other than those pieshell needs",
  what="More signals are blocked in the shell, and so in its commands: a command can no longer be ended with SIGHUP.",
  demo='''
import pieshell, asyncio, os, signal, time
loop = asyncio.get_event_loop()
rp = pieshell.env.sleep("20").run()
time.sleep(0.5)
os.kill(rp.processes[0].pid, signal.SIGHUP)
start = time.time()
try: loop.run_until_complete(rp.wait())
except pieshell.PipelineFailed: pass
assert time.time() - start < 10
'''),
 dict(id="c26-limit", property="C26", edits=[("pieshell/log.py", "logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1\n", "logfd = min(resource.getrlimit(resource.RLIMIT_NOFILE)[0], 250) - 1\nresource.setrlimit(resource.RLIMIT_NOFILE, (logfd + 1, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))\n")],
  needs="a descriptor limit above 250",
  what="The shell lowers its own descriptor limit to keep the log's descriptor low, and its commands inherit that.",
  demo='''
import pieshell
got = list(pieshell.env.bash("-c", "ulimit -Sn"))
assert got == ["256"], got
'''),
 dict(id="c26-group", property="C26", edits=[("pieshell/pipeline/command.py", "        pid = os.fork()\n        if pid == 0:\n", "        pid = os.fork()\n        if pid == 0:\n            os.setpgid(0, 0)\n")],
  needs="something that depends on the process group of a command, such as the terminal's signals",
  what="Every command is in a process group of its own, which nothing ever makes the foreground one.",
  demo='''
import pieshell, os
got = list(pieshell.env._(pieshell.R("/opt/venv/bin/python"), "-c", "import os; print(os.getpgrp())"))
assert got == [str(os.getpgrp())], got
'''),

 # --- once more
 dict(id="c01-trailing-blank", property="C01", edits=[("pieshell/iterio.py", "        if not self.buffer:\n            assert self.eof\n", "        if self.eof and not self.buffer.strip():\n")],
  needs="output whose last line is unterminated and of white space only",
  what="White space left in the buffer at the end of file is taken for the end of the output.",
  demo='''
import pieshell
env = pieshell.env
got = list(env._("printf", pieshell.R("a\\\\n  ")))
assert got == ["a", "  "], got
'''),
 dict(id="c04-arg-stdin", property="C04", edits=[("pieshell/pipeline/command.py", "                orig_redirects,\n                redir.Redirect(direction, redir.PIPE)),", "                orig_redirects,\n                redir.Redirect(\"stdin\", \"/dev/null\"),\n                redir.Redirect(direction, redir.PIPE)),")],
  needs="an argument that is a pipeline which reads the standard input of the command it belongs to",
  what="Pipelines given as arguments have an empty standard input instead of that of the command.",
  demo='''
import pieshell
env = pieshell.env
got = list(["x", "y"] | env.cat(env.cat()))
assert got == ["x", "y"], got
'''),
 dict(id="c05-free-fd", property="C05", edits=[("pieshell/redir.py", "                   + [redirect.source\n                      for redirect in self.redirects.values()\n                      if isinstance(redirect.source, int)]\n", "")],
  needs="redirections whose sources have the numbers the descriptors are moved to",
  what="Descriptors are moved on top of others that are yet to be moved.",
  demo='''
import pieshell, os
from pieshell import Redirect
env = pieshell.env
for fd, name in ((101, "a"), (102, "b")):
    f = os.open(name, os.O_CREAT | os.O_WRONLY)
    os.dup2(f, fd)
    os.close(f)
+(env.bash("-c", "echo 1; echo 2 >&2") | Redirect(1, 101, borrowed=True) | Redirect(2, 102, borrowed=True) | Redirect(100, "/dev/null", os.O_RDONLY))
got = [open(n).read() for n in "ab"]
assert got == ["1\\n", "2\\n"], got
'''),
 dict(id="c13-shared-string", property="C13", edits=[("pieshell/pipeline/running.py", "            try:\n                os.unlink(redirect.pipe.path)\n            except FileNotFoundError:\n                pass\n", "            try:\n                os.unlink(redirect.pipe.path)\n            except FileNotFoundError:\n                return # Already removed by another part\n")],
  needs="a part of a command's argument that has a captured file of its own besides the one it shares with the command",
  what="The other captured files of a process are kept once one of them was already removed by another process.",
  demo='''
import pieshell, os
env = pieshell.env
+(env.cat(env.echo("x"), env.echo("y") | pieshell.Redirect(3, pieshell.STRING, os.O_WRONLY)) | "/dev/null")
left = os.listdir(os.environ["TMPDIR"])
assert left == [], left
'''),
 dict(id="c15-shallow-args", property="C15", edits=[("pieshell/pipeline/command.py", "        return type(self)(self._env, copy.deepcopy(self._arg))\n", "        return type(self)(self._env, self._arg)\n")],
  needs="a pipeline given as argument that is printed after the command was run",
  what="Running a pipeline runs the very objects given as arguments instead of copies.",
  demo='''
import pieshell
env = pieshell.env
a = env.echo("x")
p = env.cat(a)
before = repr(a)
+p
assert repr(a) == before, repr(a)
'''),
 dict(id="c22-same-key", property="C22", edits=[("pieshell/tree.py", "            procs[key][child._getkey(None)] = child\n", "            procs[key][child._getkey(level + 1)] = child\n")],
  needs="two functions of the same name",
  what="Functions of the same name and module replace each other in the tree.",
  demo='''
import pieshell, asyncio
env = pieshell.env
async def f(stdin):
    async for x in stdin: yield x
loop = asyncio.get_event_loop()
rp = (env.bash("-c", "sleep 1; echo a") | f | f | env.cat | "/dev/null").run()
def leaves(node):
    if isinstance(node, pieshell.tree.TreeGroup): return [l for n in dir(node) for l in leaves(getattr(node, n))]
    return [node]
n = len(leaves(rp._children))
loop.run_until_complete(rp.wait())
assert n == 4, n
'''),
 dict(id="c23-equals", property="C23", edits=[("pieshell/shell.py", '                name, value = arg.split("=", 1)\n', '                name, value = arg.rsplit("=", 1)\n')],
  needs="an option value with an equals sign",
  what="Options are split at the last equals sign instead of the first.",
  demo='''
import subprocess, os, sys
r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import pieshell.shell; pieshell.shell.main()", "--no-startup", "--cmd=x=1; open('out', 'w').write('ok')"], stdin=subprocess.DEVNULL)
assert os.path.exists("out")
'''),
]
