BUGS = [
 dict(id="c01-long-line", property="C01", edits=[("pieshell/iterio.py", "        while not self.eof and b'\\n' not in self.buffer:\n", "        if not self.eof and b'\\n' not in self.buffer:\n")],
  needs="an output line that arrives in more than one read (longer than 1024 bytes, or written in two parts)",
  what="Only one read is waited for, so a line that arrives in several pieces is delivered as several lines.",
  demo='''
import pieshell
env = pieshell.env
got = list(env._("printf", pieshell.R("a%2000s\\\\nb\\\\n"), "x"))
assert got == ["a" + "x".rjust(2000), "b"], [len(x) for x in got]
'''),
 dict(id="c12-lost-sigchld", property="C12", edits=[("pieshell/signalio/signalutils.py", "        while True:\n            (pid, status)", "        for i in range(3):\n            (pid, status)")],
  needs="four or more processes changing state between two runs of the event loop",
  what="Only three state changes are collected per SIGCHLD; the others are lost until another child changes state, so waiters hang.",
  demo='''
import pieshell, time, asyncio
env = pieshell.env
p = env._("true")
for i in range(5): p = p + env._("true")
rp = p.run()
time.sleep(1)
async def go(): await asyncio.wait_for(rp.wait(), 10)
asyncio.get_event_loop().run_until_complete(go())
'''),
 dict(id="c11-sigpipe-ok", property="C11", edits=[("pieshell/pipeline/running.py", "        return self.exit_code != 0\n", "        return self.exit_code not in (0, signal.SIGPIPE)\n")],
  needs="a part that is ended by SIGPIPE, or exits with code 13",
  what="A command that ends with exit code 13 is taken for one that was ended because nobody reads its output, and not reported.",
  demo='''
import pieshell
try:
    +pieshell.env._("bash", "-c", "exit 13")
except pieshell.PipelineFailed: pass
else: raise SystemExit("not reported")
'''),
 dict(id="c06-one-is-true", property="C06", edits=[("pieshell/pipeline/command.py", "if value is False:", "if value == False:"), ("pieshell/pipeline/command.py", "elif value is True:", "elif value == True:")],
  needs="a keyword argument whose value is 0 or 1",
  what="cmd(n=1) gives --n and cmd(n=0) gives nothing, instead of --n=1 and --n=0.",
  demo='''
import pieshell
assert list(pieshell.env._("echo", count=1, level=0)) == ["--count=1 --level=0"]
'''),
 dict(id="c07-sibling-dir", property="C07", edits=[("pieshell/environ.py", 'if res[idx].startswith(self._cwd + "/"):', 'if res[idx].startswith(self._cwd):')],
  needs="a pattern that matches in a directory whose path starts with that of the current directory, such as /x/work-old in /x/work",
  what="The path of a match in a sibling directory is cut as if it was inside the current directory.",
  demo='''
import pieshell, os
d = os.path.dirname(os.getcwd())
os.mkdir(d + "/work-old")
open(d + "/work-old/f", "w").close()
got = list(pieshell.env._("echo", d + "/work-o*/*"))
assert got == [d + "/work-old/f"], got
'''),
]
