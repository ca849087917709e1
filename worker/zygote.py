"""Fork server run by PyPy (the interpreter pieshell is installed for).  One JSON request per line on
stdin, one JSON reply per line on stdout.  Every case runs in a forked child with its own session,
scratch directory, environment and a fresh import of pieshell from /repo, so cases share no state."""
import sys, os, json, time, signal, shutil, tempfile, traceback, ctypes, importlib, resource

SCRATCH = sys.argv[1]
NOFILE = 256

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter("ignore")
# Everything pieshell itself needs, but not pieshell: that is imported anew in each child.
import pkg_resources, psutil, slugify, asyncio, signalfd, importlib.metadata, logging, code, codeop, shlex, pickle, base64
import readline, typing, uuid, inspect, enum, contextlib, threading, operator, functools, selectors, fcntl, select, glob
import pathlib, types, subprocess, random, atexit, stat, hashlib, unicodedata, string, textwrap
import wlib

libc = ctypes.CDLL(None, use_errno=True)
libc.prctl(36, 1, 0, 0, 0)          # PR_SET_CHILD_SUBREAPER: orphans of a case come back to us
libc.prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG
resource.setrlimit(resource.RLIMIT_NOFILE, (NOFILE, NOFILE))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
os.umask(0o022)
tempfile.tempdir = None


def children():
    me = os.getpid()
    res = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as f:
                    s = f.read()
                if int(s[s.rindex(")") + 2:].split()[1]) == me:
                    res.append(int(name))
            except (OSError, ValueError):
                pass
    return res


def reap(pid, deadline):
    """Waits for pid; returns its status, or None at the deadline.  Other children are reaped on the way."""
    delay = 0.001
    while True:
        try:
            p, st = os.waitpid(pid, os.WNOHANG)
        except ChildProcessError:
            return -1
        if p == pid:
            return st
        if time.monotonic() > deadline:
            return None
        time.sleep(delay)
        delay = min(delay * 1.3, 0.01)


def killall():
    n = 0
    for _ in range(200):
        c = children()
        if not c:
            return n
        for p in c:
            try:
                os.kill(p, signal.SIGKILL)
                n += 1
            except ProcessLookupError:
                pass
        for p in c:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
    return n


def child(req, d):
    os.setsid()
    # whatever the one who started the check ignored or blocked (nohup ignores SIGHUP, say) is not part of the case
    for sig in range(1, signal.NSIG):
        if sig not in (signal.SIGPIPE, signal.SIGXFSZ, signal.SIGKILL, signal.SIGSTOP) and sig not in (32, 33):
            try:
                signal.signal(sig, signal.SIG_DFL) # getsignal() of PyPy does not know what was inherited
            except (OSError, ValueError, RuntimeError):
                pass
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    fd = os.open("/dev/null", os.O_RDONLY)
    os.dup2(fd, 0)
    fd = os.open(d + "/out", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    os.dup2(fd, 1)
    fd = os.open(d + "/err", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    os.dup2(fd, 2)
    for i in range(3, 64):
        try:
            os.close(i)
        except OSError:
            pass
    sys.stdin = open(0, closefd=False)
    sys.stdout = open(1, "w", buffering=1, closefd=False)
    sys.stderr = open(2, "w", buffering=1, closefd=False)
    for n in ("home", "work", "tmp", "bin"):
        os.mkdir(d + "/" + n)
    os.environ.clear()
    os.environ.update({"PATH": d + "/bin:" + SCRATCH + "/bin:/usr/bin:/bin", "HOME": d + "/home", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
                       "TERM": "dumb", "TMPDIR": d + "/tmp", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
    tempfile.tempdir = None
    os.chdir(d + "/work")
    sys.argv = ["case"]
    me = os.getpid()
    res = {"status": "error", "error": "no result"}
    try:
        mod = importlib.import_module(req["mod"])
        fn = getattr(mod, req.get("fn", "run"))
        ctx = wlib.Ctx(req, d, SCRATCH)
        try:
            r = fn(ctx, req["case"])
            res = {"status": "ok", "result": r}
        except BaseException as e:
            res = {"status": "error", "error": traceback.format_exc()[-4000:], "etype": type(e).__name__}
    except BaseException as e:
        res = {"status": "harness", "error": traceback.format_exc()[-4000:]}
    if os.getpid() != me:
        with open(d + "/dup-%d" % os.getpid(), "w") as f:
            f.write(res.get("error") or "returned")
        os._exit(98)
    with open(d + "/result.part", "w") as f:
        json.dump(res, f)
    os.rename(d + "/result.part", d + "/result")
    try:
        sys.stdout.flush(); sys.stderr.flush()
    except Exception:
        pass
    os._exit(0)


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


count = 0


def handle(req):
    global count
    count += 1
    d = tempfile.mkdtemp(prefix="c", dir=SCRATCH + "/cases")
    os.chmod(d, 0o755)
    pid = os.fork()
    if pid == 0:
        try:
            child(req, d)
        finally:
            os._exit(97)
    t = req.get("timeout", 15)
    st = reap(pid, time.monotonic() + t)
    hang = st is None
    killall()
    res = {"status": "hang"}
    if os.path.exists(d + "/result"):
        with open(d + "/result") as f:
            res = json.load(f)
    elif not hang:
        res = {"status": "died", "error": "wait status %r" % (st,)}
    res["dups"] = [tail(d + "/" + n, 300) for n in os.listdir(d) if n.startswith("dup-")]
    res["out"] = tail(d + "/out")
    res["err"] = tail(d + "/err")
    shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(d):   # something unreadable inside
        for top, dirs, files in os.walk(d):
            try:
                os.chmod(top, 0o700)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    inp, out = os.fdopen(os.dup(0), "r"), os.fdopen(os.dup(1), "w")
    fd = os.open("/dev/null", os.O_RDWR)
    os.dup2(fd, 0); os.dup2(fd, 1)
    for line in inp:
        out.write(json.dumps(handle(json.loads(line))) + "\n")
        out.flush()


main()
