"""Helpers for the code that runs inside a case's child process (PyPy)."""
import sys, os, time, json, asyncio, signal, traceback, base64, tempfile


class Ctx:
    def __init__(self, req, d, scratch):
        self.req = req
        self.dir = d
        self.work = d + "/work"
        self.home = d + "/home"
        self.tmp = d + "/tmp"
        self.bin = d + "/bin"
        self.scratch = scratch
        self.probe = scratch + "/bin/probe"
        self.n = 0

    def pieshell(self, manager=None):
        """Imports pieshell from /repo with the given signal back end."""
        manager = manager or self.req["case"].get("manager", "signalfd")
        if manager == "asyncio":
            sys.modules["signalfd"] = None
        import pieshell
        if not os.path.realpath(pieshell.__file__).startswith("/repo/"):
            raise ImportError("pieshell is not imported from /repo but from %s" % pieshell.__file__)
        return pieshell

    def path(self, name=None):
        self.n += 1
        return "%s/%s%d" % (self.dir, name or "f", self.n)

    def store(self, data, name=None):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p


def read(path, default=None):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return default


def b64(b):
    return None if b is None else base64.b64encode(b).decode("ascii")


def unb64(s):
    return base64.b64decode(s)


def gen_bytes(spec):
    """Bytes described compactly, so that big data does not have to be generated or shrunk byte by byte:
    a list of pieces, each a latin-1 string, or [string, repetitions]."""
    return b"".join(p.encode("latin-1") if isinstance(p, str) else p[0].encode("latin-1") * p[1] for p in spec)


def gen_text(spec):
    return "".join(p if isinstance(p, str) else p[0] * p[1] for p in spec)


def loop():
    return asyncio.get_event_loop()


def run(coro):
    return loop().run_until_complete(coro)


def spin(seconds):
    """Runs the event loop for a while."""
    run(asyncio.sleep(seconds))


def fds():
    """The open descriptors of this process: {fd: [target, dev, ino]}"""
    res = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
            s = os.stat("/proc/self/fd/" + n) if not t.startswith("anon_inode") else None
        except OSError:
            continue
        res[int(n)] = [t, s.st_dev if s else 0, s.st_ino if s else 0]
    return res


def proc_state(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        return s[s.rindex(")") + 2:].split()[0]
    except OSError:
        return None


def child_pids():
    me = os.getpid()
    res = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open("/proc/%s/stat" % name) as f:
                    s = f.read()
                if int(s[s.rindex(")") + 2:].split()[1]) == me:
                    res.append(int(name))
            except (OSError, ValueError):
                pass
    return res


def outcome(fn):
    """Calls fn; returns ["ok", value] or ["raise", class name, message]"""
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["raise", type(e).__name__, str(e)[:500]]
    except KeyboardInterrupt as e:
        return ["raise", type(e).__name__, ""]


def wait_until(cond, timeout=20.0, step=0.002):
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        if cond():
            return True
        spin(step)
    return bool(cond())


def parse_fds(text):
    res = {}
    for line in text.splitlines():
        k, dev, ino, mode, fl, off, tgt = line.split("\t", 6)
        res[int(k)] = {"dev": int(dev), "ino": int(ino), "mode": int(mode, 8), "flags": int(fl), "off": int(off), "target": tgt}
    return res
