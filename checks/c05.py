import os
from hypothesis import strategies as st
from harness.core import Check
from harness import gen

OUT = ["os.O_WRONLY | os.O_CREAT", "os.O_WRONLY | os.O_CREAT | os.O_APPEND", "os.O_WRONLY | os.O_CREAT | os.O_TRUNC", "os.O_RDWR | os.O_CREAT", "os.O_WRONLY | os.O_CREAT | os.O_EXCL", "os.O_RDONLY", "os.O_WRONLY"]
CH = {"env": 0, "envcall": 1, "run": 2, "op": 3}


def flagval(r):
    if r["flag"] is not None: return eval(r["flag"], {"os": os})
    return os.O_RDONLY if r["fd"] == 0 else os.O_WRONLY | os.O_CREAT


@st.composite
def cases(draw):
    nf = draw(st.integers(1, 5))
    files = [{"exists": draw(st.booleans()), "mode": draw(st.sampled_from([0o644, 0o600, 0o666]))} for i in range(nf)]
    # Numbers at which the shell has files open: close to the redirected ones, so that they collide
    nums = draw(st.lists(st.sampled_from([20, 21, 22, 23, 24, 30, 60, 100]), unique=True, max_size=4))
    shellfds = [{"fd": n, "open": draw(st.sampled_from(["r", "w", "a", "rw"])), "inherit": draw(st.booleans()), "seek": draw(st.sampled_from([0, 3]))} for n in nums]
    place = draw(st.sampled_from(["single", "single", "single", "first", "middle", "last"]))
    free = [f for f in range(nf)]
    redirs = []
    targets = [0, 1, 2, 1, 2, 3, 4, 5, 7, 20, 21, 22, 23, 24, 63, 100]
    piped = {"single": [], "first": [1], "middle": [0, 1], "last": [0]}[place]
    for i in range(draw(st.integers(1, 6))):
        fd = draw(st.sampled_from([t for t in targets if t not in piped]))
        ch = draw(st.sampled_from(["op", "op", "op", "run", "env", "envcall"]))
        if place != "single" and ch != "op":
            ch = "op"   # the others apply to every part of the pipeline
        r = {"fd": fd, "ch": ch, "flag": None, "mode": None, "plain": False, "sign": draw(st.booleans())}
        kinds = ["null"] + ["path"] * 3 * bool(free) + ["fd"] * 2 + (["TMP", "STRING"] if fd != 0 else [])
        k = draw(st.sampled_from(kinds))
        if k == "path":
            f = free.pop(draw(st.integers(0, len(free) - 1)))
            r["src"] = ["path", f, draw(st.sampled_from(["str", "str", "bytes", "Path"])), draw(st.booleans())]
            fl = [x for x in OUT if not ("EXCL" in x and files[f]["exists"]) and ("CREAT" in x or files[f]["exists"])]
            if fd > 2 or draw(st.integers(0, 2)) == 0: r["flag"] = draw(st.sampled_from(fl))
            if draw(st.integers(0, 2)) == 0: r["mode"] = draw(st.sampled_from([0o600, 0o640, 0o644, 0o400, 0o777]))
            if r["flag"] is None and fd == 0: files[f]["exists"] = True
            r["plain"] = fd in (0, 1) and r["flag"] is None and r["mode"] is None and ch in ("op", "env") and draw(st.booleans())
        elif k == "fd":
            s = draw(st.sampled_from([0, 1, 2] + nums + nums))
            r["src"] = ["fd", s]
            mode = {**{x["fd"]: x["open"] for x in shellfds}, 0: "r", 1: "w", 2: "w"}[s]
            r["flag"] = None if fd < 3 else "os.O_RDONLY" if mode == "r" else "os.O_WRONLY"
        else:
            r["src"] = [k]
            if fd > 2: r["flag"] = draw(st.sampled_from(["os.O_RDONLY", "os.O_WRONLY"])) if k == "null" else "os.O_WRONLY"
            elif k == "null":
                r["plain"] = fd < 2 and ch in ("op", "env") and draw(st.booleans())
        redirs.append(r)
    case = {"manager": draw(gen.managers), "place": place, "files": files, "shellfds": shellfds, "redirs": redirs, "cd": draw(st.booleans()), "copy": draw(st.booleans())}
    win = winners(case)
    # which of the descriptors can be written to
    case["writes"] = sorted(fd for fd, r in win.items() if writable(case, r))
    return case


def winners(case):
    """The redirection that holds for each descriptor, redirections sorted by how close to the command they are."""
    order = [r for ch in ("env", "envcall", "run") for r in case["redirs"] if r["ch"] == ch] + [r for r in case["redirs"][::-1] if r["ch"] == "op"]
    return {r["fd"]: r for r in order}


def writable(case, r):
    k = r["src"][0]
    if k == "fd":
        return {**{x["fd"]: x["open"] for x in case["shellfds"]}, 0: "r", 1: "w", 2: "w"}[r["src"][1]] != "r"
    if k in ("TMP", "STRING"): return True
    return flagval(r) & 3 != 0


class C05(Check):
    id = "C05"
    worker = "w05"
    quick = 80
    rule = ("One to six redirections (file names as str, bytes or Path, absolute or relative, with flags and modes; None; descriptors the shell has open, at colliding numbers; TMP; STRING) of descriptors 0 to "
            "100, written with | > <, Redirect objects, run(), default redirections or a derived environment, of a single command or one in a pipeline. The command reports its open descriptors and writes to "
            "them. Oracle: expected file, flags, creation mode, exact set of descriptors, contents by a model of open file descriptions. Non-trivial: two or more redirections, or a descriptor above 2.")

    def strategy(self):
        return cases()

    def judge(self, case, r):
        if r["failed"]:
            return "failed: %s" % r["failed"]
        got = r["fds"]
        got = {int(k): v for k, v in got.items()}
        win = winners(case)
        if not got:
            return "the command never ran"
        want = set(win) | {0, 1, 2, r["log"]}
        if set(got) != want:
            return "descriptors of the command are %s, expected %s" % (sorted(got), sorted(want))
        files = [None if not f["exists"] else "old content %d\n" % i for i, f in enumerate(case["files"])]
        shell = {s["fd"]: dict(s, text="shell content %d\n" % i, off=s["seek"]) for i, s in enumerate(case["shellfds"])}
        opened, strings, tmps = {}, {}, {}
        for fd, red in sorted(win.items()):
            k, g = red["src"][0], got[fd]
            if k == "null":
                if g["target"] != "/dev/null":
                    return "descriptor %d is %s, expected /dev/null" % (fd, g["target"])
            elif k == "path":
                i = red["src"][1]
                if g["target"] != r["files"][i][0]:
                    return "descriptor %d is %s, expected %s" % (fd, g["target"], r["files"][i][0])
                fl = flagval(red)
                if files[i] is None:
                    m = (red["mode"] if red["mode"] is not None else 0o777) & ~0o022
                    if r["files"][i][2] != m:
                        return "file for descriptor %d was made with mode %o, expected %o" % (fd, r["files"][i][2], m)
                    files[i] = ""
                if fl & os.O_TRUNC: files[i] = ""
                if (g["flags"] & 3, g["flags"] & os.O_APPEND) != (fl & 3, fl & os.O_APPEND):
                    return "descriptor %d was opened with flags %o, expected %o" % (fd, g["flags"], fl)
                opened[fd] = {"text": files[i], "off": 0, "file": i, "open": "a" if fl & os.O_APPEND else "w"}
            elif k == "fd":
                s = red["src"][1]
                t = r["shell"][str(s)][2] if str(s) in r["shell"] else r["std"][s]
                if g["ino"] != t:
                    return "descriptor %d is %s, expected the shell's descriptor %d" % (fd, g["target"], s)
                if s in shell: opened[fd] = shell[s]
            elif k in ("TMP", "STRING"):
                (tmps if k == "TMP" else strings)[str(fd)] = "%dw\n" % fd
                if k == "TMP" and g["target"] != r["tmp"].get(str(fd), [None])[0]:
                    return "descriptor %d is %s, expected the temporary file %s" % (fd, g["target"], r["tmp"].get(str(fd)))
        if 2 not in win:
            strings["2"] = ""
        piped = {"single": [], "first": [1], "middle": [0, 1], "last": [0]}[case["place"]]
        for fd in (0, 1):
            if fd in win: continue
            if fd in piped:
                if not got[fd]["target"].startswith("pipe:"):
                    return "descriptor %d is %s, expected the pipe" % (fd, got[fd]["target"])
            elif got[fd]["ino"] != r["std"][fd]:
                return "descriptor %d is %s, expected the shell's" % (fd, got[fd]["target"])
        for fd in case["writes"]:
            d = "%dw\n" % fd
            if fd in opened:
                o = opened[fd]
                if o["open"] == "a": o["off"] = len(o["text"])
                o["text"] = o["text"][:o["off"]] + d + o["text"][o["off"] + len(d):]
                o["off"] += len(d)
                if "file" in o: files[o["file"]] = o["text"]
        for i, f in enumerate(r["files"]):
            # A file of an overridden redirection may or may not be opened; otherwise contents are known
            used = [x for x in case["redirs"] if x["src"][:2] == ["path", i]]
            if used and used[0] is not win.get(used[0]["fd"]): continue
            if f[1] != files[i]:
                return "file %d contains %r, expected %r" % (i, f[1], files[i])
        for n, s in shell.items():
            if r["shell"][str(n)][1] != s["text"]:
                return "the file of the shell's descriptor %d contains %r, expected %r" % (n, r["shell"][str(n)][1], s["text"])
        if r["strings"] != strings:
            return "captured strings are %r, expected %r" % (r["strings"], strings)
        if {k: v[1] for k, v in r["tmp"].items()} != tmps:
            return "temporary files are %r, expected %r" % (r["tmp"], tmps)
        if r["lost"]:
            return "the shell's descriptors %s were closed or replaced" % r["lost"]
        if r["left"] or r["tmpleft"]:
            return "temporary files remain after remove_output_files(): %r" % (r["left"] + r["tmpleft"])

    def nontrivial(self, case, r):
        return len(case["redirs"]) > 1 or any(x["fd"] > 2 for x in case["redirs"])

    def classify(self, case, r):
        return [case["manager"], case["place"], "redirections %d" % len(winners(case))] + sorted(set("to " + x["src"][0] for x in case["redirs"]) | set("by " + x["ch"] for x in case["redirs"])) + (
            ["overridden"] if len(winners(case)) < len(case["redirs"]) else []) + (["swap"] if any(x["src"] == ["fd", y["fd"]] for x in case["redirs"] for y in case["redirs"] if x is not y) else [])


CHECK = C05()
