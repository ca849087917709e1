from wlib import *
import re


class Unclear(Exception): pass


def to_re(p):
    """A component of a pattern as regular expression."""
    i, res = 0, ""
    while i < len(p):
        c = p[i]
        i += 1
        if c == "*": res += "(?s:.*)"
        elif c == "?": res += "(?s:.)"
        elif c == "[":
            j = i
            if j < len(p) and p[j] == "!": j += 1
            if j < len(p) and p[j] == "]": j += 1
            while j < len(p) and p[j] != "]": j += 1
            if j >= len(p):
                res += re.escape(c)
                continue
            s, neg = p[i:j], False
            i = j + 1
            if s[0] == "!": s, neg = s[1:], True
            alts, k = [], 0
            while k < len(s):
                if k + 2 < len(s) and s[k + 1] == "-":
                    alts.append((s[k], s[k + 2]))
                    k += 3
                else:
                    alts.append((s[k], s[k]))
                    k += 1
            bad = [a for a in alts if a[0] > a[1]]
            if bad:
                if len(alts) > 1: raise Unclear()   # Python's fnmatch rejects the whole pattern
                res += "(?s:.)" if neg else "(?!)"
                continue
            res += "[%s%s]" % ("^" if neg else "", "".join("%s-%s" % tuple("\\U%08x" % ord(x) for x in a) for a in alts))
        else: res += re.escape(c)
    return re.compile(res + r"\Z")


def expand(base, comps):
    """Every existing path that matches, as list of components from base."""
    c, rest = comps[0], comps[1:]
    if not any(x in c for x in "*?["):
        if not rest:
            if c == "": return [[""]] if os.path.isdir(base) else []
            return [[c]] if os.path.lexists(base + "/" + c) else []
        return [[c] + r for r in expand(base + "/" + c, rest)]
    try:
        names = os.listdir(base or "/")
    except OSError:
        return []
    r = to_re(c)
    res = []
    for n in names:
        if n.startswith(".") and not c.startswith("."): continue
        if not r.match(n): continue
        if not rest: res.append([n])
        elif os.path.isdir(base + "/" + n): res += [[n] + x for x in expand(base + "/" + n, rest)]
    return res


def norm(path):
    return "/" + "/".join(x for x in path.split("/") if x not in ("", "."))


def run(ctx, case):
    pieshell = ctx.pieshell()
    root = ctx.home + "/t"
    os.environ["HOME"] = root
    os.mkdir(root)
    got = ctx.path("argv")
    os.mkdir(got)
    dirs = [""]
    for kind, parent, name, target in case["tree"]:
        p = dirs[parent % len(dirs)] + "/" + name
        full = root + p
        if os.path.lexists(full): continue
        if kind == "f": open(full, "w").close()
        elif kind == "d":
            os.mkdir(full)
            dirs.append(p)
        elif kind == "l": os.symlink(root + dirs[target % len(dirs)] if target % 3 else name + "x", full)
    cwd = root + dirs[case["cwd"] % len(dirs)]
    locked = None
    if case["lock"] is not None and len(dirs) > 1:
        locked = root + dirs[case["lock"] % (len(dirs) - 1) + 1]
        if (cwd + "/").startswith(locked + "/"): locked = None
        else: os.chmod(locked, 0)
    sib = cwd + case["sibling"]
    if not os.path.lexists(sib) and os.access(os.path.dirname(sib), os.W_OK):
        os.makedirs(sib)
        for n in ("a", "b", ".a", "ab"): open(sib + "/" + n, "w").close()
    nest = "nest" + cwd     # the path of the current directory once more, inside of it
    odd = any(x in cwd for x in "*?[%~")
    if any(a == "nest" for a, c in case["patterns"]) and not odd and os.access(cwd, os.W_OK) and not os.path.lexists(cwd + "/nest"):
        os.makedirs(cwd + "/" + nest)
        for n in ("a", "b", ".a", "ab"): open(cwd + "/" + nest + "/" + n, "w").close()
    pats = []
    for anchor, comps in case["patterns"]:
        t = "/".join(comps)
        pats.append({"": "", "~": "~/", "/": root + "/", "here": cwd + "/", "sib": sib + "/", "nest": nest + "/"}[anchor if not (anchor in ("here", "sib", "nest") and (odd or any(x in sib for x in "*?[%~"))) else ""] + t)
    if case["slash"] and not any(x in cwd for x in "*?["):
        cwd0, cwd = cwd, "/"
        pats = [p if p[0] in "~/" else cwd0[1:] + "/" + p for p in pats]
    want = []
    for p in pats:
        q = root + p[1:] if p.startswith("~/") else p
        if not any(x in q for x in "*?["):
            want.append([p if not p.startswith("~/") else q])
            continue
        if q.startswith("/"): base, comps = "", q[1:].split("/")
        else: base, comps = (cwd if cwd != "/" else ""), q.split("/")
        try:
            for x in comps: to_re(x)
            ms = expand(base, comps)
        except Unclear:
            want.append(None)
            continue
        want.append(sorted(norm(base + "/" + "/".join(m)) for m in ms) if ms else [q])
    exports = dict(os.environ, PROBE_ARGV_DIR=got)
    if case["enter"] == "call": env = pieshell.env(cwd, exports)
    elif case["enter"] == "item": env = pieshell.env(exports=exports)[cwd]
    elif case["enter"] == "interactive":
        env = pieshell.env(exports=exports, interactive=True)
        env._cd(cwd)
    else:
        env = pieshell.env(exports=exports)
        env._cd(cwd)
    res = []
    for i, p in enumerate(pats):
        p = p.replace("%", "%%")
        cmd = env._(ctx.probe, "=", p, "=") if not case["kw"] else env._(ctx.probe, "=", o=p)("=")
        +cmd
        [f] = os.listdir(got)
        a = read(got + "/" + f).decode("utf-8", "surrogateescape").split("\0")[:-1]
        os.unlink(got + "/" + f)
        res.append(a)
    # what the arguments name, seen from the environment's directory
    named = []
    for a, w in zip(res, want):
        l = a[2:-1]
        if case["kw"]: l = [x[4:] if x.startswith("--o=") else "??" + x for x in l]
        named.append([l, sorted(norm(os.path.join(cwd, x)) for x in l)])
    if locked: os.chmod(locked, 0o700)
    return {"named": named, "want": want, "pats": pats, "cwd": cwd, "shape": [a[1:2] + a[-1:] for a in res], "magic": [w is not None and any(x in p for x in "*?[") for p, w in zip(pats, want)]}
