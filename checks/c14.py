from hypothesis import strategies as st
from harness.core import Check
from harness import gen

PROG = ["missing", "missing-path", "relative", "noexec", "directory", "format", "interpreter", "cwd", "nopath", "nul-value", "int-value", "nul-arg"]
ANY = PROG + ["err-dir", "err-fd", "five-in", "five-out", "excl"]
FIRST = ["in-missing", "in-locked"]
LAST = ["out-dir", "out-isdir", "out-locked"]


def cmd(arg):
    return gen.fixed(kind=st.just("cmd"), fault=st.one_of(st.none(), st.sampled_from(ANY + FIRST + LAST)), extra=st.lists(st.sampled_from([6, 3, 9]), max_size=2, unique=True), arg=arg)


inner = st.lists(cmd(st.none()), min_size=1, max_size=2)
stage = st.one_of(cmd(st.none()), cmd(st.none()), cmd(st.one_of(st.none(), inner)), gen.fixed(kind=st.just("fn")))


def fix(c):
    n = [0]

    def linear(ss, isarg):
        for i, s in enumerate(ss):
            n[0] += 1
            s["key"] = str(n[0])
            if s["kind"] == "fn": continue
            f = s["fault"]
            if f in FIRST and (i or isarg): s["fault"] = None
            if f in LAST and (i < len(ss) - 1 or isarg): s["fault"] = None
            if isarg and f == "cwd": s["fault"] = None
            if s["arg"] and s["fault"] == "excl": s["fault"] = "five-in"
            if s["arg"]: linear(s["arg"], True)
    linear(c["a"], False)
    linear(c["b"] or [], False)
    parts = c["a"] + (c["b"] or [])
    if any(s["kind"] == "fn" for s in parts): c["wrap"] = None
    if c["wrap"]: c["modes"] = ["bare" for m in c["modes"]]
    if c["wrap"] and any(s["fault"] in LAST for s in parts): c["wrap"] = None; c["modes"] = ["list"]
    if any(s.get("fault") in LAST for s in parts): c["modes"] = ["bare" for m in c["modes"]]
    for s in everything(parts):
        # a subshell has only the descriptors it was given
        if s.get("fault") == "err-fd" and "subshell" in c["modes"]: s["fault"] = "err-dir"
    if not any(s.get("fault") for s in everything(parts)) and not c["wrap"]:
        s = c["a"][-1] if c["a"][-1]["kind"] == "cmd" else None
        if s: s["fault"] = "missing"
    return c


def everything(ss):
    return [x for s in ss or [] for x in everything(s.get("arg")) + [s]]


def may_fail(ss):
    """Keys of the parts that may fail because what they write to could not be set up"""
    res, bad = [], False
    for s in reversed(ss):
        if bad: res += [x["key"] for x in everything([s])]
        elif s.get("fault"): res += [x["key"] for x in everything(s.get("arg"))]
        elif s.get("arg"): res += may_fail(s["arg"])
        if s.get("fault"): bad = True
    return res


INHERITED = ["err-dir", "err-fd", "five-in", "five-out", "in-missing", "in-locked"]


def cannot(ss, inherited=None):
    """Keys of the commands that cannot be set up; the pipelines a command has as arguments have its redirections too"""
    res = []
    for i, s in enumerate(ss or []):
        mine = None if inherited in FIRST and i else inherited
        if mine or s.get("fault"): res.append(s["key"])
        if s.get("arg"):
            sub = s["fault"] if s["fault"] in INHERITED else None
            res += cannot(s["arg"], sub)
            if mine: res += [k for k in cannot(s["arg"], mine) if k not in res]
    return res


def lines(ss):
    out = []
    for i, s in enumerate(ss):
        out = [] if s.get("fault") else out + ["T" + s["key"]]
    return out


class C14(Check):
    id = "C14"
    worker = "w14"
    quick = 70
    rule = ("Pipelines of 1 to 4 parts, groups of two, and pipelines as arguments, where some commands cannot be set up for one of 23 reasons (program missing, not executable, a directory, not a program, without "
            "interpreter, not on the PATH; directory removed; a variable or argument that cannot be passed; redirection of stdin, stdout, stderr or another descriptor to what cannot be opened; the redirection of a whole group), run in 6 ways, then repaired and run "
            "again. Oracle: who ran, who failed, the output of the rest. Non-trivial: two or more parts.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, a=st.lists(stage, min_size=1, max_size=4), b=st.one_of(st.none(), st.none(), st.lists(stage, min_size=1, max_size=2)),
                         wrap=st.sampled_from([None] * 6 + ["out-dir", "err-dir", "five-in"]), modes=st.lists(st.sampled_from(["list", "bytes", "plus", "await", "subshell"]), min_size=1, max_size=2)).map(fix)

    def judge(self, case, r):
        if r["pids"] != 1 or r["afters"] != len(case["modes"]) + 1:
            return "the calling code ran on %d times in %d processes" % (r["afters"], r["pids"])
        parts = everything(case["a"]) + everything(case["b"])
        for i, x in enumerate(r["runs"]):
            d = self.one(case, parts, x, i == len(case["modes"]), (case["modes"] + case["modes"][-1:])[i])
            if d: return "run %d (%s%s): %s" % (i, (case["modes"] + case["modes"][-1:])[i], ", repaired" if i == len(case["modes"]) else "", d)

    def one(self, case, parts, r, repaired, mode):
        cmds = [s for s in parts if s["kind"] == "cmd"]
        bad = [] if repaired else cannot(case["a"]) + cannot(case["b"])
        may = [] if repaired else may_fail(case["a"]) + may_fail(case["b"] or [])
        if case["wrap"] and not repaired:
            # Whose output the redirection is: the last parts; otherwise everything
            linear = [case["a"]] + ([case["b"]] if case["b"] else [])
            bad = bad + [ss[-1]["key"] for ss in linear] if case["wrap"] == "out-dir" else [s["key"] for s in cmds]
            may = [s["key"] for s in cmds]
        must = [s["key"] for s in cmds if s["key"] not in bad]
        if [k for k in r["ran"] if k in bad]: return "commands %r ran although they could not be set up" % [k for k in r["ran"] if k in bad]
        if [k for k in must if k not in r["ran"]]: return "commands %r did not run" % [k for k in must if k not in r["ran"]]
        if r["exc"] not in (None, "PipelineFailed"): return r["trace"]
        if bad and not r["exc"]: return "no PipelineFailed, although %r could not be set up" % bad
        if not bad and r["exc"]: return "PipelineFailed, although everything could be set up: %s" % r.get("text")
        if mode == "subshell":
            if bad and not r.get("code"): return "the subshell's exit code is %r" % r.get("code")
        else:
            if r["running"]: return "the pipeline still runs"
            if len(r["codes"]) != len(cmds): return "%r are the processes for the commands %r" % (sorted(r["codes"]), [s["key"] for s in cmds])
            if [k for k in bad if k not in r["failed"]]: return "%r are not reported as failed" % [k for k in bad if k not in r["failed"]]
            wrong = [k for k in r["failed"] if k not in bad and k not in may]
            if wrong: return "%r are reported as failed: %r" % (wrong, r["codes"])
            if [k for k in bad if not r["codes"][k]]: return "exit codes are %r, but %r could not be set up" % (r["codes"], bad)
        if mode != "bare" and not (mode == "bytes" and r["exc"]):
            if repaired:
                want = sorted(["T" + s["key"] for s in case["a"] + (case["b"] or [])])
            else:
                want = sorted(lines(case["a"]) + lines(case["b"] or []))
            if sorted(r["out"]) != want: return "the output was %r, expected %r" % (r["out"], want)

    def nontrivial(self, case, r):
        return len(everything(case["a"]) + everything(case["b"])) > 1

    def classify(self, case, r):
        parts = everything(case["a"]) + everything(case["b"])
        return [case["manager"]] + sorted(set(s["fault"] for s in parts if s.get("fault"))) + sorted(set(case["modes"])) + (["wrap " + case["wrap"]] if case["wrap"] else []) + (
            ["function"] if any(s["kind"] == "fn" for s in parts) else []) + (["root"] if r["root"] else [])


CHECK = C14()
