from hypothesis import strategies as st
import signal
from harness.core import Check
from harness import gen

sigs = st.lists(st.sampled_from([int(s) for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2, signal.SIGTERM, signal.SIGALRM, signal.SIGWINCH, signal.SIGTTOU, signal.SIGTTIN, signal.SIGINT, signal.SIGRTMIN)]), max_size=3, unique=True)
stage = st.fixed_dictionaries({"kind": st.sampled_from(["cmd", "cmd", "cmd", "sh", "arg", "subshell", "fn", "redir"])})
last = stage
inner = st.fixed_dictionaries({"kind": st.sampled_from(["cmd", "cmd", "sh", "arg", "subshell", "fn"])})
group = st.lists(inner, min_size=1, max_size=3)


class C26(Check):
    id = "C26"
    worker = "w26"
    quick = 45
    rule = ("Pipelines of commands (stages, in groups, argument pipelines, subshells, started by functions or by shells), run in every way, from a process with generated ignored, handled and blocked signals, umask, limits. Each command stores its own state as the kernel reports it. "
            "Oracle: the state the shell was started with (no signal that Python or pieshell ignores or blocks for itself). Non-trivial: two commands or a changed state.")

    def strategy(self):
        return st.fixed_dictionaries({"groups": st.lists(group, min_size=1, max_size=2), "how": st.sampled_from(["run", "run", "during", "await", "list"]), "ignored": sigs, "handled": sigs, "blocked": sigs.map(lambda l: [s for s in l if s != 2]),
                                      "umask": st.sampled_from([0o22, 0o22, 0o77, 0, 0o27]), "nofile": st.sampled_from([0, 0, 200]), "interactive": st.booleans(), "behave": st.sampled_from(["", "", "pipe", "wait"]), "manager": gen.managers})

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return r["n"] > 1 or bool(case["ignored"] or case["blocked"] or case["handled"])

    def classify(self, case, r):
        return [case["how"]] + [s["kind"] for g in case["groups"] for s in g] + (["behave " + case["behave"]] if case["behave"] else [])


CHECK = C26()
