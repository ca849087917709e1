from hypothesis import strategies as st
from harness.core import Check
from harness import gen

n = st.integers(0, 13)
op = st.one_of(st.tuples(st.just("show"), n, n), st.tuples(st.just("show"), n, n), st.tuples(st.sampled_from(["cd", "cd", "switch", "touch", "touch", "commit", "branch", "detach", "gone", "bg", "end", "run"]), n, n)).map(list)
d = st.sampled_from(["home", "home/sub", "home2", "home/repo", "home/repo", "repo", "repo", "home/repo/deep/er", "repo", "repo/sub dir", "repo/.git", "repo2", "plain", "é%s [x]", "gone", "", "/"])

repo = st.fixed_dictionaries({"branch": st.sampled_from(["master", "main", "a/b", "é"]), "commits": st.integers(0, 2), "detached": st.booleans(), "changes": st.sampled_from([0, 0, 1, 2, 11])})


class C31(Check):
    id = "C31"
    worker = "w31"
    quick = 60
    rule = ("Histories of up to 12 operations on 1 to 3 environments (changes of directory, pipelines in the foreground and background, the current environment) and git repositories (new files, commits, branches, detached heads), with the prompt shown in between, by the configuration the shell installs. "
            "Oracle: git asked directly; the state before. Non-trivial: some directory in a repository or below home.")

    def strategy(self):
        return gen.fixed(manager=gen.managers, slash=st.sampled_from(["", "", "/"]), envs=st.lists(st.tuples(d, st.booleans()).map(list), min_size=1, max_size=3),
                         repos=st.dictionaries(st.sampled_from(["home/repo", "repo", "repo2", "home2"]), repo, max_size=4), ops=st.lists(op, min_size=2, max_size=12))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return bool(r["kinds"]) or any(e[0].startswith("home") for e in case["envs"])

    def classify(self, case, r):
        return [case["manager"]] + r["kinds"] + (["background"] if r["bg"] else []) + ["shown %d" % min(r["shown"], 4)]


CHECK = C31()
