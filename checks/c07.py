from hypothesis import strategies as st
from harness.core import Check
from harness import gen

name = st.one_of(st.sampled_from(["a", "b", "ab", "a b", "[a]", "*", "a[b]", "?", "[!a]", ".a", ".b", "..a", "]", "[", "a]", "!", "-", "b.a", "é", "a\nb", "%s", "~", "\\", "a\\b", "A", "{a}", "$a", "[[]", "[a-c]"]),
                 st.text(alphabet="ab.[]*?-!é", min_size=1, max_size=4).filter(lambda t: t not in (".", "..")))
node = st.tuples(st.sampled_from("fffddl"), st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3, 4, 9]), name, st.integers(0, 9)).map(list)
magic = st.sampled_from(["*", "*", "?", "??", "[ab]", "[!a]", "[a-c]", "[]x]", "[!]a]", "[[]", "[*]", "[?]", "[", "[a", "[é]", "**", "[!.]", ".*", "[.]", "[a-]", "[-a]", "[\\]", "[z-a]", "[b-a]", "[A]", "[!]"])
plain = st.sampled_from(["a", "b", ".", "]", "é", "-", "\\", "%s", "a b", "!"])
comp = st.one_of(st.lists(st.one_of(magic, magic, plain), min_size=1, max_size=3).map("".join), st.one_of(name.filter(lambda n: not n.startswith("~")), st.sampled_from(["..", ".", "a", "b"])))
pattern = st.tuples(st.sampled_from(["", "", "", "", "~", "/", "here", "sib", "sib", "nest", "nest"]), st.lists(comp, min_size=1, max_size=3).flatmap(lambda l: st.sampled_from([l, l, l, l + [""]]))).map(list).filter(lambda p: not "/".join(p[1]).startswith("/"))


base = gen.fixed(manager=gen.managers, tree=st.lists(node, min_size=5, max_size=16), cwd=st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4]), lock=st.one_of(st.none(), st.none(), st.integers(0, 9)),
                 patterns=st.lists(pattern, min_size=1, max_size=3), enter=st.sampled_from(["call", "item", "cd", "interactive"]), kw=st.sampled_from([False, False, True]),
                 sibling=st.sampled_from(["x", "-old", " ", ".", "a/b"]), slash=st.sampled_from([False] * 9 + [True]))


@st.composite
def cases(draw):
    c = draw(base)
    names = sorted(set(n[2] for n in c["tree"])) + [".."]

    def near():
        """A component that may well match: a name with some characters replaced by patterns."""
        n = draw(st.sampled_from(names))
        if n == ".." or draw(st.integers(0, 5)) == 0: return n
        out = ""
        for ch in n:
            k = draw(st.integers(0, 7))
            out += ("*" if k == 0 else "?" if k == 1 else "[%s]" % ch if k == 2 and ch not in "]!" else "[!z]" if k == 3 else "[[]" if ch == "[" and k < 7 else "[*]" if ch == "*" else ch)
            if draw(st.integers(0, 9)) == 0: out += "*"
        if draw(st.integers(0, 2)) == 0: out = out[:draw(st.integers(0, len(out)))]  + "*"
        return out
    for p in c["patterns"]:
        if draw(st.integers(0, 3)):
            p[1] = [draw(comp) if draw(st.integers(0, 3)) == 0 else near() for x in p[1][:draw(st.sampled_from([1, 1, 2]))]] + ([""] if p[1][-1] == "" else [])
            if p[1][0].startswith("~"): p[1][0] = "." + p[1][0]
            if p[1][0] == "": p[1][0] = "*"
    return c


class C07(Check):
    id = "C07"
    worker = "w07"
    quick = 90
    rule = ("A random tree of files, directories, symbolic links (also broken ones) and unreadable directories with names full of pattern characters, an environment in one of its directories (reached in 4 ways; the "
            "process elsewhere), and one to three patterns of up to 3 components (relative, with .., through ~, absolute, in a directory whose path starts with that of the current one or contains it again, with trailing slash). Oracle: an independent matcher that walks the tree; arguments are "
            "compared as the paths they denote from the environment's directory, as multisets. Non-trivial: a pattern with a match.")

    def strategy(self):
        return cases()

    def judge(self, case, r):
        for (got, named), want, p, m, s in zip(r["named"], r["want"], r["pats"], r["magic"], r["shape"]):
            if want is None:
                continue
            if s != ["=", "="]:
                return "other arguments changed: %r" % s
            if got == want or got == [p]:
                if got == want: continue
            if named != want:
                return "pattern %r in %r became %r, which names %r, expected %r" % (p, r["cwd"], got, named, want)

    def nontrivial(self, case, r):
        return any(m and w != [p] for m, w, p in zip(r["magic"], r["want"], r["pats"]))

    def classify(self, case, r):
        n = max(len(w or ()) for w in r["want"])
        return [case["manager"], case["enter"], "most matches %s" % (n if n < 5 else "5+")] + (["keyword"] if case["kw"] else []) + (["pattern characters in directory"] if any(x in r["cwd"] for x in "*?[") else []) + sorted(
            set("anchor " + (a or "none") for a, c in case["patterns"])) + (["trailing slash"] if any(c[-1] == "" for a, c in case["patterns"]) else []) + (["unmatched"] if any(m and w == [p] for m, w, p in zip(r["magic"], r["want"], r["pats"])) else [])


CHECK = C07()
