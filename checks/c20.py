from hypothesis import strategies as st
from harness.core import Check
from harness import gen

chars = "ab 0=:;'\"$`\\!#&|<>(){}[]*?~%^,./-\n\t\r\x01\x1b\x7f\x85\u2028\u00e9\u20ac\U0001f600\u0663"
value = st.one_of(st.text(alphabet=chars, max_size=12), st.sampled_from(["", " ", "a b", "\\n", "$HOME", "\"\n declare -x XB=\"evil", "\ndeclare -x XB=\"evil\"\n", "'", "$'x'", "()", "() { :; }", "x\\", "f () \n{ \n}", "~", "-n", "\n", "a\n\nb\n"]), st.integers(1, 3).map(lambda k: "long" * (k * 3000)))
names = ["XA", "XB", "X_c", "Xd9", "_XE", "xf"]
name = st.sampled_from(names)


def sq(s): return "'" + s.replace("'", "'\\''") + "'"


def dollar(s):
    return "$'" + "".join(c if c.isalnum() and ord(c) < 128 else "\\%03o" % ord(c) if ord(c) < 128 else "\\U%08x" % ord(c) for c in s.replace("\0", "")) + "'"


quoted = st.one_of(value.map(sq), value.map(sq), value.map(dollar), st.sampled_from(["\"$HOME/x\"", "$XA", "\"$XB$XA\"", "$((6*7))", "$(echo hi)", "\"\\$x \\\" \\` \\\\\""]))
bodies = ["echo a", "cat <<EOF\ndeclare -x XA=\"evil\"\nEOF", "cat <<'E O F'\n}\ndeclare -x XB=\"evil\nE O F", "echo '\ndeclare -x XA=\"evil\"\n'", "echo \"\ndeclare -x X_c=\"; true", "export XB=never", "local XA=1; echo \"it's\"", "g () { echo nested; }",
          "case x in (x) echo '}' ;; esac", "# it's a comment\n:", "echo $'a\\'b'", "echo }", "if true; then\n echo 'x () \n{\n'\nfi", "cat <<< \"unbalanced ' quote\"", "cat <<-EOF\n\t'\n\tEOF\n:"]
fname = st.sampled_from(["f", "g", "my-func", "h.x", "XA", "declare_x", "ünïcode", "a:b"])
line = st.one_of(
    st.tuples(name, quoted).map(lambda t: "export %s=%s" % t), st.tuples(name, quoted).map(lambda t: "export %s=%s" % t), st.tuples(name, quoted).map(lambda t: "export %s=%s" % t),
    st.tuples(name, quoted).map(lambda t: "%s=%s" % t), st.tuples(name, quoted).map(lambda t: "declare -x %s=%s" % t), name.map(lambda n: "export " + n), name.map(lambda n: "unset -v " + n), name.map(lambda n: "export -n " + n),
    st.tuples(name, quoted).map(lambda t: "%s+=%s" % t), st.sampled_from(["declare -ix XI=41+1", "declare -lx XL=LOWER", "declare -ux XU=upper", "declare -x XARR=(a 'b c')", "export XARR2=(1 2)", "declare -A XM=([k]=v)", "export XM", "declare -x XNOVALUE"]),
    st.tuples(quoted, st.sampled_from(["XR1", "XR2"])).map(lambda t: "[ -v %s ] || declare -rx %s=%s" % (t[1], t[1], t[0])),
    st.tuples(fname, st.sampled_from(bodies)).map(lambda t: "%s () {\n%s\n}" % t), st.tuples(fname, st.sampled_from(bodies)).map(lambda t: "%s () {\n%s\n}" % t), st.tuples(st.sampled_from(["f", "g"]), st.sampled_from(bodies[:3])).map(lambda t: "%s () (\n%s\n)\nexport -f %s" % (t[0], t[1], t[0])),
    st.sampled_from(["echo to stdout", "echo to stderr >&2", "false", "true", ":", "# comment", "export CHANGED=after", "unset UNSET", "export -n GIVEN", "cd /", "set -u", "set -f", "set -o noclobber", "shopt -s extglob", "IFS=:", "IFS=/", "IFS=", "alias declare=echo", "set -a", "shopt -s nullglob",
                     "trap 'echo bye' EXIT", "read x", "local_only=1", "set -- a b c", "LC_ALL=C", "export LANG=C", "set -o posix", "PATH=$PATH:/x y", "export PATH", "export HOME=/tmp"]))
script = gen.fixed(name=st.sampled_from(["s.sh", "a b.sh", "it's.sh", "q\"$x`.sh", "100%.sh", "[a]*?.sh", "é.sh", "~x", "-n", "a;b&c.sh", "\\n.sh"]), lines=st.lists(line, min_size=1, max_size=7))


# What a login shell reads by itself
profile = st.lists(st.tuples(st.sampled_from([".bash_profile", ".profile", ".bash_login", ".bashrc"]), st.lists(st.one_of(
    st.tuples(st.sampled_from(["XP1", "XP2", "XA"]), quoted).map(lambda t: "export %s=%s" % t), st.tuples(fname, st.sampled_from(bodies)).map(lambda t: "%s () {\n%s\n}" % t),
    st.sampled_from([". ~/.bashrc", "XP1=local", "export XP2", "declare -rx XR1=1", "unset GIVEN", "echo welcome"])), min_size=1, max_size=4)).map(list), min_size=1, max_size=2)


class C20(Check):
    id = "C20"
    worker = "w20"
    quick = 60
    rule = ("Scripts of exports, assignments, unexported and valueless variables, arrays, attributes, readonly variables, functions with here-documents, unbalanced quotes and text that looks like declarations, exported functions, options and IFS, with any values and script paths; "
            "0 to 3 of them in 1 to 3 calls, with or without start-up files of bash, sometimes with more by a pattern, in several kinds of environments. Oracle: the environment bash gives a program run at the end of the same scripts, over what was exported before. Non-trivial: a value is not alphanumeric, or a function is defined.")

    def strategy(self):
        call = gen.fixed(scripts=st.one_of(st.lists(script, min_size=1, max_size=3), st.lists(script, max_size=3)), how=st.sampled_from(["plus", "await", "run"]), raw=st.sampled_from(["plain", "percent", "R"]), glob=st.sampled_from([0, 0, 0, 2, 3]))
        return gen.fixed(manager=gen.managers, env=st.sampled_from(["default", "own", "derived", "interactive"]), scope=st.booleans(), profile=st.one_of(st.just([]), profile), calls=st.lists(call, min_size=1, max_size=3))

    def judge(self, case, r):
        if r["problems"]: return "; ".join(r["problems"])

    def nontrivial(self, case, r):
        return any("()" in l or not l.replace("export ", "").replace("=", "").replace("'", "").isalnum() for c in case["calls"] for s in c["scripts"] for l in s["lines"])

    def classify(self, case, r):
        ls = [l for c in case["calls"] for s in c["scripts"] for l in s["lines"]]
        return [case["manager"], "env " + case["env"], "calls %d" % len(case["calls"])] + (["start-up files"] if case.get("profile") else []) + (["no script"] if any(not c["scripts"] and not c["glob"] for c in case["calls"]) else []) + (["function"] if any("() {" in l for l in ls) else []) + (["here-document"] if any("<<" in l for l in ls) else []) + sorted(set(c["how"] for c in case["calls"]))


CHECK = C20()
