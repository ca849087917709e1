"""tools/mutate.py OUT: systematic small changes of pieshell, to measure the checks' sensitivity (not part of any check).
Writes OUT/NNNN.diff and OUT/list.json.  tools/mutants.sh tests them."""
import ast, os, sys, json, difflib

REPO = "/repo"
out = sys.argv[1]
SKIP = ("version.py", "jedi_completion.py", "patch_jedi.py", "jsonutils.py", "log.py")
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines: starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n): return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    def rep(n, new):
        s, e = span(n)
        return (n.lineno, (b[:s] + new.encode() + b[e:]).decode())
    res = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)):
            t = text(n.test)
            res.append(rep(n.test, "not (%s)" % t) + ("negate",))
            if isinstance(n, ast.If):
                res.append(rep(n.test, "True") + ("true",))
                res.append(rep(n.test, "False") + ("false",))
        elif isinstance(n, ast.IfExp):
            res.append(rep(n, text(n.body)) + ("body",))
            res.append(rep(n, text(n.orelse)) + ("else",))
        elif isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [text(x) for j, x in enumerate(n.values) if j != i]
                res.append(rep(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(rest)) + ("drop operand",))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                res.append(rep(n, "%s %s %s" % (text(n.left), op, text(n.comparators[0]))) + ("compare",))
        elif isinstance(n, ast.Constant):
            if n.value is True: res.append(rep(n, "False") + ("const",))
            elif n.value is False: res.append(rep(n, "True") + ("const",))
            elif isinstance(n.value, int): res.append(rep(n, str(n.value + 1)) + ("const",))
        elif isinstance(n, ast.Try) and n.finalbody:
            pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith("log."): continue
            res.append(rep(n, "pass") + ("drop statement",))
        elif isinstance(n, ast.Return) and n.value is not None:
            res.append(rep(n, "return") + ("return nothing",))
        elif isinstance(n, (ast.Continue, ast.Break)):
            res.append(rep(n, "pass") + ("drop",))
        elif isinstance(n, ast.Call):
            for a in n.args:
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("deepcopy", "copy"): res.append(rep(a, text(a.args[0]) if a.args else text(a.func.value)) + ("no copy",))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.Add)) and not isinstance(n.left, ast.Constant):
            res.append(rep(n, text(n.left)) + ("left operand",))
    return res


os.makedirs(out, exist_ok=True)
k, table = 0, []
for d, ds, fs in sorted(os.walk(REPO + "/pieshell")):
    for f in sorted(fs):
        if not f.endswith(".py") or f in SKIP: continue
        p = os.path.relpath(d + "/" + f, REPO)
        src = open(d + "/" + f).read()
        blame = os.popen("git -C %s blame -s -l %s" % (REPO, p)).read().split("\n")
        for line, new, kind in sorted(mutants(src)):
            try: ast.parse(new)
            except SyntaxError: continue
            if new == src: continue
            diff = "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + p, "b/" + p))
            name = "%04d" % k
            open("%s/%s.diff" % (out, name), "w").write(diff)
            table.append([name, p, line, kind, blame[line - 1][:1] == "^", lines[line - 1].strip() if (lines := src.split("\n")) else ""])
            k += 1
json.dump(table, open(out + "/list.json", "w"), indent=0)
print(k, "mutants")
