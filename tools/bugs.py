"""Writes /verif/seeded/<id>/ from the descriptions in tools/bugs.d/*.py (each sets BUGS, a list of dicts).
usage: python3 tools/bugs.py [ID...]"""
import sys, os, json, difflib, subprocess, glob

HERE = os.path.dirname(os.path.abspath(__file__))
DEMO = """#!/bin/bash
# exit 0: the property holds; otherwise it is broken
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir "$t/home" "$t/tmp" "$t/work"
cd "$t/work" || exit 3
export HOME="$t/home" TMPDIR="$t/tmp" PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8 TERM=dumb
ulimit -n 256
%(pre)stimeout -k 5 100 /opt/venv/bin/python -W ignore "$here/demo.py"%(args)s </dev/null
"""


def head(path):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + path], check=True, stdout=subprocess.PIPE).stdout.decode()


def main():
    bugs = []
    for f in sorted(glob.glob(HERE + "/bugs.d/*.py")):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        bugs += ns["BUGS"]
    ids = [b["id"] for b in bugs]
    assert len(set(ids)) == len(ids), ids
    for b in bugs:
        if sys.argv[1:] and b["id"] not in sys.argv[1:]: continue
        d = os.path.dirname(HERE) + "/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        files = {}
        for path, old, new in b["edits"]:
            files.setdefault(path, [head(path), None])
            text = files[path][1] or files[path][0]
            if text.count(old) != 1:
                print("%s: %r occurs %d times in %s" % (b["id"], old, text.count(old), path))
                break
            files[path][1] = text.replace(old, new)
        else:
            with open(d + "/patch.diff", "w") as f:
                for path, (old, new) in files.items():
                    f.write("diff --git a/%s b/%s\n" % (path, path))
                    f.writelines(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path))
            with open(d + "/demo.sh", "w") as f:
                f.write(b.get("sh") or DEMO % {"pre": b.get("pre", ""), "args": b.get("args", "")})
            if "demo" in b:
                with open(d + "/demo.py", "w") as f: f.write(b["demo"].lstrip("\n"))
            with open(d + "/meta.json", "w") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, f, indent=1)
                f.write("\n")
            r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
            print(b["id"], "written" if r.returncode == 0 else "DOES NOT APPLY")


main()
