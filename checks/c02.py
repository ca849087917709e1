import base64
from hypothesis import strategies as st
from harness.core import Check
from harness import gen

VALUES = ["0", "-17", "3.5", "True", "False", "(1, 2)", "[1, 'a']", "{'a': 1}", "pathlib.Path('/x y')", "''.join", "10**40", "frozenset()", "Ellipsis", "b'x'.hex", "1j"]
VALUES = [v for v in VALUES if v not in ("''.join", "b'x'.hex")]
SINGLE = ["corofn"]
KINDS = ["list", "tuple", "iter", "iterator", "iterable", "map", "gen", "agen", "aiterator", "genfn", "agenfn", "listfn", "method", "amethod", "corofn"]
ASYNC = ["agen", "aiterator", "agenfn", "amethod", "corofn"]


def item_bytes(spec):
    k = spec[0]
    if k == "s": return gen.piece_bytes(spec[1], "utf-8")
    if k == "b": return gen.piece_bytes(spec[1], "latin-1")
    if k == "n": return None
    if k == "v": return str(eval(spec[1], {"pathlib": __import__("pathlib")})).encode()
    if k == "c": return item_bytes(spec[1])


class C02(Check):
    id = "C02"
    worker = "w02"
    quick = 90
    rule = ("A sequence of items (strings with repeated blocks up to several 100 kB, bytes of any value, other objects, None, coroutines) from one of 15 kinds of producers (list, iterators, "
            "generators, asynchronous ones, functions, methods, coroutine functions), with pauses, is piped into a probe command that stores what it reads, slowly or late, directly or through cat or "
            "a Python function. Oracle: items' bytes each followed by one newline, and each item pulled once in order. Non-trivial: an item that is not a short string, or a pause, or over 64 kB in all.")

    def strategy(self):
        text = gen.pieces("ab \té€😀\r\x0b\x85\u2028\0", max_rep=60000, max_pieces=4).map(lambda p: ["s", p])
        short = st.text(alphabet="abc é\t", max_size=8).map(lambda s: ["s", [s]])
        raw = gen.pieces("".join(map(chr, range(256))), max_rep=20000, max_pieces=4).map(lambda p: ["b", p])
        plain = st.one_of(short, short, text, raw, st.sampled_from(VALUES).map(lambda v: ["v", v]))
        some = st.one_of(plain, plain, st.just(["n"]))

        def rest(kind):
            item = some
            if kind not in ASYNC:
                item = st.one_of(some, some, some, st.tuples(st.just("c"), some, st.sampled_from([0, 0, 1, 5])).map(list))
            # cat and functions are line based and UTF-8: only for items without bytes
            n = (1, 1) if kind in SINGLE else (0, 9)
            many = st.lists(item, min_size=n[0], max_size=n[1])
            if kind not in SINGLE:
                many = st.one_of(many, many, many, st.tuples(short, st.integers(20, 400)).map(lambda t: [t[0]] * t[1]))
            return gen.fixed(kind=st.just(kind), manager=gen.managers, items=many, via=st.sampled_from(["", "", "", "cat", "fn"]), us=st.sampled_from([0, 0, 0, 20, 200]),
                             wait=st.sampled_from([0, 0, 0, 10, 40]), delays=st.lists(st.sampled_from([0, 0, 1, 5, 20]), max_size=4),
                             mode=st.sampled_from(["plus", "await", "list"])).map(self.limit)
        return st.sampled_from(KINDS).flatmap(rest)

    @staticmethod
    def limit(c):
        if c["via"] == "fn" and any("b" in (i[0], i[0] == "c" and i[1][0]) for i in c["items"]):
            c["via"] = "cat"
        n = sum(len(item_bytes(i) or b"") for i in c["items"])
        if n > 400000:
            c["us"] = 0
        while n > 1500000:
            n -= len(item_bytes(c["items"].pop(0)) or b"")
            if c["kind"] in SINGLE and not c["items"]:
                c["items"] = [["s", ["x"]]]
        return c

    def judge(self, case, r):
        want = b"".join(b + b"\n" for b in map(item_bytes, case["items"]) if b is not None)
        if r["b64"] is None:
            return "the command never ran"
        d = gen.diff_text(base64.b64decode(r["b64"]), want, "standard input of the command")
        if d:
            return d
        if r["pulls"] != list(range(len(case["items"]))):
            return "items were pulled as %s" % gen.short(r["pulls"])
        if r["done"] != ["done"]:
            return "the command's output was %r" % (r["done"],)

    def nontrivial(self, case, r):
        return any(i[0] != "s" or len(item_bytes(i)) > 20 for i in case["items"]) or any(case["delays"]) or case["us"] > 0 or case["wait"] > 0 or len(case["items"]) > 9

    def classify(self, case, r):
        n = sum(len(item_bytes(i) or b"") for i in case["items"])
        return [case["kind"], case["manager"], "via " + (case["via"] or "nothing")] + (["over 64k"] if n > 65536 else []) + sorted(set("item " + i[0] for i in case["items"])) + (
            ["no items"] if not case["items"] else []) + (["one item over 64k"] if any(len(item_bytes(i) or b"") > 65536 for i in case["items"]) else [])


CHECK = C02()
