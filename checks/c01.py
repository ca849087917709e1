import base64
from hypothesis import strategies as st
from harness.core import Check
from harness import gen


class C01(Check):
    id = "C01"
    worker = "w01"
    quick = 110
    rule = ("A probe command writes a generated byte stream (text pieces and repeated blocks, up to several 10 kB, cut at generated places with generated pauses, optionally "
            "with noise on stderr) and the pipeline is read with one of iter/next, async for, RunningPipeline iteration, iterbytes, bytes(), str(), optionally slowly. Oracle: "
            "the stream itself, split at newlines for line modes. Non-trivial: more than one write, or data over 1024 bytes, or unterminated, or with empty lines.")

    def strategy(self):
        text = gen.pieces("ab \té€😀\r\x0b\x0c\x85\u2028\x1c\0", max_rep=9000)
        raw = gen.pieces("".join(map(chr, range(256))), max_rep=9000)

        def rest(mode):
            return gen.fixed(mode=st.just(mode), manager=gen.managers, data=raw if mode in ("bytes", "iterbytes") else text,
                             chunk=st.sampled_from([0, 0, 0, 1, 7, 1023, 1024, 1025, 4096, 65536]),
                             us=st.sampled_from([0, 0, 0, 50, 300]),
                             cuts=st.lists(st.integers(0, 3000), max_size=5), delays=st.lists(st.sampled_from([0, 1, 5, 20]), max_size=5),
                             noise=st.booleans(), slow=st.lists(st.sampled_from([0, 1, 5, 15]), max_size=6)).map(self.limit)
        return st.sampled_from(["iter", "next", "aiter", "runaiter", "iterbytes", "bytes", "str"]).flatmap(rest)

    @staticmethod
    def limit(c):
        n = len(gen.piece_bytes(c["data"], "utf-8"))
        if c["chunk"] and n // c["chunk"] > 400:
            c["us"] = 0
            c["chunk"] = max(c["chunk"], n // 2000 + 1)
        elif c["chunk"] and n // c["chunk"] * (c["us"] + 60) > 300000:
            c["us"] = 0
        return c

    def judge(self, case, r):
        m = case["mode"]
        data = gen.piece_bytes(case["data"], "latin-1" if m in ("bytes", "iterbytes") else "utf-8")
        if "b64" in r:
            want_type = ["str"] if m == "str" else ["bytes"]
            if r["types"] not in (want_type, []):
                return "%s() gave values of type %s" % (m, r["types"])
            return gen.diff_text(base64.b64decode(r["b64"]), data, m)
        if r["types"] not in (["str"], []):
            return "iteration gave values of type %s" % r["types"]
        return gen.diff_text(r["lines"], [l.decode("utf-8") for l in gen.lines_of(data)], "list of lines")

    def nontrivial(self, case, r):
        data = gen.piece_bytes(case["data"], "utf-8")
        return len(case["cuts"]) > 0 or len(data) > 1024 or (data != b"" and not data.endswith(b"\n")) or b"\n\n" in data

    def classify(self, case, r):
        data = gen.piece_bytes(case["data"], "utf-8")
        return [case["mode"], case["manager"], "size>1024" if len(data) > 1024 else "size<=1024"] + (["size>64k"] if len(data) > 65536 else []) + (
            ["unterminated"] if data and not data.endswith(b"\n") else []) + (["empty"] if not data else []) + (["empty lines"] if b"\n\n" in data else []) + (
            ["slow reader"] if case["slow"] else []) + (["multibyte"] if any(b > 127 for b in data) else [])


CHECK = C01()
