"""Shared Hypothesis strategies.  All cases are JSON values."""
from hypothesis import strategies as st

managers = st.sampled_from(["signalfd", "signalfd", "asyncio"])

# Text pieces: short strings, or [string, repetitions] for bulk.
_alpha = "ab c\tZ09%$'\"\\*?[]~é€😀\u2028\x85\x0b\r,:{}-_="
line_text = st.text(alphabet=_alpha, max_size=12)


def pieces(alphabet, max_rep=3000, max_pieces=8):
    s = st.text(alphabet=alphabet, max_size=10)
    item = st.one_of(s, s, s, st.just("\n"), st.just("\n\n"),
                     st.tuples(st.text(alphabet=alphabet, min_size=1, max_size=6), st.integers(1, max_rep)).map(list))
    return st.integers(0, 9).flatmap(lambda k: st.just([]) if k == 9 else st.lists(item, min_size=1, max_size=max_pieces))


def piece_bytes(spec, enc="utf-8"):
    return b"".join(p.encode(enc) if isinstance(p, str) else p[0].encode(enc) * p[1] for p in spec)


def lines_of(data):
    """The lines of a byte string, as a reader of lines sees them."""
    l = data.split(b"\n")
    if l[-1] == b"":
        l.pop()
    return l


def safe_name(min_size=1):
    return st.text(alphabet="abcdefghijklmnopqrstuvwxyz", min_size=min_size, max_size=5)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n // 2] + " ... " + r[-n // 2:] + " (%d long)" % len(r)


def diff_text(got, want, what="value"):
    if got == want:
        return None
    if isinstance(got, (bytes, str, list)) and type(got) == type(want):
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return "%s differs at index %d: got %s (length %d), expected %s (length %d)" % (
            what, i, short(got[max(0, i - 5):i + 20]), len(got), short(want[max(0, i - 5):i + 20]), len(want))
    return "%s is %s, expected %s" % (what, short(got), short(want))
