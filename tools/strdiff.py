"""Compares the symbolic strings (symx/sstr.py) and the regular expressions (symx/sre.py) with the real ones: every path of random operations, realised."""
import os, random, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import sstr, core, sre, charset
from symx.charset import CS
from symx.sstr import mk, deep_realize, realize

for n in ("space", "alnum", "re_s", "re_w", "re_d", "lowerchanges", "linebreak"):
    charset.named(n)

OPS = {
    "split": lambda r, a: [a(0, 1, none=True), r.choice([-1, 0, 1, 2])],
    "rsplit": lambda r, a: [a(0, 1, none=True), r.choice([-1, 0, 1, 2])],
    "strip": lambda r, a: [a(0, 2, none=True)], "lstrip": lambda r, a: [a(0, 2, none=True)], "rstrip": lambda r, a: [a(0, 2, none=True)],
    "find": lambda r, a: [a(0, 2)] + r.choice([[], [1], [1, 3], [-2], [None, -1]]), "rfind": lambda r, a: [a(0, 2)] + r.choice([[], [1], [1, 3], [-2], [None, -1]]),
    "count": lambda r, a: [a(0, 2)], "startswith": lambda r, a: [r.choice([a(0, 2), (a(1, 1), a(1, 2))])] + r.choice([[], [1], [-1]]),
    "endswith": lambda r, a: [r.choice([a(0, 2), (a(1, 1), a(1, 2))])],
    "replace": lambda r, a: [a(0, 2), a(0, 2)] + r.choice([[], [1]]), "splitlines": lambda r, a: [r.choice([True, False])],
    "partition": lambda r, a: [a(1, 2)], "rpartition": lambda r, a: [a(1, 2)], "join": lambda r, a: [[a(0, 2), a(0, 1), a(0, 2)]],
    "lower": lambda r, a: [], "upper": lambda r, a: [], "casefold": lambda r, a: [], "removeprefix": lambda r, a: [a(0, 2)], "removesuffix": lambda r, a: [a(0, 2)],
    "isspace": lambda r, a: [], "isalnum": lambda r, a: [], "isalpha": lambda r, a: [], "isdigit": lambda r, a: [], "isdecimal": lambda r, a: [],
    "isnumeric": lambda r, a: [], "isascii": lambda r, a: [], "isidentifier": lambda r, a: [], "isprintable": lambda r, a: [],
    "ljust": lambda r, a: [r.randint(0, 5)], "rjust": lambda r, a: [r.randint(0, 5)], "title": lambda r, a: [], "capitalize": lambda r, a: [], "swapcase": lambda r, a: [],
    "expandtabs": lambda r, a: [4], "zfill": lambda r, a: [4], "center": lambda r, a: [5], "index": lambda r, a: [a(0, 2)], "rindex": lambda r, a: [a(0, 2)],
    "__getitem__": lambda r, a: [r.choice([0, -1, 1, slice(1, None), slice(None, -1), slice(None, None, -1), slice(-2, None), slice(0, 3, 2)])],
    "__contains__": lambda r, a: [a(0, 2)], "__add__": lambda r, a: [a(0, 2)], "__mul__": lambda r, a: [r.randint(-1, 2)],
    "__eq__": lambda r, a: [a(0, 3)], "__lt__": lambda r, a: [a(0, 3)], "__ge__": lambda r, a: [a(0, 3)], "__ne__": lambda r, a: [a(0, 3)], "__mod__": lambda r, a: [(a(0, 1),)],
}
PATTERNS = [r"\s+", r"a|ab", r"(a)(b)?", r"[^a-z ]*", r"^\s*b", r"b\s*$", r"\bA", r"(?i)ab", r"a*?b", r"(?:a|b){1,2}", r"(?=a)\w", r"(?<!a)b", r"\d|\.", r"(\w+)\s*\.\s*(\w+)", r".", r"(?s).", r"(?m)^a", r"a$", r"([ab])\1", r"&(?!a)", r"\W"]
REOPS = ["match", "search", "fullmatch", "findall", "split", "sub", "finditer"]


def outcome(fn):
    try:
        return fn()
    except (core.EngineError, core.PathAbort, core.SymxStop):
        raise
    except Exception as e:
        return type(e).__name__


def tup(m):
    return m if not hasattr(m, "span") else (m.span(), m.group(0), [m.group(i) for i in range(1, len(m.groups()) + 1)])


def main(n, alpha, seed):
    rng = random.Random(seed)
    dom = CS.of([ord(c) for c in alpha])
    bad = paths = refused = 0

    def arg(lo, hi, none=False):
        if none and rng.random() < .5:
            return None
        return "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))
    for i in range(n):
        k = rng.randint(1, 4)
        fix = [rng.choice(alpha) if rng.random() < .3 else None for _ in range(k)]
        if rng.random() < .75:
            name = rng.choice(sorted(OPS))
            args = OPS[name](rng, arg)
            what = (name, args)

            def op(s, symbolic):
                return getattr(type(s), name)(s, *args)
        else:
            name, pat = rng.choice(REOPS), rng.choice(PATTERNS)
            what = (name, pat)

            def op(s, symbolic):
                p = sre.SPattern(re.compile(pat)) if symbolic else re.compile(pat)
                a = ["<\\g<0>>", s] if name == "sub" else [s]
                r = getattr(p, name)(*a)
                return [tup(m) for m in r] if name == "finditer" else tup(r)
        ex = core.Explorer()

        def path(ex):
            nonlocal bad, paths, refused
            s = mk([ord(c) if c else ex.new_char(dom) for c in fix])
            try:
                r = outcome(lambda: op(s, True))
            except core.EngineError as e:
                refused += 1
                return
            real = realize(s)
            r = deep_realize(r)
            if hasattr(r, "f"):
                return
            want = outcome(lambda: op(real, False))
            paths += 1
            if r != want or type(r) is not type(want) and not isinstance(r, str):
                bad += 1
                if bad < 20:
                    print("DIFFERENT", what, repr(real), "model", repr(r), "real", repr(want))
        ex.explore(path)
    print("%d operations, %d paths, %d differences, %d refused" % (n, paths, bad, refused))
    return bad


if __name__ == "__main__":
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 500
    bad = 0
    for i, al in enumerate(["ab ", "aA.\n", "\t b\r\n", "%s{}1", "\xdf\u0130\u1e9ei", "\x1c\x85\u2028a", "&a;#", "01_\u0661\xb2"]):
        bad += main(N, al, i + (int(sys.argv[2]) if len(sys.argv) > 2 else 1))
    sys.exit(bool(bad))
