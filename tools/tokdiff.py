"""Compares symx/pytok.py with the real tokenizer on random concrete texts."""
import io, os, random, sys, tokenize
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import pytok
from symx.core import EngineError


def run(fn, s, full=True):
    out = []
    it = iter(io.StringIO(s))
    try:
        for t in fn(it.__next__):
            out.append((t.type, t.string, t.end[1]) if t.type not in (tokenize.ENDMARKER, tokenize.DEDENT) else t.type)
    except (tokenize.TokenError, SyntaxError, UnicodeError) as e:
        out.append("error")
    except (EngineError, SystemError):
        return None
    return out


def main(n, alpha, seed=1, maxlen=9):
    rng = random.Random(seed)
    bad = skipped = 0
    for i in range(n):
        s = "".join(rng.choice(alpha) for _ in range(rng.randint(0, maxlen)))
        a, b = run(tokenize.generate_tokens, s), run(pytok.generate_tokens, s)
        if a is None or b is None:
            skipped += 1
        elif a != b:
            bad += 1
            if bad < 12:
                print(repr(s), "\n  real ", a, "\n  model", b)
    print(alpha.__repr__(), n, "texts,", bad, "differences", skipped, "skipped")
    return bad


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 20000
    for al in ["a1.({[)]}\"'\\#\n f", "f'\"{}a \n\\", "rbufa'\"\\\n{", "a\n\t #\\()", "1_.eja+-", "0178xobfB_.ej9", "0_1.ej", "\xe9a\xb7\u20ac1 ", "=<>!:*/.-|&a{}[", "f'{}a!:=r\"", "Rf'{N\\}a", "f'\"{})]", "f'{a:\n}", "a \n(\r\0", "a\n '\ud800("]:
        main(N, al, int(sys.argv[2]) if len(sys.argv) > 2 else 1, int(sys.argv[3]) if len(sys.argv) > 3 else 9)
