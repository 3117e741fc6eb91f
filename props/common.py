"""Shared by the harnesses.  Instrumented with them in a symbolic run, plain Python in a replay."""
from symx.charset import CS, UNICODE, ASCII, named

ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}


def esc(s):
    """Reference HTML escape, one character at a time."""
    out = []
    for ch in s:
        out.append(ESC.get(ch, ch))
    return "".join(out)


def load(env, src, translatable=False, syntax="tonnikala", filename="<string>"):
    L = env.mod("tonnikala.loader")
    return L.Loader(translatable=translatable, syntax=syntax).load_string(src, filename)


def render(env, src, ctx, **kw):
    return load(env, src, **kw).render(ctx)


def plain(s):
    """The characters of a rendered string, as a plain string."""
    return "".join([c for c in s])


class TNull(object):
    pass
