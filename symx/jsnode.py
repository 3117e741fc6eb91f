"""A node process that parses JavaScript (acorn) and, for replays, runs scenarios.  Never instrumented."""
import atexit
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
_proc = {}
_trees = {}
CODES = {}      # what the JavaScript target makes of a source: the same on every path


def _node():
    p = _proc.get(os.getpid())
    if p is None:
        env = dict(os.environ, NODE_PATH="/opt/veriftools/node/node_modules")
        p = _proc[os.getpid()] = subprocess.Popen(["node", os.path.join(HERE, "jsdrive.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                  text=True, env=env)
        atexit.register(p.kill)
    return p


def ask(**msg):
    p = _node()
    p.stdin.write(json.dumps(msg) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("node ended")
    return json.loads(line)


def parse(src):
    """The syntax tree of a program (cached; not to be modified)."""
    t = _trees.get(src)
    if t is None:
        r = ask(op="parse", src=src)
        if "error" in r:
            t = ("error", r["error"])
        else:
            t = ("ok", r["tree"])
        _trees[src] = t
    return t


def run(sources, scenario, args):
    """Programs run in order, then the function expression `scenario` on the arguments."""
    return ask(op="run", sources=sources, scenario=scenario, args=args)


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()
