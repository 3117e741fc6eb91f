"""Replays harness inputs on the real code.  Run by /opt/venv/bin/python.

stdin: one JSON job per line {"fn":..., "args":..., "inputs":..., "timeout":...}
stdout: one JSON result per line."""
import importlib
import json
import os
import random
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def main():
    warnings.simplefilter("ignore")
    propmod = sys.argv[1]
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    sys.dont_write_bytecode = True
    cbuf = os.environ.get("SYMX_CBUFFER") == "1"
    if not cbuf:
        sys.modules["tonnikala.runtime._buffer"] = None
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from symx import cenv
    mod = importlib.import_module(propmod)

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    for line in sys.stdin:
        job = json.loads(line)
        env = cenv.ConcEnv(job["inputs"], random.Random(job.get("seed", 1)))
        res = {"status": "ok", "msg": "", "detail": ""}
        signal.alarm(int(job.get("timeout", 10)))
        try:
            getattr(mod, job["fn"])(env, **job.get("args", {}))
        except cenv.Assume:
            res["status"] = "assume"
        except cenv.Fail as e:
            res.update(status="fail", msg=e.msg, detail=e.detail)
        except Timeout:
            res["status"] = "timeout"
        except RecursionError:
            res.update(status="exc", msg="RecursionError")
        except Exception as e:
            res.update(status="exc", msg=type(e).__name__, detail=traceback.format_exc()[-2500:])
        finally:
            signal.alarm(0)
        res["obs"] = [[k, env.ev(v)] for k, v in env.obs]
        res["known"] = env.known_ids
        res["checks"] = env.checks
        if "seed" in job:
            res["inputs"] = env.given
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
