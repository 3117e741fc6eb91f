"""Symbolic environment handed to a harness: creates symbolic inputs, collects obligations."""
import random
import z3

from . import core, sstr, instr
from .core import (Formula, EngineError, PathAbort, Inconclusive, StepLimit, SymxStop, SC, as_formula)
from .charset import CS, UNICODE
from .sstr import SNum, chars, mk, isinstance_sym, eq_formula, realize, deep_realize

# alphabet used when a case cannot be carried with full Unicode domains
NARROW = CS.of(map(ord, "<>&\"'$ {}()[].a_B1\n;=/%\\:-#\xe9"))


class CheckStop(SymxStop):
    """The path ends here: an assertion is false on every input of the path."""


class SymEnv(object):
    symbolic = True
    __sx_cls__ = True

    def __init__(self, case, private, deadline=None, seed=1, narrow=False, max_paths=None, max_steps=400000, max_fail=4,
                 listed=()):
        self.case = case
        self.private = private
        self.narrow = narrow
        self.listed = set(listed)
        self.ex = core.Explorer(deadline=deadline, max_paths=max_paths, max_steps=max_steps)
        self.rng = random.Random("%s/%s" % (seed, case["name"]))
        self.max_fail = max_fail
        # results
        self.obligations = 0
        self.discharged = 0
        self.failures = []          # dict(inputs, msg, known)
        self.known_hits = {}
        self.reached = {}
        self.samples = []           # (inputs, observations)
        self.paths_with_checks = 0
        self.axioms = {}
        self.pcs = []
        self.pcs_ok = True
        self.engine_notes = []

    # ------------------------------------------------------------- loading
    def mod(self, name):
        return self.private.load(name)

    # ------------------------------------------------------------- inputs
    def _begin(self):
        self.inputs = []            # (name, kind, data)
        self.names = set()
        self.obs = []
        self.todo = []
        self.known_ids = []
        self.nchecks = 0

    def _name(self, name):
        if name in self.names:
            n = 2
            while "%s~%d" % (name, n) in self.names:
                n += 1
            name = "%s~%d" % (name, n)
        self.names.add(name)
        return name

    def _char(self, name, dom):
        if self.narrow:
            nd = dom.inter(NARROW)
            if nd:
                dom = nd
        ex = self.ex
        key = "%s@%d" % (name, len(dom)) if len(dom) else name
        sc = SC(z3.BitVec(key, core.WIDTH), dom, key)
        ex.vars.append(sc)
        ex.narrow[key] = dom
        old = self.axioms.get(key)
        if old is None:
            ax = core.iv_formula(sc.e, dom.iv)
            if dom.iv[-1][1] == core.MAXCP:
                # iv_formula takes for granted that there is nothing beyond
                ax = z3.And(ax, z3.ULE(sc.e, core.bvv(core.MAXCP)))
            self.axioms[key] = (dom, ax)
        elif old[0] is dom or old[0].iv == dom.iv:
            ax = old[1]
        else:
            raise EngineError("variable %s with two domains" % key)
        ex._assume_raw(ax, None)
        return sc

    def str(self, name, n, dom=UNICODE):
        """A string of exactly n characters from dom (or from the per-position list dom)."""
        name = self._name(name)
        cs = []
        for i in range(n):
            d = dom[i] if isinstance(dom, (list, tuple)) else dom
            if len(d) == 1:
                cs.append(d.first())
            else:
                cs.append(self._char("%s.%d" % (name, i), d))
        cs = tuple(cs)
        self.inputs.append((name, "str", cs))
        return mk(cs)

    def utf8(self, text):
        """The UTF-8 encoding of a text."""
        from .sstr import SBytes
        b = SBytes()
        b.text = text
        return b

    def strs(self, name, lo, hi, dom=UNICODE):
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        return self.str(name, n, dom)

    def choice(self, name, options):
        options = list(options)
        name = self._name(name)
        if len(options) == 1:
            self.inputs.append((name, "idx", 0))
            return options[0]
        narrow, self.narrow = self.narrow, False
        sc = self._char(name, CS.rng(0, len(options) - 1))
        self.narrow = narrow
        v = self.ex.realize_char(sc)
        self.inputs.append((name, "idx", v))
        return options[v]

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        self.ex.vars.append((name, v))
        ax = z3.And(v >= lo, v <= hi)
        self.axioms.setdefault(name, ((lo, hi), ax))
        self.ex._assume_raw(ax, None)
        self.inputs.append((name, "int", v))
        return SNum(v)

    def concrete(self, v):
        """One concrete value of v for each feasible one (the explorer forks)."""
        return deep_realize(v)

    # ------------------------------------------------------------- claims
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            self.ex.stop(PathAbort("assume"))
        if isinstance(cond, SNum):
            raise EngineError("assume(SNum)")
        self.ex.assume(cond)

    def known(self, kid, cond=True):
        """Failures on this path are the recorded finding kid when cond holds."""
        if cond:
            if kid not in self.known_ids:
                self.known_ids.append(kid)
            return True
        return False

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, key, val):
        self.obs.append((key, val))

    def check(self, cond, msg):
        """cond must hold on every input of the path (bool, or Formula)."""
        self.nchecks += 1
        if isinstance(cond, Formula):
            cond = cond.f
        if not isinstance(cond, (bool, z3.BoolRef)):
            cond = bool(cond)
        self.todo.append((cond, msg))
        if cond is False:
            raise CheckStop(msg)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b, msg):
        """a and b are equal (structurally, with the same string content) on every input."""
        self.obs.append((msg, a))
        f = self.eq_f(a, b)
        self.nchecks += 1
        self.todo.append((f, msg, a, b))
        if f is False:
            raise CheckStop(msg)

    def eq_f(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return eq_formula(chars(a), chars(b))
        if isinstance(a, SNum) or isinstance(b, SNum):
            if isinstance(a, (SNum, int)) and isinstance(b, (SNum, int)):
                ea = a.e if isinstance(a, SNum) else z3.IntVal(int(a))
                eb = b.e if isinstance(b, SNum) else z3.IntVal(int(b))
                return ea == eb
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            fs = [self.eq_f(x, y) for x, y in zip(a, b)]
            return self._and(fs)
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            fs = [self.eq_f(x, y) for x, y in zip(list(a.items()), list(b.items()))]
            return self._and(fs)
        if type(a) is bool or type(b) is bool or a is None or b is None:
            return a is b
        return bool(a == b)

    @staticmethod
    def _and(fs):
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return False
        if not fs:
            return True
        return fs[0] if len(fs) == 1 else z3.And(fs)

    # ------------------------------------------------------------- evaluation
    def _ev_char(self, m, c):
        if type(c) is int:
            return c
        return m.eval(c.e, model_completion=True).as_long()

    def eval_inputs(self, m):
        out = {}
        for name, kind, d in self.inputs:
            if kind == "str":
                out[name] = [self._ev_char(m, c) for c in d]
            elif kind == "idx":
                out[name] = d
            else:
                out[name] = m.eval(d, model_completion=True).as_long()
        return out

    def ev(self, m, v):
        if isinstance(v, str):
            return "".join([chr(self._ev_char(m, c)) for c in chars(v)])
        if isinstance(v, SNum):
            r = m.eval(v.e, model_completion=True)
            return r.as_long() if z3.is_int_value(r) else str(r)
        if isinstance(v, (list, tuple)):
            return [self.ev(m, x) for x in v]
        if isinstance(v, dict):
            return [[self.ev(m, k), self.ev(m, x)] for k, x in v.items()]
        if v is None or isinstance(v, (bool, int)):
            return v
        return str(type(v).__name__)

    def random_model(self):
        """A model of the path condition, varied when only unary constraints exist."""
        ex = self.ex
        ex.solver.push()
        try:
            for v in ex.vars:
                if isinstance(v, SC) and v.name in ex.narrow and v.name not in ex.relational:
                    cur = ex.narrow[v.name]
                    iv = self.rng.choice(cur.iv)
                    cp = self.rng.randint(iv[0], iv[1])
                    if self.rng.random() < 0.6 and iv[0] < 128:
                        cp = self.rng.randint(iv[0], min(iv[1], 127))
                    ex.solver.add(v.e == core.bvv(cp))
            if ex._check():
                return ex.solver.model()
        finally:
            ex.solver.pop()
        return ex.get_model()

    # ------------------------------------------------------------- one path
    def path(self, fn):
        ex = self.ex
        self._begin()
        if self.case.get("reset", True):
            self.private.restore_state()
        exc = None
        try:
            fn(self, **self.case.get("args", {}))
        except CheckStop:
            pass
        except (StepLimit,) as e:
            self.finish_fail("does not terminate within %d steps" % ex.max_steps, "steps")
            ex.pending_stop = None
            return
        except SymxStop:
            raise
        except RecursionError:
            exc = "RecursionError"
        except Exception as e:
            exc = "%s" % type(e).__name__
            self.exc_detail = e
        if ex.pending_stop is not None:
            if isinstance(ex.pending_stop, StepLimit):
                ex.pending_stop = None
                self.finish_fail("does not terminate within %d steps" % ex.max_steps, "steps")
                return
            raise ex.pending_stop
        if exc is not None:
            import traceback
            tb = traceback.format_exc() if False else "".join(traceback.format_exception(self.exc_detail))[-3000:] if exc != "RecursionError" else ""
            self.finish_fail("unexpected exception %s" % exc, "exc:" + exc, tb)
            return
        self.finish()

    def finish_fail(self, msg, kind, detail=""):
        m = self.ex.get_model()
        self.obligations += 1
        self.record(m, msg, kind, detail)

    def finish(self):
        ex = self.ex
        forms = []
        bad = None
        for t in self.todo:
            f = t[0]
            if f is False:
                bad = t
            elif f is not True:
                forms.append(f)
        n = len(self.todo)
        self.obligations += n
        if n:
            self.paths_with_checks += 1
        m = None
        if bad is None:
            goal = core.TRUE if not forms else (forms[0] if len(forms) == 1 else z3.And(forms))
            m = ex.valid(goal)
        else:
            m = ex.get_model()
        if m is None:
            self.discharged += n
            self.sample()
            return
        # which one
        for t in self.todo:
            f = t[0]
            if f is False or (f is not True and not z3.is_true(m.eval(f, model_completion=True))):
                msg = t[1]
                detail = ""
                if len(t) == 4:
                    detail = "got %r, expected %r" % (self.ev(m, t[2]), self.ev(m, t[3]))
                self.record(m, msg, "check", detail)
                return
        raise EngineError("refuting model refutes nothing")

    def record(self, m, msg, kind, detail):
        kn = [k for k in self.known_ids if k in self.listed]
        inp = self.eval_inputs(m)
        if kn:
            d = self.known_hits.setdefault(kn[0], [])
            if len(d) < 2:
                d.append(dict(inputs=inp, msg=msg, kind=kind, detail=detail))
            return
        self.failures.append(dict(inputs=inp, msg=msg, kind=kind, detail=detail, known=list(self.known_ids)))
        if len(self.failures) >= self.max_fail:
            self.ex.stop(Stop())

    def sample(self):
        want = self.case.get("samples", 6)
        i = self.ex.stats.paths
        if len(self.samples) < want // 2 or self.rng.random() < float(want) / (i + 1):
            if len(self.samples) >= 3 * want:
                return
            m = self.random_model()
            self.samples.append((self.eval_inputs(m), [[k, self.ev(m, v)] for k, v in self.obs]))

    # ------------------------------------------------------------- whole case
    def run(self, fn):
        ex = self.ex
        cap = 3000

        def one(_):
            try:
                self.path(fn)
            finally:
                if self.pcs_ok:
                    if len(self.pcs) >= cap:
                        self.pcs_ok = False
                    else:
                        fs = [d.f if d.val else z3.Not(d.f) for d in ex.trail if d.kind == "b"]
                        self.pcs.append(z3.And(fs) if len(fs) > 1 else (fs[0] if fs else core.TRUE))
        try:
            ex.explore(one)
        except Stop:
            ex.stop_reason = "failures"
        cert = None
        if ex.complete and self.pcs_ok:
            cert = self.certify()
        return cert

    def certify(self, budget_ms=8000):
        """Do the explored path conditions cover the whole input domain?  z3 decides."""
        from time import perf_counter as _perf_counter, time as _now
        s = z3.Solver()
        s.set("timeout", budget_ms)
        for dom, ax in self.axioms.values():
            s.add(ax)
        for p in self.pcs:
            s.add(z3.Not(p))
        t = _perf_counter()
        r = s.check()
        self.ex.stats.solver_s += _perf_counter() - t
        self.ex.stats.queries += 1
        if r == z3.sat:
            raise EngineError("explored paths do not cover the input domain: %s" % s.model())
        return r == z3.unsat


class Stop(SymxStop):
    pass
