"""Path exploration and obligation discharge.

A contract is executed once per feasible path of the real (instrumented) code
over symbolic values.  Every branch on a symbolic condition asks z3 which
outcomes are feasible under the path condition; infeasible ones are pruned,
feasible ones are explored by re-execution.  Every `check` is an obligation:
path condition => claim, which must be unsat when negated.
"""
import time, z3

class EngineExc(BaseException):
    """not an Exception, so the code under test cannot catch it"""
class PathStop(EngineExc):
    """this path is finished (e.g. end of an arbitrary loop iteration)"""
class Infeasible(EngineExc):
    pass
class Unsupported(EngineExc):
    """the construct is outside the engine's subset: contract undecided"""
class NoFork(EngineExc):
    """a case distinction while probing"""
class Budget(EngineExc):
    pass

z3.set_param('smt.random_seed', 0)
z3.set_param('sat.random_seed', 0)

CUR = None          # current Path

def cur():
    if CUR is None:
        raise Unsupported('symbolic operation outside a path')
    return CUR

def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.paths = 0

class Path:
    def __init__(self, ex, decisions):
        self.ex = ex
        self.decisions = list(decisions)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout_ms)
        self.facts = []
        self.cache = {}
        self.fresh_n = {}
        self.inputs = {}       # name -> descriptor for models
        self.notes = []
        self.assumptions = ex.assumptions
        self.aux = {}          # engine scratch per path
        self.maxdec = ex.max_decisions
        self.nofork = 0
        self.keep = []         # keep z3 asts alive so ids stay valid

    # -- names
    def fresh(self, hint):
        n = self.fresh_n.get(hint, 0); self.fresh_n[hint] = n + 1
        return '%s!%d' % (hint, n)
    def fresh_int(self, hint='i'):
        return z3.Int(self.fresh(hint))

    def fresh_nat(self, hint, lo=0):
        from .sym import SInt
        t = self.fresh_int(hint); self.add(t >= lo)
        return SInt(t, lo)

    # -- solver
    def _check(self, *extra):
        st = self.ex.stats
        t = time.time()
        if t > self.ex.deadline:
            raise Budget('time budget exhausted')
        r = self.solver.check(*extra)
        st.queries += 1; st.solver_s += time.time() - t
        return r

    def add(self, cond):
        cond = zbool(cond)
        self.solver.add(cond); self.facts.append(cond)

    def _const(self, cond):
        if isinstance(cond, bool): return cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        return None

    def simp(self, cond):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        k = self._const(c)
        return c if k is None else k

    def entails(self, cond):
        cond = self.simp(cond)
        if isinstance(cond, bool): return cond
        key = (cond.get_id(), len(self.facts)); self.keep.append(cond)
        if key in self.cache: return self.cache[key]
        r = self._check(z3.Not(cond)) == z3.unsat
        self.cache[key] = r
        return r

    def feasible(self, cond):
        cond = self.simp(cond)
        if cond is False: return False
        if cond is True: return True
        return self._check(cond) != z3.unsat

    def branch(self, cond):
        """decide a boolean on this path; explores both outcomes overall"""
        cond = self.simp(cond)
        if isinstance(cond, bool): return cond
        if self.nofork:
            if self._check(z3.Not(cond)) == z3.unsat: return True
            if self._check(cond) == z3.unsat: return False
            raise NoFork()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
            self.add(cond if d else z3.Not(cond))
            return d
        ft = self._check(cond) != z3.unsat
        ff = self._check(z3.Not(cond)) != z3.unsat if ft else True
        if ft and ff:
            self.ex.push(self.decisions + [False])
            d = True
        elif ft: d = True
        else: d = False
        if len(self.decisions) >= self.maxdec:
            raise Unsupported('more than %d decisions on one path' % self.maxdec)
        self.decisions.append(d); self.pos += 1
        self.add(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """case split over range(n) (not a solver query)"""
        if n == 1: return 0
        if self.nofork: raise NoFork()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]; self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.ex.push(self.decisions + [k])
        self.decisions.append(0); self.pos += 1
        return 0

    def assume(self, cond):
        cond = self.simp(cond)
        if cond is True: return
        if cond is False: raise Infeasible()
        self.add(cond)

    def assume_checked(self, cond):
        self.assume(cond)
        if self._check() == z3.unsat:
            raise Infeasible()

    def check(self, label, cond, kind='post'):
        """prove cond under the path condition"""
        if self.nofork: raise NoFork()
        t = time.time()
        c = self.simp(cond)
        if c is True: st, model = 'discharged', None
        else:
            r = self._check() if c is False else self._check(z3.Not(c))
            if r == z3.unsat:
                st, model = 'discharged', None
            elif r == z3.sat:
                st, model = 'failed', self.solver.model()
            else:
                st, model = 'unknown', None
        self.ex.record(label, kind, st, self, model, time.time() - t)
        if st == 'discharged':
            if c is not True: self.add(c)
        else:
            # continue under the claim, so later obligations are meaningful
            if c is False: raise PathStop()
            self.add(c)
            if self._check() == z3.unsat: raise PathStop()

class Obligation:
    def __init__(self, name, kind):
        self.name = name; self.kind = kind
        self.instances = 0; self.discharged = 0; self.failed = 0; self.unknown = 0
        self.time = 0.0; self.case = None
    def status(self):
        if self.failed: return 'failed'
        if self.unknown: return 'unknown'
        return 'discharged'

class Explorer:
    def __init__(self, timeout_ms=8000, deadline_s=120, max_paths=20000, max_decisions=4000):
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + deadline_s
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.work = [[]]
        self.obl = {}
        self.stats = Stats()
        self.assumptions = set()
        self.undecided = []
        self.completed = 0     # paths that ran to the end of the contract
        self.concretize = None; self.cand = {}; self.loops_cut = set(); self.loop_bodies = set(); self.functions = set()

    def push(self, d): self.work.append(d)

    def record(self, label, kind, st, path, model, dt):
        o = self.obl.get(label)
        if o is None: o = self.obl[label] = Obligation(label, kind)
        o.instances += 1; o.time += dt
        if st == 'discharged': o.discharged += 1
        elif st == 'failed':
            o.failed += 1
            if o.case is None and self.concretize is not None:
                try: o.case = self.concretize(path, model)
                except Exception as e: o.case = None
        else: o.unknown += 1

    def run(self, fn):
        """fn() executes the contract once on the current path"""
        global CUR
        while self.work:
            if self.stats.paths >= self.max_paths:
                self.undecided.append('more than %d paths' % self.max_paths); break
            d = self.work.pop()
            p = Path(self, d)
            self.stats.paths += 1
            CUR = p
            try:
                fn()
                self.completed += 1
            except PathStop: pass
            except Infeasible: pass
            except Unsupported as e:
                import traceback
                self.undecided.append('unsupported: %s' % e)
                self.last_tb = traceback.format_exc()
                if len(self.undecided) > 20: break
            except Budget as e:
                self.undecided.append(str(e)); break
            except RecursionError as e:
                self.undecided.append('recursion limit'); break
            finally:
                CUR = None
        return self
